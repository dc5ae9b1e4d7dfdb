//! G09: documents outside the supported language are refused, others accepted.
use crate::doc::*;
use mc_core::*;
use progenitor_impl::{validate_openapi, Generator};
use std::sync::Arc;

type Edit = Box<dyn Fn(&mut Value) + Sync + Send>;
struct Feature {
    name: String,
    supported: bool,
    /// Features of one group exclude each other.
    group: &'static str,
    edit: Edit,
}

fn op<'a>(d: &'a mut Value, i: usize) -> &'a mut Value {
    let (p, m) = [("/one/{id}", "get"), ("/one/{id}", "put"), ("/two", "post")][i];
    &mut d["paths"][p][m]
}
fn add_param(o: &mut Value, p: Value) {
    if o.get("parameters").is_none() {
        o["parameters"] = json!([]);
    }
    o["parameters"].as_array_mut().unwrap().push(p);
}

fn features() -> Vec<Feature> {
    let mut f: Vec<Feature> = Vec::new();
    let mut add = |name: String, supported: bool, group: &'static str, edit: Edit| f.push(Feature { name, supported, group, edit });
    let s = json!({"type": "string"});
    // Parameters of operations, of paths, inline or by reference.
    let mut params: Vec<(String, bool, Value)> = Vec::new();
    for style in ["form", "spaceDelimited", "pipeDelimited", "deepObject"] {
        for explode in [None, Some(true), Some(false)] {
            let mut p = json!({"name": "fq", "in": "query", "schema": s, "style": style});
            if let Some(e) = explode {
                p["explode"] = json!(e);
            }
            params.push((format!("query style {style} explode {explode:?}"), style == "form", p));
        }
    }
    params.push(("query without style".into(), true, json!({"name": "fq", "in": "query", "schema": s, "required": true, "allowReserved": true, "allowEmptyValue": true})));
    params.push(("header".into(), true, json!({"name": "fh", "in": "header", "schema": s})));
    params.push(("header simple".into(), true, json!({"name": "fh", "in": "header", "schema": s, "style": "simple", "required": true, "deprecated": true, "example": "x"})));
    params.push(("cookie".into(), false, json!({"name": "fc", "in": "cookie", "schema": s})));
    params.push(("cookie form".into(), false, json!({"name": "fc", "in": "cookie", "schema": s, "style": "form", "required": true})));
    params.push(("query by content".into(), false, json!({"name": "fq", "in": "query", "content": {"application/json": {"schema": s}}})));
    params.push(("header by content".into(), false, json!({"name": "fh", "in": "header", "content": {"text/plain": {"schema": s}}})));
    for (name, ok, p) in params {
        // Features in several places are different parameters.
        let named = |suffix: &str| {
            let mut q = p.clone();
            q["name"] = json!(format!("{}{suffix}", p["name"].as_str().unwrap()));
            q
        };
        for (place, group) in [(0usize, "param0"), (1, "param1"), (2, "param2")] {
            let q = named(&place.to_string());
            add(format!("{name} in operation {place}"), ok, group, Box::new(move |d| add_param(op(d, place), q.clone())));
        }
        let q = named("p");
        add(format!("{name} on path"), ok, "paramp", Box::new(move |d| add_param(&mut d["paths"]["/one/{id}"], q.clone())));
        let q = named("r");
        add(
            format!("{name} by reference"),
            ok,
            "paramr",
            Box::new(move |d| {
                d["components"]["parameters"]["Ref"] = json!({"$ref": "#/components/parameters/Deep"});
                d["components"]["parameters"]["Deep"] = q.clone();
                add_param(op(d, 2), json!({"$ref": "#/components/parameters/Ref"}));
            }),
        );
    }
    for style in ["simple", "matrix", "label"] {
        add(
            format!("path style {style}"),
            style == "simple",
            "pathstyle",
            Box::new(move |d| d["paths"]["/one/{id}"]["parameters"][0]["style"] = json!(style)),
        );
    }
    // Request bodies.
    let obj = json!({"type": "object", "properties": {"a": s}});
    let bin = json!({"type": "string", "format": "binary"});
    let mut bodies: Vec<(String, bool, Value)> = Vec::new();
    for (m, sch) in [
        ("application/json", &obj),
        ("application/x-www-form-urlencoded", &obj),
        ("application/octet-stream", &bin),
        ("text/plain", &s),
        ("text/x-markdown", &s),
    ] {
        for suffix in ["", "; charset=utf-8", ";charset=UTF-8"] {
            bodies.push((format!("{m}{suffix}"), true, json!({"content": {format!("{m}{suffix}"): {"schema": sch}}})));
        }
        bodies.push((format!("{m} without schema"), false, json!({"content": {m: {}}})));
    }
    for m in [
        "multipart/form-data", "application/xml", "text/html", "text/markdown", "image/png", "*/*", "application/*", "application/jsonx", "application/vnd.api+json",
        "json", "", "application/octet-streams", "text/plainx", "application/x-www-form-urlencodedx", "application",
    ] {
        bodies.push((format!("media type {m:?}"), false, json!({"content": {m: {"schema": s}}})));
    }
    bodies.push(("octet-stream of a plain string".into(), false, json!({"content": {"application/octet-stream": {"schema": s}}})));
    bodies.push(("octet-stream of an object".into(), false, json!({"content": {"application/octet-stream": {"schema": obj}}})));
    bodies.push(("text of an integer".into(), false, json!({"content": {"text/plain": {"schema": {"type": "integer"}}}})));
    bodies.push(("text of an object".into(), false, json!({"content": {"text/x-markdown": {"schema": obj}}})));
    // Anything that restricts a binary or text body; anything that does not.
    for (m, base) in [("application/octet-stream", &bin), ("text/plain", &s), ("text/x-markdown", &s)] {
        for (k, v) in [
            ("minLength", json!(0)),
            ("minLength", json!(1)),
            ("maxLength", json!(9)),
            ("pattern", json!("^a*$")),
            ("enum", json!(["a"])),
            ("nullable", json!(true)),
            ("default", json!("a")),
            ("discriminator", json!({"propertyName": "p"})),
            ("format", json!("byte")),
            ("format", json!("date")),
            ("format", json!("password")),
            ("format", json!("date-time")),
            ("format", json!("uuid")),
            ("format", if *base == bin { json!("bin") } else { json!("binary") }),
            ("type", json!("number")),
            ("type", json!("array")),
        ] {
            let mut sch = base.clone();
            sch[k] = v.clone();
            if v == "array" {
                sch = json!({"type": "array", "items": base});
            }
            bodies.push((format!("{m} with {k} {v}"), false, json!({"content": {m: {"schema": sch}}})));
        }
        for (k, v) in [
            ("description", json!("d")),
            ("title", json!("t")),
            ("example", json!("e")),
            ("readOnly", json!(true)),
            ("writeOnly", json!(true)),
            ("deprecated", json!(true)),
            ("externalDocs", json!({"url": "http://x"})),
            ("x-more", json!(1)),
        ] {
            let mut sch = base.clone();
            sch[k] = v;
            bodies.push((format!("{m} with {k}"), true, json!({"content": {m: {"schema": sch}}})));
        }
    }
    // Several media types, and encodings of parts.
    let kinds = [("application/json", &obj), ("application/x-www-form-urlencoded", &obj), ("application/octet-stream", &bin), ("text/plain", &s), ("text/x-markdown", &s), ("image/png", &bin)];
    for (i, (m, sch)) in kinds.iter().enumerate() {
        for (n, other) in &kinds[i + 1..] {
            bodies.push((format!("{m} or {n}"), false, json!({"content": {*m: {"schema": sch}, *n: {"schema": other}}})));
            bodies.push((format!("{n} or {m}"), false, json!({"content": {*n: {"schema": other}, *m: {"schema": sch}}})));
        }
    }
    bodies.push(("all media types".into(), false, json!({"content": kinds.iter().map(|(m, sch)| (m.to_string(), json!({"schema": sch}))).collect::<serde_json::Map<_, _>>()})));
    for (m, sch) in &kinds[..2] {
        bodies.push((format!("{m} with an encoding"), false, json!({"content": {*m: {"schema": sch, "encoding": {"a": {"contentType": "text/plain"}}}}})));
        bodies.push((format!("{m} with no encoding"), true, json!({"content": {*m: {"schema": sch, "encoding": {}, "example": {"a": "b"}}}})));
    }
    bodies.push(("no media type".into(), true, json!({"content": {}})));
    for (name, ok, b) in bodies {
        for (place, group) in [(1usize, "body1"), (2, "body2")] {
            let q = b.clone();
            add(format!("body {name} in operation {place}"), ok, group, Box::new(move |d| op(d, place)["requestBody"] = q.clone()));
        }
        let q = b.clone();
        add(
            format!("body {name} by reference"),
            ok,
            "body2",
            Box::new(move |d| {
                d["components"]["requestBodies"]["Ref"] = json!({"$ref": "#/components/requestBodies/Deep"});
                d["components"]["requestBodies"]["Deep"] = q.clone();
                op(d, 2)["requestBody"] = json!({"$ref": "#/components/requestBodies/Ref"});
            }),
        );
    }
    // Operation IDs.
    for (i, j) in [(0usize, 1usize), (0, 2), (1, 2)] {
        add(
            format!("operation ID of {i} again on {j}"),
            false,
            "opid",
            Box::new(move |d| {
                let id = op(d, i)["operationId"].clone();
                op(d, j)["operationId"] = id;
            }),
        );
    }
    for i in 0..3 {
        add(
            format!("operation {i} without operation ID"),
            false,
            "opid",
            Box::new(move |d| {
                op(d, i).as_object_mut().unwrap().remove("operationId");
            }),
        );
    }
    add("other operation IDs".into(), true, "opid", Box::new(|d| {
        for i in 0..3 {
            op(d, i)["operationId"] = json!(["alpha-Beta", "x.y", "Zed_1"][i]);
        }
    }));
    // Paths.
    add("path by reference".into(), false, "path", Box::new(|d| d["paths"]["/three"] = json!({"$ref": "#/components/pathItems/P"})));
    add("path by reference first".into(), false, "path", Box::new(|d| {
        let old = d["paths"].take();
        d["paths"] = json!({"/aaa": {"$ref": "other.json"}});
        for (k, v) in old.as_object().unwrap() {
            d["paths"][k] = v.clone();
        }
    }));
    // Path parameters that are not those of the path.
    let pp = |n: &str| json!({"name": n, "in": "path", "required": true, "schema": {"type": "string"}});
    for (path, names, supported) in [
        ("/three/{a}", vec!["a"], true),
        ("/three/{a}", vec![], false),
        ("/three/{a}", vec!["b"], false),
        ("/three/{a}", vec!["A"], false),
        ("/three/{a}", vec!["a", "b"], false),
        ("/three/{a}", vec!["b", "a"], false),
        ("/three/{a_b}", vec!["a-b"], false),
        ("/three/{a}/{b}", vec!["a", "b"], true),
        ("/three/{a}/{b}", vec!["b", "a"], true),
        ("/three/{a}/{b}", vec!["a"], false),
        ("/three/{a}/{b}", vec!["b"], false),
        ("/three/{a}/{b}", vec!["a", "c"], false),
        ("/three/{a}/{b}", vec!["a", "b", "c"], false),
        ("/three/{a}/{b}/{c}", vec!["c", "a", "b"], true),
        ("/three/{a}/{b}/{c}", vec!["a", "c"], false),
        ("/three", vec![], true),
        ("/three", vec!["a"], false),
        ("/three", vec!["three"], false),
        ("/three/a", vec!["a"], false),
    ] {
        // All declared for the path, all for the operation, or one of each.
        let mut splits = vec![0, 1.min(names.len()), names.len()];
        splits.dedup();
        for on_path in splits {
            let names: Vec<Value> = names.iter().map(|n| pp(n)).collect();
            let label = format!("path {path} with {:?}, {on_path} of them on the path", names.iter().map(|n| n["name"].as_str().unwrap()).collect::<Vec<_>>());
            add(label, supported, "path", Box::new(move |d| {
                d["paths"][path] = json!({"parameters": names[..on_path], "get": {"operationId": "names", "parameters": names[on_path..], "responses": {}}});
            }));
        }
    }
    for (r, what) in [(json!(false), "optional"), (Value::Null, "neither required nor optional")] {
        add(format!("path parameter {what}"), false, "pathstyle", Box::new(move |d| {
            let o = d["paths"]["/one/{id}"]["parameters"][0].as_object_mut().unwrap();
            if r.is_null() { o.remove("required"); } else { o.insert("required".into(), r.clone()); }
        }));
    }
    // Answers whose content is not described.
    for st in ["200", "2XX", "404", "5XX", "default"] {
        for m in ["application/json", "application/json; charset=utf-8", "application/json;v=1"] {
            for (what, mt) in [("without schema", json!({})), ("with an example only", json!({"example": 1})), ("with an encoding", json!({"schema": s, "encoding": {"a": {}}}))] {
                let r = json!({"description": "", "content": {m: mt}});
                add(format!("answer {st} of {m} {what}"), false, "resp", Box::new(move |d| op(d, 1)["responses"] = json!({st: r})));
            }
        }
        for m in ["text/plain", "application/jsonx", "application/octet-stream", "*/*"] {
            let r = json!({"description": "", "content": {m: {}}});
            add(format!("answer {st} of {m} without schema"), true, "resp", Box::new(move |d| op(d, 1)["responses"] = json!({st: r})));
        }
    }
    // References that lead nowhere, in circles, elsewhere, or to something else.
    for (kind, section, name, group) in [
        ("parameter", "parameters", "BadP", "paramr"),
        ("path parameter", "parameters", "BadQ", "paramr"),
        ("body", "requestBodies", "BadB", "body2"),
        ("answer 200", "responses", "BadR", "resp"),
        ("answer 4XX", "responses", "BadS", "resp"),
        ("answer default", "responses", "BadT", "resp"),
        ("binary schema", "schemas", "BadU", "body2"),
        ("text schema", "schemas", "BadV", "body2"),
    ] {
        let here = format!("#/components/{section}/{name}");
        let good = match section {
            "parameters" => json!({"name": "fb", "in": "query", "schema": s}),
            "requestBodies" => json!({"content": {"application/json": {"schema": obj}}}),
            "responses" => json!({"description": "b"}),
            _ if kind == "binary schema" => bin.clone(),
            _ => s.clone(),
        };
        let other = if section == "responses" { "requestBodies" } else { "responses" };
        let other_good = if section == "responses" { json!({"content": {}}) } else { json!({"description": "b"}) };
        let to = |r: &str| json!({"$ref": r});
        // (what, reference, components to be there)
        let mut bad: Vec<(&str, String, Vec<(String, String, Value)>)> = vec![
            ("missing", here.clone(), vec![]),
            ("missing among others", here.clone(), vec![(section.into(), format!("{name}x"), good.clone())]),
            ("in another section", format!("#/components/{other}/{name}"), vec![(other.into(), name.into(), other_good.clone())]),
            ("under the name of another section", format!("#/components/{other}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("in another document", format!("other.json#/components/{section}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("on another host", format!("https://example.com/api.json#/components/{section}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("without components", format!("#/{section}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("without fragment", format!("components/{section}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("by name", name.to_string(), vec![(section.into(), name.into(), good.clone())]),
            ("below a component", format!("{here}/{name}"), vec![(section.into(), name.into(), good.clone())]),
            ("empty", String::new(), vec![]),
            ("to the document", "#".into(), vec![]),
            ("to the section", format!("#/components/{section}/"), vec![(section.into(), name.into(), good.clone())]),
        ];
        if section != "schemas" {
            let n = |i: usize| format!("{name}{i}");
            let r = |i: usize| format!("#/components/{section}/{name}{i}");
            for len in 1..=4usize {
                // A circle of `len` components, entered at once or after one more.
                let circle: Vec<_> = (0..len).map(|i| (section.to_string(), n(i), to(&r((i + 1) % len)))).collect();
                bad.push(("in a circle", r(0), circle.clone()));
                let mut tail = circle;
                tail.push((section.into(), n(9), to(&r(len - 1))));
                bad.push(("leading to a circle", r(9), tail));
                let mut chain: Vec<_> = (0..len).map(|i| (section.to_string(), n(i), to(&r(i + 1)))).collect();
                bad.push(("leading nowhere", r(0), chain.clone()));
                chain.last_mut().unwrap().2 = to(&format!("x.yaml{here}"));
                chain.push((section.into(), name.into(), good.clone()));
                bad.push(("leading elsewhere", r(0), chain));
            }
        }
        bad.push(("to a component", here.clone(), vec![(section.into(), name.into(), good.clone())]));
        for (what, reference, components) in bad {
            let size = components.len();
            add(format!("reference of {kind} {what} ({size})"), what == "to a component", group, Box::new(move |d| {
                for (sec, n, v) in &components {
                    d["components"][sec][n] = v.clone();
                }
                let r = json!({"$ref": reference});
                match kind {
                    "parameter" => add_param(op(d, 2), r),
                    "path parameter" => add_param(&mut d["paths"]["/one/{id}"], r),
                    "body" => op(d, 2)["requestBody"] = r,
                    "binary schema" => op(d, 2)["requestBody"] = json!({"content": {"application/octet-stream": {"schema": r}}}),
                    "text schema" => op(d, 2)["requestBody"] = json!({"content": {"text/plain": {"schema": r}}}),
                    "answer 200" => op(d, 1)["responses"] = json!({"200": r}),
                    "answer 4XX" => op(d, 1)["responses"] = json!({"200": {"description": ""}, "4XX": r}),
                    _ => op(d, 1)["responses"] = json!({"200": {"description": ""}, "default": r}),
                }
            }));
        }
    }
    // Operation IDs given twice or not at all, whatever the method.
    for m in ["get", "put", "post", "delete", "options", "head", "patch", "trace"] {
        for (what, id) in [("a repeated", Some("first")), ("no", None)] {
            add(format!("{m} with {what} operation ID"), false, "path", Box::new(move |d| {
                d["paths"]["/three"][m] = json!({"responses": {}});
                if let Some(id) = id {
                    d["paths"]["/three"][m]["operationId"] = json!(id);
                    op(d, 0)["operationId"] = json!(id);
                }
            }));
        }
    }
    add("empty path item".into(), true, "path", Box::new(|d| d["paths"]["/three"] = json!({})));
    add("path with all methods".into(), true, "path", Box::new(|d| {
        for m in ["get", "put", "post", "delete", "options", "head", "patch", "trace"] {
            d["paths"]["/three"][m] = json!({"operationId": format!("all {m}"), "responses": {}});
        }
    }));
    add("extension at paths".into(), true, "ext", Box::new(|d| d["paths"]["x-ext"] = json!({"a": 1})));
    add("extension at operation".into(), true, "ext", Box::new(|d| op(d, 0)["x-ext"] = json!(null)));
    add("security, servers, tags, callbacks".into(), true, "misc", Box::new(|d| {
        d["servers"] = json!([{"url": "https://example.com/v1"}]);
        d["security"] = json!([{"k": []}]);
        d["tags"] = json!([{"name": "t"}]);
        d["components"]["securitySchemes"] = json!({"k": {"type": "apiKey", "in": "cookie", "name": "c"}});
        op(d, 0)["tags"] = json!(["t", "u"]);
        op(d, 1)["deprecated"] = json!(true);
        op(d, 2)["servers"] = json!([{"url": "/x"}]);
        op(d, 2)["summary"] = json!("s");
    }));
    for (st, r) in [
        ("200", json!({"description": "x", "content": {"application/json": {"schema": s}}})),
        ("2XX", json!({"description": "x"})),
        ("default", json!({"description": "x", "content": {"text/html": {}}})),
        ("404", json!({"description": "x", "content": {"application/json; charset=utf-8": {"schema": s}}})),
        ("5XX", json!({"$ref": "#/components/responses/R"})),
        ("302", json!({"description": "x", "headers": {"Location": {"schema": s}}})),
    ] {
        add(format!("response {st}"), true, "resp", Box::new(move |d| {
            d["components"]["responses"]["R"] = json!({"description": "r"});
            op(d, 0)["responses"] = json!({st: r});
        }));
    }
    add("websocket".into(), true, "mark", Box::new(|d| op(d, 2)["x-dropshot-websocket"] = json!({})));
    add("paginated".into(), true, "mark", Box::new(|d| paginated(d)));
    add("paginated websocket".into(), false, "mark", Box::new(|d| {
        paginated(d);
        op(d, 0)["x-dropshot-websocket"] = json!({});
    }));
    f
}

fn paginated(d: &mut Value) {
    let o = op(d, 0);
    o["x-dropshot-pagination"] = json!({"required": []});
    add_param(o, json!({"name": "page_token", "in": "query", "schema": {"type": "string"}}));
    add_param(o, json!({"name": "limit", "in": "query", "schema": {"type": "integer"}}));
    o["responses"] = json!({"200": {"description": "", "content": {"application/json": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string", "nullable": true}}}}}}});
}

fn base() -> Value {
    let o = |id: &str| json!({"operationId": id, "responses": {"200": {"description": ""}}});
    doc(
        json!({
            "/one/{id}": {"parameters": [{"name": "id", "in": "path", "required": true, "schema": {"type": "string"}}], "get": o("first"), "put": o("second")},
            "/two": {"post": o("third")},
        }),
        json!({}),
    )
}

/// All ways to feed the document to the generator.
fn verdicts(d: &Value) -> Result<Vec<(&'static str, Gen)>, String> {
    let spec: openapiv3::OpenAPI = match serde_json::from_value(d.clone()) {
        Ok(s) => s,
        Err(e) => return Err(format!("the document of the check does not parse: {e}")),
    };
    Ok(vec![
        ("positional", generate(Style::Positional, &spec)),
        ("builder", generate(Style::Builder, &spec)),
        ("tagged", generate(Style::Tagged, &spec)),
    ])
}

pub fn run(c: &Arc<Check>) {
    let fs = features();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    // Variations of one feature are left out of the triples.
    let minor = |i: usize| ["with ", " or ", "media type ", "reference of answer ", " on path", "answer "].iter().any(|m| fs[i].name.contains(m));
    for i in 0..fs.len() {
        sets.push(vec![i]);
        for j in i + 1..fs.len() {
            if fs[i].group != fs[j].group {
                sets.push(vec![i, j]);
                if c.thorough && !minor(i) && !minor(j) {
                    // Triples with an unsupported feature among them.
                    for k in j + 1..fs.len() {
                        let apart = fs[k].group != fs[j].group && fs[k].group != fs[i].group;
                        if apart && !minor(k) && [i, j, k].iter().filter(|x| !fs[**x].supported).count() == 1 {
                            sets.push(vec![i, j, k]);
                        }
                    }
                }
            }
        }
    }
    c.extra("features", json!(fs.iter().map(|f| format!("{}{}", if f.supported { "" } else { "! " }, f.name)).collect::<Vec<_>>()));
    par(&sets, |set| {
        if c.stopped() {
            return;
        }
        // A websocket operation with a body of any kind, or a page with an
        // own response: the operation is one thing or the other.
        let names: Vec<_> = set.iter().map(|i| fs[*i].name.as_str()).collect();
        let has = |n: &str| names.iter().any(|x| x.contains(n));
        if has("paginated") && has("response ") {
            return;
        }
        // A required query parameter makes it no paginated operation.
        if has("paginated websocket") && (has("without style in operation 0") || has("without style on path")) {
            return;
        }
        let mut d = base();
        // The operation IDs and path edits come last: others name operations.
        let mut order = set.clone();
        order.sort_by_key(|i| matches!(fs[*i].group, "path" | "opid"));
        for i in &order {
            (fs[*i].edit)(&mut d);
        }
        let supported = set.iter().all(|i| fs[*i].supported);
        c.state(&names);
        c.case(
            || format!("features {names:?}"),
            || {
                for (how, g) in verdicts(&d)? {
                    c.trans(1);
                    c.outcome(g.class());
                    let ok = match &g {
                        Gen::Code(_) => supported,
                        Gen::Refused(_) => !supported,
                        Gen::Panicked(_) => false,
                    };
                    if !ok {
                        let shown: String = format!("{g:?}").chars().take(300).collect();
                        return Err(format!("{how}: supported {supported}, but {} ({shown}); document {d}", g.class()));
                    }
                }
                // The command line and the mock refuse what the client refuses.
                if !supported {
                    let spec = parse(&d);
                    for what in ["command line", "mock"] {
                        let r = quietly(|| {
                            let mut g = Generator::new(&settings(Style::Builder));
                            if what == "mock" { g.httpmock(&spec, "k").map(|_| ()) } else { g.cli(&spec, "k").map(|_| ()) }
                        });
                        c.trans(1);
                        match r {
                            Ok(Err(_)) => {}
                            Ok(Ok(())) => return Err(format!("the {what} is generated for an unsupported document {d}")),
                            Err(p) => return Err(format!("generating the {what} panicked: {p}")),
                        }
                    }
                }
                Ok(())
            },
        );
    });

    // Versions.
    let mut versions = Vec::new();
    for a in ["0", "1", "2", "3", "4", "30", "03", "33", "v3", "-3", ""] {
        for b in ["0", "1", "2", "00", "01", "10", "0x", ""] {
            for p in [None, Some("0"), Some("1"), Some("2"), Some("3"), Some("4"), Some("9"), Some("10"), Some("0-rc1"), Some("5-draft")] {
                versions.push(match p {
                    Some(p) => format!("{a}.{b}.{p}"),
                    None => format!("{a}.{b}"),
                });
            }
        }
        versions.push(a.to_string());
    }
    for v in ["x3.0.1", "13.0.1", "3.00.1", "3..0.1", "2.3.0.1", "3,0,1", "three", "3.1.3.0.0", "openapi 3.0.0", "2.0", "3_0_0"] {
        versions.push(v.into());
    }
    par(&versions, |v| {
        let mut parts = v.split('.');
        let supported = parts.next() == Some("3") && parts.next() == Some("0") && parts.next().map_or(false, |p| !p.is_empty());
        let mut d = base();
        d["openapi"] = json!(v);
        c.state(v);
        c.case(
            || format!("version {v:?}"),
            || {
                let spec = parse(&d);
                let val = validate_openapi(&spec).is_ok();
                for (how, g) in verdicts(&d)? {
                    c.trans(1);
                    c.outcome(if supported { "version accepted" } else { "version refused" });
                    if matches!(g, Gen::Code(_)) != supported || matches!(g, Gen::Panicked(_)) {
                        return Err(format!("{how}: {}, supported {supported}", g.class()));
                    }
                }
                for what in ["command line", "mock"] {
                    let r = quietly(|| {
                        let mut g = Generator::new(&settings(Style::Builder));
                        if what == "mock" { g.httpmock(&spec, "k").map(|_| ()) } else { g.cli(&spec, "k").map(|_| ()) }
                    });
                    c.trans(1);
                    if !matches!((&r, supported), (Ok(Ok(())), true) | (Ok(Err(_)), false)) {
                        return Err(format!("generating the {what}: {r:?}, supported {supported}"));
                    }
                }
                if val != supported {
                    return Err(format!("validation says {val}, supported {supported}"));
                }
                Ok(())
            },
        );
    });
    c.bound(format!("{} features and every pair of compatible ones{} on a document of three operations; {} version strings; 3 styles, command line and mock", fs.len(), if c.thorough { " (and, apart from variations of one feature, every triple with exactly one unsupported feature)" } else { "" }, versions.len()));
    c.assume("Not judged: encodings of binary and text bodies.");
    kinds(c);
}

/// Answers of several kinds: one for all successes and one for all errors.
fn kinds(c: &Arc<Check>) {
    const STATUSES: [&str; 12] = ["101", "200", "201", "299", "2XX", "302", "400", "404", "599", "4XX", "5XX", "default"];
    const KINDS: [&str; 5] = ["A", "B", "none", "raw", "raw too"];
    let most = if c.thorough { 4 } else { 3 };
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut at = 0;
    while at < sets.len() {
        let s = sets[at].clone();
        at += 1;
        if s.len() == most {
            continue;
        }
        for st in s.last().map_or(0, |x| x.0 + 1)..STATUSES.len() {
            for k in 0..KINDS.len() {
                let mut s = s.clone();
                s.push((st, k));
                sets.push(s);
            }
        }
    }
    let jobs: Vec<(&Vec<(usize, usize)>, bool)> = sets.iter().filter(|s| !s.is_empty()).flat_map(|s| [false, true].map(|w| (s, w))).collect();
    par(&jobs, |(set, websocket)| {
        let named: Vec<(&str, &str)> = set.iter().map(|(s, k)| (STATUSES[*s], KINDS[*k])).collect();
        let kind = |k: &str| if k == "raw too" { "raw" } else { k }.to_string();
        let of = |what: &dyn Fn(&str) -> bool| named.iter().filter(|(s, _)| what(s)).map(|(_, k)| kind(k)).collect::<std::collections::BTreeSet<_>>();
        let has = |s: &str| named.iter().any(|n| n.0 == s);
        let mut good = of(&|s| ["101", "200", "201", "299", "2XX"].contains(&s) || s == "default" && !has("2XX"));
        let bad = of(&|s| ["400", "404", "599", "4XX", "5XX", "default"].contains(&s));
        // Without a success, any is taken as it is.
        if !named.iter().any(|(s, _)| s.starts_with('2') || *s == "default") {
            good.insert("raw".into());
        }
        let supported = good.len() <= 1 && bad.len() <= 1;
        let mut d = base();
        for t in ["A", "B"] {
            d["components"]["schemas"][t] = json!({"type": "object", "properties": {t.to_lowercase(): {"type": "string"}}});
        }
        let mut rs = json!({});
        for (s, k) in &named {
            rs[*s] = match *k {
                "none" => json!({"description": ""}),
                "raw" => json!({"description": "", "content": {"text/plain": {"schema": {"type": "string"}}}}),
                "raw too" => json!({"description": "", "content": {"image/png": {}}}),
                t => json!({"description": "", "content": {"application/json": {"schema": {"$ref": format!("#/components/schemas/{t}")}}}}),
            };
        }
        let o = op(&mut d, 2);
        o["responses"] = rs;
        if *websocket {
            o["x-dropshot-websocket"] = json!({});
        }
        c.state(&(set, websocket));
        c.case(
            || format!("answers {named:?}{}", if *websocket { " of a websocket" } else { "" }),
            || {
                let spec = parse(&d);
                let mut all = verdicts(&d)?;
                all.push(("command line", match quietly(|| Generator::new(&settings(Style::Builder)).cli(&spec, "k").map(|t| t.to_string())) {
                    Ok(Ok(t)) => Gen::Code(t),
                    Ok(Err(e)) => Gen::Refused(e.to_string()),
                    Err(p) => Gen::Panicked(p),
                }));
                for (how, g) in all {
                    c.trans(1);
                    let ok = match &g {
                        Gen::Code(_) => supported || *websocket,
                        Gen::Refused(_) => !supported || *websocket,
                        Gen::Panicked(_) => false,
                    };
                    c.outcome(if supported { "answers of one kind" } else { "answers of several kinds" });
                    if !ok {
                        let shown: String = format!("{g:?}").chars().take(300).collect();
                        return Err(format!("{how}: one kind {supported}, but {} ({shown}); document {d}", g.class()));
                    }
                }
                Ok(())
            },
        );
    });
    c.bound(format!("all sets of at most {most} of {} statuses, each with one of {} kinds of answer, as a plain and a websocket operation", STATUSES.len(), KINDS.len()));
}
