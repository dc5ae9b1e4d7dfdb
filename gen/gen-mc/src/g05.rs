//! G05: exactly the eligible operations are offered as streams.
use crate::doc::*;
use mc_core::*;
use std::sync::Arc;

fn q(name: &str, loc: &str, required: bool, schema: Value) -> Value {
    json!({"name": name, "in": loc, "required": required, "schema": schema})
}

pub fn run(c: &Arc<Check>) {
    let s = || json!({"type": "string"});
    let n = || json!({"type": "integer", "format": "uint32", "minimum": 1});
    // Each dimension: (what, parameters or parts, still eligible).
    let marks: Vec<(&str, Option<Value>, bool)> = vec![
        ("no mark", None, false),
        ("mark true", Some(json!(true)), true),
        ("mark {}", Some(json!({})), true),
        ("mark required", Some(json!({"required": ["p"]})), true),
        ("mark null", Some(json!(null)), true),
    ];
    let tokens: Vec<(&str, Option<Value>, bool)> = vec![
        ("optional page_token", Some(q("page_token", "query", false, json!({"type": "string", "nullable": true}))), true),
        ("plain page_token", Some(q("page_token", "query", false, s())), true),
        ("page_token limited in length", Some(q("page_token", "query", false, json!({"type": "string", "maxLength": 9}))), false),
        ("page_token by reference", Some(q("page_token", "query", false, json!({"$ref": "#/components/schemas/Token"}))), false),
        ("integer page_token", Some(q("page_token", "query", false, json!({"type": "integer"}))), false),
        ("uuid page_token", Some(q("page_token", "query", false, json!({"type": "string", "format": "uuid", "nullable": true}))), false),
        ("required page_token", Some(q("page_token", "query", true, s())), false),
        ("header page_token", Some(q("page_token", "header", false, s())), false),
        ("pageToken", Some(q("pageToken", "query", false, s())), false),
        ("no page_token", None, false),
    ];
    let limits: Vec<(&str, Option<Value>, bool)> = vec![
        ("optional limit", Some(q("limit", "query", false, n())), true),
        ("nullable limit", Some(q("limit", "query", true, json!({"type": "integer", "nullable": true}))), true),
        ("required limit", Some(q("limit", "query", true, n())), false),
        ("header limit", Some(q("limit", "header", false, n())), false),
        ("Limit", Some(q("Limit", "query", false, n())), false),
        ("no limit", None, false),
    ];
    let others: Vec<(&str, Vec<Value>, bool)> = vec![
        ("nothing else", vec![], true),
        ("optional query", vec![q("sort", "query", false, s())], true),
        ("required query", vec![q("sort", "query", true, s())], false),
        ("required nullable query", vec![q("sort", "query", true, json!({"type": "string", "nullable": true}))], true),
        ("required header", vec![q("h", "header", true, s())], true),
        ("optional header", vec![q("h", "header", false, s())], true),
        ("optional then required query", vec![q("a", "query", false, s()), q("z", "query", true, s())], false),
    ];
    let bodies: Vec<(&str, Option<Value>, bool)> = vec![
        ("no body", None, true),
        ("json body", Some(json!({"content": {"application/json": {"schema": {"type": "object", "properties": {"a": s()}}}}})), true),
        ("form body", Some(json!({"content": {"application/x-www-form-urlencoded": {"schema": {"$ref": "#/components/schemas/Form"}}}})), true),
        ("octet body", Some(json!({"content": {"application/octet-stream": {"schema": {"type": "string", "format": "binary"}}}})), false),
        ("text body", Some(json!({"content": {"text/plain": {"schema": {"type": "string"}}}})), false),
    ];
    let page = |p: Value, r: Value| json!({"type": "object", "properties": p, "required": r});
    let arr = || json!({"type": "array", "items": {"type": "string"}});
    let nt = || json!({"type": "string", "nullable": true});
    let schemas: Vec<(&str, Value, bool)> = vec![
        ("page", page(json!({"items": arr(), "next_page": nt()}), json!(["items"])), true),
        ("page with required next_page", page(json!({"items": arr(), "next_page": nt()}), json!(["items", "next_page"])), true),
        ("page with optional items", page(json!({"items": arr(), "next_page": s()}), json!([])), true),
        ("page of objects", page(json!({"items": {"type": "array", "items": {"$ref": "#/components/schemas/Form"}}, "next_page": s()}), json!(["items"])), true),
        ("page by reference", json!({"$ref": "#/components/schemas/Page"}), true),
        ("next_page not optional", page(json!({"items": arr(), "next_page": s()}), json!(["next_page"])), false),
        ("next_page integer", page(json!({"items": arr(), "next_page": {"type": "integer", "nullable": true}}), json!(["items"])), false),
        ("next_page uuid", page(json!({"items": arr(), "next_page": {"type": "string", "format": "uuid"}}), json!(["items"])), false),
        ("no next_page", page(json!({"items": arr()}), json!(["items"])), false),
        ("no items", page(json!({"next_page": nt()}), json!([])), false),
        ("items not an array", page(json!({"items": s(), "next_page": nt()}), json!(["items"])), false),
        ("items nullable array", page(json!({"items": {"type": "array", "items": s(), "nullable": true}, "next_page": nt()}), json!(["items"])), false),
        ("item instead of items", page(json!({"item": arr(), "next_page": nt()}), json!(["item"])), false),
        ("extra property", page(json!({"items": arr(), "next_page": nt(), "total": {"type": "integer"}}), json!(["items"])), false),
        ("bare array", arr(), false),
        ("string", s(), false),
    ];
    let resp = |sch: &Value| json!({"description": "", "content": {"application/json": {"schema": sch}}});
    let none = || json!({"description": ""});
    let raw = || json!({"description": "", "content": {"text/html": {}}});
    // (what, statuses carrying the schema, others, single typed success)
    let shapes: Vec<(&str, Vec<&str>, Vec<(&str, Value)>, bool)> = vec![
        ("200", vec!["200"], vec![], true),
        ("201", vec!["201"], vec![], true),
        ("2XX", vec!["2XX"], vec![], true),
        ("202", vec!["202"], vec![], true),
        ("206", vec!["206"], vec![], true),
        ("207", vec!["207"], vec![], true),
        ("226", vec!["226"], vec![], true),
        ("299", vec!["299"], vec![], true),
        ("default", vec!["default"], vec![], false),
        ("200 and the same default", vec!["200", "default"], vec![], true),
        ("2XX and a typed default", vec!["2XX"], vec![("default", resp(&json!({"$ref": "#/components/schemas/Form"})))], true),
        ("302", vec!["302"], vec![], false),
        ("100", vec!["100"], vec![], false),
        ("200 and 302 typed", vec!["200"], vec![("302", resp(&json!({"$ref": "#/components/schemas/Form"})))], true),
        ("200 and 3XX of the same type", vec!["200", "3XX"], vec![], true),
        ("226 and 299", vec!["226", "299"], vec![], false),
        ("200 and 4XX typed", vec!["200"], vec![("4XX", resp(&json!({"$ref": "#/components/schemas/Form"})))], true),
        ("200 and 5XX raw", vec!["200"], vec![("500", raw())], true),
        ("200 and 400 of the same type", vec!["200", "400"], vec![], true),
        ("200 and 201", vec!["200", "201"], vec![], false),
        ("200 and 2XX", vec!["200", "2XX"], vec![], false),
        ("only an error", vec!["400"], vec![], false),
        ("204 without content", vec![], vec![("204", none())], false),
        ("200 raw", vec![], vec![("200", raw())], false),
        ("nothing", vec![], vec![], false),
    ];
    // Methods, with or without parameters in the path, tags.
    let methods: [(&str, &str); 9] = [("get", "/x/{id}"), ("post", "/x/{id}"), ("put", "/x/{id}"), ("delete", "/x/{id}"), ("patch", "/x/{id}"), ("options", "/x/{id}"), ("trace", "/x/{id}"), ("get", "/x"), ("post", "/{id}/y/{z}")];
    let comps = json!({"schemas": {
        "Form": {"type": "object", "properties": {"f": {"type": "string"}}},
        "Token": {"type": "string"},
        "Page": page(json!({"items": arr(), "next_page": nt()}), json!(["items"])),
    }});
    let mut jobs = Vec::new();
    for m in &marks {
        for t in &tokens {
            for l in &limits {
                for o in &others {
                    for b in &bodies {
                        jobs.push((m, t, l, o, b));
                    }
                }
            }
        }
    }
    par(&jobs, |(m, t, l, o, b)| {
        for sch in &schemas {
            for sh in &shapes {
              for (mi, method) in methods.iter().enumerate() {
                // The full product of the page and response dimensions only
                // with at most one deviation elsewhere (thorough: two).
                let dev = [!m.2, !t.2, !l.2, !o.2, !b.2, !sch.2, !sh.3].iter().filter(|x| **x).count();
                let far = [m.0 != "mark true", t.0 != "optional page_token", l.0 != "optional limit", o.0 != "nothing else", b.0 != "no body", sch.0 != "page", sh.0 != "200", mi > 0, mi > 0]
                    .iter()
                    .filter(|x| **x)
                    .count();
                if far > if c.thorough { 4 } else { 3 } {
                    continue;
                }
                let eligible = dev == 0;
                let mut op = json!({"operationId": "list_all", "responses": {}});
                if let Some(x) = &m.1 {
                    op["x-dropshot-pagination"] = x.clone();
                }
                let mut ps: Vec<Value> = ["id", "z"].iter().filter(|n| method.1.contains(&format!("{{{n}}}"))).map(|n| q(n, "path", true, s())).collect();
                ps.extend(o.1.iter().cloned());
                ps.extend(t.1.iter().cloned());
                ps.extend(l.1.iter().cloned());
                op["parameters"] = json!(ps);
                if let Some(x) = &b.1 {
                    op["requestBody"] = x.clone();
                }
                for st in &sh.1 {
                    op["responses"][*st] = resp(&sch.1);
                }
                for (st, r) in &sh.2 {
                    op["responses"][*st] = r.clone();
                }
                let d = doc(json!({method.1: {method.0: op}}), comps.clone());
                let spec = parse(&d);
                let key = format!("{} {}; {}; {}; {}; {}; {}; {}; {}", method.0, method.1, m.0, t.0, l.0, o.0, b.0, sch.0, sh.0);
                c.state(&key);
                for style in STYLES {
                    c.case(
                        || format!("{style:?}: {key}"),
                        || {
                            let api = generate(style, &spec).api()?;
                            c.trans(1);
                            let (call, stream) = if style == Style::Positional {
                                (api.methods.contains_key("list_all"), api.streams.contains_key("list_all"))
                            } else {
                                let b = api.starts.get("list_all").and_then(|b| api.builders.get(b));
                                (b.map_or(false, |b| b.send.is_some()), b.map_or(false, |b| b.stream))
                            };
                            if !call {
                                return Err("the operation is not offered as a call".into());
                            }
                            c.outcome(if stream { "offered as a stream" } else { "only a call" });
                            if stream != eligible {
                                return Err(format!("offered as a stream: {stream}, eligible: {eligible}"));
                            }
                            Ok(())
                        },
                    );
                }
              }
            }
        }
    });
    // Several operations in one document do not influence each other.
    let good = json!({"operationId": "good", "x-dropshot-pagination": true, "parameters": [q("page_token", "query", false, s()), q("limit", "query", false, n())], "responses": {"200": resp(&json!({"$ref": "#/components/schemas/Page"}))}});
    let mut bad = good.clone();
    bad["operationId"] = json!("bad");
    bad["parameters"] = json!([q("page_token", "query", false, s())]);
    for (what, d) in [
        ("good then bad", doc(json!({"/a": {"get": good, "put": bad}}), comps.clone())),
        ("bad then good", doc(json!({"/a": {"get": bad}, "/b": {"get": good}}), comps.clone())),
    ] {
        for style in STYLES {
            c.case(
                || format!("{style:?}: {what}"),
                || {
                    let api = generate(style, &parse(&d)).api()?;
                    let has = |n: &str| match style {
                        Style::Positional => api.streams.contains_key(n),
                        _ => api.starts.get(n).and_then(|b| api.builders.get(b)).map_or(false, |b| b.stream),
                    };
                    match (has("good"), has("bad")) {
                        (true, false) => Ok(()),
                        x => Err(format!("streams offered (good, bad): {x:?}")),
                    }
                },
            );
        }
    }
    c.bound(format!(
        "marks x token x limit x other parameters x body x page schema x responses x method and path (counted twice), at most {} dimensions away from the plain paginated operation; 3 styles",
        if c.thorough { 4 } else { 3 }
    ));
    c.assume("typify is a stand-in: which schemas become a struct, a list or an optional string is its decision, bound to the golden files of the repository.");
}
