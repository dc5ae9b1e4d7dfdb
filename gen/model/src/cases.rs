//! The documents of each executed check.
use crate::*;

pub const METHODS: [&str; 8] = ["get", "put", "post", "delete", "options", "head", "patch", "trace"];

pub const IDS: &[&str] = &["C01", "C02", "C09", "G01", "G02", "G03", "G04", "G06", "G07", "G08", "G13", "G14", "G15", "G20"];

pub fn of(id: &str, thorough: bool) -> Vec<Doc> {
    match id {
        "C01" => c01(thorough),
        "C02" => c02(thorough),
        "C09" => c09(thorough),
        "G01" => g01(thorough),
        "G02" => g02(thorough),
        "G03" => g03(thorough),
        "G04" => g04(),
        "G06" => g06(thorough),
        "G07" => g07(thorough),
        "G08" => g08(thorough),
        "G13" => g13(thorough),
        "G14" => g14(thorough),
        "G15" => g15(thorough),
        "G20" => g20(),
        _ => panic!("no documents for {id}"),
    }
}

fn split(key: &str, ops: Vec<Op>, n: usize) -> Vec<Doc> {
    ops.chunks(n).enumerate().map(|(i, o)| Doc::new(format!("{key}{i}"), o.to_vec())).collect()
}

pub fn bodies() -> Vec<(&'static str, Body)> {
    vec![
        ("none", Body::None),
        ("struct", Body::Json(sref("Thing"))),
        ("string", Body::Json(json!({"type": "string"}))),
        ("ints", Body::Json(json!({"type": "array", "items": {"type": "integer"}}))),
        ("any", Body::Json(json!({}))),
        ("form", Body::Form(sref("Form"))),
        ("octet", Body::Octet),
        ("text", Body::Text("text/plain".into())),
        ("text2", Body::Text("text/x-markdown".into())),
    ]
}

/// Values for a body.
pub fn body_values(b: &Body) -> Vec<Value> {
    match b {
        Body::None => vec![],
        Body::Json(s) if *s == sref("Thing") => vec![
            json!({"name": ""}),
            json!({"name": "a\"b\\c\né\u{0}", "size": -5, "kind": "ü/?#", "list": ["", "x"]}),
        ],
        Body::Json(s) if s["items"]["type"] == "string" => vec![json!([]), json!(["", "a&\""])],
        Body::Json(s) if s.get("items").is_some() => vec![json!([]), json!([1, -9223372036854775808i64])],
        Body::Json(s) if *s == json!({}) => vec![json!({"a": [null, 1.5, {"b": true}]}), json!("x"), json!(0)],
        Body::Json(_) => vec![json!(""), json!("a\"\\\u{1}é&=")],
        Body::Form(_) => vec![json!({"a": ""}), json!({"a": "x y&=+%é\n", "b": -7})],
        Body::Octet => vec![json!(""), json!("\u{0}\r\n\r\nbytes"), json!("x".repeat(70000))],
        Body::Text(_) => vec![json!(""), json!("é text\r\n")],
    }
}

fn s() -> Value {
    json!({"type": "string"})
}

pub fn templates() -> Vec<&'static str> {
    vec![
        "/", "/t1", "/t2/", "/t3/{p}", "/t4/{p}/b", "/t5/{p}/{q}", "/t6/a-{p}.{q}_z", "/t7/{p}:x", "/t8/{p}/{p}", "//t9//{p}/",
        "/t10/a%20b/{p}", "/t11/a{p}{q}", "/{p}", "/{p}/{q}/t12", "/t13/~a!$&'()*,;=:@/{p}", "/t14/{p}/%7B{q}%7D", "/t15/é/{p}", "/t16/{q}/{p}",
    ]
}

/// Every interface over the same operations, with tags where they matter.
fn every_style(key: &str, ops: Vec<Op>, n: usize) -> Vec<Doc> {
    let mut out = vec![];
    for style in STYLES {
        let mut ops = ops.clone();
        if style == Style::Tagged {
            for (i, o) in ops.iter_mut().enumerate() {
                o.tags = [&["one"][..], &[], &["one", "two"]][i % 3].iter().map(|s| s.to_string()).collect();
            }
        }
        let mut docs = split(&format!("{key}_{style:?}_"), ops, n);
        docs.iter_mut().for_each(|d| d.styles = vec![style]);
        out.extend(docs);
    }
    out
}

fn c01(_: bool) -> Vec<Doc> {
    let mut ops = vec![];
    let more = ["/n1/{p}.json", "/n2/{p}-{q}", "/n3/{q}{p}", "/n4/x{p}/{q}/y", "/n5/{p}/", "/n6/{p}//{q}", "/n7/{p}@{q}:z", "/n8/{p}/{p}/{q}"];
    for (i, t) in templates().into_iter().chain(more).enumerate() {
        if !t.contains('{') {
            continue;
        }
        let mut o = Op::new(format!("tmpl{i}"), METHODS[i % 8], t);
        for n in ["q", "p"] {
            if t.contains(&format!("{{{n}}}")) {
                o = o.param(n, Loc::Path, true, s());
            }
        }
        if i % 3 == 1 {
            o = o.param("other", Loc::Query, false, s());
        }
        ops.push(o);
    }
    for t in types() {
        if t.text {
            for (i, path) in ["/ty1/{v}", "/ty2/{v}/z", "/ty3/a{v}.b"].into_iter().enumerate() {
                if i == 2 && matches!(t.name, "num" | "f32") {
                    continue; // 3 and 3.0 are the same number, but not the same text
                }
                ops.push(Op::new(format!("t{i}_{}", t.name), METHODS[i], format!("/{}{path}", t.name)).param("v", Loc::Path, true, t.schema.clone()));
            }
        }
    }
    every_style("paths", ops, 40)
}

fn c02(thorough: bool) -> Vec<Doc> {
    let mut ops = vec![];
    for t in types() {
        for req in [true, false] {
            ops.push(Op::new(format!("q_{}_{req}", t.name), METHODS[ops.len() % 8], format!("/q/{}/{req}", t.name)).param("v", Loc::Query, req, t.schema.clone()));
        }
    }
    let mut named = vec![];
    let names = ["x y", "a&b=c", "ids[]", "filter[a]", "é", "%41+", "$top", "X-Y", "page_token", "limit", "type", "a.b"];
    for (i, n) in names.into_iter().enumerate() {
        named.push(Op::new(format!("n{i}"), "get", format!("/n/{i}")).param(n, Loc::Query, i % 2 == 0, s()));
        named[i].by_type();
    }
    // several together
    let kinds = ["str", "strs", "filter", "choice"];
    for set in 1..1usize << (2 * kinds.len()) {
        if set.count_ones() > if thorough { 4 } else { 3 } {
            continue;
        }
        let mut o = Op::new(format!("s{set}"), METHODS[set % 8], format!("/s/{set}{}", if set % 3 == 0 { "/{p}" } else { "" }));
        if set % 3 == 0 {
            o = o.param("p", Loc::Path, true, s());
        }
        let mut filters = 0;
        for i in (0..2 * kinds.len()).rev() {
            if set & 1 << i != 0 {
                filters += usize::from(kinds[i / 2] == "filter");
                o = o.param(&format!("k{i}"), Loc::Query, i % 2 == 0, ty(kinds[i / 2]).schema);
            }
        }
        // Two objects would send fields of the same name.
        if filters < 2 {
            ops.push(o);
        }
    }
    let mut named = every_style("names", named, 48);
    named.iter_mut().for_each(|d| d.by_type());
    named.extend(every_style("query", ops, 48));
    named
}

pub fn forms() -> Vec<(&'static str, Value, Vec<Value>)> {
    let obj = |req: Value, props: Value| json!({"type": "object", "required": req, "properties": props});
    vec![
        ("form", sref("Form"), vec![json!({"a": ""}), json!({"a": "x y&=+%é\n\u{0}", "b": -7}), json!({"a": "a=b&c=d;e", "b": 0}), json!({"a": "a".repeat(70_000)})]),
        ("texts", obj(json!(["a", "b"]), json!({"a": s(), "b": s(), "c": s(), "d": s()})), vec![json!({"a": "", "b": ""}), json!({"a": "1", "b": "1", "c": "1", "d": "1"}), json!({"a": "é😀", "b": "\r\n", "d": "\"\\"})]),
        ("none", obj(json!([]), json!({"a": s(), "b": {"type": "boolean"}})), vec![json!({}), json!({"a": ""}), json!({"b": false}), json!({"a": " ", "b": true})]),
        ("kinds", obj(json!(["n", "k"]), json!({"n": {"type": "integer"}, "f": {"type": "number"}, "k": ty("choice").schema, "u": ty("uuid").schema, "d": ty("date").schema})), vec![json!({"n": -1, "k": "w&z"}), json!({"n": 9223372036854775807i64, "f": 1.5, "k": "y z", "u": "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "d": "2020-02-29"})]),
        ("names", obj(json!(["x y", "type"]), json!({"x y": s(), "type": s(), "é": s(), "a&b": s(), "c[]": s(), "X-Y": s()})), vec![json!({"x y": "v", "type": "w"}), json!({"x y": "", "type": "&", "é": "1", "a&b": "2", "c[]": "3", "X-Y": "4"})]),
        ("nested", obj(json!([]), json!({"a": s(), "list": {"type": "array", "items": s()}, "rec": sref("Form")})), vec![json!({"a": "x", "rec": {"a": "y"}}), json!({"list": ["x", "y"]}), json!({"a": "", "list": ["x"], "rec": {"a": "z", "b": 1}})]),
        ("nullable", obj(json!(["a"]), json!({"a": {"type": "string", "nullable": true}, "b": {"type": "integer", "nullable": true}})), vec![json!({"a": "x"}), json!({"a": "", "b": 3})]),
    ]
}

fn c09(_: bool) -> Vec<Doc> {
    let mut ops = vec![];
    for (n, schema, _) in forms() {
        for (i, m) in ["post", "put", "patch", "delete"].into_iter().enumerate() {
            let mut o = Op::new(format!("{n}_{m}"), m, format!("/{n}/{m}{}", if i % 2 == 1 { "/{p}" } else { "" }));
            if i % 2 == 1 {
                o = o.param("p", Loc::Path, true, s());
            }
            if i > 1 {
                o = o.param("q", Loc::Query, false, s()).param("h", Loc::Header, false, s());
            }
            let r = [vec![("204", Content::None)], vec![("200", Content::Json(sref("Thing"))), ("4XX", Content::Json(s()))]];
            ops.push(o.body(Body::Form(schema.clone())).responses(r[i / 2].clone()));
        }
    }
    every_style("forms", ops, 40)
}

/// The documents of G01 for the builder interfaces, with tags.
fn g02(thorough: bool) -> Vec<Doc> {
    let mut docs = g01(thorough);
    docs.retain(|d| d.key != "time" && (thorough || !d.key.starts_with("responses")));
    let tags: [&[&str]; 6] = [&["one"], &[], &["one", "two words"], &["Two-Words"], &["one", "one"], &["t1", "t2", "t3", "one", "t5", "t6"]];
    let mut n = 0;
    for d in &mut docs {
        d.styles = if thorough || d.key.starts_with("combos") || d.key.starts_with("templates") {
            vec![Style::Builder, Style::Tagged]
        } else {
            n += 1;
            vec![[Style::Builder, Style::Tagged][n % 2]]
        };
        for (i, o) in d.ops.iter_mut().enumerate() {
            o.tags = tags[i % 6].iter().map(|s| s.to_string()).collect();
        }
    }
    docs
}

fn g01(thorough: bool) -> Vec<Doc> {
    let mut ops = vec![];
    for m in METHODS {
        for (n, b) in bodies() {
            ops.push(Op::new(format!("m_{m}_{n}"), m, format!("/m/{n}")).body(b));
        }
    }
    let mut docs = split("methods", ops, 40);
    let mut ops = vec![];
    for t in types() {
        for (w, loc, req) in [("p", Loc::Path, true), ("q", Loc::Query, true), ("qo", Loc::Query, false), ("h", Loc::Header, true), ("ho", Loc::Header, false)] {
            if loc != Loc::Query && !t.text {
                continue;
            }
            let name = t.name;
            let path = format!("/ty/{name}/{w}{}", if loc == Loc::Path { "/{v}/z" } else { "" });
            ops.push(Op::new(format!("t_{name}_{w}"), "get", path).param("v", loc, req, t.schema.clone()));
        }
    }
    docs.extend(split("types", ops, 40));
    let mut ops = vec![];
    for (i, t) in templates().into_iter().enumerate() {
        for (j, order) in [["p", "q"], ["q", "p"]].into_iter().enumerate() {
            let mut o = Op::new(format!("tmpl{i}_{j}"), ["get", "put"][j], t);
            for n in order {
                if t.contains(&format!("{{{n}}}")) {
                    o = o.param(n, Loc::Path, true, s());
                }
            }
            ops.push(o);
        }
    }
    docs.extend(split("templates", ops, 40));
    // Which parameters there are, with which body.
    let mut ops = vec![];
    for np in 0..3 {
        for q in 0..4 {
            for h in 0..4 {
                for (bn, b) in bodies() {
                    if !thorough && matches!(bn, "string" | "ints" | "any" | "text2") {
                        continue;
                    }
                    let id = format!("c_{np}{q}{h}_{bn}");
                    let mut path = format!("/c/{id}");
                    let mut o = Op::new(&id, "post", "");
                    // Declared in an order that is not the order of arguments.
                    if h & 1 != 0 {
                        o = o.param("h-req", Loc::Header, true, s());
                    }
                    if q & 1 != 0 {
                        o = o.param("q_req", Loc::Query, true, s());
                    }
                    for i in 0..np {
                        path.push_str(&format!("/{{p{i}}}"));
                    }
                    for i in (0..np).rev() {
                        o = o.param(&format!("p{i}"), Loc::Path, true, s());
                    }
                    if h & 2 != 0 {
                        o = o.param("H-Opt", Loc::Header, false, json!({"type": "integer"}));
                    }
                    if q & 2 != 0 {
                        o = o.param("qOpt", Loc::Query, false, s());
                    }
                    for p in &mut o.params {
                        p.key = p.key.replace('-', "_").to_lowercase().replace("qopt", "q_opt");
                    }
                    o.path = path;
                    ops.push(o.body(b).responses(vec![("200", Content::Json(sref("Thing")))]));
                }
            }
        }
    }
    docs.extend(split("combos", ops, 48));
    // Every method with every set of query parameters, and with headers.
    let mut ops = vec![];
    for (i, m) in METHODS.into_iter().enumerate() {
        for q in 0..4 {
            for h in if thorough { 0..4 } else { (q + i) % 4..(q + i) % 4 + 1 } {
                let id = format!("w_{m}_{q}{h}");
                let mut o = Op::new(&id, m, format!("/c/w/{id}{}", if (q + h) % 2 == 1 { "/{p0}" } else { "" }));
                for (set, loc, names) in [(h, Loc::Header, ["h-req", "h-opt"]), (q, Loc::Query, ["q-req", "q-opt"])] {
                    for k in (0..2).rev() {
                        if set & 1 << k != 0 {
                            o = o.param(names[k], loc, k == 0, s());
                        }
                    }
                }
                if (q + h) % 2 == 1 {
                    o = o.param("p0", Loc::Path, true, s());
                }
                for p in &mut o.params {
                    p.key = p.name.replace('-', "_");
                }
                if (q + h + i) % 3 == 0 {
                    o = o.body(bodies()[1 + (q + h + i) % 8].1.clone());
                }
                ops.push(o);
            }
        }
    }
    docs.extend(split("every", ops, 48));
    // Many parameters: so many of each place.
    let mut ops = vec![];
    let sets = [(9, 0, 0), (0, 9, 0), (0, 0, 8), (5, 1, 2), (1, 5, 2), (2, 2, 5), (4, 3, 3), (33, 0, 0), (0, 17, 0), (0, 0, 17)];
    for (i, (nq, nh, np)) in sets.into_iter().enumerate() {
        for req in 0..3 {
            let mut o = Op::new(format!("wide{i}_{req}"), ["get", "post", "delete"][req], format!("/c/wide/{i}_{req}"));
            for k in 0..np {
                o.path.push_str(&format!("/{{p{k}}}"));
                o = o.param(&format!("p{}", np - 1 - k), Loc::Path, true, s());
            }
            for k in 0..nq.max(nh) {
                for (n, loc, c) in [(nq, Loc::Query, "q"), (nh, Loc::Header, "h")] {
                    if k < n {
                        o = o.param(&format!("{c}{k}"), loc, [true, false, k % 3 == 1][req], s());
                    }
                }
            }
            if i % 2 == 1 {
                o = o.body(bodies()[[1, 5, 7][req]].1.clone());
            }
            ops.push(o);
        }
    }
    docs.extend(split("wide", ops, 48));
    // Header parameters with a meaning of their own.
    let mut ops = vec![];
    for (i, name) in ["Authorization", "User-Agent", "Cookie", "Range", "If-None-Match", "api-version", "X-Request-Id", "Accept-Language", "x-a.b", "X_Y"].into_iter().enumerate() {
        for req in [true, false] {
            let mut o = Op::new(format!("h{i}_{req}"), ["get", "put", "post", "delete"][i % 4], format!("/h/{i}/{req}")).param(name, Loc::Header, req, s()).param("x-other", Loc::Header, !req, s());
            for p in &mut o.params {
                p.key = p.name.to_lowercase().replace(['-', '.'], "_");
            }
            ops.push(o.responses(vec![("200", Content::Json(s()))]));
        }
    }
    docs.extend(split("headers", ops, 48));
    // Which responses are described.
    let mut ops = vec![];
    let kinds = [("n", Content::None), ("j", Content::Json(s())), ("r", Content::Raw)];
    for (a, ca) in &kinds {
        for code in ["200", "2XX", "default"] {
            ops.push(Op::new(format!("r_{a}_{code}"), "get", format!("/r/{a}/{code}")).responses(vec![(code, ca.clone())]));
            for (b, cb) in &kinds {
                for ecode in ["404", "5XX", "default"] {
                    if code == "default" && ecode == "default" {
                        continue;
                    }
                    // Several kinds of success (or of error) are outside the
                    // supported language; the default counts as both, unless
                    // a range covers every success.
                    if (code == "default" || ecode == "default" && code == "200") && ca != cb {
                        continue;
                    }
                    ops.push(
                        Op::new(format!("r_{a}_{code}_{b}_{ecode}"), "get", format!("/r/{a}/{code}/{b}/{ecode}"))
                            .responses(vec![(code, ca.clone()), (ecode, cb.clone())]),
                    );
                }
            }
        }
    }
    docs.extend(split("responses", ops, 48));
    // Times outside the query.
    let mut ops = vec![];
    for (w, loc, req) in [("p", Loc::Path, true), ("h", Loc::Header, true), ("ho", Loc::Header, false)] {
        let path = format!("/time/{w}{}", if loc == Loc::Path { "/{v}/z" } else { "" });
        ops.push(Op::new(format!("time_{w}"), "get", path).param("v", loc, req, ty("time").schema));
    }
    docs.push(Doc::new("time", ops));
    docs
}

/// Sets of described responses.
fn g03(thorough: bool) -> Vec<Doc> {
    let kind = |k: usize, t: &str| [Content::None, Content::Json(sref(t)), Content::Raw][k].clone();
    let succ: [&[&str]; 8] = [&[], &["200"], &["201"], &["2XX"], &["200", "201"], &["200", "2XX"], &["204", "2XX"], &["200", "201", "204", "2XX"]];
    let errs: Vec<Vec<&str>> = if thorough {
        let all = ["400", "404", "4XX", "503", "5XX"];
        (0..32).map(|m| (0..5).filter(|i| m & (1 << i) != 0).map(|i| all[i]).collect()).collect()
    } else {
        vec![vec![], vec!["404"], vec!["4XX"], vec!["404", "4XX"], vec!["5XX", "400"], vec!["404", "4XX", "503", "5XX"]]
    };
    let mut ops = vec![];
    for s in succ {
        for sk in 0..3 {
            if s.is_empty() && sk > 0 {
                continue;
            }
            for e in &errs {
                for ek in 0..3 {
                    for default in [false, true] {
                        if e.is_empty() && !default && ek > 0 {
                            continue;
                        }
                        // One kind of success and one of error; the default is
                        // both unless a range covers every success.
                        let shared = default && !s.is_empty() && !s.contains(&"2XX");
                        if shared && sk != ek {
                            continue;
                        }
                        let other = if thorough { vec![0, 1, 2] } else { vec![(ops.len() % 3) as u32] };
                        for other in other {
                            let id = format!("r{}_{sk}{ek}_{}", ops.len(), s.join("_").to_lowercase());
                            let et = if shared { "Thing" } else { "Err" };
                            let mut r: Vec<(String, Content)> = vec![];
                            for x in s {
                                r.push((x.to_string(), kind(sk, "Thing")));
                            }
                            for x in e {
                                r.push((x.to_string(), kind(ek, et)));
                            }
                            if default {
                                r.push(("default".into(), kind(ek, et)));
                            }
                            // Described statuses that are neither.
                            match other {
                                1 => r.push(("302".into(), Content::Json(sref("Form")))),
                                2 => r.insert(0, ("3XX".into(), Content::Raw)),
                                _ => {}
                            }
                            let mut o = Op::new(&id, "get", format!("/r/{id}"));
                            o.responses = r;
                            ops.push(o);
                        }
                    }
                }
            }
        }
    }
    // Every code by itself (thorough), or those at the ends and among them.
    let few = [202u16, 203, 205, 206, 207, 208, 226, 250, 298, 299, 401, 409, 418, 429, 451, 499, 500, 501, 511, 598, 599];
    for code in (200..600).filter(|n| if thorough { !(300..400).contains(n) } else { few.contains(n) }) {
        for k in 0..3 {
            if thorough && !few.contains(&code) && k != code as usize % 3 {
                continue;
            }
            let id = format!("r{}_code_{code}", ops.len());
            let other = if code < 300 { ("404", kind((k + 1) % 3, "Err")) } else { ("201", kind((k + 1) % 3, "Thing")) };
            let mut o = Op::new(&id, "get", format!("/r/{id}"));
            o.responses = vec![(code.to_string(), kind(k, if code < 300 { "Thing" } else { "Err" })), (other.0.to_string(), other.1)];
            ops.push(o);
        }
    }
    // A code with its range and the default: the code comes first wherever it
    // is in the range, and however the responses are ordered.
    for (code, range) in [("250", "2XX"), ("299", "2XX"), ("226", "2XX"), ("450", "4XX"), ("451", "4XX"), ("499", "4XX"), ("449", "4XX"), ("550", "5XX"), ("599", "5XX"), ("500", "5XX"), ("501", "5XX"), ("400", "4XX"), ("200", "2XX")] {
        for order in 0..2 {
            for default in [false, true] {
                let id = format!("r{}_first_{code}", ops.len());
                let mut o = Op::new(&id, "get", format!("/r/{id}"));
                let (a, b) = if code < "300" { ("Thing", "Form") } else { ("Err", "Err") };
                let _ = b;
                o.responses = vec![(code.to_string(), kind(1, a)), (range.to_string(), kind(1, a))];
                if order == 1 {
                    o.responses.reverse();
                }
                if default {
                    o.responses.push(("default".into(), kind(1, a)));
                }
                ops.push(o);
            }
        }
    }
    // Which media types.
    let typed: [&[&str]; 6] = [
        &["application/json; charset=utf-8"],
        &["application/json;v=1"],
        &["text/plain", "application/json"],
        &["application/json", "text/plain"],
        &["application/octet-stream", "application/json;charset=utf-8"],
        &["application/json-seq", "application/xml", "application/json"],
    ];
    let raw: [&[&str]; 10] = [
        &["application/json-seq"],
        &["application/jsonlines"],
        &["application/problem+json"],
        &["text/json"],
        &["text/plain"],
        &["application/octet-stream"],
        &["x-application/json"],
        &["application/xml", "text/plain"],
        &["application/json-patch+json", "application/cbor"],
        &["image/*"],
    ];
    for (set, json) in [(&typed[..], true), (&raw[..], false)] {
        for m in set {
            for place in 0..3 {
                let id = format!("r{}_media", ops.len());
                let c = |t: &str| if json { Content::Json(sref(t)) } else { Content::Raw };
                let mut o = Op::new(&id, "get", format!("/r/{id}")).responses(match place {
                    0 => vec![("200", c("Thing"))],
                    1 => vec![("204", Content::None), ("4XX", c("Err"))],
                    _ => vec![("default", c("Thing"))],
                });
                o.media = m.iter().map(|m| m.to_string()).collect();
                ops.push(o);
            }
        }
    }
    let mut docs = split("responses", ops, 24);
    for (i, d) in docs.iter_mut().enumerate() {
        d.styles = if thorough { vec![Style::Positional, Style::Builder] } else { vec![STYLES[[0, 1, 0, 2][i % 4]]] };
    }
    docs
}

/// Paginated operations.
fn g04() -> Vec<Doc> {
    let limit = json!({"type": "integer", "format": "uint32", "minimum": 1});
    let page = |items: Value| json!({"type": "object", "required": ["items"], "properties": {
        "items": {"type": "array", "items": items},
        "next_page": {"type": "string", "nullable": true},
    }});
    let base = |id: &str, method: &str, path: &str, resp: Value| {
        Op::new(id, method, path)
            .param("limit", Loc::Query, false, limit.clone())
            .param("page_token", Loc::Query, false, json!({"type": "string", "nullable": true}))
            .more("x-dropshot-pagination", json!({"required": []}))
            .responses(vec![("200", Content::Json(resp)), ("4XX", Content::Json(sref("Err"))), ("5XX", Content::Json(sref("Err")))])
    };
    let thing = sref("ThingPage");
    let key = |mut o: Op| {
        for p in &mut o.params {
            p.key = p.key.replace('-', "_").to_lowercase();
        }
        o
    };
    let ops = vec![
        base("plain", "get", "/plain", thing.clone()),
        base("inline", "get", "/inline", page(s())),
        base("numbers", "get", "/numbers", page(json!({"type": "integer"}))),
        base("labels", "get", "/labels", sref("LabelPage")),
        base("paths", "get", "/paths/{p0}/x/{p1}", thing.clone()).param("p0", Loc::Path, true, s()).param("p1", Loc::Path, true, sref("Label")),
        base("internal", "get", "/internal/{item}/{page}", thing.clone()).param("item", Loc::Path, true, s()).param("page", Loc::Path, true, json!({"type": "integer"})),
        base("filters", "get", "/filters", thing.clone()).param("aa", Loc::Query, false, s()).param("zz", Loc::Query, false, sref("Color")).param("mm", Loc::Query, false, ty("strs").schema),
        key(base("headers", "get", "/headers", thing.clone()).param("h-req", Loc::Header, true, s()).param("H-Opt", Loc::Header, false, json!({"type": "integer"}))),
        base("body", "post", "/body", thing.clone()).body(Body::Json(sref("Thing"))),
        base("listbody", "put", "/listbody", thing.clone()).body(Body::Json(ty("strs").schema)),
        base("form", "post", "/form", thing.clone()).body(Body::Form(sref("Form"))),
        key(base("all", "patch", "/all/{p0}", thing.clone()).param("p0", Loc::Path, true, s()).param("aa", Loc::Query, false, s()).param("h-req", Loc::Header, true, s()).body(Body::Json(sref("Thing")))),
        {
            let mut o = base("range", "get", "/range", thing.clone());
            o.responses[0].0 = "2XX".into();
            o
        },
        {
            let mut o = base("plainlimit", "get", "/plainlimit", thing);
            o.params[0].schema = json!({"type": "integer"});
            o.params[1].schema = s();
            o
        },
    ];
    let mut d = Doc::new("pages", ops);
    d.schemas["ThingPage"] = page(sref("Thing"));
    d.schemas["LabelPage"] = page(sref("Label"));
    vec![d.styles(&STYLES)]
}

/// All strings over `alphabet` of the length.
pub fn strings(alphabet: &[&str], len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    for _ in 0..len {
        out = out.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}"))).collect();
    }
    out
}

/// Accepted templates. A segment must not come out as a dot or two.
fn g08(thorough: bool) -> Vec<Doc> {
    let mut ts = vec![];
    for n in 0..=if thorough { 5 } else { 4 } {
        ts.extend(strings(&["/", "{p}", "{q q}", "a", "-"], n).into_iter().map(|s| format!("/{s}")));
    }
    for lit in ["%20", "%2F", "%7B", "%7b", "Bc", "XY", "É", "é", ":", "a.b", "'\"", "!$&()*,;=@~", "_{", "{}"] {
        for t in ["/L", "/L/{p}", "/{p}L", "/{p}L{q q}", "/xLx", "/L/", "//L//L", "/{p}/L{p}"] {
            let t = t.replace('L', lit);
            if template(&t).is_ok() {
                ts.push(t);
            }
        }
    }
    for n in ["a", "id", "type", "x.y", "x-y", "X", "1", "é", "a:b", "a*", "+1", ".", "$p", "%7B", "client", "self", "a}", "p?", "p#", ""] {
        let t = format!("/n/{{{n}}}/e-{{{n}}}z/{{p}}");
        if template(&t).is_ok() {
            ts.push(t);
        }
    }
    let mut ops = vec![];
    for (i, t) in ts.iter().enumerate() {
        let mut o = Op::new(format!("o{i}"), METHODS[i % 8], t.as_str());
        let mut names: Vec<String> = vec![];
        for p in template(t).unwrap() {
            if let Piece::Par(n) = p {
                if !names.contains(&n) {
                    names.push(n);
                }
            }
        }
        if i % 2 == 1 {
            names.reverse();
        }
        for n in names {
            o = o.param(&n, Loc::Path, true, json!({}));
        }
        o.by_type();
        ops.push(o);
    }
    let mut docs = split("templates", ops, 60);
    for (i, d) in docs.iter_mut().enumerate() {
        d.by_type();
        d.styles = vec![STYLES[i % 2]];
    }
    docs
}

/// Configurations of hooks: bits 0-3 the hooks, bit 4 the inner type, bit 5
/// closures instead of paths.
pub fn hook_config(bits: u32) -> Config {
    let inner = bits & 16 != 0;
    let i = if inner { "_i" } else { "" };
    let path = |n: &str| Some(format!("::rt::hooks::{n}{i}"));
    let closure = |n: &str, arg: &str| {
        if bits & 32 == 0 {
            path(n)
        } else if inner {
            Some(format!("|i: &::rt::hooks::Inner, x: {arg}| {{ ::rt::hooks::{n}_i(i, x) }}"))
        } else {
            Some(format!("|x: {arg}| {{ ::rt::hooks::{n}(x) }}"))
        }
    };
    Config {
        inner: inner.then(|| "::rt::hooks::Inner".to_string()),
        pre: if bits & 1 != 0 { closure("pre", "&::reqwest::Request") } else { None },
        pre_async: if bits & 2 != 0 { path("pre_async") } else { None },
        post: if bits & 4 != 0 { closure("post", "&::reqwest::Result<::reqwest::Response>") } else { None },
        post_async: if bits & 8 != 0 { path("post_async") } else { None },
        ..Config::default()
    }
}

pub fn paginated(id: &str, method: &str, path: &str, resp: Value) -> Op {
    Op::new(id, method, path)
        .param("limit", Loc::Query, false, json!({"type": "integer", "format": "uint32", "minimum": 1}))
        .param("page_token", Loc::Query, false, json!({"type": "string", "nullable": true}))
        .more("x-dropshot-pagination", json!({"required": []}))
        .responses(vec![("200", Content::Json(resp)), ("4XX", Content::Json(sref("Err"))), ("5XX", Content::Json(sref("Err")))])
}

pub fn page(items: Value) -> Value {
    json!({"type": "object", "required": ["items"], "properties": {
        "items": {"type": "array", "items": items},
        "next_page": {"type": "string", "nullable": true},
    }})
}

fn g06(thorough: bool) -> Vec<Doc> {
    let mut docs = vec![];
    for bits in 0..32 {
        let err = ("4XX", Content::Json(sref("Err")));
        let mut ops = vec![
            Op::new("full", "put", "/full/{p}")
                .param("p", Loc::Path, true, s())
                .param("q", Loc::Query, true, s())
                .param("h", Loc::Header, true, s())
                .body(Body::Json(sref("Thing")))
                .responses(vec![("200", Content::Json(sref("Thing"))), err.clone()]),
            Op::new("octet", "post", "/octet").param("q", Loc::Query, false, s()).body(Body::Octet).responses(vec![("200", Content::Raw), err.clone()]),
            Op::new("empty", "delete", "/empty").responses(vec![("204", Content::None), err.clone()]),
            Op::new("form", "post", "/form").body(Body::Form(sref("Form"))).responses(vec![("200", Content::Json(sref("Thing"))), err]),
            paginated("pages", "get", "/pages", sref("Page")).param("q", Loc::Query, false, s()),
            Op::new("socket", "get", "/socket/{p}").param("p", Loc::Path, true, s()).more("x-dropshot-websocket", json!({})).responses(vec![("default", Content::Raw)]),
        ];
        for (i, o) in ops.iter_mut().enumerate() {
            o.tags = [vec!["t".to_string()], vec![], vec!["t".into(), "u v".into()]][i % 3].clone();
        }
        let mut d = Doc::new(format!("hooks{bits}"), ops);
        d.schemas["Page"] = page(sref("Thing"));
        d.config = hook_config(bits | if (bits + bits / 16) % 2 == 0 { 32 } else { 0 });
        d.styles = if thorough || bits & 15 == 15 { STYLES.to_vec() } else { vec![STYLES[[0, 1, 0, 2][(bits as usize + bits as usize / 4) % 4]]] };
        docs.push(d);
    }
    docs
}

/// Names a document may use.
pub fn names() -> Vec<&'static str> {
    // Keywords of every kind.
    let words = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return \
        self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro \
        override priv typeof unsized virtual yield try gen union auto raw default macro_rules safe \
        client Client url request response result header_map body value query stream send new limit page_token inner _self baseurl \
        types builder ok Ok Err some Some None Option Result String Vec std core format encode_path state first init e i item items page rest \
        futures reqwest progenitor_client _request __request _client _url _result _response _body b v t B V T bool u8 str string \
        new_with_client box send unpin sync try_into try_from fn_once to_value deref clone debug drop try_stream_ext byte_stream response_value \
        request_builder_ext error clap anyhow serde path headers header accept bytes error api_version version body_map next_page token pin to_string \
        a-b a_b aB AB a__b _a a_ camelCaseName HTTPServer a.b a:b $filter @id 1 1a +1 -1 42 0x1 _ __ - -- ' a'b * ! ~ ^ | api-version X-Rate-Limit \
        r#type r#a a#b % %20 & = a&b=c # ? .. [ ] a[b] ( ) < > , ; \\ \" ` é É ß ı 名前 ａ 🦀 ª ǅ x\u{301} \u{200d}";
    let mut v: Vec<&str> = words.split(' ').filter(|w| !w.is_empty()).collect();
    v.extend(["", " ", "x y", " x", "a\nb", "\t"]);
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|n| seen.insert(*n));
    v
}

pub fn header_name(n: &str) -> bool {
    !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) && !["accept", "te"].contains(&n.to_lowercase().as_str())
}
fn path_name(n: &str) -> bool {
    !n.contains(['/', '{', '}'])
}

fn g07(thorough: bool) -> Vec<Doc> {
    let mut ops: Vec<Op> = vec![];
    let mut n = 0;
    let mut next = || {
        n += 1;
        format!("o{n}")
    };
    for name in names() {
        let mut bodies = [Body::Json(sref("Thing")), Body::Octet, Body::Form(sref("Form")), Body::Text("text/plain".into())].into_iter().cycle().skip(ops.len() % 4);
        if path_name(name) {
            let id = next();
            ops.push(Op::new(&id, "get", format!("/{id}/{{{name}}}/z")).param(name, Loc::Path, true, s()));
            let id = next();
            ops.push(Op::new(&id, "put", format!("/{id}/{{{name}}}")).param(name, Loc::Path, true, s()).body(bodies.next().unwrap()));
        }
        let id = next();
        ops.push(Op::new(&id, "post", format!("/{id}")).param(name, Loc::Query, true, s()).body(bodies.next().unwrap()));
        let id = next();
        ops.push(Op::new(&id, "get", format!("/{id}")).param(name, Loc::Query, false, s()).more("x-dropshot-websocket", json!({})).responses(vec![("default", Content::Raw)]));
        {
            let id = next();
            let mut o = paginated(&id, "post", &format!("/{id}"), sref("Page")).body(Body::Json(sref("Thing")));
            // Every paginated operation has these in its query.
            if !["limit", "page_token"].contains(&name) {
                o = o.param(name, Loc::Query, false, s());
            }
            if header_name(name) {
                o = o.param(name, Loc::Header, false, s());
            }
            if path_name(name) {
                o.path = format!("/{id}/{{{name}}}");
                o = o.param(name, Loc::Path, true, s());
            }
            if ["limit", "page_token"].contains(&name) {
                // Described in the other order.
                let mut p = o.clone();
                p.id = next();
                p.path = p.path.replace(&o.id, &p.id);
                p.params.reverse();
                ops.push(p);
            }
            ops.push(o);
        }
        if header_name(name) {
            let id = next();
            ops.push(Op::new(&id, "patch", format!("/{id}")).param(name, Loc::Header, true, s()).body(bodies.next().unwrap()));
            let id = next();
            let mut o = Op::new(&id, "delete", format!("/{id}")).param(name, Loc::Header, false, s()).param(name, Loc::Query, true, s());
            if path_name(name) {
                o.path = format!("/{id}/{{{name}}}");
                o = o.param(name, Loc::Path, true, s());
            }
            ops.push(o);
        }
    }
    // Names that come close to each other.
    let close = ["a-b", "a_b", "aB", "A-B", "_a_b", "a b", "__a_b", "body", "Body", "_body", "request", "_request", "client", "_client", "1", "_1", "type", "type_", "Type", "value", "", "x", "_", "é", "É"];
    for (i, a) in close.iter().enumerate() {
        for (j, b) in close.iter().enumerate() {
            if i == j {
                continue;
            }
            let id = next();
            let base = || {
                let o = Op::new(&id, "put", format!("/{id}"));
                if (i * 3 + j) % 2 == 0 { o.body(Body::Json(sref("Thing"))) } else { o }
            };
            match (i + j) % 3 {
                0 => ops.push(base().param(a, Loc::Query, true, s()).param(b, Loc::Query, false, s())),
                1 => {
                    let mut o = base();
                    o.path = format!("/{id}/{{{a}}}/{{{b}}}");
                    ops.push(o.param(b, Loc::Path, true, s()).param(a, Loc::Path, true, s()));
                }
                _ => {
                    let mut o = base();
                    o.path = format!("/{id}/{{{a}}}");
                    o = o.param(a, Loc::Path, true, s()).param(b, Loc::Query, false, s());
                    // Header names do not differ by case.
                    if header_name(b) {
                        o = o.param(b, Loc::Header, false, s());
                    }
                    ops.push(o);
                }
            }
            if thorough {
                for (x, y) in [(Loc::Query, Loc::Path), (Loc::Header, Loc::Query), (Loc::Path, Loc::Header)] {
                    if [(a, x), (b, y)].iter().any(|(n, l)| *l == Loc::Header && !header_name(n)) {
                        continue;
                    }
                    let id = next();
                    let mut o = Op::new(&id, "put", format!("/{id}"));
                    for (n, l) in [(a, x), (b, y)] {
                        if l == Loc::Path {
                            o.path = format!("/{id}/{{{n}}}");
                        }
                        o = o.param(n, l, true, s());
                    }
                    ops.push(o.body(Body::Octet));
                }
            }
        }
    }
    for o in &mut ops {
        o.by_type();
    }
    let mut docs = split("names", ops, 40);
    for (i, d) in docs.iter_mut().enumerate() {
        let both = d.ops.iter().any(|o| o.params.iter().any(|p| p.name == "page_token" && p.loc == Loc::Path) && !o.more.is_empty());
        d.styles = if thorough || both { STYLES.to_vec() } else { vec![STYLES[i % 2]] };
    }
    // Names of tags.
    let mut ops = vec![];
    for (i, t) in names().into_iter().enumerate() {
        let mut o = Op::new(format!("tag{i}"), "get", format!("/tag{i}")).param("p", Loc::Query, true, s());
        o.by_type();
        o.tags = vec![t.to_string()];
        if i % 3 == 0 {
            o.tags.push("other".into());
        }
        ops.push(o);
    }
    let mut tags = split("tags", ops, 80);
    for d in &mut tags {
        d.styles = vec![Style::Tagged];
    }
    docs.extend(tags);
    // Names of operations, told apart by a parameter's type.
    let mut ops = vec![];
    let mut idents = std::collections::BTreeSet::new();
    for (i, n) in names().into_iter().enumerate() {
        // Operations whose names make for the same identifier are no part.
        let plain: String = n.to_uppercase().to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect();
        if plain.is_empty() || !idents.insert(plain) {
            continue;
        }
        let mut o = Op::new(n, METHODS[i % 8], format!("/op{i}")).param("p", Loc::Query, true, s());
        o.by_type();
        o.params[0].key = format!("P{i}");
        o.params[0].schema = sref(&o.params[0].key);
        o.tags = vec!["t".to_string()];
        ops.push(o);
    }
    let mut docs2 = split("operations", ops, 400);
    for d in &mut docs2 {
        d.styles = STYLES.to_vec();
        d.by_op = true;
    }
    let mut inner = docs2[0].clone();
    inner.key = "inner".into();
    inner.ops.retain(|o| ["inner", "client", "new", "error"].contains(&&o.id[..]));
    inner.config = hook_config(16);
    docs2.push(inner);
    docs.extend(docs2);
    for d in &mut docs {
        d.schemas["Page"] = page(sref("Thing"));
        d.by_type();
    }
    docs
}

/// Websocket operations.
fn g15(thorough: bool) -> Vec<Doc> {
    use Content::*;
    let e = || Json(sref("Err"));
    let responses: Vec<Vec<(&str, Content)>> = vec![
        vec![("default", Raw)],
        vec![],
        vec![("101", None)],
        vec![("101", Raw)],
        vec![("default", None)],
        vec![("default", Raw), ("101", None)],
        vec![("101", None), ("4XX", e()), ("5XX", e())],
        vec![("4XX", e()), ("5XX", e())],
        vec![("404", e()), ("4XX", e()), ("503", e())],
        vec![("4XX", None)],
        vec![("4XX", Raw), ("500", Raw)],
        vec![("101", None), ("404", Raw)],
        vec![("200", Raw)],
        vec![("204", None), ("4XX", e())],
        vec![("2XX", Raw), ("5XX", None)],
        vec![("2XX", None), ("101", None), ("default", Raw)],
        vec![("302", e()), ("4XX", e())],
    ];
    let mut ops = vec![];
    for (i, r) in responses.iter().enumerate() {
        for set in 0..16usize {
            let all = thorough || set == 15 || set == i % 16 || i == 0;
            if !all {
                continue;
            }
            let id = format!("w{i}_{set}");
            let method = ["get", "get", "get", "post", "put"][(i + set) % 5];
            let mut o = Op::new(&id, method, format!("/w/{id}")).more("x-dropshot-websocket", json!({})).responses(r.clone());
            if set & 1 != 0 {
                o.path.push_str("/{p}/x-{q}");
                o = o.param("q", Loc::Path, true, json!({"type": "integer"})).param("p", Loc::Path, true, s());
            }
            if set & 2 != 0 {
                o = o.param("q_req", Loc::Query, true, s()).param("q_opt", Loc::Query, false, ty("strs").schema);
            }
            if set & 4 != 0 {
                o = o.param("x-req", Loc::Header, true, s()).param("x-opt", Loc::Header, false, s());
                for p in &mut o.params {
                    p.key = p.key.replace('-', "_");
                }
            }
            if set & 8 != 0 && method != "get" {
                o = o.body([Body::Json(sref("Thing")), Body::Octet, Body::Form(sref("Form"))][i % 3].clone());
            }
            o.tags = [vec![], vec!["t".to_string()]][i % 2].clone();
            ops.push(o);
        }
    }
    let mut docs = split("sockets", ops, 24);
    for d in &mut docs {
        d.styles = STYLES.to_vec();
    }
    docs
}

/// Operations with mocks.
/// Properties of bodies: name, schema, whether a value is one text.
pub fn props() -> Vec<(&'static str, Value, bool)> {
    vec![
        ("alpha", s(), true),
        ("beta_size", json!({"type": "integer"}), true),
        ("gamma-kind", sref("Color"), true),
        ("deltaList", ty("strs").schema, false),
        ("eps", ty("maybe").schema, true),
        ("zeta", sref("Filter"), false),
        ("eta_on", json!({"type": "boolean"}), true),
    ]
}

/// Choices that differ in blanks.
pub fn padded() -> Ty {
    Ty { name: "padded", schema: json!({"type": "string", "enum": [" a", "z ", "b"]}), values: vec![json!(" a"), json!("z "), json!("b")], text: true }
}

fn g13(thorough: bool) -> Vec<Doc> {
    use Content::*;
    let mut docs = vec![];
    let mut ops = vec![];
    for (w, loc) in [("p", Loc::Path), ("q", Loc::Query)] {
        ops.push(Op::new(format!("padded_{w}"), "get", format!("/padded/{w}{}", if loc == Loc::Path { "/{v}/z" } else { "" })).param("v", loc, true, padded().schema));
    }
    for t in types() {
        for (w, loc, req) in [("p", Loc::Path, true), ("q", Loc::Query, true), ("qo", Loc::Query, false), ("h", Loc::Header, true), ("ho", Loc::Header, false)] {
            if !t.text && (!["time", "maybe"].contains(&t.name) || loc != Loc::Query) {
                continue;
            }
            let path = format!("/ty/{}/{w}{}", t.name, if loc == Loc::Path { "/{v}/z" } else { "" });
            ops.push(Op::new(format!("t_{}_{w}", t.name), "get", path).param("v", loc, req, t.schema.clone()));
        }
    }
    docs.extend(split("types", ops, 40));
    // Bodies made of properties: each absent, optional or required.
    let mut ops = vec![];
    let mut schemas = schemas();
    let props = props();
    let mut sets: Vec<Vec<(usize, bool)>> = vec![];
    for i in 0..props.len() {
        for r in [false, true] {
            sets.push(vec![(i, r)]);
            for j in 0..i {
                for q in [false, true] {
                    if thorough || (i + j) % 2 == 1 {
                        sets.push(vec![(j, q), (i, r)]);
                    }
                }
            }
        }
    }
    sets.push((0..props.len()).map(|i| (i, i % 2 == 0 && props[i].2)).collect());
    sets.push((0..props.len()).map(|i| (i, props[i].2)).collect());
    sets.push((0..props.len()).map(|i| (i, true)).collect());
    for (n, set) in sets.iter().enumerate() {
        let name = format!("Made{n}");
        let mut o = json!({"type": "object", "properties": {}, "required": []});
        for (i, r) in set {
            let (p, s, _) = &props[*i];
            o["properties"][p] = s.clone();
            if *r {
                o["required"].as_array_mut().unwrap().push(json!(p));
            }
        }
        let id = format!("b{n}");
        let body = if n % 3 == 2 && set.iter().all(|(i, _)| props[*i].2) { Body::Form } else { Body::Json };
        // The same described in place.
        let s = if n % 4 == 1 { o.clone() } else { sref(&name) };
        schemas[&name] = o;
        ops.push(Op::new(&id, ["post", "put", "patch"][n % 3], format!("/{id}")).body(body(s)));
    }
    for (n, b) in [Body::Json(s()), Body::Json(ty("ints").schema), Body::Json(json!({})), Body::Json(sref("Color")), Body::Json(json!({"type": "object", "additionalProperties": {"type": "integer"}})), Body::Json(ty("strs").schema), Body::Octet, Body::Text("text/plain".into())].into_iter().enumerate() {
        let id = format!("other{n}");
        ops.push(Op::new(&id, "post", format!("/{id}/{{p}}")).param("p", Loc::Path, true, self::s()).body(b));
    }
    // A property named like a parameter.
    for (n, set) in [(0, false), (0, true)].into_iter().enumerate() {
        let name = format!("Same{n}");
        schemas[&name] = json!({"type": "object", "properties": {"alpha": {"type": "string"}, "other": {"type": "string"}}, "required": if set.1 { json!(["alpha"]) } else { json!([]) }});
        for (m, req) in [false, true].into_iter().enumerate() {
            let id = format!("same{n}{m}");
            ops.push(Op::new(&id, "post", format!("/{id}")).param("alpha", Loc::Query, req, self::s()).body(Body::Json(sref(&name))));
        }
    }
    let mut bodies = split("bodies", ops, 40);
    for d in &mut bodies {
        d.schemas = schemas.clone();
    }
    docs.extend(bodies);
    // Parameters together.
    let mut ops = vec![];
    for bits in 0..32 {
        let id = format!("c{bits}");
        let mut path = format!("/{id}");
        let mut o = Op::new(&id, METHODS[bits % 8], "");
        if bits & 1 != 0 {
            o = o.param("req_query", Loc::Query, true, s());
        }
        if bits & 2 != 0 {
            o = o.param("opt_query", Loc::Query, false, sref("Color"));
        }
        if bits & 4 != 0 {
            path.push_str("/{name}");
            o = o.param("name", Loc::Path, true, json!({"type": "integer"}));
        }
        if bits & 8 != 0 {
            o = o.param(if bits & 1 != 0 { "opt-header" } else { "req-header" }, Loc::Header, bits & 1 == 0, s());
        }
        if bits & 16 != 0 {
            o = o.body(if bits & 2 != 0 { Body::Json(sref("Order")) } else { Body::Form(sref("Form")) });
        }
        o.path = path;
        ops.push(o);
    }
    // Many.
    for (i, (nq, nh, np)) in [(9, 0, 0), (3, 2, 3), (0, 7, 0), (4, 0, 1)].into_iter().enumerate() {
        let mut o = Op::new(format!("wide{i}"), METHODS[i], format!("/wide{i}"));
        for k in 0..np {
            o.path.push_str(&format!("/{{p{k}}}"));
            o = o.param(&format!("p{}", np - 1 - k), Loc::Path, true, s());
        }
        for k in 0..nq {
            o = o.param(&format!("q{k}"), Loc::Query, k % 4 == 1, s());
        }
        for k in 0..nh {
            o = o.param(&format!("h{k}"), Loc::Header, k % 4 == 2, s());
        }
        if i == 3 {
            o = o.body(Body::Json(sref("Wide")));
        }
        ops.push(o);
    }
    let mut d = Doc::new("combos", ops);
    d.schemas["Wide"] = json!({"type": "object", "required": ["w1", "w4"], "properties": {"w0": s(), "w1": s(), "w2": s(), "w3": s(), "w4": s()}});
    d.schemas["Order"] = json!({"type": "object", "required": ["alpha"], "properties": {"alpha": {"type": "string"}, "beta_size": {"type": "integer"}}});
    docs.push(d);
    let e = || Json(sref("Err"));
    let th = || Json(sref("Thing"));
    let mut ops = vec![];
    for (i, r) in [
        vec![("200", th()), ("404", e())],
        vec![("201", th()), ("4XX", e()), ("5XX", e())],
        vec![("2XX", th()), ("400", None)],
        vec![("2XX", None), ("default", e())],
        vec![("default", th())],
        vec![("default", None)],
        vec![("204", None), ("418", e()), ("4XX", e()), ("503", e())],
        vec![("200", th()), ("201", th()), ("202", th())],
        vec![("299", th()), ("499", e()), ("420", e())],
        vec![("200", Json(ty("ints").schema)), ("5XX", e())],
        vec![("204", None)],
        vec![("200", th())],
        vec![("204", None), ("4XX", None)],
        vec![("200", Json(s())), ("404", Json(s()))],
        vec![("200", th()), ("4XX", Json(sref("Color")))],
    ]
    .into_iter()
    .enumerate()
    {
        ops.push(Op::new(format!("r{i}"), "get", format!("/r/{i}")).param("q", Loc::Query, false, s()).responses(r));
    }
    docs.push(Doc::new("answers", ops));
    let page_ops: Vec<Op> = vec![
        paginated("plain", "get", "/plain", sref("ThingPage")),
        paginated("inline", "get", "/inline", page(s())),
        paginated("numbers", "get", "/numbers", page(json!({"type": "integer"}))),
        paginated("paths", "get", "/paths/{p0}", sref("ThingPage")).param("p0", Loc::Path, true, s()).param("aa", Loc::Query, false, s()),
        paginated("sel", "get", "/sel", sref("ThingPage")).param("selector", Loc::Query, false, s()).param("other", Loc::Query, false, s()),
        paginated("headers", "get", "/headers", sref("ThingPage")).param("h_req", Loc::Header, true, s()),
        paginated("body", "post", "/body", sref("ThingPage")).body(Body::Json(sref("Thing"))),
        paginated("limit_i32", "get", "/limit_i32", sref("ThingPage")),
        paginated("limit_int", "get", "/limit_int", sref("ThingPage")),
        paginated("limit_u64", "get", "/limit_u64", sref("ThingPage")),
        paginated("limit_u32", "get", "/limit_u32", sref("ThingPage")),
        paginated("sel_named", "get", "/sel_named", sref("ThingPage")).param("sortBy", Loc::Query, false, s()).param("sort_by_2", Loc::Query, false, s()),
        paginated("sel_two", "get", "/sel_two/{p0}", sref("ThingPage"))
            .param("p0", Loc::Path, true, s())
            .param("a-b", Loc::Query, false, s())
            .param("Type", Loc::Query, false, s())
            .param("x-h", Loc::Header, false, s()),
        paginated("must_limit", "get", "/must_limit", sref("ThingPage")),
        paginated("token_path", "get", "/token_path/{page_token}", sref("ThingPage")).param("page_token", Loc::Path, true, s()),
    ];
    let mut d = Doc::new("pages", page_ops);
    for o in &mut d.ops {
        let t = match &o.id[..] {
            "limit_i32" => json!({"type": "integer", "format": "int32"}),
            "limit_int" => json!({"type": "integer"}),
            "limit_u64" => json!({"type": "integer", "format": "uint64", "minimum": 1}),
            "limit_u32" => json!({"type": "integer", "format": "uint32", "minimum": 0}),
            _ => continue,
        };
        o.params[0].schema = t;
    }
    d.ops[4].more = vec![("x-dropshot-pagination".into(), json!({"required": ["selector"]}))];
    d.ops[11].more = vec![("x-dropshot-pagination".into(), json!({"required": ["sortBy"]}))];
    d.ops[11].params[2].key = "sort_by".into();
    d.ops[12].more = vec![("x-dropshot-pagination".into(), json!({"required": ["a-b", "Type", "no such"]}))];
    d.ops[12].params[4].key = "type_".into();
    d.ops[13].more = vec![("x-dropshot-pagination".into(), json!({"required": ["limit"]}))];
    d.ops[14].params[1].key = "_page_token".into();
    d.schemas["ThingPage"] = page(sref("Thing"));
    docs.push(d);
    // What the command line is known not to do.
    docs.push(Doc::new(
        "hard",
        vec![
            Op::new("raw_ok", "get", "/raw_ok").responses(vec![("200", Raw), ("4XX", e())]),
            Op::new("raw_err", "get", "/raw_err").responses(vec![("200", th()), ("4XX", Raw)]),
            Op::new("any_ok", "get", "/any_ok").responses(vec![("404", e())]),
            Op::new("socket", "get", "/socket").more("x-dropshot-websocket", json!({})).responses(vec![("default", Raw)]),
        ],
    ));
    // Names of parameters and properties.
    let mut ops = vec![];
    let mut list = names();
    list.extend(["help", "version", "json-body", "json_body", "json-body-template", "sortBy", "Help", "matches", "cmd", "config", "Cli", "CliCommand", "StreamExt", "get_one"]);
    let mut schemas = self::schemas();
    let mut seen = std::collections::BTreeSet::new();
    for (n, name) in list.iter().enumerate() {
        if !seen.insert(*name) {
            continue;
        }
        if thorough || n % 2 == 0 || n > list.len() - 20 {
            ops.push(Op::new(format!("nq{n}"), "get", format!("/nq{n}")).param(name, Loc::Query, true, s()));
        }
        if thorough || n % 2 == 1 || n > list.len() - 20 {
            let t = format!("Named{n}");
            schemas[&t] = json!({"type": "object", "properties": {*name: {"type": "string"}}, "required": [name]});
            ops.push(Op::new(format!("nb{n}"), "post", format!("/nb{n}")).body(Body::Json(sref(&t))));
        }
        if header_name(name) && (thorough || n % 3 == 0) {
            ops.push(Op::new(format!("nh{n}"), "get", format!("/nh{n}")).param(name, Loc::Header, false, s()));
        }
    }
    let mut d = split("names", ops, 90);
    for d in &mut d {
        d.schemas = schemas.clone();
        for p in d.ops.iter_mut().flat_map(|o| &mut o.params) {
            p.key = "v".into();
        }
    }
    docs.extend(d);
    // Parameters whose names make for the same argument; descriptions tell
    // the arguments apart.
    use Loc::{Header as H, Path as P, Query as Q};
    let sets: Vec<Vec<(&str, Loc)>> = vec![
        vec![("a", Q), ("a", H)],
        vec![("a", P), ("a", Q)],
        vec![("a", P), ("a", H)],
        vec![("a", P), ("a", Q), ("a", H)],
        vec![("aB", Q), ("a_b", Q)],
        vec![("a-b", Q), ("a_b", Q), ("A_B", Q), ("a.b", H)],
        vec![("a", P), ("a", Q), ("a-2", Q)],
        vec![("a", P), ("a_2", Q), ("a", H), ("a-2-2", Q)],
        vec![("x", P), ("X", P), ("x", Q)],
        vec![("type", Q), ("type_", H)],
        vec![("help", P), ("help", Q)],
        vec![("json-body", Q), ("json_body", H)],
        vec![("limit", P), ("limit", Q)],
        vec![("page_token", P), ("page_token", Q), ("page-token", H)],
    ];
    let paged: Vec<Vec<(&str, Loc)>> = vec![
        vec![("limit", P)],
        vec![("limit", H)],
        vec![("limit", P), ("limit", H)],
        vec![("Limit", Q)],
        vec![("limit-2", P), ("limit", H), ("LIMIT", Q)],
        vec![("page_token", P)],
        vec![("page_token", H), ("pageToken", Q)],
        vec![("page_token", P), ("limit", P)],
    ];
    let mut ops = vec![];
    for (i, (set, pages, required)) in sets.iter().flat_map(|s| [(s, false, false), (s, false, true)]).chain(paged.iter().map(|s| (s, true, false))).enumerate() {
        let mut path = format!("/clash{i}");
        for (n, l) in set {
            if *l == P {
                path += &format!("/{{{n}}}");
            }
        }
        let mut o = Op::new(format!("clash{i}"), "get", path);
        for (n, l) in set {
            o = o.param(n, *l, required || *l == P, s());
        }
        if pages {
            o = o
                .param("limit", Q, false, json!({"type": "integer", "format": "uint32", "minimum": 1}))
                .param("page_token", Q, false, s())
                .more("x-dropshot-pagination", json!({"required": []}))
                .responses(vec![("200", Json(sref("ThingPage")))]);
        }
        for (i, p) in o.params.iter_mut().enumerate() {
            p.key = format!("P{i}");
        }
        let mut params = o.json()["parameters"].clone();
        for (i, p) in params.as_array_mut().unwrap().iter_mut().enumerate() {
            p["description"] = json!(format!("Parameter number {i}."));
        }
        ops.push(o.more("parameters", params));
    }
    let mut d = split("clash", ops, 90);
    d[0].schemas["ThingPage"] = page(sref("Thing"));
    docs.extend(d);
    let styles = [Style::Builder, Style::Tagged];
    for (n, d) in docs.iter_mut().enumerate() {
        d.config.cli = true;
        d.styles = if d.key == "hard" { vec![Style::Builder] } else if thorough { styles.to_vec() } else { vec![styles[n % 2]] };
        for (i, o) in d.ops.iter_mut().enumerate() {
            o.tags = [vec!["t".to_string()], vec![], vec!["u v".into()], vec!["t".into(), "u v".into()]][i % 4].clone();
            for p in &mut o.params {
                p.key = p.key.replace('-', "_");
            }
        }
    }
    docs
}

fn g14(thorough: bool) -> Vec<Doc> {
    use Content::*;
    let mut ops = vec![];
    let bods = vec![("none", Body::None), ("struct", Body::Json(sref("Thing"))), ("ints", Body::Json(ty("ints").schema)), ("any", Body::Json(json!({}))), ("octet", Body::Octet), ("text", Body::Text("text/plain".into()))];
    for np in 0..3 {
        for q in 0..4 {
            for (bn, b) in &bods {
                if !thorough && np == 1 && q % 3 != 0 {
                    continue;
                }
                let id = format!("c_{np}{q}_{bn}");
                let mut path = format!("/c/{id}");
                let mut o = Op::new(&id, ["post", "put", "patch"][ops.len() % 3], "");
                if q & 2 != 0 {
                    o = o.param("q_opt", Loc::Query, false, s());
                }
                if q & 1 != 0 {
                    o = o.param("q_req", Loc::Query, true, s());
                }
                for i in (0..np).rev() {
                    path.push_str(&format!("/{{p{i}}}"));
                    o = o.param(&format!("p{i}"), Loc::Path, true, s());
                }
                o.path = path;
                ops.push(o.body(b.clone()));
            }
        }
    }
    // Many.
    for (i, (nq, np)) in [(7, 0), (4, 3), (0, 7)].into_iter().enumerate() {
        let mut o = Op::new(format!("wide{i}"), METHODS[i], format!("/wide{i}"));
        for k in 0..np {
            o.path.push_str(&format!("/{{p{k}}}"));
            o = o.param(&format!("p{}", np - 1 - k), Loc::Path, true, s());
        }
        for k in 0..nq {
            o = o.param(&format!("q{k}"), Loc::Query, k % 4 == 3, s());
        }
        ops.push(o);
    }
    for m in METHODS {
        ops.push(Op::new(format!("m_{m}"), m, "/m"));
        ops.push(Op::new(format!("mp_{m}"), m, "/m/{p}").param("p", Loc::Path, true, s()));
    }
    for (i, t) in ["/a", "/a/", "/a/{p}", "/a/{p}/b", "/a/{p}/b/{q}", "/a/x.y/{p}:z", "/a/{p}-{q}", "/{p}", "/", "/a/(b)/{p}", "/a+b/$/{q}/{p}"].into_iter().enumerate() {
        let mut o = Op::new(format!("tmpl{i}"), "get", t);
        for n in ["q", "p"] {
            if t.contains(&format!("{{{n}}}")) {
                o = o.param(n, Loc::Path, true, s());
            }
        }
        ops.push(o);
    }
    // Names that begin with each other.
    ops.push(Op::new("names", "get", "/n/{id}/{id2}").param("id2", Loc::Path, true, s()).param("id", Loc::Path, true, s()));
    ops.push(Op::new("names_too", "put", "/n/{q}/to/{qq}").param("q", Loc::Path, true, s()).param("qq", Loc::Path, true, s()).param("qqq", Loc::Query, false, s()));
    ops.push(Op::new("names_query", "get", "/nq").param("n", Loc::Query, false, s()).param("na", Loc::Query, false, s()).param("n_a", Loc::Query, true, s()));
    for t in ["i32", "u64", "int", "bool", "uuid", "date", "color", "choice", "label", "count"] {
        let t = ty(t);
        for (w, loc, req) in [("p", Loc::Path, true), ("q", Loc::Query, true), ("qo", Loc::Query, false)] {
            if loc == Loc::Path && ["color", "choice", "label"].contains(&t.name) {
                continue;
            }
            let path = format!("/ty/{}/{w}{}", t.name, if loc == Loc::Path { "/{v}/z" } else { "" });
            ops.push(Op::new(format!("t_{}_{w}", t.name), "get", path).param("v", loc, req, t.schema.clone()));
        }
    }
    let e = || Json(sref("Err"));
    let th = || Json(sref("Thing"));
    for (i, r) in [
        vec![("200", th()), ("404", e())],
        vec![("201", th()), ("4XX", e()), ("5XX", e())],
        vec![("2XX", th()), ("400", None)],
        vec![("2XX", None), ("default", e())],
        vec![("default", th())],
        vec![("default", None)],
        vec![("204", None), ("418", e()), ("4XX", e()), ("503", e())],
        vec![("200", th()), ("201", th()), ("202", th())],
        vec![("200", Raw), ("4XX", Raw)],
        vec![("2XX", th()), ("3XX", e()), ("302", e()), ("default", None)],
        vec![("404", e())],
        vec![("299", th()), ("499", e()), ("420", e())],
        vec![],
        vec![("200", Json(json!({"type": "array", "items": sref("Thing")}))), ("5XX", e())],
    ]
    .into_iter()
    .enumerate()
    {
        ops.push(Op::new(format!("r{i}"), "get", format!("/r/{i}")).responses(r));
    }
    let mut docs = split("mocks", ops, 40);
    // What mocks are known not to do.
    let time = ty("time").schema;
    let mut hard = Doc::new(
        "hard",
        vec![
            Op::new("path", "get", "/path/{p}").param("p", Loc::Path, true, s()),
            Op::new("renamed", "get", "/renamed").param("sort-by", Loc::Query, true, s()),
            Op::new("renamed_opt", "get", "/renamed_opt").param("sortBy", Loc::Query, false, s()),
            Op::new("header", "get", "/header").param("h", Loc::Header, true, s()),
            Op::new("header_opt", "get", "/header_opt").param("h", Loc::Header, false, s()),
            Op::new("form", "post", "/form").body(Body::Form(sref("Form"))),
            Op::new("octets", "post", "/octets").body(Body::Octet),
            Op::new("names", "get", "/names/{new}").param("new", Loc::Path, true, s()).param("into_inner", Loc::Query, true, s()).param("value", Loc::Query, false, s()),
            Op::new("time", "get", "/time").param("t", Loc::Query, true, time),
            Op::new("num", "get", "/num").param("t", Loc::Query, true, json!({"type": "number"})),
        ],
    );
    for o in &mut hard.ops {
        for p in &mut o.params {
            p.key = p.key.replace("sort-by", "sort_by").replace("sortBy", "sort_by");
        }
    }
    docs.push(hard);
    for d in &mut docs {
        d.config.mock = true;
        if thorough && d.key != "hard" {
            d.styles = vec![Style::Positional, Style::Builder];
        }
    }
    docs
}

/// Documents whose generated code is known not to compile.
pub fn broken(id: &str) -> Vec<Doc> {
    let mut docs = match id {
        "G13" => {
            let q = |t: &str| Op::new("o", "get", "/x").param("q", Loc::Query, true, ty(t).schema);
            vec![
                Doc::new("list_query", vec![q("strs")]),
                Doc::new("object_query", vec![q("filter")]),
            ]
        }
        "G14" => {
            let q = |t: &str| Op::new("o", "get", "/x").param("q", Loc::Query, true, ty(t).schema);
            vec![
                Doc::new("list_query", vec![q("strs")]),
                Doc::new("object_query", vec![q("filter")]),
                Doc::new("string_body", vec![Op::new("o", "post", "/x").body(Body::Json(s()))]),
                Doc::new("integer_body", vec![Op::new("o", "post", "/x").body(Body::Json(json!({"type": "integer"})))]),
                Doc::new("string_response", vec![Op::new("o", "get", "/x").responses(vec![("200", Content::Json(s()))])]),
            ]
        }
        _ => vec![],
    };
    for d in &mut docs {
        d.config.mock = id == "G14";
        d.config.cli = id == "G13";
    }
    docs
}

fn g20() -> Vec<Doc> {
    let err = || ("4XX", Content::Json(sref("Err")));
    let mut docs = vec![];
    let versions = [VERSION, "", "0", "v1", "2024-01-01", " 1 2 ", "a\tb", "\"1\\n\"", "{}{}", "1.0 \u{3b2}"];
    for (i, v) in versions.iter().enumerate() {
        for inner in [false, true] {
            let mut ops = vec![
                Op::new("plain", "get", "/plain").responses(vec![("200", Content::None), err()]),
                Op::new("full", "put", "/full/{p}")
                    .param("p", Loc::Path, true, s())
                    .param("q", Loc::Query, true, s())
                    .body(Body::Json(sref("Thing")))
                    .responses(vec![("200", Content::Json(sref("Thing"))), err()]),
                paginated("pages", "get", "/pages", sref("Page")),
            ];
            ops[1].tags = vec!["t".into()];
            // Compiled only: they too go from thread to thread.
            if i == 0 {
                ops.push(Op::new("upload", "post", "/upload").body(Body::Octet).responses(vec![("200", Content::Raw), ("4XX", Content::Raw)]));
                ops.push(Op::new("form", "post", "/form").body(Body::Form(sref("Thing"))).responses(vec![("204", Content::None), ("4XX", Content::Raw)]));
                ops.push(Op::new("text", "post", "/text").body(Body::Text("text/plain".into())).responses(vec![("2XX", Content::Json(sref("Thing")))]));
                ops.push(Op::new("socket", "get", "/socket").more("x-dropshot-websocket", json!({})).responses(vec![("default", Content::Raw)]));
            }
            let mut d = Doc::new(format!("client{i}{}", if inner { "i" } else { "" }), ops);
            d.schemas["Page"] = page(sref("Thing"));
            d.version = v.to_string();
            d.config = hook_config(if inner { 17 } else { 0 });
            d.config.live = true;
            d.styles = if i == 0 || !v.is_ascii() { STYLES.to_vec() } else { vec![STYLES[(i + inner as usize) % 3]] };
            docs.push(d);
        }
    }
    docs
}
