//! G11: generation is deterministic and independent of declaration order;
//! arguments come in a fixed order.
use crate::doc::*;
use mc_core::*;
use progenitor_impl::{CrateVers, Generator, TypeImpl, TypePatch};
use std::sync::Arc;

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut p = p.clone();
            p.insert(i, n - 1);
            out.push(p);
        }
    }
    out
}

fn param(name: &str, loc: &str, schema: Value) -> Value {
    json!({"name": name, "in": loc, "required": loc == "path" || name.ends_with('r'), "schema": schema, "description": format!("about {name}")})
}

/// The arguments a user of the positional call has to give, in order.
fn expected(path: &[&str], params: &[(&str, &str)], body: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for p in path {
        if !out.contains(&p.to_string()) {
            out.push(p.to_string());
        }
    }
    for loc in ["query", "header"] {
        let mut v: Vec<_> = params.iter().filter(|p| p.1 == loc).map(|p| p.0.to_string()).collect();
        v.sort();
        out.extend(v);
    }
    if body {
        out.push("body".into());
    }
    out
}

pub fn run(c: &Arc<Check>) {
    let s = || json!({"type": "string"});
    // Operations: path parameters in path order, the declared parameters, body.
    let mut ops: Vec<(String, Vec<&str>, Vec<(&str, &str)>, bool)> = vec![
        ("/x/{zed}/{abe}".into(), vec!["zed", "abe"], vec![("zed", "path"), ("abe", "path"), ("qb", "query"), ("qa", "query"), ("ha", "header")], true),
        ("/x".into(), vec![], vec![("m", "query"), ("b", "header"), ("a", "query"), ("z", "query"), ("c", "header")], true),
        ("/{b}-{a}/{c}".into(), vec!["b", "a", "c"], vec![("a", "path"), ("b", "path"), ("c", "path"), ("zr", "query"), ("yr", "query")], false),
        ("/x".into(), vec![], vec![("hd", "header"), ("hc", "header"), ("hb", "header"), ("ha", "header"), ("aq", "query")], true),
        ("/{same}/{same}/{other}".into(), vec!["same", "other"], vec![("other", "path"), ("same", "path"), ("q", "query")], false),
    ];
    if c.thorough {
        ops.push(("/{c}/{b}/{a}".into(), vec!["c", "b", "a"], vec![("a", "path"), ("b", "path"), ("c", "path"), ("q2", "query"), ("q1", "query"), ("h2", "header"), ("h1", "header")], true));
    }
    let build = |path: &str, ps: &[Value], inherited: usize, body: bool| {
        let mut op = json!({"operationId": "op", "parameters": ps[inherited..], "responses": {"200": {"description": ""}}});
        if body {
            op["requestBody"] = json!({"content": {"application/json": {"schema": {"type": "object", "properties": {"f": s()}}}}});
        }
        doc(json!({path: {"parameters": ps[..inherited], "put": op}}), json!({}))
    };
    for (oi, (path, names, params, body)) in ops.iter().enumerate() {
        let values: Vec<Value> = params.iter().map(|(n, l)| param(n, l, s())).collect();
        let reference: Vec<Gen> = STYLES.iter().map(|st| generate(*st, &parse(&build(path, &values, 0, *body)))).collect();
        c.case(
            || format!("arguments of operation {oi}"),
            || {
                let api = reference[0].api()?;
                let m = api.methods.get("op").ok_or("no such call")?;
                let got: Vec<_> = m.args.iter().map(|a| a.0.clone()).collect();
                let want = expected(names, params, *body);
                c.sample("arguments", || json!(got));
                if got != want {
                    return Err(format!("arguments {got:?}, expected {want:?}"));
                }
                Ok(())
            },
        );
        let perms = permutations(params.len());
        par(&perms, |perm| {
            for inherited in 0..=params.len().min(if c.thorough { 7 } else { 2 }) {
                let ps: Vec<Value> = perm.iter().map(|i| values[*i].clone()).collect();
                let d = parse(&build(path, &ps, inherited, *body));
                c.state(&(oi, perm, inherited));
                for (si, style) in STYLES.iter().enumerate() {
                    c.case(
                        || format!("{style:?}: operation {oi}, parameters in order {perm:?}, {inherited} on the path"),
                        || {
                            let g = generate(*style, &d);
                            g.code()?;
                            c.trans(1);
                            c.outcome("same code");
                            if g != reference[si] {
                                return Err("the code differs from that of the first order".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
    }

    // Names of every length and order, in each place.
    let pool = ["a", "ab", "b", "m-n", "id", "project", "limit", "page_token", "body-x", "Zed", "ID2", "q10", "q9"];
    let mut picks: Vec<Vec<&str>> = vec![];
    for a in pool {
        for b in pool {
            if a != b {
                picks.push(vec![a, b]);
                picks.extend(pool.iter().filter(|c| **c != a && **c != b).map(|c| vec![a, b, *c]));
            }
        }
    }
    par(&picks, |names| {
        for loc in ["path", "query", "header"] {
            for (si, style) in STYLES.iter().enumerate() {
                c.state(&("names", names, loc, si));
                c.case(
                    || format!("{style:?}: {loc} parameters {names:?}"),
                    || {
                        let path = if loc == "path" { names.iter().map(|n| format!("/{{{n}}}")).collect::<String>() } else { "/x".into() };
                        let ps: Vec<Value> = names.iter().map(|n| param(n, loc, s())).collect();
                        let g = generate(*style, &parse(&build(&path, &ps, 0, false)));
                        let api = g.api()?;
                        c.trans(1);
                        if *style != Style::Positional {
                            return Ok(());
                        }
                        let got: Vec<_> = api.methods["op"].args.iter().map(|a| a.0.clone()).collect();
                        let pairs: Vec<_> = names.iter().map(|n| (*n, loc)).collect();
                        let want: Vec<String> = expected(if loc == "path" { names } else { &[] }, &pairs, false).iter().map(|n| n.replace('-', "_").to_lowercase()).collect();
                        if got != want {
                            return Err(format!("arguments {got:?}, expected {want:?}"));
                        }
                        Ok(())
                    },
                );
            }
        }
    });

    // Many parameters: argument order must not depend on the count.
    let counts: Vec<usize> = (0..=if c.thorough { 70 } else { 45 }).collect();
    let kinds: [&[&str]; 4] = [&["query", "header"], &["header"], &["query"], &["header", "query", "query"]];
    par(&counts, |n| {
        for (ki, ks) in kinds.iter().enumerate() {
            for body in [true, false] {
                for rot in 0..5 {
                    c.case(
                        || format!("{n} parameters of kinds {ki}, body {body}, names {rot}"),
                        || {
                            // Names whose order mixes the locations.
                            let names: Vec<String> = (0..*n).map(|i| format!("p{:03}", (i * [1, 7, 11, 13, 29][rot] + rot) % 101)).collect();
                            let locs: Vec<&str> = (0..*n).map(|i| ks[i % ks.len()]).collect();
                            let ps: Vec<Value> = names.iter().zip(&locs).map(|(n, l)| param(n, l, s())).collect();
                            let g = generate(Style::Positional, &parse(&build("/x", &ps, 0, body)));
                            let api = g.api()?;
                            let got: Vec<_> = api.methods["op"].args.iter().map(|a| a.0.clone()).collect();
                            let pairs: Vec<_> = names.iter().map(String::as_str).zip(locs).collect();
                            c.trans(1);
                            if got != expected(&[], &pairs, body) {
                                return Err(format!("arguments {got:?}"));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });

    // Repetition: the same document and settings, new generators, and the
    // document's maps in other orders.
    let reps = if c.thorough { 64 } else { 24 };
    let docs: Vec<(&str, Value)> = vec![
        ("schemas", doc(
            json!({"/a/{x}/{y}": {"get": {"operationId": "g", "tags": ["t1", "t2"], "parameters": [param("x", "path", s()), param("y", "path", s()), param("q1", "query", s()), param("q2", "query", json!({"type": "string", "enum": ["a", "b"]}))],
                "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/A"}}}}, "4XX": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/E"}}}}}}},
                "/b": {"put": {"operationId": "p", "tags": ["t2", "t3"], "requestBody": {"content": {"application/json": {"schema": {"$ref": "#/components/schemas/B"}}}}, "responses": {"default": {"description": ""}}},
                       "post": {"operationId": "o", "responses": {"201": {"description": ""}, "204": {"description": ""}, "5XX": {"description": ""}, "400": {"description": ""}}}}}),
            json!({"schemas": {"A": {"type": "object", "properties": {"b": {"$ref": "#/components/schemas/B"}, "c": s(), "d": {"type": "integer"}}},
                "B": {"type": "object", "properties": {"x": s(), "y": s(), "z": s()}, "required": ["z", "x"]},
                "E": {"type": "string", "enum": ["p", "q", "r"]}, "F": {"type": "array", "items": {"$ref": "#/components/schemas/A"}}}}),
        )),
    ];
    let full = |style: Style| {
        let mut s = settings(style);
        s.with_inner_type("u32".parse().unwrap())
            .with_pre_hook("pre".parse().unwrap())
            .with_post_hook_async("post".parse().unwrap())
            .with_derive("D1")
            .with_derive("D2");
        for i in 0..6 {
            s.with_patch(format!("P{i}"), TypePatch::default().with_rename(format!("R{i}")));
            s.with_replacement(format!("Q{i}"), format!("crate::Q{i}"), [TypeImpl::Display].into_iter());
            s.with_crate(format!("crate{i}"), CrateVers::Any, None);
        }
        s
    };
    for (what, d) in &docs {
        let spec = parse(d);
        for style in STYLES {
            let s = full(style);
            let first = generate_with(&s, &spec);
            let everything = |spec: &openapiv3::OpenAPI| {
                let mut g = Generator::new(&full(style));
                let t = g.generate_tokens(spec).unwrap().to_string();
                let (cli, mock) = if style == Style::Positional {
                    (String::new(), String::new())
                } else {
                    (g.cli(spec, "k").unwrap().to_string(), g.httpmock(spec, "k").unwrap().to_string())
                };
                (t, cli, mock)
            };
            for rep in 0..reps {
                c.case(
                    || format!("{style:?}: {what}, repetition {rep}"),
                    || {
                        first.code()?;
                        c.trans(1);
                        if generate_with(&full(style), &spec) != first {
                            return Err("generating again gives other code".into());
                        }
                        let (a, b) = (everything(&spec), everything(&parse(d)));
                        if a != b {
                            return Err("generating the client, command line and mock again gives other code".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    c.bound("every ordered pair and triple of 9 names in each place");
    c.bound("all permutations of 3-7 declared parameters of 5-6 operations x number declared on the path x 3 styles; 0..70 parameters in 4 location mixes; repeated generation with all settings");
    c.assume("Nondeterminism of unordered containers cannot be enumerated (their seeds are chosen per instance); repetition covers it with probability, everything else here is exhaustive.");
}
