//! G10: references and inherited parameters mean what they refer to.
use crate::doc::*;
use mc_core::*;
use std::sync::Arc;

const KINDS: [(&str, &str); 3] = [("parameters", "parameters"), ("requestBodies", "requestBodies"), ("responses", "responses")];

fn reference(kind: usize, name: &str) -> Value {
    json!({"$ref": format!("#/components/{}/{}", KINDS[kind].0, name)})
}

pub fn run(c: &Arc<Check>) {
    let s = |f: &str| json!({"type": "string", "format": f});
    let par_ = |n: &str, l: &str, r: bool, sch: Value| json!({"name": n, "in": l, "required": r, "schema": sch, "description": format!("the {n}")});
    let schema_ref = json!({"$ref": "#/components/schemas/Thing"});
    // Names shared by components of different kinds.
    let names = ["X", "thing", "Thing", "a-b", "a.b", "1"];
    let typed = |r: &Value| json!({"description": "r", "content": {"application/json": {"schema": r}}});
    let bodies: Vec<Option<Value>> = vec![
        None,
        Some(json!({"description": "b", "content": {"application/json": {"schema": schema_ref}}})),
        Some(json!({"content": {"application/x-www-form-urlencoded": {"schema": {"type": "object", "properties": {"f": s("x")}}}}})),
        Some(json!({"content": {"application/octet-stream": {"schema": {"type": "string", "format": "binary"}}}})),
        Some(json!({"content": {"text/plain": {"schema": {"type": "string"}}}})),
        Some(json!({"content": {}})),
    ];
    let responses: Vec<Vec<(&str, Value)>> = vec![
        vec![("200", typed(&schema_ref)), ("4XX", typed(&json!({"type": "string"})))],
        vec![("default", typed(&schema_ref))],
        vec![("204", json!({"description": "none"})), ("500", json!({"description": "raw", "content": {"text/html": {}}}))],
    ];
    let params = [
        par_("id", "path", true, s("uuid")),
        par_("q", "query", false, json!({"type": "integer"})),
        par_("h", "header", true, json!({"type": "string", "enum": ["a", "b"]})),
    ];
    // What is replaced by references: a mask over the three parameters, the
    // body and the responses; by chains of which length; under which name.
    let mut jobs = Vec::new();
    for b in 0..bodies.len() {
        for r in 0..responses.len() {
            let n = 3 + bodies[b].is_some() as usize + responses[r].len();
            for mask in 1..1u32 << n {
                jobs.push((b, r, mask, n));
            }
        }
    }
    let maxchain = if c.thorough { 4 } else { 3 };
    par(&jobs, |(b, r, mask, _)| {
        let inline = {
            let mut op = json!({"operationId": "op", "tags": ["t"], "parameters": params, "responses": {}});
            if let Some(b) = &bodies[*b] {
                op["requestBody"] = b.clone();
            }
            for (st, x) in &responses[*r] {
                op["responses"][*st] = x.clone();
            }
            op
        };
        let comps = json!({"schemas": {"Thing": {"type": "object", "properties": {"f": {"type": "string"}}}, "X": {"type": "string", "enum": ["z"]}}});
        let want: Vec<Gen> = STYLES.iter().map(|st| generate(*st, &parse(&doc(json!({"/x/{id}": {"put": inline}}), comps.clone())))).collect();
        for chain in 1..=maxchain {
            for name in names {
                let mut comps = comps.clone();
                let mut op = inline.clone();
                let mut bit = 0;
                let mut counts = [0usize; 3];
                let mut replace = |kind: usize, at: &mut Value| {
                    bit += 1;
                    if mask & (1 << (bit - 1)) == 0 {
                        return;
                    }
                    // name -> name-1 -> ... -> the item
                    let base = if counts[kind] == 0 { name.to_string() } else { format!("{name}{}", counts[kind]) };
                    counts[kind] += 1;
                    let link = |i: usize| if i == 0 { base.clone() } else { format!("{base}-{i}") };
                    for i in 0..chain {
                        comps[KINDS[kind].0][link(i)] = if i + 1 < chain { reference(kind, &link(i + 1)) } else { at.clone() };
                    }
                    *at = reference(kind, &link(0));
                };
                for i in 0..3 {
                    replace(0, &mut op["parameters"][i]);
                }
                if bodies[*b].is_some() {
                    replace(1, &mut op["requestBody"]);
                }
                for (st, _) in &responses[*r] {
                    replace(2, &mut op["responses"][*st]);
                }
                // Also the parameters on the path, by reference.
                for on_path in [0usize, 1, 3] {
                    let mut op = op.clone();
                    let all = op["parameters"].as_array().unwrap().clone();
                    op["parameters"] = json!(all[on_path..]);
                    let d = doc(json!({"/x/{id}": {"parameters": all[..on_path], "put": op}}), comps.clone());
                    let spec = parse(&d);
                    c.state(&(b, r, mask, chain, name, on_path));
                    for (si, style) in STYLES.iter().enumerate() {
                        c.case(
                            || format!("{style:?}: body {b}, responses {r}, references {mask:b}, chain {chain}, name {name}, {on_path} on the path"),
                            || {
                                want[si].code()?;
                                let g = generate(*style, &spec);
                                g.code()?;
                                c.trans(1);
                                c.outcome("same code by reference");
                                if g != want[si] {
                                    return Err(format!("the client differs from that of the inline document; document {d}"));
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    });

    // Inheritance: each of two operations of a path sees the path's
    // parameters, its own replacing those of the same name.
    let locs = ["path", "query", "header"];
    // A variant of a parameter: required and schema.
    let variants: Vec<(bool, Value)> = vec![
        (true, json!({"type": "string"})),
        (false, json!({"type": "string"})),
        (true, json!({"type": "integer"})),
        (false, json!({"type": "boolean"})),
        (false, json!({"type": "string", "nullable": true})),
    ];
    let mk = |n: &str, l: &str, v: usize, who: &str| {
        let (r, sch) = &variants[v];
        json!({"name": n, "in": l, "required": *r || l == "path", "schema": sch, "description": who})
    };
    // Per name: location, path variant or absent, get variant or absent, put variant or absent.
    let nv = variants.len() + 1;
    let mut jobs = Vec::new();
    for l1 in 0..3 {
        for l2 in 0..3 {
            for code in 0..nv.pow(4) {
                jobs.push((l1, l2, code));
            }
        }
    }
    par(&jobs, |(l1, l2, code)| {
        let mut k = *code;
        let mut next = || {
            let v = k % nv;
            k /= nv;
            v.checked_sub(1)
        };
        // "a" has everything; "b" is fixed on the path or in one operation.
        let (pa, ga, ua) = (next(), next(), next());
        let (pb, gb, ub) = match next() {
            None => (Some(0), None, Some(2)),
            Some(0) => (Some(1), Some(1), None),
            Some(1) => (None, Some(2), None),
            Some(2) => (Some(3), Some(4), Some(0)),
            Some(3) => (Some(4), None, None),
            Some(_) => (None, None, None),
        };
        let (l1, l2) = (locs[*l1], locs[*l2]);
        let uses = |x: &Option<usize>, y: &Option<usize>| x.or(*y);
        // A path parameter must be in the template and declared for both.
        let mut path = "/x".to_string();
        for (n, l, p, g, u) in [("a", l1, &pa, &ga, &ua), ("b", l2, &pb, &gb, &ub)] {
            if l == "path" {
                if uses(g, p).is_none() || uses(u, p).is_none() {
                    return;
                }
                path.push_str(&format!("/{{{n}}}"));
            }
        }
        let list = |a: &Option<usize>, b: &Option<usize>, who: &str| {
            let mut v = Vec::new();
            if let Some(i) = a {
                v.push(mk("a", l1, *i, who));
            }
            if let Some(i) = b {
                v.push(mk("b", l2, *i, who));
            }
            v
        };
        let op = |id: &str, ps: Vec<Value>| json!({"operationId": id, "parameters": ps, "responses": {"200": {"description": ""}}});
        let inherited = doc(json!({&path: {"parameters": list(&pa, &pb, "path"), "get": op("g", list(&ga, &gb, "get")), "put": op("u", list(&ua, &ub, "put"))}}), json!({}));
        let spelled = |o: &Option<usize>, l: &str, p: &Option<usize>, n: &str, who: &str| match (o, p) {
            (Some(i), _) => vec![mk(n, l, *i, who)],
            (None, Some(i)) => vec![mk(n, l, *i, "path")],
            _ => vec![],
        };
        let both = |oa: &Option<usize>, ob: &Option<usize>, who: &str| [spelled(oa, l1, &pa, "a", who), spelled(ob, l2, &pb, "b", who)].concat();
        let explicit = doc(json!({&path: {"get": op("g", both(&ga, &gb, "get")), "put": op("u", both(&ua, &ub, "put"))}}), json!({}));
        let (a, b) = (parse(&inherited), parse(&explicit));
        c.state(&(l1, l2, code));
        for style in STYLES {
            c.case(
                || format!("{style:?}: inherited {inherited}"),
                || {
                    let (x, y) = (generate(style, &a), generate(style, &b));
                    x.code()?;
                    y.code()?;
                    c.trans(1);
                    c.outcome("same code when inherited");
                    if x != y {
                        return Err(format!("the client differs from that of {explicit}"));
                    }
                    Ok(())
                },
            );
        }
    });

    // A parameter of the same name at another location is another parameter.
    for (i, l1) in locs.iter().enumerate() {
        for l2 in &locs[i + 1..] {
            let path = if *l1 == "path" { "/x/{a}" } else { "/x" };
            let d = doc(
                json!({path: {"parameters": [mk("a", l1, 0, "path")], "get": {"operationId": "g", "parameters": [mk("a", l2, 0, "get")], "responses": {}}}}),
                json!({}),
            );
            c.case(
                || format!("name a declared in {l1} on the path and in {l2} on the operation"),
                || {
                    let api = generate(Style::Positional, &parse(&d)).api()?;
                    let n = api.methods.get("g").ok_or("no call")?.args.len();
                    if n != 2 {
                        return Err(format!("the call takes {n} of the two parameters"));
                    }
                    Ok(())
                },
            );
        }
    }
    c.bound(format!(
        "6 bodies x 3 response sets x every non-empty subset of 3 parameters, body and responses by reference x chains 1..{maxchain} x 6 component names x 3 placements; inheritance: 2 parameters x 9 location pairs x every combination of 5 variants or absence on the path and two operations; 3 styles"
    ));
}
