//! The second parts of C01, C02 and C09: generated clients that go through the
//! client support explored on its own in the first part.
use super::*;
use model::{cases::forms, types, Body, Loc};

fn each(c: &Arc<Check>, reg: &Registry, id: &str, values: impl Fn(&model::Op, &model::Param) -> Vec<Option<Value>> + Sync) -> usize {
    let ops = operations(id, c.thorough);
    mc_core::par(&ops, |(d, op, style)| {
        c.state(&("client", &d.key, &op.id));
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let mut xs: Vec<(String, Vec<Option<Value>>)> = op.params.iter().map(|p| (p.key.clone(), values(op, p))).collect();
        if let Body::Form(s) = &op.body {
            let v = forms().into_iter().find(|f| f.1 == *s).unwrap().2;
            xs.push(("body".into(), v.into_iter().map(Some).collect()));
        }
        for prefix in ["", "/base/v1"] {
            for args in combos(&xs) {
                for via in 0..e.traits.len().max(1) {
                    let mut input = Input::of(&args);
                    input.via = via;
                    c.trans(1);
                    c.case(
                        || format!("{} {} base={prefix:?} trait={via} args={}", d.key, op.id, serde_json::json!(args)),
                        || one_request(c, e, op, prefix, &input, &args, false),
                    );
                }
            }
        }
    });
    ops.len()
}

fn values_of(p: &model::Param) -> Vec<Value> {
    // Parameters told apart by type are texts.
    types().into_iter().find(|t| t.schema == p.schema).unwrap_or_else(|| model::ty("str")).values
}

pub fn path(c: &Arc<Check>, reg: &Registry) {
    let long: Vec<Value> = (0..128u8)
        .map(|b| Value::from((b as char).to_string()))
        .chain(values_of(&model::Op::new("x", "get", "/").param("p", Loc::Path, true, serde_json::json!({"type": "string"})).params[0]))
        .chain(["a/../b", "/..", "../", "//", "\\", "a\u{0}", "%2e%2e", "%2F", "v1/{q}", "x?y#z", "\u{2028}", "\u{feff}", ":", "~"].map(Value::from))
        .filter(|v| v != "." && v != "..")
        .collect();
    let short: Vec<Value> = ["", "a/b", "?#", "%2F", "é", "...", "{q}"].map(Value::from).into();
    let n = each(c, reg, "C01", |op, p| {
        let texts = p.schema == serde_json::json!({"type": "string"});
        let mut v: Vec<Option<Value>> = match () {
            _ if p.loc == Loc::Query => vec![Some("?/#".into())],
            _ if !texts => values_of(p).into_iter().map(Some).collect(),
            _ if op.params.len() == 1 => long.iter().cloned().map(Some).collect(),
            _ => short.iter().cloned().map(Some).collect(),
        };
        if !p.required {
            v.push(None);
        }
        // On its own "." or ".." is what the first part records.
        v
    });
    c.bound(format!("{n} operations of generated clients, in all three interfaces: 23 templates with one or two text parameters, 12 types of parameter in 3 places; 160 texts alone, all pairs of 7"));
}

pub fn query(c: &Arc<Check>, reg: &Registry) {
    let n = each(c, reg, "C02", |op, p| {
        let mut v: Vec<Option<Value>> = match () {
            _ if p.loc == Loc::Path => vec![Some("p/?&".into())],
            _ if op.params.len() == 1 => values_of(p).into_iter().map(Some).collect(),
            _ => {
                let v = values_of(p);
                let pick = match v[0] {
                    Value::Array(_) => vec![v[0].clone(), v[2].clone()],
                    Value::Object(_) => vec![v[0].clone(), v[3].clone()],
                    _ => vec![v[0].clone(), v[2].clone()],
                };
                pick.into_iter().map(Some).collect()
            }
        };
        if !p.required {
            v.push(None);
        }
        v
    });
    c.bound(format!("{n} operations of generated clients, in all three interfaces: 20 types required or optional, 12 names, every set of 2 or 3 (thorough: 4) out of 8 parameters of 4 kinds; all combinations of values and absence"));
}

pub fn form(c: &Arc<Check>, reg: &Registry) {
    let n = each(c, reg, "C09", |_, p| {
        let mut v = vec![Some(Value::from("v & w"))];
        if !p.required {
            v.push(None);
        }
        v
    });
    c.bound(format!("{n} operations of generated clients with form bodies, in all three interfaces: 7 schemas x 4 methods beside path, query and header parameters"));
}
