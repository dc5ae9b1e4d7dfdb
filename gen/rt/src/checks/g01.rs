//! G01: a generated call sends exactly the described request.
use super::*;
use model::{cases::body_values, Loc};

fn values(op: &model::Op, p: &model::Param, thorough: bool) -> Vec<Option<Value>> {
    let ty = model::types().into_iter().find(|t| t.schema == p.schema).unwrap();
    let mut v = ty.values;
    if ty.name == "str" && p.loc == Loc::Header {
        v.extend(model::unsendable());
    }
    let n = match () {
        _ if op.params.len() == 1 && op.body == model::Body::None => v.len(),
        // (few enough that all combinations are tried)
        _ if op.path.starts_with("/c/wide") => 1,
        _ if op.path.starts_with("/c/") => {
            if thorough { 4 } else { 2 }
        }
        _ if thorough => v.len(),
        _ => v.len().min(12),
    };
    // In combinations: texts that would show in the wrong place.
    let picked: Vec<Value> = if n >= v.len() {
        v
    } else if ty.name == "str" {
        (0..n).map(|i| Value::from(format!("{}{}", p.key, ["/&é", "", " #"][i % 3].to_string() + &i.to_string()))).collect()
    } else {
        v[..n.min(v.len())].to_vec()
    };
    let mut out: Vec<Option<Value>> = picked.into_iter().map(Some).collect();
    if !p.required {
        out.push(None);
    }
    out
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G01", c.thorough);
    mc_core::par(&ops, |(d, op, style)| {
        c.state(&(op.id.clone(), op.json().to_string()));
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let mut xs: Vec<(String, Vec<Option<Value>>)> = op.params.iter().map(|p| (p.key.clone(), values(op, p, c.thorough))).collect();
        if op.body != model::Body::None {
            let mut v: Vec<_> = body_values(&op.body).into_iter().map(Some).collect();
            if op.path.starts_with("/c/") && !c.thorough {
                v.truncate(1);
            }
            xs.push(("body".into(), v));
        }
        if d.key == "time" {
            xs[0].1.truncate(1);
        }
        for prefix in if d.key == "time" { &[""][..] } else { &["", "/base/v1"] } {
            for args in combos(&xs) {
                c.trans(1);
                c.case(
                    || format!("{} {} base={prefix:?} args={}", d.key, op.id, serde_json::json!(args)),
                    || one_request(c, e, op, prefix, &Input::of(&args), &args, false),
                );
            }
        }
    });
    c.bound(format!("{} operations: 8 methods x 9 bodies; 20 types x 5 places; 18 templates x 2 declaration orders; 3 x 4 x 4 parameter sets x bodies; 8 methods x 4 sets of query parameters with headers; up to 33 query, 17 header and 17 path parameters; described responses", ops.len()));
    c.bound("every value of each type's boundary alphabet alone; all combinations of presence and of 1-3 values together");
    c.assume("Types are generated by a stand-in for typify.");
    c.assume("The path values \".\" and \"..\" are left to C01.");
}
