//! G08: path templates are filled in faithfully (acceptance is decided by
//! gen-mc before the clients are generated).
use super::*;

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G08", c.thorough);
    let values: Vec<&str> = if c.thorough { vec!["", "a", "b/{p}%2F", "-é", "..."] } else { vec!["", "a", "b/{p}%2F"] };
    mc_core::par(&ops, |(d, op, style)| {
        c.state(&("filled in", &op.path));
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{style:?} {:?}", op.path), "the operation is missing from the generated client");
            return;
        };
        let vs: Vec<Option<Value>> = values.iter().map(|v| Some(Value::from(*v))).collect();
        let xs: Vec<_> = op.params.iter().map(|p| (p.key.clone(), vs.clone())).collect();
        for prefix in ["", "/base"] {
            for args in combos(&xs) {
                c.trans(1);
                c.case(
                    || format!("{style:?} {:?} base={prefix:?} args={}", op.path, serde_json::json!(args)),
                    || one_request(c, e, op, prefix, &Input::of(&args), &args, false),
                );
            }
        }
    });
    c.bound(format!("{} accepted templates filled in with every combination of {} values, observed on the wire", ops.len(), values.len()));
    c.assume("Parameter names with a slash or a brace cannot be declared in a template; templates with '?', '#' or a backslash in the literal text are outside the explored documents.");
}
