//! G02: the builder sends the same request as the direct call.
use super::*;
use model::{cases::body_values, Body, Loc};
use std::collections::BTreeMap;

/// What the model knows of a builder after some setter calls.
#[derive(Clone, Debug, Default)]
struct State {
    /// Parameters (and bodies without fields): value, or a failed conversion.
    set: BTreeMap<String, Option<Value>>,
    /// Fields of a body with fields; None after a failed conversion.
    fields: Option<BTreeMap<String, Option<Value>>>,
    has_fields: bool,
}

impl State {
    fn start(op: &model::Op) -> State {
        let has_fields = fielded(op);
        State { set: BTreeMap::new(), fields: has_fields.then(BTreeMap::new), has_fields }
    }
    fn step(&mut self, s: &Step) {
        let val = |g: &Given| match g {
            Given::Value(v) => Some(v.clone()),
            Given::Bad => None,
        };
        match s {
            Step::Set(k, g) if k == "body" && self.has_fields => {
                self.fields = val(g).map(|v| v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect())
            }
            Step::Set(k, g) => {
                self.set.insert(k.clone(), val(g));
            }
            Step::Map(f, g) => {
                if let Some(m) = &mut self.fields {
                    m.insert(f.clone(), val(g));
                }
            }
        }
    }
    /// The arguments of the call, or the names at least one of which the
    /// refusal has to mention.
    fn finish(&self, op: &model::Op) -> Result<Args, Vec<String>> {
        let mut bad = vec![];
        let mut args = Args::new();
        for p in &op.params {
            match self.set.get(&p.key) {
                None if p.required && p.schema.get("nullable").is_none() => bad.push(p.key.clone()),
                None => {}
                Some(None) => bad.push(p.key.clone()),
                Some(Some(v)) => {
                    args.insert(p.key.clone(), v.clone());
                }
            }
        }
        if self.has_fields {
            let required = if matches!(op.body, Body::Form(_)) { "a" } else { "name" };
            match &self.fields {
                Some(m) if m.contains_key(required) && m.values().all(Option::is_some) => {
                    let mut o = serde_json::Map::new();
                    for (k, v) in m {
                        let v = v.clone().unwrap();
                        if v != serde_json::json!([]) {
                            o.insert(k.clone(), v);
                        }
                    }
                    args.insert("body".into(), Value::Object(o));
                }
                // Either the body or its field may be named.
                m => {
                    bad.push("body".into());
                    let m = m.iter().flat_map(|m| m.iter());
                    bad.extend(m.clone().filter(|x| x.1.is_none()).map(|x| x.0.clone()));
                    if m.filter(|x| x.0 == required).count() == 0 {
                        bad.push(required.into());
                    }
                }
            }
        } else if op.body != Body::None {
            match self.set.get("body") {
                Some(Some(v)) => {
                    args.insert("body".into(), v.clone());
                }
                _ => bad.push("body".into()),
            }
        }
        if bad.is_empty() { Ok(args) } else { Err(bad) }
    }
}

fn fielded(op: &model::Op) -> bool {
    matches!(&op.body, Body::Form(_)) || op.body == Body::Json(model::sref("Thing"))
}

fn history(c: &Check, e: &Entry, op: &model::Op, steps: &[Step], via: usize) -> Result<(), String> {
    let mut st = State::start(op);
    steps.iter().for_each(|s| st.step(s));
    c.state(&(&op.id, format!("{st:?}")));
    let mut input = Input::steps(steps.to_vec());
    input.via = via;
    match st.finish(op) {
        Ok(args) => one_request(c, e, op, "", &input, &args, false),
        Err(bad) => peer::with(|p| {
            let (got, out) = p.run(&[success(op).1], (e.call)(&p.env(), &input))?;
            let out = out.map_err(|m| format!("the setters do not fit the interface: {m}"))?;
            c.outcome("refused by the builder");
            if !got.is_empty() {
                return Err(format!("{bad:?} missing or invalid, but a request was sent: {} {}", got[0].method, got[0].target));
            }
            if out.kind != Kind::InvalidRequest || !bad.iter().any(|b| out.text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == b)) {
                return Err(format!("{bad:?} missing or invalid, but the call gave {out:?}"));
            }
            Ok(())
        }),
    }
}

/// Setter calls worth trying on this operation.
fn alphabet(op: &model::Op, thorough: bool) -> Vec<Step> {
    let mut out = vec![];
    for p in &op.params {
        let ty = model::types().into_iter().find(|t| t.schema == p.schema).unwrap();
        let vs: Vec<Value> = if ty.name == "str" { vec!["v1/&é".into(), "".into()] } else { ty.values };
        let vs: Vec<Value> = vs.into_iter().filter(|v| !v.is_null()).collect();
        for v in vs.into_iter().take(2) {
            out.push(Step::Set(p.key.clone(), Given::Value(v)));
        }
        out.push(Step::Set(p.key.clone(), Given::Bad));
    }
    if op.body != Body::None {
        for v in body_values(&op.body).into_iter().filter(|v| v.as_str().is_none_or(|s| s.len() < 1000)).take(2) {
            out.push(Step::Set("body".into(), Given::Value(v)));
        }
        out.push(Step::Set("body".into(), Given::Bad));
    }
    if fielded(op) {
        let (a, b) = if matches!(op.body, Body::Form(_)) { ("a", "b") } else { ("name", "size") };
        out.push(Step::Map(a.into(), Given::Value("m é".into())));
        out.push(Step::Map(b.into(), Given::Value(11.into())));
        out.push(Step::Map(b.into(), Given::Bad));
        if thorough && a == "name" {
            out.push(Step::Map("list".into(), Given::Value(serde_json::json!(["l"]))));
        }
    }
    out
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G02", c.thorough);
    let budget: f64 = if c.thorough { 60_000.0 } else { 3_000.0 };
    mc_core::par(&ops, |(d, op, style)| {
        c.state(&(op.id.clone(), *style));
        let Some(e) = reg.find(&d.key, *style, &op.id) else {
            c.fail(&format!("{} {style:?} {}", d.key, op.id), "the operation is missing from the generated client");
            return;
        };
        let mut tags = op.tags.clone();
        tags.sort();
        tags.dedup();
        if *style == Style::Tagged {
            c.case(
                || format!("{} {} traits", d.key, op.id),
                || {
                    if e.traits.len() == tags.len() {
                        Ok(())
                    } else {
                        Err(format!("tags {tags:?} but offered by {:?}", e.traits))
                    }
                },
            );
        }
        let one = |steps: &[Step], via: usize| {
            c.trans(steps.len() as u64);
            c.case(
                || format!("{} {style:?} {} via={via} {steps:?}", d.key, op.id),
                || history(c, e, op, steps, via),
            );
        };
        // Each value, set in both orders, through each trait.
        let mut xs: Vec<(String, Vec<Option<Value>>)> = vec![];
        for p in &op.params {
            let ty = model::types().into_iter().find(|t| t.schema == p.schema).unwrap();
            let mut vs: Vec<Value> = ty.values.into_iter().filter(|v| !v.is_null()).collect();
            if ty.name == "str" && p.loc == Loc::Header {
                vs.extend(model::unsendable());
            }
            if op.params.len() + (op.body != Body::None) as usize > 2 {
                vs.truncate(if op.params.len() > 4 { 1 } else { 3 });
            }
            let mut vs: Vec<_> = vs.into_iter().map(Some).collect();
            if !p.required {
                vs.push(None);
            }
            xs.push((p.key.clone(), vs));
        }
        if op.body != Body::None {
            xs.push(("body".into(), body_values(&op.body).into_iter().map(Some).collect()));
        }
        let all = combos(&xs);
        for args in all.iter().take(if c.thorough { usize::MAX } else { 400 }) {
            let steps: Vec<Step> = args.iter().map(|(k, v)| Step::Set(k.clone(), Given::Value(v.clone()))).collect();
            for via in 0..e.traits.len().max(1) {
                one(&steps, via);
                let mut rev = steps.clone();
                rev.reverse();
                one(&rev, via);
            }
        }
        if all.len() > 400 && !c.thorough {
            c.cap("value combinations beyond 400 per operation");
        }
        // Every sequence of setter calls.
        let alpha = alphabet(op, c.thorough);
        let need = op.params.iter().filter(|p| p.required).count() + (op.body != Body::None) as usize;
        let mut depth = 0;
        while (alpha.len() as f64).powi(depth as i32 + 1) <= budget && depth < 6 && !alpha.is_empty() {
            depth += 1;
        }
        let mut layer: Vec<Vec<Step>> = vec![vec![]];
        for _ in 0..=depth {
            let mut next = vec![];
            for h in &layer {
                one(h, 0);
                for s in &alpha {
                    let mut h = h.clone();
                    h.push(s.clone());
                    next.push(h);
                }
            }
            layer = if layer[0].len() < depth { next } else { vec![] };
            if layer.is_empty() {
                break;
            }
        }
        // Beyond that depth: a complete history with one step replaced,
        // inserted or removed.
        if need > depth {
            let full: Vec<Step> = {
                let mut seen = std::collections::BTreeSet::new();
                alpha
                    .iter()
                    .filter(|s| matches!(s, Step::Set(k, Given::Value(_)) if seen.insert(k.clone())))
                    .cloned()
                    .collect()
            };
            for i in 0..=full.len() {
                for s in &alpha {
                    let mut h = full.clone();
                    h.insert(i, s.clone());
                    one(&h, 0);
                }
                if i < full.len() {
                    let mut h = full.clone();
                    h.remove(i);
                    one(&h, 0);
                    for s in &alpha {
                        let mut h = h.clone();
                        h.insert(i, s.clone());
                        one(&h, 0);
                    }
                }
            }
        }
    });
    c.bound(format!("{} operations of builder and tagged clients; all values of G01's alphabet in two setting orders through every trait", ops.len()));
    c.bound(format!("all sequences of setter calls (two good values and a failing one per setter, body_map) up to the depth (at most 6) with at most {budget} sequences; all one-step edits of a complete history where that depth is too short"));
    c.assume("Types and the builders of body types are generated by a stand-in for typify.");
}
