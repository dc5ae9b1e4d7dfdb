//! The executed checks.
use crate::*;
use mc_core::Check;
use model::cases;
use std::sync::Arc;

mod client;
mod g01;
mod g02;
mod g03;
mod g04;
mod g06;
mod g07;
mod g08;
mod g13;
mod g14;
mod g15;
mod g20;

pub fn main(id: &str, reg: Registry) -> ! {
    let table: &[(&'static str, fn(&Arc<Check>, &Registry))] = &[("C01", client::path), ("C02", client::query), ("C09", client::form), ("G01", g01::run), ("G02", g02::run), ("G03", g03::run), ("G04", g04::run), ("G06", g06::run), ("G07", g07::run), ("G08", g08::run), ("G13", g13::run), ("G14", g14::run), ("G15", g15::run), ("G20", g20::run)];
    let Some((id, f)) = table.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let c = Check::new(id);
    c.import(&mc_core::verif_dir().join(format!("target/exec/{id}/before.json")));
    f(&c, &reg);
    c.finish_and_exit()
}

/// The success response an operation describes, and such an answer.
pub fn success(op: &model::Op) -> (u16, peer::Answer) {
    let ok = op.responses.iter().find(|r| r.0.starts_with('2') || r.0 == "default");
    let status = ok.and_then(|r| r.0.parse().ok()).unwrap_or(200);
    let thing = serde_json::json!({"name": "n"});
    let answer = match ok.map(|r| &r.1) {
        Some(model::Content::Json(s)) if *s == model::sref("Thing") => peer::Answer::json(status, &thing),
        Some(model::Content::Json(_)) => peer::Answer::json(status, &Value::from("x")),
        _ => peer::Answer::new(status, &[], b""),
    };
    (status, answer)
}

/// Call `e` and compare what the peer receives with the model.
pub fn one_request(c: &Check, e: &Entry, op: &model::Op, prefix: &str, input: &Input, args: &Args, websocket: bool) -> Result<(), String> {
    peer::with(|p| {
        let env = p.env_at(prefix);
        let ok = success(op);
        let (status, answer) = ok;
        let (got, out) = p.run(&[answer], (e.call)(&env, input))?;
        let out = out.map_err(|m| format!("the arguments do not fit the interface: {m}"))?;
        match op.want(prefix, args) {
            Err(why) => {
                c.outcome("refused before sending");
                if !got.is_empty() {
                    return Err(format!("{why}, but a request was sent: {:?}", got[0]));
                }
                if out.kind != Kind::InvalidRequest {
                    return Err(format!("{why}, but the call gave {out:?}"));
                }
            }
            Ok(w) => {
                c.outcome("sent as described");
                if got.len() != 1 {
                    return Err(format!("{} requests were sent, the call gave {out:?}", got.len()));
                }
                model::check(op, &w, &got[0], websocket)?;
                if out.kind != Kind::Ok || out.status != Some(status) {
                    return Err(format!("answered with {status}, the call gave {out:?}"));
                }
                c.sample(op.id.split('_').next().unwrap(), || {
                    serde_json::json!({"operation": op.json(), "path": op.path, "arguments": args, "received": format!("{} {}", got[0].method, got[0].target)})
                });
            }
        }
        Ok(())
    })
}

/// All combinations of one value (or absence) per argument.
/// Every combination; of very many, all that differ from the first or from the
/// last values in at most two places.
pub fn combos(xs: &[(String, Vec<Option<Value>>)]) -> Vec<Args> {
    if xs.iter().map(|x| x.1.len() as f64).product::<f64>() > 20_000. {
        let mut out = std::collections::BTreeMap::new();
        for last in [false, true] {
            let from: Vec<usize> = xs.iter().map(|x| if last { x.1.len() - 1 } else { 0 }).collect();
            for i in 0..xs.len() {
                for j in 0..=i {
                    for a in 0..xs[i].1.len() {
                        for b in 0..xs[j].1.len() {
                            let mut at = from.clone();
                            (at[i], at[j]) = (a, b);
                            out.insert(at, ());
                        }
                    }
                }
            }
        }
        let one = |at: Vec<usize>| xs.iter().zip(at).filter_map(|((k, v), i)| Some((k.clone(), v[i].clone()?))).collect();
        return out.into_keys().map(one).collect();
    }
    let mut out = vec![Args::new()];
    for (k, vs) in xs {
        let mut next = vec![];
        for a in &out {
            for v in vs {
                let mut a = a.clone();
                if let Some(v) = v {
                    a.insert(k.clone(), v.clone());
                }
                next.push(a);
            }
        }
        out = next;
    }
    out
}

/// Every operation of the documents of `id`, with the documents' keys.
pub fn operations(id: &str, thorough: bool) -> Vec<(model::Doc, model::Op, Style)> {
    let mut out = vec![];
    for d in cases::of(id, thorough) {
        for s in &d.styles {
            for o in &d.ops {
                out.push((d.clone(), o.clone(), *s));
            }
        }
    }
    out
}
