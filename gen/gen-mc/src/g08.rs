//! G08: path templates are accepted exactly when they are well formed.
use crate::doc::*;
use mc_core::*;
use model::{cases::strings, template, Piece};

fn one_template(style: Style, t: &str) -> (Result<Vec<String>, String>, Gen) {
    let m = template(t).map(|ps| {
        let mut names: Vec<String> = vec![];
        for p in ps {
            if let Piece::Par(n) = p {
                if !names.contains(&n) {
                    names.push(n);
                }
            }
        }
        names
    });
    // The parameters a lenient reader may find in a malformed template must
    // not be what makes it be refused: none are declared there.
    let params: Vec<Value> = m
        .iter()
        .flatten()
        .map(|n| json!({"name": n, "in": "path", "required": true, "schema": {"type": "string"}}))
        .collect();
    let mut d = parse(&one("/x", "get", json!({"operationId": "o", "parameters": params, "responses": {}})));
    // Reading a document passes over paths without a leading slash, so the
    // path is given to the generator directly.
    let item = d.paths.paths.swap_remove("/x").unwrap();
    d.paths.paths.insert(t.to_string(), item);
    (m, generate(style, &d))
}

pub fn accept(c: &Check) {
    let mut all: Vec<String> = vec![];
    let deep = if c.thorough { 11 } else { 9 };
    for n in 0..=deep {
        let a = ["/", "{", "}", "a"];
        if n <= 4 {
            all.extend(strings(&a, n));
        } else {
            all.extend(strings(&a, n - 1).into_iter().map(|s| format!("/{s}")));
        }
    }
    for n in 0..=if c.thorough { 8 } else { 6 } {
        all.extend(strings(&["/", "{", "}", "-", "b"], n));
    }
    for n in 1..=if c.thorough { 4 } else { 3 } {
        let a = ["/", "{", "}", "é", " ", "%", "\"", "\\", "?", "#", "\n", "."];
        all.extend(strings(&a, n));
        all.extend(strings(&a, n).into_iter().map(|s| format!("/{s}")));
    }
    all.sort();
    all.dedup();
    par(&all, |t| {
        for style in if t.len() < 6 || c.thorough { &STYLES[..2] } else { &STYLES[..1] } {
            c.case(
                || format!("{style:?} {t:?}"),
                || {
                    c.state(&t);
                    c.trans(1);
                    let (m, g) = one_template(*style, t);
                    match (&m, &g) {
                        (Err(_), Gen::Refused(_)) => {
                            c.outcome("refused");
                            Ok(())
                        }
                        (Ok(names), Gen::Code(_)) => {
                            c.outcome("accepted");
                            let api = g.api()?;
                            if *style == Style::Positional {
                                let n = api.methods.get("o").ok_or("no function for the operation")?.args.len();
                                if n != names.len() {
                                    return Err(format!("the function takes {n} arguments for the parameters {names:?}"));
                                }
                            }
                            Ok(())
                        }
                        _ => Err(format!("well formed: {m:?}, but {g:?}").chars().take(500).collect()),
                    }
                },
            );
        }
    });
    c.bound(format!("acceptance: all {} templates: over {{/ {{ }} a}} to length {deep}, over {{/ {{ }} - b}} to length {}, over 12 other characters to length {} (one more with a leading slash)", all.len(), if c.thorough { 8 } else { 6 }, if c.thorough { 4 } else { 3 }));
}
