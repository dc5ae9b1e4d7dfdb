//! G13: the command line issues the same call as the library.
use super::g03::classify;
use super::*;
use crate::cli::{Event, Failure, Fns, Rec};
use model::{cases::body_values, Body, Content, Loc};
use peer::Answer;
use serde_json::json;

/// Texts for a value of the schema (or None: no single text stands for it).
struct Texts {
    good: Vec<(String, Value)>,
    bad: Vec<String>,
}

fn texts(schema: &Value) -> Option<Texts> {
    let t = if *schema == json!({"type": "integer", "format": "uint32", "minimum": 1}) {
        return Some(Texts { good: vec![("1".into(), json!(1)), ("4294967295".into(), json!(4294967295u32))], bad: vec!["0".into(), "-1".into(), "x".into(), "4294967296".into()] });
    } else if schema["type"] == "integer" && schema.get("format").is_some_and(|f| f == "uint32") {
        return Some(Texts { good: vec![("7".into(), json!(7))], bad: vec!["-1".into(), "x".into()] });
    } else if schema["format"] == "uint64" {
        model::ty("u64")
    } else {
        model::types().into_iter().chain([model::cases::padded()]).find(|t| t.schema == *schema)?
    };
    let bad: &[&str] = match t.name {
        "str" | "label" => &[],
        "maybe" => return Some(Texts { good: vec![("".into(), json!("")), ("x y".into(), json!("x y"))], bad: vec![] }),
        "i32" => &["", "x", "2147483648", "1.5", " 1"],
        "u64" => &["", "-1", "18446744073709551616"],
        "int" => &["", "9223372036854775808", "1e3"],
        "bool" => &["", "maybe", "True "],
        "num" | "f32" => &["", "x", "1,5"],
        "uuid" => &["", "x", "6ba7b810-9dad-11d1-80b4"],
        "date" => &["", "2020-02-30", "x"],
        "padded" => &["a", "z", " a ", "", "\tb"],
        "time" => &["", "2020-02-30T00:00:00Z", "yesterday"],
        "color" | "choice" => &["", "Red", "x y z"],
        "short" => &["abcde"],
        "count" => &["", "65536", "-1"],
        _ => return None,
    };
    let text = |v: &Value| v.as_str().map_or_else(|| v.to_string(), |s| s.to_string());
    Some(Texts { good: t.values.iter().map(|v| (text(v), v.clone())).collect(), bad: bad.iter().map(|s| s.to_string()).collect() })
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Param(String),
    Prop(String),
}

struct Arg {
    name: String,
    what: What,
    required: bool,
    texts: Texts,
}

fn kebab(name: &str) -> String {
    let mut out = String::new();
    for c in name.chars() {
        if c == '_' {
            out.push('-');
        } else if c.is_uppercase() {
            out.push_str(if out.is_empty() { "" } else { "-" });
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

/// What the command line of an operation is.
struct Line {
    args: Vec<Arg>,
    /// A body file may be given / must be given.
    file: bool,
    need_file: bool,
}

fn line(d: &model::Doc, op: &model::Op) -> Line {
    let page = op.more.iter().find(|m| m.0 == "x-dropshot-pagination").map(|m| m.1["required"].clone());
    let mut l = Line { args: vec![], file: false, need_file: false };
    for p in &op.params {
        if page.is_some() && p.name == "page_token" && p.loc == Loc::Query {
            continue;
        }
        let first = page.as_ref().is_some_and(|r| r.as_array().unwrap().iter().any(|x| *x == p.name[..]));
        l.args.push(Arg {
            name: kebab(&p.name),
            what: What::Param(p.key.clone()),
            // Without a value is one way to give null.
            required: p.required && p.schema["nullable"] != true || first,
            texts: texts(&p.schema).unwrap_or_else(|| panic!("{} of {}", p.name, op.id)),
        });
    }
    if let Body::Json(s) | Body::Form(s) = &op.body {
        l.file = true;
        let s = match s["$ref"].as_str() {
            Some(r) => &d.schemas[r.rsplit('/').next().unwrap()],
            None => s,
        };
        match s["properties"].as_object().filter(|p| !p.is_empty()) {
            None => l.need_file = true,
            Some(ps) => {
                for (n, s) in ps {
                    let required = s_required(d, op, n);
                    let name = kebab(n);
                    match texts(s) {
                        _ if l.args.iter().any(|a| a.name == name) => {
                            l.need_file |= required;
                        }
                        Some(texts) => l.args.push(Arg { name, what: What::Prop(n.clone()), required, texts }),
                        None => l.need_file |= required,
                    }
                }
            }
        }
    }
    l
}

fn body_schema<'a>(d: &'a model::Doc, op: &'a model::Op) -> &'a Value {
    match &op.body {
        Body::Json(s) | Body::Form(s) => match s["$ref"].as_str() {
            Some(r) => &d.schemas[r.rsplit('/').next().unwrap()],
            None => s,
        },
        _ => &Value::Null,
    }
}
fn s_required(d: &model::Doc, op: &model::Op, prop: &str) -> bool {
    body_schema(d, op)["required"].as_array().is_some_and(|r| r.iter().any(|x| x == prop))
}

/// Values of the body to be put into files.
fn files(d: &model::Doc, op: &model::Op) -> Vec<Value> {
    let s = body_schema(d, op);
    let Some(ps) = s["properties"].as_object().filter(|p| !p.is_empty()) else {
        return if s["additionalProperties"].is_object() {
            vec![json!({}), json!({"a": 1, "b c": -2})]
        } else if *s == d.schemas["Color"] {
            vec![json!("red"), json!("ü/?#")]
        } else {
            body_values(&op.body)
        };
    };
    let value = |n: &str, s: &Value| match texts(s) {
        Some(t) => t.good.last().unwrap().1.clone(),
        None if n == "deltaList" || s["type"] == "array" => json!(["", "a&\""]),
        None => json!({"f1": "a&b", "f2": -3}),
    };
    let full: Value = Value::Object(ps.iter().map(|(n, s)| (n.clone(), value(n, s))).collect());
    let least: Value = Value::Object(ps.iter().filter(|(n, _)| s_required(d, op, n)).map(|(n, s)| (n.clone(), value(n, s))).collect());
    if full == least { vec![full] } else { vec![least, full] }
}

#[derive(Clone, Debug)]
enum File {
    None,
    Good(Value),
    Garbage(&'static str),
    Missing,
}

/// Assignment: per argument the text given, with its value unless it is bad.
type Given = Vec<Option<(String, Option<Value>)>>;

fn givens(l: &Line, thorough: bool) -> Vec<Given> {
    let rep = |a: &Arg| -> Vec<Option<(String, Option<Value>)>> {
        let t = &a.texts;
        let (s, v) = t.good.last().filter(|x| x.0.len() < 50).unwrap_or(&t.good[1.min(t.good.len() - 1)]);
        vec![None, Some((s.clone(), Some(v.clone())))]
    };
    // Every combination of given and absent.
    let mut out: Vec<Given> = vec![vec![]];
    for a in &l.args {
        out = out.iter().flat_map(|g| rep(a).into_iter().map(move |x| [&g[..], &[x]].concat())).collect();
    }
    // Every text of each, valid or not, with the others given, or only those
    // that must be.
    for (i, a) in l.args.iter().enumerate() {
        for least in [false, true] {
            if least && !thorough && l.args.len() > 3 {
                continue;
            }
            let base: Given = l.args.iter().map(|b| if least && !b.required { None } else { rep(b)[1].clone() }).collect();
            let all = a.texts.good.iter().map(|(s, v)| (s.clone(), Some(v.clone()))).chain(a.texts.bad.iter().map(|s| (s.clone(), None)));
            for x in all {
                let mut g = base.clone();
                g[i] = Some(x);
                out.push(g);
            }
        }
    }
    let mut seen = vec![];
    out.retain(|g| {
        let k = json!(g.iter().map(|x| x.as_ref().map(|x| (x.0.clone(), x.1.clone()))).collect::<Vec<_>>()).to_string();
        !seen.contains(&k) && {
            seen.push(k);
            true
        }
    });
    out
}

/// What running a command line did.
struct Ran {
    /// None: the arguments were not accepted, or the run panicked.
    result: Option<Result<(), String>>,
    why: String,
    events: Vec<Event>,
    got: Vec<Received>,
}

fn run_line(f: &Fns, name: &str, words: &[std::ffi::OsString], answers: &[Answer], rec: Rec) -> Result<Ran, String> {
    let cmd = (f.command)(name).ok_or("the operation has no command")?.no_binary_name(true);
    let m = match mc_core::quietly(|| cmd.try_get_matches_from(words)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => {
            return Ok(Ran { result: None, why: e.to_string(), events: vec![], got: vec![] });
        }
        Err(p) => return Err(format!("reading the arguments panicked: {p}")),
    };
    let ran = || peer::with(|p| {
        let r = p.watch(answers, |_| {
            let fut = (f.run)(&p.env_at("/b"), name, m, rec.clone());
            async move {
                use futures::FutureExt;
                let r = std::panic::AssertUnwindSafe(fut).catch_unwind().await;
                r.map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
            }
        })?;
        let (got, r) = r;
        let events = rec.events.borrow().clone();
        Ok(match r {
            Ok(r) => Ran { result: Some(r), why: String::new(), events, got },
            Err(p) => Ran { result: None, why: format!("panic: {p}"), events, got },
        })
    });
    mc_core::quietly(ran)?
}

fn words(l: &Line, g: &Given, file: Option<&std::path::Path>) -> Vec<std::ffi::OsString> {
    let mut w: Vec<std::ffi::OsString> = vec![];
    for (a, x) in l.args.iter().zip(g) {
        if let Some((t, _)) = x {
            w.push(format!("--{}={t}", a.name).into());
        }
    }
    if let Some(f) = file {
        let mut o = std::ffi::OsString::from("--json-body=");
        o.push(f);
        w.push(o);
    }
    w
}

fn variant(id: &str) -> String {
    id.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}

fn command<'a>(reg: &'a Registry, d: &model::Doc, op: &model::Op, style: Style) -> Result<&'a Fns, String> {
    reg.find(&d.key, style, &op.id).and_then(|e| e.cli.as_ref()).ok_or("the operation is missing".into())
}

fn scratch() -> std::path::PathBuf {
    let d = mc_core::verif_dir().join(format!("target/scratch/G13-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// The wanted request for these arguments and this body.
fn same_request(op: &model::Op, args: &Args, r: &Received) -> Result<(), String> {
    let w = op.want("/b", args).map_err(|e| format!("a request was sent although {e}"))?;
    model::check(op, &w, r, false)
}

fn requests(c: &Check, d: &model::Doc, op: &model::Op, style: Style, f: &Fns, dir: &std::path::Path) {
    let l = line(d, op);
    let name = variant(&op.id);
    // The arguments there are.
    c.case(
        || format!("arguments of {style:?} {} {}", d.key, op.id),
        || {
            let mut cmd = (f.command)(&name).ok_or("the operation has no command")?;
            cmd.build();
            let mut got: Vec<String> = cmd.get_arguments().filter_map(|a| a.get_long().map(|l| l.to_string())).filter(|n| n != "help" && n != "json-body-template").collect();
            let mut want: Vec<String> = l.args.iter().map(|a| a.name.clone()).collect();
            if l.file {
                want.push("json-body".into());
            }
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("the arguments are {got:?} instead of {want:?}"));
            }
            Ok(())
        },
    );
    let raw_body = matches!(op.body, Body::Octet | Body::Text(_));
    let givens = givens(&l, c.thorough);
    let goods = if l.file { files(d, op) } else { vec![] };
    let mut fs = vec![File::None];
    if l.file {
        fs.extend(goods.iter().cloned().map(File::Good));
        fs.extend([File::Garbage("{"), File::Garbage(""), File::Garbage("{} x"), File::Garbage("{}{}"), File::Missing]);
        if !matches!(&op.body, Body::Json(s) if *s == json!({})) {
            fs.push(File::Garbage("1.5"));
        }
    }
    let (status, answer) = success(op);
    for (gn, g) in givens.iter().enumerate() {
        for (fi, file) in fs.iter().enumerate() {
            // Bad files with every given argument add nothing.
            if matches!(file, File::Garbage(_) | File::Missing) && gn > 1 && gn + 1 != givens.len() && !c.thorough {
                continue;
            }
            c.trans(1);
            let show = || json!(g.iter().zip(&l.args).filter_map(|(x, a)| x.as_ref().map(|x| (a.name.clone(), x.0.chars().take(20).collect::<String>()))).collect::<std::collections::BTreeMap<_, _>>());
            c.case(
                || format!("run {style:?} {} {} {} file {file:?}", d.key, op.id, show()),
                || {
                    let path = dir.join(format!("{}-{}-{fi}.json", d.key, op.id));
                    let fpath = match file {
                        File::None => None,
                        File::Good(v) => {
                            std::fs::write(&path, v.to_string()).unwrap();
                            Some(path)
                        }
                        File::Garbage(s) => {
                            std::fs::write(&path, s).unwrap();
                            Some(path)
                        }
                        File::Missing => Some(dir.join("no such file")),
                    };
                    let rec = Rec::default();
                    let ran = run_line(f, &name, &words(&l, g, fpath.as_deref()), &[answer.clone()], rec)?;
                    // What is to happen.
                    let has_file = !matches!(file, File::None);
                    let mut args = Args::new();
                    let mut props = serde_json::Map::new();
                    let mut refuse = None;
                    for (a, x) in l.args.iter().zip(g) {
                        match (x, &a.what) {
                            (Some((t, None)), _) => refuse = Some(format!("{t:?} is no value for {}", a.name)),
                            (Some((_, Some(v))), What::Param(k)) => drop(args.insert(k.clone(), v.clone())),
                            (Some((_, Some(v))), What::Prop(k)) => drop(props.insert(k.clone(), v.clone())),
                            (None, What::Param(_)) if a.required => refuse = Some(format!("{} is required", a.name)),
                            (None, What::Prop(_)) if a.required && !has_file => refuse = Some(format!("{} is required without a body file", a.name)),
                            (None, _) => {}
                        }
                    }
                    if l.need_file && !has_file {
                        refuse = Some("a body file is required".into());
                    }
                    // What the arguments alone show is refused before the
                    // command runs.
                    let at_once = refuse.is_some();
                    if matches!(file, File::Garbage(_) | File::Missing) {
                        refuse = refuse.or(Some("the body file cannot be read".into()));
                    }
                    if raw_body && refuse.is_none() {
                        // There is no way to give such a body.
                        if !ran.got.is_empty() {
                            return Err(format!("a request without its body was sent: {:?}", ran.got[0]));
                        }
                        if ran.result == Some(Ok(())) {
                            return Err("success without a request".into());
                        }
                        c.outcome("no way to give the body");
                        return Ok(());
                    }
                    if let Some(why) = refuse {
                        if !ran.got.is_empty() {
                            return Err(format!("{why}, but a request was sent: {:?}", ran.got[0]));
                        }
                        if ran.result == Some(Ok(())) {
                            return Err(format!("{why}, but the command succeeded"));
                        }
                        if ran.events.iter().any(|e| matches!(e, Event::Item(..) | Event::NoItem(..))) {
                            return Err(format!("{why}, but success was reported"));
                        }
                        if at_once && (ran.result.is_some() || ran.why.starts_with("panic") || !ran.events.is_empty()) {
                            return Err(format!("{why}, but the command was run: {:?} {:?} {}", ran.result, ran.events, ran.why));
                        }
                        c.outcome(if at_once { "refused by the arguments" } else { "refused" });
                        return Ok(());
                    }
                    let Some(result) = &ran.result else { return Err(format!("valid arguments were not accepted: {}", ran.why)) };
                    let mut bodies = vec![None];
                    if l.file {
                        bodies = match file {
                            File::Good(v) => {
                                // With both, either may win.
                                let mut merged = v.clone();
                                if let Some(m) = merged.as_object_mut() {
                                    m.extend(props.clone());
                                }
                                vec![Some(v.clone()), Some(merged)]
                            }
                            _ => vec![Some(Value::Object(props))],
                        };
                    }
                    let mut wrong = String::new();
                    for b in &bodies {
                        let mut args = args.clone();
                        if let Some(b) = b {
                            args.insert("body".into(), b.clone());
                        }
                        if let Err(why) = op.want("/b", &args) {
                            if !ran.got.is_empty() || *result == Ok(()) {
                                return Err(format!("{why}, but {result:?} and {:?}", ran.got));
                            }
                            c.outcome("refused before sending");
                            return Ok(());
                        }
                        let [r] = &ran.got[..] else { return Err(format!("{} requests were sent, {result:?}, {:?}", ran.got.len(), ran.events)) };
                        match same_request(op, &args, r) {
                            Ok(()) => {
                                wrong.clear();
                                break;
                            }
                            Err(e) => wrong = e,
                        }
                    }
                    if !wrong.is_empty() {
                        return Err(wrong);
                    }
                    let [Event::Over(o), Event::NoItem(s, _)] = &ran.events[..] else { return Err(format!("the callbacks were {:?}", ran.events)) };
                    if o != &op.id || *s != status || *result != Ok(()) {
                        return Err(format!("answered with {status}: {:?}, {result:?}", ran.events));
                    }
                    c.state(&("sent", &d.key, &op.id, show().to_string(), fi));
                    c.outcome(if has_file { "sent with a body file" } else { "sent as given" });
                    c.sample(&d.key, || json!({"operation": op.id, "arguments": show(), "received": format!("{} {}", ran.got[0].method, ran.got[0].target)}));
                    Ok(())
                },
            );
        }
    }
    // Ways of writing, unknown arguments.
    let Some(best) = givens.iter().find(|g| g.iter().all(|x| matches!(x, Some((_, Some(_)))))) else { return };
    let good = goods.first().map(|v| {
        let p = dir.join(format!("{}-{}-w.json", d.key, op.id));
        std::fs::write(&p, v.to_string()).unwrap();
        p
    });
    let plain = words(&l, best, good.as_deref());
    let split: Vec<std::ffi::OsString> = plain.iter().flat_map(|w| w.to_str().unwrap().splitn(2, '=').map(std::ffi::OsString::from).collect::<Vec<_>>()).collect();
    let mut extra = plain.clone();
    extra.push("--no-such-argument=1".into());
    let mut pos = plain.clone();
    pos.push("stray".into());
    let mut rev = plain.clone();
    rev.reverse();
    let mut ways = vec![("unknown", extra, false), ("stray", pos, false), ("reversed", rev, true)];
    if best.iter().all(|x| x.as_ref().is_some_and(|x| !x.0.starts_with('-') && !x.0.is_empty())) {
        ways.push(("apart", split, true));
    }
    // An argument without its value.
    let bare: Vec<String> = (0..plain.len()).map(|i| format!("bare {i}")).collect();
    for (i, what) in bare.iter().enumerate() {
        let mut w = plain.clone();
        let word = w[i].to_str().unwrap().split_once('=').unwrap().0.to_string();
        w[i] = word.into();
        ways.push((what, w, false));
    }
    let reference = run_line(f, &name, &plain, &[answer.clone()], Rec::default());
    for (what, w, same) in ways {
        c.case(
            || format!("written {what} {style:?} {} {}", d.key, op.id),
            || {
                let a = match &reference {
                    Ok(a) => a,
                    Err(e) => return Err(e.clone()),
                };
                let b = run_line(f, &name, &w, &[answer.clone()], Rec::default())?;
                let key = |r: &Ran| (r.got.iter().map(|r| (r.method.clone(), r.target.clone(), r.body.clone())).collect::<Vec<_>>(), r.events.clone(), r.result.clone());
                if same && key(a) != key(&b) {
                    return Err(format!("{:?} instead of {:?} ({})", key(&b), key(a), b.why));
                }
                if !same && (!b.got.is_empty() || b.result.is_some()) {
                    return Err("such an argument is accepted".into());
                }
                c.outcome(if same { "written otherwise" } else { "unknown arguments refused" });
                Ok(())
            },
        );
    }
    // The override has the last word.
    let param = op.params.iter().find(|p| p.schema == json!({"type": "string"}) && p.loc != Loc::Path && !raw_body);
    for (what, rec) in [("veto", Rec { veto: true, ..Default::default() }), ("edit", Rec { edits: param.iter().map(|p| (p.key.clone(), "from the override".to_string())).collect(), ..Default::default() })] {
        c.case(
            || format!("override {what} {style:?} {} {}", d.key, op.id),
            || {
                let edits = rec.edits.clone();
                let ran = run_line(f, &name, &plain, &[answer.clone()], rec.clone())?;
                let Some(result) = &ran.result else { return Err(format!("not accepted: {}", ran.why)) };
                if ran.events.iter().filter(|e| **e == Event::Over(op.id.clone())).count() != 1 || ran.events.iter().filter(|e| matches!(e, Event::Over(_))).count() != 1 {
                    return Err(format!("the override of the operation ran otherwise than once: {:?}", ran.events));
                }
                if what == "veto" {
                    if !ran.got.is_empty() || ran.events.len() != 1 || *result != Err("the override says no".into()) {
                        return Err(format!("the override refused, but {result:?}, {:?}, {:?}", ran.events, ran.got));
                    }
                    c.outcome("vetoed");
                } else if let Some(p) = param {
                    let [r] = &ran.got[..] else { return Err(format!("{} requests", ran.got.len())) };
                    let a = reference.as_ref().map_err(|e| e.clone())?;
                    let want: Vec<(String, String)> = a.got[0].query()?.into_iter().map(|(n, v)| if n == p.name && p.loc == Loc::Query { (n, edits[0].1.clone()) } else { (n, v) }).collect();
                    if r.query()? != want {
                        return Err(format!("the query is {:?} instead of {want:?}", r.query()?));
                    }
                    if p.loc == Loc::Header && r.header(&p.name) != [edits[0].1.clone()] {
                        return Err(format!("the header is {:?}", r.header(&p.name)));
                    }
                    c.outcome("changed by the override");
                }
                Ok(())
            },
        );
    }
}

fn failure_ok(f: &Failure, kind: Kind, status: Option<u16>, value: Option<&Value>) -> bool {
    let v = f.value.clone().map(|mut v| {
        strip(&mut v);
        v
    });
    f.kind == kind && (status.is_none() || f.status == status) && v.as_ref() == value
}

fn strip(v: &mut Value) {
    if let Some(m) = v.as_object_mut() {
        m.retain(|_, v| !v.is_null() && *v != json!([]));
    }
}

/// How answers are reported.
fn answers(c: &Check, d: &model::Doc, op: &model::Op, style: Style, f: &Fns) {
    let name = variant(&op.id);
    let values = [json!({"name": "n", "message": "m"}), json!("red"), json!([1, -2]), json!(null)];
    let mut codes: Vec<u16> = vec![200, 201, 202, 204, 299, 302, 400, 404, 418, 420, 499, 500, 503, 599];
    if c.thorough {
        codes = (200..=599).collect();
    }
    let hard = d.key == "hard";
    if hard {
        codes = vec![200, 404];
    }
    for status in codes {
        for (i, v) in values.iter().enumerate() {
            for cut in [false, true] {
                let body = if i == 3 { String::new() } else { v.to_string() };
                let bodiless = status == 204 || status == 304;
                if hard && (i > 0 || cut) || (bodiless || i == 3) && cut || bodiless && i != 3 {
                    continue;
                }
                c.trans(1);
                c.case(
                    || format!("answer {style:?} {} {} {status} {body}{}", d.key, op.id, if cut { " cut" } else { "" }),
                    || {
                        let mut a = Answer::new(status, &[("x-k", "1"), ("x-k", "two")], body.as_bytes());
                        if cut {
                            a.raw.pop();
                        }
                        let ran = run_line(f, &name, &[], &[a], Rec::default())?;
                        let Some(result) = &ran.result else { return Err(ran.why.clone()) };
                        if ran.got.len() != 1 {
                            return Err(format!("{} requests", ran.got.len()));
                        }
                        let (class, content) = classify(op, status);
                        let [Event::Over(_), e] = &ran.events[..] else { return Err(format!("the callbacks were {:?}", ran.events)) };
                        if (class == "success") != matches!(result, Ok(())) && class != "success" {
                            return Err(format!("{result:?} and {e:?} for {status}"));
                        }
                        if matches!(result, Ok(())) != matches!(e, Event::Item(..) | Event::NoItem(..)) {
                            return Err(format!("{result:?} but {e:?}"));
                        }
                        let hs = |h: &[(String, Vec<u8>)]| h.iter().filter(|h| h.0 == "x-k").map(|h| h.1.clone()).collect::<Vec<_>>() == [b"1".to_vec(), b"two".to_vec()];
                        let fits = |s: &Value| match s["$ref"].as_str().map(|r| r.rsplit('/').next().unwrap()) {
                            Some("Thing" | "Err") => i == 0,
                            Some("Color") => i == 1,
                            _ if s["type"] == "string" => i == 1,
                            _ => i == 2,
                        };
                        let part = |s: &Value| match s["$ref"].as_str() {
                            Some(r) if r.ends_with("Thing") => json!({"name": "n"}),
                            Some(r) if r.ends_with("Err") => json!({"message": "m"}),
                            _ => v.clone(),
                        };
                        let ok = match (class, &content) {
                            ("success", Content::None) => matches!(e, Event::NoItem(s, h) if *s == status && hs(h)),
                            ("success", Content::Json(s)) if fits(s) && !cut => match e {
                                Event::Item(st, h, x) => {
                                    let mut x = x.clone();
                                    strip(&mut x);
                                    *st == status && hs(h) && x == part(s)
                                }
                                _ => false,
                            },
                            ("error", Content::None) => matches!(e, Event::Error(x) if failure_ok(x, Kind::ErrorResponse, Some(status), Some(&Value::Null))),
                            ("error", Content::Json(s)) if fits(s) && !cut => matches!(e, Event::Error(x) if failure_ok(x, Kind::ErrorResponse, Some(status), Some(&part(s)))),
                            ("success" | "error", Content::Raw) => true,
                            ("success" | "error", _) => {
                                let kind = if cut { Kind::ResponseBody } else { Kind::InvalidPayload };
                                matches!(e, Event::Error(x) if failure_ok(x, kind, None, None))
                            }
                            _ => matches!(e, Event::Error(x) if failure_ok(x, Kind::Unexpected, Some(status), None)),
                        };
                        if !ok {
                            return Err(format!("{status} with {body:?} ({class}, {content:?}) is reported as {e:?}, {result:?}"));
                        }
                        c.outcome(match e {
                            Event::Item(..) => "item reported",
                            Event::NoItem(..) => "success without item reported",
                            _ => "error reported",
                        });
                        c.state(&("answer", &op.id, status, i, cut));
                        Ok(())
                    },
                );
            }
        }
    }
    if hard {
        return;
    }
    c.case(
        || format!("answer {style:?} {} {} dropped", d.key, op.id),
        || {
            let ran = run_line(f, &name, &[], &[Answer::raw("")], Rec::default())?;
            match (&ran.result, &ran.events[..]) {
                (Some(Err(_)), [Event::Over(_), Event::Error(x)]) if failure_ok(x, Kind::Communication, None, None) => Ok(()),
                _ => Err(format!("a dropped connection is reported as {:?}, {:?} {}", ran.events, ran.result, ran.why)),
            }
        },
    );
}

const TOKENS: [&str; 4] = [" t/1&é=%2B+\t ", "", "same", "same"];

/// How pages are listed.
fn pages(c: &Check, d: &model::Doc, op: &model::Op, style: Style, f: &Fns) {
    let name = variant(&op.id);
    let depth = if c.thorough { 3 } else { 2 };
    let mut sizes: Vec<Vec<usize>> = vec![vec![]];
    let mut all = sizes.clone();
    for _ in 0..depth {
        sizes = sizes.iter().flat_map(|s| (0..3).map(move |n| [&s[..], &[n]].concat())).collect();
        all.extend(sizes.clone());
    }
    // Enough for every default someone might think of.
    all.extend([vec![1100], vec![900, 400]]);
    let l = line(d, op);
    let token = &op.params.iter().find(|p| p.name == "page_token" && p.loc == Loc::Query).unwrap().key;
    let must_limit = l.args.iter().any(|a| a.name == "limit" && a.required);
    let given = |a: &Arg| format!("--{}={}", a.name, if a.name == "limit" { "5" } else { "x" }).into();
    let item = |n: usize| match &op.id[..] {
        "inline" => json!(format!("item{n} \"é")),
        "numbers" => json!(n as i64 - 1),
        _ => json!({"name": format!("n{n}")}),
    };
    for s in &all {
        for end in ["null", "none", "404", "500", "302", "dropped", "invalid"] {
            let failing = !["null", "none"].contains(&end);
            if s.is_empty() && !failing {
                continue;
            }
            for limit in [None, Some(1), Some(2), Some(3), Some(7), Some(65536)] {
                if limit.is_none() && must_limit || limit != Some(3) && s.iter().any(|n| *n > 2) && (limit.is_some() || end != "null") {
                    continue;
                }
                for extra in [false, true] {
                    if extra && !op.params.iter().any(|p| p.name == "aa" || p.name == "other") {
                        continue;
                    }
                    c.trans(1);
                    c.case(
                        || format!("list {style:?} {} {s:?} then {end} limit {limit:?} {extra}", op.id),
                        || {
                            let mut n = 0;
                            let mut script = vec![];
                            let mut items = vec![];
                            for (i, k) in s.iter().enumerate() {
                                let page: Vec<Value> = (0..*k).map(|j| item(n + j)).collect();
                                n += k;
                                items.push(page.clone());
                                let mut p = json!({"items": page});
                                if i + 1 < s.len() || failing {
                                    p["next_page"] = TOKENS[i].into();
                                } else if end == "null" {
                                    p["next_page"] = Value::Null;
                                }
                                script.push(Answer::json(200, &p));
                            }
                            match end {
                                "404" | "500" => script.push(Answer::json(end.parse().unwrap(), &json!({"message": "m"}))),
                                "302" => script.push(Answer::new(302, &[], b"no")),
                                "dropped" => script.push(Answer::raw("")),
                                "invalid" => script.push(Answer::new(200, &[], b"{\"items\":3}")),
                                _ => {}
                            }
                            // The arguments.
                            let mut w: Vec<std::ffi::OsString> = vec![];
                            let mut args = Args::new();
                            let mut body = serde_json::Map::new();
                            for a in &l.args {
                                if a.name == "limit" {
                                    if let Some(n) = limit {
                                        w.push(format!("--limit={n}").into());
                                        args.insert("limit".into(), n.into());
                                    }
                                } else if a.required || extra {
                                    w.push(format!("--{}=p /é", a.name).into());
                                    match &a.what {
                                        What::Param(k) => drop(args.insert(k.clone(), "p /é".into())),
                                        What::Prop(k) => drop(body.insert(k.clone(), "p /é".into())),
                                    }
                                }
                            }
                            if l.file {
                                args.insert("body".into(), Value::Object(body));
                            }
                            if l.args.iter().any(|a| a.required && a.name != "limit" && a.texts.bad.len() > 0) {
                                return Err("unexpected type of a required argument".into());
                            }
                            let ran = run_line(f, &name, &w, &script, Rec::default())?;
                            let Some(result) = &ran.result else { return Err(format!("not run: {}", ran.why)) };
                            // What is to be listed: up to `limit` items.
                            let max = limit.unwrap_or(usize::MAX);
                            let flat: Vec<Value> = items.iter().flatten().cloned().collect();
                            let reached = flat.len() >= max;
                            let want_items: Vec<Value> = flat.iter().take(max).cloned().collect();
                            let mut got_items = vec![];
                            let [Event::Over(o), Event::Start, mid @ .., last] = &ran.events[..] else { return Err(format!("the callbacks were {:?}", ran.events)) };
                            for e in mid {
                                match e {
                                    Event::Listed(v) => {
                                        let mut v = v.clone();
                                        strip(&mut v);
                                        got_items.push(v)
                                    }
                                    e => return Err(format!("{e:?} between the items")),
                                }
                            }
                            if o != &op.id || got_items != want_items {
                                return Err(format!("the items listed are {got_items:?} instead of {want_items:?}, then {last:?}"));
                            }
                            if reached || !failing {
                                if *last != Event::End || *result != Ok(()) {
                                    return Err(format!("the list ended with {last:?}, {result:?}"));
                                }
                                c.outcome(if reached { "limit reached" } else { "listed to the end" });
                            } else {
                                let ok = match last {
                                    Event::EndError(x) => match end {
                                        "404" | "500" => failure_ok(x, Kind::ErrorResponse, Some(end.parse().unwrap()), Some(&json!({"message": "m"}))),
                                        "302" => failure_ok(x, Kind::Unexpected, Some(302), None),
                                        "dropped" => failure_ok(x, Kind::Communication, None, None),
                                        _ => failure_ok(x, Kind::InvalidPayload, None, None),
                                    },
                                    _ => false,
                                };
                                if !ok || result.is_ok() {
                                    return Err(format!("the list ended with {last:?}, {result:?} for {end}"));
                                }
                                c.outcome("error ended the list");
                            }
                            // The requests: no more than those items need.
                            let mut need = 0;
                            let mut have = 0;
                            for p in &items {
                                need += 1;
                                have += p.len();
                                if have >= max {
                                    break;
                                }
                            }
                            if have < max && failing {
                                need += 1;
                            }
                            if ran.got.len() != need {
                                return Err(format!("{} requests where {need} are needed", ran.got.len()));
                            }
                            for (i, r) in ran.got.iter().enumerate() {
                                let mut a = args.clone();
                                if i > 0 {
                                    a.retain(|k, _| k == "limit" || k == "body" || op.params.iter().any(|p| p.key == *k && p.loc != Loc::Query));
                                    a.insert(token.clone(), TOKENS[i - 1].into());
                                }
                                same_request(op, &a, r).map_err(|e| format!("request {i}: {e}"))?;
                            }
                            c.state(&("list", &op.id, s, end, limit));
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // What must be given, must be given.
    for a in l.args.iter().filter(|a| a.required) {
        c.case(
            || format!("list {style:?} {} without {}", op.id, a.name),
            || {
                let w: Vec<std::ffi::OsString> = l.args.iter().filter(|b| b.required && b.name != a.name).map(given).collect();
                let ran = run_line(f, &name, &w, &[], Rec::default())?;
                if ran.result.is_some() || ran.why.contains("panicked") || !ran.got.is_empty() {
                    return Err("it is not demanded".into());
                }
                Ok(())
            },
        );
    }
    for bad in ["0", "-1", "x", ""] {
        c.case(
            || format!("list {style:?} {} limit {bad:?}", op.id),
            || {
                if op.id.starts_with("limit_") && ["0", "-1"].contains(&bad) {
                    return Ok(());
                }
                let mut w: Vec<std::ffi::OsString> = l.args.iter().filter(|b| b.required && b.name != "limit").map(given).collect();
                w.push(format!("--limit={bad}").into());
                let ran = run_line(f, &name, &w, &[], Rec::default())?;
                if ran.result == Some(Ok(())) || !ran.got.is_empty() {
                    return Err("it is accepted".into());
                }
                Ok(())
            },
        );
    }
}

/// One argument, however it is named in the document.
fn names(c: &Check, d: &model::Doc, op: &model::Op, style: Style, f: &Fns, dir: &std::path::Path) {
    let name = variant(&op.id);
    let what = op.params.first().map_or_else(|| body_schema(d, op)["required"][0].as_str().unwrap().to_string(), |p| p.name.clone());
    c.case(
        || format!("name {style:?} {} {what:?}", op.id),
        || {
            let longs = mc_core::quietly(|| {
                let mut cmd = (f.command)(&name).unwrap();
                cmd.build();
                cmd.get_arguments().filter(|a| !matches!(a.get_action(), clap::ArgAction::Help)).filter_map(|a| a.get_long().map(|l| l.to_string())).collect::<Vec<_>>()
            })
            .map_err(|p| format!("the command cannot be made: {p}"))?;
            let mine: Vec<&String> = longs.iter().filter(|l| op.body == Body::None || !["json-body", "json-body-template"].contains(&&l[..])).collect();
            if op.body != Body::None && ["json-body", "json-body-template"].contains(&&kebab(&what)[..]) {
                // Taken: given in the file.
                if !mine.is_empty() {
                    return Err(format!("the arguments are {longs:?}"));
                }
                let path = dir.join(format!("{}.json", op.id));
                let v = json!({&what[..]: "x"});
                std::fs::write(&path, v.to_string()).unwrap();
                let ran = run_line(f, &name, &[format!("--json-body={}", path.display()).into()], &[success(op).1], Rec::default())?;
                let [r] = &ran.got[..] else { return Err(format!("{} requests, {:?} {}", ran.got.len(), ran.result, ran.why)) };
                return same_request(op, &[("body".to_string(), v)].into_iter().collect(), r);
            }
            let [long] = mine[..] else { return Err(format!("the arguments are {longs:?}")) };
            for v in ["", "a b", "-é=&"] {
                c.trans(1);
                let ran = run_line(f, &name, &[format!("--{long}={v}").into()], &[success(op).1], Rec::default())?;
                let mut args = Args::new();
                match op.params.first() {
                    Some(p) => args.insert(p.key.clone(), v.into()),
                    None => args.insert("body".into(), json!({&what[..]: v})),
                };
                let [r] = &ran.got[..] else { return Err(format!("{} requests, {:?} {}", ran.got.len(), ran.result, ran.why)) };
                same_request(op, &args, r)?;
                c.state(&("name", &op.id, v));
            }
            c.outcome("named");
            let ran = run_line(f, &name, &[], &[success(op).1], Rec::default())?;
            let required = op.params.first().is_none_or(|p| p.required);
            if required == (ran.result.is_some() || !ran.got.is_empty()) {
                return Err(format!("without it: {:?}, {} requests {}", ran.result, ran.got.len(), ran.why));
            }
            Ok(())
        },
    );
}

/// Arguments whose names alone would not do, found by their help.
fn clash(c: &Check, op: &model::Op, style: Style, f: &Fns) {
    let name = variant(&op.id);
    let n = op.params.len();
    let pages = op.more.iter().any(|m| m.0 == "x-dropshot-pagination");
    let token = |p: &model::Param| pages && p.name == "page_token" && p.loc == Loc::Query;
    let shown: Vec<_> = op.params.iter().map(|p| (&p.name, p.loc)).collect();
    for mask in 0..1usize << n {
        let given = |i: usize| mask & 1 << i != 0;
        if op.params.iter().enumerate().any(|(i, p)| token(p) && given(i)) {
            continue;
        }
        c.trans(1);
        c.state(&("clash", &op.id, mask));
        c.case(
            || format!("clash {style:?} {} {shown:?} given {mask:b}", op.id),
            || {
                let longs = mc_core::quietly(|| {
                    let mut cmd = (f.command)(&name).unwrap();
                    cmd.build();
                    cmd.get_arguments().filter_map(|a| Some((a.get_help()?.to_string(), a.get_long()?.to_string()))).collect::<Vec<_>>()
                })
                .map_err(|p| format!("the command cannot be made: {p}"))?;
                let mut w: Vec<std::ffi::OsString> = vec![];
                let mut args = Args::new();
                for (i, p) in op.params.iter().enumerate() {
                    let help = format!("Parameter number {i}.");
                    let mine: Vec<&String> = longs.iter().filter(|l| l.0 == help).map(|l| &l.1).collect();
                    match mine[..] {
                        [long] if !token(p) => {
                            if given(i) {
                                let v = if pages && p.name == "limit" && p.loc == Loc::Query { json!(2) } else { json!(format!("v{i}")) };
                                w.push(format!("--{long}={}", v.as_str().map_or_else(|| v.to_string(), |s| s.into())).into());
                                args.insert(p.key.clone(), v);
                            }
                        }
                        [] if token(p) => {}
                        _ => return Err(format!("the arguments of {:?} {:?} are {mine:?} of {longs:?}", p.loc, p.name)),
                    }
                }
                let complete = op.params.iter().enumerate().all(|(i, p)| given(i) || !p.required);
                let answer = if pages { Answer::json(200, &json!({"items": [{"name": "a"}, {"name": "b"}, {"name": "c"}]})) } else { success(op).1 };
                let ran = run_line(f, &name, &w, &[answer], Rec::default())?;
                if !complete {
                    c.outcome("demanded");
                    if ran.result.is_some() || ran.why.contains("panicked") || !ran.got.is_empty() {
                        return Err(format!("{:?} though a required argument is missing", ran.result));
                    }
                    return Ok(());
                }
                c.outcome("told apart");
                let [r] = &ran.got[..] else { return Err(format!("{} requests, {:?} {}", ran.got.len(), ran.result, ran.why)) };
                same_request(op, &args, r)?;
                if ran.result != Some(Ok(())) {
                    return Err(format!("{:?} {}", ran.result, ran.why));
                }
                let listed = ran.events.iter().filter(|e| matches!(e, Event::Listed(_))).count();
                let limited = op.params.iter().enumerate().any(|(i, p)| pages && p.name == "limit" && p.loc == Loc::Query && given(i));
                if pages && listed != if limited { 2 } else { 3 } {
                    return Err(format!("{listed} items listed"));
                }
                Ok(())
            },
        );
    }
}

pub fn run(c: &Arc<Check>, reg: &Registry) {
    let ops = operations("G13", c.thorough);
    let dir = scratch();
    mc_core::par(&ops, |(d, op, style)| {
        let f = match command(reg, d, op, *style) {
            Ok(f) => f,
            Err(e) => {
                c.fail(&format!("{} {style:?} {}", d.key, op.id), &e);
                return;
            }
        };
        match &d.key[..] {
            "answers" | "hard" => answers(c, d, op, *style, f),
            "pages" => pages(c, d, op, *style, f),
            k if k.starts_with("clash") => clash(c, op, *style, f),
            k if k.starts_with("names") => names(c, d, op, *style, f, &dir),
            _ => requests(c, d, op, *style, f, &dir),
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    // Every operation is one command.
    let mut seen = vec![];
    for (d, _, style) in &ops {
        if seen.contains(&(&d.key, *style)) {
            continue;
        }
        seen.push((&d.key, *style));
        c.case(
            || format!("commands of {style:?} {}", d.key),
            || {
                let f = command(reg, d, &d.ops[0], *style)?;
                let mut got = (f.names)();
                let mut want: Vec<String> = d.ops.iter().map(|o| variant(&o.id)).collect();
                got.sort();
                want.sort();
                if got != want {
                    return Err(format!("the commands are {got:?} instead of {want:?}"));
                }
                Ok(())
            },
        );
    }
    c.bound(format!(
        "{} operations: every type in every place, every pair of properties of a body (optional or required, a single text or not), every combination of parameters, names of all kinds, names that make for the same argument; each with every combination of given and absent arguments, every valid and invalid text, every body file; every combination of responses with every kind of answer; every list of up to {} pages of 0 to 2 items with 7 ends and 6 limits",
        ops.len(),
        if c.thorough { 3 } else { 2 }
    ));
    for d in cases::broken("G13") {
        c.case(
            || format!("compile {}", d.key),
            || {
                let at = mc_core::verif_dir().join(format!("target/exec/G13/broken-{}", d.key));
                let status = std::fs::read_to_string(at.join("status")).unwrap_or_default();
                if status.trim() != "0" {
                    let log = std::fs::read_to_string(at.join("log")).unwrap_or_default();
                    let first = log.lines().find(|l| l.starts_with("error")).unwrap_or("no build").to_string();
                    return Err(format!("the generated code does not compile: {first}"));
                }
                Ok(())
            },
        );
    }
}
