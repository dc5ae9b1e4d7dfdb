//! Writes the crate that holds the generated clients of an executed check and
//! a driver for each, made from the public functions of the generated code.
use crate::api::{targs, Api};
use crate::doc;
use mc_core::*;
use model::{Doc, Style};
use progenitor_impl::GenerationSettings;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use syn::Type;

const SHARDS: usize = 8;

fn put(path: &Path, text: &str) {
    if std::fs::read_to_string(path).is_ok_and(|t| t == text) {
        return;
    }
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, text).unwrap();
}

fn show(t: &Type) -> String {
    quote::quote!(#t).to_string().replace(' ', "").replace("::std::string::String", "String").replace("::std::option::Option", "Option").replace("::std::vec::Vec", "Vec").replace("&'a", "&").replace("'_", "")
}

fn settings(d: &Doc, style: Style) -> GenerationSettings {
    let mut s = doc::settings(match style {
        Style::Positional => doc::Style::Positional,
        Style::Builder => doc::Style::Builder,
        Style::Tagged => doc::Style::Tagged,
    });
    let t = |x: &Option<String>| x.as_ref().map(|x| x.parse::<proc_macro2::TokenStream>().unwrap());
    if let Some(x) = t(&d.config.inner) {
        s.with_inner_type(x);
    }
    if let Some(x) = t(&d.config.pre) {
        s.with_pre_hook(x);
    }
    if let Some(x) = t(&d.config.pre_async) {
        s.with_pre_hook_async(x);
    }
    if let Some(x) = t(&d.config.post) {
        s.with_post_hook(x);
    }
    if let Some(x) = t(&d.config.post_async) {
        s.with_post_hook_async(x);
    }
    s
}

/// The key under which a check gives the value of an argument.
fn key(d: &Doc, name: &str, t: &str) -> String {
    if d.by_type {
        let t = t.trim_end_matches('>');
        let last = t.rsplit("::").next().unwrap_or("").trim_start_matches(['&', '<']);
        if last.starts_with('P') && last.len() > 1 && last[1..].chars().all(|c| c.is_ascii_digit()) {
            return last.to_string();
        }
        if ["Thing", "Form", "B", "Body", "[u8]"].contains(&last) {
            return "body".into();
        }
    }
    name.strip_prefix("r#").unwrap_or(name).to_string()
}

struct Arg {
    key: String,
    optional: bool,
    /// Statement making the owned value `x<i>`.
    make: String,
    pass: String,
}

fn arg(d: &Doc, i: usize, name: &str, t: &Type) -> Arg {
    let s = show(t);
    let key = key(d, name, &s);
    let (inner, optional) = match s.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')) {
        Some(x) => (x.to_string(), true),
        None => (s, false),
    };
    let (owned, by_ref) = match inner.strip_prefix('&') {
        Some("str") => ("String".to_string(), 2),
        Some(x) => match x.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
            Some(x) => (format!("Vec<{x}>"), 1),
            None => (x.to_string(), 1),
        },
        None => (inner.clone(), 0),
    };
    if owned == "B" {
        return Arg { make: format!("let x{i} = i.bytes({key:?})?;"), pass: format!("x{i}"), key, optional: false };
    }
    let (ty, pass) = match (optional, by_ref) {
        (false, 0) => (owned, format!("x{i}")),
        (false, _) => (owned, format!("&x{i}")),
        (true, 0) => (format!("Option<{owned}>"), format!("x{i}")),
        (true, 1) => (format!("Option<{owned}>"), format!("x{i}.as_ref()")),
        (true, _) => (format!("Option<{owned}>"), format!("x{i}.as_deref()")),
    };
    Arg { make: format!("let x{i}: {ty} = i.get({key:?})?;"), pass, key, optional }
}

/// The function that shows a response of this type as data.
fn shower(t: &Type) -> &'static str {
    match &show(t)[..] {
        "()" => "rt::empty",
        "ByteStream" => "rt::stream",
        "reqwest::Upgraded" => "rt::upgraded",
        _ => "rt::typed",
    }
}

fn driver(d: &Doc, style: Style, module: &str, api: &Api, mocks: &std::collections::BTreeMap<String, (String, String)>) -> Result<String, String> {
    let mut out = String::new();
    let w = &mut out;
    let inner = if d.config.inner.is_some() { ", e.inner.clone()" } else { "" };
    writeln!(w, "use super::{module}::{{Client, types}};\nuse rt::{{Entry, Env, Fut, Given, Input, Items, Step, Style}};\nuse progenitor_client::{{ByteStream, ResponseValue}};").unwrap();
    if style == Style::Tagged {
        writeln!(w, "use super::{module}::prelude::*;").unwrap();
    }
    if style != Style::Positional {
        writeln!(w, "struct Give<'a>(&'a Given);").unwrap();
        let mut seen = std::collections::BTreeSet::new();
        for b in api.builders.values() {
            for (_, t) in &b.setters {
                seen.insert(show(t));
            }
        }
        for f in api.body_fields.values().flatten() {
            seen.insert(show(&f.1).replace("super::", "types::"));
        }
        for t in seen {
            let f = if t.ends_with("reqwest::Body") { "give_body" } else { "give" };
            writeln!(w, "impl<'a> TryFrom<Give<'a>> for {t} {{ type Error = String; fn try_from(g: Give<'a>) -> Result<Self, String> {{ rt::{f}(g.0) }} }}").unwrap();
        }
    }
    let mut entries = String::new();
    // What is kept and used elsewhere can be handed from thread to thread.
    let moved = if d.config.live { "rt::moved" } else { "" };
    let (mut live_calls, mut live_streams) = (String::new(), String::new());
    for (index, op) in d.ops.iter().enumerate() {
        let id = &op.id;
        let mut f = doc::method_name(id);
        if d.by_op {
            // The function, or that of the builder, with the parameter's type.
            let has = |ts: &[(String, Type)]| ts.iter().any(|(n, t)| key(d, n, &show(t)) == op.params[0].key);
            let found: Vec<&String> = if style == Style::Positional {
                api.methods.values().filter(|m| has(&m.args)).map(|m| &m.name).collect()
            } else {
                api.starts.iter().filter(|(_, b)| api.builders.get(*b).is_some_and(|b| has(&b.setters))).map(|x| x.0).collect()
            };
            let [one] = found[..] else { return Err(format!("operation {id:?} has the functions {found:?}")) };
            f = one.clone();
        }
        writeln!(w, "mod op_{}_{index} {{ use super::*;", sane(id)).unwrap();
        let mut args = vec![];
        let mut traits: Vec<String> = vec![];
        let mut has_stream = false;
        if style == Style::Positional {
            let m = api.methods.get(&f).ok_or_else(|| format!("operation {id} has no function {f}"))?;
            let a: Vec<Arg> = m.args.iter().enumerate().map(|(i, (n, t))| arg(d, i, n, t)).collect();
            let call = |a: &[Arg]| a.iter().map(|a| a.pass.clone()).collect::<Vec<_>>().join(", ");
            let makes = |a: &[Arg]| a.iter().map(|a| a.make.clone()).collect::<Vec<_>>().join(" ");
            writeln!(
                w,
                "pub fn call(e: &Env, i: &Input) -> Fut {{ let (e, i) = (e.clone(), i.clone()); Box::pin(async move {{ {} let c = Client::new_with_client(&e.base, e.http.clone(){inner}); Ok(rt::out((&c).{f}({}).await, {}, {}).await) }}) }}",
                makes(&a), call(&a), shower(&m.success), shower(&m.error)
            )
            .unwrap();
            if d.config.live {
                writeln!(
                    w,
                    "pub fn call_on(c: &'static Client, i: &Input) -> Result<Fut, String> {{ let i = i.clone(); Ok(Box::pin(async move {{ {} Ok(rt::out(rt::moved(c.{f}({})).await, {}, {}).await) }})) }}",
                    makes(&a), call(&a), shower(&m.success), shower(&m.error)
                )
                .unwrap();
            }
            args = a.iter().map(|a| (a.key.clone(), a.optional)).collect();
            if let Some(sargs) = api.streams.get(&f) {
                has_stream = true;
                let a: Vec<Arg> = sargs.iter().enumerate().map(|(i, (n, t))| arg(d, i, n, t)).collect();
                let leak: String = a.iter().enumerate().filter(|(_, a)| a.pass != format!("x{}", 0) && a.pass.contains(['&', '.'])).map(|(i, _)| format!("let x{i} = Box::leak(Box::new(x{i})); ")).collect();
                let pass: Vec<String> = a.iter().map(|a| a.pass.strip_prefix('&').map(|x| format!("&*{x}")).unwrap_or(a.pass.clone())).collect();
                writeln!(
                    w,
                    "pub fn stream(e: &Env, i: &Input) -> Result<Items, String> {{ stream_on(Box::leak(Box::new(Client::new_with_client(&e.base, e.http.clone(){inner}))), i) }}
pub fn stream_on(c: &'static Client, i: &Input) -> Result<Items, String> {{ {} {leak} Ok(rt::items({moved}(c.{f}_stream({})), {})) }}",
                    makes(&a), pass.join(", "), shower(&m.error)
                )
                .unwrap();
            }
        } else {
            let b = api.starts.get(&f).ok_or_else(|| format!("operation {id} has no function {f}"))?;
            let b = api.builders.get(b).ok_or_else(|| format!("operation {id} has no builder {b}"))?;
            let (ok, err) = b.send.as_ref().ok_or_else(|| format!("the builder of {id} cannot be sent"))?;
            traits = api.traits.iter().filter(|t| t.1.contains(&f)).map(|t| t.0.clone()).collect();
            let start = match (style, &traits[..]) {
                (Style::Tagged, ts) if !ts.is_empty() => {
                    let arms: String = ts.iter().enumerate().map(|(i, t)| format!("{i} => {t}::{f}($c), ")).collect();
                    format!("match $i.via {{ {arms} _ => return Err(\"no such trait\".into()) }}")
                }
                _ => format!("($c).{f}()"),
            };
            let mut arms = String::new();
            for (n, t) in &b.setters {
                let k = key(d, n, &show(t));
                args.push((k.clone(), true));
                write!(arms, "Step::Set(k, g) if k == {k:?} => b.{n}(Give(g)), ").unwrap();
                if n == "body" && b.body_map {
                    let tn = show(t);
                    let tn = tn.rsplit("::").next().unwrap();
                    if let Some(fields) = api.body_fields.get(tn) {
                        let farms: String = fields.iter().map(|(f, _)| format!("{:?} => x.{f}(Give(g)), ", f.strip_prefix("r#").unwrap_or(f))).collect();
                        write!(arms, "Step::Map(k, g) => b.body_map(|x| match &k[..] {{ {farms} _ => x }}), ").unwrap();
                    }
                }
            }
            writeln!(
                w,
                "macro_rules! made {{ ($c:expr, $i:expr) => {{{{ let mut b = {start}; for s in &$i.steps {{ b = match s {{ {arms} s => return Err(format!(\"no setter for {{s:?}}\")) }}; }} b }}}} }}
pub fn call(e: &Env, i: &Input) -> Fut {{ let (e, i) = (e.clone(), i.clone()); Box::pin(async move {{ let c = &Client::new_with_client(&e.base, e.http.clone(){inner}); let b = made!(c, i); Ok(rt::out(b.send().await, {}, {}).await) }}) }}",
                shower(ok), shower(err)
            )
            .unwrap();
            if d.config.live {
                writeln!(w, "pub fn call_on(c: &'static Client, i: &Input) -> Result<Fut, String> {{ let b = rt::moved(made!(c, i)); Ok(Box::pin(async move {{ Ok(rt::out(rt::moved(b.send()).await, {}, {}).await) }})) }}", shower(ok), shower(err)).unwrap();
            }
            if b.stream {
                has_stream = true;
                writeln!(
                    w,
                    "pub fn stream(e: &Env, i: &Input) -> Result<Items, String> {{ stream_on(Box::leak(Box::new(Client::new_with_client(&e.base, e.http.clone(){inner}))), i) }}
pub fn stream_on(c: &'static Client, i: &Input) -> Result<Items, String> {{ let b = made!(c, i); Ok(rt::items({moved}(b.stream()), {})) }}",
                    shower(err)
                )
                .unwrap();
            }
        }
        writeln!(w, "}}").unwrap();
        let m = format!("op_{}_{index}", sane(id));
        let args: String = args.iter().map(|(k, o)| format!("({k:?}, {o}), ")).collect();
        write!(live_calls, "{id:?} => {m}::call_on(self.0, i), ").unwrap();
        if has_stream {
            write!(live_streams, "{id:?} => {m}::stream_on(self.0, i), ").unwrap();
        }
        writeln!(
            entries,
            "Entry {{ doc: {:?}, style: Style::{style:?}, op: {id:?}, args: &[{args}], traits: &{traits:?}, call: {m}::call, stream: {}, cli: {}, mock: {}, live: {} }},",
            d.key,
            if has_stream { format!("Some({m}::stream)") } else { "None".into() },
            if d.config.cli { format!("Some(super::d{}k::FNS)", &module[1..]) } else { "None".into() },
            mocks.get(id).map_or("None".into(), |(f, about)| format!("Some(rt::Mocked {{ make: super::d{}m::{f}, {about} }})", &module[1..])),
            if d.config.live { "Some(live)" } else { "None" },
        )
        .unwrap();
    }
    if d.config.live {
        let (made, shown) = if d.config.inner.is_some() { (", e.inner.clone()", "Some(self.0.inner().id)") } else { ("", "None") };
        writeln!(
            w,
            "const _: () = rt::shared::<Client>();
struct Kept(&'static Client);
impl rt::Live for Kept {{
fn base(&self) -> String {{ self.0.baseurl().to_string() }}
fn version(&self) -> String {{ self.0.api_version().to_string() }}
fn inner(&self) -> Option<u64> {{ {shown} }}
fn http(&self) -> rt::reqwest::Client {{ self.0.client().clone() }}
fn dup(&self) -> Box<dyn rt::Live> {{ Box::new(Kept(Box::leak(Box::new(self.0.clone())))) }}
fn call(&self, op: &str, i: &Input) -> Result<Fut, String> {{ match op {{ {live_calls} _ => Err(\"no such operation\".into()) }} }}
fn stream(&self, op: &str, i: &Input) -> Result<Items, String> {{ match op {{ {live_streams} _ => Err(\"no such stream\".into()) }} }}
}}
fn live(e: &Env, how: rt::How) -> Box<dyn rt::Live> {{ Box::new(Kept(Box::leak(Box::new(match how {{ rt::How::New => Client::new(&e.base{made}), rt::How::WithClient => Client::new_with_client(&e.base, e.http.clone(){made}) }})))) }}"
        )
        .unwrap();
    }
    writeln!(w, "pub fn entries() -> Vec<Entry> {{ vec![{entries}] }}").unwrap();
    Ok(out)
}

/// Functions making the mocks of the operations.
fn mock_driver(d: &Doc, module: &str, code: &str) -> Result<(String, std::collections::BTreeMap<String, (String, String)>), String> {
    let file: syn::File = syn::parse_str(code).map_err(|e| format!("the generated mock does not parse: {e}"))?;
    let mocks = crate::api::mocks(&file);
    let mut out = format!("use super::{module}::types;\nuse super::{module}m::MockServerExt;\nuse rt::Input;\n");
    let mut entries = std::collections::BTreeMap::new();
    for (index, op) in d.ops.iter().enumerate() {
        let f = doc::method_name(&op.id);
        let m = mocks.get(&f).ok_or_else(|| format!("operation {} has no mock {f}", op.id))?;
        let mut arms = String::new();
        let mut args = String::new();
        for w in &m.when {
            let [(n, t)] = &w.args[..] else { return Err(format!("mock {f}: {} takes {} arguments", w.name, w.args.len())) };
            let _ = n;
            let plain = w.name.trim_end_matches('_');
            let a = arg(d, 0, if op.params.iter().any(|p| p.key == plain) { plain } else { &w.name }, t);
            write!(arms, "k if k == {:?} => {{ let i = &Input::of(&[(k.clone(), v.clone())].into_iter().collect()); {} w.{}({}) }} ", a.key, a.make, w.name, a.pass).unwrap();
            write!(args, "({:?}, {}), ", a.key, a.optional).unwrap();
        }
        let mut thens = String::new();
        let mut tarms = String::new();
        for t in &m.then {
            let mut pass = vec![];
            let mut make = String::new();
            for (i, (n, ty)) in t.args.iter().enumerate() {
                if show(ty) == "u16" && n == "status" {
                    pass.push("status".to_string());
                    continue;
                }
                let a = arg(d, i, "value", ty);
                make.push_str(&a.make);
                pass.push(a.pass);
            }
            write!(tarms, "{:?} => {{ {make} t.{}({}) }} ", t.name, t.name, pass.join(", ")).unwrap();
            write!(thens, "({:?}, {}), ", t.name, t.args.iter().any(|a| a.0 == "status")).unwrap();
        }
        writeln!(
            out,
            "pub fn m{index}(args: &rt::Args, then: Option<(&str, u16, rt::Value)>) -> Result<httpmock::Mock, String> {{
let mut bad = None;
let m = httpmock::MockServer::start().{f}(|when, t| {{
let mut go = || -> Result<(), String> {{
let mut w = when;
for (k, v) in args {{ w = match k {{ {arms} k => return Err(format!(\"no matcher for {{k}}\")) }}; }}
if let Some((name, status, v)) = then {{ let i = &Input::of(&[(\"value\".to_string(), v)].into_iter().collect()); match name {{ {tarms} n => return Err(format!(\"no answer {{n}}\")) }}; }}
Ok(())
}};
bad = go().err();
}});
match bad {{ Some(e) => Err(e), None => Ok(m) }}
}}"
        )
        .unwrap();
        entries.insert(op.id.clone(), (format!("m{index}"), format!("when: &[{args}], then: &[{thens}]")));
    }
    Ok((out, entries))
}

/// Runs the command line of a client.
fn cli_driver(d: &Doc, module: &str, api: &Api) -> Result<String, String> {
    let mut over = String::new();
    for op in &d.ops {
        let f = doc::method_name(&op.id);
        let b = api.starts.get(&f).ok_or_else(|| format!("operation {} has no function {f}", op.id))?;
        let setters = &api.builders.get(b).ok_or_else(|| format!("operation {} has no builder {b}", op.id))?.setters;
        let arms: String = setters.iter().filter(|(n, t)| n != "body" && show(t) == "String").map(|(n, t)| format!("{:?} => *r = Clone::clone(&*r).{n}(s.clone()), ", key(d, n, &show(t)))).collect();
        // Builders with a raw body cannot be cloned.
        let edit = if arms.is_empty() || matches!(op.body, model::Body::Octet | model::Body::Text(_)) { String::new() } else { format!("for (k, s) in &self.edits {{ match &k[..] {{ {arms} _ => {{}} }} }}") };
        write!(over, "fn execute_{f}(&self, m: &clap::ArgMatches, r: &mut super::{module}::builder::{b}) -> anyhow::Result<()> {{ {edit} self.over({:?}) }}\n", op.id).unwrap();
    }
    let bound = "schemars::JsonSchema + serde::Serialize + std::fmt::Debug";
    Ok(format!(
        "use super::{module}::Client;
use super::{module}k::{{Cli, CliCommand, CliConfig}};
use progenitor_client::{{Error, ResponseValue}};
use rt::cli::Rec;
impl CliConfig for Rec {{
fn success_item<T: {bound}>(&self, v: &ResponseValue<T>) {{ self.item(v) }}
fn success_no_item(&self, v: &ResponseValue<()>) {{ self.no_item(v) }}
fn error<T: {bound}>(&self, v: &Error<T>) {{ self.failed(v) }}
fn list_start<T: {bound}>(&self) {{ self.start() }}
fn list_item<T: {bound}>(&self, v: &T) {{ self.listed(v) }}
fn list_end_success<T: {bound}>(&self) {{ self.end() }}
fn list_end_error<T: {bound}>(&self, v: &Error<T>) {{ self.end_failed(v) }}
{over}}}
fn names() -> Vec<String> {{ CliCommand::iter().map(|c| format!(\"{{c:?}}\")).collect() }}
fn command(name: &str) -> Option<clap::Command> {{ CliCommand::iter().find(|c| format!(\"{{c:?}}\") == name).map(Cli::<Rec>::get_command) }}
fn run(e: &rt::Env, name: &str, m: clap::ArgMatches, rec: Rec) -> rt::cli::Fut {{
let c = CliCommand::iter().find(|c| format!(\"{{c:?}}\") == name).unwrap();
let cli = Cli::new(Client::new_with_client(&e.base, e.http.clone()), rec);
Box::pin(async move {{ cli.execute(c, &m).await.map_err(|e| format!(\"{{e}}\")) }})
}}
pub const FNS: rt::cli::Fns = rt::cli::Fns {{ names, command, run }};
"
    ))
}

fn sane(id: &str) -> String {
    id.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect()
}

/// Generate all clients of `id` and write the crates. Err: what could not be
/// generated.
pub fn emit(c: &Check, id: &str, dir: &Path) {
    let docs = model::cases::of(id, c.thorough);
    let jobs: Vec<(usize, &Doc, Style)> = docs.iter().flat_map(|d| d.styles.iter().map(move |s| (d, *s))).enumerate().map(|(i, (d, s))| (i, d, s)).collect();
    let made: Vec<std::sync::Mutex<Option<Vec<(&str, String)>>>> = jobs.iter().map(|_| Default::default()).collect();
    par(&jobs, |(i, d, style)| {
        c.case(
            || format!("generate {} {style:?}", d.key),
            || {
                let g = doc::generate_with(&settings(d, *style), &doc::parse(&d.json()));
                let module = format!("c{i}");
                let code = g.code()?;
                let mut files = vec![];
                let mut mocks = Default::default();
                if d.config.mock {
                    let m = doc::generate_mock(&settings(d, *style), &doc::parse(&d.json()), &format!("crate::{module}"));
                    let (drv, fns) = mock_driver(d, &module, m.code()?)?;
                    mocks = fns;
                    files.push(("c m", pretty(m.code()?)));
                    files.push(("d m", drv));
                }
                if d.config.cli {
                    // As documented: by the generator that made the client.
                    let spec = doc::parse(&d.json());
                    let k = mc_core::quietly(|| {
                        let mut g = progenitor_impl::Generator::new(&settings(d, *style));
                        g.generate_tokens(&spec).map_err(|e| e.to_string())?;
                        g.cli(&spec, &format!("crate::{module}")).map_err(|e| e.to_string())
                    })
                    .map_err(|p| format!("making the command line panicked: {p}"))?
                    .map_err(|e| format!("making the command line failed: {e}"))?
                    .to_string();
                    let alone = doc::generate_cli(&settings(d, *style), &spec, &format!("crate::{module}"));
                    if alone.code()? != k {
                        return Err("the command line differs when the generator has not made the client before".into());
                    }
                    files.push(("d k", cli_driver(d, &module, &g.api()?)?));
                    files.push(("c k", pretty(&k)));
                }
                files.push(("d", driver(d, *style, &module, &g.api()?, &mocks)?));
                files.push(("c", pretty(code)));
                *made[*i].lock().unwrap() = Some(files);
                Ok(())
            },
        );
    });
    let lower = id.to_lowercase();
    let mut shards: Vec<Vec<usize>> = vec![vec![]; SHARDS];
    for (i, _, _) in &jobs {
        shards[i % SHARDS].push(*i);
    }
    let mut keep: Vec<PathBuf> = vec![];
    let mut write = |p: PathBuf, t: &str| {
        put(&p, t);
        keep.push(p);
    };
    let verif = verif_dir();
    let rt = verif.join("gen/rt");
    let deps = format!(
        "rt = {{ path = {rt:?} }}\nanyhow = \"1\"\nclap = {{ version = \"4\", features = [\"string\"] }}\nschemars = {{ path = {:?} }}\nhttpmock = {{ path = {:?} }}\nregex = \"1\"\nprogenitor-client = {{ path = \"/repo/progenitor-client\" }}\nbase64 = \"0.22\"\nbytes = \"1\"\nchrono = {{ version = \"0.4\", default-features = false, features = [\"serde\", \"alloc\", \"std\", \"clock\"] }}\nfutures = \"0.3\"\nrand = \"0.9\"\nreqwest = {{ version = \"0.12.4\", default-features = false, features = [\"json\", \"stream\"] }}\nserde = {{ version = \"1\", features = [\"derive\"] }}\nserde_json = \"1\"\nuuid = {{ version = \"1\", features = [\"serde\", \"v4\"] }}\n",
        verif.join("gen/shims/schemars"),
        verif.join("gen/shims/httpmock")
    );
    let mut members = vec!["\"main\"".to_string()];
    let mut main_deps = format!("rt = {{ path = {rt:?} }}\n");
    let mut entries = String::new();
    for (s, ix) in shards.iter().enumerate().filter(|(_, ix)| !ix.is_empty()) {
        members.push(format!("\"s{s}\""));
        let name = format!("{lower}-s{s}");
        write(dir.join(format!("s{s}/Cargo.toml")), &format!("[package]\nname = {name:?}\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n{deps}"));
        let mut lib = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
        for i in ix {
            let Some(files) = made[*i].lock().unwrap().take() else { continue };
            let (_, d, style) = &jobs[*i];
            for (name, text) in files {
                let (a, b) = name.split_once(' ').unwrap_or((name, ""));
                writeln!(lib, "pub mod {a}{i}{b};").unwrap();
                write(dir.join(format!("s{s}/src/{a}{i}{b}.rs")), &format!("// {} {style:?}\n{text}", d.key));
            }
        }
        writeln!(lib, "pub fn entries() -> Vec<rt::Entry> {{ let mut v = vec![]; {} v }}", ix.iter().map(|i| format!("v.extend(d{i}::entries());")).collect::<String>()).unwrap();
        write(dir.join(format!("s{s}/src/lib.rs")), &lib);
        writeln!(main_deps, "{name} = {{ path = \"../s{s}\" }}").unwrap();
        write!(entries, "v.extend({}::entries());", name.replace('-', "_")).unwrap();
    }
    write(dir.join("main/Cargo.toml"), &format!("[package]\nname = \"{lower}-exec\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n{main_deps}"));
    write(dir.join("main/src/main.rs"), &format!("fn main() {{ let mut v = vec![]; {entries} rt::checks::main({id:?}, rt::Registry(v)) }}\n"));
    for d in model::cases::broken(id) {
        let name = format!("{lower}-broken-{}", d.key.replace('_', "-"));
        let at = dir.join(format!("broken-{}", d.key));
        members.push(format!("{:?}", format!("broken-{}", d.key)));
        write(at.join("Cargo.toml"), &format!("[package]\nname = {name:?}\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n{deps}"));
        let s = settings(&d, if d.config.cli { Style::Tagged } else { Style::Positional });
        let text = |g: doc::Gen| match g {
            doc::Gen::Code(c) => pretty(&c),
            g => format!("compile_error!({:?});", format!("{g:?}")),
        };
        write(at.join("src/lib.rs"), "#![allow(warnings)]\npub mod c;\npub mod m;\npub mod k;\n");
        write(at.join("src/k.rs"), &if d.config.cli { text(doc::generate_cli(&s, &doc::parse(&d.json()), "crate::c")) } else { String::new() });
        write(at.join("src/c.rs"), &text(doc::generate_with(&s, &doc::parse(&d.json()))));
        write(at.join("src/m.rs"), &if d.config.mock { text(doc::generate_mock(&s, &doc::parse(&d.json()), "crate::c")) } else { String::new() });
    }
    write(
        dir.join("Cargo.toml"),
        &format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\ndefault-members = [\"main\"]\n[profile.dev]\ndebug = false\nincremental = false\nopt-level = 0\n[profile.dev.package.\"*\"]\nopt-level = 1\n", members.join(", ")),
    );
    // Files of an earlier run that no longer belong.
    fn sweep(d: &Path, keep: &[PathBuf]) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                sweep(&p, keep);
            } else if p.extension().is_some_and(|x| x == "rs") && !keep.contains(&p) {
                let _ = std::fs::remove_file(p);
            }
        }
    }
    sweep(dir, &keep);
    let lock = dir.join("Cargo.lock");
    if !lock.exists() {
        std::fs::copy(verif.join("gen/Cargo.lock"), lock).unwrap();
    }
}

/// Line breaks, so that compiler messages can be read.
fn pretty(code: &str) -> String {
    code.replace(" ; ", " ;\n").replace(" } ", " }\n").replace(" { ", " {\n")
}

/// Errors of a build of the emitted crates that lie in generated clients or
/// their drivers.
pub fn blame(c: &Check, dir: &Path, log: &str) {
    let mut last = String::new();
    let mut found = std::collections::BTreeMap::new();
    for l in log.lines() {
        if l.starts_with("error") {
            last = l.to_string();
        } else if let Some(at) = l.trim().strip_prefix("--> ") {
            let file = at.split(':').next().unwrap();
            let name = file.rsplit('/').next().unwrap();
            let ours = (name.starts_with('c') || name.starts_with('d')) && name[1..].strip_suffix(".rs").is_some_and(|n| n.trim_end_matches(['m', 'k']).parse::<usize>().is_ok());
            if ours && !last.is_empty() {
                let text = std::fs::read_to_string(dir.join(file)).unwrap_or_default();
                let which = text.lines().next().unwrap_or("").trim_start_matches("// ").to_string();
                let line: usize = at.split(':').nth(1).and_then(|n| n.parse().ok()).unwrap_or(1);
                let src = text.lines().nth(line - 1).unwrap_or("").trim().chars().take(200).collect::<String>();
                let what = if name.starts_with('c') { "the generated code does not compile" } else { "the generated code does not have the interface its signatures promise" };
                found.entry(which).or_insert(format!("{what}: {last} ({src})"));
            }
            last.clear();
        }
    }
    for (k, w) in found {
        c.fail(&format!("compile {k}"), &w);
        c.trace();
    }
}
