"""Helper for writing planted changes: seed(id, property, edits, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

DEMO_SH = '''#!/bin/bash
# Builds main.rs against this repository's progenitor-client in a scratch
# directory and runs it: exit 0 when the library behaves as described.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 2
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
progenitor-client = { path = "$repo/progenitor-client" }
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
http = "1.3.1"
bytes = "1.10.1"
futures-core = "0.3.31"
serde = { version = "1.0.219", features = ["derive"] }
serde_json = "1.0.140"
tokio = { version = "1.44.2", features = ["rt", "net", "io-util", "time", "sync"] }
url = "2.5.4"
[profile.dev]
debug = false
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$d" && cargo build --offline -q || exit 2
"$d/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use progenitor_client::*;
use bytes::Bytes;
use futures_core::Stream;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::task::{Context, Poll};
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
fn resp(status: u16, headers: &[(&str, &str)], body: impl Into<reqwest::Body>) -> reqwest::Response {
    let mut b = http::Response::builder().status(status);
    for (k, v) in headers { b = b.header(*k, *v); }
    b.body(body).unwrap_or_else(|e| panic!("{e}")).into()
}
'''

def seed(id, prop, edits, demo, needs, breaks, files=None, demo_sh=None):
    """edits: list of (file, old, new)"""
    out = f"{V}/seeded/{id}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "-s", "/repo", t + "/w"])
        for f, old, new in edits:
            p = f"{t}/w/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git", "-C", t + "/w", "diff"]).decode()
        open(out + "/patch.diff", "w").write(d)
    finally:
        shutil.rmtree(t)
    if demo_sh is None:
        open(out + "/demo.sh", "w").write(DEMO_SH)
        open(out + "/main.rs", "w").write(PRE + demo)
        shutil.copy(f"{V}/tools/seeds/Cargo.lock", out)
    else:
        open(out + "/demo.sh", "w").write(demo_sh)
    for n, c in (files or {}).items():
        open(f"{out}/{n}", "w").write(c)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)


GEN_SH = '''#!/bin/bash
# Generates a client with this repository's generator (dependencies that are
# not available offline are replaced by the stand-ins beside this file),
# compiles it with main.rs and runs that: exit 0 when it behaves as documented.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
tar -xzf "$here/shims.tgz" -C "$d" && cp -r "$here/demo" "$d/demo" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 2
mkdir "$d/impl" && cat >"$d/impl/Cargo.toml" <<T
[package]
name = "progenitor-impl"
version = "0.9.1"
edition = "2021"
[lib]
path = "$repo/progenitor-impl/src/lib.rs"
[dependencies]
heck = "0.5"
http = "1"
indexmap = "2"
openapiv3 = { path = "../shims/openapiv3" }
proc-macro2 = "1"
quote = "1"
regex = "1"
schemars = { path = "../shims/schemars", features = ["chrono", "uuid1"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
syn = { version = "2", features = ["parsing"] }
thiserror = "2"
typify = { path = "../shims/typify" }
unicode-ident = "1"
T
sed -i "s|REPO|$repo|" "$d/demo/Cargo.toml"
printf '[workspace]\\nresolver = "2"\\nmembers = ["impl", "demo"]\\n[profile.dev]\\ndebug = false\\n' >"$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$d" && cargo build --offline -q -p demo || exit 3
"$d/target/debug/demo"
'''
GEN_DEPS = '''progenitor-impl = { path = "../impl" }
openapiv3 = { path = "../shims/openapiv3" }
schemars = { path = "../shims/schemars" }
typify = { path = "../shims/typify" }
serde_json = "1"
syn = { version = "2", features = ["full"] }
quote = "1"
proc-macro2 = "1"
'''
RUN_DEPS = '''progenitor-client = { path = "REPO/progenitor-client" }
base64 = "0.22"
bytes = "1"
chrono = { version = "0.4", default-features = false, features = ["serde", "alloc", "std", "clock"] }
futures = "0.3"
rand = "0.9"
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt", "net", "io-util", "time", "sync"] }
uuid = { version = "1", features = ["serde", "v4"] }
regex = "1"
schemars = { path = "../shims/schemars" }
'''
BUILD_RS = '''use progenitor_impl::*;
fn main() {
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let spec: openapiv3::OpenAPI = serde_json::from_str(include_str!("spec.json")).unwrap();
    for (name, style, tag) in [("positional", InterfaceStyle::Positional, TagStyle::Merged), ("builder", InterfaceStyle::Builder, TagStyle::Merged), ("tagged", InterfaceStyle::Builder, TagStyle::Separate)] {
        if !WANTED.contains(&name) { continue; }
        let mut s = GenerationSettings::new();
        s.with_interface(style).with_tag(tag);
        SETTINGS
        let mut g = Generator::new(&s);
        std::fs::write(out.join(format!("{name}.rs")), g.generate_tokens(&spec).unwrap().to_string()).unwrap();
        EXTRA
    }
}
'''
RUN_PRE = '''#![allow(warnings)]
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
#[derive(Clone, Debug)]
pub struct Req { pub head: String, pub line: String, pub body: String }
impl Req {
    pub fn header(&self, n: &str) -> Vec<String> {
        self.head.lines().skip(1).filter_map(|l| l.split_once(": ")).filter(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.to_string()).collect()
    }
}
/// A server giving these answers in order, and what it received.
pub fn serve(answers: &[&str]) -> (String, Arc<Mutex<Vec<Req>>>) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let base = format!("http://{}", l.local_addr().unwrap());
    let log: Arc<Mutex<Vec<Req>>> = Default::default();
    let (answers, got): (Vec<String>, _) = (answers.iter().map(|s| s.to_string()).collect(), log.clone());
    std::thread::spawn(move || {
        let mut n = 0;
        for s in l.incoming() {
            let mut s = s.unwrap();
            let mut buf = vec![];
            let mut tmp = [0u8; 4096];
            let end = loop {
                if let Some(p) = buf.windows(4).position(|w| w == b"\\r\\n\\r\\n") { break p; }
                let k = s.read(&mut tmp).unwrap();
                if k == 0 { break buf.len(); }
                buf.extend_from_slice(&tmp[..k]);
            };
            let head = String::from_utf8_lossy(&buf[..end]).into_owned();
            let want = head.lines().filter_map(|l| l.to_lowercase().strip_prefix("content-length: ").map(|x| x.trim().parse::<usize>().unwrap())).next().unwrap_or(0);
            while buf.len() < end + 4 + want {
                let k = s.read(&mut tmp).unwrap();
                if k == 0 { break; }
                buf.extend_from_slice(&tmp[..k]);
            }
            let body = String::from_utf8_lossy(buf.get(end + 4..).unwrap_or(&[])).into_owned();
            let line = head.lines().next().unwrap_or("").trim_end_matches(" HTTP/1.1").to_string();
            got.lock().unwrap().push(Req { head, line, body });
            let a = answers.get(n).cloned().unwrap_or("HTTP/1.1 204 N\\r\\nconnection: close\\r\\n\\r\\n".into());
            n += 1;
            let _ = s.write_all(a.as_bytes());
        }
    });
    (base, log)
}
pub fn answer(status: u16, body: &str) -> String {
    format!("HTTP/1.1 {status} R\\r\\nconnection: close\\r\\ncontent-type: application/json\\r\\ncontent-length: {}\\r\\n\\r\\n{body}", body.len())
}
'''

GEN_PRE = '''#![allow(warnings)]
use progenitor_impl::*;
use serde_json::{json, Value};
pub fn spec(v: Value) -> openapiv3::OpenAPI { serde_json::from_value(v).unwrap() }
pub fn settings(builder: bool, separate: bool) -> GenerationSettings {
    let mut s = GenerationSettings::new();
    s.with_interface(if builder { InterfaceStyle::Builder } else { InterfaceStyle::Positional }).with_tag(if separate { TagStyle::Separate } else { TagStyle::Merged });
    s
}
/// The code, or why there is none.
pub fn generate(s: &GenerationSettings, v: &Value) -> std::result::Result<String, String> {
    let v = spec(v.clone());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Generator::new(s).generate_tokens(&v))) {
        Ok(Ok(t)) => Ok(t.to_string()),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
pub fn doc(paths: Value, schemas: Value) -> Value {
    json!({"openapi": "3.0.3", "info": {"title": "t", "version": "1.2.3"}, "paths": paths, "components": {"schemas": schemas}})
}
'''

def doc(paths, schemas=None):
    return {"openapi": "3.0.3", "info": {"title": "t", "version": "1.2.3"}, "paths": paths, "components": {"schemas": schemas or {}}}

def gen(id, prop, edits, main, needs, breaks, spec=None, styles=("positional",), settings="", extra="", deps="", shims=""):
    """A change of the generator. With a spec: main.rs uses the generated
    clients (modules named after the styles); without: it runs the generator."""
    run = spec is not None
    cargo = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\nbuild = %s\n[dependencies]\n' % ('"make.rs"' if run else "false")
    cargo += (RUN_DEPS if run else GEN_DEPS) + deps
    if run:
        cargo += "[build-dependencies]\n" + GEN_DEPS
    mods = "".join(f'mod {s} {{ include!(concat!(env!("OUT_DIR"), "/{s}.rs")); }}\n' for s in styles) if run else ""
    files = {"demo/Cargo.toml": cargo, "demo/src/main.rs": (RUN_PRE if run else GEN_PRE) + mods + main}
    if run:
        files["demo/make.rs"] = BUILD_RS.replace("WANTED", str(list(styles)).replace("'", '"')).replace("SETTINGS", settings).replace("EXTRA", extra)
        files["demo/spec.json"] = json.dumps(spec, indent=1)
    seed(id, prop, edits, None, needs, breaks, files=None, demo_sh=GEN_SH)
    out = f"{V}/seeded/{id}"
    for n, c in files.items():
        os.makedirs(os.path.dirname(f"{out}/{n}"), exist_ok=True)
        open(f"{out}/{n}", "w").write(c)
    shutil.copy(f"{V}/gen/Cargo.lock", out)
    subprocess.check_call("tar --sort=name --mtime=@0 --owner=0 --group=0 --numeric-owner -C gen -c shims/openapiv3 shims/schemars shims/typify " + shims + " | gzip -n9 > " + out + "/shims.tgz", shell=True, cwd=V)


TOOL_SH = '''#!/bin/bash
# Runs this repository's WHAT on small inputs (dependencies that are not
# available offline are replaced by the stand-ins beside this file) in a
# scratch directory: exit 0 when it does what it is documented to do.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
tar -xzf "$here/shims.tgz" -C "$d" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 2
[ ! -d "$here/demo" ] || cp -r "$here/demo" "$d/demo" || exit 2
find "$d" -name Cargo.toml -exec sed -i "s|/repo/|$repo/|" {} +
printf '[workspace]\\nresolver = "2"\\nmembers = [MEMBERS]\\n[profile.dev]\\ndebug = false\\n' >"$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$d" || exit 2
'''

def tool(id, prop, edits, what, members, script, needs, breaks, files=None):
    """A change of the command or the macro; script is the rest of demo.sh."""
    sh = TOOL_SH.replace("WHAT", what).replace("MEMBERS", ", ".join(f'"{m}"' for m in members)) + script
    seed(id, prop, edits, None, needs, breaks, demo_sh=sh)
    out = f"{V}/seeded/{id}"
    for n, c in (files or {}).items():
        os.makedirs(os.path.dirname(f"{out}/{n}"), exist_ok=True)
        open(f"{out}/{n}", "w").write(c)
    shutil.copy(f"{V}/gen/Cargo.lock", out)
    subprocess.check_call("tar --sort=name --mtime=@0 --owner=0 --group=0 --numeric-owner -C gen -c impl cargo-progenitor shims | gzip -n9 > " + out + "/shims.tgz", shell=True, cwd=V)
