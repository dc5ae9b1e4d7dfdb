//! G17: the stand-alone crate declares what its code uses, and its source is
//! the generated client. The real command is run, built from /repo, once in
//! each build flavour; the crates it writes are read, compared and compiled.
use crate::doc::*;
use mc_core::*;
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

const FEATURES: [&str; 9] = ["query", "uuid", "time", "pattern", "pages", "socket", "any", "bytes", "form"];

/// The same features in other places, and others.
const ELSEWHERE: [&str; 11] = ["socket put", "socket second", "pages put", "unpaged", "uuid query", "uuid answer", "any answer", "map", "header", "text", "body"];

/// A document with exactly these features.
pub fn featured(on: &[&str]) -> Value {
    let mut paths = json!({"/plain": {"get": {"operationId": "plain", "tags": ["t"], "description": "A plain operation.", "responses": {"200": {"description": "ok", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}}}}});
    let mut props = json!({"name": {"type": "string", "description": "The name."}});
    let mut op = |name: &str, v: Value| paths[format!("/{name}")] = v;
    for f in on {
        match *f {
            "query" => op(f, json!({"get": {"operationId": "with_query", "tags": ["t"], "parameters": [{"name": "q", "in": "query", "required": true, "schema": {"type": "string"}}, {"name": "o", "in": "query", "schema": {"type": "integer", "format": "int32"}}], "responses": {"204": {"description": ""}}}})),
            "uuid" => op("uuid/{id}", json!({"get": {"operationId": "with_uuid", "tags": ["u"], "parameters": [{"name": "id", "in": "path", "required": true, "schema": {"type": "string", "format": "uuid"}}], "responses": {"204": {"description": ""}}}})),
            "time" => props["at"] = json!({"type": "string", "format": "date-time"}),
            "pattern" => op("pattern/{p}", json!({"get": {"operationId": "with_pattern", "parameters": [{"name": "p", "in": "path", "required": true, "schema": {"$ref": "#/components/schemas/Pattern"}}], "responses": {"204": {"description": ""}}}})),
            // The limit and the token of a page are query parameters, too.
            "pages" => op(f, json!({"get": {"operationId": "with_pages", "tags": ["t"], "x-dropshot-pagination": {"required": []}, "parameters": [{"name": "limit", "in": "query", "schema": {"type": "integer", "format": "uint32", "minimum": 1}}, {"name": "page_token", "in": "query", "schema": {"type": "string"}}], "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}})),
            "socket" => op(f, json!({"get": {"operationId": "with_socket", "tags": ["t"], "x-dropshot-websocket": {}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}})),
            "any" => props["any"] = json!({}),
            "bytes" => op(f, json!({"put": {"operationId": "with_bytes", "requestBody": {"required": true, "content": {"application/octet-stream": {"schema": {"type": "string", "format": "binary"}}}}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}})),
            "form" => op(f, json!({"post": {"operationId": "with_form", "requestBody": {"required": true, "content": {"application/x-www-form-urlencoded": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "responses": {"4XX": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "204": {"description": ""}}}})),
            // The same in other places.
            "socket put" => op(f, json!({"parameters": [{"name": "q", "in": "query", "schema": {"type": "string"}}], "put": {"operationId": "with_socket_put", "x-dropshot-websocket": {}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}})),
            "socket second" => {
                op(f, json!({"delete": {"operationId": "with_first", "responses": {"204": {"description": ""}}}, "get": {"operationId": "with_second", "tags": ["u", "t"], "x-dropshot-websocket": null, "responses": {"101": {"description": ""}, "4XX": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}}}, "post": {"operationId": "with_third", "responses": {"204": {"description": ""}}}}))
            }
            "pages put" => op("pages/{id}", json!({"put": {"operationId": "with_pages_put", "x-dropshot-pagination": {}, "parameters": [{"name": "id", "in": "path", "required": true, "schema": {"type": "string"}}, {"name": "limit", "in": "query", "schema": {"type": "integer"}}, {"name": "page_token", "in": "query", "schema": {"type": "string", "nullable": true}}], "requestBody": {"required": true, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}, "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}})),
            "unpaged" => op(f, json!({"get": {"operationId": "with_unpaged", "x-dropshot-pagination": {"required": []}, "parameters": [{"name": "limit", "in": "query", "schema": {"type": "integer"}}], "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}}}}})),
            "uuid query" => op(f.replace(' ', "-").as_str(), json!({"get": {"operationId": "with_uuid_query", "parameters": [{"name": "id", "in": "query", "schema": {"type": "string", "format": "uuid"}}, {"name": "at", "in": "query", "schema": {"type": "array", "items": {"type": "string", "format": "date"}}}], "responses": {"204": {"description": ""}}}})),
            "uuid answer" => op(f.replace(' ', "-").as_str(), json!({"get": {"operationId": "with_uuid_answer", "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"type": "string", "format": "uuid"}}}}, "4XX": {"description": "", "content": {"application/json": {"schema": {"type": "string", "format": "date-time"}}}}}}})),
            "any answer" => op(f.replace(' ', "-").as_str(), json!({"post": {"operationId": "with_any_answer", "requestBody": {"required": true, "content": {"application/json": {"schema": {}}}}, "responses": {"200": {"description": "", "content": {"application/json": {"schema": {}}}}}}})),
            "map" => op(f, json!({"get": {"operationId": "with_map", "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"type": "object", "additionalProperties": {}}}}}}}})),
            "header" => op(f, json!({"get": {"operationId": "with_header", "parameters": [{"name": "x-h", "in": "header", "required": true, "schema": {"type": "string", "format": "uuid"}}, {"name": "x-i", "in": "header", "schema": {"type": "integer"}}], "responses": {"204": {"description": ""}}}})),
            "text" => op(f, json!({"post": {"operationId": "with_text", "requestBody": {"required": true, "content": {"text/plain": {"schema": {"type": "string"}}}}, "responses": {"200": {"description": "", "content": {"text/plain": {"schema": {"type": "string"}}}}}}})),
            "body" => op(f, json!({"post": {"operationId": "with_body", "requestBody": {"required": true, "content": {"application/json": {"schema": {"type": "object", "properties": {"a": {"type": "array", "items": {"type": "string"}}, "b": {"type": "object", "properties": {"c": {"type": "boolean"}}}}}}}}, "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"type": "array", "items": {"$ref": "#/components/schemas/Thing"}}}}}}}})),
            _ => unreachable!(),
        }
    }
    let mut schemas = json!({"Thing": {"type": "object", "required": ["name"], "properties": props}});
    if on.iter().any(|f| f.starts_with("pages")) {
        schemas["Page"] = json!({"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"$ref": "#/components/schemas/Thing"}}, "next_page": {"type": "string", "nullable": true}}});
    }
    if on.contains(&"pattern") {
        schemas["Pattern"] = json!({"type": "string", "pattern": "^[a-z]+$"});
    }
    json!({"openapi": "3.0.3", "info": {"title": "t", "version": "1.2.3"}, "paths": paths, "components": {"schemas": schemas}})
}

struct Ran {
    ok: bool,
    log: String,
}

/// How the command was built: (program, including the client by default).
const BUILDS: [(&str, bool); 2] = [("cargo-progenitor", true), ("cargo-progenitor-release", false)];

fn command(build: usize, args: &[&str]) -> Ran {
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name(BUILDS[build].0));
    let o = c.arg("progenitor").args(args).env_remove("RUST_LOG").output().unwrap();
    Ran { ok: o.status.success(), log: String::from_utf8_lossy(&o.stderr).chars().take(400).collect() }
}

fn style_args(s: Style) -> &'static [&'static str] {
    match s {
        Style::Positional => &["--interface", "positional", "--tags", "merged"],
        Style::Builder => &["--interface", "builder", "--tags", "merged"],
        Style::Tagged => &["--interface", "builder", "--tags", "separate"],
    }
}

fn listing(dir: &Path) -> BTreeSet<String> {
    fn walk(d: &Path, base: &Path, out: &mut BTreeSet<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                walk(&e.path(), base, out);
            } else {
                out.insert(e.path().strip_prefix(base).unwrap().display().to_string());
            }
        }
    }
    let mut out = BTreeSet::new();
    walk(dir, dir, &mut out);
    out
}

/// Tokens, with documentation as plain words.
fn flat(t: TokenStream, out: &mut String) {
    use proc_macro2::*;
    let ts: Vec<_> = t.into_iter().collect();
    for (i, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(o);
                out.push('\n');
                flat(g.stream(), out);
                out.push_str(c);
                out.push('\n');
            }
            TokenTree::Punct(p) if p.as_char() == ',' && i + 1 == ts.len() => {}
            t => out.push_str(&format!("{t}\n")),
        }
    }
}

struct Docs;
impl syn::visit_mut::VisitMut for Docs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        let mut words = String::new();
        a.retain(|a| {
            if let syn::Meta::NameValue(m) = &a.meta {
                if let (true, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = (m.path.is_ident("doc"), &m.value) {
                    words.push_str(&s.value());
                    words.push('\n');
                    return false;
                }
            }
            true
        });
        let words = words.split_whitespace().collect::<Vec<_>>().join(" ");
        if !words.is_empty() {
            a.push(syn::parse_quote!(#[doc = #words]));
        }
    }
}

fn tidy(code: &str) -> Result<String, String> {
    let config = rustfmt_wrapper::config::Config { normalize_doc_attributes: Some(true), ..Default::default() };
    rustfmt_wrapper::rustfmt_config(config, code).map_err(|e| format!("the code cannot be formatted: {e}"))
}

/// What the code is, apart from its layout. Formatting drops commas, braces
/// and parentheses that mean nothing, so both sides have to be formatted.
fn essence(formatted: &str) -> Result<String, String> {
    let mut f = syn::parse_file(formatted).map_err(|e| format!("the source does not parse: {e}"))?;
    f.items.retain(|i| !matches!(i, syn::Item::Mod(m) if m.ident == "progenitor_client" && m.content.is_none()));
    syn::visit_mut::VisitMut::visit_file_mut(&mut Docs, &mut f);
    let mut out = String::new();
    flat(quote::quote!(#f), &mut out);
    Ok(out)
}

/// The crates a source file refers to.
#[derive(Default)]
struct Uses {
    scopes: Vec<BTreeSet<String>>,
    found: BTreeSet<String>,
}
fn tree_names(t: &syn::UseTree, out: &mut BTreeSet<String>) {
    match t {
        syn::UseTree::Path(p) => tree_names(&p.tree, out),
        syn::UseTree::Name(n) => drop(out.insert(n.ident.to_string())),
        syn::UseTree::Rename(n) => drop(out.insert(n.rename.to_string())),
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| tree_names(t, out)),
        syn::UseTree::Glob(_) => {}
    }
}
fn item_names(items: &[syn::Item]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for i in items {
        match i {
            syn::Item::Mod(m) => drop(out.insert(m.ident.to_string())),
            syn::Item::Use(u) => tree_names(&u.tree, &mut out),
            _ => {}
        }
    }
    out
}
impl Uses {
    fn name(&mut self, leading: bool, s: &str) {
        if ["crate", "self", "super", "Self", "std", "core", "alloc"].contains(&s) || s.starts_with(char::is_uppercase) {
            return;
        }
        if leading || !self.scopes.last().unwrap().contains(s) {
            self.found.insert(s.to_string());
        }
    }
    fn tree(&mut self, leading: bool, t: &syn::UseTree) {
        match t {
            syn::UseTree::Path(p) => self.name(leading, &p.ident.to_string()),
            syn::UseTree::Group(g) => g.items.iter().for_each(|t| self.tree(leading, t)),
            _ => {}
        }
    }
    fn of(f: &syn::File) -> BTreeSet<String> {
        let mut u = Uses { scopes: vec![item_names(&f.items)], found: Default::default() };
        syn::visit::Visit::visit_file(&mut u, f);
        u.found
    }
}
impl<'a> syn::visit::Visit<'a> for Uses {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if let Some((_, items)) = &m.content {
            if m.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                return;
            }
            self.scopes.push(item_names(items));
            syn::visit::visit_item_mod(self, m);
            self.scopes.pop();
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        let mut s = self.scopes.last().unwrap().clone();
        for i in &b.stmts {
            if let syn::Stmt::Item(i) = i {
                s.extend(item_names(std::slice::from_ref(i)));
            }
        }
        self.scopes.push(s);
        syn::visit::visit_block(self, b);
        self.scopes.pop();
    }
    fn visit_item_use(&mut self, u: &'a syn::ItemUse) {
        self.tree(u.leading_colon.is_some(), &u.tree);
    }
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() > 1 {
            self.name(p.leading_colon.is_some(), &p.segments[0].ident.to_string());
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        if a.path().is_ident("derive") {
            if let Ok(ps) = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated) {
                ps.iter().for_each(|p| self.visit_path(p));
            }
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            es.iter().for_each(|e| self.visit_expr(e));
        }
        self.visit_path(&m.path);
    }
}

struct Written {
    deps: BTreeMap<String, toml::Value>,
    package: toml::Table,
    uses: BTreeSet<String>,
}

/// Read back the crate in `dir` and compare it with what was to be generated.
fn judge(dir: &Path, d: &Value, style: Style, include: bool, more: &[&str]) -> Result<Written, String> {
    let mut want: BTreeSet<String> = ["Cargo.toml", "src/lib.rs"].iter().map(|s| s.to_string()).collect();
    want.extend(more.iter().map(|s| s.to_string()));
    if include {
        want.insert("src/progenitor_client.rs".into());
    }
    let have = listing(dir);
    if have != want {
        return Err(format!("files written: {have:?}, expected {want:?}"));
    }
    let manifest = std::fs::read_to_string(dir.join("Cargo.toml")).unwrap();
    let t: toml::Table = manifest.parse().map_err(|e| format!("the manifest is malformed: {e}"))?;
    let deps: BTreeMap<String, toml::Value> = t.get("dependencies").and_then(|x| x.as_table()).cloned().unwrap_or_default().into_iter().collect();
    let package = t.get("package").and_then(|x| x.as_table()).cloned().unwrap_or_default();
    let lib = std::fs::read_to_string(dir.join("src/lib.rs")).unwrap();
    let own = generate_with(&settings(style), &parse(d));
    let got = essence(&tidy(&lib)?)?;
    let want = essence(&tidy(own.code()?)?)?;
    if got != want {
        let (a, b) = got.lines().zip(want.lines()).find(|(a, b)| a != b).unwrap_or(("<end>", "<end>"));
        return Err(format!("the source is not the generated client: it has {a:?} where the generator has {b:?}"));
    }
    let f = syn::parse_file(&lib).map_err(|e| format!("the source does not parse: {e}"))?;
    let mut uses = Uses::of(&f);
    let module = f.items.iter().any(|i| matches!(i, syn::Item::Mod(m) if m.ident == "progenitor_client"));
    if module != include {
        return Err(format!("the source has a module progenitor_client: {module}; the client is included: {include}"));
    }
    if include {
        let text = std::fs::read_to_string(dir.join("src/progenitor_client.rs")).unwrap();
        if text != std::fs::read_to_string("/repo/progenitor-client/src/progenitor_client.rs").unwrap() {
            return Err("the included client is not the source of progenitor-client".into());
        }
        uses.extend(Uses::of(&syn::parse_file(&text).unwrap()));
    }
    for d in deps.keys() {
        // Versions a resolver can read.
        let v = &deps[d];
        let v = v.as_str().or_else(|| v.get("version").and_then(|v| v.as_str())).unwrap_or("");
        let fine = v == "*" || !v.is_empty() && v.split('.').all(|x| x.parse::<u32>().is_ok());
        if !fine {
            return Err(format!("the requirement {v:?} on {d} is not a version"));
        }
    }
    Ok(Written { deps, package, uses })
}

fn undeclared(w: &Written) -> Vec<String> {
    let declared: BTreeSet<String> = w.deps.keys().map(|k| k.replace('-', "_")).collect();
    w.uses.iter().filter(|u| !declared.contains(*u)).cloned().collect()
}

fn scratch() -> PathBuf {
    let root = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target"));
    root.join("exec/G17")
}

fn subsets(deep: bool) -> Vec<Vec<&'static str>> {
    let n = FEATURES.len();
    let mut out: Vec<Vec<&str>> = (0..1usize << n)
        .filter(|m| deep || m.count_ones() <= 2 || m.count_ones() as usize >= n - 1)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).map(|i| FEATURES[i]).collect())
        .collect();
    out.sort_by_key(|s| s.len());
    out
}

pub fn run(c: &std::sync::Arc<Check>) {
    let root = scratch();
    let _ = std::fs::remove_dir_all(&root.join("crates"));
    std::fs::create_dir_all(root.join("crates")).unwrap();
    let t = std::time::Instant::now();
    let lap = |what: &str| {
        if std::env::var("VERIF_LAPS").is_ok() {
            eprintln!("{what} {:?}", t.elapsed());
        }
    };
    crates(c, &root);
    lap("crates");
    options(c, &root);
    lap("options");
    refusals(c, &root);
    lap("refusals");
    texts(c, &root);
    lap("texts");
    spacing(c);
    lap("spacing");
    c.bound("documents: every combination of nine features (quick: up to two, all but one, all) x three styles x including the client or not; manifests and sources of all, compilation of those with one (thorough two) features, all but one, all");
    c.bound("options: every combination of names, versions, licences, registries, JSON and YAML input up to 2.8 MB, fresh and used directories, both build flavours");
    c.bound("spacing: every text up to 7 (thorough 8) characters over line break, blank, tab, braces and a letter");
}

fn crates(c: &Check, root: &Path) {
    let mut jobs = vec![];
    for on in subsets(c.thorough) {
        for style in STYLES {
            for include in [true, false] {
                jobs.push((on.clone(), style, include));
            }
        }
    }
    for (i, a) in ELSEWHERE.iter().enumerate() {
        for on in std::iter::once(vec![*a]).chain(ELSEWHERE[..i].iter().filter(|_| c.thorough).map(|b| vec![*b, *a])).chain([vec![*a, "query"], vec![*a, "pages"], vec![*a, "socket"]]) {
            for style in STYLES {
                for include in [true, false] {
                    jobs.push((on.clone(), style, include));
                }
            }
        }
    }
    // The crates to compile, by what they declare.
    let groups: std::sync::Mutex<BTreeMap<String, Vec<(String, Style, bool)>>> = Default::default();
    par(&jobs, |(on, style, include)| {
        let name = format!("c-{}-{style:?}-{include}", if on.is_empty() { "none".into() } else { on.join("-").replace(' ', "_") }).to_lowercase();
        let key = format!("crate {style:?} include={include} {}", on.join("+"));
        c.case(
            || key.clone(),
            || {
                let d = featured(on);
                let dir = root.join("crates").join(&name);
                let spec = root.join("crates").join(format!("{name}.json"));
                std::fs::write(&spec, d.to_string()).unwrap();
                let mut args = vec!["-i", spec.to_str().unwrap(), "-o", dir.to_str().unwrap(), "-n", &name, "-v", "0.1.0"];
                args.extend(style_args(*style));
                let i = include.to_string();
                args.extend(["--include-client", &i]);
                c.trans(1);
                let r = command(0, &args);
                if !r.ok {
                    return Err(format!("the command failed: {}", r.log));
                }
                let w = judge(&dir, &d, *style, *include, &[])?;
                c.state(&(on, style, include));
                c.outcome(&format!("{} dependencies", w.deps.len()));
                let mut missing = undeclared(&w);
                // Compilation reports this one; see below.
                missing.retain(|m| !(*include && m == "progenitor_client"));
                if !missing.is_empty() {
                    return Err(format!("the source refers to {missing:?}, which the manifest does not declare"));
                }
                if on.len() <= if c.thorough { 2 } else { 1 } || on.len() >= FEATURES.len() - 1 {
                    let group = toml::to_string(&w.deps).unwrap();
                    groups.lock().unwrap().entry(group).or_default().push((name.clone(), *style, *include));
                }
                Ok(())
            },
        );
    });
    if std::env::var("VERIF_LAPS").is_ok() {
        eprintln!("groups {}", groups.lock().unwrap().len());
    }
    let t = std::time::Instant::now();
    compile(c, root, groups.into_inner().unwrap());
    if std::env::var("VERIF_LAPS").is_ok() {
        eprintln!("compile {:?}", t.elapsed());
    }
}

/// Compile the crates, each group with the same dependencies in one go, so
/// that no crate profits from the features another one asks for.
fn compile(c: &Check, root: &Path, groups: BTreeMap<String, Vec<(String, Style, bool)>>) {
    let ws = root.join("crates");
    let members: Vec<String> = groups.values().flatten().map(|g| format!("{:?}", g.0)).collect();
    let shims = verif_dir().join("gen/shims");
    std::fs::write(
        ws.join("Cargo.toml"),
        format!(
            "[workspace]\nresolver = \"2\"\nmembers = [{}]\n[patch.crates-io]\nprogenitor-client = {{ path = \"/repo/progenitor-client\" }}\nregress = {{ path = {:?} }}\n[profile.dev]\ndebug = false\nincremental = false\n",
            members.join(", "),
            shims.join("regress")
        ),
    )
    .unwrap();
    std::fs::copy(verif_dir().join("gen/Cargo.lock"), ws.join("Cargo.lock")).unwrap();
    let mut found: BTreeMap<(Style2, bool, String), String> = Default::default();
    for (deps, names) in &groups {
        let mut cmd = Command::new("cargo");
        cmd.args(["check", "--offline", "-q", "--keep-going", "--message-format", "short"]).current_dir(&ws);
        for n in names {
            cmd.args(["-p", &n.0]);
        }
        let o = cmd.output().unwrap();
        c.tick();
        c.trans(names.len() as u64);
        let log = String::from_utf8_lossy(&o.stderr).to_string();
        if o.status.success() {
            continue;
        }
        let mut seen = false;
        for l in log.lines() {
            let Some((at, what)) = l.split_once(": error") else { continue };
            let dir = at.split('/').next().unwrap();
            let Some(n) = names.iter().find(|n| n.0 == dir) else { continue };
            // Without the error code and hints that depend on the compiler.
            let what = what.split_once(": ").map_or(what, |x| x.1);
            let what = what.split(": ").next().unwrap_or(what);
            let what = if what.contains("`progenitor_client`") { "`progenitor_client` is not found inside the module of builders" } else { what };
            seen = true;
            found.entry((Style2::of(n.1), n.2, what.to_string())).or_insert_with(|| l.to_string());
        }
        if !seen {
            eprintln!("check error: crates could not be compiled with\n{deps}\n{log}");
            std::process::exit(2);
        }
    }
    for ((style, include, what), first) in &found {
        c.case(|| format!("compile {style:?} include={include} {what}"), || Err(format!("a generated crate does not compile: {first}")));
    }
    c.outcome("compiled");
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Style2 {
    Positional,
    Builder,
    Tagged,
}
impl Style2 {
    fn of(s: Style) -> Self {
        match s {
            Style::Positional => Style2::Positional,
            Style::Builder => Style2::Builder,
            Style::Tagged => Style2::Tagged,
        }
    }
}

/// The same document as YAML in block style.
pub fn yaml(v: &Value, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match v {
        Value::Object(m) if !m.is_empty() => {
            for (k, x) in m {
                let nested = matches!(x, Value::Object(m) if !m.is_empty()) || matches!(x, Value::Array(a) if !a.is_empty());
                out.push_str(&format!("{pad}{}:{}", json!(k), if nested { "\n" } else { " " }));
                yaml(x, if nested { indent + 2 } else { 0 }, out);
            }
        }
        Value::Array(a) if !a.is_empty() => {
            for x in a {
                out.push_str(&format!("{pad}-\n"));
                yaml(x, indent + 2, out);
            }
        }
        x => out.push_str(&format!("{pad}{x}\n")),
    }
}

fn options(c: &Check, root: &Path) {
    let dir = root.join("options");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let d = featured(&["uuid", "bytes"]);
    let mut y = String::new();
    yaml(&d, 0, &mut y);
    std::fs::write(dir.join("spec.json"), d.to_string()).unwrap();
    let y = format!("---\n# A document\n{y}");
    // Whatever a file is called, it is JSON or YAML.
    for f in ["spec.yaml", "spec.yml", "yaml", "api.v2", "yaml.json", "s p.é"] {
        std::fs::write(dir.join(f), &y).unwrap();
    }
    for f in ["json.yaml", "json", "api.v1", "J.JSON"] {
        std::fs::write(dir.join(f), d.to_string()).unwrap();
    }
    // However long it is.
    let mut long = d.clone();
    long["info"]["x-filler"] = json!("filler ".repeat(400_000));
    std::fs::write(dir.join("long.json"), long.to_string()).unwrap();
    let mut y = String::new();
    yaml(&long, 0, &mut y);
    std::fs::write(dir.join("long.yaml"), y).unwrap();
    let mut jobs = vec![];
    for name in ["keeper", "my-client", "x_1"] {
        for version in ["0.1.0", "1.2.3-pre.4"] {
            for license in [None, Some("MIT"), Some("MPL-2.0 OR Apache-2.0"), Some(" A B ")] {
                for registry in [None, Some("internal")] {
                    for input in ["spec.json", "spec.yaml", "spec.yml", "yaml", "api.v2", "yaml.json", "s p.é", "json.yaml", "json", "api.v1", "J.JSON", "long.json", "long.yaml"] {
                        for build in [0, 1] {
                            for include in [None, Some(true), Some(false)] {
                                for short in [true, false] {
                                    for style in [None, Some(Style::Positional), Some(Style::Tagged)] {
                                        // Quick: pairs of settings differing from the plain ones.
                                        let odd = [name != "keeper", version != "0.1.0", license.is_some(), registry.is_some(), input != "spec.json", build == 1, include.is_some(), !short, style.is_some()];
                                        if c.thorough && odd.iter().filter(|x| **x).count() <= 4 || odd.iter().filter(|x| **x).count() <= 2 {
                                            jobs.push((name, version, license, registry, input, build, include, short, style));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    par(&jobs, |j| {
        let (name, version, license, registry, input, build, include, short, style) = j;
        c.case(
            || format!("options {j:?}"),
            || {
                c.state(&format!("{j:?}"));
                c.trans(2);
                let mut out = dir.join(format!("{j:?}").replace(|c: char| !c.is_alphanumeric(), "_"));
                // Directories on the way may be missing.
                if !short {
                    out = out.join("a/b");
                }
                let input = dir.join(input);
                let o = |s: &'static str, l: &'static str| if *short { s } else { l };
                let mut args = vec![o("-i", "--input"), input.to_str().unwrap(), o("-o", "--output"), out.to_str().unwrap(), o("-n", "--name"), name, o("-v", "--version"), version];
                if let Some(l) = license {
                    args.extend(["--license-name", l]);
                }
                if let Some(r) = registry {
                    args.extend(["--registry-name", r]);
                }
                let i = include.map(|i| i.to_string());
                if let Some(i) = &i {
                    args.extend(["--include-client", i]);
                }
                if let Some(s) = style {
                    args.extend(style_args(*s));
                }
                let included = include.unwrap_or(BUILDS[*build].1);
                // A directory in use: files the command does not write stay,
                // files it writes are replaced whole.
                let used = name != &"keeper";
                if used {
                    std::fs::create_dir_all(out.join("src")).unwrap();
                    std::fs::write(out.join("README.md"), "mine").unwrap();
                    for f in ["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs"] {
                        if included || !f.contains("client") {
                            std::fs::write(out.join(f), "}".repeat(1 << 17)).unwrap();
                        }
                    }
                }
                let r = command(*build, &args);
                if !r.ok {
                    return Err(format!("the command failed: {}", r.log));
                }
                let w = judge(&out, &d, style.unwrap_or(Style::Positional), included, if used { &["README.md"] } else { &[] })?;
                if used && std::fs::read_to_string(out.join("README.md")).unwrap() != "mine" {
                    return Err("a file that is not the command's was changed".into());
                }
                let missing = undeclared(&w);
                if !missing.is_empty() {
                    return Err(format!("the source refers to {missing:?}, which the manifest does not declare"));
                }
                let client = w.deps.get("progenitor-client");
                if client.is_some() == included {
                    return Err(format!("the client is included: {included}; it is a dependency: {}", client.is_some()));
                }
                if let Some(v) = client.and_then(|v| v.as_str()) {
                    // The client of this very version, once released.
                    if v != if *build == 1 { "0.9.1" } else { "*" } {
                        return Err(format!("the generated crate asks for version {v:?} of the client"));
                    }
                }
                let mut want = toml::Table::new();
                want.insert("name".into(), (*name).into());
                want.insert("version".into(), (*version).into());
                want.insert("edition".into(), "2021".into());
                want.insert("license".into(), license.unwrap_or("SPECIFY A LICENSE BEFORE PUBLISHING").into());
                if let Some(r) = registry {
                    want.insert("publish".into(), toml::Value::Array(vec![(*r).into()]));
                }
                if w.package != want {
                    return Err(format!("the package is {:?}, expected {want:?}", w.package));
                }
                let _ = std::fs::remove_dir_all(&out);
                Ok(())
            },
        );
    });
}

/// What cannot be generated fails and leaves no crate behind.
fn refusals(c: &Check, root: &Path) {
    let dir = root.join("refused");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut v2 = featured(&[]);
    v2["openapi"] = json!("3.1.0");
    let mut unnamed = featured(&[]);
    unnamed["paths"]["/plain"]["get"].as_object_mut().unwrap().remove("operationId");
    let inputs: Vec<(&str, Option<String>)> = vec![
        ("missing", None),
        ("empty", Some(String::new())),
        ("garbage", Some("{\"openapi\": ".into())),
        ("list", Some("[]".into())),
        ("version", Some(v2.to_string())),
        ("unnamed", Some(unnamed.to_string())),
        ("fine", Some(featured(&["query"]).to_string())),
    ];
    let all = ["-i", "-o", "-n", "-v"];
    let mut jobs = vec![];
    for (what, _) in &inputs {
        for extra in [&[][..], &["--interface", "positional", "--tags", "separate"], &["--interface", "other"], &["--tags", "other"], &["--include-client", "maybe"], &["--unknown"]] {
            for without in [None, Some(0), Some(1), Some(2), Some(3)] {
                if *what == "fine" && extra.is_empty() && without.is_none() {
                    continue;
                }
                jobs.push((*what, extra, without));
            }
        }
    }
    for (n, t) in &inputs {
        if let Some(t) = t {
            std::fs::write(dir.join(n), t).unwrap();
        }
    }
    par(&jobs, |(what, extra, without)| {
        for build in [0, 1] {
            c.case(
                || format!("refused {what} {extra:?} without {:?} {}", without.map(|i| all[i]), BUILDS[build].0),
                || {
                    c.state(&(what, extra, without, build));
                    c.trans(1);
                    let out = dir.join(format!("out-{what}-{}-{without:?}-{build}", extra.join("")));
                    let input = dir.join(what);
                    let vals = [input.to_str().unwrap(), out.to_str().unwrap(), "n", "0.1.0"];
                    let mut args = vec![];
                    for i in 0..4 {
                        if *without != Some(i) {
                            args.extend([all[i], vals[i]]);
                        }
                    }
                    args.extend(extra.iter());
                    let r = command(build, &args);
                    if r.ok {
                        return Err("the command reports success".into());
                    }
                    let have = listing(&out);
                    if !have.is_empty() {
                        return Err(format!("the command failed but wrote {have:?}"));
                    }
                    c.outcome("refused");
                    Ok(())
                },
            );
        }
    });
}

/// Texts of the document end up in the source as the generator wrote them.
fn texts(c: &Check, root: &Path) {
    let dir = root.join("texts");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let parts = ["\n", "}", "{", "a", "/", "*", " ", "\\", "\"", "#", "'", "`", "\t", "é", "- ", "!", "//", "\r"];
    let n = if c.thorough { 3 } else { 2 };
    let mut all: Vec<String> = vec![];
    for n in 1..=n {
        all.extend(model::cases::strings(&parts, n));
    }
    // Long enough to be wrapped, and looking like code.
    all.push("word ".repeat(60));
    all.push(format!("first line\n}}\nx\n    }}\n\nimpl\n```\n{}\n```\n", "long ".repeat(40)));
    all.push("x".repeat(300));
    // A carriage return that does not end a line is apart.
    let bare = |t: &String| t.replace("\r\n", "").contains('\r') || t.ends_with('\r');
    all.retain(|t| !bare(t));
    let alone = ["\r".to_string(), "a\rb".to_string()];
    let mut chunks: Vec<&[String]> = all.chunks(40).collect();
    chunks.extend(alone.chunks(1));
    let jobs: Vec<(usize, &[String])> = chunks.iter().enumerate().map(|(i, c)| (i, *c)).collect();
    par(&jobs, |(i, texts)| {
        for style in [Style::Positional, Style::Builder] {
            c.case(
                || format!("texts {style:?} {:?}..", texts[0]),
                || {
                    let mut d = featured(&[]);
                    for (k, t) in texts.iter().enumerate() {
                        c.state(&t);
                        d["paths"][format!("/t{k}")] = json!({"get": {"operationId": format!("t{k}"), "summary": t, "description": t, "parameters": [{"name": "p", "in": "query", "description": t, "schema": {"type": "string"}}], "responses": {"204": {"description": t}}}});
                        d["components"]["schemas"][format!("T{k}")] = json!({"type": "object", "description": t, "properties": {"p": {"type": "string", "description": t, "default": t}}});
                    }
                    d["info"]["description"] = json!(texts[0]);
                    let spec = dir.join(format!("{i}-{style:?}.json"));
                    let out = dir.join(format!("{i}-{style:?}"));
                    std::fs::write(&spec, d.to_string()).unwrap();
                    let mut args = vec!["-i", spec.to_str().unwrap(), "-o", out.to_str().unwrap(), "-n", "n", "-v", "0.1.0", "--include-client", "false"];
                    args.extend(style_args(style));
                    c.trans(1);
                    let r = command(0, &args);
                    if !r.ok {
                        return Err(format!("the command failed: {}", r.log));
                    }
                    judge(&out, &d, style, false, &[])?;
                    let _ = std::fs::remove_dir_all(&out);
                    Ok(())
                },
            );
        }
    });
}

fn spacing(c: &Check) {
    let alphabet = ['\n', ' ', '\t', '{', '}', 'x'];
    let deep = if c.thorough { 8 } else { 7 };
    let mut heads = vec![String::new()];
    for n in 1..=3 {
        heads.extend(model::cases::strings(&["\n", " ", "\t", "{", "}", "x"], n));
    }
    let check = |s: &str| -> Result<bool, String> {
        let out = progenitor_impl::space_out_items(s.to_string()).map_err(|e| format!("refused: {e}"))?;
        // Texts without line breaks, and the number of breaks in each gap.
        fn gaps(s: &str) -> (String, Vec<usize>) {
            let (mut t, mut n) = (String::new(), vec![0]);
            for x in s.chars() {
                if x == '\n' {
                    *n.last_mut().unwrap() += 1;
                } else {
                    t.push(x);
                    n.push(0);
                }
            }
            (t, n)
        }
        let ((a, m), (b, n)) = (gaps(s), gaps(&out));
        // The gap at i follows character i - 1.
        let fine = a == b && m.iter().zip(&n).enumerate().all(|(i, (m, n))| m == n || n > m && i > 0 && a.as_bytes()[i - 1] == b'}');
        if !fine {
            return Err(format!("{s:?} became {out:?}"));
        }
        Ok(out.len() > s.len())
    };
    par(&heads, |h| {
        let (mut n, mut spaced) = (0u64, 0u64);
        let mut stack = vec![h.clone()];
        while let Some(s) = stack.pop() {
            n += 1;
            c.case(
                || format!("spacing {s:?}"),
                || {
                    spaced += check(&s)? as u64;
                    Ok(())
                },
            );
            if h.len() == 3 && s.len() < deep {
                for x in alphabet {
                    let mut t = s.clone();
                    t.push(x);
                    stack.push(t);
                }
            }
        }
        c.trans(n);
        c.state(h);
        if spaced > 0 {
            c.outcome("spaced out");
        }
    });
}
