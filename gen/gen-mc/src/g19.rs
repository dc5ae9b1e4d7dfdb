//! G19: what the document says in words reaches the documentation of what it
//! describes, and never affects the code.
use crate::doc::*;
use mc_core::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::sync::Arc;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

/// Everything in a document that is words. Missing ones are not there at all.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Words(BTreeMap<&'static str, String>);

const PLACES: [&str; 17] = [
    "info.description", "info.termsOfService", "summary", "description", "path", "query", "header", "body", "tag", "list.summary", "list.description", "limit", "page_token",
    "property", "response", "plain.summary", "plain.description",
];

impl Words {
    fn get(&self, place: &str) -> Option<&str> {
        self.0.get(place).map(String::as_str)
    }
    fn put(&self, v: &mut Value, key: &str, place: &str) {
        if let Some(t) = self.get(place) {
            v[key] = json!(t);
        }
    }
}

fn document(w: &Words) -> Value {
    let s = || json!({"type": "string"});
    let param = |name: &str, loc: &str, schema: Value, place: &str| {
        let mut p = json!({"name": name, "in": loc, "required": loc == "path", "schema": schema});
        w.put(&mut p, "description", place);
        p
    };
    let mut thing = json!({"type": "object", "properties": {"width": s(), "depth": {"type": "integer"}}, "required": ["width"]});
    w.put(&mut thing["properties"]["width"], "description", "property");
    let mut body = json!({"content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}});
    w.put(&mut body, "description", "body");
    let mut op = json!({"operationId": "make", "tags": ["one"], "parameters": [
        param("first", "path", s(), "path"), param("second", "query", json!({"type": "integer"}), "query"), param("third", "header", s(), "header")],
        "requestBody": body, "responses": {"200": {"description": w.get("response").unwrap_or("")}}});
    w.put(&mut op, "summary", "summary");
    w.put(&mut op, "description", "description");
    let mut list = json!({"operationId": "list", "tags": ["one", "two"], "x-dropshot-pagination": {"required": []}, "parameters": [
        param("limit", "query", json!({"type": "integer", "format": "uint32", "minimum": 1}), "limit"), param("page_token", "query", s(), "page_token")],
        "responses": {"200": {"description": w.get("response").unwrap_or(""), "content": {"application/json": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": s()}, "next_page": s()}}}}}}});
    w.put(&mut list, "summary", "list.summary");
    w.put(&mut list, "description", "list.description");
    let mut plain = json!({"operationId": "plain", "responses": {"204": {"description": ""}}});
    w.put(&mut plain, "summary", "plain.summary");
    w.put(&mut plain, "description", "plain.description");
    let mut d = doc(json!({"/make/{first}": {"put": op}, "/list": {"get": list}, "/": {"delete": plain}}), json!({"schemas": {"Thing": thing}}));
    d["tags"] = json!([{"name": "one"}, {"name": "two"}]);
    w.put(&mut d["tags"][0], "description", "tag");
    d["info"]["title"] = json!("The Title");
    w.put(&mut d["info"], "description", "info.description");
    w.put(&mut d["info"], "termsOfService", "info.termsOfService");
    d
}

fn docs(attrs: &[syn::Attribute]) -> String {
    let mut lines = vec![];
    for a in attrs {
        if let syn::Meta::NameValue(nv) = &a.meta {
            if let (true, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = (nv.path.is_ident("doc"), &nv.value) {
                lines.push(s.value());
            }
        }
    }
    lines.join("\n")
}

/// The documentation of items, by a path of names.
#[derive(Default)]
struct Docs {
    at: Vec<String>,
    found: BTreeMap<String, String>,
}
impl Docs {
    fn note(&mut self, name: &str, attrs: &[syn::Attribute]) {
        let key = self.at.iter().map(String::as_str).chain([name]).collect::<Vec<_>>().join("::");
        self.found.insert(key, docs(attrs));
    }
}
impl<'a> Visit<'a> for Docs {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        self.note(&m.ident.to_string(), &m.attrs);
        self.at.push(m.ident.to_string());
        visit::visit_item_mod(self, m);
        self.at.pop();
    }
    fn visit_item_struct(&mut self, s: &'a syn::ItemStruct) {
        self.note(&s.ident.to_string(), &s.attrs);
    }
    fn visit_item_trait(&mut self, t: &'a syn::ItemTrait) {
        self.note(&t.ident.to_string(), &t.attrs);
        self.at.push(t.ident.to_string());
        visit::visit_item_trait(self, t);
        self.at.pop();
    }
    fn visit_trait_item_fn(&mut self, f: &'a syn::TraitItemFn) {
        self.note(&f.sig.ident.to_string(), &f.attrs);
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if i.trait_.is_none() {
            if let syn::Type::Path(p) = &*i.self_ty {
                self.at.push(p.path.segments.last().unwrap().ident.to_string());
                visit::visit_item_impl(self, i);
                self.at.pop();
            }
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.note(&f.sig.ident.to_string(), &f.attrs);
    }
}

/// Removes everything that documents.
struct Mute;
impl VisitMut for Mute {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.retain(|a| !a.path().is_ident("doc") || matches!(&a.meta, syn::Meta::List(_)));
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        while let syn::Expr::MethodCall(m) = e {
            if !["about", "long_about", "help", "long_help"].contains(&&m.method.to_string()[..]) {
                break;
            }
            *e = (*m.receiver).clone();
        }
    }
}

fn muted(code: &str) -> Result<String, String> {
    let mut f: syn::File = syn::parse_str(code).map_err(|e| format!("the code does not parse: {e}"))?;
    Mute.visit_file_mut(&mut f);
    Ok(f.to_token_stream().to_string())
}

/// `about`, `long_about` and, by name of the argument, `help` of a command.
#[derive(Default)]
struct Help(BTreeMap<String, Vec<String>>);
impl<'a> Visit<'a> for Help {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let name = m.method.to_string();
        if let ("about" | "long_about" | "help" | "long_help", Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }))) = (&name[..], m.args.first()) {
            // Which argument, if any.
            let mut r = &*m.receiver;
            while let syn::Expr::MethodCall(x) = r {
                r = &x.receiver;
            }
            let mut of = String::new();
            if let syn::Expr::Call(c) = r {
                if let (Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(n), .. })), true) = (c.args.first(), c.func.to_token_stream().to_string().contains("Arg")) {
                    of = n.value();
                }
            }
            self.0.entry(format!("{name} {of}")).or_default().push(s.value());
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// Each text is there, after the one before.
fn in_order(what: &str, doc: &str, texts: &[(&str, &str)]) -> Result<(), String> {
    let mut at = 0;
    for (name, t) in texts {
        match doc[at..].find(t) {
            Some(i) => at += i + t.len(),
            None => return Err(format!("the documentation of {what} {:?} does not say {name} {t:?} in its place", doc)),
        }
    }
    Ok(())
}

fn summary(t: &str) -> &str {
    t.trim_end_matches(['.', ','])
}

fn op_docs<'a>(w: &'a Words, s: &str, d: &str, method: &'a str, path: &'a str, args: &[(&'a str, &str)]) -> Vec<(&'static str, &'a str)> {
    let mut out = vec![];
    if let Some(t) = w.get(s) {
        out.push(("the summary", summary(t)));
    }
    if let Some(t) = w.get(d) {
        out.push(("the description", t));
    }
    out.push(("the method", method));
    out.push(("the path", path));
    for (name, place) in args {
        if let Some(t) = w.get(place) {
            out.push(("the argument", name));
            out.push(("about it", t));
        }
    }
    out
}

fn judge(c: &Check, style: Style, w: &Words, mute: &(String, String)) -> Result<(), String> {
    let spec = parse(&document(w));
    let g = generate(style, &spec);
    let code = g.code()?;
    c.trans(1);
    let f: syn::File = syn::parse_str(code).map_err(|e| format!("the code does not parse: {e}"))?;
    let mut d = Docs::default();
    d.visit_file(&f);
    let at = |k: &str| d.found.get(k).map(String::as_str).ok_or_else(|| format!("no {k}"));
    let mut info = vec![("the title", "The Title")];
    for p in ["info.description", "info.termsOfService"] {
        if let Some(t) = w.get(p) {
            info.push(("the text", t));
        }
    }
    info.push(("the version", "1.2.3"));
    c.outcome(if w.0.is_empty() { "no words" } else { "every word in its place" });
    in_order("the client", at("Client")?, &info)?;
    let make = op_docs(w, "summary", "description", "`PUT`", "`/make/{first}`", &[("`first`", "path"), ("`second`", "query"), ("`third`", "header"), ("`body`", "body")]);
    let list = op_docs(w, "list.summary", "list.description", "`GET`", "`/list`", &[("`limit`", "limit"), ("`page_token`", "page_token")]);
    let stream = op_docs(w, "list.summary", "list.description", "`GET`", "`/list`", &[("`limit`", "limit")]);
    let plain = op_docs(w, "plain.summary", "plain.description", "`DELETE`", "`/`", &[]);
    let tagged = style == Style::Tagged;
    let mut homes = vec![("make", if tagged { "ClientOneExt" } else { "Client" }, &make), ("list", if tagged { "ClientOneExt" } else { "Client" }, &list), ("plain", "Client", &plain)];
    if tagged {
        homes.push(("list", "ClientTwoExt", &list));
        if let Some(t) = w.get("tag") {
            in_order("the trait", at("ClientOneExt")?, &[("the tag's description", t)])?;
        }
        if w.get("tag").is_some_and(|t| !t.trim().is_empty() && at("ClientTwoExt").is_ok_and(|d| d.contains(t))) {
            return Err("a tag's description is at the trait of another".into());
        }
    }
    for (op, home, want) in homes {
        in_order(op, at(&format!("{home}::{op}"))?, want)?;
    }
    if style == Style::Positional {
        let doc = at("Client::list_stream")?;
        in_order("list_stream", doc, &stream)?;
        if doc.contains("`page_token`") {
            return Err("the stream's documentation has an argument it does not take".into());
        }
    } else {
        for (b, f, m, p) in [("Make", "send", "`PUT`", "`/make/{first}`"), ("List", "send", "`GET`", "`/list`"), ("List", "stream", "`GET`", "`/list`"), ("Plain", "send", "`DELETE`", "`/`")] {
            in_order(f, at(&format!("builder::{b}::{f}"))?, &[("the method", m), ("the path", p)])?;
        }
    }
    if muted(code)? != mute.0 {
        return Err("the code, documentation aside, is not that of the document without words".into());
    }
    if style == Style::Positional {
        return Ok(());
    }
    // The command line.
    let g = generate_cli(&settings(style), &spec, "k");
    let code = g.code()?;
    c.trans(1);
    if muted(code)? != mute.1 {
        return Err("the command line, help aside, is not that of the document without words".into());
    }
    let f: syn::File = syn::parse_str(code).map_err(|e| format!("the command line does not parse: {e}"))?;
    let mut seen = 0;
    for item in &f.items {
        let syn::Item::Impl(i) = item else { continue };
        for f in &i.items {
            let syn::ImplItem::Fn(f) = f else { continue };
            let (s, d, args): (_, _, &[(&str, &str)]) = match &f.sig.ident.to_string()[..] {
                "cli_make" => ("summary", "description", &[("first", "path"), ("second", "query"), ("third", "header"), ("width", "property")]),
                "cli_list" => ("list.summary", "list.description", &[("limit", "limit")]),
                "cli_plain" => ("plain.summary", "plain.description", &[]),
                _ => continue,
            };
            seen += 1;
            let mut h = Help::default();
            h.visit_impl_item_fn(f);
            let mut want: Vec<(String, Option<&str>)> = vec![("about ".into(), w.get(s)), ("long_about ".into(), w.get(d))];
            want.extend(args.iter().map(|(a, p)| (format!("help {a}"), w.get(p))));
            for (k, t) in want {
                let got = h.0.get(&k).cloned().unwrap_or_default();
                // Empty texts may be left out.
                if got != t.iter().copied().collect::<Vec<_>>() && !(t == Some("") && got.is_empty()) {
                    return Err(format!("{} has {k:?} {got:?} instead of {t:?}", f.sig.ident));
                }
            }
        }
    }
    if seen != 3 {
        return Err(format!("{seen} of 3 commands were found"));
    }
    Ok(())
}

pub fn run(c: &Arc<Check>) {
    let texts = [
        "Plain words", "See [it](http://example.com/a?b=c#d) or <https://x.y/>.", "https://example.com", "TODO: $ref {name} `code` *it* _so_ <b>&amp;</b> @param", "Ends with a full stop.", "Ends, with, commas,,.", "Excited!", "", " ", "  indented", "trailing  ", "\"quoted\" 'single'", "back\\slash \\n \\", "two\nlines", "a\n\npar\n\n# head\n- item\n", "\r\n crlf",
        "*/ /* // /// //! /**/", "{} {{}} {0} {x:?} %s $x #x", "```\ncode()\n```", "é 漢字 😀 \u{200d} \u{feff}", "\t tab", "\"#\"## r#\"", "]] )] }}", "<b> & &lt;", "[`Client`](x)", ".", "...", ",", "#[doc = \"x\"]",
        "a `b` c", "\u{0}\u{1}\u{7f}", "None", "0", "true", "unsafe { }", "TODO: \\u{41}", "summary", "ends in ?.", "a.b.", "e.g., x",
    ];
    let long = "word ".repeat(3000);
    let mut cases: Vec<Words> = vec![Words::default()];
    for p in PLACES {
        for t in texts.iter().copied().chain([&long[..]]) {
            cases.push(Words(BTreeMap::from([(p, t.to_string())])));
        }
    }
    // The same text everywhere; every pair of a summary and a description.
    for t in texts {
        cases.push(Words(PLACES.iter().map(|p| (*p, t.to_string())).collect()));
        for u in texts {
            cases.push(Words(BTreeMap::from([("summary", t.to_string()), ("description", u.to_string()), ("list.summary", u.to_string()), ("list.description", t.to_string())])));
            cases.push(Words(BTreeMap::from([("path", t.to_string()), ("query", u.to_string()), ("limit", u.to_string()), ("page_token", t.to_string()), ("body", u.to_string())])));
        }
    }
    // Which texts there are.
    let bits = if c.thorough { 16 } else { 11 };
    for m in 0..1u32 << bits {
        let m = if c.thorough { m } else { m << 4 | (m & 15) };
        cases.push(Words(PLACES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(i, p)| (*p, format!("Words {i} of {p}"))).collect()));
    }
    for style in STYLES {
        let base = parse(&document(&Words::default()));
        let mute = match (generate(style, &base).code().and_then(|c| muted(c)), generate_cli(&settings(if style == Style::Positional { Style::Builder } else { style }), &base, "k").code().and_then(|c| muted(c))) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => {
                c.fail("the document without words", &format!("{:?} {:?}", a.err(), b.err()));
                continue;
            }
        };
        par(&cases, |w| {
            c.state(&(style, w));
            c.case(
                || format!("{style:?}: {}", w.0.iter().map(|(p, t)| format!("{p}={:?}", t.chars().take(40).collect::<String>())).collect::<Vec<_>>().join(" ")),
                || judge(c, style, w, &mute),
            );
        });
    }
    shapes(c);
    annotations(c);
    c.bound("every method with 6 templates, plain and paginated, 4 kinds of bodies");
    c.bound(format!("{} texts in each of {} places, everywhere at once, and in pairs; {} sets of places with texts; 3 styles and the command line", texts.len() + 1, PLACES.len(), 1u32 << bits));
    c.assume("Whether a carriage return survives a doc comment of formatted source is the business of G17.");
}

/// What each operation is, whatever it is.
fn shapes(c: &Check) {
    let bodies = [None, Some("application/json"), Some("application/x-www-form-urlencoded"), Some("application/octet-stream"), Some("text/plain")];
    for method in ["get", "put", "post", "delete", "options", "head", "patch", "trace"] {
        for path in ["/", "/a", "/a/{p}", "/{p}/b-c/", "/{p}/x/{q-r}:do", "/v1.0/~a/{p}"] {
            for (bi, body) in bodies.iter().enumerate() {
                for paginated in [false, true] {
                    let (has, head) = (body.is_some(), method == "head");
                    if has && ["get", "head", "trace"].contains(&method) || paginated && (head || bi > 1) {
                        continue;
                    }
                    let s = json!({"type": "string"});
                    let mut params = vec![];
                    for (name, key) in [("p", "{p}"), ("q-r", "{q-r}")] {
                        if path.contains(key) {
                            params.push(json!({"name": name, "in": "path", "required": true, "schema": s, "description": format!("About {name}.")}));
                        }
                    }
                    let mut op = json!({"operationId": "opera", "tags": ["one"], "summary": "Sum it up", "responses": {"204": {"description": ""}}});
                    if paginated {
                        params.push(json!({"name": "limit", "in": "query", "schema": {"type": "integer", "format": "uint32", "minimum": 1}}));
                        params.push(json!({"name": "page_token", "in": "query", "schema": s}));
                        op["x-dropshot-pagination"] = json!({"required": []});
                        op["responses"] = json!({"200": {"description": "", "content": {"application/json": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": s}, "next_page": s}}}}}});
                    }
                    op["parameters"] = json!(params);
                    if let Some(ct) = body {
                        let schema = match bi {
                            3 => json!({"type": "string", "format": "binary"}),
                            4 => s.clone(),
                            _ => json!({"$ref": "#/components/schemas/Thing"}),
                        };
                        op["requestBody"] = json!({"required": true, "content": {*ct: {"schema": schema}}});
                    }
                    let d = doc(json!({path: {method: op}}), json!({"schemas": {"Thing": {"type": "object", "required": ["a"], "properties": {"a": s}}}}));
                    let spec = parse(&d);
                    for style in STYLES {
                        c.case(
                            || format!("{style:?} {method} {path} body {body:?} paginated {paginated}"),
                            || {
                                c.state(&(style, method, path, body, paginated));
                                c.trans(1);
                                let g = generate(style, &spec);
                                let f: syn::File = syn::parse_str(g.code()?).map_err(|e| format!("the code does not parse: {e}"))?;
                                let mut d = Docs::default();
                                d.visit_file(&f);
                                let at = |k: &str| d.found.get(k).map(String::as_str).ok_or_else(|| format!("no {k}"));
                                let (m, p) = (format!("`{}`", method.to_uppercase()), format!("`{path}`"));
                                let home = if style == Style::Tagged { "ClientOneExt" } else { "Client" };
                                let mut want = vec![("the summary", "Sum it up"), ("the method", &m[..]), ("the path", &p[..])];
                                let mut args: Vec<_> = ["p", "q-r"].iter().filter(|n| path.contains(&format!("{{{n}}}"))).map(|n| format!("About {n}.")).collect();
                                args.sort_by_key(|a| path.find(&format!("{{{}}}", &a[6..a.len() - 1])));
                                want.extend(args.iter().map(|a| ("about the argument", &a[..])));
                                in_order("the operation", at(&format!("{home}::opera"))?, &want)?;
                                let more: Vec<String> = match (style, paginated) {
                                    (Style::Positional, true) => vec![format!("{home}::opera_stream")],
                                    (Style::Positional, false) => vec![],
                                    (_, true) => vec!["builder::Opera::send".into(), "builder::Opera::stream".into()],
                                    (_, false) => vec!["builder::Opera::send".into()],
                                };
                                for k in more {
                                    in_order(&k, at(&k)?, &[("the method", &m), ("the path", &p)])?;
                                }
                                c.outcome("method and path named");
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}

/// What a document may say besides what its interface is.
fn remarks() -> Vec<(&'static str, fn(&mut Value))> {
    fn op(d: &mut Value) -> &mut Value {
        &mut d["paths"]["/make/{first}"]["put"]
    }
    fn list(d: &mut Value) -> &mut Value {
        &mut d["paths"]["/list"]["get"]
    }
    fn thing(d: &mut Value) -> &mut Value {
        &mut d["components"]["schemas"]["Thing"]
    }
    vec![
        ("a deprecated operation", |d| op(d)["deprecated"] = json!(true)),
        ("a deprecated paginated operation", |d| list(d)["deprecated"] = json!(true)),
        ("an operation that is not deprecated", |d| d["paths"]["/"]["delete"]["deprecated"] = json!(false)),
        ("a deprecated path parameter", |d| op(d)["parameters"][0]["deprecated"] = json!(true)),
        ("a deprecated query parameter", |d| op(d)["parameters"][1]["deprecated"] = json!(true)),
        ("deprecated headers", |d| {
            op(d)["parameters"][2]["deprecated"] = json!(true);
            op(d)["parameters"][4]["deprecated"] = json!(true);
        }),
        ("a deprecated required query parameter", |d| op(d)["parameters"][3]["deprecated"] = json!(true)),
        ("examples of required parameters", |d| {
            op(d)["parameters"][3]["example"] = json!("four");
            op(d)["parameters"][4]["examples"] = json!({"one": {"value": "five"}});
        }),
        ("a deprecated limit", |d| list(d)["parameters"][0]["deprecated"] = json!(true)),
        ("a deprecated schema", |d| thing(d)["deprecated"] = json!(true)),
        ("an example of a path parameter", |d| op(d)["parameters"][0]["example"] = json!("example")),
        ("an example of a query parameter", |d| op(d)["parameters"][1]["example"] = json!(7)),
        ("examples of a query parameter", |d| op(d)["parameters"][1]["examples"] = json!({"one": {"value": 1}, "two": {"summary": "Two", "value": 2}})),
        ("an example of the limit", |d| list(d)["parameters"][0]["example"] = json!(10)),
        ("an example of a body", |d| op(d)["requestBody"]["content"]["application/json"]["example"] = json!({"width": "w"})),
        ("examples of a body", |d| op(d)["requestBody"]["content"]["application/json"]["examples"] = json!({"one": {"value": {"width": "w"}}})),
        ("an example of a response", |d| list(d)["responses"]["200"]["content"]["application/json"]["example"] = json!({"items": []})),
        ("an example in a schema", |d| thing(d)["example"] = json!({"width": "w"})),
        ("an example of a property", |d| thing(d)["properties"]["width"]["example"] = json!("w")),
        ("a property only read", |d| thing(d)["properties"]["depth"]["readOnly"] = json!(true)),
        ("a property only written", |d| thing(d)["properties"]["depth"]["writeOnly"] = json!(true)),
        ("more about a schema elsewhere", |d| thing(d)["externalDocs"] = json!({"url": "http://x.y/z"})),
        ("more about an operation elsewhere", |d| op(d)["externalDocs"] = json!({"description": "More", "url": "http://x.y/z"})),
        ("more about a tag elsewhere", |d| d["tags"][0]["externalDocs"] = json!({"url": "http://x.y/z"})),
        ("more elsewhere", |d| d["externalDocs"] = json!({"url": "http://x.y/z"})),
        ("a contact", |d| d["info"]["contact"] = json!({"name": "N", "url": "http://x.y", "email": "a@b.c"})),
        ("a licence", |d| d["info"]["license"] = json!({"name": "MPL-2.0", "url": "http://x.y"})),
        ("servers", |d| d["servers"] = json!([{"url": "https://api.x.y/v1", "description": "Live"}, {"url": "/v2"}, {"url": "http://{h}/", "variables": {"h": {"default": "a", "enum": ["a", "b"]}}}])),
        ("security", |d| {
            d["security"] = json!([{"key": []}]);
            d["components"]["securitySchemes"] = json!({"key": {"type": "apiKey", "name": "X-Key", "in": "header"}, "basic": {"type": "http", "scheme": "basic"}});
        }),
        ("an operation without security", |d| op(d)["security"] = json!([])),
        ("a path with words", |d| {
            d["paths"]["/list"]["summary"] = json!("A path");
            d["paths"]["/list"]["description"] = json!("All of it");
        }),
        ("headers of a response", |d| list(d)["responses"]["200"]["headers"] = json!({"X-Count": {"schema": {"type": "integer"}}})),
        ("links of a response", |d| list(d)["responses"]["200"]["links"] = json!({"next": {"operationId": "list"}})),
        ("callbacks", |d| op(d)["callbacks"] = json!({"done": {"{$request.query.second}": {"post": {"operationId": "called", "responses": {"200": {"description": ""}}}}}})),
        ("components nothing uses", |d| {
            d["components"]["parameters"] = json!({"P": {"name": "p", "in": "cookie", "schema": {"type": "string"}}});
            d["components"]["responses"] = json!({"R": {"description": "r"}});
            d["components"]["requestBodies"] = json!({"B": {"content": {"image/png": {}}}});
            d["components"]["headers"] = json!({"H": {"schema": {"type": "string"}}});
            d["components"]["examples"] = json!({"E": {"value": 1}});
            d["components"]["links"] = json!({"L": {"operationId": "list"}});
            d["components"]["callbacks"] = json!({"C": {"{$url}": {}}});
        }),
        ("a tag nothing uses", |d| d["tags"].as_array_mut().unwrap().push(json!({"name": "three", "description": "Third"}))),
        ("extensions of the document", |d| {
            d["x-a"] = json!({"b": [1]});
            d["info"]["x-a"] = json!("b");
            d["tags"][0]["x-a"] = json!(null);
            d["components"]["x-a"] = json!(1);
        }),
        ("extensions of paths", |d| {
            d["paths"]["x-a"] = json!({"get": {}});
            d["paths"]["/list"]["x-get"] = json!({"operationId": "x"});
        }),
        ("extensions of an operation", |d| {
            op(d)["x-a"] = json!(true);
            op(d)["x-dropshot-paginated"] = json!(true);
            op(d)["x-websocket"] = json!({});
            op(d)["responses"]["x-a"] = json!(1);
        }),
        ("extensions of parameters", |d| {
            op(d)["parameters"][0]["x-a"] = json!(1);
            op(d)["parameters"][1]["x-required"] = json!(true);
        }),
        ("extensions of content", |d| {
            op(d)["requestBody"]["x-a"] = json!(1);
            op(d)["requestBody"]["content"]["application/json"]["x-a"] = json!(1);
            list(d)["responses"]["200"]["x-a"] = json!(1);
        }),
    ]
}

/// What does not say what the interface is has no effect, in any company.
fn annotations(c: &Check) {
    let all = remarks();
    let n = all.len();
    let mut sets: Vec<Vec<usize>> = vec![(0..n).collect()];
    for i in 0..n {
        sets.push(vec![i]);
        sets.push((0..n).filter(|x| *x != i).collect());
        for j in i + 1..n {
            sets.push(vec![i, j]);
            if c.thorough {
                sets.extend((j + 1..n).map(|k| vec![i, j, k]));
            }
        }
    }
    let made = |style: Style, set: &[usize]| -> Result<Vec<String>, String> {
        let mut d = document(&Words::default());
        let params = d["paths"]["/make/{first}"]["put"]["parameters"].as_array_mut().unwrap();
        params.push(json!({"name": "fourth", "in": "query", "required": true, "schema": {"type": "string"}}));
        params.push(json!({"name": "fifth", "in": "header", "required": true, "schema": {"type": "string"}}));
        for i in set {
            all[*i].1(&mut d);
        }
        let spec = parse(&d);
        let mut out = vec![muted(generate(style, &spec).code()?)?];
        if style != Style::Positional {
            out.push(muted(generate_cli(&settings(style), &spec, "k").code()?)?);
            // Mocks of operations with headers are not generated.
            let op = &mut d["paths"]["/make/{first}"]["put"]["parameters"];
            op.as_array_mut().unwrap().retain(|p| p["in"] != "header");
            out.push(muted(generate_mock(&settings(style), &parse(&d), "k").code()?)?);
        }
        Ok(out)
    };
    for style in STYLES {
        let base = match made(style, &[]) {
            Ok(b) => b,
            Err(e) => {
                c.fail("the document without remarks", &e);
                continue;
            }
        };
        par(&sets, |set| {
            c.state(&(style, "remarks", set));
            c.case(
                || match set.len() {
                    n if n > 3 => format!("{style:?}: all remarks but {:?}", (0..all.len()).filter(|i| !set.contains(i)).map(|i| all[i].0).collect::<Vec<_>>()),
                    _ => format!("{style:?}: {}", set.iter().map(|i| all[*i].0).collect::<Vec<_>>().join(" and ")),
                },
                || {
                    c.trans(1);
                    let got = made(style, set)?;
                    for (what, (g, b)) in ["the client", "the command line", "the mock"].iter().zip(got.iter().zip(&base)) {
                        if g != b {
                            return Err(format!("the code of {what}, documentation aside, is not that of the document without remarks"));
                        }
                    }
                    c.outcome("remarks without effect");
                    Ok(())
                },
            );
        });
    }
    c.bound(format!("{n} kinds of remarks (deprecation, examples, extensions, servers, security, ...): each, every pair{}, all, and all but one", if c.thorough { ", every triple" } else { "" }));
}
