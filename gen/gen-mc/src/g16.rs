//! G16: the macro generates what the library generates from the equivalent
//! settings. The macro's own source runs in this process on every combination
//! of options up to a bound; clients made by the real macro are compiled.
use crate::doc::*;
use crate::g17;
use mc_core::*;
use proc_macro2::TokenStream;
use progenitor_impl::{CrateVers, GenerationSettings, InterfaceStyle, TagStyle, TypeImpl, TypePatch, UnknownPolicy};
use quote::quote;
use std::path::Path;
use std::process::Command;

type Apply = Box<dyn Fn(&mut GenerationSettings) + Sync>;
struct Choice {
    option: &'static str,
    text: &'static str,
    apply: Apply,
}

fn vers(s: &str) -> CrateVers {
    CrateVers::parse(s).unwrap()
}
fn schema(v: Value) -> schemars::schema::SchemaObject {
    serde_json::from_value(v).unwrap()
}

fn choices() -> Vec<Choice> {
    let mut out: Vec<Choice> = vec![];
    macro_rules! add {
        ($o:literal, $t:expr, |$s:ident| $b:expr) => {
            out.push(Choice { option: $o, text: $t, apply: Box::new(|$s: &mut GenerationSettings| { $b; }) })
        };
    }
    add!("interface", "Positional", |s| s.with_interface(InterfaceStyle::Positional));
    add!("interface", "Builder", |s| s.with_interface(InterfaceStyle::Builder));
    add!("tags", "Merged", |s| s.with_tag(TagStyle::Merged));
    add!("tags", "Separate", |s| s.with_tag(TagStyle::Separate));
    add!("inner_type", "my_client::InnerType", |s| s.with_inner_type(quote!(my_client::InnerType)));
    add!("inner_type", "(u8, Vec<String>)", |s| s.with_inner_type(quote!((u8, Vec<String>))));
    macro_rules! hook {
        ($o:literal, $f:ident) => {
            add!($o, "crate::hooks::go", |s| s.$f(quote!(crate::hooks::go)));
            add!($o, "go", |s| s.$f(quote!(go)));
            add!($o, "::other::<u8>::go", |s| s.$f(quote!(::other::<u8>::go)));
            add!($o, "(|a, b| { let c = a; c + b })", |s| s.$f(quote!(|a, b| { let c = a; c + b })));
            add!($o, "(((move |r: &u8| println!(\"{:?}\", r))))", |s| s.$f(quote!(move |r: &u8| println!("{:?}", r))));
            add!($o, "(crate::go)", |s| s.$f(quote!(crate::go)));
        };
    }
    hook!("pre_hook", with_pre_hook);
    hook!("pre_hook_async", with_pre_hook_async);
    hook!("post_hook", with_post_hook);
    hook!("post_hook_async", with_post_hook_async);
    add!("map_type", "std::collections::BTreeMap", |s| s.with_map_type("std::collections::BTreeMap"));
    add!("map_type", "::indexmap::IndexMap", |s| s.with_map_type("::indexmap::IndexMap"));
    add!("derives", "[]", |_s| ());
    add!("derives", "[A]", |s| s.with_derive("A"));
    add!("derives", "[schemars::JsonSchema, B]", |s| s.with_derive("schemars::JsonSchema").with_derive("B"));
    add!("unknown_crates", "Generate", |s| s.with_unknown_crates(UnknownPolicy::Generate));
    add!("unknown_crates", "Allow", |s| s.with_unknown_crates(UnknownPolicy::Allow));
    add!("unknown_crates", "Deny", |s| s.with_unknown_crates(UnknownPolicy::Deny));
    add!("crates", "{}", |_s| ());
    add!("crates", "{ \"ext\" = \"*\" }", |s| s.with_crate("ext", vers("*"), None));
    add!("crates", "{ \"ext\" = \"!\" }", |s| s.with_crate("ext", vers("!"), None));
    add!("crates", "{ \"ext\" = \"1.2.3\" }", |s| s.with_crate("ext", vers("1.2.3"), None));
    add!("crates", "{ \"ext\" = \"2.0.0\" }", |s| s.with_crate("ext", vers("2.0.0"), None));
    add!("crates", "{ \"re-named\" = \"ext@1.2.3\" }", |s| s.with_crate("ext", vers("1.2.3"), Some(&"re-named".to_string())));
    add!("crates", "{ \"re_named\" = \"ext@*\", \"my-ext_2\" = \"0.1.0\" }", |s| s
        .with_crate("ext", vers("*"), Some(&"re_named".to_string()))
        .with_crate("my-ext_2", vers("0.1.0"), None));
    add!("crates", "{ \"my-ext_2\" = \"!\", \"ext\" = \"!\" }", |s| s.with_crate("ext", vers("!"), None).with_crate("my-ext_2", vers("!"), None));
    add!("crates", "{ \"other-name\" = \"my-ext_2@0.1.0\", \"ext\" = \"ext@2.0.0\" }", |s| s
        .with_crate("my-ext_2", vers("0.1.0"), Some(&"other-name".to_string()))
        .with_crate("ext", vers("2.0.0"), Some(&"ext".to_string())));
    add!("crates", "{ \"a\" = \"my-ext_2@!\", \"B-b\" = \"ext@1.2.3-alpha.1+b.2\" }", |s| s
        .with_crate("my-ext_2", vers("!"), Some(&"a".to_string()))
        .with_crate("ext", vers("1.2.3-alpha.1+b.2"), Some(&"B-b".to_string())));
    add!("patch", "{}", |_s| ());
    add!("patch", "{ Thing = {} }", |s| s.with_patch("Thing", &TypePatch::default()));
    add!("patch", "{ Thing = { rename = \"Widget\" } }", |s| s.with_patch("Thing", TypePatch::default().with_rename("Widget")));
    add!("patch", "{ Thing = { derives = [Hash, a::B] } }", |s| s.with_patch("Thing", TypePatch::default().with_derive("Hash").with_derive("a::B")));
    add!("patch", "{ Thing = { derives = [Hash], rename = \"Widget\" }, Page = { rename = \"Sheet\" } }", |s| s
        .with_patch("Page", TypePatch::default().with_rename("Sheet"))
        .with_patch("Thing", TypePatch::default().with_rename("Widget").with_derive("Hash")));
    use TypeImpl::*;
    add!("replace", "{ Thing = my::Thing }", |s| s.with_replacement("Thing", "my::Thing", [Display, FromStr].into_iter()));
    add!("replace", "{ Thing = my::Thing: ?Display }", |s| s.with_replacement("Thing", "my::Thing", [FromStr].into_iter()));
    add!("replace", "{ Thing = my::Thing: ?Display + ?FromStr }", |s| s.with_replacement("Thing", "my::Thing", [].into_iter()));
    add!("replace", "{ Thing = my::Thing: ?FromStr + Default }", |s| s.with_replacement("Thing", "my::Thing", [Default, Display].into_iter()));
    add!("replace", "{ Page = String: Display, Thing = ::m::T<u8>: FromStr }", |s| s
        .with_replacement("Page", "String", [FromStr, Display].into_iter())
        .with_replacement("Thing", "::m::T<u8>", [FromStr, Display].into_iter()));
    add!("convert", "{ { type = \"string\", format = \"uuid\" } = my::Uuid }", |s| s.with_conversion(schema(json!({"type": "string", "format": "uuid"})), "my::Uuid", [Display, FromStr].into_iter()));
    add!("convert", "{ { type = \"string\", format = \"uuid\" } = my::Uuid: ?FromStr + Default }", |s| s.with_conversion(schema(json!({"type": "string", "format": "uuid"})), "my::Uuid", [Display, Default].into_iter()));
    add!("convert", "{ { type = \"integer\", format = \"int64\" } = i128, { type = \"string\", format = \"uuid\" } = First, { type = \"string\", format = \"uuid\" } = Second }", |s| s
        .with_conversion(schema(json!({"type": "integer", "format": "int64"})), "i128", [Display, FromStr].into_iter())
        .with_conversion(schema(json!({"type": "string", "format": "uuid"})), "First", [Display, FromStr].into_iter())
        .with_conversion(schema(json!({"type": "string", "format": "uuid"})), "Second", [Display, FromStr].into_iter()));
    add!("convert", "{ { type = \"object\", properties = { \"x\" = { type = \"string\" } }, required = [\"x\"] } = Pair }", |s| s.with_conversion(
        schema(json!({"type": "object", "properties": {"x": {"type": "string"}}, "required": ["x"]})),
        "Pair",
        [Display, FromStr].into_iter()
    ));
    out
}

/// Something every option has an influence on.
fn document() -> Value {
    let mut d = g17::featured(&["uuid", "pages"]);
    let s = &mut d["components"]["schemas"];
    s["Ext"] = json!({"type": "object", "properties": {"e": {"type": "string"}}, "x-rust-type": {"crate": "ext", "version": "1.0.0", "path": "ext::sub::Ext"}});
    s["MyExt"] = json!({"type": "object", "properties": {"e": {"type": "string"}}, "x-rust-type": {"crate": "my-ext_2", "version": "0.1.0", "path": "my_ext_2::Ext"}});
    s["Map"] = json!({"type": "object", "additionalProperties": {"type": "integer", "format": "int64"}});
    s["Holder"] = json!({"type": "object", "properties": {"ext": {"$ref": "#/components/schemas/Ext"}, "map": {"$ref": "#/components/schemas/Map"}, "id": {"type": "string", "format": "uuid"}, "n": {"type": "integer", "format": "int64"}, "inline": {"type": "object", "additionalProperties": {"type": "string"}}}});
    d["paths"]["/holder"] = json!({"post": {"operationId": "holder", "tags": ["a", "b"], "requestBody": {"required": true, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Holder"}}}}, "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Page"}}}}}}});
    d
}

enum Out {
    Same(String),
    Code(Vec<String>, String),
    Refused(String),
    Panicked(String),
}

/// Run the macro: the items it makes, and the file it depends on. Items known
/// to make up the text `whole` need not be looked at one by one.
fn expand(input: &str, whole: Option<&str>) -> Result<Out, String> {
    let t: TokenStream = input.parse().map_err(|e| format!("check: {e}: {input}"))?;
    let out = match quietly(|| macro_lib::generate_api(t)) {
        Ok(o) => o,
        Err(p) => return Ok(Out::Panicked(p)),
    };
    let mut all = None;
    let f: syn::Result<syn::File> = match whole {
        Some(w) => {
            let text = out.to_string();
            match text.split_once(w) {
                Some((a, b)) => {
                    all = Some(());
                    syn::parse_str(&format!("{a} {b}"))
                }
                None => syn::parse2(out),
            }
        }
        None => syn::parse2(out),
    };
    let f: syn::File = f.map_err(|e| format!("the macro's output does not parse: {e}"))?;
    let mut items = vec![];
    let (mut client, mut depends) = (false, None);
    for i in &f.items {
        match i {
            syn::Item::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "compile_error") => {
                return Ok(Out::Refused(m.mac.tokens.to_string()));
            }
            syn::Item::Use(u) if quote!(#u).to_string() == "use progenitor :: progenitor_client ;" => client = true,
            syn::Item::Const(k) if k.ident == "_" => {
                let syn::Expr::Macro(m) = &*k.expr else { return Err("an unnamed constant is no included file".into()) };
                let s: syn::LitStr = m.mac.parse_body().map_err(|e| e.to_string())?;
                depends = Some(s.value());
            }
            i => items.push(quote!(#i).to_string()),
        }
    }
    if !client {
        return Err("the client support is not brought into scope".into());
    }
    let depends = depends.ok_or("the output does not depend on the document")?;
    match (all, &items[..]) {
        (Some(()), []) => Ok(Out::Same(depends)),
        (Some(()), more) => Err(format!("the macro adds {}", more.join(" "))),
        _ => Ok(Out::Code(items, depends)),
    }
}

fn compare(c: &Check, input: &str, s: &GenerationSettings, d: &openapiv3::OpenAPI, file: &Path) -> Result<(), String> {
    c.trans(2);
    let own = generate_with(s, d);
    let depends = |at: &str| match std::fs::canonicalize(at).ok() == std::fs::canonicalize(file).ok() {
        true => Ok(()),
        false => Err(format!("the output depends on {at}, not on the document")),
    };
    let made = expand(input, own.code().ok())?;
    match (own, made) {
        (Gen::Code(_), Out::Same(at)) => {
            c.outcome("same code");
            depends(&at)
        }
        (Gen::Code(want), Out::Code(got, at)) => {
            c.outcome("same code");
            let f: syn::File = syn::parse_str(&want).map_err(|e| e.to_string())?;
            let want: Vec<String> = f.items.iter().map(|i| quote!(#i).to_string()).collect();
            if got != want {
                let (a, b) = got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| (a.as_str(), b.as_str())).unwrap_or(("<end>", "<end>"));
                let n = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.get(n.saturating_sub(60)..).unwrap_or("").chars().take(200).collect::<String>();
                return Err(format!("the macro generates\n  ..{}\nwhere the library generates\n  ..{}", cut(a), cut(b)));
            }
            depends(&at)
        }
        (Gen::Refused(_) | Gen::Panicked(_), Out::Refused(_) | Out::Panicked(_)) => {
            c.outcome("both refuse");
            Ok(())
        }
        (Gen::Code(_), Out::Refused(e)) | (Gen::Code(_), Out::Panicked(e)) => Err(format!("the library generates a client, the macro refuses: {e}")),
        (g, Out::Code(..) | Out::Same(_)) => Err(format!("the macro generates a client, the library does not: {}", g.code().unwrap_err())),
    }
}

pub fn run(c: &std::sync::Arc<Check>) {
    let root = std::env::var("CARGO_TARGET_DIR").map(std::path::PathBuf::from).unwrap_or_else(|_| verif_dir().join("target")).join("exec/G16");
    let _ = std::fs::remove_dir_all(root.join("specs"));
    std::fs::create_dir_all(root.join("specs/sub")).unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", root.join("specs"));
    let d = document();
    let text = d.to_string();
    let mut yaml = String::new();
    g17::yaml(&d, 0, &mut yaml);
    for (n, t) in [("s.json", &text), ("s.yaml", &yaml), ("sub/s.json", &text), ("noext", &text), ("yaml.json", &yaml), ("json.yaml", &text), ("yaml", &yaml), ("s p.é.yml", &yaml)] {
        std::fs::write(root.join("specs").join(n), t).unwrap();
    }
    options(c, &root, &parse(&d));
    inputs(c, &root, &parse(&d));
    documented(c);
    refusals(c, &root);
    compile(c, &root);
}

fn options(c: &Check, root: &Path, d: &openapiv3::OpenAPI) {
    let all = choices();
    let style = |i: usize| matches!(all[i].option, "interface" | "tags");
    let n = all.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let others: Vec<usize> = (0..n).filter(|i| !style(*i)).collect();
    for (x, a) in others.iter().enumerate() {
        sets.push(vec![*a]);
        for (y, b) in others.iter().enumerate().skip(x + 1) {
            if all[*a].option == all[*b].option {
                continue;
            }
            sets.push(vec![*a, *b]);
            if c.thorough {
                for z in others.iter().skip(y + 1) {
                    if all[*b].option != all[*z].option && all[*a].option != all[*z].option {
                        sets.push(vec![*a, *b, *z]);
                    }
                }
            }
        }
    }
    // All options at once, each choice of each option at least once.
    let names: std::collections::BTreeSet<&str> = others.iter().map(|i| all[*i].option).collect();
    for turn in 0..8 {
        sets.push(
            names
                .iter()
                .map(|o| {
                    let xs: Vec<usize> = others.iter().filter(|i| all[**i].option == *o).copied().collect();
                    xs[turn % xs.len()]
                })
                .collect(),
        );
    }
    let styles: Vec<Vec<usize>> = {
        let of = |o: &str| -> Vec<Option<usize>> { std::iter::once(None).chain((0..n).filter(|i| all[*i].option == o).map(Some)).collect() };
        of("interface").iter().flat_map(|i| of("tags").into_iter().map(move |t| i.iter().chain(t.iter()).copied().collect())).collect()
    };
    let file = root.join("specs/s.json");
    par(&sets, |set| {
        for st in &styles {
            let several = set.len() > 1 && set.len() < 5;
            // Several options: only the plain styles, spelled one way.
            let plain = st.is_empty() || st.iter().all(|i| matches!(all[*i].text, "Builder" | "Separate")) && all[st[0]].text == "Builder";
            if several && !plain {
                continue;
            }
            for order in 0..2 {
                if order == 1 && set.len() + st.len() < 2 || several && order != (set.iter().sum::<usize>() + st.len()) % 2 {
                    continue;
                }
                let mut parts: Vec<String> = vec!["spec = \"s.json\"".into()];
                parts.extend(st.iter().chain(set).map(|i| format!("{} = {}", all[*i].option, all[*i].text)));
                if order == 1 {
                    parts.reverse();
                }
                let input = parts.join(", ") + if order == 1 { "," } else { "" };
                c.case(
                    || input.clone(),
                    || {
                        c.state(&input);
                        let mut s = GenerationSettings::new();
                        for i in st.iter().chain(set) {
                            (all[*i].apply)(&mut s);
                        }
                        compare(c, &input, &s, d, &file)
                    },
                );
            }
        }
    });
    c.bound(format!("options: {n} settings of 14 options, one with all nine spellings of the style and in two orders, up to {} with the three styles, all at once", if c.thorough { 3 } else { 2 }));
}

/// Ways of naming the document.
fn inputs(c: &Check, root: &Path, d: &openapiv3::OpenAPI) {
    let at = |n: &str| root.join("specs").join(n);
    let abs = at("s.json").display().to_string();
    for (name, file) in [("s.json", "s.json"), ("s.yaml", "s.yaml"), ("sub/s.json", "sub/s.json"), ("./s.json", "s.json"), ("sub/../s.yaml", "s.yaml"), ("noext", "noext"), ("yaml.json", "yaml.json"), ("json.yaml", "json.yaml"), ("yaml", "yaml"), ("s p.é.yml", "s p.é.yml"), (abs.as_str(), "s.json")] {
        for input in [format!("{name:?}"), format!("spec = {name:?}"), format!("spec = {name:?},"), format!("interface = Builder, spec = r#\"{name}\"#"), format!("r\"{name}\"")] {
            c.case(
                || format!("input {}", input.replace(&root.display().to_string(), "..")),
                || {
                    c.state(&(&name, &input.len()));
                    let mut s = GenerationSettings::new();
                    if input.contains("Builder") {
                        s.with_interface(InterfaceStyle::Builder);
                    }
                    compare(c, &input, &s, d, &at(file))
                },
            );
        }
    }
}

/// An option that the documentation names and the settings of the library do
/// not have.
fn documented(c: &Check) {
    c.case(
        || "option struct_builder = true".to_string(),
        || match expand("spec = \"s.json\", struct_builder = true", None)? {
            Out::Code(items, _) => {
                let has = items.iter().any(|i| i.contains("pub mod types") && i.contains("pub fn builder ()"));
                has.then_some(()).ok_or("the types have no builders".to_string())
            }
            Out::Refused(e) | Out::Panicked(e) => Err(format!("refused: {e}")),
            Out::Same(_) => Err("no code".into()),
        },
    );
}

/// Malformed input makes the build fail with a message.
fn refusals(c: &Check, root: &Path) {
    std::fs::write(root.join("specs/garbage"), "{\"openapi\": ").unwrap();
    std::fs::write(root.join("specs/list"), "[]").unwrap();
    let mut v = document();
    v["openapi"] = json!("3.1.0");
    std::fs::write(root.join("specs/version"), v.to_string()).unwrap();
    let mut bad: Vec<String> = vec![];
    for x in ["", "spec", "spec =", "spec = 3", "spec = s.json", "spec: \"s.json\"", "interface = Builder", "\"s.json\", interface = Builder", "\"missing\"", "\"garbage\"", "\"list\"", "\"version\"", "3", "[\"s.json\"]", "spec = \"s.json\" interface = Builder"] {
        bad.push(x.to_string());
    }
    let values: &[(&str, &[&str])] = &[
        ("interface", &["builder", "Other", "\"Builder\"", "3", "[Builder]", ""]),
        ("tags", &["separate", "Other", "true", ""]),
        ("inner_type", &["3", "\"T\"", ""]),
        ("pre_hook", &["3", "\"f\"", "[f]", "()", "(3)", ""]),
        ("pre_hook_async", &["3", "\"f\"", "[f]", "(3)"]),
        ("post_hook", &["3", "\"f\"", "[f]", "(3)"]),
        ("post_hook_async", &["3", "\"f\"", "[f]", "(3)"]),
        ("map_type", &["3", "\"T\"", ""]),
        ("derives", &["A", "\"A\"", "[3]", "[\"A\"]", "{A}"]),
        ("unknown_crates", &["allow", "Other", "\"Allow\"", "true"]),
        ("crates", &["[]", "{ ext = 3 }", "{ \"ext\" = 3 }", "{ \"ext\" = \"\" }", "{ \"ext\" = \"1\" }", "{ \"ext\" = \"1.2\" }", "{ \"ext\" = \"x\" }", "{ \"ext\" = \"**\" }", "{ \"e t\" = \"*\" }", "{ \"e.t\" = \"*\" }", "{ \"ext\" = \"a b@1.0.0\" }", "{ \"ext\" = \"a/b@*\" }", "{ \"ext\" = \"a@\" }", "{ \"ext\" = \"a@b@1.0.0\" }", "{ \"ext\" = \"a@1.0\" }"]),
        ("patch", &["[]", "{ Thing }", "{ Thing = 3 }", "{ Thing = { rename = 3 } }", "{ Thing = { derives = A } }", "{ a::Thing = {} }", "{ \"Thing\" = {} }"]),
        ("replace", &["[]", "{ Thing }", "{ Thing = 3 }", "{ Thing = \"T\" }", "{ Thing = T: }", "{ Thing = T: ?Display + }", "{ a::Thing = T }"]),
        ("convert", &["[]", "{ { type = \"string\" } }", "{ { type = \"string\" } = 3 }", "{ { type = \"string\" } = T: }", "{ { type = 3 } = T }", "{ { type = \"strin\" } = T }"]),
    ];
    for (o, vs) in values {
        for v in *vs {
            bad.push(format!("spec = \"s.json\", {o} = {v}"));
            bad.push(format!("{o} = {v}, spec = \"s.json\""));
        }
        // Twice is once too often.
        if let Some(x) = choices().iter().find(|x| x.option == *o) {
            bad.push(format!("spec = \"s.json\", {o} = {}, {o} = {}", x.text, x.text));
        }
    }
    bad.push("spec = \"s.json\", spec = \"s.json\"".into());
    // Options there are not.
    for o in ["interfaces", "Interface", "tag", "style", "pre-hook", "prehook", "post_hooks", "derive", "crate", "patches", "replacements", "conversion", "inner", "unknown", "name", "module"] {
        bad.push(format!("spec = \"s.json\", {o} = Builder"));
        bad.push(format!("spec = \"s.json\", interface = Builder, {o} = {{}}"));
    }
    par(&bad, |input| {
        c.case(
            || format!("refused {input}"),
            || {
                c.state(&input);
                c.trans(1);
                match expand(input, None)? {
                    Out::Refused(e) => {
                        c.outcome("refused");
                        match e.len() > 2 {
                            true => Ok(()),
                            false => Err("refused without a message".into()),
                        }
                    }
                    Out::Panicked(e) => Err(format!("the macro panicked: {e}")),
                    Out::Code(..) | Out::Same(_) => Err("a client was generated".into()),
                }
            },
        );
    });
}

/// The real macro, in crates that declare what the documentation asks for.
fn compile(c: &Check, root: &Path) {
    let ws = root.join("crates");
    let _ = std::fs::remove_dir_all(&ws);
    let hooks = "inner_type = crate::Inner, pre_hook = (|_inner: &crate::Inner, request: &reqwest::Request| { let _ = request; }), post_hook = crate::after, pre_hook_async = crate::before, derives = [PartialEq]";
    let mut names = vec![];
    let features: Vec<Vec<&str>> = {
        let all = ["query", "uuid", "time", "pages", "socket", "any", "bytes", "form"];
        let mut v: Vec<Vec<&str>> = all.iter().map(|f| vec![*f]).collect();
        v.push(vec![]);
        v.push(all[1..].to_vec());
        v.push(all.to_vec());
        v
    };
    for style in STYLES {
        for on in &features {
            for nested in [false, true] {
                for (hooked, direct) in [(false, false), (true, false), (false, true), (true, true)] {
                    // Builders need progenitor-client; see the known findings.
                    let found = style != Style::Positional && (on.contains(&"query") || on.contains(&"pages"));
                    if direct && !found {
                        continue;
                    }
                    if hooked && !(on.is_empty() || on.len() > 1) {
                        continue;
                    }
                    let name = format!("m-{style:?}-{}-{nested}-{hooked}-{direct}", if on.is_empty() { "none".into() } else { on.join("-") }).to_lowercase();
                    let dir = ws.join(&name);
                    std::fs::create_dir_all(dir.join("src")).unwrap();
                    std::fs::write(dir.join("spec.json"), g17::featured(on).to_string()).unwrap();
                    let has = |f: &str| on.contains(&f);
                    let mut deps = String::from("futures = \"0.3\"\nreqwest = { version = \"0.12\", default-features = false, features = [\"json\", \"stream\"] }\nserde = { version = \"1.0\", features = [\"derive\"] }\n");
                    deps += &format!("progenitor = {{ path = {:?}, features = [\"macro\"] }}\n", verif_dir().join("gen/shims/progenitor"));
                    if direct {
                        deps += "progenitor-client = { path = \"/repo/progenitor-client\" }\n";
                    }
                    for (f, l) in [("time", "chrono = { version = \"0.4\", features = [\"serde\"] }"), ("uuid", "uuid = { version = \"1.0.0\", features = [\"serde\", \"v4\"] }"), ("socket", "base64 = \"0.22\"\nrand = \"0.8\""), ("any", "serde_json = \"1.0\"")] {
                        if has(f) {
                            deps += l;
                            deps.push('\n');
                        }
                    }
                    std::fs::write(dir.join("Cargo.toml"), format!("[package]\nname = {name:?}\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n{deps}")).unwrap();
                    let options = match style {
                        Style::Positional => "interface = Positional",
                        Style::Builder => "interface = Builder",
                        Style::Tagged => "interface = Builder, tags = Separate",
                    };
                    let call = format!("progenitor::generate_api!(spec = \"spec.json\", {options}{});", if hooked { format!(", {hooks}") } else { String::new() });
                    let call = if nested { format!("pub mod inner {{\n{call}\n}}") } else { call };
                    std::fs::write(
                        dir.join("src/lib.rs"),
                        format!("#![allow(warnings)]\n#[derive(Clone, Debug)]\npub struct Inner;\npub fn after(_: &Inner, _: &Result<reqwest::Response, reqwest::Error>) {{}}\npub async fn before(_: &Inner, _: &mut reqwest::Request) -> Result<(), std::io::Error> {{ Ok(()) }}\n{call}\n"),
                    )
                    .unwrap();
                    names.push((name, format!("{style:?} nested={nested}{}", if direct { " with progenitor-client" } else { "" })));
                }
            }
        }
    }
    let members: Vec<String> = names.iter().map(|n| format!("{:?}", n.0)).collect();
    std::fs::write(ws.join("Cargo.toml"), format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n[profile.dev]\ndebug = false\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 1\n", members.join(", "))).unwrap();
    std::fs::copy(verif_dir().join("gen/Cargo.lock"), ws.join("Cargo.lock")).unwrap();
    let o = Command::new("cargo").args(["check", "--offline", "-q", "--keep-going", "--message-format", "short", "--workspace"]).current_dir(&ws).env_remove("CARGO_MANIFEST_DIR").output().unwrap();
    c.trans(names.len() as u64);
    c.outcome("compiled");
    if o.status.success() {
        return;
    }
    let log = String::from_utf8_lossy(&o.stderr).to_string();
    let mut found = std::collections::BTreeMap::new();
    for l in log.lines() {
        let Some((at, what)) = l.split_once(": error") else { continue };
        let Some(n) = names.iter().find(|n| n.0 == at.split('/').next().unwrap()) else { continue };
        let what = what.split_once(": ").map_or(what, |x| x.1);
        let what = what.split(": ").next().unwrap_or(what);
        let what = if what.contains("`progenitor_client`") { "`progenitor_client` is not found inside the module of builders" } else { what };
        found.entry((n.1.clone(), what.to_string())).or_insert_with(|| l.to_string());
    }
    if found.is_empty() {
        eprintln!("check error: crates using the macro could not be compiled\n{log}");
        std::process::exit(2);
    }
    for ((at, what), first) in found {
        c.case(|| format!("compile {at} {what}"), || Err(format!("a crate using the macro does not compile: {first}")));
    }
}
