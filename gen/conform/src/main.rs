use openapiv3::OpenAPI;
use proc_macro2::TokenStream;
use progenitor_impl::*;
use quote::ToTokens;
use std::io::Write;

fn rustfmt(s: &str) -> String {
    let mut c = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "normalize_doc_attributes=false"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    c.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    String::from_utf8(c.wait_with_output().unwrap().stdout).unwrap()
}

struct V;
impl syn::visit_mut::VisitMut for V {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.retain(|a| !a.path().is_ident("doc"));
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if m.ident == "types" {
            m.content = None;
        }
        syn::visit_mut::visit_item_mod_mut(self, m);
    }
}

fn norm(s: &str) -> String {
    let mut f = syn::parse_file(s).unwrap();
    f.attrs.clear();
    syn::visit_mut::VisitMut::visit_file_mut(&mut V, &mut f);
    let mut out = String::new();
    flat(rustfmt(&f.into_token_stream().to_string()).parse().unwrap(), &mut out);
    out
}

/// One token per line; no trailing commas; strings with collapsed whitespace.
fn flat(t: TokenStream, out: &mut String) {
    use proc_macro2::*;
    let ts: Vec<_> = t.into_iter().collect();
    for (i, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(o);
                out.push('\n');
                flat(g.stream(), out);
                out.push_str(c);
                out.push('\n');
            }
            TokenTree::Punct(p) if p.as_char() == ',' && i + 1 == ts.len() => {}
            TokenTree::Literal(l) => match syn::parse_str::<syn::LitStr>(&l.to_string()) {
                Ok(s) => out.push_str(&format!("{:?}\n", s.value().split_whitespace().collect::<Vec<_>>().join(" "))),
                Err(_) => out.push_str(&format!("{l}\n")),
            },
            t => out.push_str(&format!("{t}\n")),
        }
    }
}

fn cmp(name: &str, got: TokenStream, golden: &str) -> bool {
    let golden = std::fs::read_to_string(golden).unwrap();
    let (a, b) = (norm(&got.to_string()), norm(&golden));
    if a == b {
        println!("same {name}");
        return true;
    }
    let dir = "/tmp/conform";
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/{name}.got"), &a).unwrap();
    std::fs::write(format!("{dir}/{name}.want"), &b).unwrap();
    println!("DIFF {name}");
    false
}

fn main() {
    let mut ok = true;
    for file in ["keeper", "buildomat", "nexus", "propolis-server", "param-overrides", "param-collision", "cli-gen"] {
        let stem = file.replace('-', "_");
        let spec: OpenAPI = serde_json::from_str(
            &std::fs::read_to_string(format!("/repo/sample_openapi/{file}.json")).unwrap(),
        )
        .unwrap();
        let gold = |k: &str| format!("/repo/progenitor-impl/tests/output/src/{stem}_{k}.rs");
        let mut g = Generator::default();
        ok &= cmp(&format!("{stem}_positional"), g.generate_tokens(&spec).unwrap(), &gold("positional"));
        let mut g = Generator::new(
            GenerationSettings::default()
                .with_interface(InterfaceStyle::Builder)
                .with_tag(TagStyle::Merged)
                .with_derive("schemars::JsonSchema")
                .with_patch("Name", TypePatch::default().with_derive("Hash"))
                .with_conversion(
                    schemars::schema::SchemaObject {
                        instance_type: Some(schemars::schema::InstanceType::Integer.into()),
                        format: Some("int32".to_string()),
                        ..Default::default()
                    },
                    "usize",
                    [TypeImpl::Display].into_iter(),
                ),
        );
        ok &= cmp(&format!("{stem}_builder"), g.generate_tokens(&spec).unwrap(), &gold("builder"));
        let mut g = Generator::new(
            GenerationSettings::default().with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate),
        );
        ok &= cmp(&format!("{stem}_builder_tagged"), g.generate_tokens(&spec).unwrap(), &gold("builder_tagged"));
        let k = format!("crate::{stem}_builder");
        ok &= cmp(&format!("{stem}_cli"), g.cli(&spec, &k).unwrap(), &gold("cli"));
        ok &= cmp(&format!("{stem}_httpmock"), g.httpmock(&spec, &k).unwrap(), &gold("httpmock"));
    }
    std::process::exit(if ok { 0 } else { 1 });
}
