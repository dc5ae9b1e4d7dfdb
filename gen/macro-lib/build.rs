use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::{quote, ToTokens};

const SRC: &str = "/repo/progenitor-macro/src";

struct Plain;
impl real::visit_mut::VisitMut for Plain {
    fn visit_attributes_mut(&mut self, a: &mut Vec<real::Attribute>) {
        a.retain(|a| !a.path().is_ident("proc_macro") && !a.path().is_ident("doc"));
    }
    fn visit_item_mod_mut(&mut self, m: &mut real::ItemMod) {
        if m.content.is_none() {
            let p = format!("{SRC}/{}.rs", m.ident);
            m.attrs.push(real::parse_quote!(#[path = #p]));
        }
        real::visit_mut::visit_item_mod_mut(self, m);
    }
}

fn rename(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "proc_macro" => Ident::new("proc_macro2", i.span()).into(),
            TokenTree::Group(g) => Group::new(g.delimiter(), rename(g.stream())).into(),
            t => t,
        })
        .collect()
}

fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    let text = std::fs::read_to_string(format!("{SRC}/lib.rs")).unwrap();
    let out = match real::parse_file(&text) {
        Ok(mut f) => {
            f.attrs.clear();
            real::visit_mut::VisitMut::visit_file_mut(&mut Plain, &mut f);
            rename(f.to_token_stream())
        }
        Err(e) => {
            let e = e.to_string();
            quote!(compile_error!(#e);)
        }
    };
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/lib.rs"), out.to_string()).unwrap();
}
