//! Names of types and fields.
use heck::{ToPascalCase, ToSnakeCase};
use unicode_ident::{is_xid_continue, is_xid_start};

fn ident(s: &str, case: fn(&str) -> String) -> String {
    let out = match s {
        "+1" => "plus1".to_string(),
        "-1" => "minus1".to_string(),
        _ => case(&s.replace('\'', "").replace(|c: char| !is_xid_continue(c), "-")),
    };
    let out = match out.chars().next() {
        None => case("x"),
        Some(c) if is_xid_start(c) => out,
        Some(_) => format!("_{out}"),
    };
    if syn::parse_str::<syn::Ident>(&out).is_ok() {
        out
    } else {
        format!("{out}_")
    }
}

pub fn pascal(s: &str) -> String {
    ident(s, |s| s.to_pascal_case())
}

pub fn field_ident(s: &str) -> String {
    ident(s, |s| s.to_snake_case())
}
