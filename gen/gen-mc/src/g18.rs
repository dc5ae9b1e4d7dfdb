//! G18: generation settings are applied exactly as given, whatever the order
//! of the calls.
use crate::doc::*;
use mc_core::*;
use progenitor_impl::{CrateVers, GenerationSettings, Generator, InterfaceStyle, TagStyle, TypeImpl, TypePatch, UnknownPolicy};
use quote::quote;
use std::sync::Arc;
use typify::{TypeSpace, TypeSpaceSettings};

type Real = Box<dyn Fn(&mut GenerationSettings) + Sync>;
type Model = Box<dyn Fn(&mut TypeSpaceSettings) + Sync>;

struct Call {
    what: &'static str,
    /// A later call of the same key takes the place of an earlier one; calls
    /// without a key are all kept.
    key: Option<&'static str>,
    real: Real,
    /// What type generation is told; `None` if it is none of its business.
    model: Option<Model>,
}

fn schema(v: Value) -> schemars::schema::SchemaObject {
    serde_json::from_value(v).unwrap()
}

fn calls() -> Vec<Call> {
    let mut out: Vec<Call> = vec![];
    macro_rules! both {
        ($w:literal, $k:expr, |$s:ident| $b:expr) => {
            out.push(Call {
                what: $w,
                key: $k,
                real: Box::new(|$s: &mut GenerationSettings| {
                    $b;
                }),
                model: Some(Box::new(|$s: &mut TypeSpaceSettings| {
                    $b;
                })),
            })
        };
    }
    both!("derive A", None, |s| s.with_derive("A".to_string()));
    both!("derive ::b::B", None, |s| s.with_derive("::b::B".to_string()));
    both!("derive C", None, |s| s.with_derive("C".to_string()));
    both!("patch Thing: renamed", Some("patch Thing"), |s| s.with_patch("Thing", TypePatch::default().with_rename("Widget")));
    both!("patch Thing: derives", Some("patch Thing"), |s| s.with_patch("Thing", TypePatch::default().with_derive("D").with_derive("a::E")));
    both!("patch Other: both", Some("patch Other"), |s| s.with_patch("Other", TypePatch::default().with_derive("D").with_rename("Thing2")));
    both!("replace Thing", Some("replace Thing"), |s| s.with_replacement("Thing", "crate::Thing", [].into_iter()));
    both!("replace Thing otherwise", Some("replace Thing"), |s| s.with_replacement("Thing", "x::Y<u16>", [TypeImpl::Display, TypeImpl::FromStr].into_iter()));
    both!("replace Other", Some("replace Other"), |s| s.with_replacement("Other", "x::Z", [TypeImpl::Default].into_iter()));
    both!("convert date", None, |s| s.with_conversion(schema(json!({"type": "string", "format": "date"})), "my::Date", [TypeImpl::Display].into_iter()));
    both!("convert date otherwise", None, |s| s.with_conversion(schema(json!({"type": "string", "format": "date"})), "my::Day", [].into_iter()));
    both!("convert small", None, |s| s.with_conversion(schema(json!({"type": "integer", "maximum": 9, "enum": [1, 2]})), "u16", [TypeImpl::FromStr, TypeImpl::Display, TypeImpl::Default].into_iter()));
    both!("crate any", Some("crate ext"), |s| s.with_crate("ext", CrateVers::Any, None));
    both!("crate renamed", Some("crate ext"), |s| s.with_crate("ext", CrateVers::parse("1.2.3").unwrap(), Some(&"re-named".to_string())));
    both!("other crate never", Some("crate my-ext"), |s| s.with_crate("my-ext", CrateVers::Never, None));
    both!("other crate, the same name", Some("crate my-ext"), |s| s.with_crate("my-ext", CrateVers::parse("0.1.0-a").unwrap(), Some(&"ext".to_string())));
    both!("unknown allowed", Some("unknown"), |s| s.with_unknown_crates(UnknownPolicy::Allow));
    both!("unknown denied", Some("unknown"), |s| s.with_unknown_crates(UnknownPolicy::Deny));
    both!("unknown generated", Some("unknown"), |s| s.with_unknown_crates(UnknownPolicy::Generate));
    both!("map BTreeMap", Some("map"), |s| s.with_map_type("::std::collections::BTreeMap"));
    both!("map other", Some("map"), |s| s.with_map_type("my :: Map"));
    macro_rules! only {
        ($w:literal, $k:literal, |$s:ident| $b:expr) => {
            out.push(Call {
                what: $w,
                key: Some($k),
                real: Box::new(|$s: &mut GenerationSettings| {
                    $b;
                }),
                model: None,
            })
        };
    }
    only!("positional", "interface", |s| s.with_interface(InterfaceStyle::Positional));
    only!("builder", "interface", |s| s.with_interface(InterfaceStyle::Builder));
    only!("merged", "tag", |s| s.with_tag(TagStyle::Merged));
    only!("separate", "tag", |s| s.with_tag(TagStyle::Separate));
    only!("inner type", "inner", |s| s.with_inner_type(quote!(crate::Inner)));
    only!("other inner type", "inner", |s| s.with_inner_type(quote!((u8, Vec<String>))));
    only!("pre hook", "pre", |s| s.with_pre_hook(quote!(crate::seen_pre)));
    only!("other pre hook", "pre", |s| s.with_pre_hook(quote!(|_, r| seen_other_pre(r))));
    only!("async pre hook", "pre async", |s| s.with_pre_hook_async(quote!(crate::seen_pre_async)));
    only!("post hook", "post", |s| s.with_post_hook(quote!(crate::seen_post)));
    only!("async post hook", "post async", |s| s.with_post_hook_async(quote!(crate::seen_post_async)));
    out
}

/// What type generation was told, as its stand-in writes it down.
fn told(code: &str) -> Result<&str, String> {
    let at = code.find("TYPIFY_SETTINGS").ok_or("nothing is known of the settings")?;
    let rest = &code[at..];
    Ok(&rest[..rest.find(" ;").unwrap_or(rest.len())])
}

fn builder(seq: &[&Call]) -> bool {
    seq.iter().rev().find(|c| c.key == Some("interface")).is_some_and(|c| c.what == "builder")
}

fn want(seq: &[&Call], builder: bool) -> String {
    let mut m = TypeSpaceSettings::default();
    m.with_type_mod("types").with_struct_builder(builder);
    for c in seq {
        if let Some(f) = &c.model {
            f(&mut m);
        }
    }
    TypeSpace::new(&m).to_stream().to_string()
}

fn real(seq: &[&Call]) -> GenerationSettings {
    let mut s = GenerationSettings::new();
    seq.iter().for_each(|c| (c.real)(&mut s));
    s
}

pub fn run(c: &Arc<Check>) {
    let s = || json!({"type": "string"});
    let spec = parse(&doc(
        json!({"/a/{p}": {"post": {"operationId": "go", "tags": ["t"], "parameters": [{"name": "p", "in": "path", "required": true, "schema": s()}],
            "requestBody": {"content": {"application/json": {"schema": {"$ref": "#/components/schemas/Thing"}}}},
            "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Other"}}}}}},
          "get": {"operationId": "stop", "responses": {"204": {"description": ""}}, "parameters": [{"name": "p", "in": "path", "required": true, "schema": {"type": "string", "format": "date"}}]}}}),
        json!({"schemas": {"Thing": {"type": "object", "properties": {"a": s(), "m": {"type": "object", "additionalProperties": {"type": "integer"}}}}, "Other": {"type": "object", "properties": {"b": {"type": "integer"}}}}}),
    ));
    let all = calls();
    let depth = if c.thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|q| (0..all.len()).map(|i| q.iter().copied().chain([i]).collect::<Vec<_>>())).collect();
        seqs.extend(last.iter().cloned());
    }
    // Everything at once, in both orders.
    seqs.push((0..all.len()).collect());
    seqs.push((0..all.len()).rev().collect());
    for i in 0..all.len() {
        seqs.push((0..all.len()).filter(|j| *j != i).collect());
    }
    let single = |i: usize| generate_with(&real(&[&all[i]]), &spec);
    let none = generate_with(&GenerationSettings::new(), &spec);
    for i in 0..all.len() {
        c.case(
            || format!("{} has an effect", all[i].what),
            || {
                let default = ["positional", "merged", "separate", "unknown generated"].contains(&all[i].what);
                c.trans(1);
                if !default && single(i).code()? == none.code()? {
                    return Err("the code is the same without it".into());
                }
                if ["positional", "merged", "unknown generated"].contains(&all[i].what) && single(i) != none {
                    return Err("setting what is the default changes the code".into());
                }
                Ok(())
            },
        );
    }
    par(&seqs, |q| {
        let seq: Vec<&Call> = q.iter().map(|i| &all[*i]).collect();
        c.state(q);
        c.case(
            || format!("settings {:?}", seq.iter().map(|x| x.what).collect::<Vec<_>>()),
            || {
                let got = generate_with(&real(&seq), &spec);
                c.trans(1);
                c.outcome(got.class());
                // The calls that count, in another order.
                let mut canon: Vec<&Call> = vec![];
                for (i, x) in seq.iter().enumerate() {
                    match x.key {
                        Some(k) => {
                            if !seq[i + 1..].iter().any(|y| y.key == Some(k)) {
                                canon.insert(0, x);
                            }
                        }
                        None => canon.push(x),
                    }
                }
                let b = builder(&seq);
                let separate = seq.iter().rev().find(|x| x.key == Some("tag")).is_some_and(|x| x.what == "separate");
                if separate && !b {
                    return match got {
                        Gen::Code(_) => Err("positional calls with separate tags are not supported but were generated".into()),
                        _ => Ok(()),
                    };
                }
                let code = got.code()?;
                if told(code)? != told(&want(&seq, b))? {
                    return Err(format!("type generation was told {} instead of {}", told(code)?, told(&want(&seq, b))?));
                }
                if canon.len() != seq.len() || seq.len() <= 2 || canon.iter().zip(&seq).any(|(a, b)| a.what != b.what) {
                    let other = generate_with(&real(&canon), &spec);
                    if other != got {
                        return Err(format!("the code is not that of the calls {:?}", canon.iter().map(|x| x.what).collect::<Vec<_>>()));
                    }
                }
                // Settings already given are not taken back or mixed up.
                let words: std::collections::BTreeSet<&str> = code.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
                for (key, tokens) in [
                    ("inner", vec!["Inner", "u8"]),
                    ("pre", vec!["seen_pre", "seen_other_pre"]),
                    ("pre async", vec!["seen_pre_async"]),
                    ("post", vec!["seen_post"]),
                    ("post async", vec!["seen_post_async"]),
                ] {
                    let chosen = seq.iter().rev().find(|x| x.key == Some(key)).map(|x| x.what);
                    for (n, t) in tokens.iter().enumerate() {
                        let there = words.contains(*t);
                        let expected = chosen.is_some_and(|w| w.starts_with("other") == (n == 1));
                        if there != expected {
                            return Err(format!("{t:?} is in the code: {there}; {key} is {chosen:?}"));
                        }
                    }
                }
                Ok(())
            },
        );
    });
    // Settings and generators are independent of each other.
    for i in 0..all.len() {
        for j in 0..all.len() {
            c.case(
                || format!("a generator with {:?}, settings then given {:?}", all[i].what, all[j].what),
                || {
                    let mut s = real(&[&all[i]]);
                    let mut copy = s.clone();
                    let mut g = Generator::new(&s);
                    (all[j].real)(&mut s);
                    let now = Generator::new(&s);
                    let gen = |g: &mut Generator| match quietly(|| g.generate_tokens(&spec)) {
                        Ok(Ok(t)) => Gen::Code(t.to_string()),
                        Ok(Err(e)) => Gen::Refused(e.to_string()),
                        Err(p) => Gen::Panicked(p),
                    };
                    c.trans(2);
                    if gen(&mut g) != generate_with(&copy, &spec) {
                        return Err("the generator follows its settings after it was made".into());
                    }
                    (all[j].real)(&mut copy);
                    let mut now = now;
                    if gen(&mut now) != generate_with(&copy, &spec) {
                        return Err("a copy of the settings is not equal to them".into());
                    }
                    Ok(())
                },
            );
        }
    }
    c.case(
        || "the default generator".into(),
        || {
            let t = Generator::default().generate_tokens(&spec).map_err(|e| e.to_string())?.to_string();
            if Gen::Code(t) != none {
                return Err("it is not the one of default settings".into());
            }
            Ok(())
        },
    );
    c.bound(format!("every sequence of up to {depth} of {} calls on the settings, every call but one, all of them in two orders; a third use of each pair", all.len()));
    c.assume("typify is a stand-in that writes down the settings it is given; what real typify does with them is outside this repository.");
}
