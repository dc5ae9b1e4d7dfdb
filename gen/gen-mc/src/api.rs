//! What a user of the generated code sees: its public functions.
use std::collections::BTreeMap;
use syn::{punctuated, FnArg, File, GenericArgument, GenericParam, ImplItem, Item, Pat, PathArguments, PathSegment, ReturnType, Signature, Token, Type, TypeParamBound, Visibility, WherePredicate};

#[derive(Debug, Clone)]
pub struct Method {
    pub name: String,
    /// Arguments after `&self`, in order.
    pub args: Vec<(String, Type)>,
    pub success: Type,
    pub error: Type,
}

#[derive(Debug, Clone, Default)]
pub struct Builder {
    /// Setters taking a value convertible to the type.
    pub setters: Vec<(String, Type)>,
    pub send: Option<(Type, Type)>,
    pub stream: bool,
    /// `body_map` exists.
    pub body_map: bool,
}

#[derive(Debug, Clone, Default)]
pub struct Api {
    /// Positional calls.
    pub methods: BTreeMap<String, Method>,
    /// Positional streams: name without `_stream`.
    pub streams: BTreeMap<String, Vec<(String, Type)>>,
    /// Functions returning builders: name, builder.
    pub starts: BTreeMap<String, String>,
    pub traits: BTreeMap<String, Vec<String>>,
    pub builders: BTreeMap<String, Builder>,
    /// Fields of the builders of body types: type name, setters.
    pub body_fields: BTreeMap<String, Vec<(String, Type)>>,
}

fn last(t: &Type) -> Option<&PathSegment> {
    match t {
        Type::Path(p) => p.path.segments.last(),
        _ => None,
    }
}

pub fn targs(t: &Type) -> Vec<Type> {
    match last(t).map(|s| &s.arguments) {
        Some(PathArguments::AngleBracketed(a)) => a
            .args
            .iter()
            .filter_map(|g| match g {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

fn result_of(sig: &Signature) -> Option<(Type, Type)> {
    let ReturnType::Type(_, t) = &sig.output else { return None };
    if last(t)?.ident != "Result" {
        return None;
    }
    let a = targs(t);
    Some((targs(a.first()?).first()?.clone(), targs(a.get(1)?).first()?.clone()))
}

fn inputs(sig: &Signature) -> Vec<(String, Type)> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(p) => {
                let n = match &*p.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => quote::quote!(#p).to_string(),
                };
                Some((n, (*p.ty).clone()))
            }
            _ => None,
        })
        .collect()
}

/// The `T` of `V: TryInto<T>` for the type parameter of a setter.
fn try_into_bound(sig: &Signature, v: &Type) -> Option<Type> {
    let mut out = None;
    let mut see = |bounded: String, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        if bounded != quote::quote!(#v).to_string() {
            return;
        }
        for b in bounds {
            if let TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap();
                if s.ident == "TryInto" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            out = Some(t.clone());
                        }
                    }
                }
            }
        }
    };
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            see(t.ident.to_string(), &t.bounds);
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                let b = &t.bounded_ty;
                see(quote::quote!(#b).to_string(), &t.bounds);
            }
        }
    }
    out
}

const FIXED: &[&str] = &["new", "new_with_client", "baseurl", "client", "api_version", "inner"];

impl Api {
    pub fn of(file: &File) -> Api {
        let mut api = Api::default();
        let mut client_fn = |sig: &Signature, public: bool, api: &mut Api| {
            let name = sig.ident.to_string();
            let out = &sig.output;
            let made = quote::quote!(#out).to_string().contains("builder ::");
            if !public || FIXED.contains(&name.as_str()) && sig.asyncness.is_none() && !made {
                return;
            }
            let args = inputs(sig);
            if let Some((success, error)) = result_of(sig) {
                api.methods.insert(name.clone(), Method { name, args, success, error });
            } else if let ReturnType::Type(_, t) = &sig.output {
                if matches!(**t, Type::ImplTrait(_)) {
                    let n = name.strip_suffix("_stream").unwrap_or(&name).to_string();
                    api.streams.insert(n, args);
                } else if let Some(s) = last(t) {
                    api.starts.insert(name, s.ident.to_string());
                }
            }
        };
        for item in &file.items {
            match item {
                Item::Impl(i) if last(&i.self_ty).map_or(false, |s| s.ident == "Client") => {
                    for f in &i.items {
                        if let ImplItem::Fn(f) = f {
                            let public = i.trait_.is_some() || matches!(f.vis, Visibility::Public(_));
                            client_fn(&f.sig, public, &mut api);
                            if let Some((_, t, _)) = &i.trait_ {
                                api.traits
                                    .entry(t.segments.last().unwrap().ident.to_string())
                                    .or_default()
                                    .push(f.sig.ident.to_string());
                            }
                        }
                    }
                }
                Item::Mod(m) if m.ident == "builder" => {
                    for item in m.content.iter().flat_map(|c| &c.1) {
                        let Item::Impl(i) = item else { continue };
                        if i.trait_.is_some() {
                            continue;
                        }
                        let Some(s) = last(&i.self_ty) else { continue };
                        let b = api.builders.entry(s.ident.to_string()).or_default();
                        for f in &i.items {
                            let ImplItem::Fn(f) = f else { continue };
                            let n = f.sig.ident.to_string();
                            let args = inputs(&f.sig);
                            if !matches!(f.vis, Visibility::Public(_)) {
                            } else if f.sig.asyncness.is_some() && n == "send" {
                                b.send = result_of(&f.sig);
                            } else if n == "stream" && args.is_empty() {
                                b.stream = true;
                            } else if n == "new" && f.sig.receiver().is_none() {
                            } else if let [(_, v)] = &args[..] {
                                match try_into_bound(&f.sig, v) {
                                    Some(t) => b.setters.push((n, t)),
                                    None => b.body_map |= n == "body_map",
                                }
                            }
                        }
                    }
                }
                Item::Mod(m) if m.ident == "types" => {
                    let inner = m.content.iter().flat_map(|c| &c.1).filter_map(|i| match i {
                        Item::Mod(m) if m.ident == "builder" => m.content.as_ref(),
                        _ => None,
                    });
                    for item in inner.flat_map(|c| &c.1) {
                        let Item::Impl(i) = item else { continue };
                        if i.trait_.is_some() {
                            continue;
                        }
                        let Some(s) = last(&i.self_ty) else { continue };
                        let fields = api.body_fields.entry(s.ident.to_string()).or_default();
                        for f in &i.items {
                            let ImplItem::Fn(f) = f else { continue };
                            if let [(_, v)] = &inputs(&f.sig)[..] {
                                if let Some(t) = try_into_bound(&f.sig, v) {
                                    fields.push((f.sig.ident.to_string(), t));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        api
    }
}

#[derive(Debug, Clone, Default)]
pub struct MockFn {
    pub name: String,
    /// A `T: Into<Option<X>>` shows as `Option<X>`.
    pub args: Vec<(String, Type)>,
}

/// The mock of one operation.
#[derive(Debug, Clone, Default)]
pub struct MockOp {
    pub when: Vec<MockFn>,
    pub then: Vec<MockFn>,
}

/// Function of `MockServerExt` to what it offers.
pub fn mocks(file: &File) -> BTreeMap<String, MockOp> {
    let mut fns: BTreeMap<String, Vec<MockFn>> = BTreeMap::new();
    let mut out = BTreeMap::new();
    for item in &file.items {
        let Item::Mod(m) = item else { continue };
        for item in m.content.iter().flat_map(|c| &c.1) {
            let Item::Impl(i) = item else { continue };
            let Some(s) = last(&i.self_ty) else { continue };
            for f in &i.items {
                let ImplItem::Fn(f) = f else { continue };
                let name = f.sig.ident.to_string();
                if f.sig.receiver().is_none() || name == "into_inner" {
                    continue;
                }
                let args = inputs(&f.sig).into_iter().map(|(n, t)| (n, into_bound(&f.sig, &t).unwrap_or(t))).collect();
                fns.entry(s.ident.to_string()).or_default().push(MockFn { name, args });
            }
        }
    }
    for item in &file.items {
        let Item::Trait(t) = item else { continue };
        for f in &t.items {
            let syn::TraitItem::Fn(f) = f else { continue };
            let Some(w) = &f.sig.generics.where_clause else { continue };
            let mut names = vec![];
            for p in &w.predicates {
                let WherePredicate::Type(p) = p else { continue };
                for b in &p.bounds {
                    let TypeParamBound::Trait(b) = b else { continue };
                    if let PathArguments::Parenthesized(a) = &b.path.segments.last().unwrap().arguments {
                        names = a.inputs.iter().filter_map(|t| Some(last(t)?.ident.to_string())).collect();
                    }
                }
            }
            if let [when, then] = &names[..] {
                let of = |n: &String| fns.get(n).cloned().unwrap_or_default();
                out.insert(f.sig.ident.to_string(), MockOp { when: of(when), then: of(then) });
            }
        }
    }
    out
}

/// The `X` of `T: Into<X>`.
fn into_bound(sig: &Signature, v: &Type) -> Option<Type> {
    for p in &sig.generics.where_clause.as_ref()?.predicates {
        let WherePredicate::Type(p) = p else { continue };
        if p.bounded_ty != *v {
            continue;
        }
        for b in &p.bounds {
            let TypeParamBound::Trait(b) = b else { continue };
            let s = b.path.segments.last().unwrap();
            if s.ident == "Into" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return Some(t.clone());
                    }
                }
            }
        }
    }
    None
}
