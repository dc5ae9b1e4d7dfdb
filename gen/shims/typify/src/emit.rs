//! The code of the types.
use crate::*;

impl TypeSpace {
    pub fn to_stream(&self) -> TokenStream {
        let mut items: BTreeMap<&String, TokenStream> = BTreeMap::new();
        let mut builders: BTreeMap<&String, TokenStream> = BTreeMap::new();
        for e in self.entries.values() {
            let Some(name) = &e.name else { continue };
            items.insert(name, self.item(name, e));
            if let (true, Kind::Struct(props, _)) = (self.settings.struct_builder, &e.kind) {
                builders.insert(name, self.builder_item(name, props));
            }
        }
        let items = items.values();
        let builders = (!builders.is_empty()).then(|| {
            let b = builders.values();
            quote! {
                /// Types for composing complex structures.
                pub mod builder { #(#b)* }
            }
        });
        // How a path was spelled does not matter.
        let settings: String = format!("{:?}", self.settings).split_whitespace().collect();
        quote! {
            /// Error types.
            pub mod error {
                /// Error from a `TryFrom` or `FromStr` implementation.
                pub struct ConversionError(::std::borrow::Cow<'static, str>);
                impl ::std::error::Error for ConversionError {}
                impl ::std::fmt::Display for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::result::Result<(), ::std::fmt::Error> {
                        ::std::fmt::Display::fmt(&self.0, f)
                    }
                }
                impl ::std::fmt::Debug for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::result::Result<(), ::std::fmt::Error> {
                        ::std::fmt::Debug::fmt(&self.0, f)
                    }
                }
                impl From<&'static str> for ConversionError {
                    fn from(value: &'static str) -> Self { Self(value.into()) }
                }
                impl From<String> for ConversionError {
                    fn from(value: String) -> Self { Self(value.into()) }
                }
            }
            #[doc(hidden)]
            #[allow(dead_code)]
            pub const TYPIFY_SETTINGS: &str = #settings;
            #(#items)*
            #builders
        }
    }

    fn item(&self, name: &str, e: &Entry) -> TokenStream {
        let n = format_ident!("{name}");
        let doc = e.description.as_ref().map(|d| quote! { #[doc = #d] });
        let derives = self
            .settings
            .derives
            .iter()
            .chain(&e.derives)
            .map(|d| d.parse::<TokenStream>().unwrap())
            .collect::<Vec<_>>();
        let derives = quote! { #( , #derives )* };
        let convert = quote! {
            impl ::std::convert::From<&#n> for #n {
                fn from(value: &#n) -> Self { value.clone() }
            }
        };
        match &e.kind {
            Kind::Struct(props, closed) => {
                let deny = closed.then(|| quote! { #[serde(deny_unknown_fields)] });
                let fields = props.iter().map(|p| {
                    let i = format_ident!("{}", p.ident);
                    let t = self.ident(&self.entries[&p.typ], &None);
                    let rename = (p.ident != p.name).then(|| {
                        let o = &p.name;
                        quote! { #[serde(rename = #o)] }
                    });
                    let default = p.defaulted.then(|| match &self.entries[&p.typ].kind {
                        Kind::Option(_) => quote! {
                            #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
                        },
                        Kind::Vec(_) => quote! {
                            #[serde(default, skip_serializing_if = "::std::vec::Vec::is_empty")]
                        },
                        Kind::Map(_, v) if self.settings.map_type.is_none() && self.entries[v].kind == Kind::Value => quote! {
                            #[serde(default, skip_serializing_if = "::serde_json::Map::is_empty")]
                        },
                        _ => quote! { #[serde(default)] },
                    });
                    let doc = p.description.as_ref().map(|d| quote! { #[doc = #d] });
                    quote! { #doc #rename #default pub #i: #t }
                });
                let builder = self.settings.struct_builder.then(|| {
                    quote! {
                        impl #n {
                            pub fn builder() -> builder::#n { Default::default() }
                        }
                    }
                });
                quote! {
                    #doc
                    #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #derives)]
                    #deny
                    pub struct #n { #(#fields,)* }
                    #convert
                    #builder
                }
            }
            Kind::Enum(vs) => {
                let simple = vs.iter().all(|v| matches!(v, Variant::Simple(..)));
                if simple {
                    let names = vs
                        .iter()
                        .map(|v| match v {
                            Variant::Simple(n, _) => format_ident!("{n}"),
                            _ => unreachable!(),
                        })
                        .collect::<Vec<_>>();
                    let values = vs
                        .iter()
                        .map(|v| match v {
                            Variant::Simple(_, v) => v.clone(),
                            _ => unreachable!(),
                        })
                        .collect::<Vec<_>>();
                    quote! {
                        #doc
                        #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd #derives)]
                        pub enum #n { #( #[serde(rename = #values)] #names, )* }
                        #convert
                        impl ::std::fmt::Display for #n {
                            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                                match *self { #( Self::#names => f.write_str(#values), )* }
                            }
                        }
                        impl ::std::str::FromStr for #n {
                            type Err = self::error::ConversionError;
                            fn from_str(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> {
                                match value {
                                    #( #values => Ok(Self::#names), )*
                                    _ => Err("invalid value".into()),
                                }
                            }
                        }
                        impl ::std::convert::TryFrom<&str> for #n {
                            type Error = self::error::ConversionError;
                            fn try_from(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                        }
                        impl ::std::convert::TryFrom<&::std::string::String> for #n {
                            type Error = self::error::ConversionError;
                            fn try_from(value: &::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                        }
                        impl ::std::convert::TryFrom<::std::string::String> for #n {
                            type Error = self::error::ConversionError;
                            fn try_from(value: ::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                        }
                    }
                } else {
                    let items = vs.iter().map(|v| match v {
                        Variant::Item(n, id) => {
                            let n = format_ident!("{n}");
                            let t = self.ident(&self.entries[id], &None);
                            quote! { #n(#t) }
                        }
                        Variant::Simple(n, _) => {
                            let n = format_ident!("{n}");
                            quote! { #n }
                        }
                    });
                    let display = vs
                        .iter()
                        .all(|v| match v {
                            Variant::Item(_, id) => {
                                self.has_impl(&self.entries[id], TypeSpaceImpl::Display)
                            }
                            _ => false,
                        })
                        .then(|| {
                            let names = vs.iter().map(|v| match v {
                                Variant::Item(n, _) | Variant::Simple(n, _) => format_ident!("{n}"),
                            });
                            quote! {
                                impl ::std::fmt::Display for #n {
                                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                                        match self { #( Self::#names(x) => x.fmt(f), )* }
                                    }
                                }
                            }
                        });
                    quote! {
                        #doc
                        #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #derives)]
                        #[serde(untagged)]
                        pub enum #n { #( #items, )* }
                        #convert
                        #display
                    }
                }
            }
            Kind::Newtype(inner, limits) => {
                let t = self.ident(&self.entries[inner], &None);
                let ie = &self.entries[inner];
                let limited = *limits != Limits::default();
                let display = self.has_impl(ie, TypeSpaceImpl::Display).then(|| {
                    quote! {
                        impl ::std::fmt::Display for #n {
                            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
                        }
                    }
                });
                let strings = quote! {
                    impl ::std::convert::TryFrom<&str> for #n {
                        type Error = self::error::ConversionError;
                        fn try_from(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                    }
                    impl ::std::convert::TryFrom<&::std::string::String> for #n {
                        type Error = self::error::ConversionError;
                        fn try_from(value: &::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                    }
                    impl ::std::convert::TryFrom<::std::string::String> for #n {
                        type Error = self::error::ConversionError;
                        fn try_from(value: ::std::string::String) -> ::std::result::Result<Self, self::error::ConversionError> { value.parse() }
                    }
                };
                if limited {
                    let min = limits.min.map(|m| {
                        let m = m as usize;
                        quote! { if value.chars().count() < #m { return Err("too short".into()); } }
                    });
                    let max = limits.max.map(|m| {
                        let m = m as usize;
                        quote! { if value.chars().count() > #m { return Err("too long".into()); } }
                    });
                    let pattern = limits.pattern.as_ref().map(|p| {
                        quote! {
                            if ::regress::Regex::new(#p).unwrap().find(value).is_none() {
                                return Err("does not match the pattern".into());
                            }
                        }
                    });
                    quote! {
                        #doc
                        #[derive(::serde::Serialize, Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd #derives)]
                        #[serde(transparent)]
                        pub struct #n(#t);
                        #convert
                        impl ::std::ops::Deref for #n { type Target = #t; fn deref(&self) -> &#t { &self.0 } }
                        impl ::std::convert::From<#n> for #t { fn from(value: #n) -> Self { value.0 } }
                        impl ::std::str::FromStr for #n {
                            type Err = self::error::ConversionError;
                            fn from_str(value: &str) -> ::std::result::Result<Self, self::error::ConversionError> {
                                #min #max #pattern
                                Ok(Self(value.to_string()))
                            }
                        }
                        #strings
                        #display
                        impl<'de> ::serde::Deserialize<'de> for #n {
                            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
                            where D: ::serde::Deserializer<'de> {
                                ::std::string::String::deserialize(deserializer)?.parse()
                                    .map_err(|e: self::error::ConversionError| <D::Error as ::serde::de::Error>::custom(e.to_string()))
                            }
                        }
                    }
                } else {
                    let from_str = if ie.kind == Kind::String {
                        Some(quote! {
                            impl ::std::str::FromStr for #n {
                                type Err = ::std::convert::Infallible;
                                fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> { Ok(Self(value.to_string())) }
                            }
                        })
                    } else if self.has_impl(ie, TypeSpaceImpl::FromStr) {
                        Some(quote! {
                            impl ::std::str::FromStr for #n {
                                type Err = <#t as ::std::str::FromStr>::Err;
                                fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> { Ok(Self(value.parse()?)) }
                            }
                            impl ::std::convert::TryFrom<&str> for #n {
                                type Error = <#t as ::std::str::FromStr>::Err;
                                fn try_from(value: &str) -> ::std::result::Result<Self, Self::Error> { value.parse() }
                            }
                            impl ::std::convert::TryFrom<::std::string::String> for #n {
                                type Error = <#t as ::std::str::FromStr>::Err;
                                fn try_from(value: ::std::string::String) -> ::std::result::Result<Self, Self::Error> { value.parse() }
                            }
                        })
                    } else {
                        None
                    };
                    quote! {
                        #doc
                        #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug #derives)]
                        #[serde(transparent)]
                        pub struct #n(pub #t);
                        #convert
                        impl ::std::ops::Deref for #n { type Target = #t; fn deref(&self) -> &#t { &self.0 } }
                        impl ::std::convert::From<#n> for #t { fn from(value: #n) -> Self { value.0 } }
                        impl ::std::convert::From<#t> for #n { fn from(value: #t) -> Self { Self(value) } }
                        #from_str
                        #display
                    }
                }
            }
            _ => quote! {},
        }
    }

    fn builder_item(&self, name: &str, props: &[Prop]) -> TokenStream {
        let n = format_ident!("{name}");
        let sup = Some(quote! { super:: });
        let idents = props
            .iter()
            .map(|p| format_ident!("{}", p.ident))
            .collect::<Vec<_>>();
        let types = props
            .iter()
            .map(|p| self.ident(&self.entries[&p.typ], &sup))
            .collect::<Vec<_>>();
        let inits = props.iter().map(|p| {
            if p.defaulted {
                quote! { Ok(::std::default::Default::default()) }
            } else {
                let e = format!("no value supplied for {}", p.ident);
                quote! { Err(#e.to_string()) }
            }
        });
        let errs = props
            .iter()
            .map(|p| format!("error converting supplied value for {}: {{}}", p.ident));
        quote! {
            #[derive(Clone, Debug)]
            pub struct #n { #( #idents: ::std::result::Result<#types, ::std::string::String>, )* }
            impl ::std::default::Default for #n {
                fn default() -> Self { Self { #( #idents: #inits, )* } }
            }
            impl #n {
                #(
                    pub fn #idents<T>(mut self, value: T) -> Self
                    where T: ::std::convert::TryInto<#types>, T::Error: ::std::fmt::Display,
                    {
                        self.#idents = value.try_into().map_err(|e| format!(#errs, e));
                        self
                    }
                )*
            }
            impl ::std::convert::TryFrom<#n> for super::#n {
                type Error = super::error::ConversionError;
                #[allow(unused_variables)]
                fn try_from(value: #n) -> ::std::result::Result<Self, super::error::ConversionError> {
                    Ok(Self { #( #idents: value.#idents?, )* })
                }
            }
            impl ::std::convert::From<super::#n> for #n {
                #[allow(unused_variables)]
                fn from(value: super::#n) -> Self {
                    Self { #( #idents: Ok(value.#idents), )* }
                }
            }
        }
    }
}
