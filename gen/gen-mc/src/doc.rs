//! Documents, and what the generator makes of them.
use crate::api::Api;
use mc_core::*;
use openapiv3::OpenAPI;
use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};

pub fn doc(paths: Value, components: Value) -> Value {
    json!({
        "openapi": "3.0.3",
        "info": {"title": "t", "version": "1.2.3"},
        "paths": paths,
        "components": components,
    })
}

/// One operation on one path.
pub fn one(path: &str, method: &str, op: Value) -> Value {
    doc(json!({path: {method: op}}), json!({}))
}

pub fn parse(doc: &Value) -> OpenAPI {
    serde_json::from_value(doc.clone()).unwrap_or_else(|e| panic!("document of the check is malformed: {e}: {doc}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Positional,
    Builder,
    Tagged,
}
pub const STYLES: [Style; 3] = [Style::Positional, Style::Builder, Style::Tagged];

pub fn settings(style: Style) -> GenerationSettings {
    let mut s = GenerationSettings::new();
    match style {
        Style::Positional => {}
        Style::Builder => {
            s.with_interface(InterfaceStyle::Builder);
        }
        Style::Tagged => {
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
        }
    }
    s
}

/// What came out of one generation.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Gen {
    Code(String),
    Refused(String),
    Panicked(String),
}

impl Gen {
    pub fn class(&self) -> &'static str {
        match self {
            Gen::Code(_) => "accepted",
            Gen::Refused(_) => "refused",
            Gen::Panicked(_) => "panicked",
        }
    }
    pub fn code(&self) -> Result<&str, String> {
        match self {
            Gen::Code(c) => Ok(c),
            Gen::Refused(e) => Err(format!("the document was refused: {e}")),
            Gen::Panicked(e) => Err(format!("the generator panicked: {e}")),
        }
    }
    pub fn api(&self) -> Result<Api, String> {
        let f: syn::File =
            syn::parse_str(self.code()?).map_err(|e| format!("the generated code does not parse: {e}"))?;
        Ok(Api::of(&f))
    }
}

pub fn generate_with(s: &GenerationSettings, spec: &OpenAPI) -> Gen {
    match quietly(|| Generator::new(s).generate_tokens(spec)) {
        Ok(Ok(t)) => Gen::Code(t.to_string()),
        Ok(Err(e)) => Gen::Refused(e.to_string()),
        Err(p) => Gen::Panicked(p),
    }
}

/// The mock of a client found at `path`.
pub fn generate_mock(s: &GenerationSettings, spec: &OpenAPI, path: &str) -> Gen {
    match quietly(|| Generator::new(s).httpmock(spec, path)) {
        Ok(Ok(t)) => Gen::Code(t.to_string()),
        Ok(Err(e)) => Gen::Refused(e.to_string()),
        Err(p) => Gen::Panicked(p),
    }
}

/// The command line of a client found at `path`.
pub fn generate_cli(s: &GenerationSettings, spec: &OpenAPI, path: &str) -> Gen {
    match quietly(|| Generator::new(s).cli(spec, path)) {
        Ok(Ok(t)) => Gen::Code(t.to_string()),
        Ok(Err(e)) => Gen::Refused(e.to_string()),
        Err(p) => Gen::Panicked(p),
    }
}

pub fn generate(style: Style, spec: &OpenAPI) -> Gen {
    generate_with(&settings(style), spec)
}

/// Name of the function of an operation.
pub fn method_name(id: &str) -> String {
    use heck::ToSnakeCase;
    id.to_snake_case()
}
