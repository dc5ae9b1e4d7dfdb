//! Stand-in for openapiv3 2.0: the same public data model and the same JSON
//! syntax for documents. Only what an OpenAPI 3.0 document can contain is
//! modelled; nothing in here interprets a document.

use indexmap::IndexMap;
use serde::{Deserialize, Deserializer};
use serde_json::Value;

mod schema;
pub use schema::*;

pub type Extensions = IndexMap<String, Value>;
pub type SecurityRequirement = IndexMap<String, Vec<String>>;
pub type Content = IndexMap<String, MediaType>;
pub type Examples = IndexMap<String, ReferenceOr<Example>>;
pub type Callback = IndexMap<String, PathItem>;

pub(crate) fn ext<'de, D: Deserializer<'de>>(d: D) -> Result<Extensions, D::Error> {
    let mut all = Extensions::deserialize(d)?;
    all.retain(|k, _| k.starts_with("x-"));
    Ok(all)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ReferenceOr<T> {
    Reference { reference: String },
    Item(T),
}

impl<'de, T: serde::de::DeserializeOwned> Deserialize<'de> for ReferenceOr<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        struct Ref {
            #[serde(rename = "$ref")]
            reference: String,
        }
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum Either<T> {
            Reference(Ref),
            Item(T),
        }
        Ok(match Either::<T>::deserialize(d)? {
            Either::Reference(r) => ReferenceOr::Reference {
                reference: r.reference,
            },
            Either::Item(t) => ReferenceOr::Item(t),
        })
    }
}

impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference {
            reference: r.to_owned(),
        }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_ref_str(&self) -> Option<&str> {
        match self {
            ReferenceOr::Reference { reference } => Some(reference),
            ReferenceOr::Item(_) => None,
        }
    }
    pub fn to_item_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference {
                reference: reference.clone(),
            },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}

impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(b) => ReferenceOr::Item(*b),
        }
    }
}

impl<T: Default> Default for ReferenceOr<T> {
    fn default() -> Self {
        ReferenceOr::Item(T::default())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum VariantOrUnknown<T> {
    Item(T),
    Unknown(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    Empty,
}

impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn is_empty(&self) -> bool {
        matches!(self, Self::Empty)
    }
}

impl<T> Default for VariantOrUnknownOrEmpty<T> {
    fn default() -> Self {
        Self::Empty
    }
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct OpenAPI {
    pub openapi: String,
    pub info: Info,
    #[serde(default)]
    pub servers: Vec<Server>,
    pub paths: Paths,
    pub components: Option<Components>,
    pub security: Option<Vec<SecurityRequirement>>,
    #[serde(default)]
    pub tags: Vec<Tag>,
    #[serde(rename = "externalDocs")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

impl OpenAPI {
    pub fn operations(&self) -> impl Iterator<Item = (&str, &str, &Operation, &PathItem)> {
        self.paths
            .iter()
            .filter_map(|(path, item)| item.as_item().map(|i| (path, i)))
            .flat_map(|(path, item)| item.iter().map(move |(m, o)| (path.as_str(), m, o, item)))
    }
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Info {
    pub title: String,
    pub description: Option<String>,
    pub terms_of_service: Option<String>,
    pub contact: Option<Contact>,
    pub license: Option<License>,
    pub version: String,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct Contact {
    pub name: Option<String>,
    pub url: Option<String>,
    pub email: Option<String>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct License {
    pub name: String,
    pub url: Option<String>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct Server {
    pub url: String,
    pub description: Option<String>,
    pub variables: Option<IndexMap<String, ServerVariable>>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct ServerVariable {
    #[serde(default, rename = "enum")]
    pub enumeration: Vec<String>,
    pub default: String,
    pub description: Option<String>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct Tag {
    pub name: String,
    pub description: Option<String>,
    #[serde(rename = "externalDocs")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct ExternalDocumentation {
    pub description: Option<String>,
    pub url: String,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Paths {
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    pub extensions: Extensions,
}

impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}

impl<'a> IntoIterator for &'a Paths {
    type Item = (&'a String, &'a ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::Iter<'a, String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.iter()
    }
}

impl IntoIterator for Paths {
    type Item = (String, ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::IntoIter<String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.into_iter()
    }
}

// Keys that start with a slash are paths, keys that start with `x-` are
// extensions, and others are ignored.
impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Paths;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("paths")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Paths, A::Error> {
                let mut out = Paths::default();
                while let Some(k) = m.next_key::<String>()? {
                    if k.starts_with('/') {
                        let v = m.next_value()?;
                        if out.paths.insert(k, v).is_some() {
                            return Err(serde::de::Error::custom("duplicate path"));
                        }
                    } else if k.starts_with("x-") {
                        let v = m.next_value()?;
                        out.extensions.insert(k, v);
                    } else {
                        m.next_value::<serde::de::IgnoredAny>()?;
                    }
                }
                Ok(out)
            }
        }
        d.deserialize_map(V)
    }
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct PathItem {
    pub summary: Option<String>,
    pub description: Option<String>,
    pub get: Option<Operation>,
    pub put: Option<Operation>,
    pub post: Option<Operation>,
    pub delete: Option<Operation>,
    pub options: Option<Operation>,
    pub head: Option<Operation>,
    pub patch: Option<Operation>,
    pub trace: Option<Operation>,
    #[serde(default)]
    pub servers: Vec<Server>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &'_ Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(m, o)| o.as_ref().map(|o| (m, o)))
    }
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Operation {
    #[serde(default)]
    pub tags: Vec<String>,
    pub summary: Option<String>,
    pub description: Option<String>,
    pub external_docs: Option<ExternalDocumentation>,
    pub operation_id: Option<String>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    pub request_body: Option<ReferenceOr<RequestBody>>,
    #[serde(default)]
    pub responses: Responses,
    #[serde(default)]
    pub callbacks: IndexMap<String, Callback>,
    #[serde(default)]
    pub deprecated: bool,
    pub security: Option<Vec<SecurityRequirement>>,
    #[serde(default)]
    pub servers: Vec<Server>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    pub extensions: Extensions,
}

impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Responses;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("responses")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(
                self,
                mut m: A,
            ) -> Result<Responses, A::Error> {
                let mut out = Responses::default();
                while let Some(k) = m.next_key::<String>()? {
                    if k == "default" {
                        out.default = Some(m.next_value()?);
                    } else if let Some(code) = StatusCode::parse(&k) {
                        let v = m.next_value()?;
                        if out.responses.insert(code, v).is_some() {
                            return Err(serde::de::Error::custom("duplicate status code"));
                        }
                    } else if k.starts_with("x-") {
                        let v = m.next_value()?;
                        out.extensions.insert(k, v);
                    } else {
                        m.next_value::<serde::de::IgnoredAny>()?;
                    }
                }
                Ok(out)
            }
        }
        d.deserialize_map(V)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}

impl StatusCode {
    fn parse(s: &str) -> Option<Self> {
        if s.len() != 3 || !s.is_ascii() {
            return None;
        }
        if let Ok(n) = s.parse::<u16>() {
            return (100..1000).contains(&n).then_some(StatusCode::Code(n));
        }
        let b = s.to_ascii_uppercase().into_bytes();
        (b[1] == b'X' && b[2] == b'X' && (b'1'..=b'5').contains(&b[0]))
            .then(|| StatusCode::Range((b[0] - b'0') as u16))
    }
}

impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            StatusCode::Code(n) => write!(f, "{n}"),
            StatusCode::Range(n) => write!(f, "{n}XX"),
        }
    }
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct Response {
    #[serde(default)]
    pub description: String,
    #[serde(default)]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    #[serde(default)]
    pub content: Content,
    #[serde(default)]
    pub links: IndexMap<String, ReferenceOr<Link>>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
pub struct ParameterData {
    pub name: String,
    pub description: Option<String>,
    #[serde(default)]
    pub required: bool,
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: Examples,
    pub explode: Option<bool>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(Content),
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
#[serde(tag = "in", rename_all = "camelCase")]
pub enum Parameter {
    Query {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(rename = "allowReserved", default)]
        allow_reserved: bool,
        #[serde(default)]
        style: QueryStyle,
        #[serde(rename = "allowEmptyValue")]
        allow_empty_value: Option<bool>,
    },
    Header {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: HeaderStyle,
    },
    Path {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: PathStyle,
    },
    Cookie {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: CookieStyle,
    },
}

impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum PathStyle {
    Matrix,
    Label,
    #[default]
    Simple,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum QueryStyle {
    #[default]
    Form,
    SpaceDelimited,
    PipeDelimited,
    DeepObject,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum HeaderStyle {
    #[default]
    Simple,
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub enum CookieStyle {
    #[default]
    Form,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct RequestBody {
    pub description: Option<String>,
    #[serde(default)]
    pub content: Content,
    #[serde(default)]
    pub required: bool,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
pub struct MediaType {
    pub schema: Option<ReferenceOr<Schema>>,
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: Examples,
    #[serde(default)]
    pub encoding: IndexMap<String, Encoding>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Encoding {
    pub content_type: Option<String>,
    #[serde(default)]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    pub style: Option<QueryStyle>,
    #[serde(default)]
    pub explode: bool,
    #[serde(default)]
    pub allow_reserved: bool,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
pub struct Header {
    pub description: Option<String>,
    #[serde(default)]
    pub style: HeaderStyle,
    #[serde(default)]
    pub required: bool,
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: Examples,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Example {
    pub summary: Option<String>,
    pub description: Option<String>,
    pub value: Option<Value>,
    pub external_value: Option<String>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Link {
    pub description: Option<String>,
    pub operation_id: Option<String>,
    pub operation_ref: Option<String>,
    pub request_body: Option<Value>,
    #[serde(default)]
    pub parameters: IndexMap<String, Value>,
    pub server: Option<Server>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Components {
    #[serde(default)]
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    #[serde(default)]
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    #[serde(default)]
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    #[serde(default)]
    pub examples: IndexMap<String, ReferenceOr<Example>>,
    #[serde(default)]
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    #[serde(default)]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    #[serde(default)]
    pub security_schemes: IndexMap<String, Value>,
    #[serde(default)]
    pub links: IndexMap<String, ReferenceOr<Link>>,
    #[serde(default)]
    pub callbacks: IndexMap<String, ReferenceOr<Callback>>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}
