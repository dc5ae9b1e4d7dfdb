use crate::{ext, Extensions, ExternalDocumentation, ReferenceOr, VariantOrUnknownOrEmpty};
use indexmap::IndexMap;
use serde::{Deserialize, Deserializer};
use serde_json::Value;

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SchemaData {
    #[serde(default)]
    pub nullable: bool,
    #[serde(default)]
    pub read_only: bool,
    #[serde(default)]
    pub write_only: bool,
    #[serde(default)]
    pub deprecated: bool,
    pub external_docs: Option<ExternalDocumentation>,
    pub example: Option<Value>,
    pub title: Option<String>,
    pub description: Option<String>,
    pub discriminator: Option<Discriminator>,
    pub default: Option<Value>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Discriminator {
    pub property_name: String,
    #[serde(default)]
    pub mapping: IndexMap<String, String>,
    #[serde(flatten, deserialize_with = "ext")]
    pub extensions: Extensions,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Schema {
    pub schema_data: SchemaData,
    pub schema_kind: SchemaKind,
}

impl<'de> Deserialize<'de> for Schema {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        struct Both {
            #[serde(flatten)]
            schema_data: SchemaData,
            #[serde(flatten)]
            any: AnySchema,
        }
        let Both { schema_data, any } = Both::deserialize(d)?;
        Ok(Schema {
            schema_data,
            schema_kind: any.into_kind(),
        })
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}

#[derive(Debug, Clone, PartialEq, Deserialize)]
#[serde(untagged)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}

/// Every property a schema can have.
#[derive(Debug, Clone, Default, PartialEq, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct AnySchema {
    #[serde(rename = "type")]
    pub typ: Option<String>,
    pub pattern: Option<String>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: Option<bool>,
    pub exclusive_maximum: Option<bool>,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    #[serde(default)]
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    #[serde(default)]
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: Option<bool>,
    #[serde(rename = "enum", default)]
    pub enumeration: Vec<Value>,
    pub format: Option<String>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
    #[serde(default)]
    pub one_of: Vec<ReferenceOr<Schema>>,
    #[serde(default)]
    pub all_of: Vec<ReferenceOr<Schema>>,
    #[serde(default)]
    pub any_of: Vec<ReferenceOr<Schema>>,
    pub not: Option<Box<ReferenceOr<Schema>>>,
}

fn all<T>(vs: &[Value], f: impl Fn(&Value) -> Option<T>) -> Option<Vec<Option<T>>> {
    vs.iter()
        .map(|v| match v {
            Value::Null => Some(None),
            v => f(v).map(Some),
        })
        .collect()
}

fn format<T>(
    f: &Option<String>,
    known: impl Fn(&str) -> Option<T>,
) -> VariantOrUnknownOrEmpty<T> {
    match f {
        None => VariantOrUnknownOrEmpty::Empty,
        Some(s) => match known(s) {
            Some(t) => VariantOrUnknownOrEmpty::Item(t),
            None => VariantOrUnknownOrEmpty::Unknown(s.clone()),
        },
    }
}

fn int(v: Option<f64>) -> Option<Option<i64>> {
    match v {
        None => Some(None),
        Some(f) if f.fract() == 0.0 && f.abs() < 9e18 => Some(Some(f as i64)),
        Some(_) => None,
    }
}

impl AnySchema {
    /// A schema that only uses the properties of one kind is of that kind;
    /// any other is `Any`.
    fn into_kind(self) -> SchemaKind {
        // What is left of a schema after taking away the properties of a kind.
        let rest_is_empty = |strip: &dyn Fn(&mut AnySchema)| {
            let mut rest = self.clone();
            strip(&mut rest);
            rest == AnySchema::default()
        };
        let typed = match self.typ.as_deref() {
            Some("string") => rest_is_empty(&|s| {
                s.typ = None;
                s.format = None;
                s.pattern = None;
                s.enumeration.clear();
                s.min_length = None;
                s.max_length = None;
            })
            .then(|| {
                Some(Type::String(StringType {
                    format: format(&self.format, |s| {
                        Some(match s {
                            "date" => StringFormat::Date,
                            "date-time" => StringFormat::DateTime,
                            "password" => StringFormat::Password,
                            "byte" => StringFormat::Byte,
                            "binary" => StringFormat::Binary,
                            _ => return None,
                        })
                    }),
                    pattern: self.pattern.clone(),
                    enumeration: all(&self.enumeration, |v| v.as_str().map(str::to_string))?,
                    min_length: self.min_length,
                    max_length: self.max_length,
                }))
            })
            .flatten(),
            Some("number") => rest_is_empty(&|s| {
                s.typ = None;
                s.format = None;
                s.multiple_of = None;
                s.exclusive_minimum = None;
                s.exclusive_maximum = None;
                s.minimum = None;
                s.maximum = None;
                s.enumeration.clear();
            })
            .then(|| {
                Some(Type::Number(NumberType {
                    format: format(&self.format, |s| {
                        Some(match s {
                            "float" => NumberFormat::Float,
                            "double" => NumberFormat::Double,
                            _ => return None,
                        })
                    }),
                    multiple_of: self.multiple_of,
                    exclusive_minimum: self.exclusive_minimum.unwrap_or(false),
                    exclusive_maximum: self.exclusive_maximum.unwrap_or(false),
                    minimum: self.minimum,
                    maximum: self.maximum,
                    enumeration: all(&self.enumeration, Value::as_f64)?,
                }))
            })
            .flatten(),
            Some("integer") => rest_is_empty(&|s| {
                s.typ = None;
                s.format = None;
                s.multiple_of = None;
                s.exclusive_minimum = None;
                s.exclusive_maximum = None;
                s.minimum = None;
                s.maximum = None;
                s.enumeration.clear();
            })
            .then(|| {
                Some(Type::Integer(IntegerType {
                    format: format(&self.format, |s| {
                        Some(match s {
                            "int32" => IntegerFormat::Int32,
                            "int64" => IntegerFormat::Int64,
                            _ => return None,
                        })
                    }),
                    multiple_of: int(self.multiple_of)?,
                    exclusive_minimum: self.exclusive_minimum.unwrap_or(false),
                    exclusive_maximum: self.exclusive_maximum.unwrap_or(false),
                    minimum: int(self.minimum)?,
                    maximum: int(self.maximum)?,
                    enumeration: all(&self.enumeration, Value::as_i64)?,
                }))
            })
            .flatten(),
            Some("object") => rest_is_empty(&|s| {
                s.typ = None;
                s.properties.clear();
                s.required.clear();
                s.additional_properties = None;
                s.min_properties = None;
                s.max_properties = None;
            })
            .then(|| {
                Type::Object(ObjectType {
                    properties: self.properties.clone(),
                    required: self.required.clone(),
                    additional_properties: self.additional_properties.clone(),
                    min_properties: self.min_properties,
                    max_properties: self.max_properties,
                })
            }),
            Some("array") => rest_is_empty(&|s| {
                s.typ = None;
                s.items = None;
                s.min_items = None;
                s.max_items = None;
                s.unique_items = None;
            })
            .then(|| {
                Type::Array(ArrayType {
                    items: self.items.clone(),
                    min_items: self.min_items,
                    max_items: self.max_items,
                    unique_items: self.unique_items.unwrap_or(false),
                })
            }),
            Some("boolean") => rest_is_empty(&|s| {
                s.typ = None;
                s.enumeration.clear();
            })
            .then(|| {
                Some(Type::Boolean(BooleanType {
                    enumeration: all(&self.enumeration, Value::as_bool)?,
                }))
            })
            .flatten(),
            _ => None,
        };
        if let Some(t) = typed {
            return SchemaKind::Type(t);
        }
        if !self.one_of.is_empty() && rest_is_empty(&|s| s.one_of.clear()) {
            return SchemaKind::OneOf {
                one_of: self.one_of,
            };
        }
        if !self.all_of.is_empty() && rest_is_empty(&|s| s.all_of.clear()) {
            return SchemaKind::AllOf {
                all_of: self.all_of,
            };
        }
        if !self.any_of.is_empty() && rest_is_empty(&|s| s.any_of.clear()) {
            return SchemaKind::AnyOf {
                any_of: self.any_of,
            };
        }
        if self.not.is_some() && rest_is_empty(&|s| s.not = None) {
            return SchemaKind::Not {
                not: self.not.unwrap(),
            };
        }
        SchemaKind::Any(self)
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct StringType {
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    pub pattern: Option<String>,
    pub enumeration: Vec<Option<String>>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct NumberType {
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub enumeration: Vec<Option<f64>>,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct IntegerType {
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    pub multiple_of: Option<i64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<i64>,
    pub maximum: Option<i64>,
    pub enumeration: Vec<Option<i64>>,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct ObjectType {
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct ArrayType {
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: bool,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct BooleanType {
    pub enumeration: Vec<Option<bool>>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum NumberFormat {
    Float,
    Double,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum IntegerFormat {
    Int32,
    Int64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}
