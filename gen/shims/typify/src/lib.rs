//! Small stand-in for typify: the interface progenitor uses, over the schema
//! subset the checks use. It decides the Rust type of a schema, emits those
//! types, and keeps a record of the schemas it was given (`TypeSpace::record`)
//! and of the settings it was created with (`TYPIFY_SETTINGS` in the emitted
//! code), so that a check can see what reached type generation.

use std::collections::{BTreeMap, BTreeSet};

use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use schemars::schema::{InstanceType, Schema, SchemaObject, SingleOrVec};
use serde::Deserialize;
use serde_json::Value;

mod emit;
mod name;
use name::{field_ident, pascal};

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("unexpected value type")]
    BadValue(String, Value),
    #[error("invalid TypeId")]
    InvalidTypeId,
    #[error("value does not conform to the given schema")]
    InvalidValue,
    #[error("invalid schema for {}: {reason}", .type_name.as_deref().unwrap_or("<unknown type>"))]
    InvalidSchema {
        type_name: Option<String>,
        reason: String,
    },
}
pub type Result<T> = std::result::Result<T, Error>;

fn invalid<T>(type_name: Option<&str>, reason: impl ToString) -> Result<T> {
    Err(Error::InvalidSchema {
        type_name: type_name.map(str::to_string),
        reason: reason.to_string(),
    })
}

// ---------------------------------------------------------------------------
// settings

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Deserialize)]
pub enum UnknownPolicy {
    #[default]
    Generate,
    Allow,
    Deny,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum CrateVers {
    Version(String),
    Any,
    Never,
}

impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        match s {
            "!" => Some(Self::Never),
            "*" => Some(Self::Any),
            s => {
                let (core, _) = s.split_once(['-', '+']).unwrap_or((s, ""));
                let parts: Vec<_> = core.split('.').collect();
                (parts.len() == 3
                    && parts.iter().all(|p| {
                        !p.is_empty()
                            && p.chars().all(|c| c.is_ascii_digit())
                            && (p.len() == 1 || !p.starts_with('0'))
                    }))
                .then(|| Self::Version(s.to_string()))
            }
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[non_exhaustive]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}

impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, String> {
        match s {
            "FromStr" => Ok(Self::FromStr),
            "Display" => Ok(Self::Display),
            "Default" => Ok(Self::Default),
            _ => Err(format!("{s} is not a valid trait specifier")),
        }
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct TypeSpacePatch {
    rename: Option<String>,
    derives: Vec<String>,
}

impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, new_name: S) -> &mut Self {
        self.rename = Some(new_name.to_string());
        self
    }
    pub fn with_derive<S: ToString>(&mut self, derive: S) -> &mut Self {
        self.derives.push(derive.to_string());
        self
    }
}

#[derive(Debug, Clone, Default)]
pub struct TypeSpaceSettings {
    type_mod: Option<String>,
    struct_builder: bool,
    derives: Vec<String>,
    unknown_crates: UnknownPolicy,
    crates: BTreeMap<String, (CrateVers, Option<String>)>,
    patch: BTreeMap<String, TypeSpacePatch>,
    replace: BTreeMap<String, (String, Vec<TypeSpaceImpl>)>,
    convert: Vec<(SchemaObject, String, Vec<TypeSpaceImpl>)>,
    map_type: Option<String>,
}

/// The order in which traits are named does not matter.
fn sorted(impls: impl Iterator<Item = TypeSpaceImpl>) -> Vec<TypeSpaceImpl> {
    impls.collect::<BTreeSet<_>>().into_iter().collect()
}

impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, m: S) -> &mut Self {
        self.type_mod = Some(m.as_ref().to_string());
        self
    }
    pub fn with_struct_builder(&mut self, b: bool) -> &mut Self {
        self.struct_builder = b;
        self
    }
    pub fn with_derive(&mut self, derive: String) -> &mut Self {
        if !self.derives.contains(&derive) {
            self.derives.push(derive);
        }
        self
    }
    pub fn with_unknown_crates(&mut self, policy: UnknownPolicy) -> &mut Self {
        self.unknown_crates = policy;
        self
    }
    pub fn with_crate<S: ToString>(
        &mut self,
        crate_name: S,
        version: CrateVers,
        rename: Option<&String>,
    ) -> &mut Self {
        self.crates
            .insert(crate_name.to_string(), (version, rename.cloned()));
        self
    }
    pub fn with_patch<S: ToString>(&mut self, name: S, patch: &TypeSpacePatch) -> &mut Self {
        self.patch.insert(name.to_string(), patch.clone());
        self
    }
    pub fn with_replacement<TS: ToString, RS: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        name: TS,
        replacement: RS,
        impls: I,
    ) -> &mut Self {
        self.replace.insert(
            name.to_string(),
            (replacement.to_string(), sorted(impls)),
        );
        self
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        schema: SchemaObject,
        name: S,
        impls: I,
    ) -> &mut Self {
        self.convert
            .push((schema, name.to_string(), sorted(impls)));
        self
    }
    pub fn with_map_type<T: ToString>(&mut self, t: T) -> &mut Self {
        self.map_type = Some(t.to_string());
        self
    }
}

// ---------------------------------------------------------------------------
// types

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TypeId(u64);

#[derive(Debug, Clone, PartialEq)]
struct Prop {
    name: String,
    ident: String,
    required: bool,
    /// Absent values are filled in with the type's default.
    defaulted: bool,
    description: Option<String>,
    typ: TypeId,
}

#[derive(Debug, Clone, PartialEq)]
enum Variant {
    Simple(String, String),
    Item(String, TypeId),
}

#[derive(Debug, Clone, Default, PartialEq)]
struct Limits {
    min: Option<u32>,
    max: Option<u32>,
    pattern: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    /// A reference whose definition has not been converted yet.
    Pending,
    Struct(Vec<Prop>, bool),
    Enum(Vec<Variant>),
    Newtype(TypeId, Limits),
    /// A type named by the settings or by an extension.
    Native(String, Vec<TypeSpaceImpl>),
    Builtin(&'static str),
    String,
    Unit,
    Value,
    Option(TypeId),
    Vec(TypeId),
    Set(TypeId),
    Array(TypeId, usize),
    Map(TypeId, TypeId),
}

#[derive(Debug, Clone, PartialEq)]
struct Entry {
    name: Option<String>,
    description: Option<String>,
    derives: Vec<String>,
    kind: Kind,
}

/// A schema that reached type generation.
#[derive(Debug, Clone, PartialEq)]
pub struct Record {
    pub name: Option<String>,
    pub definition: bool,
    pub schema: Schema,
}

#[derive(Debug, Default)]
pub struct TypeSpace {
    settings: TypeSpaceSettings,
    entries: BTreeMap<TypeId, Entry>,
    refs: BTreeMap<String, TypeId>,
    names: BTreeMap<String, TypeId>,
    next: u64,
    record: Vec<Record>,
}

impl TypeSpace {
    pub fn new(settings: &TypeSpaceSettings) -> Self {
        TypeSpace {
            settings: settings.clone(),
            next: 1,
            ..Default::default()
        }
    }

    /// The schemas that reached type generation, in order.
    pub fn record(&self) -> &[Record] {
        &self.record
    }

    pub fn add_ref_types<I, S>(&mut self, defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        let defs = defs
            .into_iter()
            .map(|(n, s)| (n.as_ref().to_string(), s))
            .collect::<Vec<_>>();
        for (name, schema) in &defs {
            self.record.push(Record {
                name: Some(name.clone()),
                definition: true,
                schema: schema.clone(),
            });
            if !self.refs.contains_key(name) {
                let id = self.alloc(Entry {
                    name: None,
                    description: None,
                    derives: vec![],
                    kind: Kind::Pending,
                });
                self.refs.insert(name.clone(), id);
            }
        }
        for (name, schema) in &defs {
            let id = self.refs[name].clone();
            if self.entries[&id].kind != Kind::Pending {
                continue;
            }
            if let Some((with, impls)) = self.settings.replace.get(&pascal(name)).cloned() {
                self.put(&id, None, None, Kind::Native(with, impls));
                continue;
            }
            let type_name = self.unique(&pascal(name));
            let (kind, description) = self.kind(Some(&type_name), schema)?;
            match kind {
                Kind::Struct(..) | Kind::Enum(..) => {
                    self.put(&id, Some(type_name), description, kind)
                }
                Kind::Native(..) => self.put(&id, None, None, kind),
                Kind::Newtype(..) => self.put(&id, Some(type_name), description, kind),
                kind => {
                    let inner = self.intern(kind);
                    self.put(
                        &id,
                        Some(type_name),
                        description,
                        Kind::Newtype(inner, Limits::default()),
                    )
                }
            }
        }
        Ok(())
    }

    pub fn add_type_with_name(&mut self, schema: &Schema, name: Option<String>) -> Result<TypeId> {
        self.record.push(Record {
            name: name.clone(),
            definition: false,
            schema: schema.clone(),
        });
        self.id(name.as_deref(), schema)
    }

    pub fn add_type(&mut self, schema: &Schema) -> Result<TypeId> {
        self.add_type_with_name(schema, None)
    }

    pub fn get_type(&self, id: &TypeId) -> Result<Type<'_>> {
        let entry = self.entries.get(id).ok_or(Error::InvalidTypeId)?;
        Ok(Type { space: self, entry })
    }

    pub fn iter_types(&self) -> impl Iterator<Item = Type<'_>> {
        self.entries.values().map(move |entry| Type {
            space: self,
            entry,
        })
    }

    pub fn uses_chrono(&self) -> bool {
        self.uses("::chrono::")
    }
    pub fn uses_uuid(&self) -> bool {
        self.uses("::uuid::")
    }
    pub fn uses_serde_json(&self) -> bool {
        self.entries.values().any(|e| e.kind == Kind::Value)
    }
    pub fn uses_regress(&self) -> bool {
        self.entries.values().any(|e| {
            matches!(&e.kind, Kind::Newtype(_, Limits { pattern: Some(_), .. }))
        })
    }

    fn uses(&self, prefix: &str) -> bool {
        self.entries
            .values()
            .any(|e| matches!(&e.kind, Kind::Builtin(s) if s.starts_with(prefix)))
    }

    // -----------------------------------------------------------------------

    fn alloc(&mut self, entry: Entry) -> TypeId {
        let id = TypeId(self.next);
        self.next += 1;
        self.entries.insert(id.clone(), entry);
        id
    }

    fn put(&mut self, id: &TypeId, name: Option<String>, description: Option<String>, kind: Kind) {
        let (name, derives) = self.patched(name);
        if let Some(name) = &name {
            self.names.insert(name.clone(), id.clone());
        }
        self.entries.insert(
            id.clone(),
            Entry {
                name,
                description,
                derives,
                kind,
            },
        );
    }

    fn patched(&self, name: Option<String>) -> (Option<String>, Vec<String>) {
        match name {
            None => (None, vec![]),
            Some(name) => match self.settings.patch.get(&name) {
                None => (Some(name), vec![]),
                Some(p) => (
                    Some(p.rename.clone().unwrap_or(name)),
                    p.derives.clone(),
                ),
            },
        }
    }

    fn unique(&self, name: &str) -> String {
        let mut name = name.to_string();
        while self.names.contains_key(&name) {
            name.push('X');
        }
        name
    }

    fn intern(&mut self, kind: Kind) -> TypeId {
        if let Some((id, _)) = self
            .entries
            .iter()
            .find(|(_, e)| e.name.is_none() && e.kind == kind)
        {
            return id.clone();
        }
        self.alloc(Entry {
            name: None,
            description: None,
            derives: vec![],
            kind,
        })
    }

    /// The type of a schema at a place where `name` may be used if the type
    /// has to have one.
    fn id(&mut self, name: Option<&str>, schema: &Schema) -> Result<TypeId> {
        if let Schema::Object(SchemaObject {
            reference: Some(r), ..
        }) = schema
        {
            let key = r.rsplit('/').next().unwrap_or(r);
            return match self.refs.get(key) {
                Some(id) => Ok(id.clone()),
                None => invalid(name, format!("unresolved reference {r}")),
            };
        }
        // An all-of of one schema stands for it.
        if let Schema::Object(SchemaObject {
            instance_type: None,
            enum_values: None,
            subschemas: Some(sub),
            ..
        }) = schema
        {
            if let Some([one]) = sub.all_of.as_deref() {
                return self.id(name, one);
            }
        }
        // A title is preferred to the name suggested by the place.
        let title = match schema {
            Schema::Object(SchemaObject { metadata: Some(m), .. }) => m.title.as_deref(),
            _ => None,
        };
        let wanted = title.or(name).map(pascal);
        let (kind, description) = self.kind(wanted.as_deref(), schema)?;
        match kind {
            // A single all-of of a reference stands for it.
            Kind::Struct(..) | Kind::Enum(..) | Kind::Newtype(..) => {
                let Some(wanted) = wanted else {
                    return invalid(None, "type without a name");
                };
                let (patched, derives) = self.patched(Some(wanted));
                let entry = Entry {
                    name: patched.clone(),
                    description,
                    derives,
                    kind,
                };
                let wanted = patched.unwrap();
                if let Some(id) = self.names.get(&wanted) {
                    assert_eq!(self.entries[id], entry, "two types named {wanted}");
                    return Ok(id.clone());
                }
                let id = self.alloc(entry);
                self.names.insert(wanted, id.clone());
                Ok(id)
            }
            kind => Ok(self.intern(kind)),
        }
    }

    fn option(&mut self, kind: Kind, name: Option<&str>, description: &Option<String>) -> Result<Kind> {
        if let Kind::Option(_) = kind {
            return Ok(kind);
        }
        let id = self.named(kind, name, description)?;
        Ok(Kind::Option(id))
    }

    fn named(&mut self, kind: Kind, name: Option<&str>, description: &Option<String>) -> Result<TypeId> {
        match &kind {
            Kind::Struct(..) | Kind::Enum(..) | Kind::Newtype(..) => {
                let Some(name) = name else {
                    return invalid(None, "type without a name");
                };
                let (patched, derives) = self.patched(Some(name.to_string()));
                let name = patched.clone().unwrap();
                let entry = Entry {
                    name: patched,
                    description: description.clone(),
                    derives,
                    kind,
                };
                if let Some(id) = self.names.get(&name) {
                    if self.entries[id] == entry {
                        return Ok(id.clone());
                    }
                }
                let id = self.alloc(entry);
                self.names.insert(name, id.clone());
                Ok(id)
            }
            _ => Ok(self.intern(kind)),
        }
    }

    fn kind(&mut self, name: Option<&str>, schema: &Schema) -> Result<(Kind, Option<String>)> {
        let so = match schema {
            Schema::Bool(true) => return Ok((Kind::Value, None)),
            Schema::Bool(false) => return invalid(name, "schema that nothing satisfies"),
            Schema::Object(so) => so,
        };
        let description = so.metadata.as_ref().and_then(|m| m.description.clone());

        if let Some(rust) = so.extensions.get("x-rust-type") {
            if let Some(kind) = self.rust_type(name, rust)? {
                return Ok((kind, None));
            }
        }

        // A conversion named by the settings.
        {
            let bare = SchemaObject {
                metadata: None,
                extensions: Default::default(),
                ..so.clone()
            };
            if let Some((_, t, impls)) = self.settings.convert.iter().find(|(s, _, _)| *s == bare) {
                return Ok((Kind::Native(t.clone(), impls.clone()), None));
            }
        }

        if let Some(r) = &so.reference {
            let key = r.rsplit('/').next().unwrap_or(r);
            let Some(id) = self.refs.get(key).cloned() else {
                return invalid(name, format!("unresolved reference {r}"));
            };
            return Ok((Kind::Newtype(id, Limits::default()), description));
        }

        // Subschemas.
        if let Some(sub) = &so.subschemas {
            if so.instance_type.is_some() || so.enum_values.is_some() {
                // Only the shape matters to the checks that look at it.
            } else if let Some(all) = &sub.all_of {
                if let [one] = &all[..] {
                    let id = self.id(name, one)?;
                    let entry = self.entries[&id].clone();
                    if entry.name.is_some() {
                        return Ok((Kind::Newtype(id, Limits::default()), description));
                    }
                    return Ok((entry.kind, description));
                }
                // Every conjunct that is an object with properties.
                let mut merged = SchemaObject::default();
                merged.instance_type = Some(InstanceType::Object.into());
                for s in all {
                    let s = self.deref(s);
                    if let Schema::Object(SchemaObject {
                        object: Some(o), ..
                    }) = s
                    {
                        merged.object().properties.extend(o.properties.clone());
                        merged.object().required.extend(o.required.clone());
                    }
                }
                return Ok((self.kind(name, &merged.into())?.0, description));
            } else if let Some(any) = sub.one_of.as_ref().or(sub.any_of.as_ref()) {
                // Null and one other.
                let is_null = |s: &Schema| {
                    matches!(s, Schema::Object(o)
                        if o.instance_type == Some(InstanceType::Null.into()))
                };
                let rest: Vec<_> = any.iter().filter(|s| !is_null(s)).collect();
                if rest.len() < any.len() {
                    let kind = if let [one] = rest[..] {
                        let id = self.id(name, one)?;
                        return Ok((Kind::Option(id), description));
                    } else {
                        self.alternatives(name, &rest)?
                    };
                    return Ok((self.option(kind, name, &description)?, description));
                }
                return Ok((self.alternatives(name, &rest)?, description));
            } else {
                return Ok((Kind::Value, description));
            }
        }

        let (types, nullable) = match &so.instance_type {
            None => {
                let strings = so
                    .enum_values
                    .as_ref()
                    .map_or(false, |v| v.iter().all(Value::is_string));
                if strings {
                    (vec![InstanceType::String], false)
                } else if so.object.is_some() {
                    (vec![InstanceType::Object], false)
                } else {
                    return Ok((Kind::Value, description));
                }
            }
            Some(SingleOrVec::Single(t)) => (vec![**t], false),
            Some(SingleOrVec::Vec(ts)) => (
                ts.iter()
                    .filter(|t| **t != InstanceType::Null)
                    .copied()
                    .collect(),
                ts.contains(&InstanceType::Null),
            ),
        };
        let kind = match types[..] {
            _ if so.enum_values.as_deref() == Some(&[Value::Null]) => Kind::Unit,
            [t] => self.simple(name, t, so)?,
            _ => Kind::Value,
        };
        let null_value = so
            .enum_values
            .as_ref()
            .map_or(false, |v| v.contains(&Value::Null));
        if nullable || (null_value && kind != Kind::Unit) {
            return Ok((self.option(kind, name, &description)?, description));
        }
        Ok((kind, description))
    }

    fn deref(&self, s: &Schema) -> Schema {
        if let Schema::Object(SchemaObject {
            reference: Some(r), ..
        }) = s
        {
            let key = r.rsplit('/').next().unwrap_or(r);
            if let Some(rec) = self
                .record
                .iter()
                .find(|rec| rec.definition && rec.name.as_deref() == Some(key))
            {
                return self.deref(&rec.schema);
            }
        }
        s.clone()
    }

    fn rust_type(&mut self, name: Option<&str>, ext: &Value) -> Result<Option<Kind>> {
        #[derive(Deserialize)]
        struct Ext {
            #[serde(rename = "crate")]
            crate_name: String,
            version: String,
            path: String,
        }
        let Ok(ext) = serde_json::from_value::<Ext>(ext.clone()) else {
            return Ok(None);
        };
        let native = |rename: &Option<String>| {
            let path = match (rename, ext.path.split_once("::")) {
                (Some(r), Some((_, rest))) => format!("{}::{}", r.replace('-', "_"), rest),
                _ => ext.path.clone(),
            };
            Some(Kind::Native(format!("::{path}"), vec![]))
        };
        Ok(match self.settings.crates.get(&ext.crate_name) {
            Some((CrateVers::Never, _)) => None,
            Some((CrateVers::Any, rename)) => native(rename),
            Some((CrateVers::Version(v), rename)) => {
                let major = |s: &str| {
                    s.trim_start_matches('^')
                        .split('.')
                        .next()
                        .unwrap_or("")
                        .to_string()
                };
                if major(v) == major(&ext.version) {
                    native(rename)
                } else {
                    None
                }
            }
            None => match self.settings.unknown_crates {
                UnknownPolicy::Generate => None,
                UnknownPolicy::Allow => native(&None),
                UnknownPolicy::Deny => {
                    return invalid(
                        name,
                        format!("type from crate {} which is not allowed", ext.crate_name),
                    )
                }
            },
        })
    }

    fn alternatives(&mut self, name: Option<&str>, of: &[&Schema]) -> Result<Kind> {
        // Alternatives that are enumerations of strings are one enumeration.
        let mut strings = Vec::new();
        for s in of {
            match s {
                Schema::Object(SchemaObject {
                    instance_type,
                    enum_values: Some(v),
                    format: None,
                    subschemas: None,
                    ..
                }) if *instance_type == Some(InstanceType::String.into())
                    && v.iter().all(Value::is_string) =>
                {
                    strings.extend(v.clone())
                }
                _ => {
                    strings.clear();
                    break;
                }
            }
        }
        if !strings.is_empty() {
            let all = SchemaObject {
                instance_type: Some(InstanceType::String.into()),
                enum_values: Some(strings),
                ..Default::default()
            };
            return Ok(self.kind(name, &all.into())?.0);
        }
        let mut out = Vec::new();
        for (i, s) in of.iter().enumerate() {
            let variant = match s {
                Schema::Object(SchemaObject {
                    metadata: Some(m), ..
                }) => m.title.as_deref().map(pascal),
                _ => None,
            }
            .unwrap_or_else(|| match of[i] {
                Schema::Object(SchemaObject {
                    reference: Some(r), ..
                }) => pascal(r.rsplit('/').next().unwrap_or(r)),
                _ => format!("Variant{i}"),
            });
            let id = self.id(
                Some(&format!("{}{}", name.unwrap_or(""), variant)),
                s,
            )?;
            out.push(Variant::Item(variant, id));
        }
        let idents: BTreeSet<_> = out
            .iter()
            .map(|v| match v {
                Variant::Item(n, _) | Variant::Simple(n, _) => n.clone(),
            })
            .collect();
        if idents.len() < out.len() {
            for (i, v) in out.iter_mut().enumerate() {
                if let Variant::Item(n, _) = v {
                    *n = format!("Variant{i}");
                }
            }
        }
        Ok(Kind::Enum(out))
    }

    fn simple(&mut self, name: Option<&str>, t: InstanceType, so: &SchemaObject) -> Result<Kind> {
        let format = so.format.as_deref();
        Ok(match t {
            InstanceType::Null => Kind::Unit,
            InstanceType::Boolean => Kind::Builtin("bool"),
            InstanceType::Number => Kind::Builtin(match format {
                Some("float") => "f32",
                _ => "f64",
            }),
            InstanceType::Integer => {
                let min = so.number.as_ref().and_then(|n| n.minimum);
                let nonzero = min == Some(1.0);
                Kind::Builtin(match (format, nonzero) {
                    (Some("int8"), _) => "i8",
                    (Some("int16"), _) => "i16",
                    (Some("int32"), _) => "i32",
                    (Some("uint8"), true) => "::std::num::NonZeroU8",
                    (Some("uint8"), false) => "u8",
                    (Some("uint16"), true) => "::std::num::NonZeroU16",
                    (Some("uint16"), false) => "u16",
                    (Some("uint32" | "uint"), true) => "::std::num::NonZeroU32",
                    (Some("uint32" | "uint"), false) => "u32",
                    (Some("uint64"), true) => "::std::num::NonZeroU64",
                    (Some("uint64"), false) => "u64",
                    (_, true) => "::std::num::NonZeroU64",
                    (Some("int64"), _) => "i64",
                    (_, false) if min.map_or(false, |m| m >= 0.0) => "u64",
                    _ => "i64",
                })
            }
            InstanceType::String => {
                if let Some(values) = &so.enum_values {
                    let mut out = Vec::new();
                    for v in values.iter().filter_map(Value::as_str) {
                        out.push(Variant::Simple(pascal(v), v.to_string()));
                    }
                    return Ok(Kind::Enum(out));
                }
                match format {
                    Some("uuid") => return Ok(Kind::Builtin("::uuid::Uuid")),
                    Some("date") => return Ok(Kind::Builtin("::chrono::naive::NaiveDate")),
                    Some("date-time") => {
                        return Ok(Kind::Builtin("::chrono::DateTime<::chrono::offset::Utc>"))
                    }
                    Some("ip") => return Ok(Kind::Builtin("::std::net::IpAddr")),
                    Some("ipv4") => return Ok(Kind::Builtin("::std::net::Ipv4Addr")),
                    Some("ipv6") => return Ok(Kind::Builtin("::std::net::Ipv6Addr")),
                    _ => (),
                }
                match &so.string {
                    None => Kind::String,
                    Some(s) => {
                        let inner = self.intern(Kind::String);
                        Kind::Newtype(
                            inner,
                            Limits {
                                min: s.min_length,
                                max: s.max_length,
                                pattern: s.pattern.clone(),
                            },
                        )
                    }
                }
            }
            InstanceType::Array => {
                let array = so.array.clone().unwrap_or_default();
                let item_name = name.map(|n| format!("{n}Item"));
                let item = match array.items {
                    Some(SingleOrVec::Single(s)) => self.id(item_name.as_deref(), &s)?,
                    _ => self.intern(Kind::Value),
                };
                match (array.min_items, array.max_items) {
                    (Some(a), Some(b)) if a == b => Kind::Array(item, a as usize),
                    _ if array.unique_items == Some(true) => Kind::Set(item),
                    _ => Kind::Vec(item),
                }
            }
            InstanceType::Object => {
                let object = so.object.clone().unwrap_or_default();
                if object.properties.is_empty() {
                    return Ok(match object.additional_properties.as_deref() {
                        Some(Schema::Bool(false)) => Kind::Struct(vec![], true),
                        Some(s) => {
                            let value_name = name.map(|n| format!("{n}Value"));
                            let v = self.id(value_name.as_deref(), s)?;
                            let k = self.intern(Kind::String);
                            Kind::Map(k, v)
                        }
                        None => {
                            let v = self.intern(Kind::Value);
                            let k = self.intern(Kind::String);
                            Kind::Map(k, v)
                        }
                    });
                }
                let mut props = Vec::new();
                let mut idents = BTreeSet::new();
                let mut properties = object.properties.clone();
                for r in &object.required {
                    properties.entry(r.clone()).or_insert(Schema::Bool(true));
                }
                for (pname, s) in &properties {
                    let required = object.required.contains(pname);
                    let tname = name.map(|n| format!("{n}{}", pascal(pname)));
                    let id = self.id(tname.as_deref(), s)?;
                    let mut ident = field_ident(pname);
                    while !idents.insert(ident.clone()) {
                        ident.push('_');
                    }
                    let pdesc = match s {
                        Schema::Object(so) => {
                            so.metadata.as_ref().and_then(|m| m.description.clone())
                        }
                        _ => None,
                    };
                    // An absent value is an empty collection, or nothing.
                    let (id, defaulted) = if required {
                        (id, false)
                    } else {
                        match &self.entries[&id].kind {
                            Kind::Option(_) | Kind::Vec(_) | Kind::Map(..) => (id, true),
                            _ => (self.intern(Kind::Option(id)), true),
                        }
                    };
                    props.push(Prop {
                        name: pname.clone(),
                        ident,
                        required,
                        defaulted,
                        description: pdesc,
                        typ: id,
                    });
                }
                Kind::Struct(
                    props,
                    matches!(
                        object.additional_properties.as_deref(),
                        Some(Schema::Bool(false))
                    ),
                )
            }
        })
    }
}

// ---------------------------------------------------------------------------
// what a caller sees of a type

pub struct Type<'a> {
    space: &'a TypeSpace,
    entry: &'a Entry,
}

#[non_exhaustive]
pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeNewtype<'a>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId, TypeId),
    Set(TypeId),
    Box(TypeId),
    Tuple(Box<dyn Iterator<Item = TypeId> + 'a>),
    Array(TypeId, usize),
    Builtin(&'a str),
    Unit,
    String,
}

pub struct TypeEnum<'a> {
    variants: &'a [Variant],
}
pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}
pub struct TypeStruct<'a> {
    props: &'a [Prop],
}
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}
pub struct TypeNewtype<'a> {
    inner: &'a TypeId,
}

impl<'a> TypeEnum<'a> {
    pub fn variants(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        self.variants.iter().map(|v| match v {
            Variant::Simple(n, _) => (n.as_str(), TypeEnumVariant::Simple),
            Variant::Item(n, id) => (n.as_str(), TypeEnumVariant::Tuple(vec![id.clone()])),
        })
    }
}

impl<'a> TypeStruct<'a> {
    pub fn properties(&'a self) -> impl Iterator<Item = (&'a str, TypeId)> {
        self.props.iter().map(|p| (p.ident.as_str(), p.typ.clone()))
    }
    pub fn properties_info(&'a self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        self.props.iter().map(|p| TypeStructPropInfo {
            name: p.ident.as_str(),
            description: p.description.as_deref(),
            required: p.required,
            type_id: p.typ.clone(),
        })
    }
}

impl<'a> TypeNewtype<'a> {
    pub fn subtype(&self) -> TypeId {
        self.inner.clone()
    }
    pub fn inner(&self) -> TypeId {
        self.inner.clone()
    }
}

impl<'a> Type<'a> {
    fn m(&self) -> Option<TokenStream> {
        self.space.settings.type_mod.as_ref().map(|m| {
            let m = format_ident!("{m}");
            quote! { #m :: }
        })
    }

    pub fn ident(&self) -> TokenStream {
        self.space.ident(self.entry, &self.m())
    }

    pub fn parameter_ident(&self) -> TokenStream {
        self.space.parameter(self.entry, &self.m(), None)
    }

    pub fn parameter_ident_with_lifetime(&self, lifetime: &str) -> TokenStream {
        self.space.parameter(self.entry, &self.m(), Some(lifetime))
    }

    pub fn name(&self) -> String {
        match &self.entry.name {
            Some(n) => n.clone(),
            None => self.space.ident(self.entry, &None).to_string(),
        }
    }

    pub fn details(&self) -> TypeDetails<'a> {
        match &self.entry.kind {
            Kind::Pending => panic!("type not converted"),
            Kind::Struct(props, _) => TypeDetails::Struct(TypeStruct { props }),
            Kind::Enum(variants) => TypeDetails::Enum(TypeEnum { variants }),
            Kind::Newtype(inner, _) => TypeDetails::Newtype(TypeNewtype { inner }),
            Kind::Native(n, _) => TypeDetails::Builtin(n),
            Kind::Builtin(n) => TypeDetails::Builtin(n),
            Kind::Value => TypeDetails::Builtin("::serde_json::Value"),
            Kind::String => TypeDetails::String,
            Kind::Unit => TypeDetails::Unit,
            Kind::Option(id) => TypeDetails::Option(id.clone()),
            Kind::Vec(id) => TypeDetails::Vec(id.clone()),
            Kind::Set(id) => TypeDetails::Set(id.clone()),
            Kind::Array(id, n) => TypeDetails::Array(id.clone(), *n),
            Kind::Map(k, v) => TypeDetails::Map(k.clone(), v.clone()),
        }
    }

    pub fn builder(&self) -> Option<TokenStream> {
        if !self.space.settings.struct_builder {
            return None;
        }
        match &self.entry.kind {
            Kind::Struct(..) => {
                let name = format_ident!("{}", self.entry.name.as_ref()?);
                let m = self.m();
                Some(quote! { #m builder :: #name })
            }
            _ => None,
        }
    }

    pub fn has_impl(&self, i: TypeSpaceImpl) -> bool {
        self.space.has_impl(self.entry, i)
    }

    pub fn describe(&self) -> String {
        match &self.entry.kind {
            Kind::Struct(..) => format!("struct {}", self.name()),
            Kind::Enum(..) => format!("enum {}", self.name()),
            Kind::Newtype(..) => format!("newtype {}", self.name()),
            _ => self.name(),
        }
    }
}

impl TypeSpace {
    fn ident(&self, e: &Entry, m: &Option<TokenStream>) -> TokenStream {
        let id = |id: &TypeId| self.ident(&self.entries[id], m);
        match &e.kind {
            Kind::Pending => panic!("type not converted"),
            Kind::Struct(..) | Kind::Enum(..) | Kind::Newtype(..) => {
                let n = format_ident!("{}", e.name.as_ref().expect("type without a name"));
                quote! { #m #n }
            }
            Kind::Native(n, _) => syn::parse_str::<syn::Type>(n)
                .map(|t| quote! { #t })
                .unwrap(),
            Kind::Builtin(n) => n.parse().unwrap(),
            Kind::Value => quote! { ::serde_json::Value },
            Kind::String => quote! { ::std::string::String },
            Kind::Unit => quote! { () },
            Kind::Option(i) => {
                let i = id(i);
                quote! { ::std::option::Option<#i> }
            }
            Kind::Vec(i) | Kind::Set(i) => {
                let i = id(i);
                quote! { ::std::vec::Vec<#i> }
            }
            Kind::Array(i, n) => {
                let i = id(i);
                quote! { [#i; #n] }
            }
            Kind::Map(k, v) => {
                let value = self.entries[v].kind == Kind::Value;
                let (k, v) = (id(k), id(v));
                match &self.settings.map_type {
                    None if value => quote! { ::serde_json::Map<#k, #v> },
                    None => quote! { ::std::collections::HashMap<#k, #v> },
                    Some(t) => {
                        let t = syn::parse_str::<syn::Type>(t).unwrap();
                        quote! { #t<#k, #v> }
                    }
                }
            }
        }
    }

    fn parameter(&self, e: &Entry, m: &Option<TokenStream>, lt: Option<&str>) -> TokenStream {
        let life = lt.map(|l| syn::Lifetime::new(&format!("'{l}"), proc_macro2::Span::call_site()));
        match &e.kind {
            Kind::String => quote! { & #life str },
            Kind::Option(i) => {
                let i = self.parameter(&self.entries[i], m, lt);
                quote! { Option<#i> }
            }
            Kind::Enum(vs) if vs.iter().all(|v| matches!(v, Variant::Simple(..))) => {
                self.ident(e, m)
            }
            Kind::Builtin(n)
                if !n.starts_with("::uuid") && !n.starts_with("::chrono") =>
            {
                self.ident(e, m)
            }
            Kind::Unit => self.ident(e, m),
            _ => {
                let i = self.ident(e, m);
                quote! { & #life #i }
            }
        }
    }

    fn has_impl(&self, e: &Entry, i: TypeSpaceImpl) -> bool {
        match &e.kind {
            Kind::String | Kind::Builtin(_) => true,
            Kind::Enum(vs) => vs.iter().all(|v| matches!(v, Variant::Simple(..))),
            Kind::Newtype(id, _) => self.has_impl(&self.entries[id], i),
            Kind::Native(_, impls) => impls.contains(&i),
            _ => false,
        }
    }
}
