//! G12: the schema handed to type generation means what the OpenAPI schema
//! means. Both are evaluated, by two independent evaluators, on every instance
//! of an alphabet; annotations are compared as multisets.
use crate::doc::*;
use mc_core::*;
use progenitor_impl::Generator;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Three-valued: None where OpenAPI 3.0 leaves the meaning open.
type Tri = Option<bool>;
fn and(a: Tri, b: Tri) -> Tri {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn type_ok(t: &str, v: &Value) -> bool {
    match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "string" => v.is_string(),
        "number" => v.is_number(),
        "integer" => v.is_number() && v.as_f64().unwrap().fract() == 0.0,
        "array" => v.is_array(),
        "object" => v.is_object(),
        _ => false,
    }
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => {
            let int = |n: &serde_json::Number| {
                n.as_i64().map(i128::from).or(n.as_u64().map(i128::from)).or(n.as_f64().filter(|f| f.fract() == 0.0 && f.abs() < 1e30).map(|f| f as i128))
            };
            match (int(a), int(b)) {
                (None, None) => a.as_f64() == b.as_f64(),
                (a, b) => a == b,
            }
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| same(v, w)))
        }
        _ => a == b,
    }
}
fn num(s: &Value, k: &str) -> Option<f64> {
    s.get(k).and_then(Value::as_f64)
}

/// The keywords both dialects share, except types and subschemas.
fn scalars_ok(s: &Value, v: &Value) -> bool {
    if let Some(e) = s.get("enum").and_then(Value::as_array) {
        if !e.iter().any(|e| same(e, v)) {
            return false;
        }
    }
    if let Some(x) = v.as_f64() {
        if let Some(m) = num(s, "multipleOf") {
            if (x / m).fract() != 0.0 {
                return false;
            }
        }
    }
    if let Some(t) = v.as_str() {
        let n = t.chars().count() as f64;
        if num(s, "minLength").map_or(false, |m| n < m) || num(s, "maxLength").map_or(false, |m| n > m) {
            return false;
        }
        if let Some(p) = s.get("pattern").and_then(Value::as_str) {
            if !regex::Regex::new(p).unwrap().is_match(t) {
                return false;
            }
        }
    }
    if let Some(a) = v.as_array() {
        let n = a.len() as f64;
        if num(s, "minItems").map_or(false, |m| n < m) || num(s, "maxItems").map_or(false, |m| n > m) {
            return false;
        }
        if s.get("uniqueItems") == Some(&json!(true))
            && a.iter().enumerate().any(|(i, x)| a[..i].iter().any(|y| same(x, y)))
        {
            return false;
        }
    }
    if let Some(o) = v.as_object() {
        let n = o.len() as f64;
        if num(s, "minProperties").map_or(false, |m| n < m) || num(s, "maxProperties").map_or(false, |m| n > m) {
            return false;
        }
        if let Some(r) = s.get("required").and_then(Value::as_array) {
            if !r.iter().all(|k| o.contains_key(k.as_str().unwrap())) {
                return false;
            }
        }
    }
    true
}

const OBJECT_KEYS: &[&str] = &["properties", "required", "additionalProperties", "minProperties", "maxProperties"];
const ARRAY_KEYS: &[&str] = &["items", "minItems", "maxItems", "uniqueItems"];
const NUMBER_KEYS: &[&str] = &["multipleOf", "minimum", "maximum"];
const STRING_KEYS: &[&str] = &["minLength", "maxLength", "pattern"];
const COMBINE_KEYS: &[&str] = &["oneOf", "anyOf", "allOf", "not"];

fn has(s: &Value, ks: &[&str]) -> bool {
    ks.iter().any(|k| s.get(k).is_some())
}

/// OpenAPI 3.0 semantics.
fn oa(s: &Value, v: &Value, defs: &BTreeMap<String, Value>) -> Tri {
    if let Some(r) = s.get("$ref").and_then(Value::as_str) {
        return oa(&defs[r.rsplit('/').next().unwrap()], v, defs);
    }
    let nullable = s.get("nullable") == Some(&json!(true));
    match s.get("type").and_then(Value::as_str) {
        Some(t) => {
            if !(type_ok(t, v) || nullable && v.is_null()) {
                return Some(false);
            }
        }
        None if nullable => {
            // The types its keywords apply to, or null.
            let groups = [("object", OBJECT_KEYS), ("array", ARRAY_KEYS), ("number", NUMBER_KEYS), ("string", STRING_KEYS)];
            let implied: Vec<_> = groups.iter().filter(|(_, ks)| has(s, ks)).map(|(t, _)| *t).collect();
            if v.is_null() {
                if has(s, &["enum"]) || !implied.is_empty() && has(s, COMBINE_KEYS) {
                    return None;
                }
                return Some(true);
            }
            if !implied.is_empty() && !implied.iter().any(|t| type_ok(t, v)) {
                return Some(false);
            }
        }
        None => {}
    }
    let mut r = Some(scalars_ok(s, v));
    if let Some(x) = v.as_f64() {
        let ex = |k: &str| s.get(k) == Some(&json!(true));
        if let Some(m) = num(s, "minimum") {
            r = and(r, Some(if ex("exclusiveMinimum") { x > m } else { x >= m }));
        }
        if let Some(m) = num(s, "maximum") {
            r = and(r, Some(if ex("exclusiveMaximum") { x < m } else { x <= m }));
        }
    }
    if let (Some(a), Some(i)) = (v.as_array(), s.get("items")) {
        for x in a {
            r = and(r, oa(i, x, defs));
        }
    }
    if let Some(o) = v.as_object() {
        let empty = serde_json::Map::new();
        let props = s.get("properties").and_then(Value::as_object).unwrap_or(&empty);
        for (k, x) in o {
            if let Some(p) = props.get(k) {
                r = and(r, oa(p, x, defs));
            } else {
                match s.get("additionalProperties") {
                    Some(Value::Bool(b)) => r = and(r, Some(*b)),
                    Some(p) => r = and(r, oa(p, x, defs)),
                    None => {}
                }
            }
        }
    }
    combine(s, v, r, &|s, v| oa(s, v, defs))
}

fn combine(s: &Value, v: &Value, mut r: Tri, eval: &dyn Fn(&Value, &Value) -> Tri) -> Tri {
    let list = |k: &str| s.get(k).and_then(Value::as_array).cloned();
    if let Some(l) = list("allOf") {
        for x in &l {
            r = and(r, eval(x, v));
        }
    }
    if let Some(l) = list("anyOf") {
        let rs: Vec<_> = l.iter().map(|x| eval(x, v)).collect();
        r = and(
            r,
            if rs.contains(&Some(true)) {
                Some(true)
            } else if rs.contains(&None) {
                None
            } else {
                Some(false)
            },
        );
    }
    if let Some(l) = list("oneOf") {
        let rs: Vec<_> = l.iter().map(|x| eval(x, v)).collect();
        let n = rs.iter().filter(|r| **r == Some(true)).count();
        r = and(
            r,
            if n > 1 {
                Some(false)
            } else if rs.contains(&None) {
                None
            } else {
                Some(n == 1)
            },
        );
    }
    if let Some(x) = s.get("not") {
        r = and(r, eval(x, v).map(|b| !b));
    }
    r
}

/// JSON Schema (draft 7) semantics.
fn js(s: &Value, v: &Value, defs: &BTreeMap<String, Value>) -> bool {
    if let Value::Bool(b) = s {
        return *b;
    }
    if let Some(r) = s.get("$ref").and_then(Value::as_str) {
        return js(&defs[r.rsplit('/').next().unwrap()], v, defs);
    }
    match s.get("type") {
        Some(Value::String(t)) if !type_ok(t, v) => return false,
        Some(Value::Array(ts)) if !ts.iter().any(|t| type_ok(t.as_str().unwrap(), v)) => return false,
        _ => {}
    }
    if s.get("const").map_or(false, |c| !same(c, v)) || !scalars_ok(s, v) {
        return false;
    }
    if let Some(x) = v.as_f64() {
        if num(s, "minimum").map_or(false, |m| x < m)
            || num(s, "maximum").map_or(false, |m| x > m)
            || num(s, "exclusiveMinimum").map_or(false, |m| x <= m)
            || num(s, "exclusiveMaximum").map_or(false, |m| x >= m)
        {
            return false;
        }
    }
    if let Some(a) = v.as_array() {
        match s.get("items") {
            Some(Value::Array(is)) => {
                for (i, x) in a.iter().enumerate() {
                    let i = is.get(i).or(s.get("additionalItems"));
                    if i.map_or(false, |i| !js(i, x, defs)) {
                        return false;
                    }
                }
            }
            Some(i) if !a.iter().all(|x| js(i, x, defs)) => return false,
            _ => {}
        }
        if s.get("contains").map_or(false, |c| !a.iter().any(|x| js(c, x, defs))) {
            return false;
        }
    }
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            if s.get("propertyNames").map_or(false, |p| !js(p, &json!(k), defs)) {
                return false;
            }
            let mut seen = false;
            if let Some(p) = s.get("properties").and_then(|p| p.get(k)) {
                seen = true;
                if !js(p, x, defs) {
                    return false;
                }
            }
            for (pat, p) in s.get("patternProperties").and_then(Value::as_object).into_iter().flatten() {
                if regex::Regex::new(pat).unwrap().is_match(k) {
                    seen = true;
                    if !js(p, x, defs) {
                        return false;
                    }
                }
            }
            if !seen && s.get("additionalProperties").map_or(false, |p| !js(p, x, defs)) {
                return false;
            }
        }
    }
    if let Some(c) = s.get("if") {
        let branch = s.get(if js(c, v, defs) { "then" } else { "else" });
        if branch.map_or(false, |b| !js(b, v, defs)) {
            return false;
        }
    }
    combine(s, v, Some(true), &|s, v| Some(js(s, v, defs))).unwrap()
}

fn subschemas<'a>(s: &'a Value) -> Vec<&'a Value> {
    let mut out = Vec::new();
    for k in ["items", "additionalProperties", "not"] {
        if let Some(x) = s.get(k) {
            if x.is_object() {
                out.push(x)
            }
        }
    }
    for k in ["oneOf", "anyOf", "allOf"] {
        out.extend(s.get(k).and_then(Value::as_array).into_iter().flatten());
    }
    out.extend(s.get("properties").and_then(Value::as_object).into_iter().flat_map(|m| m.values()));
    out
}

/// What a schema says besides which values it accepts.
fn notes(s: &Value, openapi: bool, out: &mut Vec<String>) {
    if let Some(r) = s.get("$ref") {
        out.push(format!("$ref {r}"));
        return;
    }
    for k in ["title", "description", "default", "format"] {
        if let Some(x) = s.get(k) {
            out.push(format!("{k} {x}"));
        }
    }
    for k in ["deprecated", "readOnly", "writeOnly"] {
        if s.get(k) == Some(&json!(true)) {
            out.push(k.to_string());
        }
    }
    if openapi {
        if let Some(x) = s.get("example") {
            out.push(format!("example {x}"));
        }
    } else {
        for x in s.get("examples").and_then(Value::as_array).into_iter().flatten() {
            out.push(format!("example {x}"));
        }
    }
    for (k, x) in s.as_object().into_iter().flatten() {
        if k.starts_with("x-") {
            out.push(format!("{k} {x}"));
        }
    }
    for x in subschemas(s) {
        notes(x, openapi, out);
    }
}

fn instances() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(2), json!(3), json!(-1), json!(1.5),
        json!(0.5), json!(9007199254740992i64), json!(9007199254740993i64), json!(i64::MIN), json!(i64::MAX), json!(-1.5), json!(""), json!("a"), json!("b"), json!("ab"), json!("abc"),
        json!("\u{e9}"), json!([]), json!([1]), json!([1, 1]), json!([1, 2]), json!([1, 2, 3]), json!(["a"]),
        json!([null]), json!([[1]]), json!([{}]), json!({}), json!({"a": 1}), json!({"a": "a"}), json!({"a": null}),
        json!({"b": 1}), json!({"b": "a"}), json!({"a": 1, "b": 1}), json!({"a": "a", "b": "b"}),
        json!({"a": 1, "b": 1, "c": 1}), json!({"a": {}}), json!({"a": {"a": 1}}), json!({"a": [1]}),
        json!({"kind": "a"}),
    ]
}

fn merge(parts: &[&Value]) -> Value {
    let mut o = serde_json::Map::new();
    for p in parts {
        for (k, v) in p.as_object().unwrap() {
            o.insert(k.clone(), v.clone());
        }
    }
    Value::Object(o)
}

/// Subsets of up to n keyword settings that do not set the same keyword.
fn subsets(ks: &[Value], n: usize) -> Vec<Value> {
    let mut out = vec![json!({})];
    let mut level = vec![(json!({}), 0)];
    for _ in 0..n {
        let mut next = Vec::new();
        for (s, from) in &level {
            for (i, k) in ks.iter().enumerate().skip(*from) {
                let clash = k.as_object().unwrap().keys().any(|k| s.get(k).is_some());
                if !clash {
                    let m = merge(&[s, k]);
                    out.push(m.clone());
                    next.push((m, i + 1));
                }
            }
        }
        level = next;
    }
    out
}

fn keywords(t: &str) -> Vec<Value> {
    match t {
        "string" => vec![
            json!({"minLength": 0}), json!({"minLength": 1}), json!({"minLength": 2}), json!({"maxLength": 0}), json!({"maxLength": 2}),
            json!({"maxLength": 4294967296u64}), json!({"pattern": "^a"}), json!({"pattern": "b"}),
            json!({"enum": ["a", "ab"]}), json!({"enum": ["a", null]}), json!({"enum": ["", "b"]}),
            json!({"format": "uuid"}), json!({"format": "date"}), json!({"format": "date-time"}), json!({"format": "binary"}),
            json!({"format": "byte"}), json!({"format": "password"}), json!({"format": "X-Mixed_Case 1"}),
        ],
        "number" => vec![
            json!({"minimum": 1.0}), json!({"minimum": 0.5, "exclusiveMinimum": true}), json!({"minimum": 1, "exclusiveMinimum": false}),
            json!({"maximum": 1.5}), json!({"maximum": 2, "exclusiveMaximum": true}), json!({"maximum": 2.0, "exclusiveMaximum": false}),
            json!({"multipleOf": 0.5}), json!({"multipleOf": 1.5}), json!({"enum": [1.5, 2.0]}), json!({"enum": [1.5, null]}),
            json!({"format": "float"}), json!({"format": "double"}), json!({"format": "other"}), json!({"format": "Decimal-128"}),
            json!({"minimum": 0, "exclusiveMinimum": true}), json!({"minimum": -1.5}), json!({"maximum": 0, "exclusiveMaximum": true}), json!({"maximum": 0}),
        ],
        "integer" => vec![
            json!({"minimum": 0}), json!({"minimum": 1}), json!({"minimum": 1, "exclusiveMinimum": true}), json!({"minimum": -1, "exclusiveMinimum": false}),
            json!({"maximum": 2}), json!({"maximum": 2, "exclusiveMaximum": true}), json!({"maximum": 9007199254740991i64}),
            json!({"multipleOf": 2}), json!({"multipleOf": 3}), json!({"enum": [1, 3]}), json!({"enum": [null, 2]}),
            json!({"format": "int32"}), json!({"format": "int64"}), json!({"format": "uint8"}), json!({"format": "UInt16"}),
            json!({"minimum": 0, "exclusiveMinimum": true}), json!({"maximum": 0, "exclusiveMaximum": true}), json!({"maximum": 0}),
            json!({"enum": [9007199254740993i64]}), json!({"enum": [0, i64::MIN, i64::MAX]}),
        ],
        "boolean" => vec![json!({"enum": [true]}), json!({"enum": [false]}), json!({"enum": [true, null]})],
        "array" => vec![
            json!({"minItems": 0}), json!({"minItems": 1}), json!({"minItems": 2}), json!({"maxItems": 0}), json!({"maxItems": 2}), json!({"maxItems": 4294967297u64}),
            json!({"uniqueItems": true}), json!({"uniqueItems": false}), json!({"items": {}}), json!({"items": {"type": "integer"}}),
            json!({"items": {"type": "string", "nullable": true}}), json!({"items": {"$ref": "#/components/schemas/Base"}}),
        ],
        "object" => vec![
            json!({"minProperties": 0}), json!({"minProperties": 1}), json!({"minProperties": 2}), json!({"maxProperties": 0}), json!({"maxProperties": 1}),
            json!({"maxProperties": 4294967296u64}), json!({"required": ["a"]}), json!({"required": ["a", "b"]}),
            json!({"properties": {"a": {"type": "integer"}}}), json!({"properties": {"a": {"type": "string", "nullable": true}, "b": {}}}),
            json!({"properties": {"b": {"$ref": "#/components/schemas/Base"}}}),
            json!({"additionalProperties": true}), json!({"additionalProperties": false}),
            json!({"additionalProperties": {"type": "integer"}}), json!({"additionalProperties": {"$ref": "#/components/schemas/Base"}}),
        ],
        _ => unreachable!(),
    }
}

const TYPES: [&str; 6] = ["string", "number", "integer", "boolean", "array", "object"];

fn annotations() -> Vec<Value> {
    vec![
        json!({"title": "T"}), json!({"description": "d"}), json!({"default": "a"}), json!({"default": 1}),
        json!({"deprecated": true}), json!({"readOnly": true}), json!({"writeOnly": true}), json!({"example": "a"}), json!({"example": {"a": 1}}),
        json!({"default": false}), json!({"default": [0, ""]}), json!({"example": 0}),
        json!({"x-ext": {"a": [1, null]}}), json!({"x-other": "s"}),
    ]
}

/// Schemas used inside others.
fn inner(c: &Check) -> Vec<Value> {
    let mut v = vec![
        json!({}),
        json!({"type": "string"}),
        json!({"type": "integer", "minimum": 1}),
        json!({"type": "number", "maximum": 1.5, "exclusiveMaximum": true, "format": "float"}),
        json!({"type": "boolean"}),
        json!({"type": "string", "enum": ["a", "b"], "title": "E", "x-ext": 1}),
        json!({"type": "string", "nullable": true, "minLength": 1, "description": "n"}),
        json!({"type": "array", "items": {"type": "integer"}, "minItems": 1, "uniqueItems": true}),
        json!({"type": "object", "properties": {"a": {"type": "integer", "default": 1}}, "required": ["a"]}),
        json!({"type": "object", "additionalProperties": false, "properties": {"b": {}}}),
        json!({"type": "object", "additionalProperties": {"type": "string"}, "minProperties": 1}),
        json!({"$ref": "#/components/schemas/Base"}),
        json!({"enum": ["a", 1, null]}),
        json!({"enum": [null]}),
        json!({"not": {"type": "string"}}),
        json!({"minimum": 1}),
        json!({"properties": {"a": {"type": "string"}}}),
    ];
    if c.thorough {
        v.extend([
            json!({"oneOf": [{"type": "string"}, {"type": "integer"}]}),
            json!({"allOf": [{"$ref": "#/components/schemas/Base"}], "nullable": false, "description": "w"}),
            json!({"anyOf": [{"type": "string", "maxLength": 1}, {"type": "array", "items": {}}]}),
            json!({"type": "array", "items": {"type": "object", "properties": {"a": {"type": "integer", "nullable": true}}}}),
            json!({"items": {"type": "integer"}}),
            json!({"minLength": 2}),
        ]);
    }
    v
}

fn schemas(c: &Check) -> Vec<Value> {
    let mut out = Vec::new();
    let nul = [json!({}), json!({"nullable": true}), json!({"nullable": false})];
    let n = if c.thorough { 4 } else { 3 };
    // Typed schemas with up to n keywords.
    for t in TYPES {
        let ty = json!({"type": t});
        for s in subsets(&keywords(t), n) {
            for u in &nul[..2] {
                out.push(merge(&[&ty, &s, u]));
            }
        }
        // ... with annotations.
        for a in subsets(&annotations(), 2) {
            for u in &nul {
                out.push(merge(&[&ty, &a, u]));
            }
        }
    }
    for a in subsets(&annotations(), 2) {
        for s in [
            json!({}), json!({"minimum": 1}), json!({"enum": [null]}), json!({"enum": ["a"]}),
            json!({"oneOf": [{"type": "string"}]}), json!({"allOf": [{"$ref": "#/components/schemas/Base"}]}),
            json!({"anyOf": [{"type": "string"}, {"type": "integer"}]}), json!({"not": {"type": "string"}}),
        ] {
            if s.get("not").is_some() {
                out.push(merge(&[&a, &s]));
                continue;
            }
            for u in &nul {
                out.push(merge(&[&s, &a, u]));
            }
        }
    }
    // Schemas without a type: keywords of up to two types.
    for (i, t1) in TYPES.iter().enumerate() {
        if *t1 == "integer" {
            continue;
        }
        let k1 = subsets(&keywords(t1), 2);
        for s in &k1 {
            for u in &nul[..2] {
                out.push(merge(&[s, u]));
            }
        }
        for t2 in &TYPES[i + 1..] {
            if *t2 == "integer" {
                continue;
            }
            for a in subsets(&keywords(t1), 1) {
                for b in subsets(&keywords(t2), 1) {
                    for u in &nul[..2] {
                        out.push(merge(&[&a, &b, u]));
                    }
                }
            }
        }
    }
    // Enumerations, in every order.
    let values = [json!(null), json!("a"), json!("b"), json!(1), json!(1.5), json!(true), json!({}), json!([]), json!({"a": 1}), json!([1])];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..if c.thorough { 4 } else { 3 } {
        let to = lists.len();
        for l in from..to {
            for i in (0..values.len()).filter(|i| !lists[l].contains(i)).collect::<Vec<_>>() {
                let more = [&lists[l][..], &[i]].concat();
                lists.push(more);
            }
        }
        from = to;
    }
    for l in &lists[1..] {
        let e: Vec<&Value> = l.iter().map(|i| &values[*i]).collect();
        for u in &nul {
            out.push(merge(&[&json!({"enum": e}), u]));
        }
    }
    // Composition.
    let inn = inner(c);
    for a in &inn {
        for u in &nul[..2] {
            for s in [
                json!({"type": "array", "items": a}),
                json!({"type": "object", "properties": {"a": a}}),
                json!({"type": "object", "properties": {"a": a}, "required": ["a"], "additionalProperties": false}),
                json!({"type": "object", "properties": {"b": {"type": "integer"}}, "additionalProperties": a}),
                json!({"type": "object", "additionalProperties": a}),
                json!({"additionalProperties": a}),
                json!({"items": a}),
                json!({"properties": {"a": a}}),
                json!({"not": a}),
                json!({"type": "object", "not": a}),
                json!({"type": "string", "not": a}),
                json!({"items": a, "not": {"type": "object"}}),
                json!({"type": "array", "items": {"type": "array", "items": a}}),
                json!({"type": "object", "properties": {"a": {"type": "object", "properties": {"a": a}, "required": ["a"]}}}),
            ] {
                out.push(merge(&[&s, u]));
            }
            for b in &inn {
                for k in ["oneOf", "anyOf", "allOf"] {
                    let l = json!({k: [a, b]});
                    out.push(merge(&[&l, u]));
                    for t in TYPES {
                        out.push(merge(&[&l, &json!({"type": t}), u]));
                    }
                    out.push(merge(&[&l, &json!({"title": "T", "description": "d", "x-ext": 1}), u]));
                    out.push(merge(&[&l, &json!({"properties": {"a": {"type": "integer"}}}), u]));
                    out.push(json!({"type": "object", "properties": {"a": merge(&[&l, u])}}));
                    for k2 in ["oneOf", "anyOf", "allOf", "not"] {
                        if k2 == "not" {
                            out.push(merge(&[&l, &json!({"not": a}), u]));
                        } else if k2 != k {
                            out.push(merge(&[&l, &json!({k2: [b, a]}), u]));
                        }
                    }
                }
            }
            for k in ["oneOf", "anyOf", "allOf"] {
                out.push(merge(&[&json!({k: [a]}), u]));
                if c.thorough {
                    for b in &inn {
                        for d in &inn {
                            out.push(merge(&[&json!({k: [a, b, d]}), u]));
                        }
                    }
                }
            }
        }
    }
    // Each keyword beside a combination.
    let bare = [json!({"enum": [null]}), json!({"enum": ["a", 1, null]}), json!({"exclusiveMinimum": false}), json!({"exclusiveMaximum": false})];
    for kw in TYPES.iter().flat_map(|t| keywords(t)).chain(bare) {
        for u in &nul[..2] {
            out.push(merge(&[&kw, u]));
            for a in &inn {
                for s in [json!({"oneOf": [a]}), json!({"anyOf": [a]}), json!({"allOf": [a]}), json!({"not": a})] {
                    out.push(merge(&[&s, &kw, u]));
                }
            }
        }
    }
    // Long lists, with the member that matters at every position.
    let mut sizes = vec![3, 4, 5, 9, 17, 33];
    if c.thorough {
        sizes.extend([65, 129, 257]);
    }
    for n in sizes {
        for i in 0..n {
            let list = |other: &dyn Fn(usize) -> Value, this: Value| -> Vec<Value> {
                (0..n).map(|j| if j == i { this.clone() } else { other(j) }).collect()
            };
            let word = |j: usize| json!({"type": "string", "enum": [format!("zz{j}")]});
            for this in [json!({"type": "string"}), json!({"type": "integer"}), json!({"$ref": "#/components/schemas/Base"})] {
                for u in &nul[..2] {
                    out.push(merge(&[&json!({"oneOf": list(&word, this.clone())}), u]));
                    out.push(merge(&[&json!({"anyOf": list(&word, this.clone())}), u]));
                    out.push(merge(&[&json!({"allOf": list(&|j| json!({"description": format!("zz{j}")}), this.clone())}), u]));
                }
            }
            let names = list(&|j| json!(format!("zz{j}")), json!("a"));
            for u in &nul[..2] {
                out.push(merge(&[&json!({"type": "string", "enum": names}), u]));
                let props: serde_json::Map<String, Value> = names
                    .iter()
                    .map(|n| (n.as_str().unwrap().to_string(), if n == "a" { json!({"type": "integer"}) } else { json!({}) }))
                    .collect();
                out.push(merge(&[&json!({"type": "object", "properties": props}), u]));
                out.push(merge(&[&json!({"type": "object", "properties": props, "required": ["a"]}), u]));
                out.push(merge(&[&json!({"type": "object", "properties": props, "required": names}), u]));
                out.push(merge(&[&json!({"type": "object", "properties": props, "additionalProperties": false}), u]));
                out.push(merge(&[&json!({"properties": props, "required": ["a"]}), u]));
            }
            out.push(json!({"enum": names}));
            out.push(json!({"type": "integer", "enum": list(&|j| json!(1000 + j), json!(1))}));
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|s| seen.insert(s.to_string()));
    out
}

/// A nullable combination of schemas one of which accepts null itself: the
/// generator wraps it in a one-of with null, which then rejects null. These
/// are left out of the enumeration and shown once, as a known finding.
fn doubly_null(s: &Value, defs: &BTreeMap<String, Value>) -> bool {
    let here = s.get("nullable") == Some(&json!(true))
        && s.get("type").is_none()
        && has(s, COMBINE_KEYS)
        && {
            let mut t = s.clone();
            t.as_object_mut().unwrap().remove("nullable");
            oa(&t, &Value::Null, defs) != Some(false)
        };
    here || subschemas(s).into_iter().any(|s| doubly_null(s, defs))
}

/// The schemas that reached type generation.
fn records(doc: &Value) -> Result<Vec<(Option<String>, bool, Value)>, String> {
    let spec = parse(doc);
    let mut g = Generator::default();
    let r = quietly(|| g.generate_tokens(&spec).map(|_| ()).map_err(|e| e.to_string()));
    let rec: Vec<_> = g
        .get_type_space()
        .record()
        .iter()
        .map(|r| (r.name.clone(), r.definition, serde_json::to_value(&r.schema).unwrap()))
        .collect();
    if rec.is_empty() {
        return Err(format!("no schema reached type generation: {r:?}"));
    }
    Ok(rec)
}

pub fn run(c: &Arc<Check>) {
    let inst = instances();
    let base = json!({"type": "integer", "minimum": 1, "nullable": true, "x-base": true});
    let oadefs = BTreeMap::from([("Base".to_string(), base.clone())]);
    let compare = |c: &Check, s: &Value| -> Result<(), String> {
        let d = doc(json!({}), json!({"schemas": {"Base": base, "S": s}}));
        let rec = records(&d)?;
        let get = |n: &str| {
            rec.iter()
                .find(|(m, def, _)| *def && m.as_deref() == Some(n))
                .map(|r| r.2.clone())
                .ok_or(format!("schema {n} did not reach type generation"))
        };
        let jsdefs = BTreeMap::from([("Base".to_string(), get("Base")?)]);
        let conv = get("S")?;
        for v in &inst {
            let want = oa(s, v, &oadefs);
            let got = js(&conv, v, &jsdefs);
            c.trans(1);
            c.outcome(match want {
                Some(true) => "accepting instance",
                Some(false) => "rejecting instance",
                None => "unspecified",
            });
            if want.map_or(false, |w| w != got) {
                return Err(format!(
                    "{v} is {} by the OpenAPI schema but {} by its conversion {conv}",
                    if got { "rejected" } else { "accepted" },
                    if got { "accepted" } else { "rejected" }
                ));
            }
        }
        let (mut a, mut b) = (vec![], vec![]);
        notes(s, true, &mut a);
        notes(&conv, false, &mut b);
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("annotations {a:?} became {b:?} in {conv}"));
        }
        Ok(())
    };
    let all = schemas(c);
    let skipped = all.iter().filter(|s| doubly_null(s, &oadefs)).count();
    c.extra("schemas", json!(all.len()));
    c.extra("schemas_left_to_the_known_finding", json!(skipped));
    par(&all, |s| {
        if doubly_null(s, &oadefs) {
            return;
        }
        c.state(&s.to_string());
        c.case(|| format!("schema {s}"), || compare(c, s));
    });
    let dn = json!({"nullable": true, "anyOf": [{"type": "string", "nullable": true}, {"type": "integer"}]});
    c.case(|| format!("schema {dn}"), || compare(c, &dn));

    // Every place of a document that holds a schema hands over the same one.
    let places = inner(c);
    par(&places, |s| {
        if s.get("$ref").is_some() {
            return;
        }
        c.case(
            || format!("places {s}"),
            || {
                let comp = records(&doc(json!({}), json!({"schemas": {"Base": base, "S": s}})))?;
                let want = comp.iter().find(|r| r.0.as_deref() == Some("S")).unwrap().2.clone();
                let param = |n: &str, l: &str| json!({"name": n, "in": l, "required": true, "schema": s});
                for (what, d) in [
                    ("query parameter", one("/p", "get", json!({"operationId": "op", "responses": {}, "parameters": [param("q", "query")]}))),
                    ("path parameter", one("/p/{q}", "get", json!({"operationId": "op", "responses": {}, "parameters": [param("q", "path")]}))),
                    ("header parameter", one("/p", "get", json!({"operationId": "op", "responses": {}, "parameters": [param("q", "header")]}))),
                    ("json body", one("/p", "put", json!({"operationId": "op", "responses": {}, "requestBody": {"content": {"application/json": {"schema": s}}}}))),
                    ("form body", one("/p", "put", json!({"operationId": "op", "responses": {}, "requestBody": {"content": {"application/x-www-form-urlencoded": {"schema": s}}}}))),
                    ("response", one("/p", "get", json!({"operationId": "op", "responses": {"200": {"description": "", "content": {"application/json": {"schema": s}}}}}))),
                    ("default response", one("/p", "get", json!({"operationId": "op", "responses": {"default": {"description": "", "content": {"application/json": {"schema": s}}}}}))),
                ] {
                    let mut d = d;
                    d["components"] = json!({"schemas": {"Base": base}});
                    let r = records(&d)?;
                    c.trans(1);
                    if !r.iter().any(|(_, def, got)| !def && *got == want) {
                        return Err(format!("as a {what} the schema reached type generation as {:?}, as a component as {want}", r.last()));
                    }
                }
                Ok(())
            },
        );
    });
    c.bound(format!(
        "every typed schema with up to {} keyword settings x nullable; every typeless schema over keywords of up to two types; compositions over {} inner schemas (depth 3); lists of up to {} members with the deciding one at every position; {} instances each",
        if c.thorough { 4 } else { 3 }, places.len(), if c.thorough { 257 } else { 33 }, inst.len()
    ));
    c.assume("typify and openapiv3 are stand-ins; the schema observed is the one progenitor-impl hands to typify.");
    c.assume("Left open by OpenAPI 3.0 and not judged: null against a nullable schema without a type that has an enumeration, or that mixes combinators with other keywords. A nullable schema without a type is taken to be of the types its keywords apply to, or null.");
}
