//! The serde data model as a value tree, and the reference meaning of such a
//! value as a query parameter or as a form body.
use serde::ser::*;

pub const NAMES: &[&str] = &["alpha", "b c", "x&y", "k=v", "\u{e9}", "", "Some", "limit"];

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct,
    UnitVariant(usize),
    Newtype(Box<V>),
    NewtypeVariant(usize, Box<V>),
    Seq(Vec<V>, bool),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(usize, Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<(usize, V)>),
    StructVariant(usize, Vec<(usize, V)>),
}

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(v) => s.serialize_bool(*v),
            V::I8(v) => s.serialize_i8(*v),
            V::I16(v) => s.serialize_i16(*v),
            V::I32(v) => s.serialize_i32(*v),
            V::I64(v) => s.serialize_i64(*v),
            V::I128(v) => s.serialize_i128(*v),
            V::U8(v) => s.serialize_u8(*v),
            V::U16(v) => s.serialize_u16(*v),
            V::U32(v) => s.serialize_u32(*v),
            V::U64(v) => s.serialize_u64(*v),
            V::U128(v) => s.serialize_u128(*v),
            V::F32(v) => s.serialize_f32(*v),
            V::F64(v) => s.serialize_f64(*v),
            V::Char(v) => s.serialize_char(*v),
            V::Str(v) => s.serialize_str(v),
            V::Bytes(v) => s.serialize_bytes(v),
            V::None => s.serialize_none(),
            V::Some(v) => s.serialize_some(&**v),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("TheUnit"),
            V::UnitVariant(i) => s.serialize_unit_variant("TheEnum", *i as u32, NAMES[*i]),
            V::Newtype(v) => s.serialize_newtype_struct("TheNewtype", &**v),
            V::NewtypeVariant(i, v) => {
                s.serialize_newtype_variant("TheEnum", *i as u32, NAMES[*i], &**v)
            }
            V::Seq(v, sized) => {
                let mut q = s.serialize_seq(sized.then_some(v.len()))?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            V::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            V::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TheTuple", v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            V::TupleVariant(i, v) => {
                let mut q = s.serialize_tuple_variant("TheEnum", *i as u32, NAMES[*i], v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            V::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, e) in v {
                    q.serialize_entry(k, e)?;
                }
                q.end()
            }
            V::Struct(v) => {
                let mut q = s.serialize_struct("TheStruct", v.len())?;
                for (k, e) in v {
                    q.serialize_field(NAMES[*k], e)?;
                }
                q.end()
            }
            V::StructVariant(i, v) => {
                let mut q = s.serialize_struct_variant("TheEnum", *i as u32, NAMES[*i], v.len())?;
                for (k, e) in v {
                    q.serialize_field(NAMES[*k], e)?;
                }
                q.end()
            }
        }
    }
}

/// What the wire must carry for a value.
#[derive(Clone, Debug)]
pub enum Meaning {
    /// Exactly these pairs; refusing is wrong.
    Must(Vec<(String, Want)>),
    /// Either exactly these pairs or an error, never anything else.
    May(Vec<(String, Want)>),
    /// There is no faithful encoding: an error is the only right answer.
    Error,
    /// The property says nothing (e.g. a map keyed by floats).
    Open,
}

/// An expected text (numbers are compared by value, not by spelling).
#[derive(Clone, Debug)]
pub enum Want {
    Text(String),
    F32(f32),
    F64(f64),
}

impl Want {
    pub fn ok(&self, got: &str) -> bool {
        match self {
            Want::Text(t) => t == got,
            // any spelling of a shortest decimal number that is the value
            Want::F32(f) => {
                got.parse::<f32>().is_ok_and(|g| g.to_bits() == f.to_bits() || (f.is_nan() && g.is_nan()))
                    && (!f.is_finite() || digits(got) <= digits(&format!("{f:e}")))
            }
            Want::F64(f) => {
                got.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits() || (f.is_nan() && g.is_nan()))
                    && (!f.is_finite() || digits(got) <= digits(&format!("{f:e}")))
            }
        }
    }
}

/// How many significant digits a decimal number has.
fn digits(s: &str) -> usize {
    let m = s.split(['e', 'E']).next().unwrap();
    let d: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
    d.trim_start_matches('0').trim_end_matches('0').len()
}

/// A scalar's text. Ok(None): the value is absent. Err: not a scalar.
/// The bool says whether refusal is acceptable.
pub fn scalar(v: &V) -> Result<(Option<Want>, bool), ()> {
    let t = |s: String| Ok((Some(Want::Text(s)), false));
    match v {
        V::Bool(v) => t(v.to_string()),
        V::I8(v) => t(v.to_string()),
        V::I16(v) => t(v.to_string()),
        V::I32(v) => t(v.to_string()),
        V::I64(v) => t(v.to_string()),
        V::U8(v) => t(v.to_string()),
        V::U16(v) => t(v.to_string()),
        V::U32(v) => t(v.to_string()),
        V::U64(v) => t(v.to_string()),
        V::I128(v) => Ok((Some(Want::Text(v.to_string())), true)),
        V::U128(v) => Ok((Some(Want::Text(v.to_string())), true)),
        V::F32(v) => Ok((Some(Want::F32(*v)), false)),
        V::F64(v) => Ok((Some(Want::F64(*v)), false)),
        V::Char(v) => t(v.to_string()),
        V::Str(v) => t(v.clone()),
        V::UnitVariant(i) => t(NAMES[*i].to_string()),
        V::Bytes(b) => match String::from_utf8(b.clone()) {
            Ok(s) => Ok((Some(Want::Text(s)), true)),
            Err(_) => Err(()),
        },
        V::None => Ok((None, false)),
        V::Unit => Ok((None, true)),
        V::UnitStruct => Ok((None, true)),
        V::Some(v) => scalar(v),
        V::Newtype(v) => scalar(v).map(|(w, _)| (w, true)),
        _ => Err(()),
    }
}

fn fields(fs: Vec<(String, &V)>, mut may: bool) -> Meaning {
    let mut out = vec![];
    for (k, v) in fs {
        match scalar(v) {
            Ok((Some(w), m)) => {
                may |= m;
                out.push((k, w));
            }
            Ok((None, m)) => may |= m,
            Err(()) => return Meaning::Error,
        }
    }
    if may {
        Meaning::May(out)
    } else {
        Meaning::Must(out)
    }
}

/// Reference meaning of `v` as the query parameter `name`.
pub fn query_meaning(name: &str, v: &V) -> Meaning {
    match v {
        V::None | V::Unit => Meaning::Must(vec![]),
        V::UnitStruct => Meaning::May(vec![]),
        V::Some(v) => query_meaning(name, v),
        V::Newtype(v) => match query_meaning(name, v) {
            Meaning::Must(p) | Meaning::May(p) => Meaning::May(p),
            m => m,
        },
        V::NewtypeVariant(i, v) => fields(vec![(NAMES[*i].to_string(), v)], false),
        V::Seq(vs, _) => {
            let mut out = vec![];
            let mut may = false;
            for e in vs {
                match scalar(e) {
                    Ok((Some(w), m)) => {
                        may |= m;
                        out.push((name.to_string(), w));
                    }
                    // an absent element has no spelling; skipping or refusing
                    Ok((None, _)) => may = true,
                    Err(()) => return Meaning::Error,
                }
            }
            if may {
                Meaning::May(out)
            } else {
                Meaning::Must(out)
            }
        }
        V::Map(kv) => {
            let mut fs = vec![];
            let mut may = false;
            for (k, v) in kv {
                match scalar(k) {
                    Ok((Some(Want::Text(t)), m)) => {
                        may |= m || matches!(k, V::Some(_) | V::Newtype(_));
                        let k = t;
                        fs.push((k, v));
                    }
                    Ok((Some(_), _)) => return Meaning::Open,
                    _ => return Meaning::Error,
                }
            }
            fields(fs, may)
        }
        V::Struct(fs) => fields(fs.iter().map(|(k, v)| (NAMES[*k].to_string(), v)).collect(), false),
        // A struct-like enum variant has no defined spelling as a parameter.
        V::StructVariant(_, fs) => {
            match fields(fs.iter().map(|(k, v)| (NAMES[*k].to_string(), v)).collect(), true) {
                Meaning::Must(p) | Meaning::May(p) => Meaning::May(p),
                m => m,
            }
        }
        // Fixed-size tuples: repeated values, or refused.
        V::Tuple(vs) | V::TupleStruct(vs) => {
            match query_meaning(name, &V::Seq(vs.clone(), true)) {
                Meaning::Must(p) | Meaning::May(p) => Meaning::May(p),
                m => m,
            }
        }
        V::TupleVariant(..) => Meaning::Error,
        scalar_v => match scalar(scalar_v) {
            Ok((Some(w), false)) => Meaning::Must(vec![(name.to_string(), w)]),
            Ok((Some(w), true)) => Meaning::May(vec![(name.to_string(), w)]),
            Ok((None, _)) => Meaning::Must(vec![]),
            Err(()) => Meaning::Error,
        },
    }
}

/// Reference meaning of `v` as an application/x-www-form-urlencoded body.
pub fn form_meaning(v: &V) -> Meaning {
    match v {
        V::Some(v) | V::Newtype(v) => match form_meaning(v) {
            Meaning::Must(p) if matches!(**v, V::Map(_) | V::Struct(_)) => Meaning::Must(p),
            Meaning::Must(p) | Meaning::May(p) => Meaning::May(p),
            m => m,
        },
        V::Map(_) | V::Struct(_) => query_meaning("", v),
        V::NewtypeVariant(i, v) => match fields(vec![(NAMES[*i].to_string(), v)], true) {
            Meaning::Must(p) | Meaning::May(p) => Meaning::May(p),
            m => m,
        },
        V::StructVariant(..) => query_meaning("", v),
        V::None | V::Unit | V::UnitStruct => Meaning::May(vec![]),
        V::Seq(vs, _) | V::Tuple(vs) | V::TupleStruct(vs) => {
            let mut out = vec![];
            for e in vs {
                match e {
                    // an absent element carries nothing: skipped or refused
                    V::None | V::Unit => {}
                    V::Tuple(kv) | V::TupleStruct(kv) | V::Seq(kv, _) if kv.len() == 2 => {
                        match (scalar(&kv[0]), scalar(&kv[1])) {
                            (Ok((Some(Want::Text(k)), _)), Ok((Some(w), _))) => out.push((k, w)),
                            (Ok((Some(Want::Text(_)), _)), Ok((None, _))) => {}
                            _ => return Meaning::Error,
                        }
                    }
                    _ => return Meaning::Error,
                }
            }
            Meaning::May(out)
        }
        _ => Meaning::Error,
    }
}

pub fn agree(m: &Meaning, got: &Result<Vec<(String, String)>, String>) -> Result<(), String> {
    let same = |want: &Vec<(String, Want)>, got: &Vec<(String, String)>| {
        want.len() == got.len()
            && want.iter().zip(got).all(|((k, w), (gk, g))| k == gk && w.ok(g))
    };
    match (m, got) {
        (Meaning::Must(w) | Meaning::May(w), Ok(g)) if same(w, g) => Ok(()),
        (Meaning::May(_) | Meaning::Error, Err(_)) | (Meaning::Open, _) => Ok(()),
        _ => Err(format!("the value means {m:?} but the wire carries {got:?}")),
    }
}

/// Leaves of the enumeration: one of every scalar kind.
pub fn leaves() -> Vec<V> {
    vec![
        V::Str("a".into()),
        V::Str("".into()),
        V::Str("a b&c=d+e%41#/?\u{e9}".into()),
        V::U64(7),
        V::Bool(true),
        V::None,
        V::Char('&'),
        V::UnitVariant(2),
        V::I32(-3),
        V::F64(1.5),
        V::Unit,
        V::Bytes(b"xy".to_vec()),
        V::Bool(false),
        V::I8(-1),
        V::I16(-2),
        V::I64(i64::MIN),
        V::U8(1),
        V::U16(2),
        V::U32(u32::MAX),
        V::F32(0.25),
        V::I128(-1),
        V::U128(u128::MAX),
        V::Bytes(vec![0xff]),
    ]
}

/// Every shape whose children are drawn from `kids`, with at most `width`
/// children.
pub fn compounds(kids: &[V], width: usize) -> Vec<V> {
    let mut lists: Vec<Vec<V>> = vec![vec![]];
    let mut all = lists.clone();
    for _ in 0..width {
        lists = lists
            .iter()
            .flat_map(|l| {
                kids.iter().map(move |k| {
                    let mut l = l.clone();
                    l.push(k.clone());
                    l
                })
            })
            .collect();
        all.extend(lists.clone());
    }
    let mut out = vec![];
    for k in kids {
        out.push(V::Some(Box::new(k.clone())));
        out.push(V::Newtype(Box::new(k.clone())));
        out.push(V::NewtypeVariant(1, Box::new(k.clone())));
    }
    for l in all {
        out.push(V::Seq(l.clone(), true));
        out.push(V::Seq(l.clone(), false));
        out.push(V::Tuple(l.clone()));
        out.push(V::TupleStruct(l.clone()));
        out.push(V::TupleVariant(0, l.clone()));
        let named: Vec<_> = l.iter().cloned().enumerate().collect();
        out.push(V::Struct(named.clone()));
        out.push(V::StructVariant(3, named.clone()));
        out.push(V::Map(
            named.iter().map(|(i, v)| (V::Str(NAMES[*i].into()), v.clone())).collect(),
        ));
        if l.len() == 1 {
            // keys of every scalar kind
            for k in kids {
                out.push(V::Map(vec![(k.clone(), l[0].clone())]));
            }
        }
    }
    out
}
