//! C02: query parameters carry exactly the value they were given.
use crate::shape::*;
use mc_core::*;
use progenitor_client::QueryParam;

/// The pairs a server decodes from the query string the client would send.
fn observe(client: &reqwest::Client, base: &str, ps: &[(&str, &V)]) -> Result<Vec<(String, String)>, String> {
    let mut rb = client.get(base);
    for (n, v) in ps {
        rb = rb.query(&QueryParam::new(n, *v));
    }
    let req = rb.build().map_err(|e| format!("rejected: {e}"))?;
    let u = req.url();
    let want = url::Url::parse(base).unwrap();
    if u.path() != want.path() || u.fragment().is_some() || u.host_str() != want.host_str() {
        return Ok(vec![("!!".into(), format!("URL damaged: {u}"))]);
    }
    form_decode(u.query().unwrap_or("")).or_else(|e| Ok(vec![("!!".into(), e)]))
}

fn direct<T: serde::Serialize>(name: &str, v: &T) -> Result<Vec<(String, String)>, String> {
    let client = CLIENT.with(|c| c.clone());
    let req = client
        .get("http://h/p")
        .query(&QueryParam::new(name, v))
        .build()
        .map_err(|e| format!("rejected: {e}"))?;
    form_decode(req.url().query().unwrap_or(""))
}

thread_local! {
    static CLIENT: reqwest::Client = reqwest::Client::new();
}

/// Shapes whose meaning the property leaves partly open: a non-transparent
/// newtype or a tuple of pairs may also be taken as the pairs it lists.
fn open_shape(v: &V) -> bool {
    match v {
        V::Some(v) => open_shape(v),
        V::Newtype(_) | V::Tuple(_) | V::TupleStruct(_) => true,
        _ => false,
    }
}

fn check_shape(name: &str, v: &V, got: &Result<Vec<(String, String)>, String>) -> Result<(), String> {
    let r = agree(&query_meaning(name, v), got);
    if r.is_err() && open_shape(v) && agree(&form_meaning(v), got).is_ok() {
        return Ok(());
    }
    r
}

fn case(c: &Check, name: &str, v: &V) {
    c.case(
        || format!("name={name:?} value={v:?}"),
        || {
            let client = CLIENT.with(|c| c.clone());
            let got = observe(&client, "http://h.example/p/q", &[(name, v)]);
            c.state(&format!("{got:?}"));
            c.outcome(match &got {
                Err(_) => "rejected",
                Ok(p) if p.is_empty() => "no pair",
                Ok(p) if p.len() == 1 => "one pair",
                Ok(_) => "several pairs",
            });
            check_shape(name, v, &got)
        },
    );
}

/// Scalars of real Rust types (not the value tree).
fn scalar_case<T: serde::Serialize + std::fmt::Debug>(c: &Check, v: T, text: String) {
    c.case(
        || format!("scalar {} {v:?}", std::any::type_name::<T>()),
        || {
            let got = direct("n", &v);
            if got != Ok(vec![("n".into(), text.clone())]) {
                return Err(format!("expected n={text:?}, the wire carries {got:?}"));
            }
            Ok(())
        },
    );
}

pub fn run() {
    let c = Check::new("C02");
    let names = [
        "q", "", "a b", "a&b=c", "a[]", "%41+", "\u{e9}/?#", "page_token", "limit", "ids[0]", "filter[a]", "a.b",
        "$top", "-x", "_x", " x ", "X-Y", "type", "self", "a,b", "a;b", "[]", "name:exact", "k=", "x".repeat(70).leak(),
    ];

    let l0 = leaves();
    // 1. all leaves, and small compounds, under all names
    for n in names {
        // (within another value a unit struct has no defined spelling)
        case(&c, n, &V::UnitStruct);
        case(&c, n, &V::Some(Box::new(V::UnitStruct)));
        for v in leaves() {
            c.trans(1);
            case(&c, n, &v);
        }
        for v in compounds(&l0[..6], 2) {
            case(&c, n, &v);
        }
    }
    // 2. every shape of depth 1 over every leaf, up to 3 children
    let l = leaves();
    let d1_wide = compounds(&l[..if c.thorough { 9 } else { 7 }], 3);
    par(&d1_wide, |v| {
        c.trans(1);
        case(&c, "q", v)
    });
    let d1_all = compounds(&l, 1);
    par(&d1_all, |v| {
        c.trans(1);
        case(&c, "q", v);
        case(&c, "a&b=c", v)
    });
    // 3. every shape of depth 2 (children are all depth-1 shapes)
    let kids: Vec<V> = compounds(&l[..if c.thorough { 7 } else { 4 }], 1);
    let mut kids2 = vec![V::Str("z".into()), V::None];
    kids2.extend(kids);
    let d2 = compounds(&kids2, if c.thorough { 2 } else { 1 });
    par(&d2, |v| {
        c.trans(1);
        case(&c, "q", v)
    });
    let pairs2: Vec<V> = kids2
        .iter()
        .flat_map(|a| [V::Str("z".into()), V::U8(1)].into_iter().map(move |b| (a.clone(), b)))
        .flat_map(|(a, b)| [V::Seq(vec![b.clone(), a.clone()], true), V::Seq(vec![a.clone(), b.clone()], false), V::Struct(vec![(0, b.clone()), (1, a.clone())]), V::Struct(vec![(1, a), (0, b)])])
        .collect();
    par(&pairs2, |v| case(&c, "q", v));
    // 4. depth 3 and 4 chains of wrappers
    let wraps: [fn(V) -> V; 6] = [
        |v| V::Some(Box::new(v)),
        |v| V::Newtype(Box::new(v)),
        |v| V::NewtypeVariant(0, Box::new(v)),
        |v| V::Seq(vec![v], true),
        |v| V::Struct(vec![(0, v)]),
        |v| V::Tuple(vec![v]),
    ];
    explore(&c, |ch| {
        let mut v = ch.pick(&l[..6]).clone();
        for _ in 0..4 {
            let k = ch.choose(wraps.len() + 1);
            if k == wraps.len() {
                break;
            }
            v = wraps[k](v);
        }
        case(&c, "q", &v);
    });
    c.bound(format!(
        "all serde shapes: {} leaves x 25 names; {} depth-1 shapes (<=3 children); {} depth-2 shapes; all wrapper chains of length <= 4",
        l.len(), d1_wide.len() + d1_all.len(), d2.len() + pairs2.len()
    ));
    c.sample("shape", || json!({"value": format!("{:?}", d1_wide[d1_wide.len() / 2]), "pairs": format!("{:?}", direct("q", &d1_wide[d1_wide.len() / 2]))}));

    // 5. scalar domains
    for b in [true, false] {
        scalar_case(&c, b, b.to_string());
    }
    for i in 0..=u8::MAX {
        scalar_case(&c, i, i.to_string());
        scalar_case(&c, i as i8, (i as i8).to_string());
    }
    for i in 0..=u16::MAX {
        scalar_case(&c, i, i.to_string());
        scalar_case(&c, i as i16, (i as i16).to_string());
    }
    for k in 0..64u32 {
        for d in [-2i128, -1, 0, 1, 2] {
            for m in [1i128 << k, -(1i128 << k), 10i128.pow(k.min(18))] {
                let x = m + d;
                if let Ok(y) = u32::try_from(x) { scalar_case(&c, y, y.to_string()); }
                if let Ok(y) = i32::try_from(x) { scalar_case(&c, y, y.to_string()); }
                if let Ok(y) = u64::try_from(x) { scalar_case(&c, y, y.to_string()); }
                if let Ok(y) = i64::try_from(x) { scalar_case(&c, y, y.to_string()); }
            }
        }
    }
    scalar_case(&c, u64::MAX, u64::MAX.to_string());
    scalar_case(&c, i64::MIN, i64::MIN.to_string());
    scalar_case(&c, i64::MAX, i64::MAX.to_string());
    // floats: every exponent x 3 mantissas x sign
    for e in 0..2048u64 {
        for m in [0u64, 1, 0x8_0000_0000_0001] {
            for s in [0u64, 1] {
                case(&c, "q", &V::F64(f64::from_bits(s << 63 | e << 52 | m)));
                if e < 256 {
                    case(&c, "q", &V::F32(f32::from_bits((s << 31 | e << 23 | (m & 0x7f_ffff)) as u32)));
                }
            }
        }
    }
    // chars and one-character strings: every Unicode scalar value
    let blocks: Vec<u32> = (0..0x110).collect();
    par(&blocks, |b| {
        for cp in b * 0x1000..(b + 1) * 0x1000 {
            let Some(ch) = char::from_u32(cp) else { continue };
            if cp < 0x3000 || cp % 0x1000 < 3 || cp % 0x1000 > 0xffc || c.thorough {
                scalar_case(&c, ch, ch.to_string());
                scalar_case(&c, ch.to_string(), ch.to_string());
            }
        }
    });
    c.bound("every bool/u8/i8/u16/i16, powers of 2 and 10 +-2 for 32/64-bit integers, all float exponents, every char below U+3000 and block edges (thorough: every char)");
    // ASCII pairs, as value and as name
    for a in 0..128u8 {
        for b in 0..128u8 {
            let s = String::from_utf8(vec![a, b]).unwrap();
            c.case(
                || format!("ascii pair {s:?}"),
                || {
                    let got = direct(&s, &s);
                    if got != Ok(vec![(s.clone(), s.clone())]) {
                        return Err(format!("{got:?}"));
                    }
                    let two = direct(&s, &Some([&s, &s].to_vec()));
                    if two != Ok(vec![(s.clone(), s.clone()), (s.clone(), s.clone())]) {
                        return Err(format!("as a sequence: {two:?}"));
                    }
                    let key = direct("q", &std::collections::BTreeMap::from([(&s, Some(&s))]));
                    if key != Ok(vec![(s.clone(), s.clone())]) {
                        return Err(format!("as a field: {key:?}"));
                    }
                    Ok(())
                },
            );
        }
    }
    // 6. lengths: sequences, maps and strings of every length
    let maxlen = if c.thorough { 1200 } else { 300 };
    for n in 0..=maxlen {
        c.case(
            || format!("sequence of {n}"),
            || {
                let xs: Vec<usize> = (0..n).collect();
                let want: Vec<_> = xs.iter().map(|i| ("q".to_string(), i.to_string())).collect();
                if direct("q", &xs) != Ok(want.clone()) {
                    return Err("wrong pairs".into());
                }
                let set: std::collections::BTreeSet<usize> = xs.iter().copied().collect();
                if direct("q", &Some(&set)) != Ok(want) {
                    return Err("wrong pairs (set)".into());
                }
                let m: std::collections::BTreeMap<String, usize> = xs.iter().map(|i| (format!("k{i:05}"), *i)).collect();
                let want: Vec<_> = xs.iter().map(|i| (format!("k{i:05}"), i.to_string())).collect();
                if direct("q", &m) != Ok(want) {
                    return Err("wrong pairs (map)".into());
                }
                let s = "\u{e9}&".repeat(n);
                if direct("q", &s) != Ok(vec![("q".into(), s.clone())]) {
                    return Err("wrong string".into());
                }
                // repeated and colliding elements are kept
                let same = vec!["x"; n];
                if direct("q", &same) != Ok(vec![("q".to_string(), "x".to_string()); n]) {
                    return Err("repeated elements not kept".into());
                }
                Ok(())
            },
        );
    }
    c.bound(format!("sequences, sets, maps and strings of every length <= {maxlen}"));

    // 7. derive(Serialize) types as typify produces them
    derived(&c);

    // 8. several parameters on one request: every triple from an alphabet,
    // with and without a query in the base URL
    let alpha = [
        ("a", V::Str("x y".into())), ("a", V::None), ("b", V::Seq(vec![V::U8(1), V::U8(2)], true)),
        ("a", V::Seq(vec![], true)), ("c&", V::Struct(vec![(0, V::Bool(true)), (1, V::None)])),
        ("", V::Unit), ("d", V::NewtypeVariant(0, Box::new(V::U8(9)))), ("b", V::UnitVariant(4)),
        ("e", V::Some(Box::new(V::Some(Box::new(V::Str("".into())))))),
        ("bad", V::Seq(vec![V::Seq(vec![], true)], true)),
    ];
    for base in ["http://h/p", "http://h/p?pre=1"] {
        explore(&c, |ch| {
            let n = ch.choose(5);
            let ps: Vec<(&str, &V)> = (0..n)
                .map(|_| {
                    let (n, v) = ch.pick(&alpha);
                    (*n, v)
                })
                .collect();
            c.case(
                || format!("base={base} params={ps:?}"),
                || {
                    let client = CLIENT.with(|c| c.clone());
                    let got = observe(&client, base, &ps);
                    let mut want = vec![];
                    if base.contains('?') {
                        want.push(("pre".to_string(), Want::Text("1".into())));
                    }
                    let mut bad = false;
                    for (n, v) in &ps {
                        match query_meaning(n, v) {
                            Meaning::Must(p) => want.extend(p),
                            _ => bad = true,
                        }
                    }
                    let m = if bad { Meaning::Error } else { Meaning::Must(want) };
                    agree(&m, &got)
                },
            );
        });
    }
    c.bound("every sequence of <= 4 parameters from an alphabet of 10, on URLs with and without a query");
    c.finish_and_exit();
}

fn derived(c: &Check) {
    use serde::Serialize;
    #[derive(Serialize)]
    #[serde(transparent)]
    struct Transparent(String);
    #[derive(Serialize)]
    enum Plain {
        #[serde(rename = "aye-aye")]
        A,
        B,
    }
    #[derive(Serialize)]
    struct Obj {
        #[serde(rename = "first name")]
        a: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        b: Option<u32>,
        c: Option<u32>,
    }
    #[derive(Serialize)]
    #[serde(untagged)]
    enum Unt {
        S(String),
        N(i64),
        V(Vec<String>),
        O { k: String },
    }
    #[derive(Serialize)]
    struct Flat {
        x: u8,
        #[serde(flatten)]
        rest: std::collections::BTreeMap<String, String>,
    }
    #[derive(Serialize)]
    #[serde(tag = "t", content = "v")]
    enum Adj {
        One(u8),
        Two,
    }
    #[derive(Serialize)]
    #[serde(tag = "t")]
    enum Int {
        One { a: u8 },
        Two,
    }
    let s = |x: &str| x.to_string();
    macro_rules! want {
        ($tag:expr, $v:expr, $($k:expr => $x:expr),*) => {
            c.case(|| format!("derived {}", $tag), || {
                let got = direct("q", &$v);
                let w: Vec<(String, String)> = vec![$((s($k), s($x))),*];
                if got != Ok(w.clone()) { return Err(format!("expected {w:?}, got {got:?}")); }
                Ok(())
            })
        };
    }
    want!("transparent", Transparent(s("a b")), "q" => "a b");
    want!("Some(transparent)", Some(Transparent(s(""))), "q" => "");
    want!("enum renamed", Plain::A, "q" => "aye-aye");
    want!("Some(enum)", Some(&Plain::B), "q" => "B");
    want!("vec of enums", vec![Plain::A, Plain::B], "q" => "aye-aye", "q" => "B");
    want!("object", Obj { a: s("x&y"), b: None, c: Some(1) }, "first name" => "x&y", "c" => "1");
    want!("object none", Some(Obj { a: s(""), b: Some(2), c: None }), "first name" => "", "b" => "2");
    want!("untagged s", Unt::S(s("v")), "q" => "v");
    want!("untagged n", Unt::N(-1), "q" => "-1");
    want!("untagged v", Unt::V(vec![s("a"), s("b")]), "q" => "a", "q" => "b");
    want!("untagged o", Unt::O { k: s("v") }, "k" => "v");
    want!("flatten", Flat { x: 1, rest: [(s("y"), s("2"))].into() }, "x" => "1", "y" => "2");
    want!("adjacent", Adj::One(3), "t" => "One", "v" => "3");
    want!("adjacent unit", Adj::Two, "t" => "Two");
    want!("internal", Int::One { a: 4 }, "t" => "One", "a" => "4");
    want!("internal unit", Int::Two, "t" => "Two");
    want!("reference", &&"r", "q" => "r");
    want!("box", Box::new(5u8), "q" => "5");
    want!("vec of some", vec![Some(1u8), Some(2)], "q" => "1", "q" => "2");
    want!("json scalar", serde_json::json!(12), "q" => "12");
    want!("json array", serde_json::json!([1, "b", true]), "q" => "1", "q" => "b", "q" => "true");
    want!("json null", serde_json::json!(null),);
    want!("json object", serde_json::json!({"a": 1}), "a" => "1");
}
