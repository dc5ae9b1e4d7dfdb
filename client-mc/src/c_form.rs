//! C09: form bodies.
use crate::shape::*;
use mc_core::*;
use progenitor_client::{Error, RequestBuilderExt};

type Pairs = Result<Vec<(String, String)>, String>;

fn observe<T: serde::Serialize + ?Sized>(client: &reqwest::Client, pre: bool, v: &T) -> Result<Pairs, String> {
    let mut rb = client.post("http://h/p?q=1");
    if pre {
        rb = rb.header("x-before", "1");
    }
    let r: Result<reqwest::RequestBuilder, Error<u8>> = rb.form_urlencoded(v);
    let rb = match r {
        Err(Error::InvalidRequest(m)) if !m.is_empty() => return Ok(Err(m)),
        Err(e) => return Err(format!("wrong kind of error: {e}")),
        Ok(rb) => rb,
    };
    let req = rb.header("x-after", "2").build().map_err(|e| format!("not buildable: {e}"))?;
    let ct: Vec<_> = req.headers().get_all("content-type").iter().collect();
    if ct != ["application/x-www-form-urlencoded"] {
        return Err(format!("content type {ct:?}"));
    }
    if req.headers().get("x-after").is_none() || req.headers().contains_key("x-before") != pre {
        return Err("other headers disturbed".into());
    }
    if req.url().as_str() != "http://h/p?q=1" || req.method() != "POST" {
        return Err(format!("request line disturbed: {} {}", req.method(), req.url()));
    }
    let body = req.body().ok_or("no body")?.as_bytes().ok_or("streaming body")?;
    let text = std::str::from_utf8(body).map_err(|e| e.to_string())?;
    if let Some(ch) = text.chars().find(|c| !c.is_ascii_graphic()) {
        return Err(format!("raw {ch:?} in the body"));
    }
    Ok(Ok(form_decode(text)?))
}

pub fn run() {
    let c = Check::new("C09");
    let client = reqwest::Client::new();
    let case = |v: &V| {
        c.trans(1);
        c.case(
            || format!("body={v:?}"),
            || {
                let got = observe(&client, false, v)?;
                c.state(&format!("{got:?}"));
                c.outcome(match &got {
                    Err(_) => "InvalidRequest",
                    Ok(p) if p.is_empty() => "empty body",
                    Ok(_) => "pairs",
                });
                agree(&form_meaning(v), &got)
            },
        )
    };
    let l = leaves();
    l.iter().for_each(case);
    let d1 = compounds(&l[..if c.thorough { 9 } else { 6 }], 3);
    par(&d1, case);
    let d1a = compounds(&l, 1);
    par(&d1a, case);
    let mut kids = vec![V::Str("z".into()), V::None];
    kids.extend(compounds(&l[..3], if c.thorough { 2 } else { 1 }));
    let d2 = compounds(&kids, 1);
    par(&d2, case);
    // sequences of pairs
    let pairs: Vec<V> = l[..8]
        .iter()
        .flat_map(|a| l[..8].iter().map(move |b| V::Tuple(vec![a.clone(), b.clone()])))
        .collect();
    let two: Vec<V> = pairs.iter().flat_map(|a| pairs.iter().step_by(5).map(move |b| V::Seq(vec![a.clone(), b.clone()], true))).collect();
    par(&two, case);
    c.bound(format!("all serde shapes as body: {} depth-1, {} depth-2, {} pair lists", d1.len() + d1a.len(), d2.len(), two.len()));
    c.sample("body", || json!({"value": format!("{:?}", d1[d1.len() / 2]), "sent": format!("{:?}", observe(&client, false, &d1[d1.len() / 2]))}));

    // all characters, in names and values
    let blocks: Vec<u32> = (0..0x110).collect();
    par(&blocks, |b| {
        for cp in b * 0x1000..(b + 1) * 0x1000 {
            let Some(ch) = char::from_u32(cp) else { continue };
            if cp < 0x1000 || cp % 0x1000 < 2 || c.thorough {
                c.case(
                    || format!("char {ch:?}"),
                    || {
                        let s = format!("{ch}x{ch}");
                        let got = observe(&client, true, &std::collections::BTreeMap::from([(s.clone(), s.clone())]))?;
                        (got == Ok(vec![(s.clone(), s)])).then_some(()).ok_or(format!("{got:?}"))
                    },
                );
            }
        }
    });
    for a in 0..128u8 {
        for b in 0..128u8 {
            let s = String::from_utf8(vec![a, b]).unwrap();
            c.case(
                || format!("ascii pair {s:?}"),
                || {
                    let got = observe(&client, false, &[(s.as_str(), s.as_str())][..])?;
                    (got == Ok(vec![(s.clone(), s.clone())])).then_some(()).ok_or(format!("{got:?}"))
                },
            );
        }
    }
    // lengths
    for n in 0..=(if c.thorough { 1000 } else { 250 }) {
        c.case(
            || format!("{n} fields"),
            || {
                let m: std::collections::BTreeMap<String, usize> = (0..n).map(|i| (format!("k{i:05}"), i)).collect();
                let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
                if observe(&client, true, &m)? != Ok(want) {
                    return Err("wrong fields".into());
                }
                let s = "a&".repeat(n);
                if observe(&client, true, &[("v", &s)][..])? != Ok(vec![("v".into(), s)]) {
                    return Err("wrong long value".into());
                }
                Ok(())
            },
        );
    }
    c.bound("every char below U+1000 (thorough: every char), all ASCII pairs as name and value, every field count / value length up to the bound");
    // what a server receives
    let w = crate::wire::Wire::start();
    for v in [
        V::Struct(vec![(1, V::Str("a b".into())), (2, V::Str("&=".into()))]),
        V::Struct(vec![]),
        V::Map(vec![(V::Str("\u{e9}".into()), V::Str("\u{1F600}".into()))]),
    ] {
        c.case(
            || format!("wire body={v:?}"),
            || {
                let rb = w.client.post(format!("{}/p", w.base()));
                let r: Result<_, Error> = rb.form_urlencoded(&v);
                let (req, _) = w.exchange(r.map_err(|e| e.to_string())?, b"HTTP/1.1 204 No Content\r\n\r\n")?;
                if req.header("content-type") != ["application/x-www-form-urlencoded"] {
                    return Err(format!("{:?}", req.headers));
                }
                c.outcome("received by a server");
                agree(&form_meaning(&v), &form_decode(std::str::from_utf8(&req.body).unwrap()))
            },
        );
    }
    c.finish_and_exit();
}
