//! C01: a path parameter is exactly one path segment that decodes to itself.
use mc_core::*;
use progenitor_client::encode_path;

/// (template, format with the encoded value, position of the segment, text
/// around the value inside its segment)
struct Tmpl {
    name: &'static str,
    base: &'static str,
    pre: &'static str,
    post: &'static str,
}

const TMPLS: &[Tmpl] = &[
    Tmpl { name: "/{}", base: "http://host.example", pre: "/", post: "" },
    Tmpl { name: "/a/{}/b", base: "http://host.example:8080/root/v1", pre: "/a/", post: "/b" },
    Tmpl { name: "/x-{}.json", base: "https://[::1]:1", pre: "/x-", post: ".json" },
    Tmpl { name: "/a/{}:act", base: "http://127.0.0.1", pre: "/a/", post: ":act" },
    Tmpl { name: "/a/v{}", base: "http://127.0.0.1", pre: "/a/v", post: "" },
];

/// Builds the request exactly as a generated method does and checks the URL
/// that the HTTP client is going to put on the wire.
fn check_one(client: &reqwest::Client, t: &Tmpl, v: &str) -> Result<String, String> {
    let enc = encode_path(v);
    let url = format!("{}{}{}{}", t.base, t.pre, enc, t.post);
    let req = client
        .get(url.clone())
        .build()
        .map_err(|e| format!("URL {url:?} rejected: {e}"))?;
    check_url(req.url(), t, v)?;
    Ok(req.url().path().to_string())
}

fn check_url(u: &url::Url, t: &Tmpl, v: &str) -> Result<(), String> {
    if u.query().is_some() || u.fragment().is_some() {
        return Err(format!("value leaked into query/fragment: {u}"));
    }
    let root = url::Url::parse(t.base).unwrap();
    if u.host_str() != root.host_str()
        || u.port() != root.port()
        || u.scheme() != root.scheme()
        || !u.username().is_empty()
    {
        return Err(format!("authority changed: {u}"));
    }
    let root = root.path().trim_end_matches('/').to_string();
    let rest = u
        .path()
        .strip_prefix(root.as_str())
        .ok_or(format!("base path lost: {u}"))?;
    check_path(rest, t, v)
}

fn check_path(rest: &str, t: &Tmpl, v: &str) -> Result<(), String> {
    let got: Vec<&str> = rest.split('/').collect();
    let tmpl_len = format!("{}{}{}", t.pre, "V", t.post);
    let want: Vec<String> = tmpl_len.split('/').map(|s| s.to_string()).collect();
    if got.len() != want.len() {
        return Err(format!("{} path segments instead of {}: {rest:?}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(&want) {
        let dec = pct_decode(g)?;
        let w = if w.contains('V') { w.replace('V', v) } else { w.clone() };
        if dec != w.as_bytes() {
            return Err(format!(
                "segment decodes to {:?}, not {:?} (raw {g:?})",
                String::from_utf8_lossy(&dec),
                w
            ));
        }
        if let Some(c) = g.chars().find(|c| !c.is_ascii_graphic()) {
            return Err(format!("raw {c:?} on the request line: {g:?}"));
        }
    }
    Ok(())
}

fn case(c: &Check, client: &reqwest::Client, t: &Tmpl, v: &str) {
    c.case(
        || format!("tmpl={} value={:?}", t.name, v),
        || {
            let p = check_one(client, t, v)?;
            c.state(&p);
            Ok(())
        },
    );
}

pub fn run() {
    let c = Check::new("C01");
    let client = reqwest::Client::new();
    let all = TMPLS;

    // 1. every Unicode scalar value, alone and inside text
    let blocks: Vec<u32> = (0..0x110).collect();
    par(&blocks, |b| {
        for cp in b * 0x1000..(b + 1) * 0x1000 {
            let Some(ch) = char::from_u32(cp) else { continue };
            c.trans(1);
            case(&c, &client, &all[1], &ch.to_string());
            if cp < 0x800 || c.thorough {
                for t in all {
                    for v in [format!("{ch}"), format!("a{ch}"), format!("{ch}a"), format!("{ch}{ch}"), format!("a{ch}b")] {
                        case(&c, &client, t, &v);
                    }
                }
            }
        }
    });
    c.bound("every Unicode scalar value as a one-character value; every scalar below U+0800 (thorough: every scalar) in 5 templates x 5 surroundings");

    // 2. every pair of ASCII characters, in every template
    let firsts: Vec<u8> = (0..128).collect();
    par(&firsts, |a| {
        for b in 0..128u8 {
            let v = String::from_utf8(vec![*a, b]).unwrap();
            c.trans(1);
            for t in all {
                case(&c, &client, t, &v);
            }
        }
    });
    c.bound("every pair of ASCII characters in 5 templates");

    // 3. every string up to the depth over the characters that carry meaning
    let alpha: Vec<char> = "/%.?#\\ 2Ff+&=;:@~a\u{e9}\n".chars().collect();
    let depth = if c.thorough { 5 } else { 4 };
    par(&alpha, |first| {
        fn go(c: &Check, client: &reqwest::Client, alpha: &[char], v: &mut String, left: usize) {
            c.trans(1);
            case(c, client, &TMPLS[0], v);
            if left <= 2 || c.thorough {
                case(c, client, &TMPLS[1], v);
            }
            if left == 0 || c.stopped() {
                return;
            }
            for ch in alpha {
                v.push(*ch);
                go(c, client, alpha, v, left - 1);
                v.pop();
            }
        }
        go(&c, &client, &alpha, &mut first.to_string(), depth - 1);
    });
    c.bound(format!("every string of length <= {depth} over {:?}", alpha.iter().collect::<String>()));
    c.sample("alphabet string", || json!({"value": "%2F/..", "on the wire": encode_path("%2F/..")}));

    // 4. every sequence of path tokens (escapes, dots, separators, text)
    let toks = ["%2F", "%2e", "%", "..", ".", "/", "\\", "?q=1", "#f", "%25", "\u{1F600}", " ", "//", "http://x", "~", "\u{7f}", "{id}", "a"];
    let depth = if c.thorough { 5 } else { 3 };
    explore(&c, |ch| {
        let n = ch.choose(depth + 1);
        let v: String = (0..n).map(|_| *ch.pick(&toks)).collect();
        for t in all {
            case(&c, &client, t, &v);
        }
    });
    c.bound(format!("every sequence of <= {depth} of {} tokens", toks.len()));

    // 5. lengths: a special character at every position of long values
    let maxlen = if c.thorough { 1100 } else { 300 };
    let lens: Vec<usize> = (0..=maxlen).collect();
    par(&lens, |&n| {
        c.trans(1);
        case(&c, &client, &all[1], &"x".repeat(n));
        case(&c, &client, &all[1], &"/".repeat(n));
        case(&c, &client, &all[1], &"\u{20ac}".repeat(n));
        if n > 0 && (n % 16 == 0 || n < 80) {
            for i in 0..n {
                let mut s = vec![b'x'; n];
                s[i] = b'/';
                case(&c, &client, &all[1], std::str::from_utf8(&s).unwrap());
            }
        }
    });
    for k in 10..17 {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d) as usize;
            if n * 3 < 65_000 {
                case(&c, &client, &all[1], &"%".repeat(n / 3 + 1));
            }
            case(&c, &client, &all[1], &"y".repeat(n.min(60_000)));
        }
    }
    c.bound(format!("values of every length <= {maxlen} (plain, separators, multi-byte, one separator at each position) and lengths around 2^10..2^16"));

    // 6. values rendered by Display (numbers, bools, uuids) as generated code does
    for i in i16::MIN..=i16::MAX {
        case(&c, &client, &all[0], &i.to_string());
    }
    for f in [0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN, 1e21] {
        case(&c, &client, &all[0], &f.to_string());
    }

    // 7. two adjacent parameters in one segment and two in a row
    let vals = ["", "a", "/", ".", "..", "%2F", "?", "a b", ":", "\u{e9}", "\\"];
    for a in vals {
        for b in vals {
            for (name, pre, mid, post) in [
                ("/p{}-{}", "/p", "-", ""),
                ("/p{}/q{}/r", "/p", "/q", "/r"),
                ("/p{}/{}x", "/p", "/", "x"),
            ] {
                c.case(
                    || format!("two tmpl={name} a={a:?} b={b:?}"),
                    || {
                        let url = format!("http://h{pre}{}{mid}{}{post}", encode_path(a), encode_path(b));
                        let req = client.get(&url).build().map_err(|e| e.to_string())?;
                        c.trans(1);
                        let got: Result<Vec<_>, _> = req.url().path().split('/').map(pct_decode).collect();
                        let shape = format!("{pre}\u{0}{mid}\u{1}{post}");
                        let want: Vec<Vec<u8>> = shape
                            .split('/')
                            .map(|s| s.replace('\u{0}', a).replace('\u{1}', b).into_bytes())
                            .collect();
                        if got? != want || req.url().query().is_some() || req.url().fragment().is_some() {
                            return Err(format!("{url} became {}", req.url()));
                        }
                        Ok(())
                    },
                );
            }
        }
    }

    // 8. on the wire: the request line a server actually receives
    let w = crate::wire::Wire::start();
    let mut wire_vals: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    wire_vals.extend(["\u{e9}", "\u{1F600}", "a/b", "a%2Fb", "a?b#c", "../x", "x/..", " x "].map(String::from));
    let t = &Tmpl { name: "wire /a/v{}/b", base: "", pre: "/a/v", post: "/b" };
    for v in &wire_vals {
        c.case(
            || format!("tmpl={} value={v:?}", t.name),
            || {
                let url = format!("{}{}{}{}", w.base(), t.pre, encode_path(v), t.post);
                let r = w.exchange(w.client.get(url), b"HTTP/1.1 204 No Content\r\n\r\n");
                let (req, _) = r?;
                if req.target.contains('?') {
                    return Err(format!("query on the request line {:?}", req.target));
                }
                check_path(&req.target, t, v)?;
                c.outcome("request line received by a server");
                Ok(())
            },
        );
    }
    c.bound("every ASCII character and 8 longer values sent over loopback; request line decoded independently");
    c.assume("a receiver splits the request target at '/' and then percent-decodes each segment (RFC 3986)");
    c.finish_and_exit();
}
