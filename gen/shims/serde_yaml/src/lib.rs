use serde::de::DeserializeOwned;
use serde_json::{Map, Value};

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let v = match serde_json::from_str::<Value>(s) {
        Ok(v) => v,
        Err(_) => {
            let lines: Vec<(usize, &str)> = s
                .lines()
                .filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with('#') && *l != "---")
                .map(|l| (l.len() - l.trim_start().len(), l.trim()))
                .collect();
            let mut lines = lines;
            let mut at = 0;
            let first = lines.first().map_or(0, |l| l.0);
            let v = block(&mut lines, &mut at, first)?;
            if at != lines.len() {
                return Err(Error(format!("unexpected text: {}", lines[at].1)));
            }
            v
        }
    };
    serde_json::from_value(v).map_err(|e| Error(e.to_string()))
}

fn scalar(s: &str) -> Result<Value, Error> {
    if s.starts_with(['"', '[', '{']) {
        return serde_json::from_str(s).map_err(|e| Error(e.to_string()));
    }
    if let Some(x) = s.strip_prefix('\'').and_then(|x| x.strip_suffix('\'')) {
        return Ok(x.replace("''", "'").into());
    }
    if s.starts_with(['&', '*', '!', '|', '>', '%', '@', '`']) {
        return Err(Error(format!("not read by this stand-in: {s}")));
    }
    Ok(match s {
        "" | "~" | "null" => Value::Null,
        "true" => true.into(),
        "false" => false.into(),
        _ => s.parse::<i64>().map(Value::from).or_else(|_| s.parse::<f64>().map(Value::from)).unwrap_or_else(|_| s.into()),
    })
}

/// `key: rest`
fn key(s: &str) -> Option<(String, &str)> {
    if s.starts_with('"') {
        let mut it = serde_json::Deserializer::from_str(s).into_iter::<String>();
        let k = it.next()?.ok()?;
        let rest = s[it.byte_offset()..].strip_prefix(':')?;
        return Some((k, rest.trim()));
    }
    if let Some(x) = s.strip_prefix('\'') {
        let (k, rest) = x.split_once("':")?;
        return Some((k.to_string(), rest.trim()));
    }
    if s.starts_with(['[', '{']) {
        return None;
    }
    match s.split_once(": ") {
        Some((k, r)) => Some((k.to_string(), r.trim())),
        None => s.strip_suffix(':').map(|k| (k.to_string(), "")),
    }
}

fn block(lines: &mut Vec<(usize, &str)>, at: &mut usize, indent: usize) -> Result<Value, Error> {
    let Some(&(i, text)) = lines.get(*at) else { return Ok(Value::Null) };
    if i != indent {
        return Err(Error("bad indentation".into()));
    }
    if text == "-" || text.starts_with("- ") {
        let mut out = vec![];
        while let Some(&(i, text)) = lines.get(*at).filter(|l| l.0 == indent && (l.1 == "-" || l.1.starts_with("- "))) {
            let rest = text[1..].trim_start();
            if rest.is_empty() {
                *at += 1;
                let deeper = lines.get(*at).map_or(0, |l| l.0);
                out.push(if deeper > i { block(lines, at, deeper)? } else { Value::Null });
            } else if key(rest).is_some() || rest.starts_with("- ") {
                let deeper = i + (text.len() - rest.len());
                lines[*at] = (deeper, rest);
                out.push(block(lines, at, deeper)?);
            } else {
                out.push(scalar(rest)?);
                *at += 1;
            }
        }
        return Ok(Value::Array(out));
    }
    if key(text).is_none() {
        *at += 1;
        return scalar(text);
    }
    let mut out = Map::new();
    while let Some(&(_, text)) = lines.get(*at).filter(|l| l.0 == indent) {
        let (k, rest) = key(text).ok_or_else(|| Error(format!("expected a key: {text}")))?;
        *at += 1;
        let v = if rest.is_empty() {
            match lines.get(*at) {
                Some(&(d, t)) if d > indent || d == indent && t.starts_with("- ") => block(lines, at, d)?,
                _ => Value::Null,
            }
        } else {
            scalar(rest)?
        };
        if out.insert(k.clone(), v).is_some() {
            return Err(Error(format!("duplicate key {k}")));
        }
    }
    if lines.get(*at).is_some_and(|l| l.0 > indent) {
        return Err(Error("bad indentation".into()));
    }
    Ok(Value::Object(out))
}
