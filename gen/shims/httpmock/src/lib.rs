use regex::Regex;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct HttpMockRequest {
    /// As in the request line, without the query.
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    /// Decoded.
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}

impl HttpMockRequest {
    pub fn new(method: &str, target: &str, headers: Vec<(String, String)>, body: Vec<u8>) -> HttpMockRequest {
        let (path, query) = target.split_once('?').unwrap_or((target, ""));
        HttpMockRequest {
            path: path.into(),
            method: method.into(),
            headers: Some(headers),
            query_params: Some(url::form_urlencoded::parse(query.as_bytes()).into_owned().collect()),
            body: Some(body),
        }
    }
}

pub type MockMatcherFunction = fn(&HttpMockRequest) -> bool;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Method {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}

impl From<&str> for Method {
    fn from(s: &str) -> Method {
        use Method::*;
        [GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH].into_iter().find(|m| format!("{m:?}") == s.to_uppercase()).expect("method")
    }
}

type Matcher = Rc<dyn Fn(&HttpMockRequest) -> bool>;

#[derive(Clone)]
pub struct When(Rc<RefCell<Vec<Matcher>>>);

fn query(r: &HttpMockRequest) -> &[(String, String)] {
    r.query_params.as_deref().unwrap_or_default()
}
fn headers(r: &HttpMockRequest) -> &[(String, String)] {
    r.headers.as_deref().unwrap_or_default()
}
fn body(r: &HttpMockRequest) -> String {
    String::from_utf8_lossy(r.body.as_deref().unwrap_or_default()).into_owned()
}
fn form(r: &HttpMockRequest) -> Vec<(String, String)> {
    url::form_urlencoded::parse(r.body.as_deref().unwrap_or_default()).into_owned().collect()
}
/// Does `a` include everything of `b`?
fn includes(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => b.iter().all(|(k, v)| a.get(k).is_some_and(|w| includes(w, v))),
        (a, b) => a == b,
    }
}

impl When {
    fn and(self, f: impl Fn(&HttpMockRequest) -> bool + 'static) -> Self {
        self.0.borrow_mut().push(Rc::new(f));
        self
    }
    pub fn any_request(self) -> Self {
        self
    }
    pub fn method<M: Into<Method>>(self, method: M) -> Self {
        let m = format!("{:?}", method.into());
        self.and(move |r| r.method == m)
    }
    pub fn path<S: Into<String>>(self, path: S) -> Self {
        let p = path.into();
        self.and(move |r| r.path == p)
    }
    pub fn path_contains<S: Into<String>>(self, substring: S) -> Self {
        let p = substring.into();
        self.and(move |r| r.path.contains(&p))
    }
    pub fn path_matches<R: Into<Regex>>(self, regex: R) -> Self {
        let re = regex.into();
        self.and(move |r| re.is_match(&r.path))
    }
    pub fn query_param<N: Into<String>, V: Into<String>>(self, name: N, value: V) -> Self {
        let (n, v) = (name.into(), value.into());
        self.and(move |r| query(r).iter().any(|(a, b)| *a == n && *b == v))
    }
    pub fn query_param_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.and(move |r| query(r).iter().any(|(a, _)| *a == n))
    }
    pub fn header<N: Into<String>, V: Into<String>>(self, name: N, value: V) -> Self {
        let (n, v) = (name.into(), value.into());
        self.and(move |r| headers(r).iter().any(|(a, b)| a.eq_ignore_ascii_case(&n) && *b == v))
    }
    pub fn header_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.and(move |r| headers(r).iter().any(|(a, _)| a.eq_ignore_ascii_case(&n)))
    }
    pub fn body<S: Into<String>>(self, b: S) -> Self {
        let b = b.into();
        self.and(move |r| body(r) == b)
    }
    pub fn body_matches<R: Into<Regex>>(self, regex: R) -> Self {
        let re = regex.into();
        self.and(move |r| re.is_match(&body(r)))
    }
    pub fn body_contains<S: Into<String>>(self, substring: S) -> Self {
        let b = substring.into();
        self.and(move |r| body(r).contains(&b))
    }
    pub fn json_body<V: Into<Value>>(self, value: V) -> Self {
        let v = value.into();
        self.and(move |r| serde_json::from_str::<Value>(&body(r)).is_ok_and(|b| b == v))
    }
    pub fn json_body_obj<'a, T>(self, body: &T) -> Self
    where
        T: Serialize + Deserialize<'a>,
    {
        let v = serde_json::to_value(body).expect("cannot serialize");
        self.json_body(v)
    }
    pub fn json_body_partial<S: Into<String>>(self, partial: S) -> Self {
        let v: Value = serde_json::from_str(&partial.into()).expect("cannot parse");
        self.and(move |r| serde_json::from_str::<Value>(&body(r)).is_ok_and(|b| includes(&b, &v)))
    }
    pub fn x_www_form_urlencoded_tuple<N: Into<String>, V: Into<String>>(self, key: N, value: V) -> Self {
        let (k, v) = (key.into(), value.into());
        self.and(move |r| form(r).iter().any(|(a, b)| *a == k && *b == v))
    }
    pub fn x_www_form_urlencoded_key_exists<S: Into<String>>(self, key: S) -> Self {
        let k = key.into();
        self.and(move |r| form(r).iter().any(|(a, _)| *a == k))
    }
    pub fn matches(self, matcher: MockMatcherFunction) -> Self {
        self.and(matcher)
    }
    pub fn and_then(self, f: impl FnOnce(When) -> When) -> Self {
        f(self)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Response {
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

#[derive(Clone)]
pub struct Then(Rc<RefCell<Response>>);

impl Then {
    fn set(self, f: impl FnOnce(&mut Response)) -> Self {
        f(&mut self.0.borrow_mut());
        self
    }
    pub fn status(self, status: u16) -> Self {
        self.set(|r| r.status = Some(status))
    }
    pub fn header<N: Into<String>, V: Into<String>>(self, name: N, value: V) -> Self {
        let h = (name.into(), value.into());
        self.set(|r| r.headers.push(h))
    }
    pub fn body(self, body: impl AsRef<[u8]>) -> Self {
        self.set(|r| r.body = body.as_ref().to_vec())
    }
    pub fn json_body<V: Into<Value>>(self, body: V) -> Self {
        let v = body.into().to_string().into_bytes();
        self.set(|r| r.body = v)
    }
    pub fn json_body_obj<T: Serialize>(self, body: &T) -> Self {
        let v = serde_json::to_value(body).expect("cannot serialize").to_string().into_bytes();
        self.set(|r| r.body = v)
    }
    pub fn and(self, f: impl FnOnce(Then) -> Then) -> Self {
        f(self)
    }
}

#[derive(Clone)]
pub struct Mock {
    when: When,
    pub response: Response,
}

impl Mock {
    pub fn matches(&self, r: &HttpMockRequest) -> bool {
        self.when.0.borrow().iter().all(|m| m(r))
    }
}

#[derive(Default)]
pub struct MockServer;

impl MockServer {
    pub fn start() -> MockServer {
        MockServer
    }
    pub fn mock<F: FnOnce(When, Then)>(&self, config_fn: F) -> Mock {
        let (w, t) = (When(Default::default()), Then(Default::default()));
        config_fn(w.clone(), t.clone());
        let response = t.0.borrow().clone();
        Mock { when: w, response }
    }
}
