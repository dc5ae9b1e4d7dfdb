//! Runs generated clients against a scripted loopback peer.
use futures::{Stream, StreamExt};
pub use model::{Args, Received, Style};
use progenitor_client::{ByteStream, Error, ResponseValue};
pub use reqwest;
use serde::{de::DeserializeOwned, Serialize};
pub use serde_json::Value;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub mod checks;
pub mod cli;
pub mod hooks;
pub mod peer;

/// What a driver needs to make a client and call it.
#[derive(Clone)]
pub struct Env {
    pub base: String,
    pub http: reqwest::Client,
    pub inner: hooks::Inner,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Given {
    Value(Value),
    /// A value whose conversion fails.
    Bad,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Set(String, Given),
    /// `body_map` setting a field of the body.
    Map(String, Given),
}

#[derive(Clone, Debug, Default)]
pub struct Input {
    pub args: Args,
    pub steps: Vec<Step>,
    /// Which of the traits of the operation is used (tagged style).
    pub via: usize,
}

impl Input {
    /// The same arguments for either interface.
    pub fn of(args: &Args) -> Input {
        Input {
            args: args.clone(),
            steps: args
                .iter()
                .filter(|(_, v)| !v.is_null())
                .map(|(k, v)| Step::Set(k.clone(), Given::Value(v.clone())))
                .collect(),
            via: 0,
        }
    }
    pub fn steps(steps: Vec<Step>) -> Input {
        Input { steps, ..Default::default() }
    }
    /// The argument of a positional call.
    pub fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T, String> {
        let v = self.args.get(key).cloned().unwrap_or(Value::Null);
        serde_json::from_value(v.clone()).map_err(|e| format!("argument {key} cannot be {v}: {e}"))
    }
    pub fn bytes(&self, key: &str) -> Result<Vec<u8>, String> {
        Ok(text_bytes(&self.args.get(key).cloned().unwrap_or_default()))
    }
}

pub fn text_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.clone().into_bytes(),
        v => v.to_string().into_bytes(),
    }
}

/// The value for a builder setter: converts to whatever is asked for.
pub fn give<T: DeserializeOwned>(g: &Given) -> Result<T, String> {
    match g {
        Given::Bad => Err("refused by the caller".into()),
        Given::Value(v) => serde_json::from_value(v.clone()).map_err(|e| format!("{e}")),
    }
}
pub fn give_body(g: &Given) -> Result<reqwest::Body, String> {
    match g {
        Given::Bad => Err("refused by the caller".into()),
        Given::Value(v) => Ok(text_bytes(v).into()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Ok,
    ErrorResponse,
    InvalidRequest,
    Communication,
    InvalidUpgrade,
    ResponseBody,
    InvalidPayload,
    Unexpected,
    PreHook,
    PostHook,
    Other,
}

pub enum Shown {
    None,
    Json(Value),
    /// Bytes received and whether the stream ended cleanly.
    Bytes(Vec<u8>, bool),
    Upgraded(reqwest::Upgraded),
}

impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Shown::None => write!(f, "no body"),
            Shown::Json(v) => write!(f, "json {v}"),
            Shown::Bytes(b, ok) => write!(f, "bytes {:?}{}", String::from_utf8_lossy(b), if *ok { "" } else { ", cut off" }),
            Shown::Upgraded(_) => write!(f, "an upgraded connection"),
        }
    }
}

/// The outcome of a call.
#[derive(Debug)]
pub struct Out {
    pub kind: Kind,
    pub status: Option<u16>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub shown: Shown,
    /// The error's own text.
    pub text: String,
}

fn headers(h: &reqwest::header::HeaderMap) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect()
}

type Show<T> = fn(T) -> Pin<Box<dyn Future<Output = Shown>>>;

pub fn typed<T: Serialize + 'static>(t: T) -> Pin<Box<dyn Future<Output = Shown>>> {
    Box::pin(async move { Shown::Json(serde_json::to_value(&t).unwrap()) })
}
pub fn empty(_: ()) -> Pin<Box<dyn Future<Output = Shown>>> {
    Box::pin(async { Shown::None })
}
pub fn stream(s: ByteStream) -> Pin<Box<dyn Future<Output = Shown>>> {
    Box::pin(async move {
        let mut s = s.into_inner();
        let mut out = vec![];
        while let Some(x) = s.next().await {
            match x {
                Ok(b) => out.extend_from_slice(&b),
                Err(_) => return Shown::Bytes(out, false),
            }
        }
        Shown::Bytes(out, true)
    })
}
pub fn upgraded(u: reqwest::Upgraded) -> Pin<Box<dyn Future<Output = Shown>>> {
    Box::pin(async { Shown::Upgraded(u) })
}

async fn answer<T: 'static>(kind: Kind, r: ResponseValue<T>, show: Show<T>, text: String) -> Out {
    let (status, h) = (r.status().as_u16(), headers(r.headers()));
    Out { kind, status: Some(status), headers: h, shown: show(r.into_inner()).await, text }
}

/// The outcome of a call as data.
pub async fn out<T: 'static, E: 'static>(r: Result<ResponseValue<T>, Error<E>>, ok: Show<T>, err: Show<E>) -> Out {
    match r {
        Ok(v) => answer(Kind::Ok, v, ok, String::new()).await,
        Err(e) => error(e, err).await,
    }
}

pub async fn error<E: 'static>(e: Error<E>, show: Show<E>) -> Out {
    let plain = |kind, status: Option<u16>, text: String| Out { kind, status, headers: vec![], shown: Shown::None, text };
    match e {
        Error::ErrorResponse(v) => answer(Kind::ErrorResponse, v, show, String::new()).await,
        Error::UnexpectedResponse(r) => {
            let (status, h) = (r.status().as_u16(), headers(r.headers()));
            let shown = match r.bytes().await {
                Ok(b) => Shown::Bytes(b.to_vec(), true),
                Err(_) => Shown::Bytes(vec![], false),
            };
            Out { kind: Kind::Unexpected, status: Some(status), headers: h, shown, text: String::new() }
        }
        Error::InvalidRequest(s) => plain(Kind::InvalidRequest, None, s),
        Error::CommunicationError(e) => plain(Kind::Communication, e.status().map(|s| s.as_u16()), e.to_string()),
        Error::InvalidUpgrade(e) => plain(Kind::InvalidUpgrade, e.status().map(|s| s.as_u16()), e.to_string()),
        Error::ResponseBodyError(e) => plain(Kind::ResponseBody, e.status().map(|s| s.as_u16()), e.to_string()),
        Error::InvalidResponsePayload(b, e) => {
            Out { kind: Kind::InvalidPayload, status: None, headers: vec![], shown: Shown::Bytes(b.to_vec(), true), text: e.to_string() }
        }
        Error::PreHookError(s) => plain(Kind::PreHook, None, s),
        Error::PostHookError(s) => plain(Kind::PostHook, None, s),
    }
}

pub type Fut = Pin<Box<dyn Future<Output = Result<Out, String>>>>;
pub type Items = Pin<Box<dyn Stream<Item = Result<Value, Out>>>>;

/// What can be handed to another thread. It does not compile otherwise.
pub fn moved<T: Send>(x: T) -> T {
    x
}

/// What threads can share.
pub const fn shared<T: Send + Sync + Clone>() {}

/// The items of a paginated stream as data.
pub fn items<T: Serialize + 'static, E: 'static>(
    s: impl Stream<Item = Result<T, Error<E>>> + 'static,
    err: Show<E>,
) -> Items {
    Box::pin(s.then(move |r| async move {
        match r {
            Ok(t) => Ok(serde_json::to_value(&t).unwrap()),
            Err(e) => Err(error(e, err).await),
        }
    }))
}

/// One operation of one generated client.
pub struct Entry {
    pub doc: &'static str,
    pub style: Style,
    pub op: &'static str,
    /// Keys of the arguments, and whether each may be left out (positional).
    pub args: &'static [(&'static str, bool)],
    /// The traits offering the operation (tagged style).
    pub traits: &'static [&'static str],
    pub call: fn(&Env, &Input) -> Fut,
    pub stream: Option<fn(&Env, &Input) -> Result<Items, String>>,
    /// The command line of the client.
    pub cli: Option<cli::Fns>,
    pub mock: Option<Mocked>,
    /// Makes the client of the document.
    pub live: Option<fn(&Env, How) -> Box<dyn Live>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    New,
    WithClient,
}

/// A generated client.
pub trait Live {
    fn base(&self) -> String;
    fn version(&self) -> String;
    fn inner(&self) -> Option<u64>;
    fn http(&self) -> reqwest::Client;
    fn dup(&self) -> Box<dyn Live>;
    /// Makes the call without starting it.
    fn call(&self, op: &str, i: &Input) -> Result<Fut, String>;
    fn stream(&self, op: &str, i: &Input) -> Result<Items, String>;
}

/// The generated mock of an operation.
pub struct Mocked {
    /// Made with the given expectations (null: absent), and the answer of
    /// that name with its status and value.
    pub make: fn(&Args, Option<(&str, u16, Value)>) -> Result<httpmock::Mock, String>,
    /// Parameters, and whether they may be absent.
    pub when: &'static [(&'static str, bool)],
    /// Answers, and whether the status is given.
    pub then: &'static [(&'static str, bool)],
}

pub struct Registry(pub Vec<Entry>);

impl Registry {
    pub fn find(&self, doc: &str, style: Style, op: &str) -> Option<&Entry> {
        self.0.iter().find(|e| e.doc == doc && e.style == style && e.op == op)
    }
}

/// What the hooks and callbacks of generated code did.
pub type Log = Arc<Mutex<Vec<String>>>;
