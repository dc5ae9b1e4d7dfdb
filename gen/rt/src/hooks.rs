//! Functions the generated clients are configured to call. What they see is
//! recorded per thread: a client runs on the thread of its peer.
use model::Received;
use std::cell::RefCell;
use std::rc::Rc;

/// The inner value of a client.
#[derive(Clone, Debug, Default)]
pub struct Inner {
    pub id: u64,
}

pub const PRE: &str = "pre_hook";
pub const PRE_ASYNC: &str = "pre_hook_async";
pub const POST: &str = "post_hook";
pub const POST_ASYNC: &str = "post_hook_async";

#[derive(Clone, Debug)]
pub struct Event {
    pub hook: &'static str,
    pub inner: Option<u64>,
    /// Requests the peer had received.
    pub received: usize,
    pub request: Option<Snap>,
    pub result: Option<Result<(u16, Vec<(String, Vec<u8>)>), String>>,
    /// An asynchronous hook ran to its end.
    pub finished: bool,
}

/// A request as a hook sees it, or leaves it.
#[derive(Clone, Debug)]
pub struct Snap {
    pub seen: Received,
    pub left: Received,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Edit {
    None,
    AddHeader,
    ReplaceHeader,
    RemoveHeader,
    Query,
    Path,
    Method,
    Body,
}
pub const EDITS: [Edit; 8] = [Edit::None, Edit::AddHeader, Edit::ReplaceHeader, Edit::RemoveHeader, Edit::Query, Edit::Path, Edit::Method, Edit::Body];

struct State {
    events: Vec<Event>,
    peer: Option<Rc<RefCell<Vec<Received>>>>,
    edit: Edit,
    failing: Vec<&'static str>,
}

thread_local! {
    static STATE: RefCell<State> = const { RefCell::new(State { events: vec![], peer: None, edit: Edit::None, failing: vec![] }) };
}

/// Start recording.
pub fn begin(peer: Rc<RefCell<Vec<Received>>>, edit: Edit, failing: &[&'static str]) {
    STATE.with(|s| *s.borrow_mut() = State { events: vec![], peer: Some(peer), edit, failing: failing.to_vec() });
}

pub fn end() -> Vec<Event> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.peer = None;
        std::mem::take(&mut s.events)
    })
}

fn event(hook: &'static str, inner: Option<&Inner>, request: Option<Snap>, result: Option<&reqwest::Result<reqwest::Response>>) -> usize {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let received = s.peer.as_ref().map_or(0, |p| p.borrow().len());
        let result = result.map(|r| match r {
            Ok(r) => Ok((r.status().as_u16(), r.headers().iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect())),
            Err(e) => Err(e.to_string()),
        });
        s.events.push(Event { hook, inner: inner.map(|i| i.id), received, request, result, finished: false });
        s.events.len() - 1
    })
}

fn finish(n: usize, left: Option<Received>) -> Result<(), String> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let e = &mut s.events[n];
        e.finished = true;
        if let (Some(r), Some(l)) = (&mut e.request, left) {
            r.left = l;
        }
        let hook = e.hook;
        if s.failing.contains(&hook) { Err(format!("{hook} says no")) } else { Ok(()) }
    })
}

fn look(r: &reqwest::Request) -> Received {
    let target = match r.url().query() {
        Some(q) => format!("{}?{q}", r.url().path()),
        None => r.url().path().to_string(),
    };
    Received {
        method: r.method().to_string(),
        target,
        headers: r.headers().iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect(),
        body: r.body().map(|b| b.as_bytes().expect("a body in memory").to_vec()).unwrap_or_default(),
    }
}
fn snap(r: &reqwest::Request) -> Snap {
    Snap { seen: look(r), left: look(r) }
}

fn apply(r: &mut reqwest::Request) {
    let v = reqwest::header::HeaderValue::from_static("from the hook");
    match STATE.with(|s| s.borrow().edit) {
        Edit::None => {}
        Edit::AddHeader => drop(r.headers_mut().append("x-hook", v)),
        Edit::ReplaceHeader => drop(r.headers_mut().insert("api-version", v)),
        Edit::RemoveHeader => drop(r.headers_mut().remove("api-version")),
        Edit::Query => drop(r.url_mut().query_pairs_mut().append_pair("hook", "1&2")),
        Edit::Path => {
            let p = format!("{}/hooked", r.url().path());
            r.url_mut().set_path(&p);
        }
        Edit::Method => *r.method_mut() = reqwest::Method::PATCH,
        Edit::Body => {
            r.headers_mut().remove("content-length");
            *r.body_mut() = Some("from the hook".into());
        }
    }
}

async fn pause() {
    tokio::task::yield_now().await;
    tokio::task::yield_now().await;
}

pub fn pre(r: &reqwest::Request) {
    event(PRE, None, Some(snap(r)), None);
}
pub fn pre_i(i: &Inner, r: &reqwest::Request) {
    event(PRE, Some(i), Some(snap(r)), None);
}
async fn pre_any(i: Option<&Inner>, r: &mut reqwest::Request) -> Result<(), String> {
    let n = event(PRE_ASYNC, i, Some(snap(r)), None);
    pause().await;
    apply(r);
    pause().await;
    finish(n, Some(look(r)))
}
pub async fn pre_async(r: &mut reqwest::Request) -> Result<(), String> {
    pre_any(None, r).await
}
pub async fn pre_async_i(i: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
    pre_any(Some(i), r).await
}
pub fn post(r: &reqwest::Result<reqwest::Response>) {
    event(POST, None, None, Some(r));
}
pub fn post_i(i: &Inner, r: &reqwest::Result<reqwest::Response>) {
    event(POST, Some(i), None, Some(r));
}
async fn post_any(i: Option<&Inner>, r: &reqwest::Result<reqwest::Response>) -> Result<(), String> {
    let n = event(POST_ASYNC, i, None, Some(r));
    pause().await;
    finish(n, None)
}
pub async fn post_async(r: &reqwest::Result<reqwest::Response>) -> Result<(), String> {
    post_any(None, r).await
}
pub async fn post_async_i(i: &Inner, r: &reqwest::Result<reqwest::Response>) -> Result<(), String> {
    post_any(Some(i), r).await
}
