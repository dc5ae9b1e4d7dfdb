//! The configuration handed to generated command lines: records the callbacks.
use crate::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// The override of an operation.
    Over(String),
    Item(u16, Vec<(String, Vec<u8>)>, Value),
    NoItem(u16, Vec<(String, Vec<u8>)>),
    Error(Failure),
    Start,
    Listed(Value),
    End,
    EndError(Failure),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Failure {
    pub kind: Kind,
    pub status: Option<u16>,
    /// Value of an error response.
    pub value: Option<Value>,
    pub text: String,
}

fn failure<T: Serialize>(e: &Error<T>) -> Failure {
    let kind = match e {
        Error::ErrorResponse(_) => Kind::ErrorResponse,
        Error::UnexpectedResponse(_) => Kind::Unexpected,
        Error::InvalidRequest(_) => Kind::InvalidRequest,
        Error::CommunicationError(_) => Kind::Communication,
        Error::InvalidUpgrade(_) => Kind::InvalidUpgrade,
        Error::ResponseBodyError(_) => Kind::ResponseBody,
        Error::InvalidResponsePayload(..) => Kind::InvalidPayload,
        Error::PreHookError(_) => Kind::PreHook,
        Error::PostHookError(_) => Kind::PostHook,
    };
    let value = match e {
        Error::ErrorResponse(v) => Some(serde_json::to_value(&**v).unwrap()),
        _ => None,
    };
    Failure { kind, status: e.status().map(|s| s.as_u16()), value, text: String::new() }
}

#[derive(Clone, Default)]
pub struct Rec {
    pub events: Rc<RefCell<Vec<Event>>>,
    /// The override refuses the call.
    pub veto: bool,
    /// Parameters the override changes.
    pub edits: Vec<(String, String)>,
}

impl Rec {
    fn add(&self, e: Event) {
        self.events.borrow_mut().push(e)
    }
    pub fn over(&self, op: &str) -> anyhow::Result<()> {
        self.add(Event::Over(op.into()));
        if self.veto {
            anyhow::bail!("the override says no")
        }
        Ok(())
    }
    pub fn item<T: Serialize>(&self, v: &ResponseValue<T>) {
        self.add(Event::Item(v.status().as_u16(), headers(v.headers()), serde_json::to_value(&**v).unwrap()))
    }
    pub fn no_item(&self, v: &ResponseValue<()>) {
        self.add(Event::NoItem(v.status().as_u16(), headers(v.headers())))
    }
    pub fn failed<T: Serialize + std::fmt::Debug>(&self, e: &Error<T>) {
        self.add(Event::Error(failure(e)))
    }
    pub fn start(&self) {
        self.add(Event::Start)
    }
    pub fn listed<T: Serialize>(&self, v: &T) {
        self.add(Event::Listed(serde_json::to_value(v).unwrap()))
    }
    pub fn end(&self) {
        self.add(Event::End)
    }
    pub fn end_failed<T: Serialize + std::fmt::Debug>(&self, e: &Error<T>) {
        self.add(Event::EndError(failure(e)))
    }
}

pub type Fut = Pin<Box<dyn Future<Output = Result<(), String>>>>;

/// The command line of one client.
#[derive(Clone, Copy)]
pub struct Fns {
    /// Every command, as listed.
    pub names: fn() -> Vec<String>,
    pub command: fn(&str) -> Option<clap::Command>,
    pub run: fn(&Env, &str, clap::ArgMatches, Rec) -> Fut,
}
