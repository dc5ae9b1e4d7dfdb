use std::io::Write;
use std::process::{Command, Stdio};

pub mod config {
    #[derive(Default, Debug, Clone)]
    pub struct Config {
        pub normalize_doc_attributes: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub max_width: Option<usize>,
        pub format_strings: Option<bool>,
    }
}

#[derive(Debug)]
pub enum Error {
    Rustfmt(String),
    IO(std::io::Error),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub fn rustfmt<T: ToString>(input: T) -> Result<String, Error> {
    rustfmt_config(config::Config::default(), input)
}

pub fn rustfmt_config<T: ToString>(config: config::Config, input: T) -> Result<String, Error> {
    let mut options = vec![];
    for (n, v) in [
        ("normalize_doc_attributes", config.normalize_doc_attributes.map(|x| x.to_string())),
        ("wrap_comments", config.wrap_comments.map(|x| x.to_string())),
        ("max_width", config.max_width.map(|x| x.to_string())),
        ("format_strings", config.format_strings.map(|x| x.to_string())),
    ] {
        options.extend(v.map(|v| format!("{n}={v}")));
    }
    let home = std::env::var("RUSTUP_HOME").unwrap_or_else(|_| format!("{}/.rustup", std::env::var("HOME").unwrap_or("/root".into())));
    let nightly = format!("{home}/toolchains/nightly-x86_64-unknown-linux-gnu/bin/rustfmt");
    let mut c = Command::new(if std::path::Path::new(&nightly).exists() { &nightly } else { "rustfmt" });
    c.args(["--edition", "2021", "--unstable-features"]);
    if !options.is_empty() {
        c.args(["--config", &options.join(",")]);
    }
    let mut c = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(Error::IO)?;
    let mut stdin = c.stdin.take().unwrap();
    let text = input.to_string();
    let w = std::thread::spawn(move || stdin.write_all(text.as_bytes()));
    let out = c.wait_with_output().map_err(Error::IO)?;
    let _ = w.join();
    if !out.status.success() {
        return Err(Error::Rustfmt(String::from_utf8_lossy(&out.stderr).into()));
    }
    Ok(String::from_utf8(out.stdout).unwrap())
}
