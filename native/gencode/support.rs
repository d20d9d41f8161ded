//! What the generated clients are run with: a loopback server with a script, hooks that keep a log, and printing of results.
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::Mutex;

#[derive(Clone, Default)]
pub struct Reply {
    pub status: u16,
    pub body: &'static str,
    pub drop: bool,
}
pub static SCRIPT: Mutex<Vec<Reply>> = Mutex::new(Vec::new());
pub static SEEN: Mutex<Vec<serde_json::Value>> = Mutex::new(Vec::new());
pub static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn log(s: String) {
    LOG.lock().unwrap().push(s);
}

pub fn serve() -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    std::thread::spawn(move || {
        for c in l.incoming() {
            if let Ok(c) = c {
                let _ = one(c);
            }
        }
    });
    format!("http://{a}/base")
}

fn one(mut c: std::net::TcpStream) -> std::io::Result<()> {
    c.set_read_timeout(Some(std::time::Duration::from_secs(10)))?;
    let mut buf = vec![];
    let mut b = [0u8; 4096];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = c.read(&mut b)?;
        if n == 0 {
            return Ok(());
        }
        buf.extend_from_slice(&b[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..end]).to_string();
    let mut body = buf[end + 4..].to_vec();
    let mut lines = head.split("\r\n");
    let first: Vec<String> = lines.next().unwrap_or("").split(' ').map(|s| s.to_string()).collect();
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let get = |k: &str| headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
        while body.len() < n {
            let k = c.read(&mut b)?;
            if k == 0 {
                break;
            }
            body.extend_from_slice(&b[..k]);
        }
    } else if get("transfer-encoding").is_some() {
        while !body.ends_with(b"0\r\n\r\n") {
            let k = c.read(&mut b)?;
            if k == 0 {
                break;
            }
            body.extend_from_slice(&b[..k]);
        }
        let (mut out, mut at) = (vec![], 0);
        while let Some(i) = body[at..].windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(&String::from_utf8_lossy(&body[at..at + i]), 16).unwrap_or(0);
            if n == 0 {
                break;
            }
            out.extend_from_slice(&body[at + i + 2..at + i + 2 + n]);
            at += i + 2 + n + 2;
        }
        body = out;
    }
    let hex: String = body.iter().map(|b| format!("{b:02x}")).collect();
    SEEN.lock().unwrap().push(serde_json::json!({"method": first[0], "target": first.get(1), "headers": headers, "body": hex}));
    log("recv".to_string());
    let r = {
        let mut s = SCRIPT.lock().unwrap();
        if s.len() > 1 {
            s.remove(0)
        } else {
            s[0].clone()
        }
    };
    if r.drop {
        return Ok(());
    }
    let text = match r.status {
        101 => "HTTP/1.1 101 X\r\nconnection: Upgrade\r\nupgrade: websocket\r\nx-srv: yes\r\n\r\n".to_string(),
        204 | 304 => format!("HTTP/1.1 {} X\r\nx-srv: yes\r\nconnection: close\r\n\r\n", r.status),
        _ => format!("HTTP/1.1 {} X\r\nx-srv: yes\r\nconnection: close\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", r.status, r.body.len(), if first[0] == "HEAD" { "" } else { r.body }),
    };
    c.write_all(text.as_bytes())?;
    c.flush()
}

pub fn begin(replies: Vec<Reply>) {
    *SCRIPT.lock().unwrap() = replies;
    SEEN.lock().unwrap().clear();
    LOG.lock().unwrap().clear();
}
pub fn end(case: &str, result: String) {
    let o = serde_json::json!({"case": case, "seen": *SEEN.lock().unwrap(), "log": *LOG.lock().unwrap(), "result": result});
    println!("{o}");
}

/// prints a value by its kind; the first that fits is taken
pub struct W<T>(pub T);
pub trait ShowJson {
    fn show(self) -> impl std::future::Future<Output = String>;
}
pub trait ShowStream {
    fn show(self) -> impl std::future::Future<Output = String>;
}
pub trait ShowUpgrade {
    fn show(self) -> impl std::future::Future<Output = String>;
}
pub trait ShowUnit {
    fn show(self) -> impl std::future::Future<Output = String>;
}
impl ShowUnit for W<()> {
    async fn show(self) -> String {
        "()".into()
    }
}
impl ShowStream for W<progenitor_client::ByteStream> {
    async fn show(self) -> String {
        use futures::StreamExt;
        let mut s = self.0;
        let mut out = vec![];
        while let Some(c) = s.next().await {
            match c {
                Ok(b) => out.extend_from_slice(&b),
                Err(e) => return format!("stream error {e}"),
            }
        }
        format!("stream {}", String::from_utf8_lossy(&out))
    }
}
impl ShowUpgrade for W<reqwest::Upgraded> {
    async fn show(self) -> String {
        "upgraded".into()
    }
}
impl<T: serde::Serialize> ShowJson for &W<T> {
    async fn show(self) -> String {
        format!("json {}", serde_json::to_value(&self.0).unwrap())
    }
}
#[macro_export]
macro_rules! show_result {
    ($r:expr) => {{
        #[allow(unused_imports)]
        use $crate::support::{ShowJson, ShowStream, ShowUnit, ShowUpgrade, W};
        use progenitor_client::Error as E;
        match $r {
            Ok(v) => {
                let h = format!("ok {} {} ", v.status().as_u16(), v.headers().get("x-srv").map(|v| v.to_str().unwrap().to_string()).unwrap_or_default());
                let w = W(v.into_inner());
                h + &w.show().await
            }
            Err(E::ErrorResponse(v)) => {
                let h = format!("err {} {} ", v.status().as_u16(), v.headers().get("x-srv").map(|v| v.to_str().unwrap().to_string()).unwrap_or_default());
                let w = W(v.into_inner());
                h + &w.show().await
            }
            Err(e) => $crate::support::other(e.into_untyped()).await,
        }
    }};
}
pub async fn other(e: progenitor_client::Error<()>) -> String {
    use progenitor_client::Error as E;
    match e {
        E::InvalidRequest(m) => format!("invalid {m}"),
        E::CommunicationError(_) => "communication".into(),
        E::InvalidUpgrade(_) => "bad upgrade".into(),
        E::ResponseBodyError(_) => "body".into(),
        E::InvalidResponsePayload(b, _) => format!("payload {}", String::from_utf8_lossy(&b)),
        E::UnexpectedResponse(r) => {
            let s = r.status().as_u16();
            format!("unexpected {s} {}", r.text().await.unwrap_or_default())
        }
        E::PreHookError(m) => format!("prehook {m}"),
        E::PostHookError(m) => format!("posthook {m}"),
        _ => "another error".into(),
    }
}

pub mod hooks {
    use super::log;
    #[derive(Clone, Debug)]
    pub struct Inner(pub u32);
    type R = Result<reqwest::Response, reqwest::Error>;
    fn what(r: &R) -> String {
        match r {
            Ok(r) => r.status().as_u16().to_string(),
            Err(_) => "error".into(),
        }
    }
    pub fn pre(r: &reqwest::Request) {
        log(format!("pre {} {}", r.method(), r.url().path()));
    }
    pub async fn pre_async(r: &mut reqwest::Request) -> Result<(), String> {
        log(format!("pre_async {} {}", r.method(), r.url().path()));
        r.headers_mut().insert("x-hook", reqwest::header::HeaderValue::from_static("hooked"));
        if r.url().path().contains("failpre") {
            return Err("stopped before".into());
        }
        Ok(())
    }
    pub fn post(r: &R) {
        log(format!("post {}", what(r)));
    }
    pub async fn post_async(r: &R) -> Result<(), String> {
        log(format!("post_async {}", what(r)));
        match r {
            Ok(r) if r.url().path().contains("failpost") => Err("stopped after".into()),
            _ => Ok(()),
        }
    }
    pub fn pre_inner(i: &Inner, r: &reqwest::Request) {
        log(format!("inner {}", i.0));
        pre(r)
    }
    pub async fn pre_async_inner(i: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
        log(format!("inner {}", i.0));
        pre_async(r).await
    }
    pub fn post_inner(i: &Inner, r: &R) {
        log(format!("inner {}", i.0));
        post(r)
    }
    pub async fn post_async_inner(i: &Inner, r: &R) -> Result<(), String> {
        log(format!("inner {}", i.0));
        post_async(r).await
    }
}

#[macro_export]
macro_rules! show_stream {
    ($s:expr) => {{
        #[allow(unused_imports)]
        use $crate::support::{ShowJson, ShowUnit, W};
        use futures::StreamExt;
        let mut out: Vec<String> = vec![];
        match $s { mut s => {
        let mut after = 0;
        while let Some(x) = s.next().await {
            match x {
                Ok(v) => out.push(format!("item {}", serde_json::to_value(&v).unwrap())),
                Err(e) => out.push(match e {
                    progenitor_client::Error::ErrorResponse(v) => {
                        let h = format!("err {} ", v.status().as_u16());
                        h + &serde_json::to_string(&v.into_inner()).unwrap()
                    }
                    e => $crate::support::other(e.into_untyped()).await,
                }),
            }
            after += 1;
            if after > 200 {
                out.push("does not end".to_string());
                break;
            }
        }
        } }
        serde_json::to_string(&out).unwrap()
    }};
}

/// the request that was sent last, as a mock server sees it
#[cfg(feature = "ext")]
pub fn sent() -> httpmock::HttpMockRequest {
    let s = SEEN.lock().unwrap();
    let j = s.last().expect("a request");
    let t = j["target"].as_str().unwrap();
    let t = t.strip_prefix("/base").unwrap_or(t);
    let (path, q) = t.split_once('?').unwrap_or((t, ""));
    let h = j["body"].as_str().unwrap();
    httpmock::HttpMockRequest {
        path: path.into(),
        method: j["method"].as_str().unwrap().into(),
        headers: Some(serde_json::from_value(j["headers"].clone()).unwrap()),
        query_params: Some(reqwest::Url::parse(&format!("http://x/?{q}")).unwrap().query_pairs().into_owned().collect()),
        body: Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()),
    }
}

/// whether the mock matches, or that it panics
#[cfg(feature = "ext")]
pub fn tried(f: impl FnOnce() -> bool) -> serde_json::Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(b) => b.into(),
        Err(_) => "panics".into(),
    }
}

/// the words of a command, the file put in
#[cfg(feature = "ext")]
pub fn words(args: &[&str], file: &str) -> Vec<String> {
    if args.last() == Some(&"@FILE@") {
        let p = std::env::current_exe().unwrap().with_extension("body.json");
        std::fs::write(&p, file).unwrap();
        let mut v: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        *v.last_mut().unwrap() = p.to_string_lossy().into();
        return v;
    }
    args.iter().map(|s| s.to_string()).collect()
}

#[cfg(feature = "ext")]
pub fn texts(c: &clap::Command) -> serde_json::Value {
    let help: serde_json::Map<String, serde_json::Value> = c.get_arguments().map(|a| (a.get_long().unwrap_or("?").to_string(), a.get_help().map(|h| h.to_string()).into())).collect();
    serde_json::json!({"about": c.get_about().map(|s| s.to_string()), "long": c.get_long_about().map(|s| s.to_string()), "help": help})
}

#[cfg(feature = "ext")]
pub fn problem<T: serde::Serialize>(e: &progenitor_client::Error<T>) -> String {
    use progenitor_client::Error as E;
    match e {
        E::ErrorResponse(r) => format!("response {} {}", r.status().as_u16(), serde_json::to_value(&**r).unwrap()),
        E::InvalidRequest(m) => format!("invalid {m}"),
        E::InvalidResponsePayload(..) => "payload".into(),
        E::UnexpectedResponse(r) => format!("unexpected {}", r.status().as_u16()),
        _ => "other".into(),
    }
}

/// what a command reports
#[macro_export]
macro_rules! report {
    () => {
        fn success_item<T>(&self, value: &progenitor_client::ResponseValue<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log(format!("item {} {}", value.status().as_u16(), serde_json::to_value(&**value).unwrap()));
        }
        fn success_no_item(&self, value: &progenitor_client::ResponseValue<()>) {
            $crate::support::log(format!("no item {}", value.status().as_u16()));
        }
        fn error<T>(&self, value: &progenitor_client::Error<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log(format!("error {}", $crate::support::problem(value)));
        }
        fn list_start<T>(&self) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log("list".into());
        }
        fn list_item<T>(&self, value: &T) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log(format!("listed {}", serde_json::to_value(value).unwrap()));
        }
        fn list_end_success<T>(&self) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log("list end".into());
        }
        fn list_end_error<T>(&self, value: &progenitor_client::Error<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
            $crate::support::log(format!("list error {}", $crate::support::problem(value)));
        }
    };
}
