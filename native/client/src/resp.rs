use crate::util::*;
use bytes::Bytes;
use futures_core::Stream;
use progenitor_client::*;
use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
use reqwest::{Response, StatusCode};
use std::pin::Pin;
use std::task::{Context, Poll};

pub fn run(c: &mut Ctx, prop: &str) {
    match prop {
        "C01" => c01(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C10" => errors(c, "C10"),
        "C11" => errors(c, "C11"),
        "C12" => errors(c, "C12"),
        "C13" => errors(c, "C13"),
        "C14" => c14(c),
        _ => panic!("no such property"),
    }
}

// ---------------------------------------------------------------- C01
fn unescape(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3).ok_or("percent sign without two digits")?;
            if !h.bytes().all(|x| x.is_ascii_hexdigit()) {
                return Err(format!("percent sign without two hex digits at {i}"));
            }
            out.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}
fn c01(c: &mut Ctx) {
    let mut ins: Vec<String> = vec!["".into(), ".".into(), "..".into(), "...".into(), ".a".into(), "a/../b".into(), "%2e".into(), "%2E%2e".into(), "%".into(), "%4".into(), "%zz".into()];
    for i in 0..0x3000u32 {
        if let Some(ch) = char::from_u32(i) {
            ins.push(ch.to_string());
        }
    }
    for i in [0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff] {
        ins.push(char::from_u32(i).unwrap().to_string());
    }
    for a in 0..128u8 {
        for b in 0..128u8 {
            if a.is_ascii_alphanumeric() && b.is_ascii_alphanumeric() && (a != b'a' && b != b'Z') {
                continue;
            }
            ins.push(format!("{}{}", a as char, b as char));
        }
    }
    // characters that text handling likes to treat specially, in every position
    let odd = |i: &u32| c.thorough || (0x2000..0x2070).contains(i) || (0xfe00..0x10000).contains(i) || (0xe0000..0xe0200).contains(i) || char::from_u32(*i).is_some_and(|x| x.is_whitespace() || x.is_control());
    for x in (0..0x110000u32).filter(odd).filter_map(char::from_u32) {
        ins.extend([format!("{x}a"), format!("a{x}"), format!("{x}{x}"), format!("b{x}a"), x.to_string()]);
    }
    for n in [100, 255, 256, 257, 1000, 1024, 4096, 5000, 65536, 70000] {
        for t in ["a", "/", "%", "\u{4e2d}", "a/%41\\", " "] {
            ins.push(t.repeat(n));
        }
    }
    let n = c.scale(4000, 400000);
    for _ in 0..n {
        ins.push(c.rng.string(12));
    }
    for s in ins {
        c.case(
            || if s == "." || s == ".." { format!("dot-segment:{s:?}") } else { format!("C01:{s:?}") },
            |_| {
                let e = encode_path(&s);
                for ch in e.chars() {
                    if !ch.is_ascii_graphic() || "/\\?# \"<>`{}".contains(ch) {
                        return Err(format!("encoded text {e:?} contains {ch:?}"));
                    }
                }
                eq("decoded", unescape(&e)?, s.clone().into_bytes())?;
                let url = url::Url::parse(&format!("http://h/p/{e}/q")).map_err(|x| x.to_string())?;
                let segs: Vec<Vec<u8>> = url.path_segments().unwrap().map(|x| unescape(x).unwrap_or_default()).collect();
                eq("segments received", segs, vec![b"p".to_vec(), s.clone().into_bytes(), b"q".to_vec()])?;
                if url.query().is_some() || url.fragment().is_some() {
                    return Err("query or fragment appeared".into());
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- responses
#[derive(Debug)]
pub struct Link(String, Option<Box<Link>>);
impl Link {
    pub fn new(v: &[String]) -> Link {
        Link(v[0].clone(), if v.len() > 1 { Some(Box::new(Link::new(&v[1..]))) } else { None })
    }
}
impl std::fmt::Display for Link {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() {
            write!(f, "ALT<{}>", self.0)
        } else {
            write!(f, "{}", self.0)
        }
    }
}
impl std::error::Error for Link {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|b| &**b as &(dyn std::error::Error + 'static))
    }
}

type Item = Result<Bytes, Link>;
struct Chunks(std::collections::VecDeque<Item>, std::sync::Arc<std::sync::atomic::AtomicUsize>);
impl Stream for Chunks {
    type Item = Item;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Item>> {
        self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Poll::Ready(self.0.pop_front())
    }
}
#[derive(Clone, Debug)]
struct Spec {
    status: u16,
    headers: Vec<(String, Vec<u8>)>,
    chunks: Vec<Result<Vec<u8>, Vec<String>>>,
}
fn make_counted(s: &Spec) -> (Response, std::sync::Arc<std::sync::atomic::AtomicUsize>) {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let chunks = s.chunks.iter().map(|x| match x {
        Ok(b) => Ok(Bytes::from(b.clone())),
        Err(e) => Err(Link::new(e)),
    });
    let body = reqwest::Body::wrap_stream(Chunks(chunks.collect(), n.clone()));
    let mut r = http::Response::new(body);
    *r.status_mut() = StatusCode::from_u16(s.status).unwrap();
    for (k, v) in &s.headers {
        r.headers_mut().append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    (Response::from(r), n)
}
fn make(s: &Spec) -> Response {
    make_counted(s).0
}
fn headers_of(s: &Spec) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (k, v) in &s.headers {
        m.append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    m
}
const STATUSES: &[u16] = &[100, 101, 102, 199, 200, 201, 202, 204, 205, 206, 299, 300, 304, 400, 401, 404, 418, 426, 429, 499, 500, 501, 503, 505, 599, 600, 999];
fn gen_headers(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let names = ["content-type", "x-request-id", "content-length", "set-cookie", "upgrade", "connection", "etag", "x-a"];
    let vals: &[&[u8]] = &[b"", b"1", b"text/plain", b"a=b; c", b"\xff\xfe", b"websocket", b"application/json", b"17"];
    (0..r.below(5)).map(|_| (names[r.below(8)].to_string(), vals[r.below(8)].to_vec())).collect()
}
fn specs(c: &mut Ctx, bodies: &[&[u8]], n: usize) -> Vec<Spec> {
    let mut out = vec![];
    for st in STATUSES {
        for b in bodies {
            out.push(Spec { status: *st, headers: vec![("x-a".into(), b"1".to_vec()), ("x-a".into(), b"2".to_vec())], chunks: vec![Ok(b.to_vec())] });
        }
    }
    for st in STATUSES {
        for (k, v) in [("content-length", &b"0"[..]), ("content-length", b"1234"), ("content-type", b"text/html"), ("content-type", b""), ("set-cookie", b"a=b"), ("content-encoding", b"gzip"),
            ("transfer-encoding", b"chunked"), ("connection", b"close"), ("upgrade", b"h2c"), ("retry-after", b"3"), ("location", b"/x"), ("etag", b"W/\"1\""), ("x-request-id", b"r"), ("x-bytes", b"\xff\x80")] {
            out.push(Spec { status: *st, headers: vec![(k.into(), v.to_vec())], chunks: vec![Ok(bodies[0].to_vec())] });
            out.push(Spec { status: *st, headers: vec![(k.into(), v.to_vec()), ("x-a".into(), b"".to_vec()), (k.into(), b"2".to_vec())], chunks: vec![] });
        }
    }
    for _ in 0..n {
        let b = bodies[c.rng.below(bodies.len())].to_vec();
        let mut chunks = vec![];
        let cut = c.rng.below(b.len() + 1);
        chunks.push(Ok(b[..cut].to_vec()));
        chunks.push(Ok(b[cut..].to_vec()));
        if c.rng.below(6) == 0 {
            let d = 1 + c.rng.below(4);
            chunks.insert(c.rng.below(3), Err((0..d).map(|i| format!("cause {i}")).collect()));
        }
        let headers = gen_headers(&mut c.rng);
        out.push(Spec { status: 100 + c.rng.below(900) as u16, headers, chunks });
    }
    out
}
fn whole(s: &Spec) -> Result<Vec<u8>, ()> {
    let mut v = vec![];
    for x in &s.chunks {
        v.extend_from_slice(x.as_ref().map_err(|_| ())?);
    }
    Ok(v)
}

#[derive(serde::Deserialize, PartialEq, Debug, Clone)]
struct Doc {
    id: u64,
    name: String,
    tags: Option<Vec<String>>,
}
fn c05(c: &mut Ctx) {
    let bodies: &[&[u8]] = &[
        br#"{"id":1,"name":"a"}"#, br#"{"id":18446744073709551615,"name":"","tags":["x","y"]}"#, b"", b"null", b"{", b"  ", br#"{"id":-1,"name":"a"}"#,
        br#"{"id":1,"name":"a"} trailing"#, b"[1,2,3]", b"\xff\xfe", b"\"text\"", b"0", br#"{"id":1,"name":"a","extra":{}}"#, b"\"\xff\"", b"true",
        b"\xef\xbb\xbf{\"id\":1,\"name\":\"a\"}", b"\xef\xbb\xbfnull", b"\xff\xfe1\0", b")]}'\nnull", b" null ", b"null\n", b"null\0", b"\0null", br#"{"id":1,"name":"a"}{"id":2,"name":"b"}"#,
        br#"{"name":"a"}"#, br#"{"id":1,"name":"a","id":2}"#, br#"{"id":1.0,"name":"a"}"#, br#"{"id":"1","name":"a"}"#, br#"{"id":1,"name":null}"#, br#"{"id":1,"name":"\ud800"}"#, b"[256]", b"[1,2,3,]", b"NaN", b"''",
    ];
    let n = c.scale(1500, 40000);
    fn one<T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(rt: &tokio::runtime::Runtime, s: &Spec) -> Result<(), String> {
        let got = rt.block_on(ResponseValue::<T>::from_response::<()>(make(s)));
        match (whole(s), got) {
            (Err(()), Err(Error::ResponseBodyError(e))) => {
                let want = s.chunks.iter().find_map(|x| x.as_ref().err()).unwrap();
                let mut t = vec![];
                let mut p: Option<&dyn std::error::Error> = std::error::Error::source(&e);
                while let Some(x) = p {
                    t.push(x.to_string());
                    p = x.source();
                }
                if !t.ends_with(want) {
                    return Err(format!("body error does not hold the transport error: {t:?}"));
                }
                Ok(())
            }
            (Err(()), g) => Err(format!("unreadable body gave {}", kind(&g.map(|_| ())))),
            (Ok(b), g) => match (serde_json::from_slice::<T>(&b), g) {
                (Ok(v), Ok(rv)) => {
                    eq("status", rv.status().as_u16(), s.status)?;
                    eq("headers", rv.headers().clone(), headers_of(s))?;
                    eq("value", rv.into_inner(), v)
                }
                (Err(e), Err(Error::InvalidResponsePayload(gb, ge))) => {
                    eq("body kept", gb.to_vec(), b)?;
                    eq("decoder error", ge.to_string(), e.to_string())
                }
                (w, g) => Err(format!("decodable: {}, result: {}", w.is_ok(), kind(&g.map(|_| ())))),
            },
        }
    }
    let mut all = specs(c, bodies, n);
    for n in [1000, 4095, 4096, 4097, 8192, 65536, 100_000, 1 << 20] {
        for (a, z) in [("\"", "\""), ("{\"id\":1,\"name\":\"", "\"}"), ("[\"", "\"]"), ("", ""), ("\"", "")] {
            let mut b = a.as_bytes().to_vec();
            b.resize(n - z.len(), b'x');
            b.extend_from_slice(z.as_bytes());
            all.push(Spec { status: 200, headers: vec![], chunks: b.chunks(1 + n / 3).map(|x| Ok(x.to_vec())).collect() });
        }
    }
    c.case(|| "C05:timeout".into(), |rt| {
        // a machine so busy that even the head is late says nothing about the code
        let Some(e) = rt.block_on(stalled(true)) else { return Ok(()) };
        let r = rt.block_on(ResponseValue::<Doc>::from_response::<()>(e));
        match r {
            Err(Error::ResponseBodyError(e)) if e.is_timeout() => Ok(()),
            g => Err(format!("a body that does not come in time gave {}", kind(&g.map(|_| ())))),
        }
    });
    for s in all {
        c.case(|| format!("C05:Doc:{s:?}"), |rt| one::<Doc>(rt, &s));
        c.case(|| format!("C05:Value:{s:?}"), |rt| one::<serde_json::Value>(rt, &s));
        c.case(|| format!("C05:Option:{s:?}"), |rt| one::<Option<Vec<u8>>>(rt, &s));
        c.case(|| format!("C05:String:{s:?}"), |rt| one::<String>(rt, &s));
        c.case(|| format!("C05:unit:{s:?}"), |rt| one::<()>(rt, &s));
        c.case(|| format!("C05:zst:{s:?}"), |rt| one::<[u8; 0]>(rt, &s));
    }
}
/// a response whose body never comes; the client waits a moment only
async fn stalled(head: bool) -> Option<Response> {
    stalled_result(head).await.ok()
}
async fn stalled_result(head: bool) -> reqwest::Result<Response> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let url = format!("http://{}/", l.local_addr().unwrap());
    tokio::spawn(async move {
        let (mut s, _) = l.accept().await.unwrap();
        let mut b = [0; 1024];
        let _ = s.read(&mut b).await;
        if head {
            let _ = s.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 10\r\n\r\n{\"id\"").await;
        }
        tokio::time::sleep(std::time::Duration::from_secs(20)).await;
    });
    reqwest::Client::builder().no_proxy().timeout(std::time::Duration::from_millis(300)).build().unwrap().get(url).send().await
}
/// a server that redirects for ever
async fn redirects() -> reqwest::Error {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let url = format!("http://{}/", l.local_addr().unwrap());
    tokio::spawn(async move {
        loop {
            let Ok((mut s, _)) = l.accept().await else { return };
            let mut b = [0; 1024];
            let _ = s.read(&mut b).await;
            let _ = s.write_all(b"HTTP/1.1 302 Found\r\nlocation: /\r\ncontent-length: 0\r\nconnection: close\r\n\r\n").await;
        }
    });
    reqwest::Client::builder().no_proxy().build().unwrap().get(url).send().await.unwrap_err()
}
/// a request whose body breaks while it is sent
async fn broken_request() -> reqwest::Error {
    use tokio::io::AsyncReadExt;
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let url = format!("http://{}/", l.local_addr().unwrap());
    tokio::spawn(async move {
        let (mut s, _) = l.accept().await.unwrap();
        let mut b = [0; 1024];
        while let Ok(n) = s.read(&mut b).await {
            if n == 0 {
                return;
            }
        }
    });
    let chunks = Chunks([Err(Link::new(&["request cause".into()]))].into_iter().collect(), Default::default());
    reqwest::Client::builder().no_proxy().build().unwrap().post(url).body(reqwest::Body::wrap_stream(chunks)).send().await.unwrap_err()
}
fn kind<T, E>(r: &Result<T, Error<E>>) -> &'static str {
    match r {
        Ok(_) => "Ok",
        Err(e) => ekind(e),
    }
}
fn ekind<E>(e: &Error<E>) -> &'static str {
    match e {
        Error::InvalidRequest(_) => "InvalidRequest",
        Error::CommunicationError(_) => "CommunicationError",
        Error::InvalidUpgrade(_) => "InvalidUpgrade",
        Error::ErrorResponse(_) => "ErrorResponse",
        Error::ResponseBodyError(_) => "ResponseBodyError",
        Error::InvalidResponsePayload(..) => "InvalidResponsePayload",
        Error::UnexpectedResponse(_) => "UnexpectedResponse",
        Error::PreHookError(_) => "PreHookError",
        Error::PostHookError(_) => "PostHookError",
    }
}

fn c06(c: &mut Ctx) {
    let bodies: &[&[u8]] = &[b"", b"body"];
    let n = c.scale(300, 5000);
    let mut all = specs(c, bodies, n);
    for st in 100..1000 {
        all.push(Spec { status: st, headers: vec![("upgrade".into(), b"websocket".to_vec()), ("connection".into(), b"upgrade".to_vec())], chunks: vec![Ok(b"b".to_vec())] });
    }
    for s in all {
        c.case(|| format!("C06:{s:?}"), |rt| {
            let (resp, polls) = make_counted(&s);
            let got = rt.block_on(ResponseValue::<reqwest::Upgraded>::upgrade::<()>(resp));
            match got {
                Err(Error::UnexpectedResponse(r)) if s.status != 101 => {
                    eq("status", r.status().as_u16(), s.status)?;
                    eq("headers", r.headers().clone(), headers_of(&s))?;
                    eq("body polls before the caller reads", polls.load(std::sync::atomic::Ordering::SeqCst), 0)?;
                    match (whole(&s), rt.block_on(r.bytes())) {
                        (Ok(w), Ok(g)) => eq("body", g.to_vec(), w),
                        (Err(_), Err(_)) => Ok(()),
                        _ => Err("body changed".into()),
                    }
                }
                // a response that did not come from a connection cannot be upgraded
                Err(Error::InvalidUpgrade(_)) if s.status == 101 => Ok(()),
                g => Err(format!("status {} gave {}", s.status, kind(&g))),
            }
        });
    }
    for hd in [vec![("x-a", "1")], vec![("x-b", "2"), ("x-b", "3")]] {
        for want in [101u16, 200, 426] {
            c.case(|| format!("C06:wire:{want}:{hd:?}"), |rt| rt.block_on(wire(want, &hd)));
        }
    }
}
/// a real upgrade over the loopback interface
async fn wire(status: u16, hd: &[(&str, &str)]) -> Result<(), String> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| format!("bind: {e}"))?;
    let addr = l.local_addr().unwrap();
    let head: String = hd.iter().map(|(k, v)| format!("{k}: {v}\r\n")).collect();
    let srv = async move {
        let (mut s, _) = l.accept().await.unwrap();
        let mut buf = vec![0; 4096];
        let mut got = vec![];
        while !got.windows(4).any(|w| w == b"\r\n\r\n") {
            let n = s.read(&mut buf).await.unwrap();
            if n == 0 {
                return;
            }
            got.extend_from_slice(&buf[..n]);
        }
        let up = if status == 101 { "connection: upgrade\r\nupgrade: test\r\n" } else { "content-length: 0\r\n" };
        let _ = s.write_all(format!("HTTP/1.1 {status} X\r\n{up}{head}\r\n").as_bytes()).await;
        let mut rest = vec![0; 5];
        if status == 101 && s.read_exact(&mut rest).await.is_ok() {
            let _ = s.write_all(&rest).await;
        }
        let _ = s.shutdown().await;
    };
    let cli = async {
        let r = reqwest::Client::builder().no_proxy().build().unwrap().get(format!("http://{addr}/")).header("connection", "upgrade").header("upgrade", "test").send().await.map_err(|e| format!("send: {e}"))?;
        let h = r.headers().clone();
        match ResponseValue::<reqwest::Upgraded>::upgrade::<()>(r).await {
            Ok(rv) if status == 101 => {
                eq("status", rv.status().as_u16(), 101)?;
                eq("headers", rv.headers().clone(), h)?;
                for (k, v) in hd {
                    if !rv.headers().get_all(*k).iter().any(|x| x == v) {
                        return Err(format!("header {k} lost"));
                    }
                }
                let mut u = rv.into_inner();
                u.write_all(b"hello").await.map_err(|e| e.to_string())?;
                let mut b = [0; 5];
                u.read_exact(&mut b).await.map_err(|e| e.to_string())?;
                eq("echo over the upgraded connection", b, *b"hello")
            }
            Err(Error::UnexpectedResponse(r)) if status != 101 => eq("status", r.status().as_u16(), status),
            g => Err(format!("status {status} gave {}", kind(&g))),
        }
    };
    let both = async {
        let (a, _) = join(cli, srv).await;
        a
    };
    tokio::time::timeout(std::time::Duration::from_secs(10), both).await.map_err(|_| "timed out".to_string())?
}
async fn join<A, B>(a: impl std::future::Future<Output = A>, b: impl std::future::Future<Output = B>) -> (A, B) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    let (mut ra, mut rb) = (None, None);
    std::future::poll_fn(move |cx| {
        if ra.is_none() {
            if let Poll::Ready(x) = a.as_mut().poll(cx) {
                ra = Some(x);
            }
        }
        if rb.is_none() {
            if let Poll::Ready(x) = b.as_mut().poll(cx) {
                rb = Some(x);
            }
        }
        if ra.is_some() && rb.is_some() {
            Poll::Ready((ra.take().unwrap(), rb.take().unwrap()))
        } else {
            Poll::Pending
        }
    })
    .await
}

async fn drain(s: &mut (impl Stream<Item = reqwest::Result<Bytes>> + Unpin)) -> Vec<Result<Vec<u8>, String>> {
    let mut out = vec![];
    while let Some(x) = std::future::poll_fn(|cx| Pin::new(&mut *s).poll_next(cx)).await {
        out.push(match x {
            Ok(b) => Ok(b.to_vec()),
            Err(e) => Err(format!("{}", std::error::Error::source(&e).map(|x| x.to_string()).unwrap_or_default())),
        });
        if out.len() > 50 {
            break;
        }
    }
    out
}
fn c07(c: &mut Ctx) {
    let bodies: &[&[u8]] = &[b"", b"a", b"hello world", &[0; 300], b"\xff\x00"];
    let n = c.scale(1500, 40000);
    for s in specs(c, bodies, n) {
        let want: Vec<Result<Vec<u8>, String>> = {
            let (r, _) = make_counted(&s);
            let mut b = Box::pin(r.bytes_stream());
            c.rt.block_on(drain(&mut b))
        };
        for how in 0..4 {
            c.case(|| format!("C07:stream:{how}:{s:?}"), |rt| {
                let (r, polls) = make_counted(&s);
                let mut rv = ResponseValue::stream(r);
                eq("status", rv.status().as_u16(), s.status)?;
                eq("headers", rv.headers().clone(), headers_of(&s))?;
                eq("polls before reading", polls.load(std::sync::atomic::Ordering::SeqCst), 0)?;
                let got = match how {
                    0 => rt.block_on(drain(&mut rv.into_inner_stream())),
                    1 => rt.block_on(drain(&mut rv.into_inner().into_inner())),
                    2 => {
                        let bs: &mut ByteStream = &mut rv;
                        let inner: &mut Pin<Box<dyn Stream<Item = reqwest::Result<Bytes>> + Send + Sync>> = &mut *bs;
                        rt.block_on(drain(inner))
                    }
                    _ => {
                        let again = ByteStream::new(rv.into_inner().into_inner());
                        let hint = again.size_hint();
                        let _ = hint;
                        rt.block_on(drain(&mut again.into_inner()))
                    }
                };
                eq("chunks", got, want.clone())
            });
        }
        c.case(|| format!("C07:empty:{s:?}"), |_| {
            let rv = ResponseValue::<()>::empty(make(&s));
            eq("status", rv.status().as_u16(), s.status)?;
            eq("headers", rv.headers().clone(), headers_of(&s))?;
            rv.into_inner();
            Ok(())
        });
    }
}

fn c08(c: &mut Ctx) {
    let n = c.scale(3000, 100000);
    for _ in 0..n {
        let h = gen_headers(&mut c.rng);
        let st = 100 + c.rng.below(900) as u16;
        let v = c.rng.next();
        let sp = Spec { status: st, headers: h, chunks: vec![] };
        c.case(|| format!("C08:{v}:{sp:?}"), |_| {
            let code = StatusCode::from_u16(st).unwrap();
            let hm = headers_of(&sp);
            let mk = || ResponseValue::new(v, code, hm.clone());
            let same = |rv: &ResponseValue<u64>, want: u64| {
                eq("status", rv.status(), code)?;
                eq("headers", rv.headers().clone(), hm.clone())?;
                eq("deref", **rv, want)?;
                eq("as_ref", *rv.as_ref(), want)
            };
            let mut rv = mk();
            same(&rv, v)?;
            *rv = v ^ 5;
            same(&rv, v ^ 5)?;
            eq("into_inner", rv.into_inner(), v ^ 5)?;
            let mut calls = 0;
            let m = mk().map::<String, _, ()>(|x| {
                calls += 1;
                format!("<{x}>")
            });
            eq("calls of the mapping function", calls, 1)?;
            let m = m.map_err(|_| "map failed".to_string())?;
            eq("status", m.status(), code)?;
            eq("headers", m.headers().clone(), hm.clone())?;
            eq("mapped", m.into_inner(), format!("<{v}>"))?;
            eq("debug", format!("{:?}", mk()), format!("{v:?}"))
        });
    }
}

fn c09(c: &mut Ctx) {
    let mut ins: Vec<Option<Vec<u8>>> = vec![None];
    for s in [
        "", "0", "00", "1", "42", "007", " 1", "1 ", "-1", "-0", "1.0", "1e3", "0x10", "18446744073709551615", "18446744073709551616", "18446744073709551614",
        "99999999999999999999999", "000000000000000000000000000000000001", "1,2", "1;", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "abc", "1a", "a1", "\u{661}", "1_000", "1\t", "--1", "9", "10", "99999999999999999999", "184467440737095516150",
    ] {
        ins.push(Some(s.as_bytes().to_vec()));
    }
    for b in (32..=255u8).filter(|b| *b != 127) {
        ins.push(Some(vec![b]));
        ins.push(Some(vec![b'1', b]));
        ins.push(Some(vec![b, b'1']));
    }
    let n = c.scale(5000, 300000);
    for _ in 0..n {
        let l = c.rng.below(23);
        let mut v: Vec<u8> = (0..l).map(|_| b'0' + c.rng.below(10) as u8).collect();
        if c.rng.below(3) == 0 && l > 0 {
            let k = c.rng.below(l);
            v[k] = 32 + c.rng.below(95) as u8;
        }
        ins.push(Some(v));
    }
    for (a, b) in [("1", "2"), ("1", "x"), ("x", "1"), ("", "5"), ("7", "7")] {
        c.case(|| format!("C09:two:{a}:{b}"), |_| {
            let mut h = HeaderMap::new();
            h.append("content-length", HeaderValue::from_static(a));
            h.append("content-length", HeaderValue::from_static(b));
            eq("content length", ResponseValue::new((), StatusCode::OK, h).content_length(), a.parse().ok())
        });
    }
    for i in ins {
        let want = i.as_ref().and_then(|v| {
            if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let mut n: u128 = 0;
            for d in v {
                n = (n * 10 + (*d - b'0') as u128).min(1 << 100);
            }
            u64::try_from(n).ok()
        });
        if i.as_ref().map_or(false, |v| v.first() == Some(&b'+')) {
            continue;
        }
        for extra in [false, true] {
            c.case(|| format!("C09:{extra}:{:?}", i.as_ref().map(|v| String::from_utf8_lossy(v).into_owned())), |_| {
                let mut h = HeaderMap::new();
                if extra {
                    h.insert("x-content-length", HeaderValue::from_static("3"));
                    h.insert("content-range", HeaderValue::from_static("4"));
                }
                if let Some(v) = &i {
                    h.insert("content-length", HeaderValue::from_bytes(v).unwrap());
                }
                eq("content length", ResponseValue::new((), StatusCode::OK, h).content_length(), want)
            });
        }
    }
}

// ---------------------------------------------------------------- errors
fn comm_errors(rt: &tokio::runtime::Runtime, depth: usize) -> Vec<reqwest::Error> {
    let mut v = vec![];
    let cl = reqwest::Client::builder().no_proxy().build().unwrap();
    v.push(cl.get("::not a url").build().unwrap_err());
    v.push(rt.block_on(cl.get("http://127.0.0.1:1/x").send()).unwrap_err());
    for d in 1..=depth {
        let s = Spec { status: 200, headers: vec![], chunks: vec![Ok(b"x".to_vec()), Err((0..d).map(|i| format!("cause {i}")).collect())] };
        v.push(rt.block_on(make(&s).bytes()).unwrap_err());
        let mut r = make(&s);
        v.extend((0..3).filter_map(|_| rt.block_on(r.chunk()).err()));
        let mut b = Box::pin(make(&s).bytes_stream());
        v.extend((0..3).filter_map(|_| rt.block_on(std::future::poll_fn(|cx| b.as_mut().poll_next(cx))).and_then(|x| x.err())));
        // two adjacent causes with the same text must both be shown
        let s = Spec { status: 200, headers: vec![], chunks: vec![Err((0..d).map(|i| format!("cause {}", i / 2)).collect())] };
        v.push(rt.block_on(make(&s).bytes()).unwrap_err());
    }
    for st in [400u16, 404, 418, 499, 500, 503, 599] {
        v.push(make(&Spec { status: st, headers: vec![], chunks: vec![] }).error_for_status().unwrap_err());
    }
    v.push(rt.block_on(make(&Spec { status: 200, headers: vec![], chunks: vec![Ok(b"{".to_vec())] }).json::<u8>()).unwrap_err());
    v.push(rt.block_on(stalled_result(false)).unwrap_err());
    if let Some(mut r) = rt.block_on(stalled(true)) {
        let _ = rt.block_on(r.chunk());
        v.extend(rt.block_on(r.chunk()).err());
        v.extend(rt.block_on(r.bytes()).err());
    }
    v.push(rt.block_on(redirects()));
    v.push(rt.block_on(broken_request()));
    v.push(cl.get("ftp://h/").build().and_then(|r| rt.block_on(cl.execute(r))).unwrap_err());
    v.push(cl.get("http://h/").header("a b", "c").build().unwrap_err());
    v.push(cl.get("http://h/").query(&5).build().unwrap_err());
    v
}
struct Broken(std::cell::RefCell<Option<std::io::Error>>);
impl std::io::Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(self.0.borrow_mut().take().unwrap_or_else(|| std::io::ErrorKind::Other.into()))
    }
}
fn json_errors(depth: usize) -> Vec<serde_json::Error> {
    let mut v = vec![];
    for t in ["", "{", "nul", "[1,", "\"\\x\"", "300"] {
        v.push(serde_json::from_str::<u8>(t).unwrap_err());
    }
    for d in 1..=depth {
        let l = Link::new(&(0..d).map(|i| format!("io cause {i}")).collect::<Vec<_>>());
        v.push(serde_json::from_reader::<_, u8>(Broken(std::cell::RefCell::new(Some(std::io::Error::new(std::io::ErrorKind::Other, l))))).unwrap_err());
    }
    v
}
struct Expect {
    kind: &'static str,
    status: Option<u16>,
    /// label and datum
    text: String,
    /// text of the source chain of the underlying error, the underlying error itself first
    chain: Vec<String>,
    carried: Vec<String>,
    ptr: Option<()>,
}
fn chain_of(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut v = vec![];
    let mut p: Option<&(dyn std::error::Error + 'static)> = Some(e);
    while let Some(x) = p {
        v.push(x.to_string());
        p = x.source();
    }
    v
}
fn all_errors(c: &mut Ctx) -> Vec<(Error<Vec<u32>>, Expect)> {
    let depth = c.scale(5, 12);
    let mut out: Vec<(Error<Vec<u32>>, Expect)> = vec![];
    let mut strs = vec!["".to_string(), "message".into(), "multi: part {} %s".into(), "\u{4e2d}\u{6587}".into(), "{:?}".into()];
    let n = c.scale(60, 2000);
    for _ in 0..n {
        strs.push(c.rng.string(12));
    }
    for s in &strs {
        for (k, l, e) in [
            ("InvalidRequest", "Invalid Request: ", Error::InvalidRequest(s.clone())),
            ("PreHookError", "Pre-hook Error: ", Error::PreHookError(s.clone())),
            ("PostHookError", "Post-hook Error: ", Error::PostHookError(s.clone())),
        ] {
            out.push((e, Expect { kind: k, status: None, text: format!("{l}{s}"), chain: vec![], carried: vec![s.clone()], ptr: None }));
        }
    }
    for which in 0..3 {
        for e in comm_errors(&c.rt, depth) {
            let (k, l) = [
                ("CommunicationError", "Communication Error: "),
                ("InvalidUpgrade", "Invalid Response Upgrade: "),
                ("ResponseBodyError", "Invalid Response Body Bytes: "),
            ][which];
            let x = Expect {
                kind: k,
                status: e.status().map(|s| s.as_u16()),
                text: format!("{l}{e}"),
                chain: chain_of(&e),
                carried: vec![format!("{e:?}")],
                ptr: None,
            };
            let e = match which {
                0 => Error::CommunicationError(e),
                1 => Error::InvalidUpgrade(e),
                _ => Error::ResponseBodyError(e),
            };
            out.push((e, x));
        }
    }
    for b in [&b""[..], b"body", b"\xff\0\"", b"{"] {
        for e in json_errors(depth) {
            let by = Bytes::from(b.to_vec());
            let x = Expect {
                kind: "InvalidResponsePayload",
                status: None,
                text: format!("Invalid Response Payload ({by:?}): {e}"),
                chain: chain_of(&e),
                carried: vec![format!("{by:?}"), format!("{e:?}")],
                ptr: None,
            };
            out.push((Error::InvalidResponsePayload(by, e), x));
        }
    }
    let n = c.scale(60, 2000);
    let mut sts: Vec<u16> = STATUSES.to_vec();
    for _ in 0..n {
        sts.push(100 + c.rng.below(900) as u16);
    }
    for st in sts {
        let h = gen_headers(&mut c.rng);
        let sp = Spec { status: st, headers: h, chunks: vec![Ok(b"left".to_vec())] };
        let r = make(&sp);
        let hm = headers_of(&sp);
        out.push((
            Error::UnexpectedResponse(make(&sp)),
            Expect { kind: "UnexpectedResponse", status: Some(st), text: format!("Unexpected Response: {r:?}"), chain: vec![], carried: vec![format!("{r:?}")], ptr: None },
        ));
        let v: Vec<u32> = (0..c.rng.below(4)).map(|i| i as u32).collect();
        let code = StatusCode::from_u16(st).unwrap();
        out.push((
            Error::ErrorResponse(ResponseValue::new(v.clone(), code, hm.clone())),
            Expect {
                kind: "ErrorResponse",
                status: Some(st),
                text: format!("Error Response: status: {code}; headers: {hm:?}; value: {v:?}"),
                chain: vec![],
                carried: vec![format!("{code} {hm:?}")],
                ptr: None,
            },
        ));
    }
    out
}
fn carried<E>(e: &Error<E>) -> Vec<String> {
    match e {
        Error::InvalidRequest(s) | Error::PreHookError(s) | Error::PostHookError(s) => vec![s.clone()],
        Error::CommunicationError(e) | Error::InvalidUpgrade(e) | Error::ResponseBodyError(e) => vec![format!("{e:?}")],
        Error::InvalidResponsePayload(b, e) => vec![format!("{b:?}"), format!("{e:?}")],
        Error::UnexpectedResponse(r) => vec![format!("{r:?}")],
        Error::ErrorResponse(r) => vec![format!("{} {:?}", r.status(), r.headers())],
    }
}
struct Limited(usize, String);
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for ch in s.chars() {
            if self.0 == 0 {
                return Err(std::fmt::Error);
            }
            self.0 -= 1;
            self.1.push(ch);
        }
        Ok(())
    }
}
fn errors(c: &mut Ctx, prop: &str) {
    use std::error::Error as _;
    for (e, x) in all_errors(c) {
        let _ = x.ptr;
        c.case(|| format!("{prop}:{}:{:?}:{:?}", x.kind, x.text, x.chain), |rt| match prop {
            "C10" => eq("status", e.status().map(|s| s.as_u16()), x.status),
            "C11" => {
                let before = e.status();
                let u = e.into_untyped();
                eq("kind", ekind(&u), x.kind)?;
                eq("carried", carried(&u), x.carried.clone())?;
                eq("status", u.status(), before)?;
                match u {
                    Error::UnexpectedResponse(r) => eq("body", rt.block_on(r.bytes()).unwrap().to_vec(), b"left".to_vec()),
                    _ => Ok(()),
                }
            }
            "C12" => {
                let s = e.source();
                eq("has a source", s.is_some(), !x.chain.is_empty())?;
                if let Some(s) = s {
                    let p = s as *const dyn std::error::Error as *const ();
                    let want = match &e {
                        Error::CommunicationError(i) | Error::InvalidUpgrade(i) | Error::ResponseBodyError(i) => i as *const _ as *const (),
                        Error::InvalidResponsePayload(_, i) => i as *const _ as *const (),
                        _ => std::ptr::null(),
                    };
                    eq("source is the very error held", p, want)?;
                    eq("chain", chain_of(s), x.chain.clone())?;
                }
                Ok(())
            }
            _ => {
                eq("display", format!("{e}"), x.text.clone())?;
                eq("debug", format!("{e:?}"), x.text.clone())?;
                let mut alt = x.text.clone();
                for t in x.chain.iter().skip(1) {
                    alt += &format!(": {t}");
                }
                eq("alternate display", format!("{e:#}"), alt.clone())?;
                eq("alternate debug", format!("{e:#?}"), alt.clone())?;
                // a sink that fails makes formatting fail, after a correct prefix
                for cut in [0, 3, alt.chars().count() / 2, alt.chars().count() - 1, alt.chars().count()] {
                    use std::fmt::Write;
                    let mut l = Limited(cut, String::new());
                    let r = write!(l, "{e:#}");
                    eq("formatting into a failing sink", r.is_ok(), cut == alt.chars().count())?;
                    if !alt.starts_with(&l.1) {
                        return Err(format!("wrote {:?}", l.1));
                    }
                }
                Ok(())
            }
        });
    }
    if prop == "C13" {
        c.case(|| "C13:stream".into(), |_| {
            let sp = Spec { status: 404, headers: vec![("x-a".into(), b"1".to_vec())], chunks: vec![] };
            let h = headers_of(&sp);
            let e: Error<ByteStream> = Error::ErrorResponse(ResponseValue::stream(make(&sp)));
            let w = format!("Error Response: status: 404 Not Found; headers: {h:?}; value: <stream>");
            eq("display", format!("{e}"), w.clone())?;
            eq("alternate", format!("{e:#}"), w)
        });
    }
    if prop == "C12" {
        for (i, e) in comm_errors(&c.rt, 3).into_iter().enumerate() {
            let key = format!("C12:from:transport:{i}:{}", e.to_string().replace(|x: char| x.is_ascii_digit(), ""));
            c.case(|| key, |_| {
                let (d, ch) = (format!("{e:?}"), chain_of(&e));
                match Error::<()>::from(e) {
                    Error::CommunicationError(g) => {
                        eq("error held", format!("{g:?}"), d)?;
                        eq("chain", chain_of(&g), ch)
                    }
                    g => Err(format!("kind {}", ekind(&g))),
                }
            });
        }
        for v in ["a\nb", "\0", "\x7f"] {
            c.case(|| format!("C12:from:header:{v:?}"), |_| {
                let e = HeaderValue::from_str(v).unwrap_err();
                let t = e.to_string();
                match Error::<()>::from(e) {
                    Error::InvalidRequest(g) => eq("message", g, t),
                    g => Err(format!("kind {}", ekind(&g))),
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C14
#[derive(serde::Serialize)]
struct Form {
    a: String,
    #[serde(rename = "b c")]
    b: i64,
    #[serde(skip_serializing_if = "Option::is_none")]
    o: Option<bool>,
}
#[derive(serde::Serialize)]
struct Nested {
    f: Form,
}
fn c14(c: &mut Ctx) {
    fn one<T: serde::Serialize + ?Sized>(m: &str, url: &str, pre: &[(&str, &str)], v: &T, want: Option<Vec<(String, String)>>) -> Result<(), String> {
        let cl = reqwest::Client::new();
        let mk = || {
            let mut b = cl.request(m.parse().unwrap(), url).timeout(std::time::Duration::from_secs(7));
            for (k, x) in pre {
                b = b.header(*k, *x);
            }
            b
        };
        let plain = mk().build().unwrap();
        match (RequestBuilderExt::<()>::form_urlencoded(mk(), v), want) {
            (Err(Error::InvalidRequest(_)), None) => Ok(()),
            (Err(e), w) => Err(format!("error {} while encodable is {}", ekind(&e), w.is_some())),
            (Ok(_), None) => Err("a request was made of a value that cannot be encoded".into()),
            (Ok(b), Some(w)) => {
                let r = b.build().map_err(|e| e.to_string())?;
                let mut h = plain.headers().clone();
                h.append("content-type", HeaderValue::from_static("application/x-www-form-urlencoded"));
                eq("headers", r.headers().clone(), h)?;
                eq("method", r.method().clone(), plain.method().clone())?;
                eq("url", r.url().clone(), plain.url().clone())?;
                eq("timeout", r.timeout().cloned(), plain.timeout().cloned())?;
                let body = r.body().and_then(|b| b.as_bytes()).ok_or("no body")?;
                let mut ser = url::form_urlencoded::Serializer::new(String::new());
                for (k, x) in &w {
                    ser.append_pair(k, x);
                }
                eq("body", String::from_utf8_lossy(body).into_owned(), ser.finish())
            }
        }
    }
    let n = c.scale(800, 30000);
    for i in 0..n {
        let f = Form { a: if i == 0 { String::new() } else { c.rng.string(8) }, b: c.rng.next() as i64, o: [None, Some(true), Some(false)][c.rng.below(3)] };
        let m = ["POST", "PUT", "PATCH"][c.rng.below(3)];
        let url = ["http://h/", "http://h/a/b?x=1&y=2", "http://u@h:9/%20#f"][c.rng.below(3)];
        let pre: &[(&str, &str)] = [&[][..], &[("accept", "application/json")], &[("x-a", "1"), ("x-a", "2")], &[("api-version", "1.0")]][c.rng.below(4)];
        let mut w = vec![("a".to_string(), f.a.clone()), ("b c".to_string(), f.b.to_string())];
        if let Some(o) = f.o {
            w.push(("o".into(), o.to_string()));
        }
        c.case(|| format!("C14:{m}:{url}:{w:?}"), |_| one(m, url, pre, &f, Some(w.clone())));
        let l: Vec<(String, String)> = (0..c.rng.below(4)).map(|_| (c.rng.string(4), c.rng.string(4))).collect();
        c.case(|| format!("C14:list:{l:?}"), |_| one(m, url, pre, &l[..], Some(l.clone())));
    }
    // whatever the encoder itself says, including of values that take no space
    fn same<T: serde::Serialize + ?Sized>(v: &T) -> Result<(), String> {
        let cl = reqwest::Client::new();
        match (serde_urlencoded::to_string(v), RequestBuilderExt::<()>::form_urlencoded(cl.post("http://h/"), v)) {
            (Err(_), Err(Error::InvalidRequest(_))) => Ok(()),
            (Ok(t), Ok(b)) => {
                let r = b.build().map_err(|e| e.to_string())?;
                eq("content-type", r.headers().get("content-type").cloned(), Some(HeaderValue::from_static("application/x-www-form-urlencoded")))?;
                eq("body", r.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()), Some(t.into_bytes()))
            }
            (w, g) => Err(format!("encodable: {}, result: {}", w.is_ok(), kind(&g.map(|_| ())))),
        }
    }
    #[derive(serde::Serialize)]
    struct Marker;
    #[derive(serde::Serialize)]
    struct Hollow {}
    #[derive(serde::Serialize)]
    struct Wrap<T>(T);
    #[derive(serde::Serialize)]
    enum Only {
        A,
    }
    struct Never;
    impl serde::Serialize for Never {
        fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
            Err(serde::ser::Error::custom("never"))
        }
    }
    #[derive(serde::Serialize)]
    struct Holds<T> {
        k: T,
    }
    c.case(|| "C14:()".into(), |_| same(&()));
    c.case(|| "C14:Marker".into(), |_| same(&Marker));
    c.case(|| "C14:Hollow".into(), |_| same(&Hollow {}));
    c.case(|| "C14:Only::A".into(), |_| same(&Only::A));
    c.case(|| "C14:Never".into(), |_| same(&Never));
    c.case(|| "C14:[Only;0]".into(), |_| same(&[(); 0]));
    c.case(|| "C14:empty tuple list".into(), |_| same::<[(u8, u8)]>(&[]));
    c.case(|| "C14:Wrap".into(), |_| same(&Wrap(())));
    c.case(|| "C14:Wrap map".into(), |_| same(&Wrap(std::collections::BTreeMap::from([("a", 1), ("b", 2)]))));
    c.case(|| "C14:Some".into(), |_| same(&Some([("a", "b")])));
    c.case(|| "C14:None".into(), |_| same(&None::<()>));
    c.case(|| "C14:Holds None".into(), |_| same(&Holds { k: None::<u8> }));
    c.case(|| "C14:Holds ()".into(), |_| same(&Holds { k: () }));
    c.case(|| "C14:Holds Marker".into(), |_| same(&Holds { k: Marker }));
    c.case(|| "C14:Holds enum".into(), |_| same(&Holds { k: Only::A }));
    c.case(|| "C14:Holds never".into(), |_| same(&Holds { k: Never }));
    c.case(|| "C14:Holds float".into(), |_| same(&Holds { k: f64::NAN }));
    c.case(|| "C14:Holds bytes".into(), |_| same(&Holds { k: [1u8, 2] }));
    c.case(|| "C14:Holds list".into(), |_| same(&Holds { k: vec!["x"] }));
    c.case(|| "C14:Holds u128".into(), |_| same(&Holds { k: u128::MAX }));
    c.case(|| "C14:pairs with repeats".into(), |_| same(&[("a", "1"), ("a", "2"), ("", ""), ("&=", "%+ \u{e9}")]));
    c.case(|| "C14:bool".into(), |_| same(&true));
    c.case(|| "C14:dyn".into(), |_| same(&serde_json::json!({"a": null, "b": [1]})));
    c.case(|| "C14:dyn flat".into(), |_| same(&serde_json::json!({"a": 1, "b": "x y", "c": true, "d": null})));
    c.case(|| "C14:nested".into(), |_| one("POST", "http://h/", &[], &Nested { f: Form { a: "".into(), b: 0, o: None } }, None));
    c.case(|| "C14:number".into(), |_| one("POST", "http://h/", &[], &5u8, None));
    c.case(|| "C14:string".into(), |_| one("POST", "http://h/", &[("x", "y")], "text", None));
    c.case(|| "C14:list".into(), |_| one("POST", "http://h/", &[], &vec![1, 2], None));
    c.case(|| "C14:nested-list".into(), |_| one("POST", "http://h/", &[], &vec![("a", vec![1])], None));
}
