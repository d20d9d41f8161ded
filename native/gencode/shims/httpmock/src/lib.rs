//! The part of httpmock that mocking extensions use: what a mock demands of a request and what it answers.
use serde_json::Value;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Method { GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH }
pub struct HttpMockRequest {
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}
pub type Check = Box<dyn Fn(&HttpMockRequest) -> bool>;
pub struct When(Rc<RefCell<Vec<Check>>>);
#[derive(Default, Clone, Debug)]
pub struct Reply {
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub body: Option<Value>,
}
pub struct Then(Rc<RefCell<Reply>>);
impl When {
    fn with(self, c: Check) -> Self {
        self.0.borrow_mut().push(c);
        self
    }
    pub fn method<M: Into<Method>>(self, m: M) -> Self {
        let m = m.into();
        self.with(Box::new(move |r| r.method == format!("{m:?}")))
    }
    pub fn path<S: Into<String>>(self, p: S) -> Self {
        let p = p.into();
        self.with(Box::new(move |r| r.path == p))
    }
    pub fn path_matches<R: Into<regex::Regex>>(self, re: R) -> Self {
        let re = re.into();
        self.with(Box::new(move |r| re.is_match(&r.path)))
    }
    pub fn query_param<A: Into<String>, B: Into<String>>(self, n: A, v: B) -> Self {
        let (n, v) = (n.into(), v.into());
        self.with(Box::new(move |r| r.query_params.as_ref().is_some_and(|q| q.iter().any(|(a, b)| *a == n && *b == v))))
    }
    pub fn query_param_exists<A: Into<String>>(self, n: A) -> Self {
        let n = n.into();
        self.with(Box::new(move |r| r.query_params.as_ref().is_some_and(|q| q.iter().any(|(a, _)| *a == n))))
    }
    pub fn header<A: Into<String>, B: Into<String>>(self, n: A, v: B) -> Self {
        let (n, v) = (n.into().to_lowercase(), v.into());
        self.with(Box::new(move |r| r.headers.as_ref().is_some_and(|q| q.iter().any(|(a, b)| *a == n && *b == v))))
    }
    pub fn matches(self, f: fn(&HttpMockRequest) -> bool) -> Self {
        self.with(Box::new(f))
    }
    pub fn body<S: Into<String>>(self, b: S) -> Self {
        let b = b.into();
        self.with(Box::new(move |r| r.body.as_deref() == Some(b.as_bytes())))
    }
    pub fn json_body<V: Into<Value>>(self, v: V) -> Self {
        let v = v.into();
        self.with(Box::new(move |r| r.body.as_deref().and_then(|b| serde_json::from_slice::<Value>(b).ok()).is_some_and(|b| b == v)))
    }
    pub fn json_body_obj<'a, T: serde::Serialize + serde::Deserialize<'a>>(self, v: &T) -> Self {
        self.json_body(serde_json::to_value(v).unwrap())
    }
    pub fn x_www_form_urlencoded_tuple<A: Into<String>, B: Into<String>>(self, _: A, _: B) -> Self {
        self
    }
}
impl Then {
    fn with(self, f: impl FnOnce(&mut Reply)) -> Self {
        f(&mut self.0.borrow_mut());
        self
    }
    pub fn status<N: TryInto<u16>>(self, n: N) -> Self {
        let n = n.try_into().ok().unwrap();
        self.with(|r| r.status = Some(n))
    }
    pub fn header<A: Into<String>, B: Into<String>>(self, n: A, v: B) -> Self {
        self.with(|r| r.headers.push((n.into().to_lowercase(), v.into())))
    }
    pub fn body(self, b: impl AsRef<[u8]>) -> Self {
        self.with(|r| r.body = Some(Value::String(String::from_utf8_lossy(b.as_ref()).into_owned())))
    }
    pub fn json_body<V: Into<Value>>(self, v: V) -> Self {
        self.with(|r| r.body = Some(v.into()))
    }
    pub fn json_body_obj<T: serde::Serialize>(self, v: &T) -> Self {
        self.json_body(serde_json::to_value(v).unwrap())
    }
}
pub struct MockServer;
pub struct Mock<'a> {
    pub server: &'a MockServer,
    checks: Vec<Check>,
    pub reply: Reply,
}
impl MockServer {
    pub fn mock<F: FnOnce(When, Then)>(&self, f: F) -> Mock<'_> {
        let (w, t) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(Reply::default())));
        f(When(w.clone()), Then(t.clone()));
        let (checks, reply) = (w.take(), t.borrow().clone());
        Mock { server: self, checks, reply }
    }
}
impl Mock<'_> {
    pub fn fits(&self, r: &HttpMockRequest) -> bool {
        self.checks.iter().all(|c| c(r))
    }
}
