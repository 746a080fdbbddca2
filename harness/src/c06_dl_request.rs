//! C06: the identity of upstream requests in a data loader
use crate::rt::*;
use reqwest::header::{HeaderName, HeaderValue};
use reqwest::{Method, Request, Url};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use tailcall::core::http::DataLoaderRequest;

/// keeps what is hashed
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed(r: &DataLoaderRequest) -> Vec<u8> {
    let mut h = Fed::default();
    r.hash(&mut h);
    h.0
}
/// what identifies a request, as plain data
#[derive(PartialEq)]
struct Plain {
    url: Vec<u8>,
    body: Option<Vec<u8>>,
    headers: Vec<(&'static str, Vec<Vec<u8>>)>,
}
const URLS: &[&str] = &["http://a.b/p", "http://a.b/p?x=1", "http://a.b:8080/p", "https://a.b/p"];
fn free_url() -> Url {
    let mut u = Url::parse("http://a.b/p?").unwrap();
    let q = string_of(b"ab=&1", choose(3) as usize);
    u.set_query(Some(&q));
    u
}
fn fixed_url() -> Url {
    Url::parse(URLS[choose(URLS.len() as u8) as usize]).unwrap()
}
fn body(max: u8) -> Option<Vec<u8>> {
    if choose_bool() {
        Some(bytes(choose(max + 1) as usize))
    } else {
        None
    }
}
const NAMES: &[&str] = &["h-a", "h-b", "h-c"];
/// values of every header; `names`: those that matter
fn make(url: Url, body: Option<Vec<u8>>, headers: Vec<(&'static str, Vec<Vec<u8>>)>, names: &BTreeSet<String>, method: Method) -> (DataLoaderRequest, Plain) {
    let mut r = Request::new(method, url);
    if let Some(b) = &body {
        r.body_mut().replace(b.clone().into());
    }
    for (n, vs) in &headers {
        for v in vs {
            r.headers_mut().append(HeaderName::from_static(n), HeaderValue::from_bytes(v).unwrap());
        }
    }
    let p = Plain {
        url: r.url().as_str().as_bytes().to_vec(),
        body,
        headers: headers.into_iter().filter(|h| names.contains(h.0) && !h.1.is_empty()).collect(),
    };
    (DataLoaderRequest::new(r, names.clone()), p)
}
fn value(n: usize) -> Vec<u8> {
    (0..n).map(|_| byte_in(0x21, 0x7e)).collect()
}
fn compare(a: &(DataLoaderRequest, Plain), b: &(DataLoaderRequest, Plain)) {
    let want = a.1 == b.1;
    let got = a.0 == b.0;
    check(got == want, "equal exactly when URL, body and named headers agree");
    check((b.0 == a.0) == got, "equality is symmetric");
    if want {
        check(fed(&a.0) == fed(&b.0), "equal requests have equal hashes");
        cover("same request");
    } else {
        cover("different requests");
    }
    observe_bool(got);
}
fn reflexive(a: &(DataLoaderRequest, Plain)) {
    check(a.0 == a.0, "equality is reflexive");
    let c = a.0.clone();
    check(c == a.0 && fed(&c) == fed(&a.0), "a copy is the same request");
    check(c.method() == a.0.method() && c.url() == a.0.url(), "a copy keeps method and URL");
    check(c.body().and_then(|b| b.as_bytes()) == a.1.body.as_deref(), "a copy keeps the body");
    check(c.request_headers() == a.0.request_headers(), "a copy keeps the headers");
    check(c.headers_named() == a.0.headers_named() && c.batching_value() == a.0.batching_value(), "a copy keeps the batching data");
    let r = a.0.to_request();
    check(r.url() == a.0.url() && r.method() == a.0.method() && r.headers() == a.0.request_headers() && r.body().and_then(|b| b.as_bytes()) == a.1.body.as_deref(), "the request itself is handed out unchanged");
}
trait Parts {
    fn request_headers(&self) -> &reqwest::header::HeaderMap;
    fn headers_named(&self) -> &BTreeSet<String>;
}
impl Parts for DataLoaderRequest {
    fn request_headers(&self) -> &reqwest::header::HeaderMap {
        let r: &Request = self;
        r.headers()
    }
    fn headers_named(&self) -> &BTreeSet<String> {
        self.headers()
    }
}
fn names(k: u8) -> BTreeSet<String> {
    NAMES.iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|x| x.1.to_string()).collect()
}
fn method() -> Method {
    [Method::GET, Method::POST][choose(2) as usize].clone()
}
/// URLs and bodies
pub fn h_c06_url_body() {
    let none = BTreeSet::new();
    let a = make(free_url(), body(2), vec![], &none, Method::GET);
    let b = make(free_url(), body(2), vec![], &none, method());
    compare(&a, &b);
    reflexive(&a);
}
pub fn h_c06_body() {
    let none = BTreeSet::new();
    let a = make(fixed_url(), body(4), vec![], &none, Method::POST);
    let b = make(fixed_url(), body(4), vec![], &none, method());
    compare(&a, &b);
}
fn any_headers(maxlen: u8) -> Vec<(&'static str, Vec<Vec<u8>>)> {
    NAMES
        .iter()
        .take(2)
        .map(|n| {
            (
                *n,
                match choose(3) {
                    0 => vec![],
                    1 => vec![value(choose(maxlen + 1) as usize)],
                    _ => vec![value(1), value(1)],
                },
            )
        })
        .collect()
}
/// headers named or not, single and repeated
fn headers(maxlen: u8) {
    let n = names(choose(4));
    let u = Url::parse("http://a.b/p").unwrap();
    let a = make(u.clone(), None, any_headers(maxlen), &n, Method::GET);
    let b = make(u, None, any_headers(maxlen), &n, method());
    compare(&a, &b);
    reflexive(&a);
}
pub fn h_c06_headers() {
    headers(1)
}
pub fn h_c06_headers_deep() {
    headers(3)
}
/// all parts together, three requests
pub fn h_c06_three() {
    let n = names(1);
    let one = || make(fixed_url(), if choose_bool() { Some(bytes(1)) } else { None }, vec![("h-a", if choose_bool() { vec![value(1)] } else { vec![] }), ("h-b", vec![value(1)])], &n, method());
    let (a, b, c) = (one(), one(), one());
    let (ab, bc, ac) = (a.0 == b.0, b.0 == c.0, a.0 == c.0);
    check(!(ab && bc) || ac, "equality is transitive");
    check(ab == (a.1 == b.1), "equal exactly when URL, body and named headers agree");
    if ab && bc {
        cover("three equal");
    }
    let v = a.0.clone().with_batching_value(Some("7".into()));
    check(v.batching_value().map(|x| x.as_str()) == Some("7") && v == a.0, "the batching value is kept and no part of the identity");
    observe_bool(ac);
}
crate::harnesses!(h_c06_url_body, h_c06_body, h_c06_headers, h_c06_headers_deep, h_c06_three);
