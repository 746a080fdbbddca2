//! C07: merging several upstream requests into one
use crate::rt::*;
use reqwest::header::{HeaderName, HeaderValue};
use reqwest::{Method, Request, Url};
use std::collections::BTreeSet;
use tailcall::core::http::DataLoaderRequest;
use tailcall::core::symex::http::{BodyBatching, QueryBatching};
use tailcall::core::symex::transform::{Transform, TransformerOps};
use tailcall_valid::Validator;

fn post(body: Option<Vec<u8>>, query: &[(String, String)]) -> Request {
    let mut r = Request::new(Method::POST, url(query));
    if let Some(b) = body {
        r.body_mut().replace(b.into());
    }
    r.headers_mut().insert(HeaderName::from_static("h-a"), HeaderValue::from_static("v"));
    r
}
fn url(query: &[(String, String)]) -> Url {
    let mut u = Url::parse("http://a.b:81/p").unwrap();
    for (k, v) in query {
        u.query_pairs_mut().append_pair(k, v);
    }
    u
}
fn pairs(u: &Url) -> Vec<(String, String)> {
    u.query_pairs().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
fn dl(r: &Request) -> DataLoaderRequest {
    DataLoaderRequest::new(r.try_clone().unwrap(), BTreeSet::new())
}
fn run<T: Transform<Value = Request, Error = std::convert::Infallible>>(t: T, r: Request) -> Option<Request> {
    t.transform(r).to_result().ok()
}
fn same_but_url_and_body(a: &Request, b: &Request) -> bool {
    a.method() == b.method() && a.headers() == b.headers() && a.url().scheme() == b.url().scheme() && a.url().host_str() == b.url().host_str() && a.url().port() == b.url().port() && a.url().path() == b.url().path()
}
/// a JSON body (any bytes, not empty)
fn any_body() -> Option<Vec<u8>> {
    match choose(3) {
        0 => None,
        1 => Some(bytes(1)),
        _ => Some(bytes(2)),
    }
}
fn joined(bodies: &[Option<Vec<u8>>]) -> Option<Vec<u8>> {
    let mut out = vec![b'['];
    let mut any = false;
    for b in bodies.iter().flatten() {
        if any {
            out.push(b',');
        }
        any = true;
        out.extend_from_slice(b);
    }
    out.push(b']');
    any.then_some(out)
}
fn body_batching(max: u8) {
    let n = choose(max + 1) as usize;
    let bodies: Vec<Option<Vec<u8>>> = (0..n).map(|_| any_body()).collect();
    let reqs: Vec<Request> = bodies.iter().map(|b| post(b.clone(), &[])).collect();
    let dls: Vec<DataLoaderRequest> = reqs.iter().map(dl).collect();
    let refs: Vec<&DataLoaderRequest> = dls.iter().collect();
    let base = post(Some(vec![b'x']), &[]);
    let got = run(BodyBatching::new(&refs), base.try_clone().unwrap());
    check(got.is_some(), "batching succeeds");
    if let Some(got) = got {
        check(same_but_url_and_body(&got, &base) && got.url() == base.url(), "nothing but the body changes");
        match joined(&bodies) {
            Some(want) => {
                check(got.body().and_then(|b| b.as_bytes()) == Some(&want[..]), "the body lists every request's body in order");
                cover("bodies");
            }
            None => check(got.body().and_then(|b| b.as_bytes()) == Some(b"x"), "without bodies the body is left alone"),
        }
        observe(got.body().and_then(|b| b.as_bytes()).unwrap_or_default());
    }
}
pub fn h_c07_body() {
    body_batching(3)
}
pub fn h_c07_body_deep() {
    body_batching(5)
}
const KEYS: &[&str] = &["id", "x", "ids"];
fn any_query(max: u8, len: usize) -> Vec<(String, String)> {
    (0..choose(max + 1)).map(|_| (KEYS[choose(3) as usize].to_string(), string_of(b"1 &%", choose(len as u8 + 1) as usize))).collect()
}
fn query_batching(max: u8, q: u8, len: usize) {
    let base_q = any_query(1, len);
    let others: Vec<Vec<(String, String)>> = (0..choose(max + 1)).map(|_| any_query(q, len)).collect();
    query_of(base_q, others)
}
/// any parameter names
fn query_names(len: u8) {
    let p = |v: &str| vec![(string_of(b"idIDx ", choose(len + 1) as usize), v.to_string())];
    query_of(p("1"), vec![p("2"), p("3")])
}
pub fn h_c07_names() {
    query_names(2)
}
pub fn h_c07_names_deep() {
    query_names(3)
}
fn query_of(base_q: Vec<(String, String)>, others: Vec<Vec<(String, String)>>) {
    let key = match choose(2) {
        0 => None,
        _ => Some("id"),
    };
    let reqs: Vec<Request> = others.iter().map(|x| post(None, x)).collect();
    let dls: Vec<DataLoaderRequest> = reqs.iter().map(dl).collect();
    let refs: Vec<&DataLoaderRequest> = dls.iter().collect();
    let base = post(Some(vec![b'x']), &base_q);
    let got = run(QueryBatching::new(&refs, key), base.try_clone().unwrap());
    let mut want = base_q.clone();
    for o in &others {
        want.extend(o.iter().filter(|p| key.is_none() || p.0 == "id").cloned());
    }
    check(got.is_some(), "batching succeeds");
    if let Some(got) = got {
        check(pairs(got.url()) == want, "the URL carries every request's parameters in order");
        check(got.url().query().is_some() == !want.is_empty(), "no empty query is added");
        check(same_but_url_and_body(&got, &base), "nothing but the query changes");
        check(got.body().and_then(|b| b.as_bytes()) == Some(b"x"), "nothing but the query changes");
        observe(got.url().as_str().as_bytes());
        if want.len() > base_q.len() {
            cover(if key.is_some() { "keyed parameters" } else { "all parameters" });
        }
    }
}
pub fn h_c07_query() {
    query_batching(2, 1, 1)
}
pub fn h_c07_query_deep() {
    query_batching(2, 2, 2)
}
/// what a batched POST does: both, one after the other
pub fn h_c07_both() {
    let n = choose(3) as usize + 1;
    let bodies: Vec<Option<Vec<u8>>> = (0..n).map(|_| any_body()).collect();
    let qs: Vec<Vec<(String, String)>> = (0..n).map(|_| if choose_bool() { vec![("id".to_string(), string_of(b"1 &%", 1))] } else { vec![] }).collect();
    let dls: Vec<DataLoaderRequest> = (0..n).map(|i| dl(&post(bodies[i].clone(), &qs[i]))).collect();
    let rest: Vec<&DataLoaderRequest> = dls.iter().skip(1).collect();
    let all: Vec<&DataLoaderRequest> = dls.iter().collect();
    let got = run(QueryBatching::new(&rest, None).pipe(BodyBatching::new(&all)), dls[0].to_request());
    check(got.is_some(), "batching succeeds");
    if let Some(got) = got {
        check(pairs(got.url()) == qs.concat(), "the URL carries every request's parameters in order");
        check(got.body().and_then(|b| b.as_bytes()).map(|x| x.to_vec()) == joined(&bodies), "the body lists every request's body in order");
        observe(got.url().as_str().as_bytes());
    }
}
crate::harnesses!(h_c07_names, h_c07_names_deep, h_c07_body, h_c07_body_deep, h_c07_query, h_c07_query_deep, h_c07_both);
