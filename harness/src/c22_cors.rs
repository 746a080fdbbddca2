//! C22: cross-origin headers are granted only to configured origins
use crate::rt::*;
use http::HeaderValue;
use tailcall::core::blueprint::Cors;
use tailcall::core::config::cors::Cors as Config;
use tailcall::core::http::Method;

fn text(set: &[u8], min: u8, max: u8) -> String {
    string_of(set, (min + choose(max - min + 1)) as usize)
}
fn texts(n: u8, set: &[u8], max: u8) -> Vec<String> {
    (0..choose(n + 1)).map(|_| text(set, 0, max)).collect()
}
fn config() -> Config {
    Config { allow_methods: vec![Method::GET], ..Default::default() }
}
fn parts(headers: &[(&str, &HeaderValue)]) -> http::request::Parts {
    let mut p = http::Request::new(()).into_parts().0;
    for (k, v) in headers {
        p.headers.append(http::HeaderName::from_bytes(k.as_bytes()).unwrap(), (*v).clone());
    }
    p
}
fn joined(l: &[String]) -> String {
    let mut s = String::new();
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(x);
    }
    s
}
const ORIGIN: &[u8] = b"*aA.:/ ";

/// the origin of a request is granted exactly when it is one of the configured ones or all are
fn origins(n: u8, len: u8) {
    let list = texts(n, ORIGIN, len);
    let credentials = match choose(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let any = list.iter().any(|x| x == "*");
    let c = Config { allow_origins: list.clone(), allow_credentials: credentials, ..config() };
    let Ok(cors) = Cors::try_from(c) else {
        check(any && credentials == Some(true), "C22: a usable configuration is rejected");
        cover("rejected");
        return;
    };
    check(!(any && credentials == Some(true)), "C22: credentials for every origin");
    let origin = if choose_bool() { Some(text(ORIGIN, 0, len)) } else { None };
    let value = origin.as_ref().map(|x| HeaderValue::from_bytes(x.as_bytes()).unwrap());
    let got = cors.allow_origin_to_header(value.as_ref());
    let want = origin.as_ref().filter(|o| any || list.iter().any(|x| x == *o));
    match (&got, want) {
        (None, None) => cover("not granted"),
        (Some((k, v)), Some(o)) => {
            check(k.as_str() == "access-control-allow-origin", "C22: origin granted under another name");
            check(v.as_bytes() == o.as_bytes(), "C22: another origin is granted");
            cover("granted");
        }
        (None, _) => check(false, "C22: a configured origin is refused"),
        (_, None) => check(false, "C22: an origin is granted that is not configured"),
    }
    match cors.allow_credentials_to_header() {
        None => check(credentials != Some(true), "C22: credentials are refused"),
        Some((k, v)) => check(
            credentials == Some(true) && k.as_str() == "access-control-allow-credentials" && v.as_bytes() == b"true",
            "C22: credentials are granted",
        ),
    }
    observe_bool(got.is_some());
}
pub fn h_c22_origin() {
    origins(2, 2)
}
pub fn h_c22_origin_deep() {
    origins(3, 3)
}

const METHODS: &[Method] = &[Method::GET, Method::POST, Method::PUT, Method::PATCH, Method::DELETE, Method::HEAD, Method::OPTIONS, Method::CONNECT, Method::TRACE];
const NAMES: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"];
fn check_header(got: Option<(http::HeaderName, HeaderValue)>, name: &str, want: Option<&str>, id: &'static str) {
    match (got, want) {
        (None, None) => {}
        (Some((k, v)), Some(w)) => check(k.as_str() == name && v.as_bytes() == w.as_bytes(), id),
        _ => check(false, id),
    }
}
/// the lists are those configured, in order; what stands for everything is refused together with credentials
pub fn h_c22_lists() {
    let methods: Vec<usize> = match choose(4) {
        0 => vec![],
        1 => vec![choose(9) as usize],
        2 => vec![1, choose(9) as usize],
        _ => vec![0, 1, 6],
    };
    let list = |f: bool| if f { texts(2, b"*aX-", 2) } else { vec![] };
    let which = choose(3);
    let headers = list(which == 0);
    let expose = list(which == 1);
    let vary = list(which == 2);
    let credentials = choose_bool();
    let age = match choose(3) {
        0 => None,
        1 if which == 0 => Some(byte() as usize),
        1 => Some(0),
        _ => Some(usize::MAX),
    };
    let c = Config {
        allow_methods: methods.iter().map(|i| METHODS[*i].clone()).collect(),
        allow_headers: headers.clone(),
        expose_headers: expose.clone(),
        vary: vary.clone(),
        max_age: age,
        allow_credentials: Some(credentials),
        allow_origins: vec!["https://a.b".to_string()],
        ..Default::default()
    };
    let alone = |l: &[String]| l.len() == 1 && l[0] == "*";
    let bad = credentials && (methods.is_empty() || alone(&headers) || alone(&expose));
    let Ok(cors) = Cors::try_from(c) else {
        check(bad, "C22: a usable configuration is rejected");
        cover("list rejected");
        return;
    };
    check(!bad, "C22: credentials together with a wildcard");
    let m = if methods.is_empty() { "*".to_string() } else { joined(&methods.iter().map(|i| NAMES[*i].to_string()).collect::<Vec<_>>()) };
    check_header(cors.allow_methods_to_header(), "access-control-allow-methods", Some(&m), "C22: other methods than configured");
    let h = joined(&headers);
    check_header(cors.allow_headers_to_header(), "access-control-allow-headers", (!headers.is_empty()).then_some(h.as_str()), "C22: other headers than configured");
    check_header(cors.expose_headers_to_header(), "access-control-expose-headers", Some(&joined(&expose)), "C22: other exposed headers than configured");
    let v = joined(&vary);
    check_header(cors.vary_to_header(), "vary", (!vary.is_empty()).then_some(v.as_str()), "C22: other vary headers than configured");
    let a = age.map(|x| x.to_string());
    check_header(cors.max_age_to_header(), "access-control-max-age", a.as_deref(), "C22: another age than configured");
    cover("lists");
}
/// private network access: only if configured and asked for
pub fn h_c22_private() {
    let allow = match choose(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let cors = Cors::try_from(Config { allow_private_network: allow, ..config() }).unwrap();
    let value = string_of(b"trueTUE1 ", 3 + choose(3) as usize);
    let v = HeaderValue::from_bytes(value.as_bytes()).unwrap();
    let name = ["access-control-request-private-network", "access-control-request-method", "access-control-allow-private-network"][choose(3) as usize];
    let other = HeaderValue::from_static("false");
    let p = match choose(3) {
        0 => parts(&[]),
        1 => parts(&[(name, &v)]),
        _ => parts(&[("access-control-request-headers", &other), (name, &v)]),
    };
    let asked = p.headers.len() > 0 && name == "access-control-request-private-network" && value == "true";
    let got = cors.allow_private_network_to_header(&p);
    let want = allow == Some(true) && asked;
    check_header(got, "access-control-allow-private-network", want.then_some("true"), "C22: private network access");
    if want {
        cover("private network");
    }
}
/// nothing that is no header value gets into one
pub fn h_c22_values() {
    let b = [byte(), byte()];
    let s = match std::str::from_utf8(&b) {
        Ok(s) => s.to_string(),
        Err(_) => reject(),
    };
    let fine = |x: &u8| (*x >= 0x20 && *x != 0x7f) || *x == b'\t';
    let ok = b.iter().all(fine);
    let mut c = config();
    let l = vec![s.clone()];
    match choose(4) {
        0 => c.allow_origins = l,
        1 => c.allow_headers = l,
        2 => c.expose_headers = l,
        _ => c.vary = l,
    }
    check(Cors::try_from(c).is_ok() == ok, "C22: a value is accepted that is no header value, or the reverse");
    if ok {
        cover("usable value");
    }
}
/// whole requests: what a preflight and what another request is answered
pub fn h_c22_served() {
    let list = texts(2, b"*ab", 1);
    let any = list.iter().any(|x| x == "*");
    let credentials = choose_bool();
    if any && credentials {
        reject();
    }
    let private = choose_bool();
    let mut b = crate::env::blueprint("schema { query: Query } type Query { a: String @expr(body: \"x\") }");
    let c = Config {
        allow_origins: list.clone(),
        allow_credentials: Some(credentials),
        allow_private_network: Some(private),
        allow_methods: vec![Method::GET, Method::POST],
        allow_headers: vec!["x-a".into(), "x-b".into()],
        expose_headers: vec!["x-c".into()],
        max_age: Some(7),
        vary: vec!["origin".into()],
    };
    b.server.cors = Some(Cors::try_from(c).unwrap());
    let app = crate::env::app(b, crate::env::Http::none());
    // the headers of a request to be executed get hashed: no symbolic ones
    let preflight = choose_bool();
    let origin = match choose(2) {
        0 => None,
        _ if preflight => Some(text(b"*abA", 1, 1)),
        _ => Some(conc_string_of(b"*abA", 1)),
    };
    let mut headers = vec![("access-control-request-method", "POST")];
    if let Some(o) = &origin {
        headers.push(("origin", o.as_str()));
    }
    let asked = choose_bool();
    if asked {
        headers.push(("access-control-request-private-network", "true"));
    }
    let body = if preflight { "" } else { "{\"query\":\"{ a }\"}" };
    let req = crate::env::request(if preflight { "OPTIONS" } else { "POST" }, "http://localhost/graphql", &headers, body);
    let Ok(r) = crate::env::serve(&app, req) else { return check(false, "C22: no answer") };
    let granted = origin.as_ref().filter(|o| any || list.iter().any(|x| x == *o));
    let only = |name: &str, want: Option<&[u8]>| {
        let l = r.all(name);
        match want {
            None => l.is_empty(),
            Some(w) => l.len() == 1 && l[0] == w,
        }
    };
    check(only("access-control-allow-origin", granted.map(|x| x.as_bytes())), "C22: the answer grants another origin");
    check(only("access-control-allow-credentials", credentials.then_some(&b"true"[..])), "C22: the answer grants credentials");
    check(only("access-control-allow-private-network", (private && asked).then_some(&b"true"[..])), "C22: the answer grants private network access");
    check(only("vary", Some(b"origin")), "C22: the answer lacks its vary header");
    let pre = |x: &'static str| preflight.then_some(x.as_bytes());
    check(only("access-control-allow-methods", pre("GET, POST")), "C22: the answer grants other methods");
    check(only("access-control-allow-headers", pre("x-a, x-b")), "C22: the answer grants other headers");
    check(only("access-control-max-age", pre("7")), "C22: the answer has another age");
    check(only("access-control-expose-headers", (!preflight).then_some(&b"x-c"[..])), "C22: the answer exposes other headers");
    if preflight {
        check(r.body.is_empty(), "C22: a preflight request is executed");
        cover("preflight");
    } else {
        check(r.body == b"{\"data\":{\"a\":\"x\"}}", "C22: the answer is another one");
        cover("request");
    }
}
/// without any configuration nobody but tailcall's own origin gets a grant
pub fn h_c22_unconfigured() {
    let b = crate::env::blueprint("schema { query: Query } type Query { a: String @expr(body: \"x\") }");
    let app = crate::env::app(b, crate::env::Http::none());
    let mut o = b"https://tailcall.run".to_vec();
    let preflight = choose_bool();
    match choose(if preflight { 4 } else { 2 }) {
        0 if !preflight => {
            let i = choose(o.len() as u8) as usize;
            o[i] = b"sp.T"[choose(4) as usize];
        }
        0 => {
            let i = choose(o.len() as u8) as usize;
            o[i] = byte_in(0x21, 0x7e);
        }
        1 => {
            o.remove(choose(o.len() as u8) as usize);
        }
        2 => o.insert(choose(o.len() as u8 + 1) as usize, byte_in(0x21, 0x7e)),
        _ => o = ascii(2).into_bytes(),
    }
    let own = o == b"https://tailcall.run" || o == b"http://tailcall.run";
    let origin = unsafe { String::from_utf8_unchecked(o) };
    let req = crate::env::request(if preflight { "OPTIONS" } else { "POST" }, "http://localhost/graphql", &[("origin", &origin)], "{\"query\":\"{ a }\"}");
    let Ok(r) = crate::env::serve(&app, req) else { return check(false, "C22: no answer") };
    let l = r.all("access-control-allow-origin");
    check(if own { l == [b"https://tailcall.run"] } else { l.is_empty() }, "C22: an origin is granted without any configuration");
    check(r.all("access-control-allow-credentials").is_empty(), "C22: credentials are granted without any configuration");
    if own {
        cover("own origin");
    } else {
        cover("foreign origin");
    }
}
crate::harnesses!(h_c22_origin, h_c22_origin_deep, h_c22_lists, h_c22_private, h_c22_values, h_c22_served, h_c22_unconfigured);
