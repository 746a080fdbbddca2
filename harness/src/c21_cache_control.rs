//! C21: the answer's Cache-Control promises no more than any upstream answer does
use crate::env;
use crate::rt::*;
use http::{HeaderMap, HeaderValue};
use tailcall::core::async_graphql_hyper::CacheControl as Out;
use tailcall::core::http::{cache_policy, RequestContext, Response};

#[derive(Clone, Default, Debug)]
struct Promise {
    max_age: Option<u64>,
    never: bool,
    private: bool,
}
/// one directive and what it promises
fn directive(n: u8) -> (&'static str, Promise) {
    let age = |n: u64| Promise { max_age: Some(n), ..Default::default() };
    let never = Promise { never: true, ..Default::default() };
    let private = Promise { private: true, ..Default::default() };
    match n {
        0 => ("public", Promise::default()),
        1 => ("max-age=60", age(60)),
        2 => ("private", private),
        3 => ("no-cache", never),
        4 => ("no-store", never),
        5 => ("max-age=5", age(5)),
        6 => ("max-age=0", age(0)),
        7 => ("max-age=4294967297", age(4294967297)),
        8 => ("Private", private),
        9 => ("NO-CACHE", never),
        10 => ("max-age=x", never),
        11 => ("private=\"a\"", private),
        12 => ("Max-Age=7", age(7)),
        13 => ("xprivate", Promise::default()),
        14 => ("must-revalidate", Promise::default()),
        _ => ("x=private", Promise::default()),
    }
}
const DIRECTIVES: u8 = 16;
impl Promise {
    /// one answer's promise: all of its directives
    fn join(&mut self, o: &Promise) {
        self.max_age = self.max_age.or(o.max_age);
        self.never |= o.never;
        self.private |= o.private;
    }
    /// several answers' promise: the least of them
    fn merge(&mut self, o: &Promise) {
        self.max_age = match (self.max_age, o.max_age) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        self.never |= o.never;
        self.private |= o.private;
    }
    fn header(&self) -> Option<String> {
        let mut out = vec![];
        if self.never {
            out.push("no-cache".to_string());
        } else if let Some(n) = self.max_age.filter(|n| *n > 0) {
            out.push(format!("max-age={}", n.min(i32::MAX as u64)));
        }
        if self.private {
            out.push("private".to_string());
        }
        (!out.is_empty()).then(|| out.join(", "))
    }
}
/// any Cache-Control headers of one upstream answer
fn any_headers(tokens: u8, of: u8) -> (HeaderMap, Promise) {
    let n = choose(tokens + 1);
    let mut lines: Vec<String> = vec![];
    let mut p = Promise::default();
    let mut ages = 0;
    for i in 0..n {
        let (s, q) = directive(choose(of));
        ages += q.max_age.is_some() as u8;
        if ages > 1 {
            reject(); // no rule says which one counts
        }
        match choose(if i == 0 { 1 } else { 3 }) {
            0 => lines.push(s.to_string()),
            1 => *lines.last_mut().unwrap() += &format!(", {s}"),
            _ => *lines.last_mut().unwrap() += &format!(",{s}"),
        }
        p.join(&q);
    }
    let mut h = HeaderMap::new();
    for l in lines {
        h.append("cache-control", HeaderValue::from_str(&l).unwrap());
    }
    (h, p)
}
fn policies(answers: u8, tokens: u8, of: u8) {
    let ctx = RequestContext::new(env::runtime(env::Http::none(), vec![]));
    let mut want = Promise::default();
    for _ in 0..choose(answers) + 1 {
        let (h, p) = any_headers(tokens, of);
        want.merge(&p);
        let res = Response { status: reqwest::StatusCode::OK, headers: h, body: async_graphql::Value::Null };
        if let Some(policy) = cache_policy(&res) {
            ctx.set_cache_control(policy);
        }
    }
    let min = ctx.get_min_max_age();
    if want.never {
        check(min == Some(-1), "C21: an answer that may not be cached is forgotten");
        cover("never");
    } else {
        check(min == want.max_age.map(|n| n.min(i32::MAX as u64) as i32), "C21: another lifetime than the shortest");
        if want.max_age.is_some() {
            cover("lifetime");
        }
    }
    check((ctx.is_cache_public() == Some(false)) == want.private, "C21: a private answer is made public, or the reverse");
    if want.private {
        cover("private");
    }
}
pub fn h_c21_policies() {
    policies(1, 2, DIRECTIVES)
}
pub fn h_c21_policies_deep() {
    policies(1, 3, DIRECTIVES)
}
pub fn h_c21_merged() {
    policies(3, 1, 9)
}
pub fn h_c21_merged_deep() {
    policies(2, 2, 11)
}
/// lifetimes of any size
pub fn h_c21_lifetimes() {
    use cache_control::CacheControl;
    let ctx = RequestContext::new(env::runtime(env::Http::none(), vec![]));
    let mut want: Option<u64> = None;
    let mut never = false;
    for _ in 0..3 {
        let n = any_u64();
        let no_store = any_bool();
        let mut p = CacheControl { no_store, ..Default::default() };
        if choose_bool() {
            p.max_age = Some(std::time::Duration::from_secs(n));
            want = Some(want.map_or(n, |m| if m < n { m } else { n }));
        }
        never |= no_store;
        ctx.set_cache_control(p);
    }
    let got = ctx.get_min_max_age();
    if never {
        check(got == Some(-1), "C21: an answer that may not be cached is forgotten");
    } else {
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => check(g as i64 == if w > i32::MAX as u64 { i32::MAX as i64 } else { w as i64 }, "C21: another lifetime than the shortest"),
            _ => check(false, "C21: a lifetime out of nothing, or lost"),
        }
        cover("shortest");
    }
    check(ctx.is_cache_public().is_none(), "C21: a private answer out of nothing");
}
/// what is promised for several answers together, and how that is written down
pub fn h_c21_written() {
    let mut all = Out::default();
    let mut want = Promise::default();
    for _ in 0..choose(3) + 1 {
        let age = choose(4) as i32 - 1;
        let public = any_bool();
        want.merge(&Promise { max_age: (age > 0).then_some(age as u64), never: age == -1, private: !public });
        all = all.merge(&Out { max_age: age, public });
    }
    check(all.public == !want.private, "C21: merging loses a private answer");
    check(all.max_age == if want.never { -1 } else { want.max_age.unwrap_or(0) as i32 }, "C21: merging does not take the shortest lifetime");
    check(all.value() == want.header(), "C21: the header is not what it stands for");
    cover("written");
    let one = Out { max_age: byte() as i32 - 1, public: any_bool() };
    let p = Promise { max_age: (one.max_age > 0).then_some(one.max_age as u64), never: one.max_age == -1, private: !one.public };
    check(one.value() == p.header(), "C21: the header is not what it stands for");
}
const SDL: &str = "schema @server(headers: {cacheControl: true}) @upstream { query: Query }
type Query { a: U @http(url: \"http://up/0\") b: U @http(url: \"http://up/1\") plain: String @expr(body: \"p\") }
type U { n: Int sub: V @http(url: \"http://up/2\") }
type V { n: Int }";
/// whole requests, whose upstreams answer with any Cache-Control
fn served(tokens: u8, of: u8, batches: bool) {
    let mut of_path = vec![];
    let mut promise = vec![];
    let q = choose(if batches { 8 } else { 6 });
    let paths: &[usize] = [&[0][..], &[0, 1], &[], &[0, 2], &[1], &[0, 1], &[0, 1], &[1]][q as usize];
    let mut fails = None;
    for p in 0..3 {
        let (h, w) = if paths.contains(&p) { any_headers(tokens, of) } else { Default::default() };
        of_path.push(h);
        promise.push(w);
    }
    if !paths.is_empty() && choose(4) == 3 {
        fails = Some(paths[0]);
    }
    let http = env::Http::new(move |r, _| {
        let p = r.url().path()[1..].parse::<usize>().unwrap();
        if fails == Some(p) {
            return Err(anyhow::anyhow!("down"));
        }
        Ok(Response { status: reqwest::StatusCode::OK, headers: of_path[p].clone(), body: "{\"n\":1}".into() })
    });
    let app = env::app(env::blueprint(SDL), http);
    let r = match q {
        0 => env::query(&app, "{ a { n } }", &[], ""),
        1 => env::query(&app, "{ a { n } b { n } }", &[], ""),
        2 => env::query(&app, "{ plain }", &[], ""),
        3 => env::query(&app, "{ a { n sub { n } } }", &[], ""),
        4 => env::query(&app, "{ plain b { n } }", &[], ""),
        5 => env::query(&app, "{ a { n } x: b { n } y: b { n } }", &[], ""),
        6 => env::batch(&app, &["{ a { n } }", "{ b { n } }"]),
        _ => env::batch(&app, &["{ plain }", "{ b { n } }"]),
    };
    let Ok(r) = r else { return check(false, "C21: no answer") };
    let got = r.all("cache-control");
    if fails.is_some() {
        check(got.is_empty(), "C21: a failed answer may be cached");
        cover("failed");
        return;
    }
    let mut want = Promise::default();
    for p in paths {
        want.merge(&promise[*p]);
    }
    match want.header() {
        None => check(got.is_empty(), "C21: a promise out of nothing"),
        Some(w) => {
            check(got.len() == 1 && got[0] == w.as_bytes(), "C21: the answer promises something else than its upstreams do");
            cover("promised");
        }
    }
}
pub fn h_c21_served() {
    served(1, 7, true)
}
pub fn h_c21_served_deep() {
    served(2, 5, true)
}
crate::harnesses!(h_c21_policies, h_c21_policies_deep, h_c21_merged, h_c21_merged_deep, h_c21_lifetimes, h_c21_written, h_c21_served, h_c21_served_deep);
