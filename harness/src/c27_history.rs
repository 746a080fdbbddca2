//! C27: what a request is answered does not depend on the requests before it
use crate::env;
use crate::rt::*;
use tailcall::core::http::Response;

const SDL: &str = "schema @server @upstream(allowedHeaders: [\"x-a\"]) { query: Query mutation: Mutation }
type Query { one: String @expr(body: \"1\") two: String @expr(body: \"2\") h: String @expr(body: \"{{.headers.x-a}}\") arg(v: String): String @expr(body: \"{{.args.v}}\") 
 up(v: Int!): Up @http(url: \"http://up/{{.args.v}}\") deduped: Up @http(url: \"http://up/d\", dedupe: true) obj: Obj @expr(body: {x: 1, y: \"z\"}) }
type Obj { x: Int y: String }
type Up { n: Int m: String }
type Mutation { put(v: Int!): Up @http(url: \"http://up/put\", method: POST, body: \"{{.args.v}}\") }";
fn app() -> std::sync::Arc<tailcall::core::app_context::AppContext> {
    let http = env::Http::new(|r, _| {
        let p = r.url().path();
        let a = r.headers().get("x-a").map(|x| x.to_str().unwrap()).unwrap_or("none");
        Ok(Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: format!("{{\"n\":{},\"m\":\"{p} {a}\"}}", p.len()).into() })
    });
    env::app(env::blueprint(SDL), http)
}
struct Q {
    query: &'static str,
    more: &'static [&'static str],
    header: bool,
}
const DOCS: &[Q] = &[
    Q { query: "query a { one } query b { two } query c { one two }", more: &[",\"operationName\":\"a\"", ",\"operationName\":\"b\"", ",\"operationName\":\"c\"", ""], header: false },
    Q { query: "query($s: Boolean!) { one two @skip(if: $s) }", more: &[",\"variables\":{\"s\":true}", ",\"variables\":{\"s\":false}"], header: false },
    Q { query: "query($s: Boolean!) { obj { x y @include(if: $s) } }", more: &[",\"variables\":{\"s\":true}", ",\"variables\":{\"s\":false}"], header: false },
    Q { query: "query($v: String) { arg(v: $v) }", more: &[",\"variables\":{\"v\":\"x\"}", ",\"variables\":{\"v\":\"y\"}", ",\"variables\":{\"v\":null}", ""], header: false },
    Q { query: "{ h one }", more: &[""], header: true },
    Q { query: "query($v: Int!) { up(v: $v) { n m } }", more: &[",\"variables\":{\"v\":1}", ",\"variables\":{\"v\":22}"], header: true },
    Q { query: "{ deduped { m } }", more: &[""], header: true },
    Q { query: "query a { up(v: 1) { n } } mutation b { put(v: 1) { n m } }", more: &[",\"operationName\":\"a\"", ",\"operationName\":\"b\""], header: true },
    Q { query: "{ one } ", more: &["", ",\"operationName\":\"a\""], header: false },
];
fn ask(app: &std::sync::Arc<tailcall::core::app_context::AppContext>, d: usize, more: usize, header: usize) -> (u16, Vec<u8>) {
    let h = [("x-a", ["a", "b"][header.min(1)])];
    match env::query(app, DOCS[d].query, if header < 2 { &h } else { &[] }, DOCS[d].more[more]) {
        Ok(r) => (r.status, r.body),
        Err(e) => (0, format!("{e}").into_bytes()),
    }
}
fn history(n: usize, same: bool) {
    let app1 = app();
    let d = choose(DOCS.len() as u8) as usize;
    for i in 0..n {
        let d = if same || i + 1 == n { d } else { choose(DOCS.len() as u8) as usize };
        let more = choose(DOCS[d].more.len() as u8) as usize;
        let header = if DOCS[d].header { choose(3) as usize } else { 2 };
        let got = ask(&app1, d, more, header);
        if i + 1 == n {
            let want = ask(&app(), d, more, header);
            check(got.0 == want.0, "C27: another status because of an earlier request");
            check(got.1 == want.1, "C27: another answer because of an earlier request");
            check(want.0 == 200, "C27: no answer");
            cover("compared");
            observe(&want.1);
        }
    }
}
pub fn h_c27_same() {
    history(2, true)
}
pub fn h_c27_mixed() {
    history(2, false)
}
pub fn h_c27_same_deep() {
    history(3, true)
}
crate::harnesses!(h_c27_same, h_c27_mixed, h_c27_same_deep);
