//! C24: a script sees each upstream request and decides what becomes of it
use crate::env;
use crate::rt::*;
use async_graphql_value::ConstValue;
use rquickjs::{define, V};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tailcall::cli::javascript::init_worker_io;
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::{Config, ConfigModule, Extensions};
use tailcall::core::http::Response;
use tailcall::core::rest::{Checked, EndpointSet};
use tailcall::core::worker::{Command, Event};
use tailcall_valid::Validator;

type Log<T> = Rc<RefCell<Vec<T>>>;
fn app(sdl: &str, http: Arc<env::Http>) -> Arc<AppContext> {
    let c = Config::from_sdl(sdl).to_result().unwrap();
    let m = ConfigModule::new(c, Extensions { script: Some("the script".into()), ..Default::default() });
    let b = Blueprint::try_from(&m).unwrap();
    let script = b.server.script.clone().unwrap();
    let mut rt = env::runtime(http, vec![]);
    rt.cmd_worker = Some(init_worker_io::<Event, Command>(script.clone()));
    rt.worker = Some(init_worker_io::<ConstValue, ConstValue>(script));
    Arc::new(AppContext::new(b, rt, EndpointSet::<Checked>::default()))
}
fn ok(body: &str) -> anyhow::Result<Response<hyper::body::Bytes>> {
    Ok(Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: hyper::body::Bytes::from(body.as_bytes().to_vec()) })
}
fn ask(a: &Arc<AppContext>, q: &str) -> Value {
    let r = env::query(a, q, &[], "").unwrap();
    serde_json::from_slice(&r.body).unwrap()
}
/// what matters of a request
#[derive(PartialEq, Clone)]
struct Sent {
    method: String,
    scheme: String,
    host: String,
    port: Option<u16>,
    path: String,
    query: Vec<(String, String)>,
    headers: Vec<(String, Vec<u8>)>,
    body: Option<Vec<u8>>,
}
fn sent(r: &reqwest::Request) -> Sent {
    let u = r.url();
    let mut query: Vec<_> = u.query_pairs().into_owned().collect();
    query.sort();
    let mut headers: Vec<_> = r.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
    headers.sort();
    Sent {
        method: r.method().to_string(),
        scheme: u.scheme().into(),
        host: u.host_str().unwrap_or("").into(),
        port: u.port(),
        path: u.path().into(),
        query,
        headers,
        body: r.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()),
    }
}
/// a request as a script sees it
fn seen(v: &V) -> Option<Sent> {
    let map = |v: V| match v {
        V::Obj(o) => o.borrow().iter().map(|(k, v)| v.text().map(|v| (k.clone(), v))).collect::<Option<Vec<_>>>(),
        _ => None,
    };
    let u = v.get("uri");
    Some(Sent {
        method: v.get("method").text()?,
        scheme: u.get("scheme").text()?,
        host: u.get("host").text()?,
        port: match u.get("port") {
            V::Int(n) => Some(n as u16),
            V::Undefined | V::Null => None,
            _ => return None,
        },
        path: u.get("path").text()?,
        query: map(u.get("query"))?,
        headers: map(v.get("headers"))?.into_iter().map(|(k, v)| (k, v.into_bytes())).collect(),
        body: match v.get("body") {
            V::Undefined | V::Null => None,
            v => Some(v.text()?.into_bytes()),
        },
    })
}
/// every request to the upstream, which answers 5
fn upstream() -> Arc<env::Http> {
    env::Http::new(|_, _| ok("5"))
}
fn requests(h: &env::Http) -> Vec<Sent> {
    h.log.lock().unwrap().iter().map(sent).collect()
}
fn fields(hook: &str) -> String {
    let h = if hook.is_empty() { String::new() } else { format!(", onRequest: {hook:?}") };
    format!(
        "type Query {{
 get(q: String!): Int @http(url: \"http://up:8080/p/a%20b\", query: [{{key: \"q\", value: \"{{{{.args.q}}}}\"}}, {{key: \"z\", value: \"1\"}}], headers: [{{key: \"X-One\", value: \"h\"}}]{h})
 named(q: String!): Int @http(url: \"http://up/n\", query: [{{key: \"{{{{.args.q}}}}\", value: \"v\"}}]{h})
 way(q: String!): Int @http(url: \"https://up/w/{{{{.args.q}}}}\"{h})
 post(q: String!): Int @http(url: \"https://up/p\", method: POST, body: {{q: \"{{{{.args.q}}}}\", n: 1}}{h})
 head(q: String!): Int @http(url: \"http://up/h\", headers: [{{key: \"x-q\", value: \"{{{{.args.q}}}}\"}}, {{key: \"x-p\", value: \"p\"}}]{h})
}}"
    )
}
const FIELDS: [&str; 5] = ["get", "named", "way", "post", "head"];
const TEXT: &[u8] = b"a&=%+ #?/0";

/// what is handed to the script, and sent when it comes back as it was
fn passed(set: &[u8], n: usize) {
    let f = FIELDS[choose(5) as usize];
    let q = conc_string_of(set, n);
    if f == "named" && (q.is_empty() || q == "q") {
        reject()
    }
    let q = format!("{{ {f}(q: {q:?}) }}");
    let plain = upstream();
    let want = ask(&app(&format!("schema {{query: Query}} {}", fields("")), plain.clone()), &q);
    let want_sent = requests(&plain);
    let log: Log<Option<Sent>> = Default::default();
    let l = log.clone();
    let how = choose(3);
    define("script", "hook", move |args| {
        let r = args[0].get("request");
        l.borrow_mut().push(seen(&r));
        Ok(match how {
            0 => V::obj(vec![("request", r)]),
            // the argument itself
            1 => args[0].clone(),
            // another object with the same members
            _ => {
                let c = V::obj(vec![]);
                for k in ["body", "headers", "method", "uri"] {
                    c.set(k, r.get(k))
                }
                V::obj(vec![("request", c), ("other", V::Null)])
            }
        })
    });
    let up = upstream();
    let got = ask(&app(&format!("schema {{query: Query}} {}", fields("hook")), up.clone()), &q);
    check(want_sent.len() == 1, "the request is sent without a script");
    check(log.borrow().len() == 1, "the script is asked once");
    let seen = log.borrow()[0].clone();
    check(seen.is_some(), "the script sees every part of a request");
    check(seen.as_ref() == want_sent.first(), "the script sees the request that would be sent");
    check(got == want, "a request that comes back as it was is answered the same");
    check(requests(&up) == want_sent, "a request that comes back as it was is sent as it was");
    cover("passed");
}
fn h_c24_passed() {
    passed(TEXT, 1)
}
fn h_c24_passed_deep() {
    passed(TEXT, 2)
}
fn h_c24_passed_bytes() {
    let set: Vec<u8> = (0x20..0x7f).collect();
    passed(&set, 1)
}

/// what the script makes of a request is sent
fn h_c24_changed() {
    let up = upstream();
    let log: Log<Sent> = Default::default();
    let l = log.clone();
    let what = choose(11);
    let text = conc_string_of(b"a&% ", 1 + (what == 1) as usize);
    define("script", "hook", move |args| {
        let r = args[0].get("request");
        let mut want = seen(&r).unwrap();
        let u = r.get("uri");
        match what {
            0 => {
                u.set("path", V::str("/other"));
                want.path = "/other".into();
            }
            1 => {
                u.set("query", V::obj(vec![("n", V::str(&text)), ("m", V::str(""))]));
                want.query = vec![("m".into(), "".into()), ("n".into(), text.clone())];
            }
            2 => {
                u.set("query", V::obj(vec![]));
                want.query = vec![];
            }
            3 => {
                r.set("method", V::str("PUT"));
                want.method = "PUT".into();
            }
            4 => {
                r.set("body", V::str(&text));
                want.body = Some(text.clone().into_bytes());
            }
            5 => {
                r.del("body");
                want.body = None;
            }
            6 => {
                r.set("body", V::Null);
                want.body = None;
            }
            7 => {
                r.get("headers").set("X-New", V::str("n"));
                want.headers.push(("x-new".into(), b"n".to_vec()));
                want.headers.sort();
            }
            8 => {
                r.set("headers", V::obj(vec![("a", V::str("1"))]));
                want.headers = vec![("a".into(), b"1".to_vec())];
            }
            9 => {
                u.set("host", V::str("else"));
                u.set("port", V::Int(99));
                want.host = "else".into();
                want.port = Some(99);
            }
            _ => {
                u.set("scheme", V::str("https"));
                u.del("port");
                want.scheme = "https".into();
                want.port = None;
            }
        }
        l.borrow_mut().push(want);
        Ok(V::obj(vec![("request", r)]))
    });
    let f = if choose_bool() { "get" } else { "post" };
    let got = ask(&app(&format!("schema {{query: Query}} {}", fields("hook")), up.clone()), &format!("{{ {f}(q: \"1\") }}"));
    check(requests(&up) == *log.borrow(), "the request which the script returns is sent");
    check(got == json!({"data": {f: 5}}), "and answered");
    cover("changed");
}

/// a script that returns something of no use, or nothing
fn h_c24_unusable() {
    let up = upstream();
    let what = choose(17);
    define("script", "hook", move |args| {
        let r = args[0].get("request");
        let u = r.get("uri");
        Ok(match what {
            0 => V::Undefined,
            1 => V::Null,
            2 => V::str("request"),
            3 => V::obj(vec![]),
            4 => V::obj(vec![("request", V::Undefined)]),
            5 => V::obj(vec![("response", V::str("5"))]),
            6 => V::obj(vec![("response", V::obj(vec![("status", V::Int(7)), ("headers", V::obj(vec![])), ("body", V::str("5"))]))]),
            7 => V::obj(vec![("response", V::obj(vec![("status", V::str("200")), ("headers", V::obj(vec![])), ("body", V::str("5"))]))]),
            8 => V::obj(vec![("response", V::obj(vec![("status", V::Int(200)), ("headers", V::obj(vec![])), ("body", V::str("{5"))]))]),
            9 => V::obj(vec![("response", V::obj(vec![("status", V::Int(200)), ("headers", V::obj(vec![("a b", V::str(""))])), ("body", V::str("5"))]))]),
            n => {
                match n {
                    10 => r.del("method"),
                    11 => r.set("method", V::str("A B")),
                    12 => u.set("scheme", V::str("ftp")),
                    13 => u.set("port", V::Int(70000)),
                    14 => r.set("headers", V::obj(vec![("a", V::Int(1))])),
                    15 => r.set("headers", V::obj(vec![("a", V::str("x\ny"))])),
                    _ => r.set("body", V::obj(vec![])),
                }
                V::obj(vec![("request", r)])
            }
        })
    });
    let a = app(&format!("schema {{query: Query}} {} ", fields("hook")), up.clone());
    let got = ask(&a, "{ get(q: \"1\") }");
    check(up.sent() == 0, "nothing is sent that the script did not ask for");
    check(got["data"]["get"].is_null() && got["errors"].as_array().map(|l| l.len()) == Some(1), "what cannot be used is an error of the field");
    cover("unusable");
}

fn js(v: &Value) -> V {
    V::str(&v.to_string())
}
/// a response of the script is served
fn h_c24_answered() {
    let up = upstream();
    let calls: Log<String> = Default::default();
    let (c1, c2) = (calls.clone(), calls.clone());
    let status = [200, 201, 404, 500, 301, 302, 307][choose(7) as usize];
    let n = [0, -7, 2147483647][choose(3) as usize];
    let body = match choose(5) {
        0 => json!({"a": n, "s": "t", "l": [1, null]}),
        1 => json!({"a": null}),
        2 => json!({"a": n, "s": string_of(b"a\"\\", 1)}),
        3 => json!({"l": []}),
        _ => Value::Null,
    };
    let b = body.clone();
    define("script", "hook", move |_| {
        c1.borrow_mut().push("hook".into());
        let h = V::obj(vec![("Content-Type", V::str("text/x"))]);
        Ok(V::obj(vec![("response", V::obj(vec![("status", V::Int(status)), ("headers", h), ("body", js(&b))]))]))
    });
    let after = choose_bool();
    define("script", "after", move |args| {
        c2.borrow_mut().push(args[0].text().unwrap_or("?".into()));
        Ok(V::str("{\"a\": 77, \"l\": [3]}"))
    });
    let post = if after { ", onResponseBody: \"after\"" } else { "" };
    let a = app(&format!("schema {{query: Query}} type Query {{ o: O @http(url: \"http://up/p\", onRequest: \"hook\"{post}) }} type O {{a: Int s: String l: [Int]}}"), up.clone());
    let got = ask(&a, "{ o { a s l } }");
    check(up.sent() == 0, "the upstream is not asked when the script answers");
    let shown = if after { json!({"a": 77, "l": [3]}) } else { body.clone() };
    let want = if shown.is_null() { Value::Null } else { json!({"a": shown["a"], "s": shown["s"], "l": shown["l"]}) };
    check(got == json!({"data": {"o": want}}), "the response of the script is served");
    let calls = calls.borrow();
    check(calls[0] == "hook" && calls.len() == 1 + after as usize, "each function is called once");
    if after {
        check(serde_json::from_str::<Value>(&calls[1]).ok() == Some(body), "the body of the response is handed on");
    }
    cover("answered");
}

/// redirects are followed, and seen by the script again
fn h_c24_redirected() {
    let up = env::Http::new(|r, _| ok(if r.url().path() == "/two" { "{\"a\": 2}" } else { "{\"a\": 1}" }));
    let calls: Log<String> = Default::default();
    let (c1, c2) = (calls.clone(), calls.clone());
    let status = [301, 302, 307][choose(3) as usize];
    let hops = choose(3);
    let name = if choose_bool() { "location" } else { "Location" };
    let last = choose(3);
    define("script", "hook", move |args| {
        let r = args[0].get("request");
        let p = r.get("uri").get("path").text().unwrap();
        c1.borrow_mut().push(p.clone());
        let to = |l: &str| V::obj(vec![("response", V::obj(vec![("status", V::Int(status)), ("headers", V::obj(vec![(name, V::str(l))])), ("body", V::str("{\"a\": 9}"))]))]);
        Ok(match (p.as_str(), hops) {
            ("/p", 1) => to("/two"),
            ("/p", 2) => to("/one"),
            ("/one", _) => to("/two"),
            _ => match last {
                0 => V::obj(vec![("request", r)]),
                1 => {
                    r.get("headers").set("x", V::str("y"));
                    V::obj(vec![("request", r)])
                }
                _ => V::obj(vec![("response", V::obj(vec![("status", V::Int(200)), ("headers", V::obj(vec![])), ("body", V::str("{\"a\": 3}"))]))]),
            },
        })
    });
    let after = choose_bool();
    define("script", "after", move |args| {
        let v: Value = serde_json::from_str(&args[0].text().unwrap()).unwrap();
        c2.borrow_mut().push("after".into());
        Ok(V::str(&json!({"a": v["a"].as_i64().unwrap() + 10}).to_string()))
    });
    let post = if after { ", onResponseBody: \"after\"" } else { "" };
    let method = if choose_bool() { ", method: POST, body: {k: 1}" } else { "" };
    let a = app(&format!("schema {{query: Query}} type Query {{ o: O @http(url: \"http://up/p\"{method}, headers: [{{key: \"h\", value: \"1\"}}], onRequest: \"hook\"{post}) }} type O {{a: Int}}"), up.clone());
    let got = ask(&a, "{ o { a } }");
    let follow = status != 307;
    let path: &[&str] = match (hops, follow) {
        (1, true) => &["/p", "/two"],
        (2, true) => &["/p", "/one", "/two"],
        _ => &["/p"],
    };
    // a redirect which is not followed is a response like any other
    let answered = hops > 0 && !follow;
    let v = match (answered, last) {
        (true, _) => 9,
        (_, 2) => 3,
        _ if path.last() == Some(&"/two") => 2,
        _ => 1,
    };
    let r = requests(&up);
    if answered || last == 2 {
        check(r.is_empty(), "the upstream is not asked when the script answers");
    } else {
        check(r.len() == 1 && r[0].path == *path.last().unwrap(), "the request goes where the script sends it");
        check(r[0].method == if method.is_empty() { "GET" } else { "POST" } && r[0].body.is_some() == !method.is_empty(), "with its method and body");
        check(r[0].headers.iter().any(|h| h.0 == "h") && r[0].headers.iter().any(|h| h.0 == "x") == (last == 1), "and headers");
    }
    let calls = calls.borrow();
    let n = path.len();
    check(calls.len() >= n && calls[..n].iter().map(|s| s.as_str()).eq(path.iter().copied()), "the script is asked about every hop");
    check(calls.len() == n + after as usize, "the body of the response is handed to the script once");
    check(got == json!({"data": {"o": {"a": v + 10 * after as i64}}}), "the response is served");
    cover("redirected");
}

/// which function a field has
fn h_c24_scope() {
    let up = env::Http::new(|r, _| ok(&format!("{:?}", r.url().path())));
    let calls: Log<String> = Default::default();
    for name in ["own", "global"] {
        let c = calls.clone();
        define("script", name, move |args| {
            let r = args[0].get("request");
            c.borrow_mut().push(format!("{name} {}", r.get("uri").get("path").text().unwrap()));
            let u = r.get("uri");
            u.set("path", V::str(&format!("{}/{name}", u.get("path").text().unwrap())));
            Ok(V::obj(vec![("request", r)]))
        });
    }
    // defined by no script
    let missing = choose(3);
    let own = if missing == 1 { "nowhere" } else { "own" };
    let global = if missing == 2 { "nowhere" } else { "global" };
    let has = choose_bool();
    let post = choose_bool();
    let up_dir = if has { format!("@upstream(onRequest: {global:?})") } else { String::new() };
    let batch = choose_bool();
    let up_dir = if batch { format!("@upstream({}batch: {{delay: 1}})", if has { format!("onRequest: {global:?}, ") } else { String::new() }) } else { up_dir };
    let m = if post { ", method: POST, body: \"b\"" } else { "" };
    let a = app(
        &format!("schema {up_dir} {{query: Query}} type Query {{ a: String @http(url: \"http://up/a\"{m}, onRequest: {own:?}) b: String @http(url: \"http://up/b\"{m}) c: O @expr(body: {{v: 1}}) }} type O {{ v: Int! d: String @http(url: \"http://up/d/{{{{.value.v}}}}\") }}"),
        up.clone(),
    );
    let got = ask(&a, "{ a b c { d } }");
    let p = |path: &str, name: Option<&str>| match name {
        Some("nowhere") => Value::Null,
        Some(n) => json!(format!("{path}/{n}")),
        None => json!(path),
    };
    let g = has.then_some(global);
    let want = json!({"a": p("/a", Some(own)), "b": p("/b", g), "c": {"d": p("/d/1", g)}});
    let failed = (own == "nowhere") as usize + 2 * (g == Some("nowhere")) as usize;
    // one error takes all data with it
    let want = if failed > 0 { Value::Null } else { want };
    check(got["data"] == want, "each request goes to the function of its field, or else the global one");
    let mut log = calls.borrow().clone();
    log.sort();
    let mut expect = vec![];
    if own == "own" {
        expect.push("own /a".to_string());
    }
    if g == Some("global") {
        expect.push("global /b".into());
        expect.push("global /d/1".into());
    }
    expect.sort();
    check(log == expect, "once");
    check(up.sent() == 3 - failed, "a request whose function is missing is not sent");
    check(got["errors"].is_array() == (failed > 0), "but reported");
    cover("scope");
}

/// onResponseBody gets the body and replaces it
fn h_c24_body() {
    let n = [0, -7, 2147483647][choose(3) as usize];
    let body = match choose(6) {
        0 => json!({"a": n, "x": {"y": [true, null]}}),
        1 => json!({"a": null}),
        2 => json!({"a": 1, "s": string_of(b"a\"\\\n", 1)}),
        3 => json!([]),
        4 => json!("t"),
        _ => Value::Null,
    };
    let b = body.clone();
    let fails = choose_bool();
    let up = env::Http::new(move |_, _| if fails { Err(anyhow::anyhow!("down")) } else { ok(&b.to_string()) });
    let calls: Log<String> = Default::default();
    let c = calls.clone();
    let what = choose(6);
    let s = conc_string_of(b"a\"", 1);
    let t = s.clone();
    define("script", "after", move |args| {
        c.borrow_mut().push(args[0].text().unwrap_or("?".into()));
        Ok(match what {
            0 => js(&json!({"a": 7, "s": t})),
            1 => js(&Value::Null),
            2 => args[0].clone(),
            3 => V::Undefined,
            4 => V::str("{"),
            _ => return Err(()),
        })
    });
    let a = app("schema {query: Query} type Query { o: O @http(url: \"http://up/p\", onResponseBody: \"after\") plain: O @http(url: \"http://up/p\") } type O {a: Int s: String}", up.clone());
    let got = ask(&a, "{ o { a s } }");
    check(up.sent() == 1, "the upstream is asked");
    if fails {
        check(calls.borrow().is_empty() && got["errors"].is_array() && got["data"]["o"].is_null(), "there is no body to hand over when the upstream fails");
        return cover("failed");
    }
    check(calls.borrow().len() == 1 && serde_json::from_str::<Value>(&calls.borrow()[0]).ok() == Some(body.clone()), "the body of the response is handed over once");
    match what {
        0 => check(got == json!({"data": {"o": {"a": 7, "s": s}}}), "and what the function returns is served"),
        1 => check(got == json!({"data": {"o": null}}), "and what the function returns is served"),
        2 => {
            let plain = ask(&a, "{ plain { a s } }");
            check(got["data"]["o"] == plain["data"]["plain"] && got["errors"].is_array() == plain["errors"].is_array(), "a body that comes back as it was is served as it was");
        }
        _ => check(got["data"]["o"].is_null() && got["errors"].as_array().map(|l| l.len()) == Some(1), "what cannot be used is an error of the field"),
    }
    cover("body");
}

/// @js resolves a field from the value of its parent
fn h_c24_js() {
    let two = choose_bool();
    let n = [0, -7, 2147483647][choose(3) as usize];
    let s = conc_string_of(b"a\"", 1);
    let one = match choose(3) {
        0 => json!({"id": n, "name": s, "more": {"k": [1]}}),
        1 => json!({"id": 1, "name": null}),
        _ => json!({"id": 2, "name": "b"}),
    };
    let values = if two { vec![one, json!({"id": 3, "name": "c"})] } else { vec![one] };
    let v = values.clone();
    let up = env::Http::new(move |_, _| ok(&Value::from(v.clone()).to_string()));
    let calls: Log<Value> = Default::default();
    let c = calls.clone();
    let what = choose(7);
    define("script", "f", move |args| {
        let v: Value = serde_json::from_str(&args[0].text().unwrap()).unwrap();
        c.borrow_mut().push(v.clone());
        Ok(match what {
            0 => js(&v["name"]),
            1 => js(&json!(format!("{}!", v["id"]))),
            2 => V::str("null"),
            3 => V::Undefined,
            4 => V::Int(4),
            5 => V::str("no json"),
            _ => return Err(()),
        })
    });
    let missing = what == 0 && choose_bool();
    let f = if missing { "g" } else { "f" };
    let a = app(&format!("schema {{query: Query}} type Query {{ us: [U] @http(url: \"http://up/us\") }} type U {{ id: Int j: String @js(name: {f:?}) }}"), up.clone());
    let got = ask(&a, "{ us { j } }");
    if missing || what > 2 {
        // one error takes all data with it
        check(got["data"].is_null() && got["errors"].is_array(), "what cannot be used is an error of the field");
    } else {
        let j = |v: &Value| match what {
            0 => v["name"].clone(),
            1 => json!(format!("{}!", v["id"])),
            _ => Value::Null,
        };
        let want: Vec<Value> = values.iter().map(|v| json!({"j": j(v)})).collect();
        check(got == json!({"data": {"us": want}}), "the field is what the function returns");
    }
    check(missing || *calls.borrow() == values, "the function gets the value of the parent");
    cover("js");
}
crate::harnesses!(h_c24_passed, h_c24_passed_deep, h_c24_passed_bytes, h_c24_changed, h_c24_unusable, h_c24_answered, h_c24_redirected, h_c24_scope, h_c24_body, h_c24_js);
