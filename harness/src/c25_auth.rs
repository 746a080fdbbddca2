//! C25: authentication combines its providers as boolean logic
use crate::env;
use crate::rt::*;
use tailcall::core::blueprint::{Auth, Basic, Provider};
use tailcall::core::http::RequestContext;
use tailcall::core::symex::auth::{error::Error, verify, AuthVerifier, Verification};

fn any_error() -> Error {
    match choose(3) {
        0 => Error::Missing,
        1 => Error::Parse(string_of(b"ab", choose(2) as usize)),
        _ => Error::Invalid,
    }
}
fn any_verification() -> Verification {
    if choose_bool() {
        Verification::succeed()
    } else {
        Verification::fail(any_error())
    }
}
fn ok(v: &Verification) -> bool {
    matches!(v, Verification::Succeed)
}
fn rank(e: &Error) -> u8 {
    match e {
        Error::Missing => 0,
        Error::Parse(_) => 1,
        Error::Invalid => 2,
    }
}
fn failure(v: &Verification) -> Option<&Error> {
    match v {
        Verification::Succeed => None,
        Verification::Fail(e) => Some(e),
    }
}
/// of two failures the more telling one: a header that is missing says least
fn worse<'a>(a: &'a Error, b: &'a Error) -> &'a Error {
    match (a, b) {
        (Error::Parse(x), Error::Parse(y)) => {
            if x >= y {
                a
            } else {
                b
            }
        }
        _ => {
            if rank(a) >= rank(b) {
                a
            } else {
                b
            }
        }
    }
}
/// `and`, `or`, `fold`, from and to results
pub fn h_c25_algebra() {
    let (a, b, c) = (any_verification(), any_verification(), any_verification());
    let and = a.clone().and(b.clone());
    check(ok(&and) == (ok(&a) & ok(&b)), "C25: both providers are needed");
    if let Some(e) = failure(&and) {
        let want = failure(&a).or(failure(&b)).unwrap();
        check(e == want, "C25: the failure of another provider is reported");
        cover("and fails");
    }
    let or = a.or(b.clone());
    check(ok(&or) == (ok(&a) | ok(&b)), "C25: one provider is enough");
    if let Some(e) = failure(&or) {
        check(e == worse(failure(&a).unwrap(), failure(&b).unwrap()), "C25: another failure is reported");
        cover("or fails");
    } else {
        cover("or succeeds");
    }
    let fold = a.clone().fold(b.clone(), |e| {
        check(Some(&e) == failure(&a), "C25: another failure is handed on");
        c.clone()
    });
    check(fold == if ok(&a) { b.clone() } else { c.clone() }, "C25: the wrong branch is taken");
    match (a.to_result(), failure(&a)) {
        (Ok(()), None) => {}
        (Err(x), Some(y)) => check(x == *y, "C25: a failure is changed"),
        _ => check(false, "C25: a failure is lost"),
    }
    let r: Result<Verification, Error> = match failure(&a) {
        None => Ok(b.clone()),
        Some(e) => Err(e.clone()),
    };
    let v = Verification::from_result(r, |x| x, Verification::fail);
    check(v == if ok(&a) { b } else { a }, "C25: a result is read the wrong way");
}

#[derive(Clone)]
enum Tree {
    One(usize),
    And(Box<Tree>, Box<Tree>),
    Or(Box<Tree>, Box<Tree>),
}
fn any_tree(depth: u8) -> Tree {
    match choose(if depth == 0 { 2 } else { 4 }) {
        0 => Tree::One(0),
        1 => Tree::One(1),
        2 => Tree::And(any_tree(depth - 1).into(), any_tree(depth - 1).into()),
        _ => Tree::Or(any_tree(depth - 1).into(), any_tree(depth - 1).into()),
    }
}
const FILES: [&str; 2] = ["u:p\nv:q\n", "u:r\n"];
impl Tree {
    fn auth(&self) -> Auth {
        match self {
            Tree::One(i) => Auth::Provider(Provider::Basic(Basic { htpasswd: FILES[*i].to_string() })),
            Tree::And(a, b) => a.auth().and(b.auth()),
            Tree::Or(a, b) => a.auth().or(b.auth()),
        }
    }
    fn holds(&self, f: &dyn Fn(usize) -> bool) -> bool {
        match self {
            Tree::One(i) => f(*i),
            Tree::And(a, b) => a.holds(f) & b.holds(f),
            Tree::Or(a, b) => a.holds(f) | b.holds(f),
        }
    }
}
fn base64(s: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    String::from_utf8(o).unwrap()
}
fn context() -> RequestContext {
    RequestContext::new(env::runtime(env::Http::none(), vec![]))
}
/// a tree of providers against a request with any credentials
fn trees(depth: u8) {
    let t = any_tree(depth);
    let v = AuthVerifier::from(t.auth());
    let mut ctx = context();
    let mut user = None;
    match choose(4) {
        0 => {}
        1 => {
            let v = ["Bearer abc", "Basic", "Basic ###", "", "Basic dQ=="][choose(5) as usize];
            ctx.allowed_headers.insert("authorization", http::HeaderValue::from_static(v));
        }
        _ => {
            let (u, p) = (conc_string_of(b"uvw", 1), conc_string_of(b"pqrs", 1));
            ctx.allowed_headers.insert("authorization", http::HeaderValue::from_str(&format!("Basic {}", base64(format!("{u}:{p}").as_bytes()))).unwrap());
            user = Some((u, p));
        }
    }
    let knows = |i: usize| match &user {
        None => false,
        Some((u, p)) => FILES[i].lines().any(|l| l == format!("{u}:{p}")),
    };
    let got = block_on(verify(&v, &ctx));
    check(ok(&got) == t.holds(&knows), "C25: let through although the providers say otherwise, or the reverse");
    if let Some(e) = failure(&got) {
        let missing = !ctx.allowed_headers.contains_key("authorization");
        check((*e == Error::Missing) == missing, "C25: a missing header is reported as something else, or the reverse");
        cover("refused");
    } else {
        cover("let through");
    }
}
pub fn h_c25_trees() {
    trees(1)
}
pub fn h_c25_trees_deep() {
    trees(2)
}
const SDL: &str = "schema @server @upstream(allowedHeaders: [\"authorization\"]) { query: Query }
type Query { open: String @expr(body: \"o\") a: String @protected(id: [\"a\"]) @expr(body: \"A\") b: String @protected(id: [\"b\"]) @expr(body: \"B\")
 both: String @protected(id: [\"a\", \"b\"]) @expr(body: \"AB\") every: String @protected @expr(body: \"E\") user: User @expr(body: {name: \"n\", key: \"k\"}) safe: Safe @expr(body: {x: \"s\"}) }
type User { name: String key: String @protected(id: [\"a\"]) }
type Safe @protected(id: [\"b\"]) { x: String }";
fn app() -> std::sync::Arc<tailcall::core::app_context::AppContext> {
    use tailcall::core::config::{Config, ConfigModule, Content, Extensions};
    use tailcall_valid::Validator;
    let c = Config::from_sdl(SDL).to_result().unwrap();
    let content = |id: &str, f: &str| Content { id: Some(id.to_string()), content: f.to_string() };
    let e = Extensions { htpasswd: vec![content("a", FILES[0]), content("b", FILES[1])], ..Default::default() };
    let b = tailcall::core::blueprint::Blueprint::try_from(&ConfigModule::new(c, e)).unwrap();
    env::app(b, env::Http::none())
}
/// what is selected, what the answer then has of it, and who may see it
const FIELDS: [(&str, &str, &[usize]); 9] = [
    ("open", "\"open\":\"o\"", &[]),
    ("a", "\"a\":\"A\"", &[0]),
    ("b", "\"b\":\"B\"", &[1]),
    ("both", "\"both\":\"AB\"", &[0, 1]),
    ("every", "\"every\":\"E\"", &[0, 1]),
    ("user { name }", "\"user\":{\"name\":\"n\"}", &[]),
    ("user { name key }", "\"user\":{\"name\":\"n\",\"key\":\"k\"}", &[0]),
    ("safe { x }", "\"safe\":{\"x\":\"s\"}", &[1]),
    ("user { ... { key } }", "\"user\":{\"key\":\"k\"}", &[0]),
];
// knows: none, a only (v:q is in a only), b only, wrong password
const USERS: [(Option<&str>, [bool; 2]); 5] = [(None, [false, false]), (Some("u:p"), [true, false]), (Some("u:r"), [false, true]), (Some("v:q"), [true, false]), (Some("u:x"), [false, false])];
/// requests for protected fields, one after the other: nobody gets what its providers refuse
fn served(rounds: u8) {
    let app = app();
    let f = choose(9) as usize;
    let two = choose_bool();
    let g = if two { choose(5) as usize } else { f };
    if two && g == f {
        reject();
    }
    let alias = two && choose_bool();
    let q = match (two, alias) {
        (false, _) => format!("{{ {} }}", FIELDS[f].0),
        (_, false) => format!("{{ {} {} }}", FIELDS[f].0, FIELDS[g].0),
        _ => format!("{{ {} ... on Query {{ {} }} }}", FIELDS[f].0, FIELDS[g].0),
    };
    for _ in 0..rounds {
        let (user, knows) = USERS[choose(USERS.len() as u8) as usize];
        let value = user.map(|u| format!("Basic {}", base64(u.as_bytes())));
        let mut headers = vec![];
        if let Some(v) = &value {
            headers.push(("authorization", v.as_str()));
        }
        let may = [f, g].iter().all(|i| FIELDS[*i].2.iter().all(|p| knows[*p]));
        let Ok(r) = env::query(&app, &q, &headers, "") else { return check(false, "C25: no answer") };
        let body = unsafe { String::from_utf8_unchecked(r.body) };
        if may {
            let want = if two { format!("{{\"data\":{{{},{}}}}}", FIELDS[f].1, FIELDS[g].1) } else { format!("{{\"data\":{{{}}}}}", FIELDS[f].1) };
            check(body == want, "C25: who may see a field does not get it");
            cover("answered");
        } else {
            for i in [f, g] {
                if FIELDS[i].2.iter().any(|p| !knows[*p]) {
                    let secret = FIELDS[i].1.rsplit(':').next().unwrap().trim_end_matches('}');
                    check(!body.contains(secret), "C25: who may not see a field gets it");
                }
            }
            check(body.contains("\"errors\""), "C25: a refusal is not reported");
            cover("denied");
        }
    }
}
pub fn h_c25_served() {
    served(2)
}
pub fn h_c25_served_deep() {
    served(3)
}
/// issuers and audiences of a token against those configured
pub fn h_c25_claims() {
    use tailcall::core::blueprint::Jwt;
    use tailcall::core::symex::auth::jwt::jwt_verify::{validate_aud, validate_iss, JwtClaim, OneOrMany};
    let any = || conc_string_of(b"aA ", choose(2) as usize);
    let some = |f: &dyn Fn() -> String| if choose_bool() { Some(f()) } else { None };
    if choose_bool() {
        let name = || string_of(b"aAb ", choose(3) as usize);
        let (issuer, iss) = (some(&name), some(&name));
        let options = Jwt { issuer: issuer.clone(), audiences: Default::default(), optional_kid: any_bool(), jwks: serde_json::from_str("{\"keys\":[]}").unwrap() };
        let got = validate_iss(&options, &JwtClaim { aud: None, iss: iss.clone() });
        let want = match (&issuer, &iss) {
            (None, _) => true,
            (Some(_), None) => false,
            (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        };
        check(got == want, "C25: a token of another issuer is accepted, or the reverse");
        check(validate_aud(&options, &JwtClaim { aud: None, iss }), "C25: an audience is asked for though none is configured");
        cover("issuer");
        return;
    }
    let audiences: Vec<String> = (0..choose(3)).map(|_| any()).collect();
    let options = Jwt { issuer: None, audiences: audiences.iter().cloned().collect(), optional_kid: false, jwks: serde_json::from_str("{\"keys\":[]}").unwrap() };
    let (aud, of) = match choose(3) {
        0 => (None, vec![]),
        1 => {
            let x = any();
            (Some(OneOrMany::One(x.clone())), vec![x])
        }
        _ => {
            let v: Vec<String> = (0..choose(3)).map(|_| any()).collect();
            (Some(OneOrMany::Vec(v.clone())), v)
        }
    };
    let got = validate_aud(&options, &JwtClaim { aud, iss: None });
    let want = audiences.is_empty() | of.iter().any(|x| audiences.iter().any(|y| x == y));
    check(got == want, "C25: a token for another audience is accepted, or the reverse");
    cover("audience");
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
crate::harnesses!(h_c25_claims, h_c25_served, h_c25_served_deep, h_c25_algebra, h_c25_trees, h_c25_trees_deep);
