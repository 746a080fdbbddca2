//! C13: merging configurations, the later one winning
#![allow(deprecated)]
use crate::rt::*;
use async_graphql_value::{ConstValue, Name};
use indexmap::IndexMap;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU64;
use tailcall::core::config::cors::Cors;
use tailcall::core::config::symex::Headers;
use tailcall::core::config::*;
use tailcall::core::merge_right::MergeRight;

trait Gen {
    fn any() -> Self;
}
impl Gen for bool {
    fn any() -> Self {
        any_bool()
    }
}
impl Gen for u16 {
    fn any() -> Self {
        any_u32() as u16
    }
}
impl Gen for i64 {
    fn any() -> Self {
        any_i64()
    }
}
impl Gen for u64 {
    fn any() -> Self {
        any_u64()
    }
}
impl Gen for usize {
    fn any() -> Self {
        any_u64() as usize
    }
}
impl Gen for String {
    fn any() -> Self {
        ascii(1)
    }
}
impl Gen for NonZeroU64 {
    fn any() -> Self {
        let x = any_u64();
        assume(x != 0);
        NonZeroU64::new(x).unwrap()
    }
}
impl Gen for HttpVersion {
    fn any() -> Self {
        if choose_bool() {
            HttpVersion::HTTP1
        } else {
            HttpVersion::HTTP2
        }
    }
}
fn count() -> usize {
    choose(3) as usize
}
fn any_set() -> BTreeSet<String> {
    let k = choose(4);
    ["x", "y"].iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|x| x.1.to_string()).collect()
}
fn kv(k: &str, v: String) -> KeyValue {
    KeyValue { key: k.to_string(), value: v }
}

/// One option at a time takes every combination of present and absent on the
/// two sides; the others are absent, on one side, or on both (all values free).
macro_rules! options {
    ($name:ident, $t:ty, $base:expr, $($f:ident),*) => {
        fn $name(mut extra: impl FnMut(&mut $t, &mut $t), check_extra: impl Fn(&$t, &$t, &$t)) {
            let n = [$(stringify!($f)),*].len() as u8;
            let focus = choose(n);
            let (fa, fb) = (choose_bool(), choose_bool());
            let others = choose(4);
            let mut a: $t = $base;
            let mut b: $t = $base;
            let mut _i = 0u8;
            $(
                let (pa, pb) = if _i == focus { (fa, fb) } else { (others & 1 != 0, others & 2 != 0) };
                a.$f = if pa { Some(Gen::any()) } else { None };
                b.$f = if pb { Some(Gen::any()) } else { None };
                _i += 1;
            )*
            extra(&mut a, &mut b);
            let m = a.clone().merge_right(b.clone());
            $(
                let want = match &b.$f { Some(x) => Some(x.clone()), None => a.$f.clone() };
                check(m.$f == want, concat!("merged option ", stringify!($f)));
            )*
            check_extra(&a, &b, &m);
            if fa && fb { cover("set on both sides"); }
            if fa && !fb { cover("set on the left only"); }
        }
    };
}
options!(server, Server, Server::default(), enable_jit, apollo_tracing, batch_requests, global_response_timeout, hostname, introspection, enable_federation, pipeline_flush, port, query_validation, response_validation, showcase, workers, version);
options!(upstream, Upstream, Upstream::default(), on_request, connect_timeout, http_cache, http2_only, keep_alive_interval, keep_alive_timeout, keep_alive_while_idle, pool_max_idle_per_host, pool_idle_timeout, tcp_keep_alive, timeout, user_agent, verify_ssl);
options!(cors, Cors, Cors::default(), allow_credentials, allow_private_network, max_age);
options!(headers, Headers, Headers::default(), cache_control, set_cookies);
options!(schema, RootSchema, RootSchema::default(), query, mutation, subscription);
options!(modify, Modify, Modify { name: None, omit: None }, name, omit);

pub fn h_c13_server() {
    server(|_, _| (), |_, _, _| ())
}
pub fn h_c13_upstream() {
    upstream(|_, _| (), |_, _, _| ())
}
/// options of options, lists and sets
pub fn h_c13_nested() {
    match choose(5) {
        0 => cors(
            |a, b| {
                a.allow_headers = (0..count()).map(|_| ascii(1)).collect();
                b.allow_headers = (0..count()).map(|_| ascii(1)).collect();
                a.allow_origins = vec![ascii(1)];
                b.expose_headers = vec![ascii(1)];
            },
            |a, b, m| {
                check(m.allow_headers == [a.allow_headers.clone(), b.allow_headers.clone()].concat(), "lists are appended in order");
                check(m.allow_origins == a.allow_origins && m.expose_headers == b.expose_headers && m.vary.is_empty() && m.allow_methods.is_empty(), "a list of one side is kept");
            },
        ),
        1 => headers(
            |a, b| {
                a.experimental = choose_bool().then(any_set);
                b.experimental = choose_bool().then(any_set);
                a.custom = vec![kv("k", ascii(1))];
                b.custom = vec![kv("k", ascii(1))];
                if choose_bool() {
                    a.cors = Some(Cors { max_age: Some(any_u64() as usize), ..Cors::default() });
                }
                if choose_bool() {
                    b.cors = Some(Cors { allow_credentials: Some(any_bool()), ..Cors::default() });
                }
            },
            |a, b, m| {
                let want: Option<BTreeSet<String>> = match (&a.experimental, &b.experimental) {
                    (None, None) => None,
                    (x, y) => Some(x.iter().chain(y.iter()).flatten().cloned().collect()),
                };
                check(m.experimental == want, "sets are united");
                check(m.custom == [a.custom.clone(), b.custom.clone()].concat(), "lists are appended in order");
                check(m.cors.is_some() == (a.cors.is_some() || b.cors.is_some()), "nested settings of either side are kept");
                check(m.cors.as_ref().and_then(|c| c.max_age) == a.cors.as_ref().and_then(|c| c.max_age) && m.cors.as_ref().and_then(|c| c.allow_credentials) == b.cors.as_ref().and_then(|c| c.allow_credentials), "nested settings merge option by option");
            },
        ),
        2 => schema(|_, _| (), |_, _, _| ()),
        3 => modify(|_, _| (), |_, _, _| ()),
        _ => {
            let mk = |d: bool| Batch { delay: any_u64() as usize, headers: any_set(), max_size: d.then(|| any_u64() as usize) };
            let (da, db) = (choose_bool(), choose_bool());
            let (a, b) = (mk(da), mk(db));
            let ua = Upstream { batch: choose_bool().then(|| a.clone()), proxy: choose_bool().then(|| Proxy { url: ascii(1) }), allowed_headers: choose_bool().then(any_set), ..Upstream::default() };
            let ub = Upstream { batch: choose_bool().then(|| b.clone()), proxy: choose_bool().then(|| Proxy { url: ascii(1) }), allowed_headers: choose_bool().then(any_set), ..Upstream::default() };
            let m = ua.clone().merge_right(ub.clone());
            let want = match (&ua.batch, &ub.batch) {
                (Some(a), Some(b)) => Some(Batch { delay: b.delay, headers: a.headers.union(&b.headers).cloned().collect(), max_size: if b.max_size.is_some() { b.max_size } else { a.max_size } }),
                (x, None) => x.clone(),
                (None, y) => y.clone(),
            };
            check(m.batch == want, "batch settings merge option by option");
            check(m.proxy == if ub.proxy.is_some() { ub.proxy.clone() } else { ua.proxy.clone() }, "the later proxy wins");
            let want: Option<BTreeSet<String>> = match (&ua.allowed_headers, &ub.allowed_headers) {
                (None, None) => None,
                (x, y) => Some(x.iter().chain(y.iter()).flatten().cloned().collect()),
            };
            check(m.allowed_headers == want, "sets are united");
        }
    }
}
/// variables: one value per name, the later one's
pub fn h_c13_vars() {
    let names = ["a", "b", "c"];
    let any = || (0..count()).map(|_| kv(names[choose(3) as usize], ascii(choose(2) as usize))).collect::<Vec<_>>();
    let (l, r) = (any(), any());
    let mut want: Vec<(String, String)> = vec![];
    for x in l.iter().chain(&r) {
        match want.iter().position(|w| w.0 == x.key) {
            Some(i) => want[i].1 = x.value.clone(),
            None => want.push((x.key.clone(), x.value.clone())),
        }
    }
    let m = Server { vars: l, ..Server::default() }.merge_right(Server { vars: r, ..Server::default() });
    check(m.vars.len() == want.len() && want.iter().all(|w| m.vars.iter().any(|v| v.key == w.0 && v.value == w.1)), "each variable has the value set last");
    let got = m.get_vars();
    check(got.len() == want.len() && want.iter().all(|w| got.get(&w.0) == Some(&w.1)), "the server reads the merged variables");
    observe_u64(want.len() as u64);
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Last(u8);
impl MergeRight for Last {
    fn merge_right(self, o: Self) -> Self {
        o
    }
}
/// the generic containers
pub fn h_c13_containers() {
    let names = ["a", "b", "c"];
    let any = |_: u8| -> Vec<(String, Option<Vec<u8>>)> {
        let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
        for _ in 0..count() {
            let k = names[choose(3) as usize].to_string();
            if !v.iter().any(|x| x.0 == k) {
                v.push((k, choose_bool().then(|| bytes(1))));
            }
        }
        v
    };
    let (l, r) = (any(0), any(1));
    // present on both sides: values merged (options: the present one, lists appended)
    let mut want: Vec<(String, Option<Vec<u8>>)> = l.clone();
    for (k, v) in &r {
        match want.iter().position(|w| w.0 == *k) {
            Some(i) => {
                want[i].1 = match (&want[i].1, v) {
                    (Some(a), Some(b)) => Some([a.clone(), b.clone()].concat()),
                    (x, None) => x.clone(),
                    (None, y) => y.clone(),
                }
            }
            None => want.push((k.clone(), v.clone())),
        }
    }
    match choose(4) {
        0 => {
            let m = BTreeMap::from_iter(l).merge_right(BTreeMap::from_iter(r));
            check(m == BTreeMap::from_iter(want), "ordered maps are united");
        }
        1 => {
            let m = HashMap::<String, Option<Vec<u8>>>::from_iter(l).merge_right(HashMap::from_iter(r));
            check(m == HashMap::from_iter(want), "hash maps are united");
        }
        2 => {
            let m = IndexMap::<String, Option<Vec<u8>>>::from_iter(l).merge_right(IndexMap::from_iter(r));
            let got: Vec<_> = m.into_iter().collect();
            check(got == want, "insertion-ordered maps are united in order");
        }
        _ => {
            let ks = |v: &Vec<(String, Option<Vec<u8>>)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            let b = BTreeSet::from_iter(ks(&l)).merge_right(BTreeSet::from_iter(ks(&r)));
            check(b == BTreeSet::from_iter(ks(&want)), "ordered sets are united");
            let h = HashSet::<String>::from_iter(ks(&l)).merge_right(HashSet::from_iter(ks(&r)));
            check(h == HashSet::from_iter(ks(&want)), "hash sets are united");
            check(ks(&l).merge_right(ks(&r)) == [ks(&l), ks(&r)].concat(), "lists are appended");
            let (x, y) = (byte(), byte());
            check(Some(Last(x)).merge_right(Some(Last(y))) == Some(Last(y)) && Some(Last(x)).merge_right(None) == Some(Last(x)) && None.merge_right(Some(Last(y))) == Some(Last(y)), "options");
            check(ascii(1).merge_right("z".to_string()) == "z" && x.merge_right(y) == y && any_bool().merge_right(true), "plain values");
        }
    }
}
fn doc(d: u8) -> ConstValue {
    match choose(if d == 0 { 2 } else { 4 }) {
        0 => ConstValue::Null,
        1 => ConstValue::String(ascii(choose(2) as usize)),
        2 => ConstValue::List((0..count()).map(|_| doc(0)).collect()),
        _ => {
            let mut m = IndexMap::new();
            for k in ["a", "b"] {
                if choose_bool() {
                    m.insert(Name::new(k), doc(d - 1));
                }
            }
            ConstValue::Object(m)
        }
    }
}
fn merged(a: &ConstValue, b: &ConstValue) -> ConstValue {
    use ConstValue::*;
    match (a, b) {
        (List(x), List(y)) => List([x.clone(), y.clone()].concat()),
        (List(x), y) => List([x.clone(), vec![y.clone()]].concat()),
        (Object(x), Object(y)) => {
            let mut m = IndexMap::new();
            for (k, v) in x {
                m.insert(k.clone(), match y.get(k) { Some(w) => merged(v, w), None => v.clone() });
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    m.insert(k.clone(), w.clone());
                }
            }
            Object(m)
        }
        (_, y) => y.clone(),
    }
}
fn same(a: &ConstValue, b: &ConstValue) -> bool {
    use ConstValue::*;
    match (a, b) {
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(p.1, q.1)),
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        _ => a == b,
    }
}
/// values (directive arguments, variables, ...): objects member by member
fn values(d: u8) {
    let (a, b) = (doc(d), doc(d));
    let m = a.clone().merge_right(b.clone());
    check(same(&m, &merged(&a, &b)), "values merge member by member");
}
pub fn h_c13_values() {
    values(1)
}
pub fn h_c13_values_deep() {
    values(2)
}
fn field(name: &str) -> Field {
    Field { type_of: tailcall::core::Type::from(name.to_string()), doc: choose_bool().then(|| ascii(1)), ..Field::default() }
}
fn ty() -> Type {
    let mut t = Type { doc: choose_bool().then(|| ascii(1)), ..Type::default() };
    for k in ["f", "g"] {
        if choose_bool() {
            t.fields.insert(k.into(), field(["Int", "ID"][choose(2) as usize]));
        }
    }
    t
}
/// types, unions, enums, links of whole configurations
pub fn h_c13_config() {
    let cfg = || {
        let mut c = Config::default();
        if choose_bool() {
            c.types.insert("T".into(), ty());
        }
        c
    };
    let (mut a, mut b) = (cfg(), cfg());
    let more = choose(4);
    if more & 1 != 0 {
        a.types.insert("A".into(), Type::default().fields(vec![("x", Field::int())]));
        a.unions.insert("U".into(), Union { types: ["A".to_string()].into(), doc: None });
        a.enums.insert("E".into(), Enum { variants: [Variant { name: "p".into(), alias: None }].into(), doc: Some(ascii(1)) });
        a.schema = RootSchema::default().query("Q".into());
        a.server.port = Some(any_u32() as u16);
        a.upstream.timeout = Some(any_u64());
        a.links = vec![Link { id: Some(ascii(1)), ..Link::default() }];
        a.telemetry.request_headers = vec![ascii(1)];
    }
    if more & 2 != 0 {
        b.types.insert("B".into(), Type::default().fields(vec![("y", Field::id())]));
        b.unions.insert("U".into(), Union { types: ["B".to_string()].into(), doc: None });
        b.enums.insert("E".into(), Enum { variants: [Variant { name: "q".into(), alias: None }].into(), doc: None });
        b.schema = RootSchema::default().mutation("M".into());
        b.server.hostname = Some(ascii(1));
        b.upstream.http_cache = Some(any_u64());
        b.links = vec![Link { id: Some(ascii(1)), ..Link::default() }];
        b.telemetry.request_headers = vec![ascii(1)];
    }
    let m = a.clone().merge_right(b.clone());
    let names: BTreeSet<&String> = a.types.keys().chain(b.types.keys()).collect();
    check(m.types.keys().collect::<BTreeSet<_>>() == names, "types of both");
    match (a.types.get("T"), b.types.get("T"), m.types.get("T")) {
        (Some(x), Some(y), Some(z)) => {
            check(z.doc == if y.doc.is_some() { y.doc.clone() } else { x.doc.clone() }, "type merged");
            check(["f", "g"].iter().all(|k| z.fields.get(*k) == if y.fields.contains_key(*k) { y.fields.get(*k) } else { x.fields.get(*k) }), "fields of both, the later one winning");
            cover("same type on both sides");
        }
        (x, y, z) => check(z == if x.is_some() { x } else { y }, "type of one side kept"),
    }
    check(m.server.port == a.server.port && m.server.hostname == b.server.hostname && m.upstream.timeout == a.upstream.timeout && m.upstream.http_cache == b.upstream.http_cache, "settings of both");
    check(m.schema.query == a.schema.query && m.schema.mutation == b.schema.mutation, "root types of both");
    check(m.links == [a.links.clone(), b.links.clone()].concat(), "links appended");
    check(m.telemetry.request_headers == [a.telemetry.request_headers.clone(), b.telemetry.request_headers.clone()].concat(), "telemetry headers appended");
    if more == 3 {
        check(m.unions["U"].types.len() == 2, "union members of both");
        check(m.enums["E"].variants.len() == 2 && m.enums["E"].doc == a.enums["E"].doc, "enum variants of both");
    }
    check(a.clone().merge_right(Config::default()) == a && Config::default().merge_right(b.clone()) == b, "an empty configuration changes nothing");
}
/// resolvers: those of both, none twice
pub fn h_c13_resolvers() {
    let r = || (0..count()).map(|_| Resolver::Expr(Expr { body: serde_json::Value::String(string_of(b"ab", 1)) })).collect::<Vec<_>>();
    let (a, b) = (r(), r());
    let m = ResolverSet(a.clone()).merge_right(ResolverSet(b.clone()));
    let mut want = a;
    for x in b {
        if !want.contains(&x) {
            want.push(x);
        }
    }
    check(m.0 == want, "resolvers of both, none twice");
}
crate::harnesses!(h_c13_server, h_c13_upstream, h_c13_nested, h_c13_vars, h_c13_containers, h_c13_values, h_c13_values_deep, h_c13_config, h_c13_resolvers);
