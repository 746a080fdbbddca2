//! C28: configurations written as SDL and read back
#![allow(deprecated)]
use crate::rt::*;
use async_graphql::parser::types::ConstDirective;
use async_graphql::Positioned;
use async_graphql_value::{ConstValue, Name};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use tailcall::core::config::cors::Cors;
use tailcall::core::config::symex::Headers;
use tailcall::core::config::*;
use tailcall::core::directive::DirectiveCodec;
use tailcall::core::http::Method;
use tailcall::core::json::JsonSchema;
use tailcall_valid::Validator;

/// texts are written: few values; otherwise they stay symbolic
static TEXT: AtomicBool = AtomicBool::new(false);
/// what is not in focus takes one value only
static FIXED: AtomicBool = AtomicBool::new(false);
/// texts of two characters
static LONG: AtomicBool = AtomicBool::new(false);
const TRICKY: &[u8] = b"a\"\\\n{#$";
fn tricky() -> String {
    if LONG.load(Relaxed) {
        return conc_string_of(TRICKY, 2);
    }
    match choose(TRICKY.len() as u8 + 2) as usize {
        0 => String::new(),
        1 => "{{.args.a}}\\\"".into(),
        i => (TRICKY[i - 2] as char).into(),
    }
}
fn pick(n: u8) -> u8 {
    if FIXED.load(Relaxed) { 0 } else { choose(n) }
}
fn pick_bool() -> bool {
    pick(2) == 1
}
fn pick_any() -> bool {
    if FIXED.load(Relaxed) { true } else { any_bool() }
}
type GV = ConstValue;
trait Opt: Sized {
    fn any() -> Self;
    fn lit(&self) -> GV;
}
impl Opt for bool {
    fn any() -> Self {
        if TEXT.load(Relaxed) { pick_bool() } else { pick_any() }
    }
    fn lit(&self) -> GV {
        GV::Boolean(*self)
    }
}
macro_rules! nums {
    ($($t:ty),*) => { $( impl Opt for $t {
        fn any() -> Self { if TEXT.load(Relaxed) { [0, 1, <$t>::MAX, <$t>::MIN][pick(4) as usize] } else { if FIXED.load(Relaxed) { 1 } else { any_u64() as $t } } }
        fn lit(&self) -> GV { GV::Number((*self).into()) }
    } )* };
}
nums!(u16, u64, i64, usize);
impl Opt for NonZeroU64 {
    fn any() -> Self {
        let x = u64::any();
        assume(x != 0);
        NonZeroU64::new(x).unwrap()
    }
    fn lit(&self) -> GV {
        GV::Number(self.get().into())
    }
}
impl Opt for String {
    fn any() -> Self {
        if TEXT.load(Relaxed) { if FIXED.load(Relaxed) { "a".into() } else { tricky() } } else { if FIXED.load(Relaxed) { "a".into() } else { ascii(choose(3) as usize) } }
    }
    fn lit(&self) -> GV {
        GV::String(self.clone())
    }
}
impl<T: Opt> Opt for Vec<T> {
    fn any() -> Self {
        let mut v = vec![T::any()];
        if pick_bool() {
            let f = FIXED.swap(true, Relaxed);
            v.push(T::any());
            FIXED.store(f, Relaxed);
        }
        v
    }
    fn lit(&self) -> GV {
        GV::List(self.iter().map(T::lit).collect())
    }
}
impl Opt for BTreeSet<String> {
    fn any() -> Self {
        let k = pick(3);
        ["x", "y"].iter().enumerate().filter(|(i, _)| (k + 1) & (1 << i) != 0).map(|x| x.1.to_string()).collect()
    }
    fn lit(&self) -> GV {
        GV::List(self.iter().map(|x| GV::String(x.clone())).collect())
    }
}
/// one of several named alternatives
macro_rules! named {
    ($t:ty, $($v:expr => $n:literal),*) => { impl Opt for $t {
        fn any() -> Self { let all = [$($v),*]; let i = pick(all.len() as u8) as usize; all.into_iter().nth(i).unwrap() }
        fn lit(&self) -> GV { $( if *self == $v { return GV::String($n.into()); } )* unreachable!() }
    } };
}
named!(HttpVersion, HttpVersion::HTTP1 => "HTTP1", HttpVersion::HTTP2 => "HTTP2");
named!(Encoding, Encoding::ApplicationJson => "ApplicationJson", Encoding::ApplicationXWwwFormUrlencoded => "ApplicationXWwwFormUrlencoded");
named!(Method, Method::GET => "GET", Method::POST => "POST", Method::PUT => "PUT", Method::PATCH => "PATCH", Method::DELETE => "DELETE", Method::HEAD => "HEAD", Method::OPTIONS => "OPTIONS", Method::CONNECT => "CONNECT", Method::TRACE => "TRACE");
named!(LinkType, LinkType::Config => "Config", LinkType::Protobuf => "Protobuf", LinkType::Script => "Script", LinkType::Cert => "Cert", LinkType::Key => "Key", LinkType::Operation => "Operation", LinkType::Htpasswd => "Htpasswd", LinkType::Jwks => "Jwks", LinkType::Grpc => "Grpc");
named!(PrometheusFormat, PrometheusFormat::Text => "text", PrometheusFormat::Protobuf => "protobuf");
/// arbitrary JSON an option may hold
impl Opt for serde_json::Value {
    fn any() -> Self {
        match pick(5) {
            0 => serde_json::Value::Bool(bool::any()),
            1 => serde_json::Value::Number(i64::any().into()),
            2 => serde_json::Value::String(String::any()),
            3 => serde_json::Value::Array(vec![serde_json::Value::String(String::any()), serde_json::Value::Null]),
            _ => {
                let mut m = serde_json::Map::new();
                m.insert("k".into(), serde_json::Value::String(String::any()));
                m.insert("n".into(), serde_json::Value::Number(u64::any().into()));
                serde_json::Value::Object(m)
            }
        }
    }
    fn lit(&self) -> GV {
        GV::from_json(self.clone()).unwrap()
    }
}
fn obj(m: Vec<(&str, GV)>) -> GV {
    GV::Object(m.into_iter().map(|(k, v)| (Name::new(k), v)).collect())
}
impl Opt for KeyValue {
    fn any() -> Self {
        KeyValue { key: "k".into(), value: String::any() }
    }
    fn lit(&self) -> GV {
        obj(vec![("key", self.key.lit()), ("value", self.value.lit())])
    }
}
impl Opt for URLQuery {
    fn any() -> Self {
        URLQuery { key: "q".into(), value: String::any(), skip_empty: pick_bool().then(bool::any) }
    }
    fn lit(&self) -> GV {
        let mut m = vec![("key", self.key.lit()), ("value", self.value.lit())];
        m.extend(self.skip_empty.iter().map(|x| ("skipEmpty", x.lit())));
        obj(m)
    }
}
impl Opt for JsonSchema {
    fn any() -> Self {
        match pick(5) {
            0 => [JsonSchema::Str, JsonSchema::Num, JsonSchema::Bool, JsonSchema::Empty, JsonSchema::Any][pick(5) as usize].clone(),
            1 => JsonSchema::Arr(Box::new(JsonSchema::Str)),
            2 => JsonSchema::Opt(Box::new(JsonSchema::Num)),
            3 => JsonSchema::Enum(["x".to_string()].into()),
            _ => JsonSchema::Obj([("a".to_string(), JsonSchema::Bool)].into()),
        }
    }
    fn lit(&self) -> GV {
        let s = |x: &str| GV::String(x.into());
        match self {
            JsonSchema::Str => s("Str"),
            JsonSchema::Num => s("Num"),
            JsonSchema::Bool => s("Bool"),
            JsonSchema::Empty => s("Empty"),
            JsonSchema::Any => s("Any"),
            JsonSchema::Arr(x) => obj(vec![("Arr", x.lit())]),
            JsonSchema::Opt(x) => obj(vec![("Opt", x.lit())]),
            JsonSchema::Enum(x) => obj(vec![("Enum", x.lit())]),
            JsonSchema::Obj(m) => obj(vec![("Obj", obj(m.iter().map(|(k, v)| (k.as_str(), v.lit())).collect()))]),
        }
    }
}
/// A directive with its options: the one in focus is present, the others are all
/// present (with a fixed small set of values) or all absent.
macro_rules! directive {
    ($f:ident, $t:ty, $base:expr, req($($rn:literal $r:ident),*), opt($($on:literal $o:ident),*), val($($vn:literal $v:ident),*)) => {
        fn $f() -> ($t, Vec<(&'static str, GV)>) {
            let n = [$($on,)* $($vn,)* ""].len() as u8;
            let _focus = choose(n);
            let _all = !TEXT.load(Relaxed) && choose_bool();
            let mut d: $t = $base;
            FIXED.store(_all || TEXT.load(Relaxed) && _focus + 1 != n, Relaxed);
            let mut args: Vec<(&'static str, GV)> = vec![];
            let mut _i = 0u8;
            $( d.$r = Opt::any(); args.push(($rn, d.$r.lit())); )*
            $(
                if _i == _focus || _all {
                    FIXED.store(_i != _focus, Relaxed);
                    let v = Opt::any();
                    args.push(($on, Opt::lit(&v)));
                    d.$o = Some(v);
                }
                _i += 1;
            )*
            $(
                if _i == _focus || _all {
                    FIXED.store(_i != _focus, Relaxed);
                    d.$v = Opt::any();
                    // what is left at its default need not be written
                    if d.$v != <$t>::clone(&$base).$v { args.push(($vn, d.$v.lit())); }
                }
                _i += 1;
            )*
            FIXED.store(false, Relaxed);
            (d, args)
        }
        impl Opt for $t {
            fn any() -> Self { $f().0 }
            fn lit(&self) -> GV { unreachable!() }
        }
    };
}
macro_rules! nested {
    ($f:ident, $t:ty, $base:expr, req($($rn:literal $r:ident),*), opt($($on:literal $o:ident),*), val($($vn:literal $v:ident),*)) => {
        impl Opt for $t {
            fn any() -> Self {
                let n = [$($on,)* $($vn,)* ""].len() as u8;
                let _focus = pick(n);
                let mut d: $t = $base;
                let mut _i = 0u8;
                $( d.$r = Opt::any(); )*
                $( if _i == _focus { d.$o = Some(Opt::any()); } _i += 1; )*
                $( if _i == _focus { d.$v = Opt::any(); } _i += 1; )*
                d
            }
            fn lit(&self) -> GV {
                let mut _m: Vec<(&str, GV)> = vec![$( ($rn, self.$r.lit()) ),*];
                $( if let Some(v) = &self.$o { _m.push(($on, v.lit())); } )*
                $( if self.$v != <$t>::clone(&$base).$v { _m.push(($vn, self.$v.lit())); } )*
                obj(_m)
            }
        }
    };
}
impl Opt for Routes {
    fn any() -> Self {
        Routes::default().with_status(String::any()).with_graphql(String::any())
    }
    fn lit(&self) -> GV {
        obj(vec![("status", self.status().lit()), ("graphQL", self.graphql().lit())])
    }
}
fn cors() -> Cors {
    // an absent list of varying headers stands for the usual ones
    Cors { vary: vec!["origin".into(), "access-control-request-method".into(), "access-control-request-headers".into()], ..Cors::default() }
}
impl Opt for Cors {
    fn any() -> Self {
        let mut c = cors();
        match pick(9) {
            0 => c.allow_credentials = Some(bool::any()),
            1 => c.allow_headers = Vec::any(),
            2 => c.allow_methods = Vec::any(),
            3 => c.allow_origins = Vec::any(),
            4 => c.allow_private_network = Some(bool::any()),
            5 => c.expose_headers = Vec::any(),
            6 => c.max_age = Some(usize::any()),
            7 => c.vary = if pick_bool() { vec![] } else { Vec::any() },
            _ => (),
        }
        c
    }
    fn lit(&self) -> GV {
        let mut m = vec![];
        if let Some(x) = &self.allow_credentials {
            m.push(("allowCredentials", x.lit()));
        }
        if let Some(x) = &self.allow_private_network {
            m.push(("allowPrivateNetwork", x.lit()));
        }
        if let Some(x) = &self.max_age {
            m.push(("maxAge", x.lit()));
        }
        for (n, l) in [("allowHeaders", &self.allow_headers), ("allowOrigins", &self.allow_origins), ("exposeHeaders", &self.expose_headers)] {
            if !l.is_empty() {
                m.push((n, l.lit()));
            }
        }
        if !self.allow_methods.is_empty() {
            m.push(("allowMethods", self.allow_methods.lit()));
        }
        m.push(("vary", self.vary.lit()));
        obj(m)
    }
}
nested!(headers_, Headers, Headers::default(), req(), opt("cacheControl" cache_control, "experimental" experimental, "setCookies" set_cookies, "cors" cors), val("custom" custom));
nested!(script_, ScriptOptions, ScriptOptions { timeout: None }, req(), opt("timeout" timeout), val());
nested!(proxy_, Proxy, Proxy { url: String::new() }, req("url" url), opt(), val());
nested!(batch_, Batch, Batch { delay: 0, headers: BTreeSet::new(), max_size: None }, req("delay" delay, "headers" headers), opt("maxSize" max_size), val());
nested!(stdout_, StdoutExporter, StdoutExporter { pretty: false }, req(), opt(), val("pretty" pretty));
nested!(otlp_, OtlpExporter, OtlpExporter { url: String::new(), headers: vec![] }, req("url" url), opt(), val("headers" headers));
nested!(prom_, PrometheusExporter, PrometheusExporter { path: "/metrics".into(), format: PrometheusFormat::Text }, req("path" path), opt(), val("format" format));
impl Opt for TelemetryExporter {
    fn any() -> Self {
        match pick(3) {
            0 => TelemetryExporter::Stdout(Opt::any()),
            1 => TelemetryExporter::Otlp(Opt::any()),
            _ => {
                let p = PrometheusExporter::any();
                // an empty path is as good as none
                assume(!p.path.is_empty());
                TelemetryExporter::Prometheus(p)
            }
        }
    }
    fn lit(&self) -> GV {
        match self {
            TelemetryExporter::Stdout(x) => obj(vec![("stdout", x.lit())]),
            TelemetryExporter::Otlp(x) => obj(vec![("otlp", x.lit())]),
            TelemetryExporter::Prometheus(x) => obj(vec![("prometheus", x.lit())]),
            _ => unreachable!(),
        }
    }
}
impl Opt for Step {
    fn any() -> Self {
        let mut s = Step::default();
        match pick(3) {
            0 => s.query = Some(String::any()),
            1 => s.mutation = Some(String::any()),
            _ => (),
        }
        if pick_bool() {
            s.args = BTreeMap::from([("a".to_string(), Opt::any())]);
        }
        s
    }
    fn lit(&self) -> GV {
        let mut m = vec![];
        m.extend(self.query.iter().map(|x| ("query", x.lit())));
        m.extend(self.mutation.iter().map(|x| ("mutation", x.lit())));
        if let Some(a) = self.args.get("a") {
            m.push(("args", obj(vec![("a", a.lit())])));
        }
        obj(m)
    }
}
directive!(server, Server, Server::default(), req(), opt("apolloTracing" apollo_tracing, "batchRequests" batch_requests, "headers" headers, "globalResponseTimeout" global_response_timeout, "hostname" hostname, "introspection" introspection, "enableFederation" enable_federation, "pipelineFlush" pipeline_flush, "port" port, "queryValidation" query_validation, "responseValidation" response_validation, "script" script, "showcase" showcase, "version" version, "workers" workers, "routes" routes), val("vars" vars));
directive!(upstream, Upstream, Upstream { verify_ssl: None, ..Upstream::default() }, req(), opt("onRequest" on_request, "allowedHeaders" allowed_headers, "batch" batch, "connectTimeout" connect_timeout, "httpCache" http_cache, "http2Only" http2_only, "keepAliveInterval" keep_alive_interval, "keepAliveTimeout" keep_alive_timeout, "keepAliveWhileIdle" keep_alive_while_idle, "poolMaxIdlePerHost" pool_max_idle_per_host, "poolIdleTimeout" pool_idle_timeout, "proxy" proxy, "tcpKeepAlive" tcp_keep_alive, "timeout" timeout, "userAgent" user_agent, "verifySSL" verify_ssl), val());
directive!(telemetry, Telemetry, Telemetry::default(), req(), opt("export" export), val("requestHeaders" request_headers));
directive!(link, Link, Link::default(), req(), opt("id" id, "headers" headers, "meta" meta, "proto_paths" proto_paths), val("src" src, "type" type_of));
directive!(http, Http, Http::default(), req("url" url), opt("onRequest" on_request, "body" body, "input" input, "output" output, "dedupe" dedupe, "select" select, "onResponseBody" on_response_body), val("encoding" encoding, "batchKey" batch_key, "headers" headers, "method" method, "query" query));
directive!(grpc, Grpc, Grpc::default(), req("url" url, "method" method), opt("body" body, "dedupe" dedupe, "select" select, "onResponseBody" on_response_body), val("batchKey" batch_key, "headers" headers));
directive!(graphql, GraphQL, GraphQL::default(), req("url" url, "name" name), opt("args" args), val("batch" batch, "headers" headers, "dedupe" dedupe));
directive!(call, Call, Call::default(), req("steps" steps), opt("dedupe" dedupe), val());
directive!(expr, Expr, Expr { body: serde_json::Value::Null }, req("body" body), opt(), val());
directive!(js, JS, JS { name: String::new() }, req("name" name), opt(), val());
directive!(modify, Modify, Modify { name: None, omit: None }, req(), opt("name" name, "omit" omit), val());
directive!(cache, Cache, Cache { max_age: NonZeroU64::MIN }, req("maxAge" max_age), opt(), val());
directive!(protected, Protected, Protected::default(), req(), opt("id" id), val());
directive!(discriminate, Discriminate, Discriminate { field: None }, req(), opt("field" field), val());
directive!(add_field, AddField, AddField { name: String::new(), path: vec![] }, req("name" name, "path" path), opt(), val());
directive!(alias, Alias, Alias::default(), req("options" options), opt(), val());
fn omit() -> (Omit, Vec<(&'static str, GV)>) {
    (Omit {}, vec![])
}

fn same(a: &GV, b: &GV) -> bool {
    match (a, b) {
        (GV::List(x), GV::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        // a member without a value is as good as none
        (GV::Object(x), GV::Object(y)) => {
            let (x, y): (Vec<_>, Vec<_>) = (x.iter().filter(|m| *m.1 != GV::Null).collect(), y.iter().filter(|m| *m.1 != GV::Null).collect());
            x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| p.0 == q.0 && same(p.1, q.1)))
        }
        (GV::String(x), GV::String(y)) => x == y,
        (GV::Number(x), GV::Number(y)) => x == y,
        _ => a == b,
    }
}
/// the directive says what the options are, under their documented names, and the other way round
fn codec<T: DirectiveCodec + PartialEq>(name: &'static str, (d, args): (T, Vec<(&'static str, GV)>)) {
    let w: ConstDirective = d.to_directive();
    check(w.name.node.as_str() == name && T::directive_name() == name && T::trace_name() == format!("@{name}"), "the directive has its name");
    let pos = |x| Positioned::new(x, Default::default());
    let present = w.arguments.iter().filter(|(_, v)| v.node != GV::Null).count();
    check(present == args.iter().filter(|a| a.1 != GV::Null).count(), "only options that are set are written");
    check(args.iter().all(|(n, v)| *v == GV::Null || w.arguments.iter().any(|(k, x)| k.node.as_str() == *n && same(&x.node, v))), "each option set is written under its name");
    let args = if choose_bool() { args.into_iter().rev().collect() } else { args };
    let r = ConstDirective { name: pos2(name), arguments: args.into_iter().map(|(n, v)| (pos2(n), pos(v))).collect() };
    match T::from_directive(&r).to_result() {
        Ok(x) => check(x == d, "options are read as they are written"),
        Err(_) => check(false, "a directive with its documented options is accepted"),
    }
    match T::from_directive(&w).to_result() {
        Ok(x) => check(x == d, "a directive reads back as it was"),
        Err(_) => check(false, "a written directive is accepted"),
    }
    cover("directive");
}
fn pos2(n: &str) -> Positioned<Name> {
    Positioned::new(Name::new(n), Default::default())
}
pub fn h_c28_settings() {
    match choose(3) {
        0 => codec("server", server()),
        1 => codec("upstream", upstream()),
        _ => codec("telemetry", telemetry()),
    }
}
pub fn h_c28_resolvers() {
    match choose(6) {
        0 => codec("http", http()),
        1 => codec("grpc", grpc()),
        2 => codec("graphQL", graphql()),
        3 => codec("call", call()),
        4 => codec("expr", expr()),
        _ => codec("js", js()),
    }
}
pub fn h_c28_small() {
    match choose(8) {
        0 => codec("link", link()),
        1 => codec("modify", modify()),
        2 => codec("cache", cache()),
        3 => codec("protected", protected()),
        4 => codec("discriminate", discriminate()),
        5 => codec("addField", add_field()),
        6 => codec("alias", alias()),
        _ => codec("omit", omit()),
    }
}

// whole configurations, as texts

fn squeeze(d: &Option<String>) -> Option<String> {
    d.as_ref().map(|d| d.chars().filter(|c| !c.is_whitespace()).collect())
}
/// descriptions may be laid out differently, an unset certificate check is an explicit yes
fn plain(mut c: Config) -> Config {
    c.upstream.verify_ssl = Some(c.upstream.get_verify_ssl());
    for t in c.types.values_mut() {
        t.doc = squeeze(&t.doc);
        for f in t.fields.values_mut() {
            f.doc = squeeze(&f.doc);
            for a in f.args.values_mut() {
                a.doc = squeeze(&a.doc);
            }
        }
    }
    for u in c.unions.values_mut() {
        u.doc = squeeze(&u.doc);
    }
    for e in c.enums.values_mut() {
        e.doc = squeeze(&e.doc);
    }
    c
}
fn written(c: Config) {
    let text = c.to_sdl();
    match Config::from_sdl(&text).to_result() {
        Err(_) => {
            observe(text.as_bytes());
            check(false, "a written configuration can be read")
        }
        Ok(r) => {
            let (r, c) = (plain(r), plain(c));
            let mut discriminators = true;
            check(r.server == c.server, "@server reads back");
            check(r.upstream == c.upstream, "@upstream reads back");
            check(r.schema == c.schema, "root types read back");
            check(r.links == c.links, "@link reads back");
            check(r.unions == c.unions, "unions read back");
            check(r.enums == c.enums, "enums read back");
            check(r.types.keys().eq(c.types.keys()), "the types read back");
            for (n, t) in &c.types {
                let q = &r.types[n];
                check(t.doc == q.doc, "a type's description reads back");
                check(t.implements == q.implements, "a type's interfaces read back");
                check(t.added_fields == q.added_fields && t.cache == q.cache && t.protected == q.protected && t.resolvers == q.resolvers && t.directives == q.directives, "a type's directives read back");
                check(t.fields.keys().eq(q.fields.keys()), "a type's fields read back");
                for (m, f) in &t.fields {
                    let g = &q.fields[m];
                    check(f.type_of == g.type_of, "a field's type reads back");
                    check(f.doc == g.doc, "a field's description reads back");
                    check(f.default_value == g.default_value, "a field's default reads back");
                    check(f.modify == g.modify && f.omit == g.omit && f.cache == g.cache && f.protected == g.protected && f.resolvers == g.resolvers && f.directives == g.directives, "a field's directives read back");
                    discriminators &= f.discriminate == g.discriminate;
                    check(f.args.keys().eq(g.args.keys()), "a field's arguments read back");
                    for (k, a) in &f.args {
                        let b = &g.args[k];
                        check(a.type_of == b.type_of && a.default_value == b.default_value, "an argument reads back");
                        check(a.doc == b.doc, "an argument's description reads back");
                        check(a.modify == b.modify, "an argument's directive reads back");
                    }
                }
            }
            cover("read back");
            check(r.telemetry == c.telemetry, "known telemetry-not-written");
            check(discriminators, "known discriminator-not-written");
        }
    }
}
fn ty(s: &str) -> tailcall::core::Type {
    tailcall::core::Type::from(s.to_string())
}
fn base() -> Config {
    let mut c = Config::default();
    c.schema.query = Some("Query".into());
    c.types.insert("Query".into(), Type::default().fields(vec![("f", Field::int())]));
    c
}
pub fn h_c28_text_schema() {
    TEXT.store(true, Relaxed);
    let mut c = base();
    match choose(5) {
        0 => c.server = server().0,
        1 => c.upstream = upstream().0,
        2 => c.links = vec![link().0],
        3 => {
            c.links = vec![Link { id: Some("a".into()), ..Link::default() }, Link { id: Some("b".into()), type_of: LinkType::Key, ..Link::default() }];
            c.server.port = Some(1);
            c.upstream.timeout = Some(2);
        }
        _ => {
            c.schema.mutation = choose_bool().then(|| "M".to_string());
            c.schema.subscription = choose_bool().then(|| "S".to_string());
            c.types.insert("M".into(), Type::default().fields(vec![("g", Field::int())]));
        }
    }
    written(c)
}
fn resolver() -> Resolver {
    match choose(6) {
        0 => Resolver::Http(http().0),
        1 => Resolver::Grpc(grpc().0),
        2 => Resolver::Graphql(graphql().0),
        3 => Resolver::Call(call().0),
        4 => Resolver::Expr(expr().0),
        _ => Resolver::Js(js().0),
    }
}
fn doc() -> Option<String> {
    ["a", "a b", "say \"x\"", "a\nb", "back\\slash # {", "\"q"].get(choose(6) as usize).map(|x| x.to_string())
}
fn wrap(k: u8) -> tailcall::core::Type {
    let t = ty("Int");
    match k {
        0 => t,
        1 => t.into_required(),
        2 => t.into_list(),
        3 => t.into_required().into_list().into_required(),
        _ => t.into_list().into_required().into_list(),
    }
}
fn value() -> serde_json::Value {
    match choose(6) {
        0 => serde_json::Value::Bool(true),
        1 => serde_json::Value::Number((-1i64).into()),
        2 => serde_json::Value::String("a\"\\\n".into()),
        3 => serde_json::Value::Array(vec![serde_json::Value::Null, serde_json::Value::Number(2.into())]),
        4 => serde_json::Value::Number(serde_json::Number::from_f64(1.5).unwrap()),
        _ => serde_json::json!({"k": {"l": []}}),
    }
}
pub fn h_c28_text_field() {
    TEXT.store(true, Relaxed);
    let mut f = Field::int();
    match choose(12) {
        0 => f.resolvers = resolver_small().into(),
        1 => f.resolvers = ResolverSet(vec![Resolver::Expr(Expr { body: 1.into() }), Resolver::Js(JS { name: "j".into() }), Resolver::Expr(Expr { body: 2.into() })]),
        2 => f.modify = Some(modify().0),
        3 => f.omit = Some(Omit {}),
        4 => f.cache = Some(cache().0),
        5 => f.protected = Some(protected().0),
        6 => f.discriminate = Some(discriminate().0),
        7 => f.doc = doc(),
        8 => f.type_of = wrap(choose(5)),
        9 => f.directives = vec![Directive { name: "tag".into(), arguments: [("name".to_string(), value())].into_iter().collect() }],
        10 => {
            let k = choose(31);
            f.modify = (k & 1 != 0).then(|| Modify { name: Some("m".into()), omit: None });
            f.omit = (k & 2 != 0).then(|| Omit {});
            f.cache = (k & 4 != 0).then(|| Cache { max_age: NonZeroU64::MIN });
            f.protected = (k & 8 != 0).then(|| Protected { id: Some(vec!["p".into()]) });
            f.resolvers = if k & 16 != 0 { Resolver::Js(JS { name: "j".into() }).into() } else { Default::default() };
            f.doc = Some("d".into());
        }
        _ => {
            for n in &["a", "b"][..choose(2) as usize + 1] {
                f.args.insert(n.to_string(), arg());
            }
        }
    }
    let mut c = base();
    c.types.insert("Query".into(), Type::default().fields(vec![("a", Field::int()), ("f", f), ("g", Field::string())]));
    written(c)
}
/// texts of two characters
pub fn h_c28_text_deep() {
    LONG.store(true, Relaxed);
    if choose_bool() { h_c28_text_resolver() } else { h_c28_text_schema() }
}
pub fn h_c28_text_resolver() {
    TEXT.store(true, Relaxed);
    let mut f = Field::int();
    f.resolvers = resolver().into();
    let mut c = base();
    c.types.insert("Query".into(), Type::default().fields(vec![("f", f)]));
    written(c)
}
fn arg() -> Arg {
    let mut a = Arg { type_of: ty("Int"), ..Arg::default() };
    match choose(4) {
        0 => a.type_of = wrap(choose(5)),
        1 => a.doc = doc(),
        2 => a.modify = Some(Modify { name: Some("n".into()), omit: None }),
        _ => a.default_value = Some(value()),
    }
    a
}
pub fn h_c28_text_types() {
    TEXT.store(true, Relaxed);
    let mut c = base();
    let mut t = Type::default().fields(vec![("x", Field::int())]);
    let mut parts = |t: &mut Type, k: u8| match k {
        0 => t.doc = doc(),
        1 => t.added_fields = vec![add_field().0, AddField { name: "n".into(), path: vec!["x".into()] }],
        2 => t.cache = Some(cache().0),
        3 => t.protected = Some(protected().0),
        4 => t.resolvers = resolver_small().into(),
        5 => t.directives = vec![Directive { name: "key".into(), arguments: [("fields".to_string(), serde_json::json!("id"))].into_iter().collect() }, Directive { name: "shareable".into(), arguments: Default::default() }],
        _ => (),
    };
    match choose(6) {
        // an object
        0 => parts(&mut t, choose(6)),
        // an interface and its implementation, itself perhaps implemented
        1 => {
            let k = choose(8);
            if k == 7 {
                let mut f = Field::int();
                f.args.insert("a".into(), arg());
                f.doc = Some("d".into());
                t.fields.insert("y".into(), f);
            }
            parts(&mut t, k);
            let mut i = Type::default().fields(vec![("x", Field::int())]);
            i.implements.insert("T".into());
            c.types.insert("I".into(), i);
            if choose_bool() {
                let mut j = Type::default().fields(vec![("x", Field::int())]);
                j.implements = ["I".to_string(), "T".to_string()].into();
                c.types.insert("J".into(), j);
            }
        }
        // an input object, used by an argument
        2 => {
            let mut f = Field::int();
            f.args.insert("a".into(), Arg { type_of: ty("T"), ..Arg::default() });
            c.types.get_mut("Query").unwrap().fields.insert("g".into(), f);
            let x = t.fields.get_mut("x").unwrap();
            match choose(7) {
                0 => t.doc = doc(),
                1 => t.protected = Some(Protected::default()),
                2 => x.doc = doc(),
                3 => x.default_value = Some(value()),
                4 => x.modify = Some(Modify { name: Some("n".into()), omit: None }),
                5 => {
                    x.modify = Some(Modify { name: Some("n".into()), omit: None });
                    x.default_value = Some(value());
                    x.doc = Some("d".into());
                }
                _ => x.type_of = wrap(choose(5)),
            }
        }
        // a scalar
        3 => {
            t.fields.clear();
            if choose_bool() {
                t.doc = doc();
            }
        }
        4 => {
            c.unions.insert("U".into(), Union { types: if choose_bool() { ["T".to_string()].into() } else { ["Query".to_string(), "T".to_string()].into() }, doc: if choose_bool() { doc() } else { None } });
        }
        _ => {
            let v = |n: &str| Variant { name: n.into(), alias: choose_bool().then(|| alias().0) };
            c.enums.insert("E".into(), Enum { variants: [v("p"), v("q")].into(), doc: if choose_bool() { doc() } else { None } });
        }
    }
    c.types.insert("T".into(), t);
    written(c)
}
fn resolver_small() -> Resolver {
    Resolver::Http(Http { url: "http://a/{{.value.id}}".into(), ..Http::default() })
}
pub fn h_c28_text_telemetry() {
    TEXT.store(true, Relaxed);
    let mut c = base();
    c.telemetry = telemetry().0;
    written(c)
}
/// settings of a runtime configuration as JSON and YAML
fn runtime_config(yaml: bool) {
    TEXT.store(true, Relaxed);
    let mut c = RuntimeConfig::default();
    match choose(4) {
        0 => c.server = server().0,
        1 => c.upstream = upstream().0,
        2 => c.links = vec![link().0, Link::default()],
        _ => c.telemetry = telemetry().0,
    }
    let (text, source) = if yaml { (c.to_yaml(), Source::Yml) } else { (c.to_json(choose_bool()), Source::Json) };
    let text = text.unwrap();
    match RuntimeConfig::from_source(source, &text) {
        Ok(r) => {
            check(r.server == c.server && r.upstream == c.upstream && r.links == c.links && r.telemetry == c.telemetry, "settings read back");
            cover("settings read back");
        }
        Err(_) => {
            observe(text.as_bytes());
            check(false, "written settings can be read")
        }
    }
}
pub fn h_c28_json() {
    runtime_config(false)
}
pub fn h_c28_yaml() {
    runtime_config(true)
}
crate::harnesses!(h_c28_json, h_c28_yaml, h_c28_settings, h_c28_resolvers, h_c28_small, h_c28_text_schema, h_c28_text_field, h_c28_text_resolver, h_c28_text_types, h_c28_text_deep, h_c28_text_telemetry);
