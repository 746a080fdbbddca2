//! C31: a configuration that cannot be served is refused, with causes that name what is wrong
use crate::rt::*;
use std::collections::BTreeSet;
use tailcall::core::blueprint::{Blueprint, BlueprintError, Links, Server};
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::config::{Config, ConfigModule, Enum, HttpVersion, KeyValue, Link, LinkType, Source, SourceError};
use tailcall_valid::{Cause, ValidationError, Validator};

type Told = BTreeSet<String>;
fn told(e: &ValidationError<BlueprintError>) -> Told {
    e.as_vec().iter().map(|c| c.message.to_string()).collect()
}
fn show(t: &Told) -> String {
    t.iter().cloned().collect::<Vec<_>>().join(" | ")
}
fn refused<T>(got: Result<T, ValidationError<BlueprintError>>, want: &Told) {
    match got {
        Ok(_) => {
            if !want.is_empty() {
                print(&format!("accepted despite {}", show(want)));
            }
            check(want.is_empty(), "C31: a configuration that cannot be served is accepted");
            cover("accepted");
        }
        Err(e) => {
            let got = told(&e);
            if &got != want {
                print(&format!("got {}, want {}", show(&got), show(want)));
            }
            check(!want.is_empty(), "C31: a usable configuration is refused");
            check(got.is_subset(want), "C31: a cause is reported that is none");
            check(want.is_subset(&got), "C31: a cause is not reported");
            cover("refused");
        }
    }
}
fn set(l: &[&str]) -> Told {
    l.iter().map(|x| x.to_string()).collect()
}
fn compiled(c: Config) -> Result<Blueprint, ValidationError<BlueprintError>> {
    Blueprint::try_from(&ConfigModule::from(c))
}
fn read(sdl: &str) -> Config {
    match Config::from_sdl(sdl).to_result() {
        Ok(c) => c,
        Err(e) => {
            print(&format!("{e} {sdl}"));
            check(false, "C31: a readable configuration is not read");
            reject()
        }
    }
}

// ---- links

fn links(n: u8) {
    let types = [LinkType::Config, LinkType::Script, LinkType::Key];
    let l: Vec<Link> = (0..n)
        .map(|_| Link {
            id: match choose(3) {
                0 => None,
                1 => Some("a".to_string()),
                _ => Some(string_of(b"aA", 1)),
            },
            src: if choose_bool() { String::new() } else { "s".into() },
            type_of: types[choose(3) as usize].clone(),
            ..Default::default()
        })
        .collect();
    let mut want: Vec<(String, usize)> = vec![];
    for (i, x) in l.iter().enumerate() {
        if x.src.is_empty() {
            want.push(("Link src cannot be empty".into(), i));
            continue;
        }
        if let Some(id) = &x.id {
            let twice = l.iter().enumerate().any(|(j, y)| j != i && y.id.as_ref() == Some(id));
            if twice {
                want.push((format!("Duplicated id: {id}"), i));
            }
        }
    }
    let count = |t: &LinkType| l.iter().filter(|x| &x.type_of == t).count();
    let (scripts, keys) = (count(&types[1]), count(&types[2]));
    match Links::try_from(l.clone()) {
        Ok(_) => {
            check(want.is_empty() && scripts < 2 && keys < 2, "C31: links that cannot be served are accepted");
            cover("links");
        }
        Err(e) if !want.is_empty() => {
            let got = e.as_vec();
            check(got.len() == want.len(), "C31: another number of links is refused");
            for (m, at) in want {
                let at = at.to_string();
                let found = got.iter().any(|c| c.message.to_string() == m && c.trace.iter().any(|t| *t == at) && c.trace.iter().any(|t| t == "@link"));
                check(found, "C31: a wrong link is not reported at its place");
            }
            cover("wrong links");
        }
        Err(e) => {
            let got = told(&e);
            let mut want = Told::new();
            if scripts > 1 {
                want.insert("Only one script link is allowed".into());
            }
            if keys > 1 {
                want.insert("Only one key link is allowed".into());
            }
            check(!want.is_empty(), "C31: usable links are refused");
            check(!got.is_empty() && got.is_subset(&want), "C31: links are refused for another reason");
            cover("too many links");
        }
    }
}
pub extern "C" fn h_c31_links() {
    links(3)
}

// ---- the format of a file

pub extern "C" fn h_c31_source() {
    let stem = ["", "a", "a.b", "d.e/", "d.e/a", "/x/y.json", "."][choose(7) as usize];
    let exts: [(&str, u8); 5] = [("json", 0), ("yml", 1), ("yaml", 1), ("graphql", 2), ("gql", 2)];
    let (ext, kind) = exts[choose(5) as usize];
    let mut e: Vec<u8> = ext.bytes().map(|b| if choose_bool() { b.to_ascii_uppercase() } else { b }).collect();
    let exact = match choose(4) {
        0 | 1 => true,
        2 => {
            let at = choose(e.len() as u8) as usize;
            let b = byte_of(b"jyYgaJxX");
            let same = e[at].eq_ignore_ascii_case(&b);
            // leave out what reads as another one
            assume(!(ext == "yml" && at == 1 && b == b'a'));
            e[at] = b;
            same
        }
        _ => {
            e.push(byte_of(b"nlx"));
            false
        }
    };
    let e = String::from_utf8(e).unwrap();
    let direct: Result<Source, SourceError> = e.parse();
    match &direct {
        Ok(s) => {
            let want = ["json", "yml", "graphql"][kind as usize];
            check(exact && s.ext() == want, "C31: a file is read as another format");
            cover("format");
        }
        Err(x) => {
            check(!exact, "C31: a known format is refused");
            check(*x == SourceError::UnsupportedFileFormat(e.clone()), "C31: the unknown format is not named");
            cover("no format");
        }
    }
    let name = format!("{stem}.{e}");
    let bare = stem.is_empty() || stem.ends_with('/');
    match (Source::detect(&name), direct) {
        (Err(x), _) if bare => check(x == SourceError::InvalidPath(name), "C31: a file without a format is not named"),
        (Ok(a), Ok(b)) => check(!bare && a.ext() == b.ext(), "C31: the format of a file is not that of its extension"),
        (Err(a), Err(b)) => check(a == b, "C31: the unknown format of a file is not named"),
        _ => check(false, "C31: the format of a file is not that of its extension"),
    }
}

// ---- templates

/// (type, field, its type, may it be null, is it a list)
const FIELDS: [(&str, &str, &str, bool, bool); 16] = [
    ("P", "id", "ID", false, false),
    ("P", "n", "Int", true, false),
    ("P", "l", "Int", false, true),
    ("P", "o", "O", false, false),
    ("P", "on", "O", true, false),
    ("P", "e", "E", false, false),
    ("P", "s", "Sc", false, false),
    ("P", "d", "Date", false, false),
    ("O", "id", "String", false, false),
    ("O", "n", "String", true, false),
    ("O", "o", "O", false, false),
    ("I", "id", "Int", false, false),
    ("I", "n", "I", true, false),
    ("I", "e", "E", true, false),
    ("I", "s", "Sc", true, false),
    ("I", "l", "I", false, true),
];
/// (argument, its type, may it be null, is it a list)
const ARGS: [(&str, &str, bool, bool); 7] = [
    ("id", "Int", false, false),
    ("n", "Int", true, false),
    ("z", "Int", true, false),
    ("l", "Int", false, true),
    ("o", "I", false, false),
    ("e", "E", false, false),
    ("s", "Sc", false, false),
];
fn field(ty: &str, name: &str) -> Option<&'static (&'static str, &'static str, &'static str, bool, bool)> {
    FIELDS.iter().find(|x| x.0 == ty && x.1 == name)
}
fn object(ty: &str) -> bool {
    matches!(ty, "P" | "O" | "I")
}
/// what is wrong with a value the template takes from the object that is resolved
fn value_fault(path: &[&str], query: bool) -> Option<String> {
    let mut ty = "P";
    for (i, x) in path.iter().enumerate() {
        let Some(f) = field(ty, x) else {
            return Some(format!("no value '{}' found", path[..=i].join(".")));
        };
        if !query && f.3 {
            return Some(format!("value '{x}' is a nullable type"));
        }
        if i + 1 == path.len() {
            return (object(f.2) || f.2 == "E").then(|| format!("value '{x}' is not of a scalar type"));
        }
        if !object(f.2) {
            // a scalar that is declared has no fields, one that is built in is no type
            return Some(if f.2 == "Sc" { format!("no value '{}' found", path[..=i + 1].join(".")) } else { format!("no type '{}' found", path.join(".")) });
        }
        ty = f.2;
    }
    None
}
fn fault(parts: &[&str], query: bool) -> Option<String> {
    if parts.len() < 2 {
        return Some("too few parts in template".into());
    }
    let name = parts[1];
    match parts[0] {
        "value" => value_fault(&parts[1..], query),
        "args" => match ARGS.iter().find(|x| x.0 == name) {
            None => Some(format!("no argument '{name}' found")),
            Some(a) if !query && a.3 => Some(format!("can't use list type '{name}' here")),
            Some(a) if !query && a.2 && a.0 != "z" => Some(format!("argument '{name}' is a nullable type")),
            Some(_) => None,
        },
        "vars" => (name != "v").then(|| format!("var '{name}' is not set in the server config")),
        "headers" | "env" => None,
        x => Some(format!("unknown template directive '{x}'")),
    }
}
/// what is wrong with an argument used in the query of a request
fn argument_fault(parts: &[&str]) -> Option<String> {
    if parts[0] != "args" {
        return None;
    }
    if parts.len() < 2 {
        return Some("too few parts in template".into());
    }
    let Some(a) = ARGS.iter().find(|x| x.0 == parts[1]) else {
        return Some(format!("no argument '{}' found", parts[1]));
    };
    let mut ty = a.1;
    for x in &parts[2..] {
        if !object(ty) {
            return None;
        }
        match field(ty, x) {
            None => return Some(format!("field {x} not found")),
            Some(f) => ty = f.2,
        }
    }
    object(ty).then(|| format!("value '{ty}' is not of a scalar type"))
}
const NAMES: [&str; 11] = ["id", "n", "z", "l", "o", "on", "e", "s", "d", "v", "q"];
fn template(long: u8) -> Vec<&'static str> {
    let head = ["value", "args", "vars", "headers", "env", "foo"][choose(6) as usize];
    let n = 1 + choose(long);
    let mut t = vec![head];
    for i in 1..n {
        // the tail of those that are not looked into does not matter
        if i > 1 && !matches!(head, "value" | "args") {
            reject();
        }
        t.push(NAMES[choose(NAMES.len() as u8) as usize]);
    }
    t
}
fn world(directive: &str) -> String {
    let of = |f: &(&str, &str, &str, bool, bool)| {
        let t = if f.4 { format!("[{}!]", f.2) } else { f.2.to_string() };
        format!("{}: {}{} ", f.1, t, if f.3 { "" } else { "!" })
    };
    let fields = |ty: &str| FIELDS.iter().filter(|x| x.0 == ty).map(of).collect::<String>();
    format!(
        "schema @server(vars: [{{key: \"v\", value: \"1\"}}]) {{query: Query}} scalar Sc enum E {{A}} type Query {{p: P @http(url: \"http://u/p\")}}
         type P {{{} f(id: Int!, n: Int, z: Int = 1, l: [Int!]!, o: I!, e: E!, s: Sc!): Int {directive}}} type O {{{}}} input I {{{}}}",
        fields("P"),
        fields("O"),
        fields("I")
    )
}
fn mustache(t: &[&str]) -> String {
    format!("{{{{.{}}}}}", t.join("."))
}
fn at_most(a: Option<String>, b: Option<String>) -> Told {
    a.into_iter().chain(b).collect()
}
pub extern "C" fn h_c31_path() {
    let t = template(4);
    let d = format!("@http(url: \"http://u/x/{}/{{{{.value.id}}}}\")", mustache(&t));
    refused(compiled(read(&world(&d))), &at_most(fault(&t, false), None));
}
pub extern "C" fn h_c31_query() {
    let t = template(4);
    let d = format!("@http(url: \"http://u/x\", query: [{{key: \"c\", value: \"c\"}}, {{key: \"k\", value: \"a{}\"}}])", mustache(&t));
    let first = argument_fault(&t);
    let want = if first.is_some() { first } else { fault(&t, true) };
    refused(compiled(read(&world(&d))), &at_most(want, None));
}
/// several templates of one request, each with its own fault
pub extern "C" fn h_c31_several() {
    let heads = [["value", "q"], ["value", "o"], ["args", "q"], ["args", "n"], ["vars", "w"], ["foo", "a"], ["value", "id"], ["args", "o"]];
    let (a, b, c) = (heads[choose(8) as usize], heads[choose(8) as usize], heads[choose(8) as usize]);
    let d = format!(
        "@http(url: \"http://u/{}\", query: [{{key: \"k\", value: \"{}\"}}, {{key: \"j\", value: \"{}\"}}])",
        mustache(&a),
        mustache(&b),
        mustache(&c)
    );
    let mut want = at_most(argument_fault(&b), argument_fault(&c));
    if want.is_empty() {
        want = at_most(fault(&b, true), fault(&c, true));
        want.extend(fault(&a, false));
    }
    refused(compiled(read(&world(&d))), &want);
}
/// templates of a request to a GraphQL upstream
pub extern "C" fn h_c31_graphql() {
    let (t, n) = (template(3), choose(3));
    let other = [vec!["args", "id"], vec!["value", "q"]][choose(2) as usize].clone();
    let (h, a) = match n {
        0 => (t, other),
        _ => (other, t),
    };
    let d = format!(
        "@graphQL(url: \"http://u/g\", name: \"f\", headers: [{{key: \"x-h\", value: \"{}\"}}], args: [{{key: \"k\", value: \"{}\"}}])",
        mustache(&h),
        mustache(&a)
    );
    let first = fault(&h, true);
    let want = if first.is_some() { first } else { fault(&a, true) };
    refused(compiled(read(&world(&d))), &at_most(want, None));
}

// ---- batching

pub extern "C" fn h_c31_batch() {
    let delay = choose(3);
    let size = choose(3);
    let upstream = match (delay, size) {
        (0, 0) => String::new(),
        (0, s) => format!("@upstream(batch: {{delay: 0, maxSize: {}}})", s - 1),
        (d, 0) => format!("@upstream(batch: {{delay: {}}})", d - 1),
        (d, s) => format!("@upstream(batch: {{delay: {}, maxSize: {}}})", d - 1, s - 1),
    };
    let (delay, size) = (if delay == 2 { 1 } else { 0 }, if size == 1 { 0 } else { 1 });
    let bodies = [("", 0), ("body: {}", 0), ("body: {a: \"x\", n: 1}", 0), ("body: {a: \"{{.value.id}}\"}", 1), ("body: {a: \"{{.value.id}}\", b: {c: [\"x{{.value.id}}\"]}}", 2), ("body: [[{a: [\"{{.value.id}}\"], b: true}]]", 1), ("body: \"{{.value.id}}\"", 1)];
    let (body, dynamic) = bodies[choose(7) as usize];
    let (post, query, batched) = (choose_bool(), choose_bool(), choose_bool());
    let mut d = String::from("@http(url: \"http://u/x\"");
    if post {
        d.push_str(", method: POST");
    }
    if query {
        d.push_str(", query: [{key: \"id\", value: \"{{.value.id}}\"}]");
    }
    if !body.is_empty() {
        d.push_str(", ");
        d.push_str(body);
    }
    if batched {
        d.push_str(", batchKey: [\"id\"]");
    }
    d.push(')');
    let mut want = Told::new();
    if batched {
        if delay < 1 || size < 1 {
            want.insert("Batching capability was used without enabling it in upstream".into());
        }
        if body.is_empty() && !query {
            want.insert("batchKey requires either body or query parameters".into());
        }
        if want.is_empty() && (!body.is_empty() || post) && dynamic != 1 {
            want.insert("Request body batching requires exactly one dynamic value in the body.".into());
        }
    }
    let sdl = format!("schema {upstream} {{query: Query}} type Query {{p: P @http(url: \"http://u/p\")}} type P {{id: ID! f: Int {d}}}");
    refused(compiled(read(&sdl)), &want);
}

// ---- what is served at all

const HTTP: &str = "@http(url: \"http://u/x\")";
pub extern "C" fn h_c31_roots() {
    // the type of two fields of the root and of one of each nested type, and whether they have a resolver
    let kinds = ["Int", "T", "U", "E", "Sc", "X", "[T!]!", "N"];
    let pick = |n: &[u8]| (kinds[n[choose(n.len() as u8) as usize] as usize], choose_bool());
    let a = pick(&[0, 1, 2, 3, 4, 6, 7]);
    let b = pick(&[0, 1]);
    let t = pick(&[0, 1, 2, 5]);
    let u = pick(&[0, 1, 4]);
    let f = |x: (&str, bool)| format!("{} {}", x.0, if x.1 { HTTP } else { "" });
    let sdl = format!(
        "schema {{query: Query}} enum E {{A}} scalar Sc union N = T | U type Query {{a: {} b: {}}} type T {{x: {}}} type U {{y: {}}}",
        f(a),
        f(b),
        f(t),
        f(u)
    );
    let mut want = Told::new();
    if t.0 == "X" {
        want.insert("Undeclared type 'X' was found".into());
    }
    fn bare<'a>(x: (&'a str, bool), t: (&'a str, bool), u: (&'a str, bool), seen: &mut Vec<&'a str>) -> bool {
        if x.1 {
            return false;
        }
        let name = x.0.trim_matches(|c| "[]!".contains(c));
        if seen.contains(&name) {
            return false;
        }
        match name {
            "T" | "U" => {
                seen.push(name);
                bare(if name == "T" { t } else { u }, t, u, seen)
            }
            _ => true,
        }
    }
    if bare(a, t, u, &mut vec![]) || bare(b, t, u, &mut vec![]) {
        want.insert("No resolver has been found in the schema".into());
    }
    refused(compiled(read(&sdl)), &want);
}
pub extern "C" fn h_c31_schema() {
    let mut c = read(&format!("schema {{query: Query}} type Query {{a: Int {HTTP} e: E {HTTP}}} type M {{a: Int}} type N {{a: Int {HTTP}}} enum E {{A}}"));
    let mut want = Told::new();
    match choose(4) {
        0 => {
            c.schema.query = None;
            want.insert("Query root is missing".into());
        }
        1 => {
            c.schema.query = Some("Q".into());
            want.insert("Query type is not defined".into());
        }
        _ => {}
    }
    match choose(5) {
        0 => {
            c.schema.mutation = Some("Mutation".into());
            want.insert("Mutation type is not defined".into());
        }
        1 => {
            c.schema.mutation = Some("M".into());
            want.insert("No resolver has been found in the schema".into());
        }
        2 => c.schema.mutation = Some("N".into()),
        _ => {}
    }
    match choose(4) {
        0 => {
            c.types.insert("Int".into(), Default::default());
            want.insert("Scalar type Int is predefined".into());
        }
        1 => {
            c.types.insert("Email".into(), Default::default());
            want.insert("Scalar type Email is predefined".into());
        }
        2 => {
            c.types.insert("Mail".into(), Default::default());
        }
        _ => {}
    }
    if choose_bool() {
        c.enums.insert("E".into(), Enum { variants: BTreeSet::new(), doc: None });
        want.insert("No variants found for enum".into());
    }
    refused(compiled(c), &want);
}

// ---- the server's settings

fn server(f: impl Fn(&mut Config)) -> Result<Server, ValidationError<BlueprintError>> {
    let mut c = Config::default();
    f(&mut c);
    Server::try_from(ConfigModule::from(c))
}
fn header_byte(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
pub extern "C" fn h_c31_headers() {
    let n = choose(3) as usize;
    let name = string_of(b"aX-: \x7f\n!", n);
    let m = choose(3) as usize;
    let value = string_of(b"a \t\x00\n\x7f~", m);
    let first = choose_bool();
    let good = KeyValue { key: "x-a".into(), value: "b".into() };
    let bad = KeyValue { key: name.clone(), value: value.clone() };
    let got = server(|c| {
        let mut h = tailcall::core::config::symex::Headers::default();
        h.custom = if first { vec![bad.clone(), good.clone()] } else { vec![good.clone(), bad.clone()] };
        c.server.headers = Some(h);
    });
    let name_ok = !name.is_empty() && name.bytes().all(header_byte);
    let value_ok = value.bytes().all(|b| b == b'\t' || (b >= 32 && b != 127));
    match got {
        Ok(s) => {
            check(name_ok && value_ok, "C31: a header that is none is accepted");
            let lower = name.to_ascii_lowercase();
            let got = s.response_headers.iter().find(|(k, _)| k.as_str() == lower);
            check(got.map_or(false, |(_, v)| v.as_bytes() == value.as_bytes()), "C31: a configured header is lost");
            check(s.response_headers.get("x-a").map(|x| x.as_bytes()) == Some(b"b"), "C31: another configured header is lost");
            cover("header");
        }
        Err(e) => {
            check(!(name_ok && value_ok), "C31: a usable header is refused");
            let at = |c: &Cause<BlueprintError>| c.trace.iter().any(|t| t == "headers");
            check(e.as_vec().len() == (!name_ok) as usize + (!value_ok) as usize, "C31: another number of faults of a header");
            check(e.as_vec().iter().all(at), "C31: a fault of a header is reported elsewhere");
            cover("no header");
        }
    }
}
pub extern "C" fn h_c31_experimental() {
    let n = choose(5) as usize;
    // the header is a key of a hash map
    let name = conc_string_of(b"xX-y :", n);
    let got = server(|c| {
        let mut h = tailcall::core::config::symex::Headers::default();
        h.experimental = Some([name.clone()].into());
        c.server.headers = Some(h);
    });
    let b = name.as_bytes();
    let prefix = b.len() >= 2 && (b[0] == b'x' || b[0] == b'X') && b[1] == b'-';
    let ok = prefix && b.iter().all(|x| header_byte(*x));
    match got {
        Ok(s) => {
            check(ok, "C31: an experimental header that is none is accepted");
            check(s.experimental_headers.iter().any(|x| x.as_str() == name.to_ascii_lowercase()), "C31: an experimental header is lost");
            cover("experimental");
        }
        Err(e) => {
            check(!ok, "C31: an experimental header is refused");
            check(e.as_vec().len() == 1, "C31: another number of faults of an experimental header");
            if !prefix {
                check(e.as_vec()[0].message.to_string() == format!("Experimental headers must start with 'x-' or 'X-'. Got: '{name}'"), "C31: the experimental header is not named");
            }
            cover("not experimental");
        }
    }
}
pub extern "C" fn h_c31_server() {
    let hosts = ["", "localhost", "LocalHost", "127.0.0.1", "0.0.0.0", "::1", "1.2.3", "a.b", "localhost ", "1.2.3.4.5"];
    let host = choose(10) as usize;
    let version = choose(3);
    let refs = ["a@b", "a-1_@B", "a", "@", "a@", "a@b@c", "a b@c"];
    let graph = choose(8) as usize;
    let urls = ["http://u/x", "u", ""];
    let otlp = choose(4) as usize;
    let got = {
        let mut c = read(&format!("schema {{query: Query}} type Query {{a: Int {HTTP}}}"));
        if host > 0 {
            c.server.hostname = Some(hosts[host].into());
        }
        c.server.version = [None, Some(HttpVersion::HTTP1), Some(HttpVersion::HTTP2)][version as usize].clone();
        use tailcall::core::config::{Apollo, OtlpExporter, TelemetryExporter};
        if graph > 0 {
            assume(otlp == 0);
            c.telemetry.export = Some(TelemetryExporter::Apollo(Apollo { api_key: "k".into(), graph_ref: refs[graph - 1].into(), user_version: None, platform: None, version: None }));
        } else if otlp > 0 {
            c.telemetry.export = Some(TelemetryExporter::Otlp(OtlpExporter { url: urls[otlp - 1].into(), headers: vec![] }));
        }
        compiled(c)
    };
    let host_ok = host < 6;
    let graph_ok = graph < 3;
    let otlp_ok = otlp < 2;
    let want = (!graph_ok) as usize + (!otlp_ok) as usize + if version == 2 { 1 } else { (!host_ok) as usize };
    match got {
        Ok(b) => {
            check(want == 0, "C31: settings that cannot be served are accepted");
            if host > 0 {
                let ip = if host < 3 { "127.0.0.1" } else { hosts[host] };
                check(b.server.hostname.to_string() == ip, "C31: another host is served");
            }
            cover("settings");
        }
        Err(e) => {
            if e.as_vec().len() != want {
                print(&format!("{e} want {want}"));
            }
            check(e.as_vec().len() == want, "C31: another number of faults of the settings");
            let got = told(&e);
            if version == 2 {
                check(got.contains("Certificate is required for HTTP2"), "C31: the missing certificate is not reported");
            }
            if !graph_ok {
                check(got.iter().any(|x| x.contains("`graph_ref` should be in the format") && x.ends_with(refs[graph - 1])), "C31: the wrong reference is not named");
            }
            cover("wrong settings");
        }
    }
}

// ---- faults all over a configuration

/// (where, text, what is reported)
const FAULTS: &[(u8, &str, &[&str])] = &[
    (0, "f: Int @http(url: \"http://u/x/{{.args.q}}\")", &["no argument 'q' found"]),
    (0, "f: Int @http(url: \"http://u/x\", batchKey: [\"id\"], query: [{key: \"id\", value: \"1\"}])", &["Batching capability was used without enabling it in upstream"]),
    (0, "f: Int @js(name: \"x\")", &["script is required"]),
    (0, "f: Int @call(steps: [])", &["Steps can't be empty"]),
    (0, "f: Int @call(steps: [{}])", &["call must have query or mutation"]),
    (0, "f: Int @call(steps: [{query: \"nope\"}])", &["Cannot find field nope in the type"]),
    (0, "f: Int @call(steps: [{mutation: \"ok\"}])", &["Cannot find type Mutation in the config"]),
    (0, "f: Int @call(steps: [{query: \"arg\"}])", &["no argument ''n'' found"]),
    (0, "f: Int @call(steps: [{query: \"arg\", args: {n: 1}}])", &[]),
    (0, "f: Int @call(steps: [{query: \"ok\"}, {query: \"nope\"}])", &["Cannot find field nope in the type"]),
    (0, "f: Int @expr(body: \"x\")", &["expected number"]),
    (0, "f: Int @expr(body: 5)", &[]),
    (0, "f: Int @expr(body: \"{{.args.q}}\")", &[]),
    (0, "f: [Int!] @expr(body: [1, \"x\"])", &["expected number"]),
    (0, "f: T @expr(body: {x: 1})", &[]),
    (0, "f: T @expr(body: {x: []})", &["expected number"]),
    (0, "f: Int @protected @http(url: \"http://u/x\")", &["@protected operator is used but there is no @link definitions for auth providers"]),
    (0, "f: S @http(url: \"http://u/x\")", &[]),
    (0, "f: Nope @http(url: \"http://u/x\")", &["Undeclared type 'Nope' was found"]),
    (0, "f: Int", &["No resolver has been found in the schema"]),
    (0, "f: Int @grpc(method: \"a.b.C\", url: \"http://u\")", &["Protobuf files were not specified in the config"]),
    (0, "f: Int @grpc(method: \"a\", url: \"http://u\")", &["Invalid method format: a. Expected format is <package>.<service>.<method>"]),
    (1, "type V implements W {a: Int b: Int @modify(name: \"a\")} interface W {a: Int}", &["Field is already implemented from interface"]),
    (1, "type V implements W {a: Int b: Int @modify(name: \"c\")} interface W {a: Int}", &[]),
    (1, "type V @addField(name: \"k\", path: [\"t\", \"x\"]) {t: T}", &[]),
    (1, "type V @addField(name: \"k\", path: [\"t\", \"y\"]) {t: T}", &["Cannot add field"]),
    (1, "type V @addField(name: \"k\", path: [\"q\", \"y\"]) {t: T}", &["Could not find field q in path q,y"]),
    (1, "type V @addField(name: \"k\", path: []) {t: T}", &["Could not find field  in path "]),
    (1, "type V @addField(name: \"k\", path: [\"t\", \"r\"]) {t: R} type R {r: Int @http(url: \"http://u/x\")}", &["Cannot add field"]),
    (1, "type V @addField(name: \"k\", path: [\"t\", \"0\", \"x\"]) {t: [T]}", &[]),
    (1, "type V {k: Nope}", &["Undeclared type 'Nope' was found"]),
    (1, "scalar Email", &["Scalar type Email is predefined"]),
    (1, "scalar Mine", &[]),
    (2, "@link(src: \"\", type: Config)", &["Link src cannot be empty"]),
    (2, "@link(src: \"a\", type: Script) @link(src: \"b\", type: Script)", &["Only one script link is allowed"]),
    (2, "@link(src: \"a\", id: \"x\", type: Config) @link(src: \"b\", id: \"x\", type: Htpasswd)", &["Duplicated id: x"]),
    (2, "@server(hostname: \"a.b\")", &["Parsing failed because of invalid IP address syntax"]),
    (2, "@server(headers: {cors: {allowCredentials: true, allowOrigins: [\"*\"], allowMethods: [GET]}})", &["Invalid CORS configuration: Cannot combine `Access-Control-Allow-Credentials: true` with `Access-Control-Allow-Origin: *`"]),
    (2, "@telemetry(export: {otlp: {url: \"u\"}})", &["relative URL without a base"]),
    (2, "@server(port: 1)", &[]),
];
fn faults(n: usize) {
    let mut at: Vec<usize> = vec![];
    for i in 0..n {
        let from = at.last().map_or(0, |x: &usize| *x + 1);
        if i > 0 && choose_bool() {
            break;
        }
        let k = choose(FAULTS.len() as u8) as usize;
        assume(k >= from);
        at.push(k);
    }
    let (mut fields, mut types, mut schema) = (String::new(), String::new(), String::new());
    let mut want = Told::new();
    let mut used = [false; 3];
    for (i, k) in at.iter().enumerate() {
        let (place, text, what) = FAULTS[*k];
        if place > 0 {
            // one type of a name, one setting of a directive
            assume(!used[place as usize]);
            used[place as usize] = true;
        }
        match place {
            0 => fields.push_str(&format!(" {}", text.replacen("f:", &format!("f{i}:"), 1))),
            1 => types.push_str(&format!(" {text}")),
            _ => schema.push_str(&format!(" {text}")),
        }
        want.extend(what.iter().map(|x| x.to_string()));
    }
    let sdl = format!(
        "schema {schema} {{query: Query}} type Query {{ok: Int {HTTP} arg(n: Int!): Int @http(url: \"http://u/{{{{.args.n}}}}\"){fields}}} type T {{x: Int}} scalar S{types}"
    );
    let got = compiled(read(&sdl));
    refused(got, &want);
}
pub extern "C" fn h_c31_faults() {
    faults(2)
}
pub extern "C" fn h_c31_faults_deep() {
    faults(3)
}

// ---- passing causes on

pub extern "C" fn h_c31_causes() {
    let n = 1 + choose(2);
    let mut causes = vec![];
    let mut model = vec![];
    for _ in 0..n {
        let m = string_of(b"ab", 1);
        let d = if choose_bool() { Some(string_of(b"ab", 1)) } else { None };
        let t: Vec<String> = (0..choose(3)).map(|_| string_of(b"ab", 1)).collect();
        let mut c = Cause::new(m.clone()).trace(t.clone());
        c.description = d.clone();
        causes.push(c);
        model.push((m, d, t));
    }
    let same = |c: (String, Option<String>, Vec<String>), i: usize| {
        check(c.0 == model[i].0, "C31: the message of a cause changes");
        check(c.1 == model[i].1, "C31: the description of a cause changes");
        check(c.2 == model[i].2, "C31: the trace of a cause changes");
    };
    let plain = |c: &Cause<BlueprintError>| (c.message.to_string(), c.description.as_ref().map(|x| x.to_string()), c.trace.iter().cloned().collect::<Vec<_>>());
    let e = ValidationError::from(causes.clone());
    let a = BlueprintError::from_validation_string(e.clone());
    check(a.as_vec().len() == n as usize, "C31: another number of causes");
    for (i, c) in a.as_vec().iter().enumerate() {
        same(plain(c), i);
    }
    let b = BlueprintError::to_validation_string(a);
    check(b == e, "C31: causes do not survive being passed on");
    let strs: Vec<Cause<&str>> = causes
        .iter()
        .map(|c| {
            let mut x = Cause::new(c.message.as_str()).trace(c.trace.iter().cloned().collect());
            x.description = c.description.as_deref();
            x
        })
        .collect();
    let a = BlueprintError::from_validation_str(ValidationError::from(strs));
    check(a.as_vec().len() == n as usize, "C31: another number of causes");
    for (i, c) in a.as_vec().iter().enumerate() {
        same(plain(c), i);
    }
    let text = tailcall::core::Errata::from(a).to_string();
    for (m, _, _) in &model {
        check(text.contains(m.as_str()), "C31: a cause is not shown");
    }
    cover("passed on");
}

pub extern "C" fn h_c31_group_by() {
    let n = choose(3);
    let path: Vec<String> = (0..n).map(|_| string_of(b"ai", 1)).collect();
    let key = if choose_bool() { Some(string_of(b"ak", 1)) } else { None };
    let g = GroupBy::new(path.clone(), key.clone());
    let p = g.path();
    check(if path.is_empty() { p.len() == 1 && p[0] == "id" } else { p == path }, "C31: grouped by another path");
    let want = key.clone().unwrap_or_else(|| path.last().cloned().unwrap_or_else(|| "id".into()));
    check(g.key() == want, "C31: grouped by another key");
    cover("grouped");
}

crate::harnesses!(h_c31_links, h_c31_source, h_c31_path, h_c31_query, h_c31_several, h_c31_graphql, h_c31_batch, h_c31_roots, h_c31_schema, h_c31_headers, h_c31_experimental, h_c31_server, h_c31_faults, h_c31_faults_deep, h_c31_causes, h_c31_group_by);
