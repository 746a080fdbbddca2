//! what a resolver sees when its templates are rendered
use crate::env;
use crate::util::*;
use async_graphql_value::Name;
use indexmap::IndexMap;
use tailcall::core::http::RequestContext;
use tailcall::core::ir::{EvalContext, ResolverContextLike, SelectionField};

#[derive(Clone)]
pub struct G {
    pub value: Option<GV>,
    pub args: Option<IndexMap<Name, GV>>,
}
impl ResolverContextLike for G {
    fn value(&self) -> Option<&GV> {
        self.value.as_ref()
    }
    fn args(&self) -> Option<&IndexMap<Name, GV>> {
        self.args.as_ref()
    }
    fn field(&self) -> Option<SelectionField> {
        None
    }
    fn is_query(&self) -> bool {
        true
    }
    fn add_error(&self, _: async_graphql::ServerError) {}
}
#[derive(Default, Clone)]
pub struct World {
    pub value: Option<J>,
    /// an object
    pub args: Option<J>,
    pub vars: Vec<(String, String)>,
    pub headers: Vec<(String, String)>,
    pub env: Vec<(String, String)>,
}
pub enum Found {
    Not,
    Text(String),
    Val(J),
}
pub fn pair(k: &str, v: &str) -> (String, String) {
    (k.to_string(), v.to_string())
}
fn lookup(l: &[(String, String)], k: &str) -> Found {
    match l.iter().find(|x| x.0 == k) {
        Some(x) => Found::Text(x.1.clone()),
        None => Found::Not,
    }
}
impl World {
    /// the value at a path
    pub fn at(&self, path: &[&str]) -> Found {
        let Some((head, tail)) = path.split_first() else { return Found::Not };
        let of = |j: &Option<J>| match j.as_ref().and_then(|j| j.at(tail)) {
            Some(j) => Found::Val(j.clone()),
            None => Found::Not,
        };
        match (*head, tail) {
            ("value", _) => of(&self.value),
            ("args", _) => of(&self.args),
            ("vars", []) => Found::Text(J::Obj(self.vars.iter().map(|(k, v)| (k.clone(), J::Str(v.clone()))).collect()).json()),
            ("vars", [k]) => lookup(&self.vars, k),
            ("env", [k]) => lookup(&self.env, k),
            ("headers", [k]) => match self.headers.iter().find(|x| x.0.eq_ignore_ascii_case(k)) {
                Some(x) => Found::Text(x.1.clone()),
                None => Found::Not,
            },
            _ => Found::Not,
        }
    }
    /// its text: nothing for null
    pub fn text(&self, path: &[&str]) -> Option<String> {
        match self.at(path) {
            Found::Not | Found::Val(J::Null) => None,
            Found::Text(s) | Found::Val(J::Str(s)) => Some(s),
            Found::Val(j) => Some(j.json()),
        }
    }
    /// a rendered template
    pub fn template(&self, t: &str) -> String {
        let mut out = String::new();
        let mut rest = t;
        while let Some(i) = rest.find("{{.") {
            out.push_str(&rest[..i]);
            let j = rest.find("}}").unwrap();
            let path: Vec<&str> = rest[i + 3..j].split('.').collect();
            out.push_str(&self.text(&path).unwrap_or_default());
            rest = &rest[j + 2..];
        }
        out.push_str(rest);
        out
    }
    pub fn with<R>(&self, f: impl FnOnce(&EvalContext<'_, G>) -> R) -> R {
        let mut r = RequestContext::new(env::runtime(env::Http::none(), self.env.clone()));
        r.server.vars = self.vars.iter().cloned().collect();
        for (k, v) in &self.headers {
            r.allowed_headers.append(http::HeaderName::from_bytes(k.as_bytes()).unwrap(), http::HeaderValue::from_str(v).unwrap());
        }
        let g = G {
            value: self.value.as_ref().map(|x| x.gql()),
            args: self.args.as_ref().map(|x| match x.gql() {
                GV::Object(o) => o,
                _ => Default::default(),
            }),
        };
        f(&EvalContext::new(&r, &g))
    }
}

/// a text as GraphQL writes it
pub fn literal(j: &J, out: &mut String) {
    match j {
        J::Str(s) => {
            out.push('"');
            for c in s.chars() {
                match c {
                    '"' => out.push_str("\\\""),
                    '\\' => out.push_str("\\\\"),
                    '\n' => out.push_str("\\n"),
                    c => out.push(c),
                }
            }
            out.push('"');
        }
        J::List(l) => {
            out.push('[');
            for (i, x) in l.iter().enumerate() {
                out.push_str(if i > 0 { ", " } else { "" });
                literal(x, out);
            }
            out.push(']');
        }
        J::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                out.push_str(if i > 0 { ", " } else { "" });
                out.push_str(k);
                out.push_str(": ");
                literal(x, out);
            }
            out.push('}');
        }
        j => out.push_str(&j.json()),
    }
}
