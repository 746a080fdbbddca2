//! a plain JSON model, the inputs built from it, and what one can say about it
use crate::rt::*;
use async_graphql_value::{ConstValue, Name, Value as QValue};
use indexmap::IndexMap;
use serde_json_borrow::{ObjectAsVec, Value as BValue};
use std::borrow::Cow;

#[derive(Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Str(String),
    List(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub type SV = serde_json::Value;
pub type GV = ConstValue;
impl J {
    pub fn serde(&self) -> SV {
        match self {
            J::Null => SV::Null,
            J::Bool(b) => SV::Bool(*b),
            J::Int(i) => SV::Number((*i).into()),
            J::UInt(i) => SV::Number((*i).into()),
            J::Float(f) => SV::Number(serde_json::Number::from_f64(*f).unwrap()),
            J::Str(s) => SV::String(s.clone()),
            J::List(l) => SV::Array(l.iter().map(|x| x.serde()).collect()),
            J::Obj(o) => {
                let mut m = serde_json::Map::new();
                for (k, v) in o {
                    m.insert(k.clone(), v.serde());
                }
                SV::Object(m)
            }
        }
    }
    pub fn gql(&self) -> GV {
        match self {
            J::Null => GV::Null,
            J::Bool(b) => GV::Boolean(*b),
            J::Int(i) => GV::Number((*i).into()),
            J::UInt(i) => GV::Number((*i).into()),
            J::Float(f) => GV::Number(serde_json::Number::from_f64(*f).unwrap()),
            J::Str(s) => GV::String(s.clone()),
            J::List(l) => GV::List(l.iter().map(|x| x.gql()).collect()),
            J::Obj(o) => {
                let mut m = IndexMap::new();
                for (k, v) in o {
                    m.insert(Name::new(k), v.gql());
                }
                GV::Object(m)
            }
        }
    }
    pub fn qval(&self) -> QValue {
        match self {
            J::Null => QValue::Null,
            J::Bool(b) => QValue::Boolean(*b),
            J::Int(i) => QValue::Number((*i).into()),
            J::UInt(i) => QValue::Number((*i).into()),
            J::Float(f) => QValue::Number(serde_json::Number::from_f64(*f).unwrap()),
            J::Str(s) => QValue::String(s.clone()),
            J::List(l) => QValue::List(l.iter().map(|x| x.qval()).collect()),
            J::Obj(o) => {
                let mut m = IndexMap::new();
                for (k, v) in o {
                    m.insert(Name::new(k), v.qval());
                }
                QValue::Object(m)
            }
        }
    }
    pub fn borrow(&self) -> BValue<'_> {
        match self {
            J::Null => BValue::Null,
            J::Bool(b) => BValue::Bool(*b),
            // as the parser does: only negative numbers are made from i64
            J::Int(i) if *i >= 0 => BValue::Number((*i as u64).into()),
            J::Int(i) => BValue::Number((*i).into()),
            J::UInt(i) => BValue::Number((*i).into()),
            J::Float(f) => BValue::Number((*f).into()),
            J::Str(s) => BValue::Str(Cow::Borrowed(s.as_str())),
            J::List(l) => BValue::Array(l.iter().map(|x| x.borrow()).collect()),
            J::Obj(o) => BValue::Object(ObjectAsVec::from(o.iter().map(|(k, v)| (k.as_str(), v.borrow())).collect::<Vec<(&str, BValue)>>())),
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn at(&self, path: &[&str]) -> Option<&J> {
        let mut v = self;
        for p in path {
            v = match v {
                J::Obj(_) => v.get(p)?,
                J::List(l) => l.get(dec(p)?)?,
                _ => return None,
            };
        }
        Some(v)
    }
    /// compact JSON text (strings without characters that need escapes)
    pub fn text(&self, out: &mut Vec<u8>) {
        match self {
            J::Null => out.extend(b"null"),
            J::Bool(true) => out.extend(b"true"),
            J::Bool(false) => out.extend(b"false"),
            J::Int(i) => out.extend(i.to_string().bytes()),
            J::UInt(i) => out.extend(i.to_string().bytes()),
            J::Float(f) => out.extend(format!("{f:?}").bytes()),
            J::Str(s) => {
                out.push(b'"');
                for b in s.bytes() {
                    if b == b'"' || b == b'\\' || b == b'\n' {
                        out.push(b'\\');
                    }
                    out.push(if b == b'\n' { b'n' } else { b });
                }
                out.push(b'"');
            }
            J::List(l) => {
                out.push(b'[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    x.text(out);
                }
                out.push(b']');
            }
            J::Obj(o) => {
                out.push(b'{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    J::Str(k.clone()).text(out);
                    out.push(b':');
                    x.text(out);
                }
                out.push(b'}');
            }
        }
    }
    pub fn json(&self) -> String {
        let mut v = vec![];
        self.text(&mut v);
        unsafe { String::from_utf8_unchecked(v) }
    }
}
/// "0", "12": an index
pub fn dec(s: &str) -> Option<usize> {
    if s.is_empty() {
        return None;
    }
    let mut n = 0usize;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (b - b'0') as usize;
    }
    Some(n)
}
pub const INTS: &[i64] = &[0, 7, -12, 9007199254740993, i64::MIN];
/// any document: nesting up to `depth`, up to `width` members with the given names
pub fn any_json(depth: u8, width: u8, keys: &[&str]) -> J {
    let k = choose(if depth == 0 { 5 } else { 7 });
    match k {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Int(INTS[choose(INTS.len() as u8) as usize]),
        3 => J::UInt(u64::MAX),
        4 => J::Str(ascii(choose(2) as usize * 2)),
        5 => J::List((0..choose(width + 1)).map(|_| any_json(depth - 1, width, keys)).collect()),
        _ => {
            let mut o = vec![];
            for k in keys.iter().take(width as usize) {
                if choose_bool() {
                    o.push((k.to_string(), any_json(depth - 1, width, keys)));
                }
            }
            J::Obj(o)
        }
    }
}
pub fn same_serde(j: &J, v: &SV) -> bool {
    match (j, v) {
        (J::Null, SV::Null) => true,
        (J::Bool(a), SV::Bool(b)) => a == b,
        (J::Int(a), SV::Number(n)) => n.as_i64() == Some(*a),
        (J::UInt(a), SV::Number(n)) => n.as_u64() == Some(*a),
        (J::Float(a), SV::Number(n)) => n.is_f64() && n.as_f64() == Some(*a),
        (J::Str(a), SV::String(b)) => a == b,
        (J::List(a), SV::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_serde(x, y)),
        (J::Obj(a), SV::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, (k, y))| x.0 == *k && same_serde(&x.1, y)),
        _ => false,
    }
}
pub fn same_gql(j: &J, v: &GV) -> bool {
    match (j, v) {
        (J::Null, GV::Null) => true,
        (J::Bool(a), GV::Boolean(b)) => a == b,
        (J::Int(a), GV::Number(n)) => n.as_i64() == Some(*a),
        (J::UInt(a), GV::Number(n)) => n.as_u64() == Some(*a),
        (J::Float(a), GV::Number(n)) => n.is_f64() && n.as_f64() == Some(*a),
        (J::Str(a), GV::String(b)) => a == b,
        (J::List(a), GV::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_gql(x, y)),
        (J::Obj(a), GV::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, (k, y))| x.0 == k.as_str() && same_gql(&x.1, y)),
        _ => false,
    }
}
pub fn same_qval(j: &J, v: &QValue) -> bool {
    match (j, v) {
        (J::Null, QValue::Null) => true,
        (J::Bool(a), QValue::Boolean(b)) => a == b,
        (J::Int(a), QValue::Number(n)) => n.as_i64() == Some(*a),
        (J::UInt(a), QValue::Number(n)) => n.as_u64() == Some(*a),
        (J::Float(a), QValue::Number(n)) => n.is_f64() && n.as_f64() == Some(*a),
        (J::Str(a), QValue::String(b)) => a == b,
        (J::List(a), QValue::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_qval(x, y)),
        (J::Obj(a), QValue::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, (k, y))| x.0 == k.as_str() && same_qval(&x.1, y)),
        _ => false,
    }
}
pub fn same_borrow(j: &J, v: &BValue) -> bool {
    match (j, v) {
        (J::Null, BValue::Null) => true,
        (J::Bool(a), BValue::Bool(b)) => a == b,
        (J::Int(a), BValue::Number(n)) => n.as_i64() == Some(*a),
        (J::UInt(a), BValue::Number(n)) => n.as_u64() == Some(*a),
        (J::Float(a), BValue::Number(n)) => n.is_f64() && n.as_f64() == Some(*a),
        (J::Str(a), BValue::Str(b)) => a.as_bytes() == b.as_bytes(),
        (J::List(a), BValue::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_borrow(x, y)),
        (J::Obj(a), BValue::Object(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, (k, y))| x.0 == k && same_borrow(&x.1, y)),
        _ => false,
    }
}
