//! C15: list / non-null wrapping of types
use crate::rt::*;
use async_graphql::parser::types::{BaseType, Type as GType};
use async_graphql::dynamic::TypeRef;
use tailcall::core::Type;

/// wrappers from the outside in: Some(non_null) per list level, then the name's own
struct M {
    lists: Vec<bool>,
    name: String,
    non_null: bool,
}
impl M {
    fn any(max: u8) -> M {
        let lists = (0..choose(max + 1)).map(|_| any_bool()).collect();
        let mut name = string_of(b"AbZ_9xyzQ", choose(3) as usize + 1);
        if name.is_empty() {
            name.push('A');
        }
        M { lists, name, non_null: any_bool() }
    }
    fn ty(&self) -> Type {
        let mut t = Type::Named { name: self.name.clone(), non_null: self.non_null };
        for l in self.lists.iter().rev() {
            t = Type::List { of_type: Box::new(t), non_null: *l };
        }
        t
    }
    fn text(&self) -> Vec<u8> {
        let mut s: Vec<u8> = self.lists.iter().map(|_| b'[').collect();
        s.extend(self.name.bytes());
        if self.non_null {
            s.push(b'!');
        }
        for l in self.lists.iter().rev() {
            s.push(b']');
            if *l {
                s.push(b'!');
            }
        }
        s
    }
    fn outer(&self) -> bool {
        *self.lists.first().unwrap_or(&self.non_null)
    }
    fn same(&self, t: &Type) -> bool {
        self.same_at(0, t)
    }
    fn same_at(&self, i: usize, t: &Type) -> bool {
        match t {
            Type::Named { name, non_null } => i == self.lists.len() && *name == self.name && *non_null == self.non_null,
            Type::List { of_type, non_null } => i < self.lists.len() && *non_null == self.lists[i] && self.same_at(i + 1, of_type),
        }
    }
    fn same_g(&self, i: usize, t: &GType) -> bool {
        let nn = if i < self.lists.len() { self.lists[i] } else { self.non_null };
        t.nullable == !nn
            && match &t.base {
                BaseType::Named(n) => i == self.lists.len() && n.as_str() == self.name,
                BaseType::List(l) => i < self.lists.len() && self.same_g(i + 1, l),
            }
    }
    fn same_ref(&self, i: usize, t: &TypeRef) -> bool {
        let nn = if i < self.lists.len() { self.lists[i] } else { self.non_null };
        let inner = match t {
            TypeRef::NonNull(x) => {
                if !nn {
                    return false;
                }
                &**x
            }
            x => {
                if nn {
                    return false;
                }
                x
            }
        };
        match inner {
            TypeRef::Named(n) => i == self.lists.len() && **n == *self.name,
            TypeRef::List(l) => i < self.lists.len() && self.same_ref(i + 1, l),
            TypeRef::NonNull(_) => false,
        }
    }
}
fn all(max: u8) {
    let m = M::any(max);
    let t = m.ty();
    check(t.name().as_bytes() == m.name.as_bytes(), "name");
    check(t.is_nullable() == !m.outer(), "nullability");
    check(t.is_list() == !m.lists.is_empty(), "list predicate");
    let d = format!("{t:?}");
    check(d.as_bytes() == &m.text()[..], "printed syntax");
    observe(d.as_bytes());
    let g = GType::from(&t);
    check(m.same_g(0, &g), "GraphQL syntax tree");
    check(m.same(&Type::from(&g)), "there and back");
    check(m.same_ref(0, &TypeRef::from(&t)), "dynamic type reference");
    // wrapping
    let mut l = M { lists: m.lists.clone(), name: m.name.clone(), non_null: m.non_null };
    l.lists.insert(0, false);
    let w = t.clone().into_list();
    check(l.same(&w), "wrapped in a nullable list");
    check(M { lists: vec![], name: m.name.clone(), non_null: m.non_null }.same(&w.into_single()), "unwrapped from every list");
    check(M { lists: vec![], name: m.name.clone(), non_null: m.non_null }.same(&t.clone().into_single()), "unwrapped from every list");
    for nn in [true, false] {
        let mut r = M { lists: m.lists.clone(), name: m.name.clone(), non_null: m.non_null };
        match r.lists.first_mut() {
            Some(x) => *x = nn,
            None => r.non_null = nn,
        }
        let x = if nn { t.clone().into_required() } else { t.clone().into_nullable() };
        check(r.same(&x), if nn { "made required" } else { "made nullable" });
    }
    let n = ascii(choose(3) as usize);
    let r = M { lists: m.lists.clone(), name: n.clone(), non_null: m.non_null };
    check(r.same(&t.clone().with_name(n)), "renamed");
    check(M { lists: vec![], name: m.name.clone(), non_null: false }.same(&Type::from(m.name.clone())), "bare name");
    cover(if m.lists.len() > 1 { "nested lists" } else { "simple" });
}
pub fn h_c15_types() {
    all(4)
}
pub fn h_c15_types_deep() {
    all(8)
}
/// equality is structural
pub fn h_c15_equal() {
    let a = M::any(2);
    let b = M::any(2);
    let same = a.lists == b.lists && a.name == b.name && a.non_null == b.non_null;
    check((a.ty() == b.ty()) == same, "equality");
    cover(if same { "equal" } else { "different" });
}
/// text accepted by the GraphQL parser prints back
pub fn h_c15_parse() {
    let n = choose(3);
    let nn = choose(16);
    let mut m = M { lists: (0..n).map(|i| nn >> i & 1 == 1).collect(), name: "Ab".into(), non_null: nn >> 3 & 1 == 1 };
    if choose_bool() {
        m.name = "x_1".into();
    }
    let text = String::from_utf8(m.text()).unwrap();
    match GType::new(&text) {
        Some(g) => check(m.same(&Type::from(&g)), "parsed syntax"),
        None => check(false, "valid syntax parses"),
    }
}
crate::harnesses!(h_c15_types, h_c15_types_deep, h_c15_equal, h_c15_parse);
