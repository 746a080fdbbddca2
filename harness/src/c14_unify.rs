//! C14: combining the types of federated subgraphs
use crate::rt::*;
use tailcall::core::config::*;
use tailcall::core::variance::*;
use tailcall::core::Type as Ty;
use tailcall_valid::Validator;

/// list nesting, names and nullability free
fn any_type(depth: u8) -> Ty {
    if depth == 0 || choose_bool() {
        Ty::Named { name: ["Int", "ID"][choose(2) as usize].into(), non_null: any_bool() }
    } else {
        Ty::List { of_type: Box::new(any_type(depth - 1)), non_null: any_bool() }
    }
}
fn combine(a: &Ty, b: &Ty, f: fn(bool, bool) -> bool) -> Option<Ty> {
    match (a, b) {
        (Ty::Named { name, non_null }, Ty::Named { name: n, non_null: o }) if name == n => Some(Ty::Named { name: n.clone(), non_null: f(*non_null, *o) }),
        (Ty::List { of_type, non_null }, Ty::List { of_type: t, non_null: o }) => Some(Ty::List { of_type: Box::new(combine(of_type, t, f)?), non_null: f(*non_null, *o) }),
        _ => None,
    }
}
fn wide(a: &Ty, b: &Ty) -> Option<Ty> {
    combine(a, b, |x, y| x & y)
}
fn narrow(a: &Ty, b: &Ty) -> Option<Ty> {
    combine(a, b, |x, y| x | y)
}
fn required(t: &Ty) -> bool {
    match t {
        Ty::Named { non_null, .. } => *non_null,
        Ty::List { non_null, .. } => *non_null,
    }
}
fn types(d: u8) {
    let (a, b) = (any_type(d), any_type(d));
    let e = a.clone().expand(b.clone()).to_result();
    check(e.ok() == wide(&a, &b), "an output type is non-null only where both are");
    let s = a.clone().shrink(b.clone()).to_result();
    check(s.ok() == narrow(&a, &b), "an input type is non-null where either is");
    if wide(&a, &b).is_some() {
        cover("types combine");
    } else {
        cover("types conflict");
    }
}
pub fn h_c14_types() {
    types(2)
}
pub fn h_c14_types_deep() {
    types(4)
}
fn small() -> Ty {
    match choose(3) {
        0 => Ty::Named { name: "Int".into(), non_null: any_bool() },
        1 => Ty::Named { name: "ID".into(), non_null: any_bool() },
        _ => Ty::List { of_type: Box::new(Ty::Named { name: "Int".into(), non_null: any_bool() }), non_null: any_bool() },
    }
}
fn arg(t: Ty) -> Arg {
    Arg { type_of: t, ..Arg::default() }
}
/// arguments: those both have; a required one must not be missing
pub fn h_c14_args() {
    let side = || {
        let mut f = Field { type_of: Ty::Named { name: "R".into(), non_null: any_bool() }, doc: choose_bool().then(|| ascii(1)), ..Field::default() };
        for n in ["a", "b"] {
            if choose_bool() {
                f.args.insert(n.into(), arg(Ty::Named { name: ["Int", "ID"][choose(2) as usize].into(), non_null: any_bool() }));
            }
        }
        f
    };
    let (x, y) = (side(), side());
    let mut want: Option<Vec<(&str, Ty)>> = Some(vec![]);
    for n in ["a", "b"] {
        match (x.args.get(n), y.args.get(n)) {
            (Some(p), Some(q)) => match (narrow(&p.type_of, &q.type_of), &mut want) {
                (Some(t), Some(w)) => w.push((n, t)),
                _ => want = None,
            },
            (None, None) => {}
            (Some(p), None) | (None, Some(p)) => {
                if required(&p.type_of) {
                    want = None;
                }
            }
        }
    }
    let out = choose_bool();
    let r = if out { x.clone().expand(y.clone()) } else { x.clone().shrink(y.clone()) };
    let got = r.to_result().ok();
    check(got.is_some() == want.is_some(), "rejected exactly when an argument conflicts or a required one is missing");
    if let (Some(g), Some(w)) = (got, want) {
        check(g.args.len() == w.len() && w.iter().all(|(n, t)| g.args.get(*n).map(|a| &a.type_of) == Some(t)), "arguments narrow to those both have");
        check(Some(g.type_of) == if out { wide(&x.type_of, &y.type_of) } else { narrow(&x.type_of, &y.type_of) }, "the field's own type");
        check(g.doc == if y.doc.is_some() { y.doc } else { x.doc }, "the later description wins");
        cover("arguments combine");
    } else {
        cover("arguments conflict");
    }
}
fn object() -> Type {
    let mut t = Type::default();
    for k in ["f", "g"] {
        if choose_bool() {
            t.fields.insert(k.into(), Field { type_of: small(), ..Field::default() });
        }
    }
    t
}
/// fields of output types (union) and input types (intersection)
pub fn h_c14_fields() {
    let (x, y) = (object(), object());
    let mut out: Option<Vec<(&str, Ty)>> = Some(vec![]);
    let mut inp: Option<Vec<(&str, Ty)>> = Some(vec![]);
    for n in ["f", "g"] {
        match (x.fields.get(n), y.fields.get(n)) {
            (Some(p), Some(q)) => {
                match (wide(&p.type_of, &q.type_of), &mut out) {
                    (Some(t), Some(w)) => w.push((n, t)),
                    _ => out = None,
                }
                match (narrow(&p.type_of, &q.type_of), &mut inp) {
                    (Some(t), Some(w)) => w.push((n, t)),
                    _ => inp = None,
                }
            }
            (None, None) => {}
            (Some(p), None) | (None, Some(p)) => {
                if let Some(w) = &mut out {
                    w.push((n, p.type_of.clone()));
                }
                if required(&p.type_of) {
                    inp = None;
                }
            }
        }
    }
    let agree = |g: Option<Type>, w: Option<Vec<(&str, Ty)>>| match (g, w) {
        (None, None) => true,
        (Some(g), Some(w)) => g.fields.len() == w.len() && w.iter().all(|(n, t)| g.fields.get(*n).map(|a| &a.type_of) == Some(t)),
        _ => false,
    };
    check(agree(x.clone().expand(y.clone()).to_result().ok(), out), "an output type has the fields of both");
    check(agree(x.shrink(y).to_result().ok(), inp), "an input type has the fields both have");
}
fn variants(k: u8) -> Enum {
    Enum { variants: ["p", "q", "r"].iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|x| Variant { name: x.1.to_string(), alias: None }).collect(), doc: None }
}
fn names(e: &Enum) -> u8 {
    ["p", "q", "r"].iter().enumerate().filter(|x| e.variants.iter().any(|v| v.name == *x.1)).map(|x| 1 << x.0).sum()
}
pub fn h_c14_enums() {
    let (a, b) = (choose(8), choose(8));
    let w = variants(a).expand(variants(b)).to_result().ok().map(|e| names(&e));
    check(w == Some(a | b), "an output enum has the variants of both");
    let n = variants(a).shrink(variants(b)).to_result().ok().map(|e| names(&e));
    check(n == Some(a & b), "an input enum has the variants both have");
}
/// whole subgraphs: how a type is used decides how it is combined
pub fn h_c14_modules() {
    // 0: not used, 1: argument of a query field, 2: result of a query field, 3: both
    let subgraph = |usage: u8, q: &str, has: bool, t: Type, e: Enum| {
        let mut c = Config::default().query("Query");
        let mut root = Type::default();
        let mut f = Field::int();
        if usage & 1 != 0 {
            f.args.insert("in".into(), arg(Ty::Named { name: "T".into(), non_null: false }));
            f.args.insert("e".into(), arg(Ty::Named { name: "E".into(), non_null: false }));
        }
        root.fields.insert(q.into(), f);
        if usage & 2 != 0 {
            root.fields.insert(format!("{q}o"), Field { type_of: Ty::Named { name: "T".into(), non_null: false }, ..Field::default() });
            root.fields.insert(format!("{q}e"), Field { type_of: Ty::Named { name: "E".into(), non_null: false }, ..Field::default() });
        }
        c.types.insert("Query".into(), root);
        if has {
            c.types.insert("T".into(), t);
            c.enums.insert("E".into(), e);
        }
        ConfigModule::from(c)
    };
    let one = |k: &str| Type::default().fields(vec![(k, Field { type_of: Ty::Named { name: "Int".into(), non_null: any_bool() }, ..Field::default() })]);
    let (ua, ub) = (choose(4), choose(4));
    let (ha, hb) = (choose_bool(), choose_bool());
    let (ta, tb) = (one("f"), one(["f", "g"][choose(2) as usize]));
    let ks = [1u8, 3][choose(2) as usize];
    let (ea, eb) = (variants(1), variants(ks));
    let same_enum = ks == 1;
    let m = subgraph(ua, "qa", ha, ta.clone(), ea.clone()).unify(subgraph(ub, "qb", hb, tb.clone(), eb.clone())).to_result().ok();
    let both = ha && hb;
    // how T has to be combined: Some(true) output, Some(false) input, None conflict
    let mode = match (ua, ub) {
        (1, 1) | (0, 1) | (1, 0) => Some(false),
        (2, 2) | (0, 2) | (2, 0) => Some(true),
        _ => None,
    };
    let want = if !both {
        Some((if ha { Some(ta.clone()) } else if hb { Some(tb.clone()) } else { None }, if ha { Some(ea) } else if hb { Some(eb) } else { None }))
    } else {
        let t = match mode {
            Some(true) => ta.clone().expand(tb.clone()).to_result().ok(),
            Some(false) => ta.clone().shrink(tb.clone()).to_result().ok(),
            None => None,
        };
        let e = match mode {
            Some(true) => Some(variants(1 | ks)),
            Some(false) => Some(variants(1 & ks)),
            None => ((ua == 3 || ub == 3) && same_enum).then(|| variants(ks)),
        };
        match (t, e) {
            (Some(t), Some(e)) => Some((Some(t), Some(e))),
            _ => None,
        }
    };
    check(m.is_some() == want.is_some(), "rejected exactly when a type is used in incompatible ways");
    if let (Some(m), Some((t, e))) = (m, want) {
        check(m.types.get("T") == t.as_ref(), "the type is widened for output, narrowed for input");
        check(m.enums.get("E") == e.as_ref(), "the enum is widened for output, narrowed for input");
        let q = &m.types["Query"].fields;
        check(q.contains_key("qa") && q.contains_key("qb"), "root fields of both");
        check(m.schema.query.as_deref() == Some("Query"), "root type kept");
        cover("subgraphs combine");
    } else {
        cover("subgraphs conflict");
    }
}
crate::harnesses!(h_c14_types, h_c14_types_deep, h_c14_args, h_c14_fields, h_c14_enums, h_c14_modules);
