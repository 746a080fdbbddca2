//! C11: custom scalars
use crate::rt::*;
use crate::util::*;
use tailcall::core::scalar::Scalar;

const ALL: &[(&str, Scalar)] = &[
    ("Empty", Scalar::Empty),
    ("JSON", Scalar::JSON),
    ("Email", Scalar::Email),
    ("PhoneNumber", Scalar::PhoneNumber),
    ("Date", Scalar::Date),
    ("DateTime", Scalar::DateTime),
    ("Url", Scalar::Url),
    ("Bytes", Scalar::Bytes),
    ("Int64", Scalar::Int64),
    ("UInt64", Scalar::UInt64),
    ("Int128", Scalar::Int128),
    ("UInt128", Scalar::UInt128),
    ("Int8", Scalar::Int8),
    ("Int16", Scalar::Int16),
    ("Int32", Scalar::Int32),
    ("UInt8", Scalar::UInt8),
    ("UInt16", Scalar::UInt16),
    ("UInt32", Scalar::UInt32),
];
/// what every representation says
fn accepted(s: &Scalar, j: &J) -> bool {
    let v = j.serde();
    let a = s.validate(&v);
    let g = j.gql();
    check(s.validate(&g) == a, "GraphQL values are judged like serde values");
    let b = j.borrow();
    check(s.validate(&b) == a, "borrowed JSON is judged like serde values");
    a
}
fn int_range(name: &str) -> Option<(i128, i128)> {
    Some(match name {
        "Int8" => (-128, 127),
        "Int16" => (-32768, 32767),
        "Int32" => (-2147483648, 2147483647),
        "UInt8" => (0, 255),
        "UInt16" => (0, 65535),
        "UInt32" => (0, 4294967295),
        _ => return None,
    })
}
/// every integer against every scalar
pub fn h_c11_integers() {
    let (name, s) = &ALL[choose(ALL.len() as u8) as usize];
    let (j, x) = if choose_bool() {
        let i = any_i64();
        (J::Int(i), i as i128)
    } else {
        let i = any_u64();
        (J::UInt(i), i as i128)
    };
    let got = accepted(s, &j);
    match int_range(name) {
        Some((lo, hi)) => {
            check(got == ((x >= lo) & (x <= hi)), "integers in range are accepted, others rejected");
            cover(if got { "integer accepted" } else { "integer rejected" });
        }
        None => check(got == (*name == "JSON" || *name == "Empty"), "an integer is no string"),
    }
    observe_bool(got);
}
/// no other kind of value passes for an integer or a string
pub fn h_c11_kinds() {
    let (name, s) = &ALL[choose(ALL.len() as u8) as usize];
    let j = match choose(6) {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Float([0.5, 7.0, -1.0, 1e300][choose(4) as usize]),
        3 => J::List((0..choose(2)).map(|_| J::Int(1)).collect()),
        4 => J::Obj(if choose_bool() { vec![("a".into(), J::Int(1))] } else { vec![] }),
        // the format of phone numbers is left to the phone number crate
        _ if *name == "PhoneNumber" => J::Null,
        _ => J::Str(ascii(choose(3) as usize)),
    };
    let got = accepted(s, &j);
    if *name == "JSON" || *name == "Empty" {
        check(got, "any value is accepted");
    } else if let J::Str(_) = j {
        if int_range(name).is_some() {
            check(!got, "a string is no integer");
        }
        if *name == "Bytes" {
            check(got, "any string is a sequence of bytes");
        }
    } else {
        check(!got, "only strings and integers have a scalar format");
    }
    observe_bool(got);
}
/// decimal magnitude in text form against a limit in text form
fn within(digits: &[u8], limit: &[u8]) -> bool {
    let mut z = 0;
    while z + 1 < digits.len() && digits[z] == b'0' {
        z += 1;
    }
    let d = &digits[z..];
    if d.len() != limit.len() {
        return d.len() < limit.len();
    }
    let (mut less, mut more) = (false, false);
    for (a, b) in d.iter().zip(limit) {
        less |= !more & (a < b);
        more |= !less & (a > b);
    }
    !more
}
struct Wide {
    scalar: Scalar,
    signed: bool,
    max: &'static str,
    min: &'static str,
}
fn wide(k: u8) -> Wide {
    match k {
        0 => Wide { scalar: Scalar::Int64, signed: true, max: "9223372036854775807", min: "9223372036854775808" },
        1 => Wide { scalar: Scalar::UInt64, signed: false, max: "18446744073709551615", min: "0" },
        2 => Wide { scalar: Scalar::Int128, signed: true, max: "170141183460469231731687303715884105727", min: "170141183460469231731687303715884105728" },
        _ => Wide { scalar: Scalar::UInt128, signed: false, max: "340282366920938463463374607431768211455", min: "0" },
    }
}
fn want_wide(w: &Wide, s: &[u8]) -> bool {
    let (neg, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let mut digits = !d.is_empty();
    for c in d {
        digits &= c.is_ascii_digit();
    }
    digits && (!neg || w.signed) && within(d, if neg { w.min } else { w.max }.as_bytes())
}
/// texts of any short shape
fn wide_text(n: u8) {
    let w = wide(choose(4));
    let s = string_of(b"+-0123456789 a", choose(n + 1) as usize);
    let got = accepted(&w.scalar, &J::Str(s.clone()));
    check(got == want_wide(&w, s.as_bytes()), "text is accepted exactly when it reads as an integer in range");
    cover(if got { "wide accepted" } else { "wide rejected" });
    observe_bool(got);
}
pub fn h_c11_wide() {
    wide_text(3)
}
pub fn h_c11_wide_deep() {
    wide_text(5)
}
/// around the limits: the limit's leading digits, then any last digits
pub fn h_c11_edges() {
    let w = wide(choose(4));
    let neg = w.signed && choose_bool();
    let lim = if neg { w.min } else { w.max };
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    if choose_bool() {
        s.push('0');
    }
    s.push_str(&lim[..lim.len() - 2]);
    s.push_str(&string_of(b"0123456789", 2));
    if choose_bool() {
        s.push_str(&string_of(b"0123456789", 1));
    }
    let got = accepted(&w.scalar, &J::Str(s.clone()));
    check(got == want_wide(&w, s.as_bytes()), "text is accepted exactly when it reads as an integer in range");
    observe_bool(got);
}
/// scalars whose format another crate defines: exactly what that crate says
pub fn h_c11_email() {
    let s = format!("{}{}", string_of(b"a@.", choose(4) as usize), ["", "@a.io", "b"][choose(3) as usize]);
    let got = accepted(&Scalar::Email, &J::Str(s.clone()));
    check(got == async_graphql::validators::email(&s).is_ok(), "e-mail addresses");
    cover(if got { "email accepted" } else { "email rejected" });
    observe_bool(got);
}
pub fn h_c11_date() {
    let mut t = b"2024-02-28T23:59:58Z".to_vec();
    let at = choose(20) as usize;
    t[at] = byte_in(0x20, 0x7e);
    let mut s = String::from_utf8(t).unwrap();
    match choose(3) {
        0 => {}
        1 => s.truncate(10),
        _ => s = s.replace('Z', "+05:30"),
    }
    let got = accepted(&Scalar::DateTime, &J::Str(s.clone()));
    check(got == chrono::DateTime::parse_from_rfc3339(&s).is_ok(), "RFC 3339 date-times");
    check(accepted(&Scalar::Date, &J::Str(s)) == got, "RFC 3339 dates");
    cover(if got { "date accepted" } else { "date rejected" });
    observe_bool(got);
}
pub fn h_c11_url() {
    let s = format!("{}{}", ["", "http://", "a:", "/"][choose(4) as usize], string_of(b"a:/.", choose(3) as usize));
    let got = accepted(&Scalar::Url, &J::Str(s.clone()));
    check(got == reqwest::Url::parse(&s).is_ok(), "URLs");
    cover(if got { "url accepted" } else { "url rejected" });
    observe_bool(got);
}
/// names
pub fn h_c11_names() {
    let (name, s) = &ALL[choose(ALL.len() as u8) as usize];
    check(s.name() == *name, "a scalar's name");
    check(Scalar::is_predefined(name), "built-in scalars are known");
    check(Scalar::find(name).map(|x| x.name()) == Some(name.to_string()), "a scalar is found by its name");
    for n in ["Boolean", "Float", "ID", "Int", "String"] {
        check(Scalar::is_predefined(n) && Scalar::find(n).is_none(), "GraphQL's own scalars");
    }
    check(!Scalar::is_predefined("int8") && !Scalar::is_predefined("") && !Scalar::is_predefined("User"), "no other name is a scalar");
    let _ = J::Null.serde().is_null();
}
crate::harnesses!(h_c11_integers, h_c11_kinds, h_c11_wide, h_c11_wide_deep, h_c11_edges, h_c11_email, h_c11_date, h_c11_url, h_c11_names);
