//! Stand-in for the QuickJS bindings: JavaScript values and the conversions of
//! rquickjs, without an interpreter. What a script defines comes from the
//! harness: `define(source, name, function)`.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::string::String as StdString;

pub use rquickjs_macro::function;

#[derive(Clone)]
pub enum V {
    Undefined,
    Null,
    Bool(bool),
    Int(i32),
    Float(f64),
    Str(StdString),
    Obj(Rc<RefCell<Vec<(StdString, V)>>>),
    Fun(Rc<dyn Fn(Vec<V>) -> std::result::Result<V, ()>>),
}
impl V {
    pub fn obj(l: Vec<(&str, V)>) -> V {
        V::Obj(Rc::new(RefCell::new(l.into_iter().map(|(k, v)| (k.to_string(), v)).collect())))
    }
    pub fn str(s: &str) -> V {
        V::Str(s.to_string())
    }
    pub fn has(&self, k: &str) -> bool {
        match self {
            V::Obj(o) => o.borrow().iter().any(|x| x.0 == k),
            _ => false,
        }
    }
    pub fn get(&self, k: &str) -> V {
        match self {
            V::Obj(o) => o.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(V::Undefined),
            _ => V::Undefined,
        }
    }
    pub fn set(&self, k: &str, v: V) {
        if let V::Obj(o) = self {
            let mut o = o.borrow_mut();
            match o.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = v,
                None => o.push((k.to_string(), v)),
            }
        }
    }
    pub fn del(&self, k: &str) {
        if let V::Obj(o) = self {
            o.borrow_mut().retain(|x| x.0 != k)
        }
    }
    pub fn text(&self) -> Option<StdString> {
        match self {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
/// single-threaded, like the harness
struct Solo<T>(T);
unsafe impl<T> Sync for Solo<T> {}
static DEFINED: Solo<RefCell<Vec<(StdString, StdString, V)>>> = Solo(RefCell::new(vec![]));
/// a script that contains `source` defines `name`
pub fn define(source: &str, name: &str, f: impl Fn(Vec<V>) -> std::result::Result<V, ()> + 'static) {
    DEFINED.0.borrow_mut().push((source.to_string(), name.to_string(), V::Fun(Rc::new(f))));
}

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    Exception,
    FromJs { from: &'static str, to: &'static str, message: Option<StdString> },
    IntoJs { from: &'static str, to: &'static str, message: Option<StdString> },
    Unknown,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Exception => f.write_str("Exception generated by QuickJS"),
            Error::Unknown => f.write_str("QuickJS library created a unknown error"),
            Error::FromJs { from, to, message } => {
                write!(f, "Error converting from js '{from}' into type '{to}'")?;
                match message {
                    Some(m) if !m.is_empty() => write!(f, ": {m}"),
                    _ => Ok(()),
                }
            }
            Error::IntoJs { from, to, message } => {
                write!(f, "Error converting from '{from}' into js '{to}'")?;
                match message {
                    Some(m) if !m.is_empty() => write!(f, ": {m}"),
                    _ => Ok(()),
                }
            }
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn new_from_js(from: &'static str, to: &'static str) -> Self {
        Error::FromJs { from, to, message: None }
    }
    pub fn new_from_js_message<M: Into<StdString>>(from: &'static str, to: &'static str, m: M) -> Self {
        Error::FromJs { from, to, message: Some(m.into()) }
    }
    pub fn is_exception(&self) -> bool {
        matches!(self, Error::Exception)
    }
    pub fn is_from_js(&self) -> bool {
        matches!(self, Error::FromJs { .. })
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub struct Runtime(());
impl Runtime {
    pub fn new() -> Result<Self> {
        Ok(Runtime(()))
    }
}
pub struct Context(V);
impl Context {
    pub fn full(_: &Runtime) -> Result<Self> {
        Ok(Context(V::obj(vec![])))
    }
    pub fn base(r: &Runtime) -> Result<Self> {
        Self::full(r)
    }
    pub fn with<F, R>(&self, f: F) -> R
    where
        F: FnOnce(Ctx) -> R,
    {
        f(Ctx { globals: self.0.clone(), p: PhantomData })
    }
}
#[derive(Clone)]
pub struct Ctx<'js> {
    globals: V,
    p: PhantomData<&'js ()>,
}
impl<'js> Ctx<'js> {
    pub fn globals(&self) -> Object<'js> {
        Object(Value::of(self, self.globals.clone()))
    }
    pub fn eval<T: FromJs<'js>, S: Into<Vec<u8>>>(&self, source: S) -> Result<T> {
        let s = StdString::from_utf8(source.into()).map_err(|_| Error::Unknown)?;
        for (part, name, f) in DEFINED.0.borrow().iter() {
            if s.contains(part.as_str()) {
                self.globals.set(name, f.clone())
            }
        }
        T::from_js(self, Value::of(self, V::Undefined))
    }
}
pub fn native<'js>(ctx: &Ctx<'js>) -> Result<Value<'js>> {
    Ok(Value::of(ctx, V::Fun(Rc::new(|_| Ok(V::Undefined)))))
}

#[derive(Clone)]
pub struct Value<'js> {
    pub v: V,
    ctx: Ctx<'js>,
}
impl std::fmt::Debug for Value<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.type_name())
    }
}
impl<'js> Value<'js> {
    pub fn of(ctx: &Ctx<'js>, v: V) -> Self {
        Value { v, ctx: ctx.clone() }
    }
    pub fn new_undefined(ctx: Ctx<'js>) -> Self {
        Value { v: V::Undefined, ctx }
    }
    pub fn new_null(ctx: Ctx<'js>) -> Self {
        Value { v: V::Null, ctx }
    }
    pub fn ctx(&self) -> &Ctx<'js> {
        &self.ctx
    }
    pub fn type_name(&self) -> &'static str {
        match &self.v {
            V::Undefined => "undefined",
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::Float(_) => "float",
            V::Str(_) => "string",
            V::Obj(_) => "object",
            V::Fun(_) => "function",
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.v, V::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.v, V::Null)
    }
    pub fn is_object(&self) -> bool {
        matches!(self.v, V::Obj(_) | V::Fun(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self.v, V::Str(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self.v, V::Fun(_))
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.v {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_int(&self) -> Option<i32> {
        match self.v {
            V::Int(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_object(&self) -> Option<&Object<'js>> {
        // a transparent wrapper
        self.is_object().then(|| unsafe { &*(self as *const Value<'js> as *const Object<'js>) })
    }
    pub fn into_object(self) -> Option<Object<'js>> {
        self.is_object().then_some(Object(self))
    }
    pub fn as_string(&self) -> Option<&String<'js>> {
        self.is_string().then(|| unsafe { &*(self as *const Value<'js> as *const String<'js>) })
    }
    pub fn as_function(&self) -> Option<&Function<'js>> {
        self.is_function().then(|| unsafe { &*(self as *const Value<'js> as *const Function<'js>) })
    }
    pub fn into_value(self) -> Value<'js> {
        self
    }
}
macro_rules! wrapper {
    ($($t:ident)*) => { $(
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $t<'js>(Value<'js>);
        impl<'js> std::ops::Deref for $t<'js> {
            type Target = Value<'js>;
            fn deref(&self) -> &Value<'js> { &self.0 }
        }
        impl<'js> $t<'js> {
            pub fn into_value(self) -> Value<'js> { self.0 }
            pub fn as_value(&self) -> &Value<'js> { &self.0 }
        }
        impl<'js> IntoJs<'js> for $t<'js> {
            fn into_js(self, _: &Ctx<'js>) -> Result<Value<'js>> { Ok(self.0) }
        }
    )* };
}
wrapper!(Object String Function);
impl<'js> FromJs<'js> for Object<'js> {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        let t = value.type_name();
        value.into_object().ok_or(Error::new_from_js(t, "object"))
    }
}
impl<'js> FromJs<'js> for String<'js> {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        if value.is_string() {
            Ok(String(value))
        } else {
            Err(Error::new_from_js(value.type_name(), "string"))
        }
    }
}
impl<'js> FromJs<'js> for Function<'js> {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        if value.is_function() {
            Ok(Function(value))
        } else {
            Err(Error::new_from_js(value.type_name(), "function"))
        }
    }
}
impl<'js> Object<'js> {
    pub fn new(ctx: Ctx<'js>) -> Result<Self> {
        Ok(Object(Value { v: V::obj(vec![]), ctx }))
    }
    pub fn get<K: AsRef<str>, T: FromJs<'js>>(&self, k: K) -> Result<T> {
        T::from_js(&self.0.ctx, Value::of(&self.0.ctx, self.0.v.get(k.as_ref())))
    }
    pub fn contains_key<K: AsRef<str>>(&self, k: K) -> Result<bool> {
        Ok(self.0.v.has(k.as_ref()))
    }
    pub fn set<K: AsRef<str>, T: IntoJs<'js>>(&self, k: K, v: T) -> Result<()> {
        let v = v.into_js(&self.0.ctx)?;
        self.0.v.set(k.as_ref(), v.v);
        Ok(())
    }
    pub fn remove<K: AsRef<str>>(&self, k: K) -> Result<()> {
        self.0.v.del(k.as_ref());
        Ok(())
    }
}
impl<'js> String<'js> {
    pub fn from_str(ctx: Ctx<'js>, s: &str) -> Result<Self> {
        Ok(String(Value { v: V::str(s), ctx }))
    }
    #[allow(clippy::inherent_to_string)]
    pub fn to_string(&self) -> Result<StdString> {
        self.0.v.text().ok_or(Error::Unknown)
    }
}
impl<'js> Function<'js> {
    pub fn call<A: IntoArgs<'js>, R: FromJs<'js>>(&self, args: A) -> Result<R> {
        let args = args.into_args(&self.0.ctx)?;
        match &self.0.v {
            V::Fun(f) => match f(args) {
                Ok(v) => R::from_js(&self.0.ctx, Value::of(&self.0.ctx, v)),
                Err(()) => Err(Error::Exception),
            },
            _ => Err(Error::Unknown),
        }
    }
}
pub trait IntoArgs<'js> {
    fn into_args(self, ctx: &Ctx<'js>) -> Result<Vec<V>>;
}
impl<'js> IntoArgs<'js> for () {
    fn into_args(self, _: &Ctx<'js>) -> Result<Vec<V>> {
        Ok(vec![])
    }
}
impl<'js, A: IntoJs<'js>> IntoArgs<'js> for (A,) {
    fn into_args(self, ctx: &Ctx<'js>) -> Result<Vec<V>> {
        Ok(vec![self.0.into_js(ctx)?.v])
    }
}
impl<'js, A: IntoJs<'js>, B: IntoJs<'js>> IntoArgs<'js> for (A, B) {
    fn into_args(self, ctx: &Ctx<'js>) -> Result<Vec<V>> {
        Ok(vec![self.0.into_js(ctx)?.v, self.1.into_js(ctx)?.v])
    }
}

pub trait FromJs<'js>: Sized {
    fn from_js(ctx: &Ctx<'js>, value: Value<'js>) -> Result<Self>;
}
pub trait IntoJs<'js> {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>>;
}
impl<'js> FromJs<'js> for Value<'js> {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        Ok(value)
    }
}
impl<'js> FromJs<'js> for () {
    fn from_js(_: &Ctx<'js>, _: Value<'js>) -> Result<Self> {
        Ok(())
    }
}
impl<'js> FromJs<'js> for StdString {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        value.v.text().ok_or(Error::new_from_js(value.type_name(), "string"))
    }
}
impl<'js> FromJs<'js> for bool {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        value.as_bool().ok_or(Error::new_from_js(value.type_name(), "bool"))
    }
}
fn number(value: &Value, to: &'static str) -> Result<f64> {
    match value.v {
        V::Int(i) => Ok(i as f64),
        V::Float(f) => Ok(f),
        _ => Err(Error::new_from_js(value.type_name(), to)),
    }
}
impl<'js> FromJs<'js> for f64 {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        number(&value, "float")
    }
}
impl<'js> FromJs<'js> for i32 {
    fn from_js(_: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        match value.v {
            V::Int(i) => Ok(i),
            _ => Ok(number(&value, "int")? as i32),
        }
    }
}
macro_rules! ranged {
    ($($t:ident)*) => { $(
        impl<'js> FromJs<'js> for $t {
            fn from_js(ctx: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
                let from = value.type_name();
                let n = i32::from_js(ctx, value)?;
                if n < $t::MIN as i32 {
                    Err(Error::new_from_js_message(from, stringify!($t), "Underflow"))
                } else if n > $t::MAX as i32 {
                    Err(Error::new_from_js_message(from, stringify!($t), "Overflow"))
                } else {
                    Ok(n as $t)
                }
            }
        }
        impl<'js> IntoJs<'js> for $t {
            fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> { Ok(Value::of(ctx, V::Int(self as i32))) }
        }
    )* };
}
ranged!(u8 i8 u16 i16);
impl<'js, T: FromJs<'js>> FromJs<'js> for Option<T> {
    fn from_js(ctx: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        if value.is_undefined() || value.is_null() {
            Ok(None)
        } else {
            T::from_js(ctx, value).map(Some)
        }
    }
}
impl<'js, T: FromJs<'js>> FromJs<'js> for BTreeMap<StdString, T> {
    fn from_js(ctx: &Ctx<'js>, value: Value<'js>) -> Result<Self> {
        match &value.v {
            V::Obj(o) => {
                let mut m = BTreeMap::new();
                for (k, v) in o.borrow().iter() {
                    m.insert(k.clone(), T::from_js(ctx, Value::of(ctx, v.clone()))?);
                }
                Ok(m)
            }
            V::Fun(_) => Ok(BTreeMap::new()),
            _ => Err(Error::new_from_js(value.type_name(), "object")),
        }
    }
}
impl<'js> IntoJs<'js> for Value<'js> {
    fn into_js(self, _: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(self)
    }
}
impl<'js> IntoJs<'js> for () {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::Undefined))
    }
}
impl<'js> IntoJs<'js> for StdString {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::Str(self)))
    }
}
impl<'js> IntoJs<'js> for &str {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::str(self)))
    }
}
impl<'js> IntoJs<'js> for &StdString {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::str(self)))
    }
}
impl<'js> IntoJs<'js> for bool {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::Bool(self)))
    }
}
impl<'js> IntoJs<'js> for i32 {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::Int(self)))
    }
}
impl<'js> IntoJs<'js> for f64 {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        Ok(Value::of(ctx, V::Float(self)))
    }
}
/// nothing is `undefined`, as in rquickjs
impl<'js, T: IntoJs<'js>> IntoJs<'js> for Option<T> {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        match self {
            Some(v) => v.into_js(ctx),
            None => Ok(Value::of(ctx, V::Undefined)),
        }
    }
}
impl<'js, T: IntoJs<'js>> IntoJs<'js> for BTreeMap<StdString, T> {
    fn into_js(self, ctx: &Ctx<'js>) -> Result<Value<'js>> {
        let o = V::obj(vec![]);
        for (k, v) in self {
            o.set(&k, v.into_js(ctx)?.v)
        }
        Ok(Value::of(ctx, o))
    }
}
