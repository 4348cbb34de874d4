//! Target types made up at run time, so that all of some size can be enumerated: each acts towards
//! a deserializer as the type that serde would derive.

use serde::de::{self, DeserializeSeed, Deserializer, Error as _, IgnoredAny};
use std::collections::HashMap;
use std::fmt;
use std::sync::{Mutex, OnceLock};

pub type Name = &'static str;

#[derive(Debug)]
pub struct Field {
    pub name: Name,
    pub ty: Ty,
    /// As with `#[serde(default)]`.
    pub default: bool,
}

#[derive(Debug)]
pub struct Fields {
    pub list: Vec<Field>,
    names: &'static [Name],
    deny: bool,
}

#[derive(Debug)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Fields),
}

#[derive(Debug)]
pub enum Shape {
    Str,
    Int,
    Bool,
    Char,
    Unit,
    Ignored,
    Any,
    Opt(Ty),
    New(Ty),
    Seq(Ty),
    Map(Ty),
    /// The first so many entries of a map; the others are not asked for.
    Head(usize, Ty),
    Tuple(Vec<Ty>),
    Struct(Fields),
    Enum(Vec<(Name, Var)>, &'static [Name]),
}

pub type Ty = &'static Shape;

/// Keeps one copy of each name.
pub fn name(s: &str) -> Name {
    static ALL: OnceLock<Mutex<HashMap<String, Name>>> = OnceLock::new();
    let mut m = ALL.get_or_init(Default::default).lock().unwrap();
    if let Some(n) = m.get(s) {
        return n;
    }
    let n: Name = Box::leak(s.to_owned().into_boxed_str());
    m.insert(s.to_owned(), n);
    n
}

pub fn ty(s: Shape) -> Ty {
    Box::leak(Box::new(s))
}

fn names<T>(l: &[T], f: impl Fn(&T) -> Name) -> &'static [Name] {
    Box::leak(l.iter().map(f).collect::<Vec<_>>().into_boxed_slice())
}

pub fn fields(list: Vec<(&str, Ty)>) -> Fields {
    let list: Vec<Field> = list
        .into_iter()
        .map(|(n, ty)| Field { name: name(n), ty, default: matches!(ty, Shape::Seq(_)) })
        .collect();
    Fields { names: names(&list, |f| f.name), list, deny: false }
}
/// As with `#[serde(deny_unknown_fields)]`, and without defaults.
pub fn strict(list: Vec<(&str, Ty)>) -> Fields {
    let mut f = fields(list);
    f.deny = true;
    for x in &mut f.list {
        x.default = false;
    }
    f
}
pub fn structure(list: Vec<(&str, Ty)>) -> Ty {
    ty(Shape::Struct(fields(list)))
}
pub fn choice(list: Vec<(&str, Var)>) -> Ty {
    let list: Vec<_> = list.into_iter().map(|(n, v)| (name(n), v)).collect();
    let n = names(&list, |v| v.0);
    ty(Shape::Enum(list, n))
}

#[derive(Debug, PartialEq, Clone)]
pub enum Val {
    Str(String),
    Int(i32),
    Bool(bool),
    Char(char),
    Unit,
    Ignored,
    None,
    Some(Box<Val>),
    New(Box<Val>),
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
    Fields(Vec<(Name, Val)>),
    Variant(Name, Box<Val>),
}

/// Short text for a type.
impl fmt::Display for Shape {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fn several(f: &mut fmt::Formatter, l: &[Ty]) -> fmt::Result {
            f.write_str("(")?;
            for (i, t) in l.iter().enumerate() {
                write!(f, "{}{}", if i > 0 { ", " } else { "" }, t)?;
            }
            f.write_str(")")
        }
        fn named(f: &mut fmt::Formatter, l: &Fields) -> fmt::Result {
            f.write_str("{")?;
            for (i, x) in l.list.iter().enumerate() {
                write!(f, "{}{}{}: {}", if i > 0 { ", " } else { "" }, x.name, if x.default { "?" } else { "" }, x.ty)?;
            }
            f.write_str(if l.deny { ", none other}" } else { "}" })
        }
        match self {
            Shape::Str => f.write_str("String"),
            Shape::Int => f.write_str("i32"),
            Shape::Bool => f.write_str("bool"),
            Shape::Char => f.write_str("char"),
            Shape::Unit => f.write_str("()"),
            Shape::Ignored => f.write_str("IgnoredAny"),
            Shape::Any => f.write_str("Any"),
            Shape::Opt(t) => write!(f, "Option<{}>", t),
            Shape::New(t) => write!(f, "New<{}>", t),
            Shape::Seq(t) => write!(f, "Vec<{}>", t),
            Shape::Map(t) => write!(f, "Map<{}>", t),
            Shape::Head(n, t) => write!(f, "Map<{}; first {}>", t, n),
            Shape::Tuple(l) => several(f, l),
            Shape::Struct(l) => named(f, l),
            Shape::Enum(l, _) => {
                f.write_str("enum[")?;
                for (i, (n, v)) in l.iter().enumerate() {
                    write!(f, "{}{}", if i > 0 { " | " } else { "" }, n)?;
                    match v {
                        Var::Unit => {}
                        Var::New(t) => write!(f, "({})", t)?,
                        Var::Tuple(l) => several(f, l)?,
                        Var::Struct(l) => named(f, l)?,
                    }
                }
                f.write_str("]")
            }
        }
    }
}

thread_local! {
    static TYPE_NAME: std::cell::Cell<Name> = std::cell::Cell::new("Type");
}
/// Makes this the name of all types.
pub fn call_types(n: Name) {
    TYPE_NAME.with(|c| c.set(n));
}
fn type_name() -> Name {
    TYPE_NAME.with(|c| c.get())
}

/// A type as what it is read with.
#[derive(Clone, Copy)]
pub struct Seed(pub Ty);

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Shape::Str => <String as de::Deserialize>::deserialize(d).map(Val::Str),
            Shape::Int => <i32 as de::Deserialize>::deserialize(d).map(Val::Int),
            Shape::Bool => <bool as de::Deserialize>::deserialize(d).map(Val::Bool),
            Shape::Char => <char as de::Deserialize>::deserialize(d).map(Val::Char),
            Shape::Unit => <() as de::Deserialize>::deserialize(d).map(|()| Val::Unit),
            Shape::Ignored => <IgnoredAny as de::Deserialize>::deserialize(d).map(|_| Val::Ignored),
            Shape::Any => d.deserialize_any(AnyVisitor),
            Shape::Opt(t) => d.deserialize_option(OptVisitor(t)),
            Shape::New(t) => d.deserialize_newtype_struct(type_name(), NewVisitor(t)),
            Shape::Seq(t) => d.deserialize_seq(SeqVisitor(t)),
            Shape::Map(t) => d.deserialize_map(MapVisitor(t, usize::MAX)),
            Shape::Head(n, t) => d.deserialize_map(MapVisitor(t, *n)),
            Shape::Tuple(l) => d.deserialize_tuple(l.len(), TupleVisitor(l)),
            Shape::Struct(l) => d.deserialize_struct(type_name(), l.names, FieldsVisitor(l)),
            Shape::Enum(l, names) => d.deserialize_enum(type_name(), names, EnumVisitor(l)),
        }
    }
}

macro_rules! expecting {
    ($s:literal) => {
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str($s)
        }
    };
}

struct AnyVisitor;
impl<'de> de::Visitor<'de> for AnyVisitor {
    type Value = Val;
    expecting!("anything");
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Val, E> {
        Ok(Val::Str(s.to_owned()))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        MapVisitor(&Shape::Any, usize::MAX).visit_map(a)
    }
}

struct OptVisitor(Ty);
impl<'de> de::Visitor<'de> for OptVisitor {
    type Value = Val;
    expecting!("an option");
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d).map(|v| Val::Some(Box::new(v)))
    }
}

struct NewVisitor(Ty);
impl<'de> de::Visitor<'de> for NewVisitor {
    type Value = Val;
    expecting!("a newtype");
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d).map(|v| Val::New(Box::new(v)))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(v) => Ok(Val::New(Box::new(v))),
            None => Err(A::Error::invalid_length(0, &self)),
        }
    }
}

struct SeqVisitor(Ty);
impl<'de> de::Visitor<'de> for SeqVisitor {
    type Value = Val;
    expecting!("a sequence");
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
        }
        Ok(Val::List(v))
    }
}

struct TupleVisitor(&'static [Ty]);
impl<'de> de::Visitor<'de> for TupleVisitor {
    type Value = Val;
    expecting!("a tuple");
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for t in self.0 {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(A::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(Val::List(v))
    }
}

struct MapVisitor(Ty, usize);
impl<'de> de::Visitor<'de> for MapVisitor {
    type Value = Val;
    expecting!("a map");
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while v.len() < self.1 {
            match a.next_key::<String>()? {
                Some(k) => v.push((k, a.next_value_seed(Seed(self.0))?)),
                None => break,
            }
        }
        Ok(Val::Map(v))
    }
}

/// The name of a field or variant.
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = String;
            expecting!("an identifier");
            fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
                Ok(s.to_owned())
            }
        }
        d.deserialize_identifier(V)
    }
}

struct FieldsVisitor(&'static Fields);
impl<'de> de::Visitor<'de> for FieldsVisitor {
    type Value = Val;
    expecting!("a struct");
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for f in &self.0.list {
            match a.next_element_seed(Seed(f.ty))? {
                Some(x) => v.push((f.name, x)),
                None if f.default => v.push((f.name, Val::List(vec![]))),
                None => return Err(A::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(Val::Fields(v))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v: Vec<Option<Val>> = self.0.list.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(Ident)? {
            match self.0.list.iter().position(|f| f.name == k) {
                Some(i) if v[i].is_some() => return Err(A::Error::duplicate_field(self.0.list[i].name)),
                Some(i) => v[i] = Some(a.next_value_seed(Seed(self.0.list[i].ty))?),
                None if self.0.deny => return Err(A::Error::unknown_field(&k, self.0.names)),
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (f, x) in self.0.list.iter().zip(v) {
            out.push((
                f.name,
                match (x, f.ty) {
                    (Some(x), _) => x,
                    (None, _) if f.default => Val::List(vec![]),
                    (None, Shape::Opt(_)) => Val::None,
                    (None, _) => return Err(A::Error::missing_field(f.name)),
                },
            ));
        }
        Ok(Val::Fields(out))
    }
}

struct EnumVisitor(&'static [(Name, Var)]);
impl<'de> de::Visitor<'de> for EnumVisitor {
    type Value = Val;
    expecting!("an enum");
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        use de::VariantAccess;
        let (name, a) = a.variant_seed(Ident)?;
        let (name, var) = match self.0.iter().find(|v| v.0 == name) {
            Some(v) => v,
            None => return Err(A::Error::custom("unknown variant")),
        };
        let v = match var {
            Var::Unit => {
                a.unit_variant()?;
                Val::Unit
            }
            Var::New(t) => a.newtype_variant_seed(Seed(t))?,
            Var::Tuple(l) => a.tuple_variant(l.len(), TupleVisitor(l))?,
            Var::Struct(f) => a.struct_variant(f.names, FieldsVisitor(f))?,
        };
        Ok(Val::Variant(name, Box::new(v)))
    }
}

/// What kinds of types there are in a type.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Kinds {
    pub list: bool,
    pub tuple: bool,
    pub structure: bool,
    pub dollar: bool,
    pub choice: bool,
    pub any: bool,
    pub map: bool,
    pub boolean: bool,
    pub option: bool,
}

pub fn kinds(t: Ty) -> Kinds {
    fn of_fields(f: &Fields, k: &mut Kinds) {
        for x in &f.list {
            if x.name == "$value" {
                k.dollar = true;
            } else {
                k.structure = true;
            }
            go(x.ty, k);
        }
    }
    fn go(t: Ty, k: &mut Kinds) {
        match t {
            Shape::Str | Shape::Int | Shape::Char | Shape::Unit | Shape::Ignored => {}
            Shape::Bool => k.boolean = true,
            Shape::Any => k.any = true,
            Shape::Opt(t) => {
                k.option = true;
                go(t, k);
            }
            Shape::New(t) => go(t, k),
            Shape::Seq(t) => {
                k.list = true;
                go(t, k)
            }
            Shape::Map(t) | Shape::Head(_, t) => {
                k.map = true;
                go(t, k)
            }
            Shape::Tuple(l) => {
                k.tuple = true;
                l.iter().for_each(|t| go(t, k));
            }
            Shape::Struct(f) => of_fields(f, k),
            Shape::Enum(l, _) => {
                k.choice = true;
                for (_, v) in l {
                    match v {
                        Var::Unit => {}
                        Var::New(t) => go(t, k),
                        Var::Tuple(l) => {
                            k.tuple = true;
                            l.iter().for_each(|t| go(t, k))
                        }
                        Var::Struct(f) => of_fields(f, k),
                    }
                }
            }
        }
    }
    let mut k = Kinds::default();
    go(t, &mut k);
    k
}

/// All types of up to `max` parts, by number of parts. Fields and variants are named `a` and `b`.
pub fn all(max: usize) -> Vec<Ty> {
    let mut by: Vec<Vec<Ty>> = vec![vec![]];
    use Shape::*;
    for n in 1..=max {
        let mut l: Vec<Ty> = vec![];
        if n == 1 {
            l.extend([Str, Int, Bool, Unit, Any].map(ty));
        }
        if n == 2 {
            l.push(choice(vec![("a", Var::Unit), ("b", Var::Unit)]));
            l.push(structure(vec![]));
        }
        for &t in &by[n - 1] {
            if !matches!(t, Opt(_)) {
                l.push(ty(Opt(t)));
            }
            if !matches!(t, New(_)) {
                l.push(ty(New(t)));
            }
            l.push(ty(Seq(t)));
            l.push(ty(Map(t)));
            l.push(structure(vec![("a", t)]));
            l.push(structure(vec![("$value", t)]));
            l.push(choice(vec![("a", Var::New(t)), ("b", Var::Unit)]));
        }
        // Variants with fields count as one more
        if n >= 2 {
            for &t in &by[n - 2] {
                l.push(choice(vec![("a", Var::Struct(fields(vec![("b", t)]))), ("b", Var::Unit)]));
                l.push(choice(vec![("a", Var::Struct(fields(vec![("$value", t)]))), ("b", Var::Unit)]));
            }
            for i in 1..n - 1 {
                let j = n - 1 - i;
                for &t in &by[i] {
                    for &u in &by[j] {
                        l.push(ty(Tuple(vec![t, u])));
                        l.push(structure(vec![("a", t), ("b", u)]));
                        l.push(structure(vec![("$value", t), ("a", u)]));
                        l.push(choice(vec![("a", Var::New(t)), ("b", Var::New(u))]));
                        l.push(choice(vec![("a", Var::Tuple(vec![t, u])), ("b", Var::Unit)]));
                    }
                }
            }
        }
        by.push(l);
    }
    by.into_iter().flatten().collect()
}

/// All contents of up to `max` parts: any of the texts, and elements named `a` and `b` with or without
/// attributes.
pub fn contents(max: usize, texts: &[&str]) -> Vec<String> {
    const STARTS: &[(&str, &str)] = &[("a", "<a>"), ("b", "<b>"), ("a", "<a b=1>"), ("b", "<b a>")];
    // By number of parts: all contents, and those starting with an element
    let mut by: Vec<Vec<(String, bool)>> = vec![vec![(String::new(), false)]];
    for n in 1..=max {
        let mut l = vec![];
        for t in texts {
            for (rest, text_first) in &by[n - 1] {
                if !text_first {
                    l.push((format!("{}{}", t, rest), true));
                }
            }
        }
        for (name, start) in STARTS {
            for i in 0..n {
                for (inner, _) in &by[i] {
                    for (rest, _) in &by[n - 1 - i] {
                        l.push((format!("{}{}</{}>{}", start, inner, name, rest), false));
                        if inner.is_empty() && rest.is_empty() {
                            l.push((format!("{}/>", &start[..start.len() - 1].replace("=1", "='1'").replace(" a", " a='a'")), false));
                        }
                    }
                }
            }
        }
        by.push(l);
    }
    by.into_iter().flatten().map(|x| x.0).collect()
}

/// Types that do not ask for all there is: the first items of a list or entries of a map, in places
/// where something follows.
pub fn partial(max: usize) -> Vec<Ty> {
    use Shape::*;
    let mut out = vec![];
    let (s, any) = (ty(Str), ty(Any));
    for t in all(max) {
        let mut heads = vec![ty(Tuple(vec![])), ty(Tuple(vec![t])), ty(Tuple(vec![t, t, t]))];
        heads.extend((0..3).map(|n| ty(Head(n, t))));
        for h in heads {
            out.push(h);
            out.push(ty(Seq(h)));
            out.push(ty(Map(h)));
            out.push(ty(Opt(h)));
            out.push(structure(vec![("$value", h)]));
            out.push(structure(vec![("a", h), ("b", ty(Opt(any)))]));
            out.push(structure(vec![("a", ty(Seq(h))), ("b", ty(Seq(s)))]));
            out.push(ty(Tuple(vec![h, any])));
            out.push(choice(vec![("a", Var::New(h)), ("b", Var::New(t))]));
            out.push(choice(vec![("a", Var::Tuple(vec![h, s])), ("b", Var::Unit)]));
            out.push(structure(vec![("$value", ty(Seq(choice(vec![("a", Var::New(h)), ("b", Var::New(any))]))))]));
        }
    }
    out
}

/// The type with all types in it replaced by options, or newtypes, of them.
pub fn wrapped(t: Ty, wrap: fn(Ty) -> Shape) -> Ty {
    use Shape::*;
    let of = |t: Ty| -> Ty {
        match t {
            Opt(_) => wrapped(t, wrap),
            _ => ty(wrap(wrapped(t, wrap))),
        }
    };
    let of_fields = |f: &Fields| Fields {
        list: f.list.iter().map(|x| Field { name: x.name, ty: of(x.ty), default: x.default }).collect(),
        names: f.names,
        deny: f.deny,
    };
    ty(match t {
        Str | Int | Bool | Char | Unit | Ignored | Any => return t,
        Opt(t) => Opt(wrapped(t, wrap)),
        New(t) => New(of(t)),
        Seq(t) => Seq(of(t)),
        Map(t) => Map(of(t)),
        Head(n, t) => Head(*n, of(t)),
        Tuple(l) => Tuple(l.iter().map(|t| of(t)).collect()),
        Struct(f) => Struct(of_fields(f)),
        Enum(l, names) => Enum(
            l.iter()
                .map(|(n, v)| {
                    let v = match v {
                        Var::Unit => Var::Unit,
                        Var::New(t) => Var::New(of(t)),
                        Var::Tuple(l) => Var::Tuple(l.iter().map(|t| of(t)).collect()),
                        Var::Struct(f) => Var::Struct(of_fields(f)),
                    };
                    (*n, v)
                })
                .collect(),
            names,
        ),
    })
}

/// A value without options and newtypes.
pub fn bare(v: &Val) -> Val {
    let all = |l: &[Val]| l.iter().map(bare).collect();
    match v {
        Val::Some(v) | Val::New(v) => bare(v),
        Val::List(l) => Val::List(all(l)),
        Val::Map(l) => Val::Map(l.iter().map(|(k, v)| (k.clone(), bare(v))).collect()),
        Val::Fields(l) => Val::Fields(l.iter().map(|(k, v)| (*k, bare(v))).collect()),
        Val::Variant(n, v) => Val::Variant(n, Box::new(bare(v))),
        v => v.clone(),
    }
}
