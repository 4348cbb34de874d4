//! Deserialization, as the reference: reads types from an element tree, instead of from a list of
//! events.
//!
//! A value is read from the value of an attribute, from text, or from the content of an element,
//! of which it takes one child or more, leaving the others for what comes next.

use crate::tree::{Kid, Node};
use serde::de::{self, Deserialize, DeserializeSeed, Error as _, IntoDeserializer, Visitor};

pub type Error = de::value::Error;
type Res<T> = Result<T, Error>;

/// The content of an element, being read.
struct Content<'n> {
    kids: &'n [Kid],
    pos: usize,
    /// Whether it is all there is, rather than ending in an end tag.
    root: bool,
    /// How many values were taken from it.
    taken: usize,
}

fn wrong<T>(what: &str) -> Res<T> {
    Err(Error::custom(what))
}

impl<'n> Content<'n> {
    fn of(n: &'n Node) -> Self {
        Content { kids: &n.kids, pos: 0, root: false, taken: 0 }
    }
    fn node(&self) -> Res<&'n Node> {
        match self.kids.get(self.pos) {
            Some(Kid::Node(n)) => Ok(n),
            _ => wrong("no element"),
        }
    }
    fn take(&mut self) -> Res<&'n Node> {
        let n = self.node()?;
        self.pos += 1;
        self.taken += 1;
        Ok(n)
    }
}

enum From<'a, 'n> {
    Attr(&'n str, Option<&'n str>),
    Text(String),
    Content(&'a mut Content<'n>),
}

struct De<'a, 'n> {
    from: From<'a, 'n>,
    /// The name of what is being read, if it is an entry of a map or an item of a list.
    key: Option<&'n str>,
    /// Whether the name of the element was that of a newtype variant.
    in_variant: bool,
}

pub fn read<T: for<'x> Deserialize<'x>>(root: &Node) -> Res<T> {
    let kids = [Kid::Node(root.clone())];
    let mut c = Content { kids: &kids, pos: 0, root: true, taken: 0 };
    T::deserialize(De { from: From::Content(&mut c), key: None, in_variant: false })
}

pub fn read_seed<S: for<'x> DeserializeSeed<'x, Value = V>, V>(seed: S, root: &Node) -> Res<V> {
    let kids = [Kid::Node(root.clone())];
    let mut c = Content { kids: &kids, pos: 0, root: true, taken: 0 };
    seed.deserialize(De { from: From::Content(&mut c), key: None, in_variant: false })
}

fn children(n: &Node) -> bool {
    n.nodes().next().is_some()
}

/// Text there is in an element itself.
fn own_text(n: &Node) -> String {
    n.kids
        .iter()
        .map(|k| match k {
            Kid::Text(t) => &t[..],
            Kid::Node(_) => "",
        })
        .collect()
}

fn map<'de, 'n, V: Visitor<'de>>(n: &'n Node, dollar_value: bool, v: V) -> Res<V::Value> {
    let mut c = Content::of(n);
    v.visit_map(Entries { n, attr: 0, content: &mut c, dollar_value, text_done: false, at: At::None })
}

impl<'a, 'n> De<'a, 'n> {
    fn text(self) -> Res<String> {
        Ok(match self.from {
            From::Attr(_, v) => v.unwrap_or("").to_owned(),
            From::Text(t) => t,
            From::Content(c) => c.take()?.text(),
        })
    }
    fn parse<T: std::str::FromStr>(self) -> Res<T> {
        self.text()?.parse().or_else(|_| wrong("not a number"))
    }
}

macro_rules! numbers {
    ($($f:ident $v:ident)*) => {
        $(fn $f<V: Visitor<'de>>(self, v: V) -> Res<V::Value> { v.$v(self.parse()?) })*
    };
}
macro_rules! texts {
    ($($f:ident)*) => {
        $(fn $f<V: Visitor<'de>>(self, v: V) -> Res<V::Value> { v.visit_string(self.text()?) })*
    };
}

impl<'de, 'a, 'n> de::Deserializer<'de> for De<'a, 'n> {
    type Error = Error;

    numbers! {
        deserialize_i8 visit_i8 deserialize_i16 visit_i16 deserialize_i32 visit_i32 deserialize_i64 visit_i64
        deserialize_u8 visit_u8 deserialize_u16 visit_u16 deserialize_u32 visit_u32 deserialize_u64 visit_u64
        deserialize_f32 visit_f32 deserialize_f64 visit_f64
    }
    texts! { deserialize_str deserialize_string deserialize_char deserialize_bytes deserialize_byte_buf deserialize_identifier }

    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let name = match self.from {
            From::Attr(n, _) => Some(n.to_ascii_lowercase()),
            _ => None,
        };
        let text = self.text()?.to_ascii_lowercase();
        match &text[..] {
            "1" | "true" => v.visit_bool(true),
            t if name.map_or(false, |n| t.is_empty() || t == n) => v.visit_bool(true),
            "0" | "false" => v.visit_bool(false),
            _ => wrong("not a boolean"),
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.text()?;
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        self.deserialize_unit(v)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_unit(v)
    }

    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let c = match self.from {
            From::Attr(..) => return wrong("a sequence in an attribute"),
            From::Text(_) => {
                let mut c = Content { kids: &[], pos: 0, root: false, taken: 0 };
                return v.visit_seq(Items { content: &mut c, name: None });
            }
            From::Content(c) => c,
        };
        if !self.in_variant {
            return v.visit_seq(Items { content: c, name: self.key });
        }
        let n = c.node()?;
        if !children(n) && own_text(n) != "" {
            // One of a run of such elements, holding an item each
            return v.visit_seq(Items { content: c, name: Some(&n.name) });
        }
        c.take()?;
        v.visit_seq(Items { content: &mut Content::of(n), name: None })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Res<V::Value> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Res<V::Value> {
        self.deserialize_seq(v)
    }

    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.from {
            From::Content(c) => map(c.take()?, false, v),
            _ => wrong("a map from text"),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Res<V::Value> {
        match self.from {
            From::Content(c) => map(c.take()?, fields.contains(&"$value"), v),
            _ => wrong("a struct from text"),
        }
    }

    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Res<V::Value> {
        let c = match self.from {
            From::Content(c) => c,
            _ => return v.visit_enum(Named(self.text()?)),
        };
        let n = c.node()?;
        if self.in_variant && !children(n) && own_text(n) != "" {
            c.take()?;
            return v.visit_enum(Named(n.text()));
        }
        let (mut inner, c) = if self.in_variant {
            c.take()?;
            (Some(Content::of(n)), None)
        } else if self.key == Some(&n.name) {
            c.take()?;
            if !children(n) {
                return v.visit_enum(Named(n.text()));
            }
            (Some(Content::of(n)), None)
        } else {
            (None, Some(c))
        };
        v.visit_enum(Variant(inner.as_mut().or(c).unwrap()))
    }

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = match &self.from {
            From::Content(c) => c.node()?,
            _ => return self.deserialize_str(v),
        };
        if children(n) {
            self.deserialize_map(v)
        } else if !n.attrs.is_empty() {
            match self.from {
                From::Content(c) => map(c.take()?, true, v),
                _ => unreachable!(),
            }
        } else if own_text(n) != "" {
            self.deserialize_str(v)
        } else {
            self.deserialize_unit(v)
        }
    }
}

enum At {
    None,
    Attr,
    Element,
    DollarElement,
    Text,
}

struct Entries<'a, 'n> {
    n: &'n Node,
    attr: usize,
    content: &'a mut Content<'n>,
    dollar_value: bool,
    text_done: bool,
    at: At,
}

impl<'de, 'a, 'n> de::MapAccess<'de> for Entries<'a, 'n> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Res<Option<K::Value>> {
        let key = if let Some((name, _)) = self.n.attrs.get(self.attr) {
            self.at = At::Attr;
            name
        } else if self.dollar_value && !children(self.n) {
            if self.text_done {
                return Ok(None);
            }
            self.at = At::Text;
            "$value"
        } else {
            while let Some(Kid::Text(_)) = self.content.kids.get(self.content.pos) {
                self.content.pos += 1;
            }
            match self.content.kids.get(self.content.pos) {
                Some(Kid::Node(_)) if self.dollar_value => {
                    self.at = At::DollarElement;
                    "$value"
                }
                Some(Kid::Node(n)) => {
                    self.at = At::Element;
                    &n.name
                }
                _ => return Ok(None),
            }
        };
        seed.deserialize(key.into_deserializer()).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Res<T::Value> {
        let de = |from, key| De { from, key, in_variant: false };
        match self.at {
            At::Attr => {
                let (name, value) = &self.n.attrs[self.attr];
                self.attr += 1;
                seed.deserialize(de(From::Attr(name, value.as_deref()), None))
            }
            At::Text => {
                self.text_done = true;
                seed.deserialize(de(From::Text(own_text(self.n)), None))
            }
            At::Element | At::DollarElement => {
                let n = self.content.node()?;
                let key = if let At::Element = self.at { Some(&n.name[..]) } else { None };
                let taken = self.content.taken;
                let v = seed.deserialize(de(From::Content(&mut *self.content), key))?;
                if self.content.taken == taken {
                    return wrong("nothing was read");
                }
                Ok(v)
            }
            At::None => panic!("a value before its key"),
        }
    }
}

struct Items<'a, 'n> {
    content: &'a mut Content<'n>,
    /// The name of all items, if they have one.
    name: Option<&'n str>,
}

impl<'de, 'a, 'n> de::SeqAccess<'de> for Items<'a, 'n> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Res<Option<T::Value>> {
        while matches!(self.content.kids.get(self.content.pos), Some(Kid::Text(t)) if t.is_empty()) {
            self.content.pos += 1;
        }
        if self.content.root && self.content.pos == self.content.kids.len() {
            return wrong("a list that never ends");
        }
        match self.content.node() {
            Ok(n) if self.name.map_or(true, |x| x == n.name) => {}
            _ => return Ok(None),
        }
        let taken = self.content.taken;
        let v = seed.deserialize(De { from: From::Content(&mut *self.content), key: self.name, in_variant: false })?;
        if self.content.taken == taken {
            return wrong("nothing was read");
        }
        Ok(Some(v))
    }
}

/// A variant named by text.
struct Named(String);

impl<'de> de::EnumAccess<'de> for Named {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Res<(T::Value, Self)> {
        let v = seed.deserialize(self.0.clone().into_deserializer())?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for Named {
    type Error = Error;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Res<T::Value> {
        wrong("no data")
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Res<V::Value> {
        wrong("no data")
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Res<V::Value> {
        wrong("no data")
    }
}

/// A variant named by the next element.
struct Variant<'a, 'n>(&'a mut Content<'n>);

impl<'de, 'a, 'n> de::EnumAccess<'de> for Variant<'a, 'n> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Res<(T::Value, Self)> {
        let v = seed.deserialize(self.0.node()?.name.clone().into_deserializer())?;
        Ok((v, self))
    }
}
impl<'de, 'a, 'n> de::VariantAccess<'de> for Variant<'a, 'n> {
    type Error = Error;
    fn unit_variant(self) -> Res<()> {
        self.0.take().map(|_| ())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Res<T::Value> {
        seed.deserialize(De { from: From::Content(self.0), key: None, in_variant: true })
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Res<V::Value> {
        let name = &self.0.node()?.name;
        v.visit_seq(Items { content: self.0, name: Some(name) })
    }
    fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], v: V) -> Res<V::Value> {
        map(self.0.take()?, fields.contains(&"$value"), v)
    }
}
