//! Properties of deserialization (D..).
use mc::conf::{Conf, Ms, DEFAULT};
use mc::engine::{self, note, space, Cx, Property, Seqs, Space, Verdict};
use mc::fills::{self, Fills};
use mc::refde;
use mc::refparse::{self as model, Ev};
use mc::tree::{tree, Kid, Node, Tree};
use serde::de::{self, DeserializeOwned, IgnoredAny};
use serde::Deserialize;
use sgmlish::de::DeserializationError;
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::{self, Debug};

const CONF: Conf = Conf { ents: true, ms: Ms::All, ..DEFAULT };
const RAW: Conf = Conf { trim: false, ..CONF };

fn parsers() -> (Parser, Parser) {
    (CONF.parser(), RAW.parser())
}

fn read<T: DeserializeOwned>(p: &Parser, doc: &str) -> Result<T, String> {
    p.parse(doc)
        .map_err(|e| format!("not parsed: {}", e))?
        .deserialize()
        .map_err(|e: DeserializationError| e.to_string())
}

/// Compares what is read with what should be; `Err` stands for any error.
fn expect<T: Debug + PartialEq>(doc: &str, what: &str, want: &Result<T, ()>, got: &Result<T, String>, cx: &mut Cx) -> Verdict {
    cx.checked();
    let ok = match (want, got) {
        (Ok(w), Ok(g)) => w == g,
        (Err(()), Err(_)) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("document: {:?}\n{}\nexpected: {:?}\ngot: {:?}", doc, what, want, got))
    }
}

// ---------------------------------------------------------------------------------------------
// A menu of target types

#[derive(Debug, Deserialize, PartialEq, Clone, Default)]
struct S {
    a: Option<String>,
    b: Option<i32>,
    c: Option<bool>,
    d: Option<Box<S>>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct Required {
    a: String,
    b: i32,
}
#[derive(Debug, Deserialize, PartialEq)]
struct Lists {
    #[serde(default)]
    a: Vec<String>,
    #[serde(default)]
    b: Vec<S>,
    #[serde(default)]
    c: Vec<Option<String>>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct Valued<T> {
    a: Option<String>,
    #[serde(rename = "$value")]
    value: T,
}
#[derive(Debug, Deserialize, PartialEq)]
struct ValuedOr<T> {
    a: Option<String>,
    #[serde(rename = "$value")]
    value: Option<T>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct Unit;
#[derive(Debug, Deserialize, PartialEq)]
struct New<T>(T);
#[derive(Debug, Deserialize, PartialEq)]
struct Pair<T, U>(T, U);
#[derive(Debug, Deserialize, PartialEq)]
struct Flat {
    a: Option<String>,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct FlatS {
    #[serde(flatten)]
    s: Strings,
    c: Option<String>,
}
#[derive(Debug, Deserialize, PartialEq, Default, Clone)]
struct Strings {
    a: Option<String>,
    b: Option<String>,
}
#[derive(Debug, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: Option<String>,
    b: Option<Box<Strict>>,
}
#[derive(Debug, Deserialize, PartialEq)]
enum En {
    a,
    b(String),
    c { a: Option<String>, b: Option<String> },
    d(Box<En>),
    e(i32, String),
}
#[derive(Debug, Deserialize, PartialEq)]
enum Ens {
    a(Vec<En>),
    b(S),
    c(Box<(En, En)>),
    d(Option<String>),
    x,
}
#[derive(Debug, Deserialize, PartialEq)]
#[serde(tag = "a")]
enum Internal {
    x {
        #[serde(rename = "$value")]
        value: String,
    },
    y {
        b: Option<String>,
    },
    z,
}
#[derive(Debug, Deserialize, PartialEq)]
#[serde(tag = "a", content = "b")]
enum Adjacent {
    x(String),
    y { c: String },
    z,
}
#[derive(Debug, Deserialize, PartialEq)]
#[serde(untagged)]
enum Untagged {
    Text(String),
    S { a: Option<String>, b: String },
    Map(BTreeMap<String, Any>),
    Unit,
}
#[derive(Debug, Deserialize, PartialEq)]
struct En2 {
    a: Option<En>,
    b: Option<En>,
    #[serde(default)]
    c: Vec<En>,
}

/// Whatever the deserializer says there is.
#[derive(Debug, PartialEq, Clone)]
enum Any {
    Unit,
    Text(String),
    Map(Vec<(String, Any)>),
}

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Any, E> {
                Ok(Any::Text(s.to_owned()))
            }
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Unit)
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(V)
    }
}

/// Bytes, through both kinds of visits.
#[derive(Debug, PartialEq)]
struct Bytes(Vec<u8>);

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(s.to_owned()))
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Bytes, E> {
                Ok(Bytes(s.as_bytes().to_owned()))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

type Reader = for<'a> fn(SgmlFragment<'a>) -> Result<String, DeserializationError>;

fn reader<T: DeserializeOwned + Debug>(f: SgmlFragment) -> Result<String, DeserializationError> {
    sgmlish::from_fragment::<T>(f).map(|v| format!("{:?}", v))
}
fn str_reader(f: SgmlFragment) -> Result<String, DeserializationError> {
    f.deserialize::<&str>().map(|v| format!("{:?}", v))
}
#[derive(Debug, Deserialize)]
struct Borrowed<'a> {
    #[serde(borrow)]
    a: Option<Cow<'a, str>>,
    b: Option<&'a str>,
}
fn borrowed_reader(f: SgmlFragment) -> Result<String, DeserializationError> {
    f.deserialize::<Borrowed>().map(|v| format!("{:?}", v))
}

type RefReader = fn(&Node) -> Result<String, refde::Error>;

fn ref_reader<T: DeserializeOwned + Debug>(n: &Node) -> Result<String, refde::Error> {
    refde::read::<T>(n).map(|v| format!("{:?}", v))
}
fn no_ref(_: &Node) -> Result<String, refde::Error> {
    Err(de::Error::custom("no reference"))
}

macro_rules! menu {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), reader::<$t> as Reader, ref_reader::<$t> as RefReader)),*, ("&str", str_reader as Reader, no_ref), ("Borrowed", borrowed_reader as Reader, no_ref)] };
}

#[derive(Debug, Deserialize, PartialEq)]
struct Zero {
    #[serde(default)]
    a: Vec<[String; 0]>,
    b: Option<Nothing>,
    #[serde(default)]
    c: Vec<Nothing>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct Nothing();

macro_rules! of_types {
    ($m:ident) => {
        $m![
            String, Option<String>, i32, u8, f64, bool, char, (), Unit, Bytes, Any, New<String>, New<S>, New<New<i32>>, IgnoredAny, S, Required, Lists,
            Valued<String>, Valued<i32>, Valued<Vec<En>>, Valued<En>, ValuedOr<String>, ValuedOr<Vec<Ens>>, Valued<S>, Valued<bool>, Valued<Vec<S>>, Valued<Any>,
            Vec<String>, Vec<S>, (String, String), Pair<String, i32>, [Option<String>; 2], Flat, FlatS, Strict, En, Vec<En>, Option<En>, En2, Ens, Internal, Adjacent,
            Untagged, BTreeMap<String, String>, BTreeMap<String, Any>, BTreeMap<String, Vec<String>>, BTreeMap<String, En>, BTreeMap<String, Option<S>>, BTreeMap<En, String>, BTreeMap<String, bool>,
            Zero, BTreeMap<String, [String; 0]>, Valued<Vec<Nothing>>,
        ]
    };
}

const MENU: &[(&str, Reader, RefReader)] = of_types!(menu);

/// Compares what is read, as all types whose name passes, with what the reference reads.
fn as_reference(doc: &str, c: &Conf, p: &Parser, which: fn(&str) -> bool, cx: &mut Cx) -> Verdict {
    let evs = match model::parse(doc, c) {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    let o = match tree(&evs) {
        Tree::Root(n, len) if len == evs.len() => n,
        _ => return Ok(()),
    };
    let f = match p.parse(doc) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    for (name, read, reference) in MENU {
        if !which(name) || matches!(*name, "&str" | "Borrowed") {
            continue;
        }
        note(|| format!("{:?} as {}", doc, name));
        cx.op();
        cx.checked();
        let want = reference(&o);
        let got = read(f.clone());
        cx.outcome(&(name, &got.as_ref().ok()));
        match (&want, &got) {
            (Ok(w), Ok(g)) if w == g => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("document: {:?}\nas {}\nexpected: {:?}\ngot: {:?}", doc, name, want, got)),
        }
    }
    Ok(())
}

impl PartialOrd for En {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Eq for En {}
impl Ord for En {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        format!("{:?}", self).cmp(&format!("{:?}", o))
    }
}

/// Documents for the menu.
const DOC: &[&str] = &[
    "<a>", "</a>", "<b>", "</b>", "x", "7", "<a b=1 a>", "<c/>", "<b a='x' c=\"0\" />", "<d>", "</d>", " ", "<e>", "</e>", "<x/>",
];

fn docs<F>(name: &str, toks: &'static [&'static str], pre: &'static str, post: &'static str, max: u32, judge: F) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let s = Seqs::new(toks.len(), 0, max);
    space(
        name,
        format!("documents: all sequences of 0..={} of {:?}, between {:?} and {:?}, trimmed and not", max, toks, pre, post),
        s.len(),
        move || {
            let (p, r) = parsers();
            let mut seq = vec![];
            let mut doc = String::new();
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                for (c, p) in [(&CONF, &p), (&RAW, &r)] {
                    doc.clear();
                    doc.push_str(pre);
                    for &t in &seq {
                        doc.push_str(toks[t]);
                    }
                    doc.push_str(post);
                    note(|| format!("{:?} under {:?}", doc, c));
                    cx.state();
                    judge(&doc, c, p, cx)?;
                }
                cx.sample(|| format!("{:?}", doc));
                Ok(())
            }
        },
    )
}

/// A space with each template with each of the strings in its holes (`§`) as a document.
fn holes<F>(name: &str, templates: &'static [&'static str], fills: Fills, judge: F) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let bound = format!("{:?}, with {} in place of §, trimmed and not", templates, fills.what);
    let list = std::sync::Arc::new(fills.list);
    let n = list.len() as u64;
    space(name, bound, n * templates.len() as u64, move || {
        let (p, r) = parsers();
        let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
        let list = list.clone();
        let mut doc = String::new();
        move |idx, cx: &mut Cx| {
            fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut doc);
            for (c, p) in [(&CONF, &p), (&RAW, &r)] {
                note(|| format!("{:?} under {:?}", doc, c));
                cx.state();
                judge(&doc, c, p, cx)?;
            }
            cx.sample(|| format!("{:?}", doc));
            Ok(())
        }
    })
}

fn sweep<F>(templates: &'static [&'static str], units: &[&str], max: u64, judge: F) -> Vec<Space>
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    vec![
        holes("fill-words", templates, fills::words(true), judge),
        holes("fill-ascii", templates, fills::ascii_pairs(), judge),
        holes("fill-pieces", templates, fills::ascii_pieces(), judge),
        holes("fill-characters", templates, fills::odd_scalars(), judge),
        holes("fill-huge", templates, fills::huge(units), judge),
        holes("fill-repeated", templates, fills::repeats(units, 140, max), judge),
    ]
}

/// Strings to be read, rather than documents.
fn strings<F>(name: &str, fills: Fills, judge: F) -> Space
where
    F: Fn(&str, &Parser, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let bound = format!("{}, except for what is markup", fills.what);
    let list: Vec<String> = fills.list.into_iter().filter(|s| !s.contains(|c| "<>&'\"".contains(c))).collect();
    let list = std::sync::Arc::new(list);
    space(name, bound, list.len() as u64, move || {
        let (p, r) = parsers();
        let list = list.clone();
        move |idx, cx: &mut Cx| {
            let s = &list[idx as usize];
            note(|| format!("{:?}", s));
            cx.state();
            cx.sample(|| s.clone());
            judge(s, &p, &r, cx)
        }
    })
}

/// Markup for documents that are compared with the reference.
const REF: &[&str] = &[
    "<a>", "</a>", "<b>", "</b>", "x", "7", "<a b=1 a>", "<c/>", "<b a='x' c=\"0\" />", "<d>", "</d>", " ", "<e>", "</e>", "<x/>", "<![CDATA[]]>",
];

/// All documents up to some length, and the filled templates, compared with the reference.
fn reference_spaces(max: u32, templates: &'static [&'static str], units: &[&str], which: fn(&str) -> bool) -> Vec<Space> {
    let judge = move |doc: &str, c: &Conf, p: &Parser, cx: &mut Cx| as_reference(doc, c, p, which, cx);
    let mut v = vec![
        docs("reference", REF, "", "", max, judge),
        docs("reference-in-root", REF, "<o>", "</o>", max, judge),
        docs("reference-in-enum", REF, "<o><b>", "</b></o>", max - 1, judge),
    ];
    v.extend(sweep(templates, units, 5000, judge));
    // Every level has text or attributes, so that none can be passed over
    const NESTED: &[(&str, &str, &str)] = &[
        ("<z>", "x", "</z>"),
        ("<z>1", "2", "3</z>"),
        ("<z><y/>", "x", "<y>w</y></z>"),
        ("<a>x", "<a/>", "</a>"),
        ("<a b='1'>", "<b>2</b>", "</a>"),
        ("<d><a>x</a>", "", "<b>1</b></d>"),
        ("<d>", "<e>1</e>", "</d>"),
        ("<e>", "1", "</e><e>2</e>"),
    ];
    v.push(holes("fill-nested", templates, fills::nested(NESTED, 40, 260), judge));
    v
}

// ---------------------------------------------------------------------------------------------
// D01: fields

/// What a part of an element brings to it.
#[derive(Clone)]
enum Part {
    A(&'static str),
    B(i32),
    C(bool),
    D(fn() -> S),
    Nothing,
    Bad,
}

/// The reference: every field is given at most once.
fn fields(parts: &[&Part]) -> Result<S, ()> {
    let mut s = S::default();
    for p in parts {
        match p {
            Part::A(v) if s.a.is_none() => s.a = Some(v.to_string()),
            Part::B(v) if s.b.is_none() => s.b = Some(*v),
            Part::C(v) if s.c.is_none() => s.c = Some(*v),
            Part::D(v) if s.d.is_none() => s.d = Some(Box::new(v())),
            Part::Nothing => {}
            _ => return Err(()),
        }
    }
    Ok(s)
}

fn d01(thorough: bool) -> Vec<Space> {
    use Part::*;
    fn deep() -> S {
        S { a: Some("deep".into()), ..S::default() }
    }
    fn deeper() -> S {
        S { b: Some(1), c: Some(true), d: Some(Box::new(S::default())), ..S::default() }
    }
    const ATTRS: &[(&str, Part)] = &[
        (" a='x>'", A("x>")),
        (" a=\"\"", A("")),
        (" a=' y '", A(" y ")),
        (" a", A("")),
        (" a='&amp;#65;'", A("&#65;")),
        (" b=12", B(12)),
        (" b='1x'", Bad),
        (" c", C(true)),
        (" c='False'", C(false)),
        (" z='unknown'", Nothing),
        (" A=other", Nothing),
        ("\n", Nothing),
    ];
    const KIDS: &[(&str, Part)] = &[
        ("<a>x</a>", A("x")),
        ("<a></a>", A("")),
        ("<a/>", A("")),
        ("<a b=2 z> y<!-- a -->z </a>", A("yz")),
        ("<a><![CDATA[<b>]]></a>", A("<b>")),
        ("<a><b>1</b><a>2</a></a>", A("12")),
        ("<b> -7 </b>", B(-7)),
        ("<b></b>", Bad),
        ("<c>1</c>", C(true)),
        ("<c>false</c>", C(false)),
        ("<d><a>deep</a></d>", D(deep)),
        ("<d a='deep'/>", D(deep)),
        ("<d b=1><c>true</c><d></d></d>", D(deeper)),
        ("<z><a>no</a><z b=c /><b>9</b></z>", Nothing),
        ("<z/>", Nothing),
        ("text", Nothing),
        ("<!-- <a>no</a> -->", Nothing),
        ("\n  ", Nothing),
        ("<A>no</A>", Nothing),
    ];
    let d = thorough as u32;
    let at = Seqs::new(ATTRS.len(), 0, 2);
    let ki = Seqs::new(KIDS.len(), 0, 3 + d);
    // More attributes with fewer children, and so on
    let at2 = Seqs::new(ATTRS.len(), 0, 4 + d);
    let ki2 = Seqs::new(KIDS.len(), 0, 1);
    let make = |name: &str, at: Seqs, ki: Seqs| {
        space(
            name,
            format!(
                "elements with all sequences of 0..={} of the attributes {:?} and 0..={} of the content {:?}",
                at.max,
                ATTRS.iter().map(|a| a.0).collect::<Vec<_>>(),
                ki.max,
                KIDS.iter().map(|a| a.0).collect::<Vec<_>>()
            ),
            at.len() * ki.len(),
            move || {
                let (p, _) = parsers();
                let (mut sa, mut sk) = (vec![], vec![]);
                move |idx, cx: &mut Cx| {
                    at.decode(idx % at.len(), &mut sa);
                    ki.decode(idx / at.len(), &mut sk);
                    let mut doc = String::from("<r");
                    let mut parts = vec![];
                    for &i in &sa {
                        doc.push_str(ATTRS[i].0);
                        parts.push(&ATTRS[i].1);
                    }
                    let tag_end = doc.len();
                    doc.push('>');
                    for &i in &sk {
                        doc.push_str(KIDS[i].0);
                        parts.push(&KIDS[i].1);
                    }
                    doc.push_str("</r>");
                    let want = fields(&parts);
                    cx.outcome(&format!("{:?}", want));
                    let mut forms = vec![doc.clone()];
                    if sk.is_empty() {
                        forms.push(format!("{} />", &doc[..tag_end]));
                    }
                    for doc in forms {
                        note(|| format!("{:?}", doc));
                        cx.state();
                        cx.op();
                        expect(&doc, "as a struct", &want, &read::<S>(&p, &doc), cx)?;
                        cx.op();
                        let w = match &want {
                            Ok(S { a: Some(a), b: Some(b), .. }) => Some(Ok(Required { a: a.clone(), b: *b })),
                            Ok(_) => Some(Err(())),
                            // The wrong field may be none of these
                            Err(()) => None,
                        };
                        let got = read::<Required>(&p, &doc);
                        if let Some(w) = w {
                            expect(&doc, "as a struct with required fields", &w, &got, cx)?;
                        }
                        // Within others
                        let outer = format!("<o b=5>{}<c>0</c></o>", doc.replace("<r", "<d").replace("</r", "</d"));
                        let w = want.clone().map(|s| S { d: Some(Box::new(s)), b: Some(5), c: Some(false), a: None });
                        cx.op();
                        expect(&outer, "as a field", &w, &read::<S>(&p, &outer), cx)?;
                        let outer = format!("<o><b/>{0}{0}<z/></o>", doc.replace("<r", "<l").replace("</r", "</l"));
                        #[derive(Debug, Deserialize, PartialEq)]
                        struct L {
                            l: Vec<S>,
                        }
                        let w = want.clone().map(|s| L { l: vec![s.clone(), s] });
                        cx.op();
                        expect(&outer, "as items", &w, &read::<L>(&p, &outer), cx)?;
                    }
                    cx.sample(|| doc);
                    Ok(())
                }
            },
        )
    };
    let mut v = vec![make("fields", at, ki), make("attributes", at2, ki2)];
    v.extend(reference_spaces(
        4 + d,
        &[
            "<r a='§' b='1'><c>1</c></r>", "<r b=\"2\" a=\"§\"/>", "<r><a>§</a><b>2</b></r>", "<r><d a=§ /></r>", "<r><§>x</§><a>1</a></r>", "<r §='x'><b>1</b></r>", "<r §><b>1</b></r>",
            "<r><b>1</b>§<a>2</a></r>", "<§ a='1'><b>§</b></§>", "<r><a z='§'>x</a><b>1</b></r>",
        ],
        &["x", " z", "<z/>", "<a/>", "<z>y</z>", "<!-- -->", " y=z", "\n", "&amp;"],
        |n| matches!(n, "S" | "Required" | "Lists" | "Strict" | "New<S>" | "Valued<S>" | "Flat" | "FlatS" | "Vec<S>" | "BTreeMap<String, Option<S>>" | "BTreeMap<String, String>"),
    ));
    v.extend(typed_spaces(thorough, |k| k.structure));
    v.extend([wide_structs(), required_structs(), any_names(0), any_names(3), any_names(4), deep_types(&[2])]);
    v
}

// ---------------------------------------------------------------------------------------------
// D02: booleans

#[derive(Debug, Deserialize, PartialEq)]
struct B1 {
    tru: bool,
}
#[derive(Debug, Deserialize, PartialEq)]
struct B2 {
    #[serde(default)]
    tru: Vec<bool>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct B3 {
    #[serde(rename = "$value")]
    value: bool,
}

fn boolean(s: &str) -> Result<bool, ()> {
    let low: String = s.chars().map(|c| c.to_ascii_lowercase()).collect();
    match low.as_str() {
        "true" | "1" => Ok(true),
        "false" | "0" => Ok(false),
        _ => Err(()),
    }
}

fn booleans(s: &str, p: &Parser, r: &Parser, cx: &mut Cx) -> Verdict {
    // Attributes: without a value, with an empty one, or repeating the name
    let want_attr = if s.is_empty() || s.eq_ignore_ascii_case("tru") { Ok(true) } else { boolean(s) };
    cx.outcome(&(want_attr, boolean(s)));
    for p in [p, r] {
        let mut docs = vec![format!("<o tru='{}'></o>", s), format!("<o a=b tru=\"{}\" c/>", s)];
        if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric()) {
            docs.push(format!("<o tru={}></o>", s));
        }
        if s.is_empty() {
            docs.push("<o tru></o>".into());
            docs.push("<o a tru/>".into());
        }
        for doc in docs {
            note(|| doc.clone());
            cx.op();
            expect(&doc, "as a boolean attribute", &want_attr.map(|tru| B1 { tru }), &read(p, &doc), cx)?;
        }
    }
    for (p, text) in [(p, model::trimmed(s)), (r, s)] {
        let want = boolean(text);
        for doc in [format!("<o><tru>{}</tru></o>", s), format!("<o x><y/><tru tru='{}'>{}</tru></o>", s, s)] {
            note(|| doc.clone());
            cx.op();
            expect(&doc, "as a boolean element", &want.map(|tru| B1 { tru }), &read(p, &doc), cx)?;
        }
        let doc = format!("<o><tru>{}</tru><tru>1</tru></o>", s);
        cx.op();
        expect(&doc, "as a list of booleans", &want.map(|x| B2 { tru: vec![x, true] }), &read(p, &doc), cx)?;
        let doc = format!("<o tru=''>{}</o>", s);
        cx.op();
        expect(&doc, "as a boolean value", &want.map(|value| B3 { value }), &read(p, &doc), cx)?;
        let doc = format!("<tru>{}</tru>", s);
        cx.op();
        expect(&doc, "as a boolean root", &want, &read(p, &doc), cx)?;
    }
    if s.is_empty() {
        for doc in ["<o><tru/></o>", "<o/>", "<o></o>"] {
            cx.op();
            expect(doc, "an element that is empty or missing is no boolean", &Err(()), &read::<B1>(p, doc), cx)?;
        }
    }
    Ok(())
}

/// Names of several parts, with each part, and each without some character, as value.
fn parted_names() -> Space {
    const T: &[&str] = &["o", "n", ":", ".", "-", "_", "1"];
    let s = Seqs::new(T.len(), 1, 5);
    space("parted-names", format!("attributes named as all sequences of 1..=5 of {:?} that are names, with each part of the name, and the name without each character, as value", T), s.len(), move || {
        let (p, _) = parsers();
        let mut seq = vec![];
        move |idx, cx: &mut Cx| {
            s.decode(idx, &mut seq);
            if seq[0] > 1 {
                return Ok(());
            }
            let name: String = seq.iter().map(|&i| T[i]).collect();
            let mut values: Vec<String> = vec![];
            for i in 0..name.len() {
                values.push(format!("{}{}", &name[..i], &name[i + 1..]));
                for j in i..=name.len() {
                    values.push(name[i..j].to_owned());
                }
            }
            for value in values {
                let doc = format!("<o {}='{}'/>", name, value);
                note(|| doc.clone());
                cx.state();
                cx.op();
                let want = if value.is_empty() || value == name { Ok(true) } else { boolean(&value) };
                let want = want.map(|b| BTreeMap::from([(name.clone(), b)]));
                expect(&doc, "as a map to booleans", &want, &read(&p, &doc), cx)?;
            }
            cx.sample(|| name.clone());
            Ok(())
        }
    })
}

/// Attributes of every name, with values that are the name to some degree.
fn names() -> Space {
    let mut list: Vec<String> = fills::odd_scalars().list.into_iter().filter(|s| s.starts_with(model::name_start)).collect();
    list.extend(["true", "false", "ab", "a.b", "a-1", "K", "ks", "\u{df}s", "i\u{131}", "\u{e9}t\u{c9}", "value"].map(String::from));
    // Letters that are other letters' other case
    const LIKE: &[&str] = &["k", "s", "i", "K", "S", "I", "\u{212a}", "\u{17f}", "\u{131}", "\u{130}", "\u{df}", "\u{1e9e}", "ss", "\u{e5}", "\u{212b}", "\u{c5}", "\u{3c3}", "\u{3c2}", "\u{3a3}", "true", "0"];
    let n = list.len() as u64;
    let list = std::sync::Arc::new(list);
    space(
        "names",
        format!("attributes named as each of {} letters and words, with it, its other cases, parts of it, more than it, and each of {:?} as value", n, LIKE),
        n,
        move || {
            let (p, _) = parsers();
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let name = &list[idx as usize];
                let mut values: Vec<String> = LIKE.iter().map(|s| s.to_string()).collect();
                values.extend([name.clone(), name.to_lowercase(), name.to_uppercase(), name.to_ascii_lowercase(), name.to_ascii_uppercase()]);
                values.extend([format!("{}{}", name, name), format!("{} ", name), format!(" {}", name), format!("{}=", name), name.chars().skip(1).collect()]);
                values.extend([name.chars().rev().collect::<String>(), name.chars().flat_map(|c| c.to_lowercase().next()).collect(), name.chars().flat_map(|c| c.to_uppercase().next()).collect()]);
                for value in values {
                    let doc = format!("<o {}='{}'/>", name, value);
                    note(|| doc.clone());
                    cx.state();
                    cx.op();
                    let want = if value.is_empty() || value.eq_ignore_ascii_case(name) { Ok(true) } else { boolean(&value) };
                    let want = want.map(|b| BTreeMap::from([(name.clone(), b)]));
                    expect(&doc, "as a map to booleans", &want, &read(&p, &doc), cx)?;
                }
                cx.sample(|| name.clone());
                Ok(())
            }
        },
    )
}

fn d02(thorough: bool) -> Vec<Space> {
    const T: &[&str] = &["t", "r", "u", "e", "T", "R", "U", "E", "f", "a", "l", "s", "0", "1", " ", "-", "é", "\u{fb01}", "\u{17f}"];
    let s = Seqs::new(T.len(), 0, if thorough { 5 } else { 4 });
    // All letter cases of longer words, with something before or after
    const WORDS: &[&str] = &["true", "false", "tru", "truetrue", "yes", "on", "off", "no", "t", "f", "01", "10", "00", "1.0", "+1", "null", "TRUE1", "0false", "fal\u{17f}e", "tr\u{fc}e"];
    const AROUND: &[(&str, &str)] = &[("", ""), (" ", ""), ("", " "), ("\n", "\t"), ("x", ""), ("", "x")];
    let n = WORDS.len() as u64 * AROUND.len() as u64 * 256;
    let mut v = vec![
        space(
            "strings",
            format!("all sequences of 0..={} of {:?}, as attributes and as content", s.max, T),
            s.len(),
            move || {
                let (p, r) = parsers();
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    let text: String = seq.iter().map(|&t| T[t]).collect();
                    cx.state();
                    cx.sample(|| text.clone());
                    booleans(&text, &p, &r, cx)
                }
            },
        ),
        space(
            "words",
            format!("{:?} in all letter cases, between each of {:?}", WORDS, AROUND),
            n,
            move || {
                let (p, r) = parsers();
                move |idx, cx: &mut Cx| {
                    let case = idx % 256;
                    let (pre, post) = AROUND[(idx / 256) as usize % AROUND.len()];
                    let word = WORDS[(idx / 256) as usize / AROUND.len()];
                    let text: String = word
                        .chars()
                        .enumerate()
                        .map(|(i, c)| if case >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                        .collect();
                    if case >= 1 << word.chars().count().min(8) {
                        return Ok(());
                    }
                    let text = format!("{}{}{}", pre, text, post);
                    cx.state();
                    cx.sample(|| text.clone());
                    booleans(&text, &p, &r, cx)
                }
            },
        ),
        names(),
        parted_names(),
        strings("string-words", fills::words(true), booleans),
        strings("string-ascii", fills::ascii_pairs(), booleans),
        strings("string-around", fills::around(&["true", "FALSE", "1", "0", "tru"]), booleans),
        strings("string-characters", fills::odd_scalars(), booleans),
        strings("string-repeated", fills::repeats(&["true", "0", "1", "tru", " ", "x"], 300, 20000), booleans),
    ];
    v.extend(reference_spaces(
        4 + thorough as u32,
        &["<r c='§'/>", "<r><c>§</c></r>", "<r>§</r>", "<r a=1>§</r>", "<r c=§><z c='§'/></r>", "<r><c a='1'>§<z>§</z></c></r>"],
        &["1", "0", "<z/>", "<!-- -->", "true"],
        |n| matches!(n, "bool" | "Valued<bool>" | "S" | "Vec<bool>" | "BTreeMap<String, bool>"),
    ));
    v.extend(typed_spaces(thorough, |k| k.boolean));
    v
}

// ---------------------------------------------------------------------------------------------
// D03: numbers

trait Num: DeserializeOwned + std::str::FromStr + Debug + Copy + 'static {
    fn same(self, o: Self) -> bool;
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Num for $t { fn same(self, o: Self) -> bool { self == o } })* };
}
num!(i8, i16, i32, i64, u8, u16, u32, u64);
impl Num for f32 {
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Num for f64 {
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}

#[derive(Debug, Deserialize)]
struct N1<T> {
    n: T,
}
#[derive(Debug, Deserialize)]
struct NV<T> {
    #[serde(rename = "$value")]
    n: T,
}
#[derive(Debug, Deserialize)]
enum NE<T> {
    n(T),
}

fn number<T: Num>(s: &str, name: &str, p: &Parser, cx: &mut Cx) -> Verdict {
    let attr = s.parse::<T>().ok();
    let text = model::trimmed(s).parse::<T>().ok();
    let mut check = |doc: String, want: &[Option<T>], got: Result<Vec<T>, String>| {
        cx.op();
        cx.checked();
        let w: Option<Vec<T>> = want.iter().copied().collect();
        let ok = match (&w, &got) {
            (Some(w), Ok(g)) => w.len() == g.len() && w.iter().zip(g).all(|(a, b)| a.same(*b)),
            (None, Err(_)) => true,
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("document: {:?}\nread as {}\nexpected: {:?}\ngot: {:?}", doc, name, w, got))
        }
    };
    note(|| format!("{:?} as {}", s, name));
    let doc = format!("<o n='{}'/>", s);
    let got = read::<N1<T>>(p, &doc).map(|x| vec![x.n]);
    check(doc, &[attr], got)?;
    let doc = format!("<o x><n>{}</n></o>", s);
    let got = read::<N1<T>>(p, &doc).map(|x| vec![x.n]);
    check(doc, &[text], got)?;
    let doc = format!("<o x>{}</o>", s);
    let got = read::<NV<T>>(p, &doc).map(|x| vec![x.n]);
    check(doc, &[text], got)?;
    let doc = format!("<o><n>{}</n><n>1</n><n> {}</n></o>", s, s);
    let got = read::<N1<Vec<T>>>(p, &doc).map(|x| x.n);
    let got2 = read::<N1<(T, T, T)>>(p, &doc).map(|x| vec![x.n.0, x.n.1, x.n.2]);
    check(doc.clone(), &[text, "1".parse().ok(), text], got)?;
    check(doc, &[text, "1".parse().ok(), text], got2)?;
    let doc = format!("<o><n>{}</n></o>", s);
    let got = read::<N1<Option<New<T>>>>(p, &doc).map(|x| x.n.into_iter().map(|n| n.0).collect());
    check(doc, &[text], got)?;
    let doc = format!("<n>{}</n>", s);
    let got = read::<NE<T>>(p, &doc).map(|NE::n(x)| vec![x]);
    check(doc.clone(), &[text], got)?;
    let got = read::<T>(p, &doc).map(|x| vec![x]);
    check(doc, &[text], got)?;
    cx.outcome(&(name, text.is_some(), attr.is_some()));
    Ok(())
}

fn numbers(s: &str, p: &Parser, cx: &mut Cx) -> Verdict {
    number::<i8>(s, "i8", p, cx)?;
    number::<u8>(s, "u8", p, cx)?;
    number::<i16>(s, "i16", p, cx)?;
    number::<u16>(s, "u16", p, cx)?;
    number::<i32>(s, "i32", p, cx)?;
    number::<u32>(s, "u32", p, cx)?;
    number::<i64>(s, "i64", p, cx)?;
    number::<u64>(s, "u64", p, cx)?;
    number::<f32>(s, "f32", p, cx)?;
    number::<f64>(s, "f64", p, cx)
}

fn d03(thorough: bool) -> Vec<Space> {
    const T: &[&str] = &["0", "1", "9", "-", "+", ".", "e", " ", "_", "x", ",", "٣", "inf", "NaN"];
    let s = Seqs::new(T.len(), 0, if thorough { 5 } else { 3 });
    let mut edges: Vec<i128> = vec![];
    for b in [7u32, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65] {
        for k in -8i128..=8 {
            edges.push((1i128 << b) + k);
            edges.push(-(1i128 << b) + k);
        }
    }
    edges.push(i128::MAX);
    edges.push(i128::MIN);
    let numbers2 = |s: &str, p: &Parser, _: &Parser, cx: &mut Cx| numbers(s, p, cx);
    let decimals = decimals();
    let mut v = vec![
        space("decimals", format!("{} decimals, in full, at and next to where rounding to either kind of float changes", decimals.len()), decimals.len() as u64, move || {
            let (p, _) = parsers();
            let decimals = decimals.clone();
            move |idx, cx: &mut Cx| {
                let text = &decimals[idx as usize];
                cx.state();
                cx.sample(|| text.clone());
                number::<f32>(text, "f32", &p, cx)?;
                number::<f64>(text, "f64", &p, cx)
            }
        }),
        strings("string-words", fills::words(false), numbers2),
        strings("string-ascii", fills::ascii_pairs(), numbers2),
        strings("string-around", fills::around(&["1", "255", "-1.5", "inf"]), numbers2),
        strings("string-characters", fills::odd_scalars(), numbers2),
        strings("string-repeated", fills::repeats(&["0", "1", "9", "-", " ", "+"], 300, 5000), numbers2),
        space("strings", format!("all sequences of 0..={} of {:?}, as each number type, in 8 places", s.max, T), s.len(), move || {
            let (p, _) = parsers();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let text: String = seq.iter().map(|&t| T[t]).collect();
                cx.state();
                cx.sample(|| text.clone());
                numbers(&text, &p, cx)
            }
        }),
        space("integers", "all integers from -70000 to 70000, as the types up to 32 bits", 140001, || {
            let (p, _) = parsers();
            move |idx, cx: &mut Cx| {
                let n = idx as i64 - 70000;
                let text = n.to_string();
                cx.state();
                cx.sample(|| text.clone());
                if n.abs() < 400 {
                    return numbers(&text, &p, cx);
                }
                if n.abs() < 33000 {
                    number::<i16>(&text, "i16", &p, cx)?;
                } else if n > 65000 || n % 4 == 0 {
                    number::<i16>(&text, "i16", &p, cx)?;
                    number::<u16>(&text, "u16", &p, cx)?;
                }
                if n % 16 == 0 {
                    number::<i32>(&text, "i32", &p, cx)?;
                    number::<f32>(&text, "f32", &p, cx)?;
                }
                Ok(())
            }
        }),
        space("edges", format!("integers around the limits of the types, with 0 to 3 zeros or a plus sign before ({} of them)", edges.len()), edges.len() as u64, move || {
            let (p, _) = parsers();
            let edges = edges.clone();
            move |idx, cx: &mut Cx| {
                let n = edges[idx as usize];
                let (sign, abs) = if n < 0 { ("-", n.unsigned_abs()) } else { ("", n as u128) };
                cx.state();
                cx.sample(|| n.to_string());
                for text in [
                    format!("{}{}", sign, abs), format!("{}000{}", sign, abs), format!("+{}", abs), format!("{}{}.0", sign, abs), format!("{}{}.5", sign, abs),
                    format!("{}{}e1", sign, abs), format!("{}.{}", sign, abs), format!("{}{} ", sign, abs), format!("{}0x{:x}", sign, abs),
                ] {
                    numbers(&text, &p, cx)?;
                }
                Ok(())
            }
        }),
    ];
    v.extend(reference_spaces(
        4 + thorough as u32,
        &["<r b='§' a=1 />", "<r><b>§</b><a>1</a></r>", "<r>§</r>", "<r a=1>§</r>", "<r><b>1<z>§</z></b></r>"],
        &["1", "0", "<z/>", "<!-- -->", "-"],
        |n| matches!(n, "i32" | "u8" | "f64" | "char" | "Valued<i32>" | "New<New<i32>>" | "S" | "Required" | "Pair<String, i32>"),
    ));
    v
}

/// The decimal, with all digits, that a finite float stands for: exact, as the float's digits end.
fn exact(m: u64, e: i32) -> String {
    // m × 2^e, with digits of base 10, the last `frac` after the point
    let mut digits = vec![];
    let mut n = m;
    while n > 0 {
        digits.push((n % 10) as u8);
        n /= 10;
    }
    let mut frac = 0;
    let by = |digits: &mut Vec<u8>, k: u8| {
        let mut carry = 0;
        for d in digits.iter_mut() {
            let x = *d * k + carry;
            *d = x % 10;
            carry = x / 10;
        }
        if carry > 0 {
            digits.push(carry);
        }
    };
    for _ in 0..e.max(0) {
        by(&mut digits, 2);
    }
    for _ in 0..(-e).max(0) {
        by(&mut digits, 5);
        frac += 1;
    }
    while digits.len() <= frac {
        digits.push(0);
    }
    let mut s: String = digits.iter().rev().map(|d| (b'0' + d) as char).collect();
    if frac > 0 {
        s.insert(s.len() - frac, '.');
    }
    s
}

/// Decimals at, just below, and just above the middle between two floats, and floats themselves.
fn decimals() -> Vec<String> {
    let mut v = vec![];
    let mut near = |m: u64, e: i32| {
        let s = exact(m, e);
        for sign in ["", "-", "+"] {
            v.push(format!("{}{}", sign, s));
        }
        if s.contains('.') {
            v.push(format!("{}1", s));
            v.push(format!("{}00000000000000000000000000000000000000000000000001", s));
            // Just below: one less in the last digit, which is a 5, then nines
            let below = format!("{}49999999999999999999999999999999999999999999", &s[..s.len() - 1]);
            v.push(below);
        } else {
            v.push(format!("{}.00000000000000000000000000000000000000001", s));
            v.push(format!("{}e0", s));
            v.push(format!("0.{}e{}", s, s.len()));
        }
    };
    for bits in [0u32, 1, 2, 3, 0x555, 0x7ffffe, 0x7fffff, 0x400000, 0x3fffff, 0x123456] {
        for e in [-149i32, -148, -140, -127, -60, -24, -23, -22, -10, -1, 0, 1, 5, 20, 60, 104] {
            let m = (bits | 0x800000) as u64;
            near(m, e);
            near(2 * m + 1, e - 1);
            near(m, e - 149 + 23);
        }
        near(bits as u64, -149);
        near(2 * bits as u64 + 1, -150);
    }
    for bits in [0u64, 1, 2, 3, 0x5555, (1 << 52) - 2, (1 << 52) - 1, 1 << 51, (1 << 51) - 1, 0x123456789] {
        for e in [-1074i32, -1073, -1000, -300, -100, -53, -52, -51, -20, -1, 0, 1, 20, 100, 300, 971] {
            let m = bits | 1 << 52;
            near(m, e);
            near(2 * m + 1, e - 1);
        }
        near(bits, -1074);
        near(2 * bits + 1, -1075);
    }
    v
}

include!("../de_more.rs");
include!("../de_types.rs");

const ASSUME: &[&str] = &[
    "Nothing is said about documents and target types beyond the listed ones",
    "Code generated by serde_derive, and the numeric parsers of the standard library, are taken as given",
];

fn main() {
    engine::main(&[
        Property { id: "D01", assumptions: ASSUME, spaces: d01, probes: &[] },
        Property { id: "D02", assumptions: ASSUME, spaces: d02, probes: &[] },
        Property { id: "D03", assumptions: ASSUME, spaces: d03, probes: &[] },
        Property { id: "D04", assumptions: ASSUME, spaces: d04, probes: &[] },
        Property { id: "D05", assumptions: ASSUME, spaces: d05, probes: &[] },
        Property { id: "D06", assumptions: ASSUME, spaces: d06, probes: &[] },
        Property { id: "D07", assumptions: ASSUME, spaces: d07, probes: D07_PROBES },
        Property { id: "D08", assumptions: ASSUME, spaces: d08, probes: &[] },
        Property { id: "D09", assumptions: ASSUME, spaces: d09, probes: &[] },
        Property { id: "D10", assumptions: ASSUME, spaces: d10, probes: &[] },
        Property { id: "D11", assumptions: ASSUME, spaces: d11, probes: &[] },
        Property { id: "D12", assumptions: ASSUME, spaces: d12, probes: &[] },
        Property { id: "D13", assumptions: ASSUME, spaces: d13, probes: &[] },
        Property { id: "D14", assumptions: ASSUME, spaces: d14, probes: &[] },
        Property { id: "D15", assumptions: ASSUME, spaces: d15, probes: &[] },
    ])
}
