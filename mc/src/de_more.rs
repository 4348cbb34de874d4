// D04 to D12; part of bin/de.rs.

// ---------------------------------------------------------------------------------------------
// D04: sequences

#[derive(Debug, Deserialize, PartialEq, Clone)]
struct Runs<A, B, C> {
    a: Option<A>,
    b: Option<B>,
    c: Option<C>,
}
#[derive(Debug, Deserialize, PartialEq, Clone)]
struct Plain {
    #[serde(default)]
    a: Vec<String>,
    #[serde(default)]
    b: Vec<String>,
    #[serde(default)]
    c: Vec<Runs<Vec<String>, Vec<String>, Vec<String>>>,
}

type Items = BTreeMap<char, Vec<Node>>;

/// Maximal runs of consecutive children of the same name; `Err` if some field's name has more
/// than one.
fn runs(o: &Node) -> (Result<Items, ()>, bool) {
    let mut v: Vec<(char, Vec<Node>)> = vec![];
    for n in o.nodes() {
        let c = n.name.chars().next().unwrap();
        match v.last_mut() {
            Some((d, l)) if *d == c => l.push(n.clone()),
            _ => v.push((c, vec![n.clone()])),
        }
    }
    let mut m = Items::new();
    let (mut twice, mut any_twice) = (false, false);
    for (c, l) in v {
        if m.insert(c, l).is_some() {
            any_twice = true;
            twice |= c != 'z';
        }
    }
    (if twice { Err(()) } else { Ok(m) }, any_twice)
}

fn one_run<T>(m: &Items, c: char, f: impl Fn(&Node) -> Option<T>) -> Result<Option<Vec<T>>, ()> {
    match m.get(&c) {
        None => Ok(None),
        Some(l) => l.iter().map(f).collect::<Option<Vec<T>>>().map(Some).ok_or(()),
    }
}

fn texts(m: &Items, c: char) -> Option<Vec<String>> {
    m.get(&c).map(|l| l.iter().map(Node::text).collect())
}

fn array<T: Clone, const N: usize>(v: Option<Vec<T>>) -> Result<Option<[T; N]>, ()> {
    match v {
        None => Ok(None),
        Some(v) => <[T; N]>::try_from(v).map(Some).map_err(|_| ()),
    }
}

fn sequences(doc: &str, o: &Node, p: &Parser, cx: &mut Cx) -> Verdict {
    let (m, any_twice) = runs(o);
    let attr_a = o.attrs.iter().any(|(n, _)| n == "a");
    // Sequences are never read from attributes
    let m: Result<Items, ()> = if attr_a { Err(()) } else { m };
    cx.outcome(&m.as_ref().map(|m| m.iter().map(|(c, l)| (*c, l.len())).collect::<Vec<_>>()));

    type Strs = Runs<Vec<String>, Vec<String>, Vec<String>>;
    let strs = |m: &Items| Strs { a: texts(m, 'a'), b: texts(m, 'b'), c: texts(m, 'c') };
    let want = m.as_ref().map(strs).map_err(|_| ());
    cx.op();
    expect(doc, "as lists of strings", &want, &read::<Strs>(p, doc), cx)?;

    let inner = |n: &Node| -> Option<Strs> { runs(n).0.ok().map(|m| strs(&m)) };
    let want = m.as_ref().map_err(|_| ()).and_then(|m| {
        Ok(Plain {
            a: texts(m, 'a').unwrap_or_default(),
            b: texts(m, 'b').unwrap_or_default(),
            c: one_run(m, 'c', inner)?.unwrap_or_default(),
        })
    });
    cx.op();
    expect(doc, "as lists that default to none, with lists of lists", &want, &read::<Plain>(p, doc), cx)?;
    let outer = format!("<x b=1><y>{}</y><a></a></x>", doc);
    #[derive(Debug, Deserialize, PartialEq)]
    struct Y {
        o: Plain,
    }
    #[derive(Debug, Deserialize, PartialEq)]
    struct X {
        a: Vec<String>,
        y: Vec<Y>,
    }
    let w = want.map(|o| X { a: vec![String::new()], y: vec![Y { o }] });
    cx.op();
    expect(&outer, "as lists further in", &w, &read::<X>(p, &outer), cx)?;

    type Nums = Runs<Vec<i32>, Vec<Option<u8>>, Vec<char>>;
    let want = m.as_ref().map_err(|_| ()).and_then(|m| {
        Ok(Nums {
            a: one_run(m, 'a', |n| n.text().parse().ok())?,
            b: one_run(m, 'b', |n| n.text().parse().ok().map(Some))?,
            c: one_run(m, 'c', |n| n.text().parse().ok())?,
        })
    });
    cx.op();
    expect(doc, "as lists of numbers and characters", &want, &read::<Nums>(p, doc), cx)?;

    type Fixed = Runs<(String, String), (i32,), [String; 3]>;
    let want = m.as_ref().map_err(|_| ()).and_then(|m| {
        Ok(Fixed {
            a: array::<_, 2>(texts(m, 'a'))?.map(|[x, y]| (x, y)),
            b: array::<_, 1>(one_run(m, 'b', |n| n.text().parse().ok())?)?.map(|[x]| (x,)),
            c: array::<_, 3>(texts(m, 'c'))?,
        })
    });
    cx.op();
    expect(doc, "as tuples", &want, &read::<Fixed>(p, doc), cx)?;

    type Groups = Runs<Vec<(String, String)>, Vec<[String; 3]>, New<Vec<New<String>>>>;
    let want = m.as_ref().map_err(|_| ()).and_then(|m| {
        let a = match texts(m, 'a') {
            Some(v) if v.len() % 2 == 1 => return Err(()),
            v => v.map(|v| v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()),
        };
        let b = match texts(m, 'b') {
            Some(v) if v.len() % 3 != 0 => return Err(()),
            v => v.map(|v| v.chunks(3).map(|c| [c[0].clone(), c[1].clone(), c[2].clone()]).collect()),
        };
        let c = texts(m, 'c').map(|v| New(v.into_iter().map(New).collect()));
        Ok(Runs { a, b, c })
    });
    cx.op();
    expect(doc, "as lists of tuples", &want, &read::<Groups>(p, doc), cx)?;

    if !any_twice && o.attrs.is_empty() {
        let want: Result<BTreeMap<String, Vec<String>>, ()> = m
            .as_ref()
            .map(|m| m.keys().map(|c| (c.to_string(), texts(m, *c).unwrap())).collect())
            .map_err(|_| ());
        cx.op();
        expect(doc, "as a map of lists", &want, &read(p, doc), cx)?;
    }

    // Single values are lists of one
    let (m, _) = runs(o);
    let mut bad = m.is_err();
    let mut one = |c: char| {
        let attr = o.attrs.iter().find(|(n, _)| *n == c.to_string()).map(|(_, v)| v.clone().unwrap_or_default());
        let kids = m.as_ref().ok().and_then(|m| texts(m, c)).unwrap_or_default();
        bad |= kids.len() + attr.is_some() as usize > 1;
        attr.or_else(|| kids.into_iter().next())
    };
    let w = Runs { a: one('a'), b: one('b'), c: one('c') };
    let want: Result<Runs<String, String, String>, ()> = if bad { Err(()) } else { Ok(w) };
    cx.op();
    expect(doc, "as single values", &want, &read(p, doc), cx)
}

fn d04(thorough: bool) -> Vec<Space> {
    const KIDS: &[&str] = &[
        "<a>1</a>",
        "<a q='z'>x<!-- y --></a>",
        "<a/>",
        "<b>2</b>",
        "<b a=0><![CDATA[ 3 ]]></b>",
        "<c><a>7</a></c>",
        "<c><b/><a>n</a><a>m</a></c>",
        "<z>0</z>",
        "<!-- <a>9</a> -->",
        "\n  ",
        "<![CDATA[]]>",
        "<![IGNORE[<a>9</a>]]>",
    ];
    const FEW: &[&str] = &["<a>1</a>", "<a>2</a>", "<b>3</b>", "<c><a>7</a></c>", "<z/>"];
    fn make(name: &str, toks: &'static [&'static str], s: Seqs, attrs: &'static [&'static str]) -> Space {
        space(
            name,
            format!("elements with {:?} and all sequences of {}..={} of the content {:?}", attrs, s.min, s.max, toks),
            s.len() * attrs.len() as u64,
            move || {
                let (p, r) = parsers();
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx / attrs.len() as u64, &mut seq);
                    let doc = format!(
                        "<o{}>{}</o>",
                        attrs[idx as usize % attrs.len()],
                        seq.iter().map(|&t| toks[t]).collect::<String>()
                    );
                    note(|| doc.clone());
                    cx.sample(|| doc.clone());
                    for (c, p) in [(&CONF, &p), (&RAW, &r)] {
                        if !c.trim && doc.contains('\n') {
                            continue;
                        }
                        let evs = model::parse(&doc, c).map_err(|e| format!("{:?}: the model says {:?}", doc, e))?;
                        let o = match tree(&evs) {
                            Tree::Root(n, _) => n,
                            t => panic!("{}: {:?}", doc, t),
                        };
                        cx.state();
                        sequences(&doc, &o, p, cx)?;
                    }
                    Ok(())
                }
            },
        )
    }
    let mut v = vec![
        make("runs", KIDS, Seqs::new(KIDS.len(), 0, if thorough { 5 } else { 4 }), &["", " q=1", " a=1"]),
        make("long-runs", FEW, Seqs::new(FEW.len(), 5, if thorough { 9 } else { 7 }), &[""]),
        space("lengths", "lists of each length from 0 to 400, and of 1000 to 20000, of up to three names", 420 * 3, || {
            let (p, r) = parsers();
            move |idx, cx: &mut Cx| {
                let n = (idx / 3) as usize;
                let n = if n > 400 { (n - 400) * 1000 } else { n };
                let names = &["a", "b", "c"][..(idx % 3) as usize + 1];
                let mut doc = String::from("<o>");
                for name in names {
                    for i in 0..n {
                        doc.push_str(&format!("<{}>{}</{}>", name, i, name));
                    }
                }
                doc.push_str("</o>");
                cx.state();
                cx.op();
                let want = (n > 0).then(|| (0..n as u32).collect::<Vec<u32>>());
                let at = |c: &str| if names.contains(&c) { want.clone() } else { None };
                let w: Result<Runs<Vec<u32>, Vec<u32>, Vec<u32>>, ()> = Ok(Runs { a: at("a"), b: at("b"), c: at("c") });
                let got = read(if n % 2 == 0 { &p } else { &r }, &doc);
                cx.sample(|| format!("{} items of {:?}", n, names));
                cx.outcome(&(n, names.len()));
                cx.checked();
                if got.as_ref().map_err(|_| ()) != w.as_ref().map_err(|_| ()) {
                    return Err(format!("{} items of each of {:?} are read as {:?}", n, names, got));
                }
                Ok(())
            }
        }),
    ];
    v.extend(reference_spaces(
        4 + thorough as u32,
        &[
            "<r><a>§</a><a>§</a></r>", "<r><§>1</§><§>2</§></r>", "<r><a>1</a><§/><a>2</a></r>", "<r><a>1</a>§<a>2</a></r>", "<r>§</r>", "<r><a>1</a>§</r>", "<r><a>1</a><a§>2</a§></r>",
            "<r><a>1</a><§a>2</§a></r>", "<r><d>§<a>1</a></d></r>",
        ],
        &["<a/>", "<a>x</a>", "<b/>", "<b><a>1</a></b>", "x", "<!-- -->", "<a>1</a><z/>"],
        |n| {
            matches!(
                n,
                "Lists" | "Vec<String>" | "Vec<S>" | "(String, String)" | "Pair<String, i32>" | "[Option<String>; 2]" | "BTreeMap<String, Vec<String>>" | "Valued<Vec<S>>" | "Zero" | "Valued<Vec<Nothing>>"
                    | "BTreeMap<String, [String; 0]>" | "Vec<En>" | "En2"
            )
        },
    ));
    v.extend(typed_spaces(thorough, |k| k.list || k.tuple));
    v.push(partial_types(if thorough { 3 } else { 2 }, 3));
    v.extend([wide_tuples(), deep_types(&[6])]);
    v
}

// ---------------------------------------------------------------------------------------------
// D05: enums

#[derive(Debug, Deserialize, PartialEq, Eq, Clone)]
enum E {
    Unit,
    #[serde(rename = "re-named")]
    Renamed,
    New(String),
    Num(i32),
    Opt(Option<String>),
    Emp(()),
    Tup(String, i32),
    Struct {
        a: Option<String>,
        n: Option<Box<E>>,
    },
    Val {
        a: Option<String>,
        #[serde(rename = "$value")]
        value: String,
    },
    Vals {
        a: Option<String>,
        #[serde(rename = "$value")]
        value: Vec<E>,
    },
    Inner(Flags),
    Nest(Box<E>),
    List(Vec<E>),
    Two(Box<(E, E)>),
    Map(BTreeMap<String, E>),
}
#[derive(Debug, Deserialize, PartialEq, Eq, Clone)]
struct Flags {
    a: Option<String>,
    b: Option<i32>,
    #[serde(default)]
    c: bool,
}

type Forms = Vec<(E, String)>;

fn base() -> Forms {
    let s = |s: &str| s.to_owned();
    let x = || Some("x".to_owned());
    vec![
        (E::Unit, s("<Unit></Unit>")),
        (E::Unit, s("<Unit/>")),
        (E::Unit, s("<Unit q=1>junk<y/></Unit>")),
        (E::Renamed, s("<re-named></re-named>")),
        (E::New(s("x")), s("<New>x</New>")),
        (E::New(s("x")), s("<New q=1><!-- c --><![CDATA[x]]></New>")),
        (E::New(s("")), s("<New/>")),
        (E::New(s("Unit")), s("<New>Unit</New>")),
        (E::New(s("ab")), s("<New>a<i>b</i></New>")),
        (E::Num(-3), s("<Num>-3</Num>")),
        (E::Opt(Some(s("v"))), s("<Opt>v</Opt>")),
        (E::Emp(()), s("<Emp></Emp>")),
        (E::Tup(s("s"), 1), s("<Tup>s</Tup><Tup>1</Tup>")),
        (E::Struct { a: None, n: None }, s("<Struct></Struct>")),
        (E::Struct { a: x(), n: None }, s("<Struct a=x />")),
        (E::Struct { a: x(), n: None }, s("<Struct><a>x</a></Struct>")),
        (E::Struct { a: None, n: Some(Box::new(E::Unit)) }, s("<Struct><n>Unit</n></Struct>")),
        (E::Struct { a: x(), n: Some(Box::new(E::Renamed)) }, s("<Struct n='re-named' a='x'></Struct>")),
        (E::Val { a: x(), value: s("t") }, s("<Val a=x>t</Val>")),
        (E::Val { a: None, value: s("") }, s("<Val></Val>")),
        (E::Vals { a: None, value: vec![] }, s("<Vals/>")),
        (E::Inner(Flags { a: Some(s("1")), b: Some(2), c: false }), s("<Inner a=1><b>2</b></Inner>")),
        (E::Inner(Flags { a: None, b: None, c: true }), s("<Inner c></Inner>")),
        (E::Inner(Flags { a: None, b: None, c: false }), s("<Inner></Inner>")),
        (E::Nest(Box::new(E::Unit)), s("<Nest>Unit</Nest>")),
        (E::List(vec![]), s("<List></List>")),
        (E::List(vec![]), s("<List/>")),
        (E::Map(BTreeMap::new()), s("<Map></Map>")),
        (E::Map([("k".into(), E::Unit)].into()), s("<Map k=Unit></Map>")),
    ]
}

fn deeper(prev: &Forms) -> Forms {
    let mut v = vec![];
    for (e, f) in prev {
        let b = || Box::new(e.clone());
        v.push((E::Nest(b()), format!("<Nest>{}</Nest>", f)));
        v.push((E::Nest(b()), format!("<Nest q=1>{}</Nest>", f)));
        v.push((E::Struct { a: None, n: Some(b()) }, format!("<Struct><n>{}</n></Struct>", f)));
        v.push((E::Struct { a: Some("x".into()), n: Some(b()) }, format!("<Struct a=x><n q=0>{}</n></Struct>", f)));
        v.push((E::Struct { a: Some("x".into()), n: Some(b()) }, format!("<Struct><n>{}</n><a>x</a></Struct>", f)));
        v.push((E::Vals { a: Some("x".into()), value: vec![e.clone()] }, format!("<Vals a=x>{}</Vals>", f)));
        v.push((E::List(vec![e.clone()]), format!("<List>{}</List>", f)));
        v.push((E::Map([("k".into(), e.clone())].into()), format!("<Map><k>{}</k></Map>", f)));
        v.push((E::Map([("Unit".into(), e.clone()), ("New".into(), E::Unit)].into()), format!("<Map><Unit>{}</Unit><New><Unit/></New></Map>", f)));
    }
    v
}

fn joined(a: &Forms, b: &Forms) -> Forms {
    let mut v = vec![];
    for (e, f) in a {
        for (d, g) in b {
            v.push((E::List(vec![e.clone(), d.clone()]), format!("<List>{}{}</List>", f, g)));
            v.push((E::Two(Box::new((e.clone(), d.clone()))), format!("<Two>{}{}</Two>", f, g)));
        }
    }
    v
}

#[derive(Debug, Deserialize, PartialEq)]
struct Of {
    f: Option<E>,
    g: Option<E>,
    q: Option<String>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct OfSame {
    #[serde(rename = "Unit")]
    unit: E,
    #[serde(rename = "New")]
    new: Option<E>,
    #[serde(rename = "Struct")]
    strct: E,
}
#[derive(Debug, Deserialize, PartialEq)]
struct OfLists {
    f: Vec<E>,
    g: (E, New<E>),
    h: Option<E>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct OfValue<T> {
    q: Option<String>,
    #[serde(rename = "$value")]
    value: T,
}

#[derive(Debug, Deserialize, PartialEq)]
struct MidValue<T> {
    y: Option<String>,
    #[serde(rename = "$value")]
    value: T,
    q: Option<String>,
    z: Option<String>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct LastValue<T> {
    z: Option<String>,
    q: Option<String>,
    y: Option<String>,
    #[serde(rename = "$value")]
    value: T,
}

fn check_all<T: DeserializeOwned + Debug + PartialEq>(doc: &str, what: &str, want: Result<T, ()>, p: &Parser, r: &Parser, cx: &mut Cx) -> Verdict {
    cx.op();
    note(|| doc.to_owned());
    expect(doc, what, &want, &read(p, doc), cx)?;
    cx.op();
    expect(doc, what, &want, &read(r, doc), cx)?;
    let spaced = doc.replace("><", ">\n <");
    cx.op();
    expect(&spaced, what, &want, &read(p, &spaced), cx)?;
    let commented = doc.replace("><", "><!-- <x> --><");
    cx.op();
    expect(&commented, what, &want, &read(r, &commented), cx)
}

fn enum_alone(e: &E, f: &str, p: &Parser, r: &Parser, cx: &mut Cx) -> Verdict {
    let some = || Some(e.clone());
    cx.outcome(&format!("{:?}", e));
    check_all(f, "as the root", Ok(e.clone()), p, r, cx)?;
    check_all(f, "as the root, within a newtype", Ok(New(Some(e.clone()))), p, r, cx)?;
    check_all(&format!("<o><f>{}</f></o>", f), "as a field", Ok(Of { f: some(), g: None, q: None }), p, r, cx)?;
    check_all(&format!("<o q=1><z>Unit</z><g w=1>{}</g></o>", f), "as a field", Ok(Of { f: None, g: some(), q: Some("1".into()) }), p, r, cx)?;
    check_all(&format!("<o><f>{}</f><q>{}</q></o>", f, "1"), "as a field", Ok(Of { f: some(), g: None, q: Some("1".into()) }), p, r, cx)?;
    check_all(
        &format!("<o><Unit>{0}</Unit><New>{0}</New><Struct>{0}</Struct></o>", f),
        "as fields with names of variants",
        Ok(OfSame { unit: e.clone(), new: some(), strct: e.clone() }),
        p,
        r,
        cx,
    )?;
    check_all(&format!("<o q=1>{}</o>", f), "as $value", Ok(OfValue { q: Some("1".into()), value: e.clone() }), p, r, cx)?;
    check_all(&format!("<o>{}</o>", f), "as optional $value", Ok(OfValue { q: None, value: some() }), p, r, cx)?;
    check_all(&format!("<o>{}</o>", f), "as $value list", Ok(OfValue { q: None, value: vec![e.clone()] }), p, r, cx)?;
    let w: BTreeMap<String, E> = [("k", e.clone()), ("f", E::Unit)].map(|(k, v)| (k.to_owned(), v)).into();
    check_all(&format!("<o f=Unit><k>{}</k></o>", f), "as a map entry", Ok(w), p, r, cx)?;
    cx.sample(|| f.to_owned());
    Ok(())
}

fn enum_pair(e: &E, f: &str, d: &E, g: &str, p: &Parser, r: &Parser, cx: &mut Cx) -> Verdict {
    let (x, y) = (|| e.clone(), || d.clone());
    check_all(&format!("<o><f>{}</f><g>{}</g></o>", f, g), "as two fields", Ok(Of { f: Some(x()), g: Some(y()), q: None }), p, r, cx)?;
    check_all(
        &format!("<o><f>{0}</f><f>{1}</f><g>{1}</g><g>{0}</g><h>Unit</h></o>", f, g),
        "as lists and tuples",
        Ok(OfLists { f: vec![x(), y()], g: (y(), New(x())), h: Some(E::Unit) }),
        p,
        r,
        cx,
    )?;
    check_all(&format!("<o>{}{}{}</o>", f, g, f), "as $value list", Ok(OfValue { q: None, value: vec![x(), y(), x()] }), p, r, cx)?;
    check_all(&format!("<o>{}{}</o>", f, g), "as $value tuple", Ok(OfValue { q: None, value: (x(), y()) }), p, r, cx)?;
    let w: BTreeMap<String, Vec<E>> = [("k".to_owned(), vec![x(), y()]), ("Nest".to_owned(), vec![y()])].into();
    check_all(&format!("<o><k>{}</k><k>{}</k><Nest>{}</Nest></o>", f, g, g), "as map entries", Ok(w), p, r, cx)?;
    cx.sample(|| format!("{} {}", f, g));
    Ok(())
}

fn d05(thorough: bool) -> Vec<Space> {
    fn over(name: &str, bound: &str, all: Forms) -> Space {
        space(name, format!("{} ({} forms), in 10 places each, 4 ways", bound, all.len()), all.len() as u64, move || {
            let (p, r) = parsers();
            let all = all.clone();
            move |idx, cx: &mut Cx| {
                let (e, f) = &all[idx as usize];
                cx.state();
                enum_alone(e, f, &p, &r, cx)
            }
        })
    }
    fn pairs(name: &str, bound: &str, a: Forms, b: Forms) -> Space {
        space(name, format!("{} ({} × {}), in 5 places each, 4 ways", bound, a.len(), b.len()), (a.len() * b.len()) as u64, move || {
            let (p, r) = parsers();
            let (a, b) = (a.clone(), b.clone());
            move |idx, cx: &mut Cx| {
                let (e, f) = &a[idx as usize % a.len()];
                let (d, g) = &b[idx as usize / a.len()];
                cx.state();
                enum_pair(e, f, d, g, &p, &r, cx)?;
                enum_pair(d, g, e, f, &p, &r, cx)
            }
        })
    }
    let b = base();
    let one = deeper(&b);
    let two = deeper(&one);
    let both = joined(&b, &b);
    let mut v = vec![
        over("base", "enum values with no enum in them", b.clone()),
        over("nested", "enum values holding another", one.clone()),
        over("nested-lists", "enum values holding two others", both.clone()),
        over("nested-twice", "enum values holding another holding another", two.clone()),
        pairs("pairs", "two enum values with no enum in them", b.clone(), b.clone()),
        pairs("nested-pairs", "an enum value holding another, and one with no enum in it", one.clone(), b.clone()),
    ];
    if thorough {
        v.push(over("nested-thrice", "enum values holding another holding another holding another", deeper(&two)));
        v.push(over("nested-pairs-alone", "enum values holding two others, within another", deeper(&both)));
        v.push(over("joined-nested", "enum values holding two others, one of them nested", joined(&b, &one)));
        v.push(over("nested-joined", "enum values holding two others, one of them nested", joined(&one, &b)));
        v.push(pairs("pairs-of-nested", "two enum values holding others", one.clone(), one));
    }

    // Text that is almost a name
    fn named(s: &str, p: &Parser, r: &Parser, cx: &mut Cx) -> Verdict {
        let of = |s: &str| match s {
            "Unit" => Ok(E::Unit),
            "re-named" => Ok(E::Renamed),
            _ => Err(()),
        };
        let f = |e: E| Of { f: Some(e), g: None, q: None };
        for p in [p, r] {
            for doc in [format!("<o f='{}'/>", s), format!("<o f=\"{}\"><z/></o>", s)] {
                note(|| doc.clone());
                cx.op();
                expect(&doc, "as an attribute", &of(s).map(f), &read(p, &doc), cx)?;
            }
            let doc = format!("<Struct n='{}'/>", s);
            cx.op();
            expect(&doc, "as an attribute of a variant", &of(s).map(|e| E::Struct { a: None, n: Some(Box::new(e)) }), &read(p, &doc), cx)?;
        }
        for (p, text) in [(p, model::trimmed(s)), (r, s)] {
            cx.outcome(&of(text).is_ok());
            note(|| format!("{:?} in elements", s));
            cx.ops(5);
            let doc = format!("<o><f q=1>{}</f><New>x</New></o>", s);
            expect(&doc, "as text", &of(text).map(f), &read(p, &doc), cx)?;
            let doc = format!("<o><f><![CDATA[{}]]></f></o>", s);
            if !s.contains("]]") {
                expect(&doc, "as text", &of(text).map(f), &read(p, &doc), cx)?;
            }
            let doc = format!("<o q='2'>{}</o>", s);
            expect(&doc, "as $value text", &of(text).map(|value| OfValue { q: Some("2".into()), value }), &read(p, &doc), cx)?;
            let doc = format!("<Nest>{}</Nest>", s);
            expect(&doc, "as text within a variant", &of(text).map(|e| E::Nest(Box::new(e))), &read(p, &doc), cx)?;
            let doc = format!("<o><f>{0}</f><f>Unit</f><g>{0}</g><g><New>x</New></g></o>", s);
            let want = of(text).map(|e| OfLists { f: vec![e.clone(), E::Unit], g: (e, New(E::New("x".into()))), h: None });
            expect(&doc, "as text in lists and tuples", &want, &read(p, &doc), cx)?;
        }
        Ok(())
    }
    v.push(strings("text-around-names", fills::around(&["Unit", "re-named"]), named));
    v.push(strings("text-words", fills::words(thorough), named));
    v.push(strings("text-repeated", fills::repeats(&["Unit", "re-named", " ", "\u{a0}"], 140, 1000), named));
    v.push(strings("text-characters", Fills { what: "each of two names with each of some 15000 characters before, in, or after it".into(), list: fills::odd_scalars().list.iter().flat_map(|c| [format!("{}Unit", c), format!("Unit{}", c), format!("re{}named", c), format!("{}e-named", c)]).collect() }, named));

    // Names given as text
    const NAMES: &[(&str, Option<E>)] = &[
        ("Unit", Some(E::Unit)),
        ("re-named", Some(E::Renamed)),
        ("Renamed", None),
        ("unit", None),
        ("New", None),
        ("Num", None),
        ("Opt", None),
        ("Emp", None),
        ("Tup", None),
        ("Struct", None),
        ("Val", None),
        ("Inner", None),
        ("Nest", None),
        ("List", None),
        ("Two", None),
        ("Map", None),
        ("bogus", None),
        ("Unitx", None),
        ("f", None),
        ("", None),
    ];
    const AFTER: &[&str] = &["", "<z/>", "<New>x</New>", "<Struct a=x></Struct>", "<Tup>s</Tup><Tup>1</Tup>", "<Nest><Unit/></Nest>", "<Num>1</Num>", "<List><Unit/></List>"];
    v.push(space(
        "names",
        format!("{:?} as text, in 9 places, followed by {:?}", NAMES.iter().map(|n| n.0).collect::<Vec<_>>(), AFTER),
        (NAMES.len() * AFTER.len()) as u64,
        || {
            let (p, r) = parsers();
            move |idx, cx: &mut Cx| {
                let (name, e) = &NAMES[idx as usize % NAMES.len()];
                let after = AFTER[idx as usize / NAMES.len()];
                let want = e.clone().ok_or(());
                cx.state();
                cx.outcome(name);
                cx.sample(|| format!("{:?} {:?}", name, after));
                let f = |e: E| Of { f: Some(e), g: None, q: None };
                check_all(&format!("<o f='{}'>{}</o>", name, after), "as an attribute", want.clone().map(f), &p, &r, cx)?;
                check_all(&format!("<o><f>{}</f>{}</o>", name, after), "as text", want.clone().map(f), &p, &r, cx)?;
                check_all(&format!("<o><f q=1>{}<!-- c --></f>{}</o>", name, after), "as text", want.clone().map(f), &p, &r, cx)?;
                check_all(&format!("<o><f><![CDATA[{}]]></f>{}</o>", name, after), "as text", want.clone().map(f), &p, &r, cx)?;
                if after.is_empty() {
                    check_all(&format!("<o q='2'>{}</o>", name), "as $value text", want.clone().map(|value| OfValue { q: Some("2".into()), value }), &p, &r, cx)?;
                    check_all(&format!("<Nest>{}</Nest>", name), "as text within a variant", want.clone().map(|e| E::Nest(Box::new(e))), &p, &r, cx)?;
                    check_all(&format!("<Struct n='{}'/>", name), "as an attribute of a variant", want.clone().map(|e| E::Struct { a: None, n: Some(Box::new(e)) }), &p, &r, cx)?;
                }
                check_all(
                    &format!("<o><f>{0}</f><f>Unit</f><g>{0}</g><g><New>x</New></g>{1}</o>", name, after),
                    "as text in lists and tuples",
                    want.clone().map(|e| OfLists { f: vec![e.clone(), E::Unit], g: (e, New(E::New("x".into()))), h: None }),
                    &p,
                    &r,
                    cx,
                )?;
                if !name.is_empty() && e.is_none() && !["New", "Opt", "Emp", "Struct", "Val", "Inner", "List", "Map"].contains(name) {
                    // Elements that are no variants, or have nothing of what their variant holds
                    for doc in [format!("<o><f><{0}></{0}></f>{1}</o>", name, after), format!("<o><f><{0}/></f>{1}</o>", name, after)] {
                        check_all::<Of>(&doc, "as an element", Err(()), &p, &r, cx)?;
                    }
                }
                Ok(())
            }
        },
    ));
    v.extend(reference_spaces(
        4 + thorough as u32,
        &[
            "<r><§/></r>", "<r><§>x</§></r>", "<§>x</§>", "<r a='§'/>", "<r><a>§</a></r>", "<r>§</r>", "<o><a><b>§</b></a></o>", "<r><a>§<a/></a></r>", "<r><c a='§'/><c><b>§</b></c></r>", "<d>§</d>",
            "<r><c><e>1</e><e>§</e></c></r>", "<r><d><d><§/></d></d></r>",
        ],
        &["a", "<a/>", "<b>x</b>", "<d>", "<e>1</e>", "<!-- -->"],
        |n| {
            matches!(
                n,
                "En" | "Vec<En>" | "Option<En>" | "En2" | "Ens" | "Valued<En>" | "Valued<Vec<En>>" | "ValuedOr<Vec<Ens>>" | "BTreeMap<String, En>" | "BTreeMap<En, String>" | "Internal" | "Adjacent"
            )
        },
    ));
    v.extend(typed_spaces(thorough, |k| k.choice));
    v.extend([wide_enums(), any_names(2), deep_types(&[4, 5])]);
    v
}

// ---------------------------------------------------------------------------------------------
// D06: `$value`

fn value_of(doc: &str, o: &Node, p: &Parser, cx: &mut Cx) -> Verdict {
    let attr = |n: &str| o.attrs.iter().find(|a| a.0 == n).map(|a| a.1.clone().unwrap_or_default());
    let repeated = |n: &str| o.attrs.iter().filter(|a| a.0 == n).count() > 1;
    let twice = repeated("q");
    let kids: Vec<&Node> = o.nodes().collect();
    let text = o.text();
    let texts = o.kids.iter().any(|k| matches!(k, Kid::Text(t) if !t.is_empty()));
    let q = attr("q");
    macro_rules! want {
        ($t:ty, $v:expr, $what:expr) => {{
            let v: Option<$t> = $v;
            let w: Result<OfValue<$t>, ()> = match v {
                Some(value) if !twice => Ok(OfValue { q: q.clone(), value }),
                _ => Err(()),
            };
            cx.op();
            cx.outcome(&(format!("{:?}", w), $what));
            expect(doc, $what, &w, &read::<OfValue<$t>>(p, doc), cx)?;
            // Wherever the field is among the others, and however many they are
            let of = |v: OfValue<$t>| (v.q, v.value);
            let once = w.map(of).and_then(|w| if repeated("y") || repeated("z") { Err(()) } else { Ok(w) });
            cx.ops(2);
            let got = read::<MidValue<$t>>(p, doc).map(|v| ((v.q, v.value), v.y, v.z));
            let mid = once.map(|w| (w, attr("y"), attr("z")));
            expect(doc, $what, &mid, &got, cx)?;
            let got = read::<LastValue<$t>>(p, doc).map(|v| ((v.q, v.value), v.y, v.z));
            expect(doc, $what, &mid, &got, cx)?;
        }};
    }
    if kids.is_empty() {
        want!(String, Some(text.clone()), "as text");
        want!(New<String>, Some(New(text.clone())), "as text");
        want!(Bytes, Some(Bytes(text.clone().into_bytes())), "as bytes");
        want!(i32, text.parse().ok(), "as a number");
        want!(f64, text.parse().ok(), "as a number");
        want!(char, text.parse().ok(), "as a character");
        want!(bool, boolean(&text).ok(), "as a boolean");
        want!(E, match &*text {
            "Unit" => Some(E::Unit),
            "re-named" => Some(E::Renamed),
            _ => None,
        }, "as an enum");
        want!((), Some(()), "as nothing");
        if !text.is_empty() {
            want!(Option<String>, Some(Some(text.clone())), "as optional text");
            want!(Option<i32>, text.parse().ok().map(Some), "as an optional number");
            want!(Any, Some(Any::Text(text.clone())), "as anything");
        } else {
            want!(Vec<E>, Some(vec![]), "as no elements");
            want!(Vec<S>, Some(vec![]), "as no elements");
        }
        // Not from the element itself
        want!(S, None, "as a struct");
        want!(BTreeMap<String, String>, None, "as a map");
        let s: Result<(String,), ()> = if twice { Err(()) } else { Ok((text,)) };
        cx.op();
        // Among other parts, in an element further in, with others around
        #[derive(Debug, Deserialize, PartialEq)]
        struct Out {
            o: Vec<OfValue<String>>,
            p: OfValue<Option<E>>,
        }
        let doc2 = format!("<x><o>1</o>{}<p q='w'>Unit</p></x>", doc);
        let w = s.map(|(value,)| Out {
            o: vec![OfValue { q: None, value: "1".into() }, OfValue { q: q.clone(), value }],
            p: OfValue { q: Some("w".into()), value: Some(E::Unit) },
        });
        expect(&doc2, "as items with text", &w, &read(p, &doc2), cx)?;
    } else if !texts {
        let es: Option<Vec<E>> = kids
            .iter()
            .map(|n| match &*n.name {
                "Unit" => Some(E::Unit),
                "New" => Some(E::New(n.text())),
                "re-named" => Some(E::Renamed),
                _ => None,
            })
            .collect();
        let one = if kids.len() == 1 { es.as_ref().map(|e| e[0].clone()) } else { None };
        want!(E, one.clone(), "as an enum");
        want!(Option<E>, one.map(Some), "as an optional enum");
        want!(Vec<E>, es, "as enums");
        let strs: Vec<String> = kids.iter().map(|n| n.text()).collect();
        want!(Vec<String>, Some(strs.clone()), "as the texts of elements");
        want!(Vec<i32>, strs.iter().map(|s| s.parse().ok()).collect(), "as numbers");
        want!((String, String), match &strs[..] {
            [a, b] => Some((a.clone(), b.clone())),
            _ => None,
        }, "as a tuple");
        let structs: Option<Vec<S>> = kids
            .iter()
            .map(|n| {
                let a: Vec<&String> = n.nodes().filter(|n| n.name == "a").map(|_| &n.name).collect();
                match (a.len(), n.attrs.iter().find(|a| a.0 == "a")) {
                    (0, None) => Some(S::default()),
                    (0, Some(a)) => Some(S { a: Some(a.1.clone().unwrap_or_default()), ..S::default() }),
                    _ => None,
                }
            })
            .collect();
        want!(Vec<S>, structs.clone(), "as structs");
        want!(S, structs.and_then(|mut s| if s.len() == 1 { s.pop() } else { None }), "as a struct");
    }
    // The other fields must be attributes
    #[derive(Debug, Deserialize, PartialEq)]
    struct Need {
        q: String,
        #[serde(rename = "$value")]
        value: IgnoredOnce,
    }
    let got = read::<Need>(p, doc);
    cx.op();
    if q.is_none() && got.is_ok() {
        return Err(format!("document: {:?}\nthere is no attribute for the field q\ngot: {:?}", doc, got));
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
struct IgnoredOnce;
impl<'de> Deserialize<'de> for IgnoredOnce {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        IgnoredAny::deserialize(d).map(|_| IgnoredOnce)
    }
}

fn d06(thorough: bool) -> Vec<Space> {
    const ATTRS: &[&str] = &["", " q='v'", " q", " z=1 q=2", " q=1 q=2", " value=3"];
    const KIDS: &[&str] = &[
        "x", "7", "true", "Unit", " ", "\n", "-", "&#65;", "&amp;", "<!-- c -->", "<![CDATA[ <q>]]>", "<![CDATA[]]>", "<![INCLUDE[re-named]]>", "<Unit/>", "<Unit></Unit>",
        "<New>x</New>", "<New a='1'>7</New>", "<re-named z></re-named>", "<q>t</q>",
    ];
    let s = Seqs::new(KIDS.len(), 0, if thorough { 4 } else { 3 });
    let na = ATTRS.len() as u64;
    let mut v = vec![space(
        "value",
        format!("elements with each of the attributes {:?} and all sequences of 0..={} of the content {:?}, trimmed and not", ATTRS, s.max, KIDS),
        s.len() * na,
        move || {
            let (p, r) = parsers();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx / na, &mut seq);
                let content: String = seq.iter().map(|&t| KIDS[t]).collect();
                let attrs = ATTRS[(idx % na) as usize];
                let mut docs = vec![format!("<o{}>{}</o>", attrs, content)];
                if content.is_empty() {
                    docs.push(format!("<o{} />", attrs));
                }
                for doc in docs {
                    note(|| doc.clone());
                    cx.sample(|| doc.clone());
                    for (c, p) in [(&CONF, &p), (&RAW, &r)] {
                        let evs = model::parse(&doc, c).map_err(|e| format!("{:?}: the model says {:?}", doc, e))?;
                        let o = match tree(&evs) {
                            Tree::Root(n, _) => n,
                            t => panic!("{}: {:?}", doc, t),
                        };
                        cx.state();
                        value_of(&doc, &o, p, cx)?;
                    }
                }
                Ok(())
            }
        },
    )];
    v.extend(reference_spaces(
        4 + thorough as u32,
        &[
            "<r>§</r>", "<r a='§'>x</r>", "<r a='x'>§<b/></r>", "<r><§/></r>", "<r><b>§</b></r>", "<r §='1'>x</r>", "<r §>x</r>", "<r><§>x</§>§</r>", "<r a=1>x§</r>", "<r>§x</r>",
            "<r a='1'><b>1</b>§<a/></r>",
        ],
        &["x", " ", "<b>x</b>", "<a/>", "<!-- -->", "&amp;", "<![CDATA[x]]>", " z"],
        |n| n.starts_with("Valued") || matches!(n, "Internal" | "Ens" | "S"),
    ));
    v.extend(typed_spaces(thorough, |k| k.dollar));
    v.extend([wide_values(), any_names(1), deep_types(&[3, 6])]);
    v
}

// ---------------------------------------------------------------------------------------------
// Lists of events, not necessarily ones that the parser gives

fn fragment(evs: &[Ev]) -> SgmlFragment<'static> {
    SgmlFragment::from(evs.iter().map(Ev::event).collect::<Vec<_>>())
}

fn alphabet() -> Vec<Ev> {
    let s = |s: &str| s.to_owned();
    vec![
        Ev::Open(s("a")),
        Ev::Open(s("b")),
        Ev::Attr(s("a"), None),
        Ev::Attr(s("b"), Some(s("x"))),
        Ev::Close,
        Ev::XmlClose,
        Ev::End(s("a")),
        Ev::End(s("b")),
        Ev::Text(s("x")),
        Ev::Text(s("")),
        Ev::Pi(s("<?p>")),
        Ev::Open(s("")),
        Ev::End(s("")),
        Ev::Section(s("IGNORE"), s("x")),
        Ev::Decl(s("D"), s("e")),
    ]
}

/// All lists of events up to some length, as each type of the menu.
fn event_lists(min: u32, max: u32, k: usize, pre: &'static [usize]) -> Space {
    let abc = alphabet();
    let abc: Vec<Ev> = abc[..k].to_vec();
    let s = Seqs::new(k, min, max);
    let prefix: Vec<Ev> = pre.iter().map(|&i| alphabet()[i].clone()).collect();
    space(
        &format!("event-lists-{}", k),
        format!("lists of events: {:?}, then all sequences of {}..={} of {:?}; as {} types", prefix, min, max, abc, MENU.len()),
        s.len(),
        move || {
            let abc = abc.clone();
            let prefix = prefix.clone();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let mut evs = prefix.clone();
                evs.extend(seq.iter().map(|&i| abc[i].clone()));
                cx.state();
                let f = fragment(&evs);
                for (name, read, _) in MENU {
                    note(|| format!("{:?} as {}", evs, name));
                    cx.op();
                    total(read(f.clone()), cx);
                }
                cx.sample(|| format!("{:?}", evs));
                Ok(())
            }
        },
    )
}

/// That an error can be described too is part of it.
fn total(r: Result<String, DeserializationError>, cx: &mut Cx) {
    cx.checked();
    match r {
        Ok(s) => cx.outcome(&s),
        Err(e) => cx.outcome(&(1, e.to_string(), format!("{:?}", e).len())),
    }
}

type Step = fn(&mut sgmlish::de::SgmlDeserializer) -> Result<String, DeserializationError>;

fn step<T: DeserializeOwned + Debug>(d: &mut sgmlish::de::SgmlDeserializer) -> Result<String, DeserializationError> {
    T::deserialize(d).map(|v| format!("{:?}", v))
}

macro_rules! steps {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), step::<$t> as Step)),*] };
}
const AGAIN: &[(&str, Step)] = steps![String, bool, (), Any, S, Valued<String>, Valued<Vec<En>>, Vec<String>, Vec<S>, (String, String), En, Vec<En>, BTreeMap<String, Any>, Zero, Untagged];

fn d07(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    fn judge(doc: &str, _: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let f = match p.parse(doc) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
        for (name, read, _) in MENU {
            note(|| format!("{:?} as {}", doc, name));
            cx.op();
            total(read(f.clone()), cx);
        }
        Ok(())
    }
    /// With and without the end tags that are missing.
    fn closed(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        judge(doc, c, p, cx)?;
        let mut open = vec![];
        for e in model::parse(doc, c).unwrap_or_default() {
            if let Ev::Open(n) = e {
                open.push(n);
            }
        }
        // None of them has been closed
        let mut doc = doc.to_owned();
        if !doc.contains("</a>") {
            for n in open.iter().rev() {
                doc.push_str(&format!("</{}>", n));
            }
        }
        judge(&doc, c, p, cx)
    }
    let mut v = vec![
        event_lists(0, 3 + d, 15, &[]),
        event_lists(4, 5 + d, 10, &[]),
        event_lists(0, 4 + d, 11, &[0, 4]),
        docs("documents", DOC, "", "", 4, judge),
        docs("documents-in-root", DOC, "<r>", "</r>", 4, judge),
        docs("documents-in-enum", DOC, "<o><b>", "</b></o>", 4 + d, judge),
    ];
    v.extend(sweep(
        &[
            "<r a='§' b='§' c='§'>§</r>", "<r><a>§</a><b>§</b><c>§</c></r>", "<r><§>x</§></r>", "<r §='x' §>y</r>", "<§/>", "<r><§/><§ a='§'/></r>", "<r c='§'/>", "<r><b><§>§</§></b></r>",
            "<r>§<a>1</a>§</r>",
        ],
        &["x", "<a/>", "<b>x</b>", "<![CDATA[]]>", " z", "é"],
        5000,
        judge,
    ));
    // What is left of a reader after it gave something, or an error
    fn again(doc: &str, _: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let f = match p.parse(doc) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
        for (first, a) in AGAIN {
            for (second, b) in AGAIN {
                note(|| format!("{:?} as {}, and then as {}", doc, first, second));
                let mut d = match sgmlish::de::SgmlDeserializer::from_fragment(f.clone()) {
                    Ok(d) => d,
                    Err(_) => return Ok(()),
                };
                cx.ops(3);
                total(a(&mut d), cx);
                total(b(&mut d), cx);
                total(a(&mut d), cx);
            }
        }
        Ok(())
    }
    v.push(docs("again", DOC, "", "", 3 + d, again));
    v.push(docs("again-in-root", DOC, "<r>", "</r>", 3 + d, again));
    const DEEP: &[&str] = &["§", "<r>§", "<r>§<a>1</a>", "<r><b>§x", "<r><z>§"];
    v.push(holes("fill-nested", DEEP, fills::repeats(&["<a>", "<d>", "<b>", "<z>", "<c>x"], 140, 600), closed));
    v.push(typed_total(3 + d));
    v
}

const D07_PROBES: &[engine::Probe] = &[
    engine::Probe {
        name: "deep-recursive-type",
        what: "100000 nested elements, read into a type that holds itself",
        run: || {
            let n = 100000;
            let s = format!("{}{}", "<d>".repeat(n), "</d>".repeat(n));
            // A value that deep could not be dropped either
            std::mem::forget(sgmlish::parse(&s).unwrap().deserialize::<S>());
        },
    },
    engine::Probe {
        name: "deep-skipped",
        what: "300000 nested elements that are to be skipped",
        run: || {
            let n = 300000;
            let s = format!("<o><z>{}{}</z><a>x</a></o>", "<y>".repeat(n), "</y>".repeat(n));
            assert_eq!(sgmlish::parse(&s).unwrap().deserialize::<S>().unwrap().a.as_deref(), Some("x"));
        },
    },
    engine::Probe {
        name: "deep-text",
        what: "text within 300000 nested elements",
        run: || {
            let n = 300000;
            let s = format!("<o><a>{}x{}</a></o>", "<y>".repeat(n), "</y>".repeat(n));
            assert_eq!(sgmlish::parse(&s).unwrap().deserialize::<S>().unwrap().a.as_deref(), Some("x"));
        },
    },
    engine::Probe {
        name: "many-events",
        what: "two million siblings and attributes",
        run: || {
            let n = 1000000;
            let s = format!("<o{}>{}<a>x</a></o>", " z".repeat(n), "<z/>t".repeat(n));
            assert_eq!(sgmlish::parse(&s).unwrap().deserialize::<S>().unwrap().a.as_deref(), Some("x"));
        },
    },
];

// ---------------------------------------------------------------------------------------------
// Documents of every size, of a few shapes

const SHAPES: &[&str] = &[
    "<x> n deep", "<a> and <b> n deep, in turns", "<d> n deep", "n names deep", "<y> n deep in what is skipped, and a field", "n elements that are skipped, and a field", "n elements of a list",
    "n XML-style empty elements", "n attributes", "n pieces of text", "n elements in each other, each after another",
];

fn stretched(shape: usize, n: usize) -> Vec<Ev> {
    let s = |s: &str| s.to_owned();
    let mut v = vec![Ev::Open(s("r")), Ev::Close];
    let deep = |v: &mut Vec<Ev>, name: &dyn Fn(usize) -> String, before: &[Ev]| {
        for i in 0..n {
            v.extend_from_slice(before);
            v.extend([Ev::Open(name(i)), Ev::Close]);
        }
        v.push(Ev::Text(s("1")));
        for i in (0..n).rev() {
            v.push(Ev::End(name(i)));
        }
    };
    let leaf = |name: &str, text: &str| [Ev::Open(s(name)), Ev::Close, Ev::Text(s(text)), Ev::End(s(name))];
    match shape {
        0 => deep(&mut v, &|_| s("x"), &[]),
        1 => deep(&mut v, &|i| s(["a", "b"][i % 2]), &[]),
        2 => deep(&mut v, &|_| s("d"), &[]),
        3 => deep(&mut v, &|i| format!("x{}", i), &[]),
        4 => {
            deep(&mut v, &|_| s("y"), &[]);
            v.extend(leaf("a", "2"));
        }
        5 => {
            for _ in 0..n {
                v.extend(leaf("y", "1"));
            }
            v.extend(leaf("a", "2"));
        }
        6 => {
            for _ in 0..n {
                v.extend(leaf("b", "1"));
            }
        }
        7 => {
            for _ in 0..n {
                v.extend([Ev::Open(s("b")), Ev::XmlClose]);
            }
        }
        8 => {
            v.pop();
            for i in 0..n {
                v.push(Ev::Attr(format!("x{}", i), Some(s("1"))));
            }
            v.push(Ev::Close);
            v.extend(leaf("a", "2"));
        }
        9 => v.extend((0..n).map(|_| Ev::Text(s("1")))),
        _ => deep(&mut v, &|_| s("d"), &leaf("a", "1")),
    }
    v.push(Ev::End(s("r")));
    v
}

/// Where something could be done to a list of that many events: at both ends, and around the quarters.
fn places(n: usize) -> Vec<usize> {
    let mut at = std::collections::BTreeSet::new();
    for (mid, around) in [(0, 4), (n / 4, 1), (n / 2, 3), (n * 3 / 4, 2), (n, 4)] {
        at.extend((mid.saturating_sub(around)..=mid + around).filter(|&i| i < n));
    }
    at.into_iter().collect()
}

/// Documents of every shape and size, with a few things done at each place.
fn stretches(small: u64, max: u64, what: &str, judge: fn(&[Ev], usize, &mut Cx) -> Verdict) -> Space {
    let counts = fills::counts(small, max);
    let n = (SHAPES.len() * counts.len()) as u64;
    let bound = format!("{}, in each of {:?}, for each n of 0..={}, and (up to {}) around powers of two and the integers of the code under test; at up to 9 places at both ends, and some around each quarter", what, SHAPES, small, max);
    space("stretched", bound, n, move || {
        let counts = counts.clone();
        move |idx, cx: &mut Cx| {
            let (shape, n) = (idx as usize % SHAPES.len(), counts[idx as usize / SHAPES.len()]);
            let evs = stretched(shape, n);
            cx.sample(|| format!("n = {}: {}", n, SHAPES[shape]));
            for at in places(evs.len()) {
                cx.state();
                judge(&evs, at, cx)?;
            }
            Ok(())
        }
    })
}

/// What can be wrong with tags, done to the tag at a place.
fn broken_at(evs: &[Ev], at: usize, mut judge: impl FnMut(&[Ev]) -> Verdict) -> Verdict {
    let name = match &evs[at] {
        Ev::End(n) => n.clone(),
        Ev::Text(_) => return judge(&evs[..at]),
        _ => return Ok(()),
    };
    let mut others: std::collections::BTreeSet<String> = ["a", "b", "r", "q", "X"].into_iter().map(String::from).collect();
    others.extend([format!("{}1", name), name[..name.len() - 1].to_owned(), name.to_uppercase()]);
    // Of the elements around
    for e in evs[at + 1..].iter().filter(|e| matches!(e, Ev::End(_))).take(2).chain(evs[..at].iter().rev().filter(|e| matches!(e, Ev::Open(_) | Ev::End(_))).take(3)) {
        if let Ev::End(n) | Ev::Open(n) = e {
            others.insert(n.clone());
        }
    }
    let mut v = evs.to_vec();
    for o in others {
        if o != name && !o.is_empty() {
            v[at] = Ev::End(o);
            judge(&v)?;
        }
    }
    if let Some(other @ Ev::End(_)) = evs.get(at + 1) {
        v[at] = other.clone();
        v[at + 1] = evs[at].clone();
        judge(&v)?;
        v[at + 1] = other.clone();
    }
    v.remove(at);
    judge(&v)?;
    judge(&evs[..at])?;
    if at + 1 < evs.len() {
        v.insert(at, evs[at].clone());
        v.insert(at, evs[at].clone());
        judge(&v)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// D08: unsupported events

fn d08(thorough: bool) -> Vec<Space> {
    fn judge(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let evs = match model::parse(doc, c) {
            Ok(e) => e,
            Err(_) => return Ok(()),
        };
        let n = match tree(&evs) {
            Tree::Root(_, n) => n,
            _ => return Ok(()),
        };
        match p.parse(doc) {
            Ok(f) if model::same(&evs, &f) => {}
            _ => return Err(format!("document: {:?}\nnot parsed as it should: {:?}", doc, evs)),
        }
        let s = |s: &str| s.to_owned();
        let bad = [
            Ev::Pi(s("<?p>")), Ev::Decl(s("DOCTYPE"), s("a")), Ev::Section(s("CDATA"), s("x")), Ev::Open(s("")), Ev::End(s("")), Ev::Pi(s("<?p?>")), Ev::Decl(s(""), s("")),
            Ev::Section(s("IGNORE"), s("")),
        ];
        unsupported(doc, &evs, 0..n, &bad, cx)
    }
    /// Each template with something unsupported wherever the mark is.
    fn filled(doc: &str, c: &Conf, _: &Parser, cx: &mut Cx) -> Verdict {
        let cut = doc.find('\u{1}').unwrap();
        let (template, fill) = (&doc[..cut], &doc[cut + 1..]);
        let evs = model::parse(template, c).map_err(|e| format!("{:?}: the model says {:?}", template, e))?;
        let n = match tree(&evs) {
            Tree::Root(_, n) => n,
            _ => return Ok(()),
        };
        let s = |s: &str| s.to_owned();
        let bad = [
            Ev::Pi(s(fill)), Ev::Pi(format!("<?{}>", fill)), Ev::Decl(s(fill), s("a")), Ev::Decl(s("ENTITY"), s(fill)), Ev::Section(s(fill), s("x")), Ev::Section(s("CDATA"), s(fill)),
            Ev::Section(s("IGNORE"), s(fill)), Ev::Section(s("TEMP"), s(fill)),
        ];
        unsupported(template, &evs, 0..n, &bad, cx)
    }
    fn at_place(evs: &[Ev], at: usize, cx: &mut Cx) -> Verdict {
        let s = |s: &str| s.to_owned();
        let bad = [Ev::Pi(s("<?p>")), Ev::Decl(s("ENTITY"), s("a")), Ev::Section(s("CDATA"), s("x")), Ev::Open(s("")), Ev::End(s(""))];
        unsupported("", evs, at..at + 1, &bad, cx)
    }
    fn unsupported(doc: &str, evs: &[Ev], places: std::ops::Range<usize>, bad: &[Ev], cx: &mut Cx) -> Verdict {
        let base = fragment(evs);
        let plain: Vec<Result<String, ()>> = MENU.iter().map(|(_, read, _)| read(base.clone()).map_err(|_| ())).collect();
        for at in places {
            for b in bad {
                let mut with = evs.to_vec();
                with.insert(at, b.clone());
                let f = fragment(&with);
                for (i, (name, read, _)) in MENU.iter().enumerate() {
                    note(|| format!("{:?} as {}", with, name));
                    cx.op();
                    cx.checked();
                    let got = read(f.clone());
                    cx.outcome(&(name, got.is_ok(), at));
                    // These look at all there is in the element
                    let all = matches!(*name, "String" | "New<String>" | "Option<String>" | "Bytes") && plain[i].is_ok();
                    let unsupported = matches!(got, Err(DeserializationError::Unsupported(ref e)) if b.eq(e));
                    let fine = match &got {
                        Ok(g) => !all && at > 0 && plain[i].as_ref() == Ok(g),
                        // Empty tags that are skipped do not match others
                        Err(_) => unsupported || (at > 0 && (plain[i].is_err() || (!all && matches!(b, Ev::Open(_) | Ev::End(_))))),
                    };
                    // An unsupported event at the very start is always reported
                    if !fine || (at == 0 && !unsupported) {
                        return Err(format!("document: {:?}\nevents: {:?}\nas {}\nwithout {:?}: {:?}\ngot: {:?}", doc, with, name, b, plain[i], got));
                    }
                }
            }
        }
        Ok(())
    }
    const T: &[&str] = &["<a>", "</a>", "<b>", "</b>", "x", "<a b=1 a>", "<c/>", "7", "<x/>"];
    let d = thorough as u32;
    // A document, a mark, and what is unsupported
    const BAD: &[&str] = &["<a b>x</a>\u{1}§", "<a><b>x</b></a>\u{1}§"];
    let mut v = vec![
        docs("documents", T, "", "", 4 + d, judge),
        docs("documents-in-root", T, "<a>", "</a>", 3 + d, judge),
        docs("documents-in-enum", T, "<o a='x'><b>", "</b></o>", 3 + d, judge),
        holes("fill-words", &BAD[1..], fills::words(false), filled),
        holes("fill-ascii", &BAD[..1], fills::ascii_pairs(), filled),
        holes("fill-characters", &BAD[1..], fills::odd_scalars(), filled),
        holes("fill-repeated", BAD, fills::repeats(&["x", " ", "<a>", "?"], 140, 2000), filled),
    ];
    v.push(stretches(if thorough { 140 } else { 40 }, if thorough { 1100 } else { 300 }, "something unsupported", at_place));
    v.push(typed("types", 3, 2, false, |_| true, typed_unsupported));
    v
}

// ---------------------------------------------------------------------------------------------
// D09: end tags that do not match

fn d09(thorough: bool) -> Vec<Space> {
    fn judge_events(evs: &[Ev], cx: &mut Cx) -> Verdict {
        let t = tree(evs);
        if !matches!(t, Tree::Mismatch | Tree::Unfinished) {
            return Ok(());
        }
        let f = fragment(evs);
        for (name, read, _) in MENU {
            note(|| format!("{:?} as {}", evs, name));
            cx.op();
            cx.checked();
            let got = read(f.clone());
            if let Ok(g) = got {
                return Err(format!("events: {:?}\nas {}\nexpected an error ({:?})\ngot: {}", evs, name, t, g));
            }
            cx.outcome(&(name, got.unwrap_err().to_string()));
        }
        Ok(())
    }
    fn judge(doc: &str, c: &Conf, _: &Parser, cx: &mut Cx) -> Verdict {
        match model::parse(doc, c) {
            Ok(e) => judge_events(&e, cx),
            Err(_) => Ok(()),
        }
    }
    /// Well-formed documents, with one end tag changed or left out, or one start tag more.
    fn spoil(doc: &str, c: &Conf, _: &Parser, cx: &mut Cx) -> Verdict {
        let evs = match model::parse(doc, c) {
            Ok(e) => e,
            Err(_) => return Ok(()),
        };
        let n = match tree(&evs) {
            Tree::Root(_, n) => n,
            _ => return Ok(()),
        };
        let evs = &evs[..n];
        for at in 0..n {
            if let Ev::End(name) = &evs[at] {
                for other in ["a", "b", "c", "A", "aa", "", "$value"] {
                    if other != name && !other.is_empty() {
                        let mut v = evs.to_vec();
                        v[at] = Ev::End(other.to_owned());
                        judge_events(&v, cx)?;
                    }
                }
                let mut v = evs.to_vec();
                v.remove(at);
                judge_events(&v, cx)?;
                let mut v = evs.to_vec();
                v.insert(at, evs[at].clone());
                if at + 1 < n {
                    judge_events(&v, cx)?;
                }
                judge_events(&evs[..at], cx)?;
            }
        }
        Ok(())
    }
    let d = thorough as u32;
    const T: &[&str] = &["<a>", "</a>", "<b>", "</b>", "x", "<a b=1 a>", "<c/>", "7", "<x>", "</x>"];
    let mut v = vec![
        docs("documents", T, "", "", 5 + d, judge),
        docs("documents-in-root", T, "<o>", "</o>", 4 + d, judge),
        docs("documents-in-enum", T, "<o a='x'><b>", "</b></o>", 4 + d, judge),
        docs("spoiled", T, "<o>", "</o>", 4 + d, spoil),
        docs("spoiled-in-enum", T, "<o><c><a>", "</a></c></o>", 4 + d, spoil),
    ];
    const NAMES: &[&str] = &["<a></§>", "<o><§>x</a></o>", "<o><b>1</b><c a='1'></§></o>"];
    v.push(holes("fill-words", NAMES, fills::words(false), judge));
    v.push(holes("fill-around", NAMES, fills::around(&["a", "c", "o"]), judge));
    v.push(holes("fill-characters", NAMES, fills::odd_scalars(), judge));
    const LONG: &[&str] = &["<§a>1</§b>", "<o><x§a>1</x§></o>", "<o><x§>1</x§a><b>2</b></o>", "<o><a§>1</b§></o>", "<xa§ a='1'><b/></xb§>", "<o><x§a§><z/></x§b§></o>"];
    v.push(holes("fill-long-names", LONG, fills::repeats(&["a", "é", "ab.", "x:"], 140, 5000), judge));
    v.push(holes("fill-repeated", &["<a></§>", "<§>1</a>", "<o><a>§</o>", "<o>§</a></o>", "<r><z>§</r>"], fills::repeats(&["a", "<a>", "<a></a>", "<a/>", "<b>", "x"], 140, 600), judge));
    v.push(stretches(if thorough { 140 } else { 40 }, if thorough { 1100 } else { 300 }, "a wrong tag", |evs, at, cx| broken_at(evs, at, |v| judge_events(v, cx))));
    v.push(typed("types", 3, 2 + d as usize, false, |_| true, typed_broken));
    v
}

// ---------------------------------------------------------------------------------------------
// D10: XML-style empty elements

fn d10(thorough: bool) -> Vec<Space> {
    fn judge(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let evs = match model::parse(doc, c) {
            Ok(e) => e,
            Err(_) => return Ok(()),
        };
        let mut open = String::new();
        let mut full = vec![];
        for e in &evs {
            match e {
                Ev::Open(n) => open = n.clone(),
                Ev::XmlClose => {
                    full.push(Ev::Close);
                    full.push(Ev::End(open.clone()));
                    continue;
                }
                _ => {}
            }
            full.push(e.clone());
        }
        if full.len() == evs.len() {
            return Ok(());
        }
        let f = match p.parse(doc) {
            Ok(f) if model::same(&evs, &f) => f,
            _ => return Err(format!("document: {:?}\nnot parsed as it should: {:?}", doc, evs)),
        };
        let g = fragment(&full);
        for (name, read, _) in MENU {
            note(|| format!("{:?} as {}", doc, name));
            cx.op();
            cx.op();
            cx.checked();
            let (a, b) = (read(f.clone()), read(g.clone()));
            cx.outcome(&(name, a.as_ref().map_err(|e| e.to_string())));
            match (&a, &b) {
                // Only owned text is in the list of events with end tags
                _ if *name == "&str" || *name == "Borrowed" => {}
                (Ok(a), Ok(b)) if a == b => {}
                (Err(_), Err(_)) => {}
                _ => {
                    return Err(format!("document: {:?}\nas {}\ngot: {:?}\nwith end tags instead: {:?}", doc, name, a, b));
                }
            }
        }
        Ok(())
    }
    let d = thorough as u32;
    const T: &[&str] = &["<a>", "</a>", "<b/>", "<a/>", "x", "<a b=1 a/>", "<c a='x'/>", "<x />", "<b>", "</b>"];
    let mut v = vec![
        docs("documents", T, "", "", 4 + d, judge),
        docs("documents-in-root", T, "<o>", "</o>", 4 + d, judge),
        docs("documents-in-enum", T, "<o a='x'><b>", "</b></o>", 4 + d, judge),
        docs("documents-in-item", T, "<o><a>", "</a><a/></o>", 4 + d, judge),
    ];
    const AT: &[&str] = &["<r><§/></r>", "<a b='§'/>", "<r><a §/><b/></r>", "<§/>", "<r><b/>§</r>", "<r>§<a/></r>"];
    v.push(holes("fill-words", AT, fills::words(false), judge));
    v.push(holes("fill-ascii", AT, fills::ascii_pairs(), judge));
    v.push(holes("fill-characters", &AT[..3], fills::odd_scalars(), judge));
    v.push(holes("fill-repeated", AT, fills::repeats(&["a", "<a/>", "<b/>", "<z/>", "<d/>", " z", "<a/>x", "<b b/>"], 140, 1000), judge));
    v.push(typed("types", 3 + d as usize, 3, false, |_| true, typed_xml));
    v
}

// ---------------------------------------------------------------------------------------------
// D11: text

fn d11(thorough: bool) -> Vec<Space> {
    const T: &[&str] = &[
        "x", " ", "\n", "&#65;", "&e;", "&lt;", "<![CDATA[ <b>&e; ]]>", "<![CDATA[]]>", "<![RCDATA[&#66;é]]>", "<![INCLUDE[ in ]]>", "<![IGNORE[no]]>", "<!-- c -->", "<i>y</i>", "<i q='1'/>",
        "<i><j> z</j> w</i>",
    ];
    let s = Seqs::new(T.len(), 0, if thorough { 5 } else { 4 });
    let mut v = vec![space(
        "text",
        format!("elements with all sequences of 0..={} of the content {:?}, trimmed and not, as 14 types", s.max, T),
        s.len(),
        move || {
            let (p, r) = parsers();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let content: String = seq.iter().map(|&t| T[t]).collect();
                cx.sample(|| content.clone());
                for (c, p) in [(&CONF, &p), (&RAW, &r)] {
                    let doc = format!("<a z='no'>{}</a>", content);
                    note(|| doc.clone());
                    cx.state();
                    let evs = model::parse(&doc, c).map_err(|e| format!("{:?}: the model says {:?}", doc, e))?;
                    let text = match tree(&evs) {
                        Tree::Root(n, _) => n.text(),
                        t => panic!("{}: {:?}", doc, t),
                    };
                    cx.outcome(&text);
                    let has_kids = content.contains("<i");
                    macro_rules! is {
                        ($doc:expr, $t:ty, $w:expr) => {{
                            let doc: &str = $doc;
                            let w: Option<$t> = $w;
                            cx.op();
                            expect(doc, concat!("as ", stringify!($t)), &w.ok_or(()), &read::<$t>(p, doc), cx)?;
                        }};
                    }
                    is!(&doc, String, Some(text.clone()));
                    is!(&doc, Option<New<String>>, Some(Some(New(text.clone()))));
                    is!(&doc, Box<str>, Some(text.clone().into()));
                    is!(&doc, Cow<'static, str>, Some(text.clone().into()));
                    is!(&doc, Bytes, Some(Bytes(text.clone().into_bytes())));
                    is!(&doc, char, text.parse().ok());
                    is!(&doc, i32, text.parse().ok());
                    is!(&doc, bool, boolean(&text).ok());
                    is!(&doc, (), Some(()));
                    if !has_kids {
                        is!(&doc, ValuedOr<String>, Some(ValuedOr { a: None, value: Some(text.clone()) }));
                    }
                    let f = p.parse(&doc).map_err(|e| format!("document: {:?}\n{}", doc, e))?;
                    // Borrowed, if that can be done
                    cx.op();
                    cx.checked();
                    match f.clone().deserialize::<&str>() {
                        Ok(s) if s == text => {}
                        Err(_) => {}
                        Ok(s) => return Err(format!("document: {:?}\nas &str\nexpected: {:?}\ngot: {:?}", doc, text, s)),
                    }
                    let outer = format!("<o><b>1</b>{}<c>1</c></o>", doc);
                    is!(&outer, S, Some(S { a: Some(text.clone()), b: Some(1), c: Some(true), d: None }));
                    let outer = format!("<o>{0}<a>-</a>{0}</o>", doc);
                    is!(&outer, Lists, Some(Lists { a: vec![text.clone(), "-".into(), text.clone()], b: vec![], c: vec![] }));
                    let outer = format!("<o k='v'>{}<d>-</d></o>", doc);
                    let m: BTreeMap<String, String> = [("k", "v"), ("a", &text), ("d", "-")].map(|(a, b)| (a.to_owned(), b.to_owned())).into();
                    is!(&outer, BTreeMap<String, String>, Some(m));
                    let outer = format!("<o><k><New{}</New></k></o>", &doc[2..doc.len() - 4]);
                    is!(&outer, BTreeMap<String, E>, Some([("k".to_owned(), E::New(text.clone()))].into()));
                }
                Ok(())
            }
        },
    )];
    v.extend(reference_spaces(
        4 + thorough as u32,
        &[
            "<r>§</r>", "<r><z>§</z>§</r>", "<r><a>x§</a><b>1</b></r>", "<r><a>§x<z/>§</a></r>", "<r a='§'/>", "<r><a><![CDATA[§]]>§</a></r>", "<r><![CDATA[§]]></r>", "<r z='§'>x</r>",
            "<r>x<!-- -->§</r>", "<r>§<!-- -->x<!-- -->§<i>y</i></r>", "<r><§>x</§>y</r>",
        ],
        &["x", " ", "é", "<z/>", "<z>", "<z>y</z>", "<!-- -->", "&amp;", "<![CDATA[x]]>", "<![CDATA[]]>"],
        |n| {
            matches!(
                n,
                "String" | "Option<String>" | "char" | "()" | "Unit" | "Bytes" | "New<String>" | "IgnoredAny" | "S" | "Vec<String>" | "Valued<String>" | "BTreeMap<String, String>" | "(String, String)"
            )
        },
    ));
    v
}

// ---------------------------------------------------------------------------------------------
// D12: reading without a known type

/// The reference for what there is in an element.
fn any(n: &Node) -> Any {
    let kids: Vec<&Node> = n.nodes().collect();
    if !kids.is_empty() || !n.attrs.is_empty() {
        let mut m: Vec<(String, Any)> = n.attrs.iter().map(|(k, v)| (k.clone(), Any::Text(v.clone().unwrap_or_default()))).collect();
        if kids.is_empty() {
            m.push(("$value".to_owned(), Any::Text(n.text())));
        }
        m.extend(kids.iter().map(|n| (n.name.clone(), any(n))));
        Any::Map(m)
    } else if n.text().is_empty() {
        Any::Unit
    } else {
        Any::Text(n.text())
    }
}

/// The reference as a source of data.
enum Source {
    Node(Node),
    Text(String),
}
type VErr = de::value::Error;
impl<'de> de::Deserializer<'de> for Source {
    type Error = VErr;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        let n = match self {
            Source::Text(t) => return v.visit_string(t),
            Source::Node(n) => n,
        };
        match any(&n) {
            Any::Unit => v.visit_unit(),
            Any::Text(t) => v.visit_string(t),
            Any::Map(_) => {
                let mut m: Vec<(String, Source)> = n.attrs.iter().map(|(k, v)| (k.clone(), Source::Text(v.clone().unwrap_or_default()))).collect();
                m.extend(n.nodes().map(|k| (k.name.clone(), Source::Node(k.clone()))));
                if n.nodes().next().is_none() {
                    m.push(("$value".to_owned(), Source::Text(n.text())));
                }
                v.visit_map(de::value::MapDeserializer::new(m.into_iter()))
            }
        }
    }
    // The tag of an enum is just text
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        match self {
            Source::Text(t) => v.visit_string(t),
            Source::Node(n) => v.visit_string(n.text()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum ignored_any
    }
}
impl<'de> de::IntoDeserializer<'de, VErr> for Source {
    type Deserializer = Source;
    fn into_deserializer(self) -> Source {
        self
    }
}

fn from_reference<T: DeserializeOwned>(n: &Node) -> Result<T, ()> {
    T::deserialize(Source::Node(n.clone())).map_err(|_| ())
}

fn d12(thorough: bool) -> Vec<Space> {
    fn judge(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let evs = match model::parse(doc, c) {
            Ok(e) => e,
            Err(_) => return Ok(()),
        };
        let o = match tree(&evs) {
            Tree::Root(n, _) => n,
            _ => return Ok(()),
        };
        let a = any(&o);
        cx.outcome(&format!("{:?}", a));
        cx.op();
        expect(doc, "as anything", &Ok(a.clone()), &read::<Any>(p, doc), cx)?;
        cx.op();
        expect(doc, "as an untagged enum", &from_reference(&o), &read::<Untagged>(p, doc), cx)?;
        cx.op();
        expect(doc, "as an internally tagged enum", &from_reference(&o), &read::<Internal>(p, doc), cx)?;
        cx.op();
        expect(doc, "as an optional untagged enum", &from_reference(&o).map(|u| Some(New(u))), &read::<Option<New<Untagged>>>(p, doc), cx)?;

        // Maps
        let mut m: BTreeMap<String, Any> = BTreeMap::new();
        let mut twice = false;
        for (k, v) in &o.attrs {
            twice |= m.insert(k.clone(), Any::Text(v.clone().unwrap_or_default())).is_some();
        }
        for n in o.nodes() {
            twice |= m.insert(n.name.clone(), any(n)).is_some();
        }
        if !twice {
            cx.op();
            expect(doc, "as a map", &Ok(m), &read(p, doc), cx)?;
            let m: BTreeMap<String, String> = o
                .attrs
                .iter()
                .map(|(k, v)| (k.clone(), v.clone().unwrap_or_default()))
                .chain(o.nodes().map(|n| (n.name.clone(), n.text())))
                .collect();
            cx.op();
            expect(doc, "as a map of strings", &Ok(m.clone()), &read(p, doc), cx)?;
            cx.op();
            expect(doc, "as a map of strings", &Ok(m.clone()), &read::<std::collections::HashMap<String, String>>(p, doc).map(|h| h.into_iter().collect()), cx)?;

            // Flattened, where that makes no difference to what is read
            let texts = o.nodes().all(|n| matches!(any(n), Any::Text(_)));
            if texts {
                let mut rest = m.clone();
                let a = rest.remove("a");
                cx.op();
                expect(doc, "as a struct with a flattened map", &Ok(Flat { a, rest }), &read(p, doc), cx)?;
                let at = |k: &str| m.get(k).cloned();
                cx.op();
                expect(doc, "as a struct with a flattened struct", &Ok(FlatS { s: Strings { a: at("a"), b: at("b") }, c: at("c") }), &read(p, doc), cx)?;
            }
        }
        // As an item, and as a field of something else
        let outer = format!("<w><k>{0}</k><k>{0}</k></w>", doc);
        let evs = match model::parse(&outer, c).map(|e| tree(&e)) {
            Ok(Tree::Root(n, _)) => n,
            _ => return Ok(()),
        };
        cx.op();
        let want: Vec<Any> = evs.nodes().map(any).collect();
        let want: Result<BTreeMap<String, Vec<Any>>, ()> = Ok([("k".to_owned(), want)].into());
        if c.trim {
            expect(&outer, "as items", &want, &read(p, &outer), cx)?;
        }
        Ok(())
    }
    let d = thorough as u32;
    const T: &[&str] = &["<a>", "</a>", "<b>", "</b>", "x", "y", "<a b=1 a>", "<c/>", "<b a='x' c=\"0\" />", " ", "<![CDATA[]]>"];
    const IN: &[&str] = &["<a>x</a>", "<b>", "</b>", "x", "y", "<c/>", "<b a='x' c=\"0\" />", " ", "<a>y</a>", "<c>0</c>", "<b>z</b>", "<d></d>"];
    let mut v = vec![
        docs("documents", T, "", "", 5 + d, judge),
        docs("in-root", IN, "<o>", "</o>", 4 + d, judge),
        docs("in-x", IN, "<o a='x'>", "</o>", 4 + d, judge),
        docs("in-y", IN, "<o a=y b=''>", "</o>", 3 + d, judge),
        docs("in-z", IN, "<o a=z>", "</o>", 3 + d, judge),
    ];
    v.extend(reference_spaces(
        4 + d,
        &[
            "<r>§</r>", "<r a='§'/>", "<r><§>x</§></r>", "<r §='x'>y</r>", "<r §>y</r>", "<r><a>§</a></r>", "<r><a b='1'>§</a></r>", "<r a='x'>§</r>", "<r a=y>§</r>", "<r a='x' b='§'>y</r>",
            "<r a='§'>y</r>", "<r><a>1</a>§<b/></r>", "<r><a/>§</r>",
        ],
        &["x", " ", "<b>x</b>", "<a/>", "<z>", "<!-- -->", "&amp;", "<![CDATA[x]]>", "<![CDATA[]]>", " z"],
        |n| n.starts_with("BTreeMap") || matches!(n, "Any" | "Valued<Any>" | "Untagged" | "Internal" | "Adjacent" | "Flat" | "FlatS" | "IgnoredAny"),
    ));
    v.extend(typed_spaces(thorough, |k| k.any || k.map));
    v.push(deep_types(&[7]));
    v
}

// ---------------------------------------------------------------------------------------------
// D13: ways of reading

type Ways = for<'a> fn(&SgmlFragment<'a>) -> Vec<(&'static str, Result<String, String>)>;

/// The fragment with some of its strings owned.
fn partly_owned<'a>(f: &SgmlFragment<'a>, every: usize, from: usize) -> SgmlFragment<'a> {
    let own = |(i, e): (usize, &SgmlEvent<'a>)| if i % every == from { e.clone().into_owned() } else { e.clone() };
    SgmlFragment::from(f.iter().enumerate().map(own).collect::<Vec<_>>())
}

fn ways<T: DeserializeOwned + Debug>(f: &SgmlFragment) -> Vec<(&'static str, Result<String, String>)> {
    fn show<T: Debug>(r: Result<T, DeserializationError>) -> Result<String, String> {
        r.map(|v| format!("{:?}", v)).map_err(|e| e.to_string())
    }
    let by_hand = |f: SgmlFragment| -> Result<T, DeserializationError> {
        let mut d = sgmlish::de::SgmlDeserializer::from_fragment(f)?;
        T::deserialize(&mut d)
    };
    let in_place = |f: SgmlFragment, place: &mut Option<T>| -> Result<(), DeserializationError> {
        let mut d = sgmlish::de::SgmlDeserializer::from_fragment(f)?;
        *place = Some(T::deserialize(&mut d)?);
        Ok(())
    };
    let mut place = None;
    vec![
        ("from_fragment", show(sgmlish::from_fragment::<T>(f.clone()))),
        ("de::from_fragment", show(sgmlish::de::from_fragment::<T>(f.clone()))),
        ("SgmlFragment::deserialize", show(f.clone().deserialize::<T>())),
        ("SgmlDeserializer", show(by_hand(f.clone()))),
        ("SgmlDeserializer, again", show(in_place(f.clone(), &mut place).map(|_| place.unwrap()))),
        ("detached", show(f.clone().into_owned().deserialize::<T>())),
        ("partly detached", show(partly_owned(f, 2, 0).deserialize::<T>())),
        ("partly detached, the rest", show(partly_owned(f, 2, 1).deserialize::<T>())),
        ("through a wrapper", show(f.clone().deserialize::<New<T>>().map(|n| n.0))),
        ("through an option", match f.clone().deserialize::<Option<T>>() {
            Ok(None) => Ok("(none)".to_owned()),
            Ok(Some(v)) => show(Ok(v)),
            Err(e) => show::<T>(Err(e)),
        }),
        ("through a box", show(f.clone().deserialize::<Box<T>>())),
    ]
}

macro_rules! ways_menu {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), ways::<$t> as Ways)),*] };
}
const WAYS: &[(&str, Ways)] = of_types!(ways_menu);

/// Some of the types, for more documents.
macro_rules! few_types {
    ($m:ident) => { $m!(String, bool, char, i32, Unit, Any, S, Vec<(String, String)>, BTreeMap<String, String>, Option<String>, IgnoredAny) };
}
const FEW_WAYS: &[(&str, Ways)] = few_types!(ways_menu);

fn all_ways(doc: &str, _: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    by_ways(doc, p, WAYS, cx)
}

fn few_ways(doc: &str, _: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    by_ways(doc, p, FEW_WAYS, cx)
}

fn by_ways(doc: &str, p: &Parser, menu: &[(&str, Ways)], cx: &mut Cx) -> Verdict {
    let f = match p.parse(doc) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    for (name, ways) in menu {
        note(|| format!("{:?} as {}", doc, name));
        let got = ways(&f);
        cx.ops(got.len() as u64);
        let want = &got[0].1;
        cx.outcome(&(name, want));
        for (way, got) in &got[1..] {
            cx.checked();
            if got != want {
                return Err(format!("document: {:?}\nas {}\nby {}\nexpected: {:?}\ngot: {:?}", doc, name, way, want, got));
            }
        }
    }
    Ok(())
}

#[derive(Debug, Deserialize, PartialEq)]
struct OwnedTexts {
    a: Option<String>,
    #[serde(default)]
    b: Vec<String>,
    c: Option<Box<OwnedTexts>>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct CowTexts<'a> {
    #[serde(borrow)]
    a: Option<Cow<'a, str>>,
    #[serde(borrow, default)]
    b: Vec<Cow<'a, str>>,
    #[serde(borrow)]
    c: Option<Box<CowTexts<'a>>>,
}
#[derive(Debug, Deserialize, PartialEq)]
struct StrTexts<'a> {
    #[serde(borrow)]
    a: Option<&'a str>,
    #[serde(borrow, default)]
    b: Vec<&'a str>,
    #[serde(borrow)]
    c: Option<Box<StrTexts<'a>>>,
}

/// Borrowed text is what owned text is, is part of the document, and is had wherever it can be.
fn borrowing(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let f = match p.parse(doc) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let range = doc.as_bytes().as_ptr_range();
    let within = |s: &str| s.is_empty() || s.as_bytes().as_ptr_range().start >= range.start && s.as_bytes().as_ptr_range().end <= range.end;
    // Text is in one piece, if no reference was replaced and no element has two texts
    let evs = model::parse(doc, c).unwrap_or_default();
    let mut texts = vec![0];
    let mut whole = !doc.split('&').skip(1).any(|s| s.starts_with(|c: char| c.is_alphabetic() || c == '#'));
    for e in &evs {
        match e {
            Ev::Open(_) => texts.push(0),
            Ev::End(_) | Ev::XmlClose => {
                let n = texts.pop().unwrap_or(0) + texts.last_mut().map_or(0, |t| std::mem::take(t));
                match texts.last_mut() {
                    Some(t) => *t += n,
                    None => texts.push(n),
                }
            }
            // What is not written can be no part of the document
            Ev::Attr(_, None) => whole = false,
            Ev::Text(t) if t.is_empty() => {}
            Ev::Text(_) => *texts.last_mut().unwrap() += 1,
            _ => {}
        }
        whole &= texts.iter().all(|t| *t <= 1);
    }
    let bad = |what: &str, want: &dyn Debug, got: &dyn Debug| Err(format!("document: {:?}\n{}\nexpected: {:?}\ngot: {:?}", doc, what, want, got));
    macro_rules! compare {
        ($owned:ty, $cow:ty, $str:ty, $within:expr) => {{
            for (what, f) in [("", f.clone()), ("detached: ", f.clone().into_owned())] {
                cx.ops(3);
                cx.checked();
                let want = f.clone().deserialize::<$owned>().map_err(|e| e.to_string());
                cx.outcome(&want.is_ok());
                let cows = f.clone().deserialize::<$cow>().map_err(|e| e.to_string());
                let shown = |d: &dyn Debug| format!("{:?}", d).replace("CowTexts", "OwnedTexts").replace("StrTexts", "OwnedTexts");
                if want.as_ref().map(|d| shown(d)) != cows.as_ref().map(|d| shown(d)) {
                    return bad(&format!("{}as {}", what, stringify!($cow)), &want, &cows);
                }
                let strs = f.clone().deserialize::<$str>();
                match &strs {
                    Ok(s) => {
                        if Ok(shown(s)) != want.as_ref().map(|d| shown(d)).map_err(|_| ()) {
                            return bad(&format!("{}as {}", what, stringify!($str)), &want, &strs);
                        }
                        let all_within: fn(&$str, &dyn Fn(&str) -> bool) -> bool = $within;
                        if !all_within(s, &within) {
                            return bad(&format!("{}as {}", what, stringify!($str)), &"parts of the document", &strs);
                        }
                    }
                    Err(_) if want.is_err() || what != "" || !whole => {}
                    Err(_) => return bad(&format!("{}as {}", what, stringify!($str)), &want, &strs),
                }
            }
        }};
    }
    fn texts_within(s: &StrTexts, w: &dyn Fn(&str) -> bool) -> bool {
        s.a.map_or(true, w) && s.b.iter().all(|s| w(s)) && s.c.as_ref().map_or(true, |c| texts_within(c, w))
    }
    compare!(String, Cow<str>, &str, |s, w| w(s));
    compare!(OwnedTexts, CowTexts, StrTexts, texts_within);
    compare!(Vec<String>, Vec<Cow<str>>, Vec<&str>, |v, w| v.iter().all(|s| w(s)));
    compare!(BTreeMap<String, String>, BTreeMap<String, Cow<str>>, BTreeMap<String, &str>, |m, w| m.values().all(|s| w(s)));
    compare!((String, String), (Cow<str>, Cow<str>), (&str, &str), |p, w| w(p.0) && w(p.1));
    Ok(())
}

fn d13(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    const T: &[&str] = &[
        "<a>", "</a>", "<b>", "</b>", "x", "&#65;", "<c>", "</c>", "<c a='y' b=z>", "<a/>", " ", "<![CDATA[<]]>", "&", "<b a>", "<b a='&#66;'/>", "é", "<![CDATA[]]>",
    ];
    let mut v = vec![
        docs("ways", REF, "", "", 3 + d, all_ways),
        docs("ways-in-root", REF, "<o>", "</o>", 3 + d, all_ways),
        docs("ways-in-enum", REF, "<o><b>", "</b></o>", 3 + d, all_ways),
        docs("borrowing", T, "", "", 4, borrowing),
        docs("borrowing-in-root", T, "<o>", "</o>", 4 + d, borrowing),
    ];
    for s in sweep(
        &["<r><a>§</a><b>1</b></r>", "<r a='§' b=§>§</r>", "<r><§>x</§></r>", "<r>§</r>", "<r><c><e>1</e></c>§</r>"],
        &["x", "<a/>", "<e>1</e>", " z=1", "&#65;"],
        1000,
        all_ways,
    ) {
        // Two at a time take too long for all types
        if s.name != "fill-words" && s.name != "fill-ascii" {
            v.push(s);
        }
    }
    v.push(holes("fill-words", &["<r><a>§</a><b>1</b></r>", "<r a='§' b=§ c='1'><a>§</a></r>"], fills::words(false), all_ways));
    for s in sweep(&["<§></§>", "<§ b=1>x</§>", "<r><a><§/></a></r>", "<r §><b>§</b></r>"], &["x", ".", "a=1 ", "é"], 1000, few_ways) {
        v.push(Space { name: format!("few-{}", s.name), ..s });
    }
    let mut borrowed = sweep(
        &["<r><a>§</a><b>1</b><b>§</b></r>", "<r a='§'><c a=§/></r>", "<r>§</r>", "<r><a>§x</a></r>", "<r a='& § &#'>§ & x</r>", "<r><![CDATA[§]]></r>", "<r><b>x<z>§</z></b></r>"],
        &["x", " ", "é", "<z/>", "&#65;", "<b>x</b>"],
        5000,
        borrowing,
    );
    for s in &mut borrowed {
        s.name = format!("borrowing-{}", s.name);
    }
    v.extend(borrowed);
    v.push(typed("types", 3 + d as usize, 3, false, |_| true, typed_ways));
    v.push(deep_types(&[0, 1]));
    v
}

// ---------------------------------------------------------------------------------------------
// D14: what errors say

/// What goes wrong first, for a target that looks at everything in the element.
fn first_fault(evs: &[Ev]) -> Option<DeserializationError> {
    use DeserializationError as E;
    let unsupported = |e: &Ev| match e {
        Ev::Decl(..) | Ev::Pi(_) | Ev::Section(..) => true,
        Ev::Open(n) | Ev::End(n) => n.is_empty(),
        _ => false,
    };
    let mut open: Vec<&str> = vec![];
    for (i, e) in evs.iter().enumerate() {
        if unsupported(e) {
            return Some(E::Unsupported(e.event()));
        }
        match e {
            Ev::Open(n) => open.push(n),
            _ if i == 0 => return Some(E::ExpectedStartTag),
            Ev::End(n) => {
                let start = open.pop().unwrap();
                if start != n {
                    return Some(E::MismatchedCloseTag { expected: start.to_owned(), found: n.clone() });
                }
            }
            Ev::XmlClose => {
                open.pop();
            }
            _ => {}
        }
        if open.is_empty() {
            return None;
        }
    }
    Some(E::UnexpectedEof)
}

/// The error as another part of a program gets it.
fn passed_on(e: DeserializationError, bad: &dyn Fn(&str, &dyn Debug, &dyn Debug) -> Verdict) -> Verdict {
    use std::error::Error;
    let (text, debug, source) = (e.to_string(), format!("{:?}", e), e.source().map(|s| s.to_string()));
    let whole = sgmlish::Error::from(e);
    if whole.to_string() != text {
        return bad("message of sgmlish::Error", &text, &whole.to_string());
    }
    if whole.source().map(|s| s.to_string()) != source {
        return bad("source of sgmlish::Error", &source, &whole.source());
    }
    match whole {
        sgmlish::Error::DeserializationError(e) if format!("{:?}", e) == debug => Ok(()),
        other => bad("sgmlish::Error", &debug, &other),
    }
}

fn d14_events(evs: &[Ev], cx: &mut Cx) -> Verdict {
    use DeserializationError as E;
    // An attribute is read by itself
    if matches!(evs.first(), Some(Ev::Attr(..))) {
        return Ok(());
    }
    let want = first_fault(evs);
    let f = fragment(evs);
    let message = want.as_ref().map(|e| match e {
        E::UnexpectedEof => "unexpected end of content".to_owned(),
        E::ExpectedStartTag => "expected start tag".to_owned(),
        E::MismatchedCloseTag { expected, found } => format!("mismatched close tag: expected </{}>, found </{}>", expected, found),
        E::Unsupported(_) => {
            // Where it goes wrong
            let written = evs.iter().find(|e| E::Unsupported(e.event()).to_string() == want.as_ref().unwrap().to_string());
            format!("deserialization of '{}' is not supported", written.unwrap().event())
        }
        _ => unreachable!(),
    });
    macro_rules! each {
        ($($t:ty),*) => {$(
            note(|| format!("{:?} as {}", evs, stringify!($t)));
            cx.op();
            cx.checked();
            let got = f.clone().deserialize::<$t>().map(|_| ());
            let bad = |what: &str, w: &dyn Debug, g: &dyn Debug| -> Verdict {
                Err(format!("events: {:?}\nas {}\n{}\nexpected: {:?}\ngot: {:?}", evs, stringify!($t), what, w, g))
            };
            match (&want, got) {
                (None, Ok(())) => {}
                (Some(w), Err(g)) => {
                    if format!("{:?}", w) != format!("{:?}", g) {
                        return bad("error", w, &g);
                    }
                    if Some(g.to_string()) != message {
                        return bad("message", &message, &g.to_string());
                    }
                    cx.outcome(&message);
                    passed_on(g, &bad)?;
                }
                (w, got) => return bad("error", w, &got),
            }
        )*};
    }
    each!(String, Option<String>, New<String>, Bytes, Cow<str>);
    // Others may fail elsewhere, but pass their errors on as well
    for (name, read, _) in MENU {
        if let Err(e) = read(f.clone()) {
            cx.op();
            let bad = |what: &str, w: &dyn Debug, g: &dyn Debug| -> Verdict {
                Err(format!("events: {:?}\nas {}\n{}\nexpected: {:?}\ngot: {:?}", evs, name, what, w, g))
            };
            if let E::UnexpectedEof | E::EmptyStack | E::ExpectedStartTag | E::MismatchedCloseTag { .. } | E::Unsupported(_) = e {
                if let E::MismatchedCloseTag { expected, found } = &e {
                    let named = |n: &str, end: bool| evs.iter().any(|e| if end { matches!(e, Ev::End(x) if x == n) } else { matches!(e, Ev::Open(x) if x == n) });
                    if expected == found || !named(expected, false) || !named(found, true) {
                        return bad("names in the error", &"tags of the fragment", &e);
                    }
                }
                if let E::Unsupported(u) = &e {
                    if !evs.iter().any(|e| e.eq(u)) {
                        return bad("event in the error", &"one of the fragment", &e);
                    }
                }
            }
            passed_on(e, &bad)?;
        }
    }
    Ok(())
}

/// Text that is no number (or boolean, or character) of the type.
fn d14_text(text: &str, cx: &mut Cx) -> Verdict {
    use std::error::Error;
    let s = || text.to_owned();
    let n = |n: &str| n.to_owned();
    let element = vec![Ev::Open(n("r")), Ev::Close, Ev::Text(s()), Ev::End(n("r"))];
    let pieces = {
        let cut = text.char_indices().nth(1).map_or(text.len(), |c| c.0);
        vec![Ev::Open(n("r")), Ev::Attr(n("b"), Some(n("5"))), Ev::Close, Ev::Text(text[..cut].to_owned()), Ev::Text(text[cut..].to_owned()), Ev::End(n("r"))]
    };
    let attribute = vec![Ev::Attr(n("a"), Some(s()))];
    for evs in [&element, &pieces, &attribute] {
        let f = fragment(evs);
        macro_rules! number {
            ($variant:ident, $what:expr, $($t:ty),*) => {$(
                if let Err(want) = text.parse::<$t>() {
                    note(|| format!("{:?} as {}", evs, stringify!($t)));
                    cx.op();
                    cx.checked();
                    let bad = |what: &str, w: &dyn Debug, g: &dyn Debug| -> Verdict {
                        Err(format!("events: {:?}\nas {}\n{}\nexpected: {:?}\ngot: {:?}", evs, stringify!($t), what, w, g))
                    };
                    match f.clone().deserialize::<$t>() {
                        Err(e @ DeserializationError::$variant { .. }) => {
                            let DeserializationError::$variant { source } = &e else { unreachable!() };
                            if *source != want || e.source().map(|s| s.to_string()) != Some(want.to_string()) {
                                return bad("source", &want, &e);
                            }
                            if e.to_string() != format!(concat!("error parsing ", $what, " value: {}"), want) {
                                return bad("message", &want.to_string(), &e.to_string());
                            }
                            cx.outcome(&e.to_string());
                            passed_on(e, &bad)?;
                        }
                        got => return bad("error", &want, &got),
                    }
                }
            )*};
        }
        number!(ParseIntError, "integer", u8, u16, u32, u64, i8, i16, i32, i64);
        number!(ParseFloatError, "float", f32, f64);
        // Neither an empty value nor its own name is wrong for an attribute
        let is_bool = ["1", "0", "true", "false"].iter().any(|b| b.eq_ignore_ascii_case(text)) || evs.len() == 1 && (text.is_empty() || text.eq_ignore_ascii_case("a"));
        let not_char = text.chars().nth(1).is_some() || text.is_empty();
        let quoted = |e: DeserializationError| if matches!(e, DeserializationError::Message(_)) { e.to_string() } else { format!("{:?}", e) };
        let quoting = format!("string {:?}", text);
        macro_rules! message {
            ($t:ty, $fails:expr, $expected:expr) => {
                if $fails {
                    cx.op();
                    cx.checked();
                    match f.clone().deserialize::<$t>().map_err(quoted) {
                        Err(m) if m.contains(&quoting) && m.contains($expected) => cx.outcome(&m),
                        got => return Err(format!("events: {:?}\nas {}\nexpected a message with {:?} and {:?}\ngot: {:?}", evs, stringify!($t), quoting, $expected, got)),
                    }
                }
            };
        }
        message!(bool, !is_bool, "a boolean");
        message!(char, not_char, "a character");
    }
    Ok(())
}

/// Errors of the other parts, passed on.
fn d14_whole(doc: &str, _: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    use sgmlish::{entities, parser::ContextualizedError, transforms, Error};
    use std::error::Error as _;
    cx.ops(3);
    cx.checked();
    let bad = |what: &str, w: &dyn Debug, g: &dyn Debug| -> Verdict { Err(format!("document: {:?}\n{}\nexpected: {:?}\ngot: {:?}", doc, what, w, g)) };
    match (p.parse(doc), p.parse_with_detailed_errors::<ContextualizedError<&str>>(doc)) {
        (Ok(f), Ok(g)) if f == g => {
            if let Err(e) = transforms::normalize_end_tags(f) {
                use transforms::NormalizationError as N;
                let text = match &e {
                    N::UnpairedEndTag(n) => format!("unpaired end tag: </{}>", n),
                    N::EmptyTagNotSupported => "empty tags (<> and </>) are not supported".to_owned(),
                    other => return bad("normalization", &"a known error", other),
                };
                cx.outcome(&text);
                let whole = Error::from(e);
                if whole.to_string() != text || whole.source().is_some() {
                    return bad("message of sgmlish::Error", &text, &whole.to_string());
                }
                match whole {
                    Error::NormalizationError(_) => {}
                    other => return bad("sgmlish::Error", &"a normalization error", &other),
                }
            }
        }
        (Err(e), Err(d)) => {
            let want = d.describe(&doc);
            let mut written = String::new();
            d.describe_to(&doc, &mut written).unwrap();
            if written != want {
                return bad("described to an output", &want, &written);
            }
            cx.outcome(&want);
            if e.to_string() != want || e.source().is_some() {
                return bad("message of sgmlish::Error", &want, &e.to_string());
            }
            match e {
                Error::ParseError(t) if t == want => {}
                other => return bad("sgmlish::Error", &want, &other),
            }
        }
        (a, b) => return bad("parsed with detailed errors", &a, &b.map_err(|e| e.describe(&doc))),
    }
    if let Err(e) = entities::expand_characters(doc) {
        let text = format!("entity '{}' is not defined", e.entity);
        let whole = Error::from(e.clone());
        if e.to_string() != text || whole.to_string() != text {
            return bad("message of the entity error", &text, &whole.to_string());
        }
        match whole {
            Error::EntityError(w) if w == e && doc.get(w.position.clone()).map_or(false, |s| s.trim_start_matches('&').starts_with(&w.entity)) => {}
            other => return bad("sgmlish::Error", &e, &other),
        }
    }
    Ok(())
}

fn d14_lists(prefix: Vec<Ev>, abc: Vec<Ev>, min: u32, max: u32) -> Space {
    let s = Seqs::new(abc.len(), min, max);
    space(
        &format!("event-lists-{}-{}", prefix.len(), abc.len()),
        format!("lists of events: {:?}, then all sequences of {}..={} of {:?}", prefix, min, max, abc),
        s.len(),
        move || {
            let (abc, prefix) = (abc.clone(), prefix.clone());
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let mut evs = prefix.clone();
                evs.extend(seq.iter().map(|&i| abc[i].clone()));
                cx.state();
                cx.sample(|| format!("{:?}", evs));
                d14_events(&evs, cx)
            }
        },
    )
}

fn d14(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let s = |s: &str| s.to_owned();
    fn as_events(doc: &str, c: &Conf, _: &Parser, cx: &mut Cx) -> Verdict {
        match model::parse(doc, c) {
            Ok(e) => d14_events(&e, cx),
            Err(_) => Ok(()),
        }
    }
    const W: &[&str] = &["<a>", "</a>", "</b>", "<b", ">", "&x;", "&#1;", "\n", "<![X[", "]]>", "<>", "</>", "x", "<!--", "é\t"];
    let q = Seqs::new(20, 0, 3 + d);
    let numbers = space("numbers", format!("all strings of 0..={} of {:?}", 3 + d, "0129-+.eE_ xéainftuT"), q.len(), move || {
        let abc: Vec<char> = "0129-+.eE_ xéainftuT".chars().collect();
        let mut seq = vec![];
        move |idx, cx: &mut Cx| {
            q.decode(idx, &mut seq);
            let text: String = seq.iter().map(|&i| abc[i]).collect();
            cx.state();
            cx.sample(|| text.clone());
            d14_text(&text, cx)
        }
    });
    let mut v = vec![
        d14_lists(vec![], alphabet(), 0, 4),
        d14_lists(vec![Ev::Open(s("r")), Ev::Close, Ev::Open(s("a")), Ev::Close], alphabet(), 0, 3 + d),
        docs("whole", W, "", "", 4 + d, d14_whole),
        numbers,
        strings("text-words", fills::words(false), |t, _, _, cx| d14_text(t, cx)),
        strings("text-ascii", fills::ascii_pairs(), |t, _, _, cx| d14_text(t, cx)),
        strings("text-characters", fills::odd_scalars(), |t, _, _, cx| d14_text(t, cx)),
        strings("text-repeated", fills::repeats(&["1", "0", "x", "9", " "], 140, 2000), |t, _, _, cx| d14_text(t, cx)),
    ];
    // Any text in the part of an event that errors tell of
    fn parts(t: &str, cx: &mut Cx) -> Verdict {
        let s = |s: &str| s.to_owned();
        let r = || vec![Ev::Open(s("r")), Ev::Close];
        for e in [Ev::Pi(s(t)), Ev::Decl(s(t), s("y")), Ev::Decl(s("y"), s(t)), Ev::Section(s(t), s("y")), Ev::Section(s("y"), s(t)), Ev::End(s(t)), Ev::Open(s(t))] {
            d14_events(&[e.clone()], cx)?;
            let mut v = r();
            v.extend([Ev::Text(s("x")), e.clone(), Ev::End(s("r"))]);
            d14_events(&v, cx)?;
            let mut v = r();
            v.extend([Ev::Open(s(t)), Ev::Close, e, Ev::End(s(t)), Ev::End(s("r"))]);
            d14_events(&v, cx)?;
        }
        Ok(())
    }
    for (name, f) in [
        ("words", fills::words(false)),
        ("characters", fills::odd_scalars()),
        ("delimiters", fills::delimiters(3)),
        ("repeated", fills::repeats(&["x", "<a>", " ", "'"], if thorough { 140 } else { 90 }, 1100)),
    ] {
        let (what, list) = (f.what, std::sync::Arc::new(f.list));
        let n = list.len() as u64;
        v.push(space(&format!("parts-{}", name), format!("each kind of event that errors tell of, with {} in each of its parts", what), n, move || {
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let t = &list[idx as usize];
                note(|| format!("{:?}", t));
                cx.state();
                cx.sample(|| t.clone());
                parts(t, cx)
            }
        }));
    }
    v.extend(sweep(&["<r><§>x</y></r>", "<r>§</§></r>", "<r><?§></r>", "<§>"], &["x", "<a>", "<b>x</b>", "<![CDATA[]]>"], 1000, as_events));
    v.push(stretches(if thorough { 140 } else { 40 }, if thorough { 1100 } else { 300 }, "a wrong tag, or something unsupported", |evs, at, cx| {
        d14_events(evs, cx)?;
        let s = |s: &str| s.to_owned();
        for bad in [Ev::Pi(s("<?p>")), Ev::Decl(s("ENTITY"), s("a")), Ev::Section(s("CDATA"), s("x")), Ev::Open(s("")), Ev::End(s(""))] {
            let mut v = evs.to_vec();
            v.insert(at, bad);
            d14_events(&v, cx)?;
        }
        broken_at(evs, at, |v| d14_events(v, cx))
    }));
    for s in sweep(&["<§", "x&§;y", "</§>", "<a></§>", "<![§["], &["x", "<a>", " ", "\n"], 1000, d14_whole) {
        v.push(Space { name: s.name.replace("fill", "whole"), ..s });
    }
    v
}

// ---------------------------------------------------------------------------------------------
// D15: logging

/// Writes every message, as a program's log would.
struct Sink;

thread_local! {
    static LOG: std::cell::RefCell<String> = Default::default();
}

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        use std::fmt::Write;
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.len() > 1 << 16 {
                l.clear();
            }
            let _ = writeln!(l, "{} {} {}", record.level(), record.target(), record.args());
        })
    }
    fn flush(&self) {}
}

/// The same cases twice, first without a log, then with it.
fn logged<F, J>(name: &str, bound: String, len: u64, fragments: F) -> Vec<Space>
where
    F: Fn() -> J + Send + Sync + Copy + 'static,
    J: FnMut(u64, &mut Vec<SgmlFragment<'static>>) + 'static,
{
    use std::sync::atomic::{AtomicU64, Ordering::*};
    static SINK: Sink = Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Off);
    type Results = Vec<(&'static str, String)>;
    fn results(f: &SgmlFragment, cx: &mut Cx) -> Results {
        let shown = |r: Result<String, DeserializationError>| match r {
            Ok(s) => s,
            Err(e) => format!("failure: {} {:?}", e, e),
        };
        let mut v = vec![];
        for (name, read, _) in MENU {
            note(|| format!("{:?} as {}", f, name));
            v.push((*name, shown(read(f.clone()))));
        }
        for (i, (name, step)) in AGAIN.iter().enumerate() {
            note(|| format!("{:?} as {}, twice", f, name));
            if let Ok(mut d) = sgmlish::de::SgmlDeserializer::from_fragment(f.clone()) {
                v.push((*name, shown(step(&mut d))));
                v.push((*name, shown(AGAIN[(i + 1) % AGAIN.len()].1(&mut d))));
            }
        }
        cx.ops(v.len() as u64);
        v
    }
    fn digest(r: &Results) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        r.hash(&mut h);
        h.finish() | 1
    }
    let silent = std::sync::Arc::new((0..len).map(|_| AtomicU64::new(0)).collect::<Vec<_>>());
    let seen = silent.clone();
    vec![
        space(&format!("{}-silent", name), format!("{}; without a log", bound), len, move || {
            log::set_max_level(log::LevelFilter::Off);
            let seen = seen.clone();
            let mut make = fragments();
            let mut list = vec![];
            move |idx, cx: &mut Cx| {
                list.clear();
                make(idx, &mut list);
                let mut all = 1u64;
                for f in &list {
                    cx.state();
                    all = (all ^ digest(&results(f, cx))).wrapping_mul(31);
                }
                seen[idx as usize].store(all | 1, Relaxed);
                Ok(())
            }
        }),
        space(&format!("{}-logged", name), format!("{}; with a log of everything, compared", bound), len, move || {
            log::set_max_level(log::LevelFilter::Trace);
            let silent = silent.clone();
            let mut make = fragments();
            let mut list = vec![];
            move |idx, cx: &mut Cx| {
                list.clear();
                make(idx, &mut list);
                let mut all = 1u64;
                for f in &list {
                    cx.state();
                    let r = results(f, cx);
                    cx.checked();
                    all = (all ^ digest(&r)).wrapping_mul(31);
                    for (_, r) in &r {
                        cx.outcome(r);
                    }
                }
                cx.sample(|| list.iter().map(|f| f.to_string()).collect());
                let before = silent[idx as usize].load(Relaxed);
                if before == all | 1 {
                    return Ok(());
                }
                // Different, or a single case being reproduced
                for f in &list {
                    let with = results(f, cx);
                    log::set_max_level(log::LevelFilter::Off);
                    let without = results(f, cx);
                    log::set_max_level(log::LevelFilter::Trace);
                    for (a, b) in without.iter().zip(&with) {
                        if a != b {
                            return Err(format!("events: {:?}\nas {}\nwithout a log: {}\nwith a log: {}", f, a.0, a.1, b.1));
                        }
                    }
                    if with.len() != without.len() {
                        return Err(format!("events: {:?}\ndiffer with a log", f));
                    }
                }
                match before {
                    0 => Ok(()),
                    _ => Err(format!("events: {:?}\ndiffer with a log, or from one time to another", list)),
                }
            }
        }),
    ]
}

fn d15(thorough: bool) -> Vec<Space> {
    const DOCS: &[&str] = REF;
    const AROUND: &[(&str, &str)] = &[("", ""), ("<r>", "</r>"), ("<o><b>", "</b></o>")];
    const EVENTS: u32 = 15;
    let docs: &'static Seqs = Box::leak(Box::new(Seqs::new(DOCS.len(), 0, 3 + thorough as u32)));
    let lists: &'static Seqs = Box::leak(Box::new(Seqs::new(EVENTS as usize, 0, 4)));
    let fills: &'static Vec<String> = Box::leak(Box::new({
        let mut v = fills::words(false).list;
        v.extend(fills::odd_scalars().list);
        v.extend(fills::repeats(&["x", "<a/>", "<b>x</b>", " z", "é", "<a>"], 140, 1000).list);
        v
    }));
    let mut v = logged("documents", format!("all sequences of 0..={} of {:?}, between each of {:?}, not trimmed", 3 + thorough as u32, DOCS, AROUND), docs.len(), move || {
        let (_, p) = parsers();
        let mut seq = vec![];
        move |idx, out: &mut Vec<SgmlFragment<'static>>| {
            docs.decode(idx, &mut seq);
            let body: String = seq.iter().map(|&i| DOCS[i]).collect();
            for (a, b) in AROUND {
                if let Ok(f) = p.parse(&format!("{}{}{}", a, body, b)) {
                    out.push(f.into_owned());
                }
            }
        }
    });
    v.extend(logged("event-lists", format!("all sequences of 0..=4 of {:?}", alphabet()), lists.len(), move || {
        let abc = alphabet();
        let mut seq = vec![];
        move |idx, out: &mut Vec<SgmlFragment<'static>>| {
            lists.decode(idx, &mut seq);
            let evs: Vec<Ev> = seq.iter().map(|&i| abc[i].clone()).collect();
            out.push(fragment(&evs));
        }
    }));
    const TEMPLATES: &[&str] = &["<r a='§' b='§'>§</r>", "<r><a>§</a><b>x</b></r>", "<§>x</§>"];
    v.extend(logged("fills", format!("{:?}, with literals of the code, each ASCII character before and after, some 15000 characters, and repetitions in place of §", TEMPLATES), fills.len() as u64, move || {
        let (_, p) = parsers();
        let parts: Vec<Vec<&str>> = TEMPLATES.iter().map(|t| fills::holes(t)).collect();
        let mut doc = String::new();
        move |idx, out: &mut Vec<SgmlFragment<'static>>| {
            for t in &parts {
                fills::fill(t, &fills[idx as usize], &mut doc);
                if let Ok(f) = p.parse(&doc) {
                    out.push(f.into_owned());
                }
            }
        }
    }));
    v
}
