// Types made up at run time; part of bin/de.rs.

use mc::schema::{self, Kinds, Seed, Shape, Ty, Val, Var};
use serde::de::DeserializeSeed;

/// A document for types made up at run time.
struct Given {
    doc: String,
    evs: Vec<Ev>,
    node: Node,
    frag: SgmlFragment<'static>,
}

fn given(doc: &str, c: &Conf, p: &Parser) -> Result<Given, String> {
    let evs = model::parse(doc, c).map_err(|e| format!("{:?}: the model says {:?}", doc, e))?;
    let node = match tree(&evs) {
        Tree::Root(n, len) if len == evs.len() => n,
        t => return Err(format!("{:?}: the model says {:?}", doc, t)),
    };
    match p.parse(doc) {
        Ok(f) if model::same(&evs, &f) => Ok(Given { doc: doc.to_owned(), evs, node, frag: f.into_owned() }),
        _ => Err(format!("document: {:?}\nnot parsed as it should: {:?}", doc, evs)),
    }
}

fn read_type(t: Ty, f: SgmlFragment) -> Result<Val, DeserializationError> {
    let mut d = sgmlish::de::SgmlDeserializer::from_fragment(f)?;
    Seed(t).deserialize(&mut d)
}

/// What is read, against what the reference reads.
fn typed_reference(t: Ty, g: &Given, cx: &mut Cx) -> Verdict {
    note(|| format!("{:?} as {}", g.doc, t));
    cx.op();
    cx.checked();
    let want = refde::read_seed(Seed(t), &g.node);
    let got = read_type(t, g.frag.clone());
    cx.outcome(&got.is_ok());
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("document: {:?}\nas {}\nexpected: {:?}\ngot: {:?}", g.doc, t, want, got)),
    }
}

/// All types up to some size, with all documents up to some size.
fn typed<F>(name: &str, types: usize, parts: usize, raw: bool, which: fn(Kinds) -> bool, judge: F) -> Space
where
    F: Fn(Ty, &Given, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let tys: Vec<Ty> = schema::all(types).into_iter().filter(|t| which(schema::kinds(t))).collect();
    let texts: &[&str] = if raw { &["1", " ", "<![CDATA[]]>"] } else { &["1", "a"] };
    let docs: Vec<String> = schema::contents(parts, texts)
        .iter()
        .flat_map(|k| [("<a>", "</a>"), ("<o b=1>", "</o>"), ("<o b a=a>", "</o>")].map(|(s, e)| format!("{}{}{}", s, k, e)))
        .collect();
    let (tys, docs) = (std::sync::Arc::new(tys), std::sync::Arc::new(docs));
    space(
        name,
        format!(
            "{} types (those that apply of all with up to {} parts, of strings, numbers, booleans, units, any, options, newtypes, lists, maps, tuples, structs and enums), each with {} documents (all with up to {} texts and elements, of {:?}, <a>, <b>, <a b=1>, <b a>, <b a='a'/>, in <a>, <o b=1> and <o b a=a>{})",
            tys.len(),
            types,
            docs.len(),
            parts,
            texts,
            if raw { ", not trimmed" } else { "" }
        ),
        tys.len() as u64,
        move || {
            let c = if raw { &RAW } else { &CONF };
            let p = c.parser();
            let all: Vec<Result<Given, String>> = docs.iter().map(|d| given(d, c, &p)).collect();
            let tys = tys.clone();
            move |idx, cx: &mut Cx| {
                let t = tys[idx as usize];
                for g in &all {
                    cx.state();
                    judge(t, g.as_ref().map_err(|e| e.clone())?, cx)?;
                }
                cx.sample(|| format!("{} documents as {}", all.len(), t));
                Ok(())
            }
        },
    )
}

/// Types that leave some of what there is, with all documents up to some size.
fn partial_types(types: usize, parts: usize) -> Space {
    let tys: Vec<Ty> = schema::partial(types);
    let docs: Vec<String> = schema::contents(parts, &["1", "a"]).iter().flat_map(|k| [("<a>", "</a>"), ("<o b=1>", "</o>"), ("<o b a=a>", "</o>")].map(|(s, e)| format!("{}{}{}", s, k, e))).collect();
    let (tys, docs) = (std::sync::Arc::new(tys), std::sync::Arc::new(docs));
    space(
        "partial-types",
        format!("{} types that ask for the first 0..=3 items of a list or 0..=2 entries of a map (of all types with up to {} parts, in all kinds of places), each with {} documents (of up to {} parts)", tys.len(), types, docs.len(), parts),
        tys.len() as u64,
        move || {
            let p = CONF.parser();
            let all: Vec<Result<Given, String>> = docs.iter().map(|d| given(d, &CONF, &p)).collect();
            let tys = tys.clone();
            move |idx, cx: &mut Cx| {
                let t = tys[idx as usize];
                for g in &all {
                    cx.state();
                    typed_reference(t, g.as_ref().map_err(|e| e.clone())?, cx)?;
                }
                cx.sample(|| format!("{} documents as {}", all.len(), t));
                Ok(())
            }
        },
    )
}

/// Types and documents that are made up for each case.
fn made<T: Send + Sync + 'static>(name: &str, bound: String, list: Vec<T>, make: fn(&T) -> (Ty, Vec<String>)) -> Space {
    let list = std::sync::Arc::new(list);
    space(name, bound, list.len() as u64, move || {
        let list = list.clone();
        let p = CONF.parser();
        move |idx, cx: &mut Cx| {
            let (t, docs) = make(&list[idx as usize]);
            for d in &docs {
                cx.state();
                // Not all names can be written
                if let Ok(g) = given(d, &CONF, &p) {
                    typed_reference(t, &g, cx)?;
                }
            }
            cx.sample(|| format!("{:?} as {}", docs, t));
            Ok(())
        }
    })
}

fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([47, 48, 49, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    v
}

/// Structs with many fields.
fn wide_structs() -> Space {
    let bound = "structs with 0..=40, and up to 300 fields, with all of these as attributes or elements in either order, each alone, none, or given twice";
    made("wide-structs", bound.into(), sizes(), |&n| {
        let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
        let opt = schema::ty(Shape::Opt(schema::ty(Shape::Str)));
        let t = schema::structure(names.iter().map(|s| (&s[..], opt)).collect());
        let attr = |i: usize| format!(" f{}=v{}", i, i);
        let kid = |i: usize| format!("<f{}>v{}</f{}>", i, i, i);
        let mut d: Vec<String> = vec!["<o/>".into()];
        let all: Vec<usize> = (0..n).collect();
        let back: Vec<usize> = (0..n).rev().collect();
        for order in [&all, &back] {
            let a: String = order.iter().map(|&i| attr(i)).collect();
            let k: String = order.iter().map(|&i| kid(i)).collect();
            d.push(format!("<o{}></o>", a));
            d.push(format!("<o>{}</o>", k));
            d.push(format!("<o z=1>{}<z/></o>", k.replace("</", "<z>z</z></")));
            let (h, r) = order.split_at(n / 2);
            d.push(format!("<o{}>{}</o>", h.iter().map(|&i| attr(i)).collect::<String>(), r.iter().map(|&i| kid(i)).collect::<String>()));
            if n > 0 {
                d.push(format!("<o>{}{}</o>", k, kid(n - 1)));
                d.push(format!("<o{}>{}</o>", a, kid(n / 2)));
            }
        }
        for i in 0..n {
            d.push(format!("<o{}/>", attr(i)));
            d.push(format!("<o>{}</o>", kid(i)));
        }
        (t, d)
    })
}

/// Structs with many fields that are required.
fn required_structs() -> Space {
    let list: Vec<(usize, usize)> = (1..=24).chain([32, 33, 64, 65]).flat_map(|n| (0..=n).map(move |i| (n, i))).collect();
    let bound = "structs with 1..=24, 32, 33, 64 and 65 fields, all of them given, or all but each one";
    made("required-fields", bound.into(), list, |&(n, without)| {
        let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
        let t = schema::structure(names.iter().map(|s| (&s[..], schema::ty(Shape::Int))).collect());
        let given = (0..n).filter(|i| *i != without);
        let attrs: String = given.clone().map(|i| format!(" f{}={}", i, i)).collect();
        let kids: String = given.map(|i| format!("<f{}>{}</f{}>", i, i, i)).collect();
        (t, vec![format!("<o{}/>", attrs), format!("<o>{}</o>", kids)])
    })
}

/// Structs with a `$value` field at any place.
fn wide_values() -> Space {
    let mut list = vec![];
    for n in (0..=24).chain([31, 32, 33, 39, 40, 63, 64, 65, 127, 128, 255, 256]) {
        for at in (0..=n).filter(|i| n <= 24 || i % 31 == 0 || *i == n || i + 1 == n) {
            for kind in 0..4 {
                list.push((n, at, kind));
            }
        }
    }
    let bound = "structs with 0..=24, and up to 256 fields besides `$value`, that being at any place among them, as text, a list, an enum or any value";
    made("wide-values", bound.into(), list, |&(n, at, kind)| {
        let item = || schema::choice(vec![("x", Var::Unit), ("f0", Var::New(schema::ty(Shape::Str))), ("y", Var::New(schema::ty(Shape::Str)))]);
        let value = match kind {
            0 => schema::ty(Shape::Str),
            1 => schema::ty(Shape::Seq(item())),
            2 => item(),
            _ => schema::ty(Shape::Any),
        };
        let opt = schema::ty(Shape::Opt(schema::ty(Shape::Str)));
        let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
        let mut f: Vec<(&str, Ty)> = names.iter().map(|s| (&s[..], opt)).collect();
        f.insert(at, ("$value", value));
        let attrs: String = (0..n).map(|i| format!(" f{}=v{}", i, i)).collect();
        let mut d = vec![];
        for c in ["", "x", "<x/>", "<y>1</y>", "<x/><y>2</y><f0>3</f0>", "<f0>4</f0>", "t<y>5</y>"] {
            d.push(format!("<o>{}</o>", c));
            d.push(format!("<o{}>{}</o>", attrs, c));
        }
        d.push(format!("<o{}/>", attrs));
        (schema::structure(f), d)
    })
}

/// Enums with many variants.
fn wide_enums() -> Space {
    let bound = "enums with 0..=40, and up to 300 variants, each of them of four kinds, selected by an element, text or attribute, or in a list";
    let list: Vec<(usize, usize)> = sizes().into_iter().flat_map(|n| (0..3).map(move |w| (n, w))).collect();
    made("wide-enums", bound.into(), list, |&(n, place)| {
        let s = || schema::ty(Shape::Str);
        let names: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
        let e = schema::choice(
            names
                .iter()
                .enumerate()
                .map(|(i, name)| {
                    let v = match i % 4 {
                        0 => Var::Unit,
                        1 => Var::New(s()),
                        2 => Var::Struct(schema::fields(vec![("a", s()), ("$value", schema::ty(Shape::Opt(s())))])),
                        _ => Var::Tuple(vec![s(), s()]),
                    };
                    (&name[..], v)
                })
                .collect(),
        );
        let t = match place {
            0 => e,
            1 => schema::structure(vec![("k", e)]),
            _ => schema::structure(vec![("$value", schema::ty(Shape::Seq(e)))]),
        };
        let mut d = vec![];
        for i in 0..=n {
            for one in [format!("<v{0}/>", i), format!("<v{0}>t</v{0}>", i), format!("<v{0} a=1>t</v{0}>", i), format!("<v{0}>1</v{0}><v{0}>2</v{0}>", i)] {
                match place {
                    0 if !one.contains("><v") => d.push(one),
                    0 => {}
                    1 => d.push(format!("<o><k>{}</k></o>", one)),
                    _ => d.push(format!("<o><v0/>{}<v0/></o>", one)),
                }
            }
            if place == 1 {
                d.push(format!("<o k=v{}/>", i));
                d.push(format!("<o><k>v{}</k></o>", i));
            }
        }
        (t, d)
    })
}

/// Tuples of any length.
fn wide_tuples() -> Space {
    let list: Vec<(usize, usize)> = sizes().into_iter().flat_map(|n| (0..5).map(move |w| (n, w))).collect();
    let bound = "tuples of 0..=40, and up to 300 items, as field, tuple variant, newtype variant, `$value` or list of tuples, with one item less, as many, one more, twice as many";
    made("wide-tuples", bound.into(), list, |&(n, place)| {
        let items: Vec<Ty> = (0..n).map(|i| schema::ty(if i % 3 == 1 { Shape::Int } else { Shape::Str })).collect();
        let s = || schema::ty(Shape::Opt(schema::ty(Shape::Str)));
        let tuple = schema::ty(Shape::Tuple(items.clone()));
        let t = match place {
            0 => schema::structure(vec![("k", tuple), ("a", s())]),
            1 => schema::structure(vec![("$value", schema::ty(Shape::Seq(schema::choice(vec![("k", Var::Tuple(items)), ("a", Var::Unit)]))))]),
            2 => schema::structure(vec![("$value", schema::ty(Shape::Seq(schema::choice(vec![("k", Var::New(tuple)), ("a", Var::Unit)]))))]),
            3 => schema::structure(vec![("$value", tuple)]),
            _ => schema::structure(vec![("k", schema::ty(Shape::Seq(tuple)))]),
        };
        let mut d = vec![];
        for m in [n.saturating_sub(1), n, n + 1, 2 * n] {
            let k: String = (0..m).map(|i| format!("<k>{}</k>", i)).collect();
            d.push(format!("<o>{}</o>", k));
            d.push(format!("<o>{}<a/></o>", k));
            d.push(format!("<o><a/>{}</o>", k));
            d.push(format!("<o><k>{}</k><a/></o>", k));
        }
        (t, d)
    })
}

/// One kind of type in itself, many times.
fn deep_types(kinds: &'static [usize]) -> Space {
    let list: Vec<(usize, usize)> = (0..=30).chain([31, 32, 33, 63, 64, 65, 127, 128, 129]).flat_map(|n| kinds.iter().map(move |&k| (n, k))).collect();
    let what = ["options", "newtypes", "structs", "`$value`s", "newtype variants", "struct variants", "lists", "maps"];
    let what: Vec<&str> = kinds.iter().map(|&k| what[k]).collect();
    let bound = format!("{:?} in each other 0..=33, and up to 129 times, with elements as deep, one less, and one more", what);
    made("deep-types", bound, list, |&(n, kind)| {
        let mut t = schema::ty(Shape::Str);
        for _ in 0..n {
            t = match kind {
                0 => schema::ty(Shape::Opt(t)),
                1 => schema::ty(Shape::New(t)),
                2 => schema::structure(vec![("a", t)]),
                3 => schema::structure(vec![("$value", t)]),
                4 => schema::choice(vec![("a", Var::New(t)), ("b", Var::Unit)]),
                5 => schema::choice(vec![("a", Var::Struct(schema::fields(vec![("a", t)]))), ("b", Var::Unit)]),
                6 => schema::structure(vec![("$value", schema::ty(Shape::Seq(t)))]),
                _ => schema::ty(Shape::Map(t)),
            };
        }
        let mut d = vec![];
        for m in [n.saturating_sub(1), n, n + 1, 2 * n + 1] {
            d.push(format!("<o>{}1{}</o>", "<a>".repeat(m), "</a>".repeat(m)));
            d.push(format!("{}1{}", "<a>".repeat(m + 1), "</a>".repeat(m + 1)));
            d.push(format!("<o>{}{}</o>", "<a>".repeat(m), "</a>".repeat(m)));
            if m > 0 {
                d.push(format!("{}<a/>{}", "<a>".repeat(m), "</a>".repeat(m)));
                d.push(format!("{}<b/>{}", "<a>".repeat(m), "</a>".repeat(m)));
                d.push(format!("{}<a a=1/>{}", "<a>".repeat(m), "</a>".repeat(m)));
            }
        }
        (t, d)
    })
}

/// Types whose names, fields and variants are called anything.
fn any_names(which: usize) -> Space {
    let mut list = fills::words(false).list;
    list.extend(fills::around(&["$value", "a"]).list);
    list.extend(fills::odd_scalars().list);
    // What they begin and end with
    for w in fills::mined().words.iter().filter(|w| w.len() < 40).cloned().chain(["$value".to_owned()]) {
        for (i, _) in w.char_indices() {
            list.extend([w[..i].to_owned(), w[i..].to_owned()]);
        }
    }
    if which == 0 {
        list.extend(fills::ascii_pairs().list);
    }
    list.retain(|w| !w.is_empty());
    list.sort();
    list.dedup();
    let what = ["a field", "a field besides `$value`", "a variant", "all types", "a list field"][which];
    let bound = format!("{} called any of {} names: literals of the code and \"$value\" with characters around them, what they begin and end with, and some 15000 characters", what, list.len());
    let make: fn(&String) -> (Ty, Vec<String>) = match which {
        0 => |w| {
            let s = schema::ty(Shape::Opt(schema::ty(Shape::Str)));
            let f = if w == "a" { vec![("a", s)] } else { vec![("a", s), (&w[..], s)] };
            (schema::structure(f), vec!["<o a=1>x</o>".into(), "<o a=1 b=2><z/></o>".into(), "<o><a>1</a></o>".into(), format!("<o {0}=1/>", w), format!("<o a=1><{0}>2</{0}></o>", w), format!("<{0} a=1>2</{0}>", w)])
        },
        1 => |w| {
            let s = schema::ty(Shape::Opt(schema::ty(Shape::Str)));
            let mut f = vec![(&w[..], s), ("$value", schema::ty(Shape::Any))];
            f.dedup_by_key(|x| x.0);
            (schema::structure(f), vec!["<o a=1>x</o>".into(), format!("<o {}=1>x</o>", w), format!("<o><{0}>2</{0}></o>", w), format!("<o {0}=0><{0} {0}/></o>", w)])
        },
        2 => |w| {
            let s = schema::ty(Shape::Str);
            let mut v = vec![(&w[..], Var::New(s)), ("b", Var::Unit)];
            v.dedup_by_key(|x| x.0);
            let e = schema::choice(v);
            let t = schema::structure(vec![("k", schema::ty(Shape::Opt(e))), ("l", schema::ty(Shape::Seq(e)))]);
            (t, vec![format!("<o k='{}'/>", w), format!("<o><k>{}</k><l>b</l></o>", w), format!("<o><k><{0}>1</{0}></k></o>", w), format!("<o><l><{0}/></l><l><b/></l></o>", w)])
        },
        4 => |w| {
            let s = schema::ty(Shape::Seq(schema::ty(Shape::Str)));
            let f = if w == "a" { vec![("a", s)] } else { vec![("a", s), (&w[..], s)] };
            (
                schema::structure(f),
                vec![
                    format!("<o><{0}>1</{0}><{0}>2</{0}></o>", w),
                    format!("<o {0}=1><{0}>2</{0}><a>3</a><z/><{0} a=1/></o>", w),
                    format!("<o><{0}><{0}>1</{0}></{0}></o>", w),
                    format!("<o a=1><z><{0}>1</{0}></z><a>2</a><{0}>3</{0}></o>", w),
                ],
            )
        },
        _ => |w| {
            schema::call_types(schema::name(w));
            let s = schema::ty(Shape::New(schema::ty(Shape::Str)));
            let e = schema::choice(vec![("b", Var::Unit), ("c", Var::New(s))]);
            let t = schema::structure(vec![("a", s), ("k", schema::ty(Shape::Seq(e)))]);
            (t, vec!["<o a=1><k>b</k></o>".into(), "<o><a>1</a><k><c>x</c></k><k><b/></k></o>".into(), "<o a=1 b=2 c=3></o>".into(), format!("<{0} a=1><{0}/></{0}>", w)])
        },
    };
    made(["named-fields", "named-beside-value", "named-variants", "named-types", "named-lists"][which], bound, list, make)
}

/// Types of all kinds, compared with the reference.
fn typed_spaces(thorough: bool, which: fn(Kinds) -> bool) -> Vec<Space> {
    let d = thorough as usize;
    let mut v = vec![
        typed("types", 4, 2 + d, false, which, typed_reference),
        typed("types-and-documents", 3, 3 + d, false, which, typed_reference),
        typed("types-and-spaces", 3, 2 + d, true, which, typed_reference),
    ];
    if thorough {
        v.push(typed("large-types", 5, 2, false, which, typed_reference));
    }
    v
}

/// Elements written in XML style, or as two tags.
fn typed_xml(t: Ty, g: &Given, cx: &mut Cx) -> Verdict {
    let mut open = String::new();
    let mut full = vec![];
    for e in &g.evs {
        match e {
            Ev::Open(n) => open = n.clone(),
            Ev::XmlClose => {
                full.push(Ev::Close);
                full.push(Ev::End(open.clone()));
                continue;
            }
            _ => {}
        }
        full.push(e.clone());
    }
    if full.len() == g.evs.len() {
        return Ok(());
    }
    note(|| format!("{:?} as {}", g.doc, t));
    cx.ops(2);
    cx.checked();
    let (a, b) = (read_type(t, g.frag.clone()), read_type(t, fragment(&full)));
    match (&a, &b) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("document: {:?}\nas {}\ngot: {:?}\nwith end tags instead: {:?}", g.doc, t, a, b)),
    }
}

/// Documents with an end tag changed, left out or twice, or with the end missing.
fn typed_broken(t: Ty, g: &Given, cx: &mut Cx) -> Verdict {
    let mut check = |evs: &[Ev]| {
        note(|| format!("{:?} as {}", evs, t));
        cx.op();
        cx.checked();
        match read_type(t, fragment(evs)) {
            Err(_) => Ok(()),
            Ok(v) => Err(format!("events: {:?}\nas {}\nexpected an error\ngot: {:?}", evs, t, v)),
        }
    };
    for (i, e) in g.evs.iter().enumerate() {
        check(&g.evs[..i])?;
        if let Ev::End(name) = e {
            let mut v = g.evs.clone();
            for other in ["a", "b", "o", "A"] {
                if other != name {
                    v[i] = Ev::End(other.to_owned());
                    check(&v)?;
                }
            }
            v.remove(i);
            // Another one may take its place
            if matches!(tree(&v), Tree::Mismatch | Tree::Unfinished) {
                check(&v)?;
            }
        }
    }
    Ok(())
}

/// Documents with something unsupported at any place.
fn typed_unsupported(t: Ty, g: &Given, cx: &mut Cx) -> Verdict {
    let s = |s: &str| s.to_owned();
    let bad = [Ev::Pi(s("<?p>")), Ev::Decl(s("DOCTYPE"), s("a")), Ev::Section(s("CDATA"), s("x")), Ev::Open(s("")), Ev::End(s(""))];
    let plain = read_type(t, g.frag.clone());
    for at in 0..g.evs.len() {
        for b in &bad {
            let mut with = g.evs.clone();
            with.insert(at, b.clone());
            note(|| format!("{:?} as {}", with, t));
            cx.op();
            cx.checked();
            let got = read_type(t, fragment(&with));
            let fine = match (&plain, &got) {
                (Ok(p), Ok(g)) => at > 0 && p == g,
                (Err(_), Ok(_)) => false,
                (_, Err(DeserializationError::Unsupported(e))) => b.eq(e),
                // Empty tags that are skipped do not match others
                (Ok(_), Err(_)) => at > 0 && matches!(b, Ev::Open(_) | Ev::End(_)),
                (Err(_), Err(_)) => at > 0,
            };
            if !fine {
                return Err(format!("document: {:?}\nevents: {:?}\nas {}\nwithout {:?}: {:?}\ngot: {:?}", g.doc, with, t, b, plain, got));
            }
        }
    }
    Ok(())
}

/// Types, options and newtypes of them, from the document or a copy; twice.
fn typed_ways(t: Ty, g: &Given, cx: &mut Cx) -> Verdict {
    thread_local! {
        static AROUND: std::cell::RefCell<Option<(usize, [Ty; 4])>> = std::cell::RefCell::new(None);
    }
    let at = t as *const Shape as usize;
    let around = AROUND.with(|c| match *c.borrow() {
        Some((a, l)) if a == at => l,
        _ => [schema::ty(Shape::Opt(t)), schema::ty(Shape::New(t)), schema::wrapped(t, Shape::Opt), schema::wrapped(t, Shape::New)],
    });
    AROUND.with(|c| *c.borrow_mut() = Some((at, around)));
    let [opt, new, opts, news] = around;
    note(|| format!("{:?} as {}", g.doc, t));
    cx.ops(7);
    cx.checked();
    let plain = read_type(t, g.frag.clone()).map_err(|e| e.to_string());
    let want = plain.as_ref().map(schema::bare);
    for (how, inner, may_lack) in [("options within", opts, true), ("newtypes within", news, false)] {
        let w = read_type(inner, g.frag.clone()).map_err(|e| e.to_string());
        match (&want, w.as_ref().map(schema::bare)) {
            (Ok(a), Ok(b)) if *a == b => {}
            (Err(_), Err(_)) => {}
            (Err(_), Ok(_)) if may_lack => {}
            _ => return Err(format!("document: {:?}\nas {}: {:?}\nwith {}: {:?}", g.doc, t, plain, how, w)),
        }
    }
    let mut ways = vec![("again", read_type(t, g.frag.clone()).map_err(|e| e.to_string()))];
    ways.push((
        "option",
        read_type(opt, g.frag.clone()).map_err(|e| e.to_string()).map(|v| match v {
            Val::Some(v) => *v,
            v => Val::List(vec![v, Val::None]),
        }),
    ));
    ways.push((
        "newtype",
        read_type(new, g.frag.clone()).map_err(|e| e.to_string()).map(|v| match v {
            Val::New(v) => *v,
            v => Val::List(vec![v, Val::None]),
        }),
    ));
    ways.push(("attached", CONF.parser().parse(&g.doc).map_err(|e| e.to_string()).and_then(|f| read_type(t, f).map_err(|e| e.to_string()))));
    for (how, w) in ways {
        match (&plain, &w) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("document: {:?}\nas {}: {:?}\n{}: {:?}", g.doc, t, plain, how, w)),
        }
    }
    Ok(())
}

/// Anything at all is read without a panic.
fn typed_total(len: u32) -> Space {
    let abc = alphabet();
    let k = abc.len();
    let s = Seqs::new(k, 0, len);
    let tys = std::sync::Arc::new(schema::all(3));
    let n = tys.len() as u64;
    space(
        "types-and-events",
        format!("{} types (all with up to 3 parts), from all sequences of 0..={} of {:?}, between a start tag and nothing, or its end tag", n, len, abc),
        n,
        move || {
            let tys = tys.clone();
            let mut lists = vec![];
            let mut seq = vec![];
            for i in 0..s.len() {
                s.decode(i, &mut seq);
                let mut evs = vec![Ev::Open("a".into())];
                evs.extend(seq.iter().map(|&i| abc[i].clone()));
                lists.push(fragment(&evs));
                evs.push(Ev::End("a".into()));
                lists.push(fragment(&evs));
            }
            move |idx, cx: &mut Cx| {
                let t = tys[idx as usize];
                for f in &lists {
                    note(|| format!("{:?} as {}", f, t));
                    cx.state();
                    cx.op();
                    cx.checked();
                    if let Err(e) = read_type(t, f.clone()) {
                        let text = (e.to_string(), format!("{:?}", e));
                        std::hint::black_box(&text);
                    }
                }
                cx.sample(|| format!("{} lists of events as {}", lists.len(), t));
                Ok(())
            }
        },
    )
}
