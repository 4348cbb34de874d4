//! Properties of fragments (F..) and of transforms (T..).
use mc::conf::{Conf, Ms, Names, DEFAULT};
use mc::engine::{self, note, space, Cx, Property, Seqs, Space, Verdict};
use mc::fills::{self, Fills};
use mc::refparse::{self as model, Ev};
use serde::Deserialize;
use sgmlish::transforms::{normalize_end_tags, NormalizationError, Transform};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};

/// A space with every sequence of `toks` as a document.
fn docs<F>(name: &str, toks: &'static [&'static str], pre: &'static str, max: u32, confs: Vec<Conf>, judge: F) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let s = Seqs::new(toks.len(), 0, max);
    space(
        name,
        format!("documents: {:?} and all sequences of 0..={} of {:?}, under {} configurations", pre, max, toks, confs.len()),
        s.len(),
        move || {
            let ps: Vec<(Conf, Parser)> = confs.iter().map(|c| (*c, c.parser())).collect();
            let mut seq = vec![];
            let mut doc = String::new();
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                doc.clear();
                doc.push_str(pre);
                for &t in &seq {
                    doc.push_str(toks[t]);
                }
                for (c, p) in &ps {
                    note(|| format!("{:?} under {:?}", doc, c));
                    cx.state();
                    judge(&doc, c, p, cx)?;
                }
                cx.sample(|| format!("{:?}", doc));
                Ok(())
            }
        },
    )
}

/// A space with each template with each of the strings in its holes (`§`) as a document.
fn holes<F>(name: &str, templates: &'static [&'static str], fills: Fills, confs: Vec<Conf>, judge: F) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let bound = format!("{:?}, with {} in place of §, under {} configurations", templates, fills.what, confs.len());
    let list = std::sync::Arc::new(fills.list);
    let n = list.len() as u64;
    space(name, bound, n * templates.len() as u64, move || {
        let ps: Vec<(Conf, Parser)> = confs.iter().map(|c| (*c, c.parser())).collect();
        let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
        let list = list.clone();
        let mut doc = String::new();
        move |idx, cx: &mut Cx| {
            fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut doc);
            for (c, p) in &ps {
                note(|| format!("{:?} under {:?}", doc, c));
                cx.state();
                judge(&doc, c, p, cx)?;
            }
            cx.sample(|| format!("{:?}", doc));
            Ok(())
        }
    })
}

fn sweep<F>(templates: &'static [&'static str], units: &[&str], max: u64, confs: Vec<Conf>, judge: F) -> Vec<Space>
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    vec![
        holes("fill-words", templates, fills::words(true), confs.clone(), judge),
        holes("fill-ascii", templates, fills::ascii_pairs(), confs.clone(), judge),
        holes("fill-characters", templates, fills::odd_scalars(), confs.clone(), judge),
        holes("fill-delimiters", templates, fills::delimiters(3), confs.clone(), judge),
        holes("fill-huge", templates, fills::huge(units), confs.clone(), judge),
        holes("fill-repeated", templates, fills::repeats(units, 140, max), confs, judge),
    ]
}

type Event = SgmlEvent<'static>;

fn open(n: &'static str) -> Event {
    SgmlEvent::OpenStartTag { name: n.into() }
}
fn end(n: &'static str) -> Event {
    SgmlEvent::EndTag { name: n.into() }
}
fn text(s: &'static str) -> Event {
    SgmlEvent::Character(s.into())
}
fn attr(n: &'static str, v: Option<&'static str>) -> Event {
    SgmlEvent::Attribute { name: n.into(), value: v.map(Into::into) }
}

/// A space with every sequence of groups of events.
fn lists<F>(name: &str, groups: fn() -> Vec<Vec<Event>>, max: u32, judge: F) -> Space
where
    F: Fn(&[Event], &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let g = groups();
    let s = Seqs::new(g.len(), 0, max);
    let shown: Vec<String> = g.iter().map(|g| g.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ")).collect();
    space(
        name,
        format!("event lists: all sequences of 0..={} of {:?}", max, shown),
        s.len(),
        move || {
            let g = groups();
            let mut seq = vec![];
            let mut list: Vec<Event> = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                list.clear();
                for &t in &seq {
                    list.extend(g[t].iter().cloned());
                }
                note(|| format!("{:?}", list));
                cx.state();
                judge(&list, cx)?;
                cx.sample(|| format!("{:?}", list));
                Ok(())
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// F01: writing a fragment, and reading it again

/// Joins adjacent text, which cannot be told apart in a document, and drops empty text.
fn joined(events: &[SgmlEvent]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in events {
        match (Ev::of(e), out.last_mut()) {
            (Ev::Text(t), _) if t.is_empty() => {}
            (Ev::Text(t), Some(Ev::Text(last))) => last.push_str(&t),
            (e, _) => out.push(e),
        }
    }
    out
}

fn reread(events: &[SgmlEvent], shown: &str, cx: &mut Cx) -> Verdict {
    // Text is only text in content, which a document does not start with
    let first = events.iter().position(|e| matches!(e, SgmlEvent::OpenStartTag { .. } | SgmlEvent::EndTag { .. }));
    let early = events.iter().position(|e| matches!(e, SgmlEvent::Character(_)));
    match (first, early) {
        (Some(f), Some(c)) if c < f => return Ok(()),
        (None, _) => return Ok(()),
        // Nor are there declarations in content
        (Some(f), _) if events[f..].iter().any(|e| matches!(e, SgmlEvent::MarkupDeclaration { .. })) => return Ok(()),
        _ => {}
    }
    let want = joined(events);
    thread_local! {
        static P: Parser = Conf { trim: false, ms: Ms::Keep, ents: true, pents: true, ..DEFAULT }.parser();
    }
    P.with(|p| {
        cx.op();
        let got = p.parse(shown);
        cx.checked();
        cx.outcome(&want);
        match &got {
            Ok(f) if Ev::all(f) == want => Ok(()),
            _ => Err(format!(
                "the events {:?}\nare written as {:?}\nwhich does not read as the same events\nexpected: {:?}\ngot: {:?}",
                events, shown, want, got
            )),
        }
    })
}

fn round_trip(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    cx.op();
    let f = match p.parse(doc) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    // In another case, what was a name may not be one
    let still = |n: &str| n.chars().all(model::name_char);
    if c.names != Names::Same
        && !f.iter().all(|e| match e {
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } | SgmlEvent::Attribute { name, .. } => still(name),
            _ => true,
        })
    {
        return Ok(());
    }
    cx.op();
    let s = f.to_string();
    reread(f.as_slice(), &s, cx)
}

fn made(val: &str, cx: &mut Cx) -> Verdict {
    let a = |name: &'static str, v: &str| SgmlEvent::Attribute { name: name.into(), value: Some(v.to_owned().into()) };
    let list: Vec<Event> = vec![
        open("a"),
        a("b", val),
        attr("flag", None),
        a("c", val),
        SgmlEvent::CloseStartTag,
        SgmlEvent::Character(val.to_owned().into()),
        open("x"),
        a("b", val),
        SgmlEvent::XmlCloseEmptyElement,
        SgmlEvent::Character(val.to_owned().into()),
        end("a"),
    ];
    note(|| format!("{:?}", list));
    cx.state();
    cx.op();
    let s = SgmlFragment::from(list.clone()).to_string();
    reread(&list, &s, cx)?;
    cx.sample(|| s);
    Ok(())
}

fn f01(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let keep = Conf { ents: true, pents: true, ms: Ms::Keep, trim: true, ..DEFAULT };
    let confs = vec![
        keep,
        Conf { trim: false, ..keep },
        Conf { ms: Ms::All, ..keep },
        Conf { ms: Ms::All, trim: false, names: Names::Upper, ..keep },
    ];
    const T: &[&str] = &[
        "x", " ", "<b c='&#34;&#39;'>", "</a>", "<c/>", "&#38;#60;", "&amp;e;", "<![CDATA[ <d> &e; ]]>", "<![RCDATA[&lt;&#62;]]>", "<!-- -->", "<?p q>", "<!D 'x' [ <!E> ] >",
        "<e f g=\"h'i\" j=&lt;>", "<![IGNORE[ <k> ]]>", "<![INCLUDE[<l/>", "]]>", "\r\n", "<>", "</>", "<",
    ];
    let mut v = vec![
        docs("documents", T, "<a>", 4, confs.clone(), round_trip),
        docs("prologs", &["<!D>", "<!D x>", "<!D -- y -- '>' [z] >", "<?p>", "<?q >", "\n", "<!-- -->", "<![ CDATA [v]]>", "<a>", "</a>", "w", "<!d\n\tx\n>"], "", 5 + d, confs.clone(), round_trip),
        docs("attribute-value-chars", &["'", "\"", "&", "#", "34", ";", "<", ">", "/", " ", "é", "&#34;", "&lt;", "&#38;"], "<a b=\"x\" c='", 4 + d, confs, |doc, c, p, cx| {
            round_trip(&format!("{}'>", doc), c, p, cx)
        }),
    ];
    // Values of made up attributes and text
    const V: &[&str] = &["\"", "'", "&", "<", ">", "a", " ", ";", "#34", "/", "\n", "&#38;", "é", "]]>", "--", "=", "\u{1F600}"];
    let s = Seqs::new(V.len(), 0, 4 + d);
    v.push(space(
        "values",
        format!("attribute values and text made of all sequences of 0..={} of {:?}", s.max, V),
        s.len(),
        move || {
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let val: String = seq.iter().map(|&t| V[t]).collect();
                made(&val, cx)
            }
        },
    ));
    for (name, f) in [
        ("value-words", fills::words(true)),
        ("value-ascii", fills::ascii_pairs()),
        ("value-characters", fills::scalars()),
        ("value-repeated", fills::repeats(&["\"", "'", "&", "<", "'\"", "a", " ", "é", "&#", "漢>"], 140, 5000)),
    ] {
        let list = std::sync::Arc::new(f.list);
        v.push(space(name, format!("attribute values and text made of {}, alone and after quotes", f.what), list.len() as u64 * 4, move || {
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let val = format!("{}{}", ["", "\"", "\"'", "x&"][(idx % 4) as usize], list[(idx / 4) as usize]);
                made(&val, cx)
            }
        }));
    }
    v.extend(sweep(
        &["<a b='§' c=\"§\">§</a>", "<a>x§y<b>§", "<a>§<![CDATA[§]]></a>", "<!D §>\n<a>", "<?§>\n<a><?§>", "<a§ b§=§ §/>", "</a§>", "<a><![RCDATA[§]]><![INCLUDE[§]]></a>", "<![IGNORE[§]]><a>"],
        &["a", " ", "'", "<b>", "</b>", "&e;", "&lt;", "]", "<b c='d\"' e/>", "&#38;", "<![ CDATA[x]]>"],
        3000,
        vec![keep, Conf { ms: Ms::All, trim: false, names: Names::Lower, ..keep }],
        round_trip,
    ));
    v.push(lists(
        "lists",
        || {
            vec![
                vec![open("a"), SgmlEvent::CloseStartTag],
                vec![open("é.b"), attr("c", Some("<>&\"'")), attr("d", None), SgmlEvent::XmlCloseEmptyElement],
                vec![open(""), SgmlEvent::CloseStartTag],
                vec![open("e"), attr("f", None), SgmlEvent::CloseStartTag],
                vec![end("a")],
                vec![end("")],
                vec![text("x<")],
                vec![text(" ")],
                vec![text("")],
                vec![text("&#38;amp;]]>")],
                vec![SgmlEvent::ProcessingInstruction("<?p <>".into())],
                vec![SgmlEvent::MarkupDeclaration { keyword: "D".into(), body: "".into() }],
                vec![SgmlEvent::MarkupDeclaration { keyword: "d".into(), body: "x [ <!E> ]".into() }],
                vec![SgmlEvent::MarkedSection { status_keywords: "IGNORE".into(), section: " <![ x ]]> ".into() }],
                vec![SgmlEvent::MarkedSection { status_keywords: "CDATA".into(), section: "<a>".into() }],
            ]
        },
        if thorough { 5 } else { 4 },
        |list, cx| {
            cx.op();
            let s = SgmlFragment::from(list.to_vec()).to_string();
            reread(list, &s, cx)
        },
    ));
    v
}

// ---------------------------------------------------------------------------------------------
// F02: forms of a fragment

fn forms(doc: &str, _c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let owned_source = doc.to_owned();
    cx.op();
    let f = match p.parse(&owned_source) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    views(doc, f.clone(), cx)?;
    let want = Ev::all(&f);
    let owned = f.clone().into_owned();
    let same = owned == f && f == owned;
    drop(f);
    drop(owned_source);
    if !same || Ev::all(&owned) != want {
        return Err(format!("document: {:?}\ndetached from the document\nexpected: {:?}\ngot: {:?}", doc, want, owned));
    }
    Ok(())
}

fn views(doc: &str, f: SgmlFragment, cx: &mut Cx) -> Verdict {
    let want = Ev::all(&f);
    let shown = f.to_string();
    cx.outcome(&want);
    let bad = |what: &str, got: &dyn std::fmt::Debug| {
        Err(format!("document: {:?}\n{}\nexpected: {:?}\ngot: {:?}", doc, what, want, got))
    };
    let check = |what: &str, got: Vec<Ev>| if got == want { Ok(()) } else { bad(what, &got) };
    for _ in 0..8 {
        cx.op();
        cx.checked();
    }
    if f.len() != want.len() {
        return bad("the number of events", &f.len());
    }
    check("cloned", Ev::all(&f.clone()))?;
    check("iterated", f.iter().map(Ev::of).collect())?;
    check("iterated by reference", (&f).into_iter().map(Ev::of).collect())?;
    check("as a vector", f.clone().into_vec().iter().map(Ev::of).collect())?;
    check("iterated by value", f.clone().into_iter().map(|e| Ev::of(&e)).collect())?;
    check("iterated back", {
        let mut v: Vec<Ev> = f.iter().rev().map(Ev::of).collect();
        v.reverse();
        v
    })?;
    check("from a vector", Ev::all(&SgmlFragment::from(f.clone().into_vec())))?;
    check("events made owned", f.iter().cloned().map(|e| Ev::of(&e.into_owned())).collect())?;
    let mut g = f.clone();
    for e in g.iter_mut() {
        *e = e.clone().into_owned();
    }
    for e in &mut g {
        *e = e.clone();
    }
    check("rewritten in place", Ev::all(&g))?;
    if g != f || g.to_string() != shown {
        return bad("an equal fragment is not equal", &g);
    }
    let owned: SgmlFragment<'static> = f.clone().into_owned();
    let same = owned == f && f == owned;
    drop(f);
    drop(g);
    if !same {
        return bad("the detached fragment is not equal", &owned);
    }
    if owned.to_string() != shown {
        return bad("the detached fragment is written differently", &owned.to_string());
    }
    check("detached from the document", Ev::all(&owned))?;
    check("detached twice", Ev::all(&owned.into_owned()))
}

fn f02(thorough: bool) -> Vec<Space> {
    let keep = Conf { ents: true, pents: true, ms: Ms::Keep, ..DEFAULT };
    const T: &[&str] = &[
        "<a>", "</a>", "x", "<b c='&e;' d=e f>", "<g/>", "&e;", " ", "<?p>", "<!D>", "<!D x>", "<![CDATA[y]]>", "<![rcdata[&lt;]]>", "<![IGNORE[z]]>", "<>", "</>", "é",
    ];
    let confs = vec![keep, Conf { ms: Ms::All, trim: false, names: Names::Upper, ..keep }, Conf { names: Names::Lower, ..DEFAULT }];
    let mut v = vec![docs("documents", T, "", if thorough { 5 } else { 4 }, confs.clone(), forms)];
    v.extend(sweep(
        &["<a b='§' c=§ §>§</a§>", "<§/>", "<!§><a>", "<!D §><a>", "<?§><a>", "<a><![§]]></a>", "<a><![CDATA[§]]></a>", "<a>&§;</a>"],
        &["a", " ", "'", "<b>", "</b>", "&e;", "<b c=''/>", "<?p>"],
        1500,
        confs,
        forms,
    ));
    v.push(lists(
        "lists",
        || {
            vec![
                vec![open("")],
                vec![open("a")],
                vec![attr("b", None)],
                vec![attr("", Some(""))],
                vec![attr("c", Some("d"))],
                vec![SgmlEvent::CloseStartTag],
                vec![SgmlEvent::XmlCloseEmptyElement],
                vec![end("")],
                vec![end("a")],
                vec![text("")],
                vec![text("x")],
                vec![SgmlEvent::ProcessingInstruction("".into())],
                vec![SgmlEvent::ProcessingInstruction("<?p>".into())],
                vec![SgmlEvent::MarkupDeclaration { keyword: "".into(), body: "x".into() }],
                vec![SgmlEvent::MarkupDeclaration { keyword: "d".into(), body: "".into() }],
                vec![SgmlEvent::MarkedSection { status_keywords: "".into(), section: "y".into() }],
                vec![SgmlEvent::MarkedSection { status_keywords: "k".into(), section: "".into() }],
            ]
        },
        if thorough { 5 } else { 4 },
        |list, cx| {
            cx.op();
            let f = SgmlFragment::from(list.to_vec());
            let want: Vec<Ev> = list.iter().map(Ev::of).collect();
            if Ev::all(&f) != want || f.as_slice() != list {
                return Err(format!("made from the list {:?}\ngot: {:?}", list, f));
            }
            views(&format!("{:?}", list), f, cx)
        },
    ));
    v.push(lists(
        "ways-through",
        || vec![vec![open("a")], vec![SgmlEvent::CloseStartTag], vec![text("x")], vec![end("a")]],
        5,
        |list, cx| {
            let f = SgmlFragment::from(list.to_vec());
            let say = |e| format!("{:?}\n{}", list, e);
            mc::walks::walk(&|| f.clone().into_iter(), list, 2, cx).map_err(say)?;
            let refs: Vec<&SgmlEvent> = list.iter().collect();
            mc::walks::walk(&|| (&f).into_iter(), &refs, 2, cx).map_err(say)?;
            mc::walks::walk(&|| f.iter(), &refs, 2, cx).map_err(say)?;
            let back: Vec<SgmlEvent> = list.iter().rev().cloned().collect();
            mc::walks::walk(&|| f.clone().into_iter().rev(), &back, 2, cx).map_err(say)?;
            let back: Vec<&SgmlEvent> = list.iter().rev().collect();
            mc::walks::walk(&|| f.iter().rev(), &back, 2, cx).map_err(say)
        },
    ));
    // Any text in each part of each kind of event
    let mut list = fills::words(true).list;
    list.extend(fills::ascii_pairs().list);
    list.extend(fills::odd_scalars().list);
    list.extend(fills::delimiters(4).list);
    list.extend(fills::repeats(&["a", " ", "\n", "é", "漢x", "'\""], 140, 5000).list);
    const EDGES: &[&str] = &["", "x", " ", "\n", "<?"];
    let n = list.len() as u64;
    let list = std::sync::Arc::new(list);
    v.push(space(
        "texts",
        format!("each kind of event with each of {} texts (words of the code under test and pairs of them, pairs of ASCII characters, odd characters, delimiters in sequences, repetitions), as such and before each of {:?}, in each of its parts", n, EDGES),
        n * EDGES.len() as u64,
        move || {
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let t = format!("{}{}", list[(idx % n) as usize], EDGES[(idx / n) as usize]);
                note(|| format!("{:?}", t));
                cx.state();
                let s = || std::borrow::Cow::Borrowed(&t[..]);
                let events = vec![
                    SgmlEvent::OpenStartTag { name: s() },
                    SgmlEvent::Attribute { name: s(), value: None },
                    SgmlEvent::Attribute { name: s(), value: Some("y".into()) },
                    SgmlEvent::Attribute { name: "y".into(), value: Some(s()) },
                    SgmlEvent::EndTag { name: s() },
                    SgmlEvent::Character(s()),
                    SgmlEvent::ProcessingInstruction(s()),
                    SgmlEvent::MarkupDeclaration { keyword: s(), body: "y".into() },
                    SgmlEvent::MarkupDeclaration { keyword: "y".into(), body: s() },
                    SgmlEvent::MarkedSection { status_keywords: s(), section: "y".into() },
                    SgmlEvent::MarkedSection { status_keywords: "y".into(), section: s() },
                ];
                let want: Vec<Ev> = events.iter().map(Ev::of).collect();
                let f = SgmlFragment::from(events);
                cx.op();
                if Ev::all(&f) != want {
                    return Err(format!("made from a list with {:?}\ngot: {:?}", t, f));
                }
                views(&format!("{:?}", t), f, cx)
            }
        },
    ));
    v
}

// ---------------------------------------------------------------------------------------------
// T01: omitted end tags

enum Normal {
    Empty,
    Unpaired(Vec<String>),
    Ok(Vec<Ev>),
}

fn blank(e: &Ev) -> bool {
    matches!(e, Ev::Text(t) if t.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')))
}

/// Reads front to back, as opposed to the code: an end tag ends the closest open element of its
/// name, and the ones opened since have theirs omitted.
fn normal(events: &[Ev]) -> Normal {
    let mut empty = false;
    let mut unpaired = vec![];
    // Start tags that are open: index
    let mut open: Vec<usize> = vec![];
    let mut omitted: Vec<usize> = vec![];
    let mut i = 0;
    while i < events.len() {
        match &events[i] {
            Ev::Open(name) => {
                empty |= name.is_empty();
                let mut j = i + 1;
                while matches!(events.get(j), Some(Ev::Attr(..))) {
                    j += 1;
                }
                if !matches!(events.get(j), Some(Ev::XmlClose)) {
                    open.push(i);
                }
            }
            Ev::End(name) => {
                empty |= name.is_empty();
                match open.iter().rposition(|&o| matches!(&events[o], Ev::Open(n) if n == name)) {
                    Some(at) => {
                        omitted.extend(open.drain(at + 1..));
                        open.pop();
                    }
                    None => unpaired.push(name.clone()),
                }
            }
            _ => {}
        }
        i += 1;
    }
    if empty {
        return Normal::Empty;
    }
    if !unpaired.is_empty() {
        return Normal::Unpaired(unpaired);
    }
    omitted.extend(open);
    // Where omitted end tags go: before the next tag, and the white space before it
    let mut ends: Vec<(usize, String)> = vec![];
    for o in omitted {
        let name = match &events[o] {
            Ev::Open(n) => n.clone(),
            _ => unreachable!(),
        };
        let mut j = o + 1;
        while j < events.len() && !matches!(events[j], Ev::Open(_) | Ev::End(_)) {
            j += 1;
        }
        while blank(&events[j - 1]) {
            j -= 1;
        }
        ends.push((j, name));
    }
    let mut out = vec![];
    let mut last_open = String::new();
    for i in 0..=events.len() {
        for (_, n) in ends.iter().filter(|e| e.0 == i) {
            out.push(Ev::End(n.clone()));
        }
        match events.get(i) {
            Some(Ev::Open(n)) => {
                last_open = n.clone();
                out.push(Ev::Open(n.clone()));
            }
            Some(Ev::XmlClose) => {
                out.push(Ev::Close);
                out.push(Ev::End(last_open.clone()));
            }
            Some(e) => out.push(e.clone()),
            None => {}
        }
    }
    Normal::Ok(out)
}

fn balanced(events: &[Ev]) -> bool {
    let mut open = vec![];
    for e in events {
        match e {
            Ev::Open(n) => open.push(n),
            Ev::End(n) => {
                if open.pop() != Some(n) {
                    return false;
                }
            }
            Ev::XmlClose => return false,
            _ => {}
        }
    }
    open.is_empty()
}

/// Whether `small` is `large` without some end tags (XML-style ends of empty elements being two
/// events in `large`).
fn only_ends_added(small: &[Ev], large: &[Ev]) -> bool {
    let mut s = small.iter().peekable();
    for l in large {
        match (s.peek(), l) {
            (Some(Ev::XmlClose), Ev::Close) => {
                s.next();
            }
            (Some(x), l) if *x == l => {
                s.next();
            }
            (_, Ev::End(_)) => {}
            _ => return false,
        }
    }
    s.peek().is_none()
}

fn normalized(f: SgmlFragment, cx: &mut Cx) -> Verdict {
    let before = Ev::all(&f);
    let copy = f.clone();
    cx.op();
    let got = normalize_end_tags(f);
    cx.checked();
    let bad = |what: &str, want: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug| {
        Err(format!("events: {:?}\nwritten: {}\n{}\nexpected: {:?}\ngot: {:?}", before, copy, what, want, got))
    };
    match (normal(&before), &got) {
        (Normal::Empty, Err(NormalizationError::EmptyTagNotSupported)) => Ok(()),
        (Normal::Empty, _) => bad("empty tags are not supported", &"an error", &got),
        (Normal::Unpaired(names), Err(NormalizationError::UnpairedEndTag(n))) if names.contains(n) => Ok(()),
        (Normal::Unpaired(names), _) => bad("end tags without a start tag are an error", &names, &got),
        (Normal::Ok(want), Ok(f)) => {
            let after = Ev::all(f);
            cx.outcome(&after);
            if after != want {
                return bad("end tags are not where they were omitted", &want, &after);
            }
            if !balanced(&after) {
                return bad("the result is not balanced", &"", &after);
            }
            if !only_ends_added(&before, &after) {
                return bad("something else changed", &"", &after);
            }
            if balanced(&before) && before != after {
                return bad("there was nothing to do", &"", &after);
            }
            cx.op();
            match normalize_end_tags(f.clone()) {
                Ok(again) if again == *f => Ok(()),
                again => bad("normalizing again changes the result", &after, &again),
            }
        }
        (Normal::Ok(want), Err(_)) => bad("the end tags are not wrong", &want, &got),
    }
}

fn t01(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![
        Conf { ents: true, ..DEFAULT },
        Conf { trim: false, ents: true, ms: Ms::Keep, ..DEFAULT },
    ];
    let mut v = vec![
        docs(
            "documents",
            &["<a>", "</a>", "<b>", "</b>", "x", "\n", "<a/>", "<b c='d' e/>", "<?p>", "<!-- -->", "<A>", "</>", "<![CDATA[ ]]>"],
            "",
            5 + d,
            confs.clone(),
            |doc, _, p, cx| {
                cx.op();
                match p.parse(doc) {
                    Ok(f) => normalized(f, cx),
                    Err(_) => Ok(()),
                }
            },
        ),
        docs("tags", &["<a>", "</a>", "<b>", "</b>", "<c>", "</c>", "x"], "", 7 + d, vec![DEFAULT], |doc, _, p, cx| {
            cx.op();
            match p.parse(doc) {
                Ok(f) => normalized(f, cx),
                Err(_) => Ok(()),
            }
        }),
        lists(
            "lists",
            || {
                vec![
                    vec![open("a"), SgmlEvent::CloseStartTag],
                    vec![end("a")],
                    vec![open("b"), attr("c", None), SgmlEvent::CloseStartTag],
                    vec![end("b")],
                    vec![open("a"), SgmlEvent::XmlCloseEmptyElement],
                    vec![text("x ")],
                    vec![text(" \t\r\n")],
                    vec![text("")],
                    vec![text("\u{a0}")],
                    vec![SgmlEvent::MarkedSection { status_keywords: "CDATA".into(), section: " ".into() }],
                    vec![open(""), SgmlEvent::CloseStartTag],
                ]
            },
            5 + d,
            |list, cx| normalized(SgmlFragment::from(list.to_vec()), cx),
        ),
        lists(
            "any-lists",
            || {
                vec![
                    vec![open("a")],
                    vec![open("b")],
                    vec![attr("c", Some("d"))],
                    vec![SgmlEvent::CloseStartTag],
                    vec![SgmlEvent::XmlCloseEmptyElement],
                    vec![end("a")],
                    vec![end("b")],
                    vec![text(" ")],
                    vec![text("x")],
                    vec![open("")],
                ]
            },
            5,
            |list, cx| {
                // No start tag needs to be closed here; it only has to survive and keep the events
                cx.op();
                cx.checked();
                match normalize_end_tags(SgmlFragment::from(list.to_vec())) {
                    Ok(f) if !only_ends_added(&list.iter().map(Ev::of).collect::<Vec<_>>(), &Ev::all(&f)) => {
                        Err(format!("events: {:?}\nsomething else than end tags changed\ngot: {:?}", list, f))
                    }
                    r => {
                        cx.outcome(&r.is_ok());
                        Ok(())
                    }
                }
            },
        ),
    ];
    let judge = |doc: &str, _: &Conf, p: &Parser, cx: &mut Cx| {
        cx.op();
        match p.parse(doc) {
            Ok(f) => normalized(f, cx),
            Err(_) => Ok(()),
        }
    };
    v.extend(sweep(
        &[
            "<a>§<b>§</a>", "<§><b>x</§>", "<§>x</b></§>", "<a><§ c=§>x</a>", "<a><§/>", "<§><§>x<§/></§>", "<a>x<![CDATA[§]]><b>\n§\n</a>", "<a><b c='§'>§</a>§", "<§>x</a>", "<a>§</§>", "<A§><a§>", "<a><b§>x</b>§</a>",
        ],
        &["a", " ", "\n", "<b>", "<b>x", "</b>", "<b/>", "<b>\n<c>y</b>", "<b></b>", "\u{a0}", "<?p>", "<c d>"],
        1200,
        confs,
        judge,
    ));
    v.push(holes(
        "fill-nested",
        &["§", "<r>§", "<r>§</r>", "<b>x§", "<r>§</b></r>", "§</a>"],
        fills::nested(&[("<a>", "x", "</a>"), ("<a>\n", "x", "</a>\n"), ("<a>", "<b>x", "</a>"), ("<a>y", "", "</a>"), ("<c><a>", "x", "</a></c>"), ("<c>z<a>", "\n", "</a></c>")], 150, 2500),
        vec![DEFAULT, Conf { trim: false, ..DEFAULT }],
        judge,
    ));
    v.push(holes("depths", &["<a>§", "<a>§</a>", "§x", "<a>§</b></a>", "<a>§</b></b></b>"], fills::repeats(&["<b>", "<b>x\n", "<b><c>", "<c/><b>"], 1500, 3000), vec![DEFAULT], judge));
    v
}

// ---------------------------------------------------------------------------------------------
// T02: transforms

fn t02(thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    for (n, max) in [(0usize, 7u32), (1, 7), (2, 6), (3, 6), (4, 6)] {
        let max = max + (thorough && n < 4) as u32;
        // Insertions at 0..=n+1 and a few beyond, then removals at 0..n+1
        let places: Vec<usize> = (0..n + 2).chain([n + 3, usize::MAX]).collect();
        let p = places.len();
        let s = Seqs::new(p + (n + 1), 0, max);
        v.push(space(
            &format!("operations-{}", n),
            format!("all sequences of 0..={} insertions at {:?} and removals at 0..={} over {} events", max, places, n, n),
            s.len(),
            move || {
                let base: Vec<Event> = (0..n)
                    .map(|i| match i {
                        0 => open("a"),
                        1 => SgmlEvent::CloseStartTag,
                        2 => SgmlEvent::Character("old".into()),
                        _ => end("a"),
                    })
                    .collect();
                let mut seq = vec![];
                let places = places.clone();
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    note(|| format!("{:?}", seq));
                    cx.state();
                    let mut t = Transform::new();
                    if !t.is_empty() {
                        return Err("a new transform is not empty".into());
                    }
                    let mut inserted: Vec<Vec<Event>> = vec![vec![]; p];
                    let mut removed = vec![false; n + 1];
                    let mut ops = vec![];
                    for (k, &op) in seq.iter().enumerate() {
                        cx.op();
                        if op < p {
                            // Some alike, some not
                            let e = SgmlEvent::Character(format!("new{}", k / 2).into());
                            t.insert_at(places[op], e.clone());
                            inserted[op].push(e.clone());
                            ops.push(format!("insert_at({}, {:?})", places[op], e));
                        } else {
                            t.remove_at(op - p);
                            removed[op - p] = true;
                            ops.push(format!("remove_at({})", op - p));
                        }
                        if t.is_empty() {
                            return Err(format!("after {:?}, the transform is said to be empty", ops));
                        }
                    }
                    let mut want = vec![];
                    for i in 0..p {
                        want.extend(inserted[i].iter().cloned());
                        if i < n && !removed[i] {
                            want.push(base[i].clone());
                        }
                    }
                    let again = t.clone();
                    cx.op();
                    cx.checked();
                    let got = t.apply(SgmlFragment::from(base.clone())).into_vec();
                    cx.outcome(&format!("{:?}", got));
                    if got != want {
                        return Err(format!("after {:?} over {:?}\nexpected: {:?}\ngot: {:?}", ops, base, want, got));
                    }
                    cx.op();
                    if again.apply(SgmlFragment::from(base.clone())).into_vec() != want {
                        return Err(format!("a clone of the transform with {:?} applies differently", ops));
                    }
                    cx.sample(|| format!("{:?}", ops));
                    Ok(())
                }
            },
        ));
    }
    // The same events put in, taken out, and there already
    for (n, max) in [(1usize, 5u32), (2, 4), (3, 3), (4, 2)] {
        let max = max + thorough as u32;
        let kinds: [Event; 4] = [SgmlEvent::Character("old".into()), end("a"), SgmlEvent::Character("".into()), open("a")];
        let k = kinds.len().min(n + 1);
        let inserts = (n + 2) * k;
        let s = Seqs::new(inserts + n, 0, max);
        let bases = k.pow(n as u32);
        v.push(space(
            &format!("like-events-{}", n),
            format!("all fragments of {} of the events {:?}, with all sequences of 0..={} insertions of each of them at 0..={} and removals", n, &kinds[..k], max, n + 1),
            s.len() * bases as u64,
            move || {
                let kinds = kinds.clone();
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx % s.len(), &mut seq);
                    let mut b = (idx / s.len()) as usize;
                    let base: Vec<Event> = (0..n)
                        .map(|_| {
                            let e = kinds[b % k].clone();
                            b /= k;
                            e
                        })
                        .collect();
                    note(|| format!("{:?} over {:?}", seq, base));
                    cx.state();
                    let mut t = Transform::new();
                    let mut inserted: Vec<Vec<Event>> = vec![vec![]; n + 2];
                    let mut removed = vec![false; n];
                    for &op in &seq {
                        cx.op();
                        if op < inserts {
                            let e = kinds[op % k].clone();
                            inserted[op / k].push(e.clone());
                            t.insert_at(op / k, e);
                        } else {
                            removed[op - inserts] = true;
                            t.remove_at(op - inserts);
                        }
                    }
                    let mut want = vec![];
                    for i in 0..n + 2 {
                        want.extend(inserted[i].iter().cloned());
                        if i < n && !removed[i] {
                            want.push(base[i].clone());
                        }
                    }
                    cx.op();
                    cx.checked();
                    let got = t.clone().apply(SgmlFragment::from(base.clone())).into_vec();
                    cx.outcome(&format!("{:?}", got));
                    if got != want {
                        return Err(format!("{:?} over {:?}\nexpected: {:?}\ngot: {:?}", t, base, want, got));
                    }
                    cx.sample(|| format!("{:?} over {:?}", t, base));
                    Ok(())
                }
            },
        ));
    }
    // Many operations
    const LENS: &[usize] = &[0, 1, 2, 5, 40, 300];
    type Pick = fn(usize, usize, usize) -> usize;
    // Where the k-th of n goes, in a list of a given length
    const ORDERS: &[(&str, Pick)] = &[
        ("at the start", |_, _, _| 0),
        ("at the end", |_, _, len| len),
        ("beyond the end", |_, _, len| len + 7),
        ("forward", |k, _, len| k % (len + 1)),
        ("backward", |k, n, len| (n - k) % (len + 1)),
        ("to and fro", |k, _, len| if k % 2 == 0 { len - k / 2 % (len + 1) } else { k / 2 % (len + 1) }),
        ("in the middle", |_, _, len| len / 2),
        ("at two places", |k, _, len| if k % 2 == 0 { len } else { len / 2 }),
        ("scattered", |k, _, len| k * 7919 % (len + 1)),
    ];
    let counts = fills::counts(if thorough { 400 } else { 130 }, 2500);
    let n = counts.len() * LENS.len() * ORDERS.len() * (ORDERS.len() + 1);
    v.push(space(
        "many",
        format!(
            "each of 0..={} insertions (and up to 2500 around powers of two and integers in the code), {}, with as many removals in each of these orders, between or after, or none, over each of {:?} events",
            if thorough { 400 } else { 130 },
            ORDERS.iter().map(|o| o.0).collect::<Vec<_>>().join(", "),
            LENS
        ),
        n as u64,
        move || {
            let counts = counts.clone();
            move |idx, cx: &mut Cx| {
                let idx = idx as usize;
                let (len, idx) = (LENS[idx % LENS.len()], idx / LENS.len());
                let (ins, idx) = (ORDERS[idx % ORDERS.len()], idx / ORDERS.len());
                let (rem, idx) = (ORDERS.get(idx % (ORDERS.len() + 1)), idx / (ORDERS.len() + 1));
                let n = counts[idx];
                note(|| format!("{} insertions {}, removals {:?}, over {} events", n, ins.0, rem.map(|r| r.0), len));
                cx.state();
                let event = |s: String| SgmlEvent::Character(s.into());
                let base: Vec<Event> = (0..len).map(|i| event(format!("old{}", i))).collect();
                let mut inserted: Vec<Vec<Event>> = vec![vec![]; len + 1];
                let mut removed = vec![false; len];
                let mut t = Transform::new();
                let between = n % 2 == 0;
                let mut remove = |t: &mut Transform<'static>, k: usize| {
                    if let Some((_, r)) = rem {
                        let at = r(k, n, len);
                        t.remove_at(at);
                        if at < len {
                            removed[at] = true;
                        }
                    }
                };
                for k in 0..n {
                    let at = ins.1(k, n, len);
                    t.insert_at(at, event(format!("new{}", k)));
                    inserted[at.min(len)].push(event(format!("new{}", k)));
                    if between {
                        remove(&mut t, k);
                    }
                }
                if !between {
                    (0..n).for_each(|k| remove(&mut t, k));
                }
                let mut want = vec![];
                for i in 0..=len {
                    want.append(&mut inserted[i]);
                    if i < len && !removed[i] {
                        want.push(base[i].clone());
                    }
                }
                cx.ops(n as u64);
                cx.checked();
                let got = t.apply(SgmlFragment::from(base)).into_vec();
                cx.outcome(&(got.len(), len));
                if got != want {
                    let at = got.iter().zip(&want).position(|(a, b)| a != b);
                    return Err(format!(
                        "{} insertions {}, removals {:?}, over {} events\nexpected {} events, got {}, different from {:?} on: {:?}",
                        n, ins.0, rem.map(|r| r.0), len, want.len(), got.len(), at, at.map(|i| (&want[i], &got[i]))
                    ));
                }
                cx.sample(|| format!("{} insertions {}, removals {:?}, over {} events", n, ins.0, rem.map(|r| r.0), len));
                Ok(())
            }
        },
    ));
    v
}

// ---------------------------------------------------------------------------------------------
// T03: data with omitted end tags

#[derive(Debug, Deserialize, PartialEq)]
#[serde(rename_all = "UPPERCASE")]
struct Leafs {
    name: Option<String>,
    amount: Option<i32>,
    #[serde(default)]
    memo: Vec<String>,
    sub: Option<Box<Leafs>>,
    #[serde(default)]
    item: Vec<Leafs>,
}

/// Reads both, after normalizing.
fn same_data(parser: &Parser, full: &str, short: &str, cx: &mut Cx) -> Verdict {
    cx.op();
    cx.op();
    let read = |d: &str| -> Result<Leafs, String> {
        let f = parser.parse(d).map_err(|e| e.to_string())?;
        let f = normalize_end_tags(f).map_err(|e| e.to_string())?;
        f.deserialize().map_err(|e| e.to_string())
    };
    let f = match parser.parse(full) {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let want: Result<Leafs, String> = f.deserialize().map_err(|e| e.to_string());
    let (a, b) = (read(full), read(short));
    cx.checked();
    cx.outcome(&format!("{:?}", want));
    if a != want {
        return Err(format!("document: {:?}\nnormalizing changes the data, with nothing omitted\nexpected: {:?}\ngot: {:?}", full, want, a));
    }
    if b != want {
        return Err(format!("document: {:?}\nthe data is not that of {:?}\nexpected: {:?}\ngot: {:?}", short, full, want, b));
    }
    // Also where there is something that cannot be read as data
    cx.op();
    match parser.parse(short) {
        Ok(f) => normalized(f, cx),
        Err(_) => Ok(()),
    }
}

fn t03(thorough: bool) -> Vec<Space> {
    // Pieces of a document: (text, whether it is a leaf: then the end tag may be omitted, with a
    // separator after it)
    const P: &[(&str, &str)] = &[
        ("<NAME>John &amp; co", "</NAME>"),
        ("<AMOUNT>12", "</AMOUNT>"),
        ("<MEMO>some  text", "</MEMO>"),
        ("<MEMO x='y>'>&#60;b&#62;", "</MEMO>"),
        ("<MEMO>", "</MEMO>"),
        ("<NAME>x<?p>y<!-- c -->z", "</NAME>"),
        ("<SUB>", ""),
        ("</SUB>", ""),
        ("<ITEM>", ""),
        ("</ITEM>", ""),
    ];
    let k = P.len() * 2;
    let s = Seqs::new(k, 0, if thorough { 6 } else { 5 });
    let mut v = vec![space(
        "leafs",
        format!("all sequences of 0..={} of {:?}, with and without end tag, in a root element; balanced ones only; two layouts", s.max, P),
        s.len(),
        move || {
            let parser = Conf { ents: true, ..DEFAULT }.parser();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let mut stack = vec![];
                for &t in &seq {
                    let (a, e) = P[t / 2];
                    if e.is_empty() && t % 2 == 1 {
                        return Ok(());
                    }
                    match a {
                        "<SUB>" | "<ITEM>" => stack.push(a),
                        "</SUB>" if stack.pop() != Some("<SUB>") => return Ok(()),
                        "</ITEM>" if stack.pop() != Some("<ITEM>") => return Ok(()),
                        _ => {}
                    }
                }
                if !stack.is_empty() {
                    return Ok(());
                }
                for sep in ["", "\n  "] {
                    let mut full = String::from("<ROOT>");
                    let mut short = String::from("<ROOT>");
                    for &t in &seq {
                        let (a, e) = P[t / 2];
                        full.push_str(sep);
                        short.push_str(sep);
                        full.push_str(a);
                        full.push_str(e);
                        short.push_str(a);
                        if t % 2 == 0 {
                            short.push_str(e);
                        }
                    }
                    full.push_str(sep);
                    short.push_str(sep);
                    full.push_str("</ROOT>");
                    short.push_str("</ROOT>");
                    note(|| short.clone());
                    cx.state();
                    same_data(&parser, &full, &short, cx)?;
                    cx.sample(|| short.clone());
                }
                Ok(())
            }
        },
    )];
    // Templates in which what is between « and » is omitted
    const OMITTED: &[&str] = &[
        "<ROOT><NAME>John§«</NAME>»<AMOUNT>12«</AMOUNT>»\n<MEMO>§x«</MEMO>»\n</ROOT>",
        "<ROOT><NAME>§«</NAME>»<MEMO>a§b«</MEMO>»</ROOT>",
        "<ROOT><MEMO>§«</MEMO>»\n<MEMO>y§«</MEMO>»\n  <MEMO>§«</MEMO>»</ROOT>",
        "<ROOT>\n<SUB><NAME>§«</NAME>»</SUB><ITEM><NAME>§\n«</NAME>»\n</ITEM></ROOT>",
        "<ROOT><MEMO x='§'>z§«</MEMO>»<NAME y>§«</NAME>»</ROOT>",
        "<ROOT><NAME>John«</NAME>»<X§>w«</X§>»<AMOUNT>3«</AMOUNT>»</ROOT>",
        "<ROOT><NAME>John«</NAME>»<§>w«</§>»<MEMO>3«</MEMO>»</ROOT>",
        "<ROOT><NAME>John<?§>x«</NAME>»<AMOUNT>12<!-- § -->«</AMOUNT>»<MEMO><?§>§<?§>\n</ROOT>",
    ];
    fn apart(doc: &str) -> (String, String) {
        let full = doc.replace(|c| matches!(c, '«' | '»'), "");
        let mut short = String::new();
        for part in doc.split('«') {
            short.push_str(part.split_once('»').map_or(part, |x| x.1));
        }
        (full, short)
    }
    for (name, mut f) in [
        ("fill-words", fills::words(true)),
        ("fill-ascii", fills::ascii_pairs()),
        ("fill-characters", fills::odd_scalars()),
        ("fill-all-characters", fills::scalars()),
        ("fill-repeated", fills::repeats(&["a", " ", "\n", "é", "漢 ", "\u{a0}", "a\n"], 140, 5000)),
    ] {
        let templates = if name == "fill-all-characters" { &OMITTED[1..2] } else { OMITTED };
        f.list.retain(|s| !s.contains(|c| matches!(c, '<' | '&' | '\'' | '«' | '»' | '>' | '/')));
        let list = std::sync::Arc::new(f.list);
        let n = list.len() as u64;
        v.push(space(
            name,
            format!("{:?}, with {} (without < & ' > or /) in place of §, and with and without what is between « and »", templates, f.what),
            n * templates.len() as u64,
            move || {
                let list = list.clone();
                let parser = Conf { ents: true, ..DEFAULT }.parser();
                let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
                let mut doc = String::new();
                move |idx, cx: &mut Cx| {
                    fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut doc);
                    let f = &list[(idx % n) as usize];
                    let named = |pre: &str| format!("{}{}", pre, f).starts_with(model::name_start) && f.chars().all(model::name_char);
                    // Only names where a name goes
                    if idx / n == 5 && !named("X") || idx / n == 6 && !named("") {
                        return Ok(());
                    }
                    let (full, short) = apart(&doc);
                    note(|| short.clone());
                    cx.state();
                    same_data(&parser, &full, &short, cx)?;
                    cx.sample(|| short.clone());
                    Ok(())
                }
            },
        ));
    }
    // Text in several pieces, after any of which the end tag may be missing
    const PIECES: &[&str] = &["x", " ", "\n", "<![CDATA[ ]]>", "<![CDATA[y ]]>", "<![CDATA[]]>", "&#32;", "<!-- c -->", "<![INCLUDE[ z]]>", "<AMOUNT>", "<MEMO a>", "</NAME>", "<SUB/>"];
    fn pieces(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
        let doc = format!("{}</ROOT>", doc);
        let (f, evs) = match (p.parse(&doc), model::parse(&doc, c)) {
            (Ok(f), Ok(evs)) => (f, evs),
            _ => return Ok(()),
        };
        let complete = match normal(&evs) {
            Normal::Ok(evs) => SgmlFragment::from(evs.iter().map(Ev::event).collect::<Vec<_>>()),
            _ => return normalized(f, cx),
        };
        cx.op();
        cx.checked();
        let read = |f: SgmlFragment| f.deserialize::<Leafs>().map_err(|e| e.to_string());
        let want = read(complete.clone());
        let got = normalize_end_tags(f.clone()).map_err(|e| e.to_string()).and_then(read);
        cx.outcome(&format!("{:?}", want));
        if want != got {
            return Err(format!("document: {:?}\nunder {:?}\nthe data is not that of {}\nexpected: {:?}\ngot: {:?}", doc, c, complete, want, got));
        }
        normalized(f, cx)
    }
    let all = Conf { ents: true, ms: Ms::All, ..DEFAULT };
    v.push(docs("pieces", PIECES, "<ROOT><NAME>", if thorough { 6 } else { 5 }, vec![all, Conf { trim: false, ..all }], pieces));
    // Many elements, and deep ones
    let counts = fills::counts(300, 5000);
    const UNITS: &[(&str, &str, &str)] = &[
        ("<MEMO>x«</MEMO>»\n", "", ""),
        ("<ITEM><NAME>a«</NAME>»<MEMO>b«</MEMO>»</ITEM>", "", ""),
        ("<SUB>\n<NAME>n«</NAME>»", "<MEMO>z«</MEMO>»\n", "</SUB>\n"),
        ("<OTHER>«</OTHER>»<SOME a=b>c«</SOME>»", "<NAME>n«</NAME>»", ""),
    ];
    let n = counts.len() as u64;
    v.push(space(
        "many",
        format!("each of {:?}, the first and the last part 0..=300 times, and up to 5000 (100 if nested) around powers of two and integers in the code", UNITS),
        n * UNITS.len() as u64,
        move || {
            let counts = counts.clone();
            let parser = Conf { ents: true, ..DEFAULT }.parser();
            move |idx, cx: &mut Cx| {
                let u = UNITS[(idx / n) as usize];
                let k = counts[(idx % n) as usize];
                if u.2 != "" && k > 100 {
                    return Ok(());
                }
                let doc = format!("<ROOT>{}{}{}</ROOT>", u.0.repeat(k), u.1, u.2.repeat(k));
                let (full, short) = apart(&doc);
                note(|| short.clone());
                cx.state();
                same_data(&parser, &full, &short, cx)?;
                cx.sample(|| short.clone());
                Ok(())
            }
        },
    ));
    v
}

const ASSUME: &[&str] = &[
    "Nothing is said about documents and lists of events beyond the listed alphabets and lengths",
    "Rust's Unicode tables (char::is_alphabetic and so on) are taken as given",
];

fn main() {
    engine::main(&[
        Property { id: "F01", assumptions: ASSUME, spaces: f01, probes: &[] },
        Property { id: "F02", assumptions: ASSUME, spaces: f02, probes: &[] },
        Property { id: "T01", assumptions: ASSUME, spaces: t01, probes: &[] },
        Property { id: "T02", assumptions: ASSUME, spaces: t02, probes: &[] },
        Property { id: "T03", assumptions: ASSUME, spaces: t03, probes: &[] },
    ])
}
