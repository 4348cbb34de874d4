//! Properties of entity expansion and of text escaping (E..).
use mc::conf::{entity, parameter_entity};
use mc::engine::{self, note, space, Cx, Property, Seqs, Space, Verdict};
use mc::fills::{self, Fills};
use mc::refparse as model;
use sgmlish::entities::{expand_characters, expand_entities, expand_parameter_entities};
use sgmlish::text::escape;
use sgmlish::{Parser, SgmlEvent};
use std::borrow::Cow;

type Real<'a> = sgmlish::entities::Result<Cow<'a, str>>;

fn compare(
    text: &str,
    what: &str,
    want: &Result<String, model::Undefined>,
    got: &Real,
    want_calls: &[String],
    calls: &[String],
) -> Verdict {
    let ok = match (want, got) {
        (Ok(w), Ok(g)) => w == g,
        (Err(w), Err(g)) => {
            w.name == g.entity
                && w.range == g.position
                && g.to_string() == format!("entity '{}' is not defined", w.name)
        }
        _ => false,
    };
    let w = match want {
        Ok(s) => format!("Ok({:?})", s),
        Err(u) => format!("undefined {:?} at {:?}", u.name, u.range),
    };
    if !ok {
        return Err(format!("{} of {:?}\nexpected: {}\ngot: {:?}", what, text, w, got));
    }
    if want_calls != calls {
        return Err(format!(
            "{} of {:?}\nexpected lookups: {:?}\ngot: {:?}",
            what, text, want_calls, calls
        ));
    }
    Ok(())
}

/// A lookup whose answers depend on how many there were before, and that may give up.
fn numbered(n: usize, name: &str) -> Option<String> {
    match name {
        "u" => None,
        "no" => Some(String::new()),
        _ => Some(format!("[{}&{};%{};]", n, name, name)),
    }
}

fn expansion(text: &str, prefix: char, cx: &mut Cx) -> Verdict {
    let run = |f: &mut dyn FnMut(&str) -> Option<String>| -> Real {
        if prefix == '&' {
            expand_entities(text, |n| f(n))
        } else {
            expand_parameter_entities(text, |n| f(n))
        }
    };
    let table: fn(&str) -> Option<&'static str> = if prefix == '&' { entity } else { parameter_entity };
    // With a fixed table
    let mut calls = vec![];
    let got = run(&mut |n| {
        calls.push(n.to_owned());
        table(n).map(str::to_owned)
    });
    cx.op();
    let mut want_calls = vec![];
    let want = model::expand(text, prefix, &table, &mut want_calls);
    cx.checked();
    cx.outcome(&format!("{:?}", want_calls));
    compare(text, "expansion", &want, &got, &want_calls, &calls)?;

    // With answers that depend on the order of the lookups
    let mut n = 0;
    let got = run(&mut |name| {
        n += 1;
        numbered(n, name)
    });
    cx.op();
    let count = std::cell::Cell::new(0);
    let leak: &dyn Fn(&str) -> Option<&'static str> = &|name| {
        count.set(count.get() + 1);
        numbered(count.get(), name).map(|s| intern(s))
    };
    let mut c = vec![];
    let want = model::expand(text, prefix, leak, &mut c);
    cx.checked();
    compare(text, "expansion with numbered lookups", &want, &got, &[], &[])?;

    if prefix == '&' {
        let got = expand_characters(text);
        cx.op();
        let mut c = vec![];
        let want = model::expand(text, prefix, &|_| None, &mut c);
        cx.checked();
        compare(text, "expansion of characters only", &want, &got, &[], &[])?;
    }
    Ok(())
}

fn intern(s: String) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashSet;
    thread_local! {
        static KNOWN: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
    }
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        if let Some(x) = k.get(s.as_str()) {
            return *x;
        }
        let x: &'static str = Box::leak(s.into_boxed_str());
        k.insert(x);
        x
    })
}

fn texts(name: &str, toks: &'static [&'static str], max: u32, judge: fn(&str, &mut Cx) -> Verdict) -> Space {
    let s = Seqs::new(toks.len(), 0, max);
    space(
        name,
        format!("all sequences of 0..={} of {:?}", max, toks),
        s.len(),
        move || {
            let mut seq = vec![];
            let mut text = String::new();
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                text.clear();
                for &t in &seq {
                    text.push_str(toks[t]);
                }
                note(|| format!("{:?}", text));
                cx.state();
                judge(&text, cx)?;
                cx.sample(|| format!("{:?}", text));
                Ok(())
            }
        },
    )
}

/// Each template with each string in its holes.
fn holes(name: &str, templates: &'static [&'static str], fills: Fills, judge: fn(&str, &mut Cx) -> Verdict) -> Space {
    let bound = format!("{:?}, with {} in place of §", templates, fills.what);
    let list = std::sync::Arc::new(fills.list);
    let n = list.len() as u64;
    space(name, bound, n * templates.len() as u64, move || {
        let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
        let list = list.clone();
        let mut text = String::new();
        move |idx, cx: &mut Cx| {
            fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut text);
            note(|| format!("{:?}", text));
            cx.state();
            judge(&text, cx)?;
            cx.sample(|| format!("{:?}", text));
            Ok(())
        }
    })
}

fn sweep(templates: &'static [&'static str], names: &[&str], units: &[&str], max: u64, judge: fn(&str, &mut Cx) -> Verdict) -> Vec<Space> {
    vec![
        holes("fill-words", templates, fills::words(true), judge),
        holes("fill-ascii", templates, fills::ascii_pairs(), judge),
        holes("fill-names", templates, fills::around(names), judge),
        holes("fill-characters", templates, fills::odd_scalars(), judge),
        holes("fill-all-characters", &templates[..2], fills::scalars(), judge),
        holes("fill-huge", templates, fills::huge(units), judge),
        holes("fill-repeated", templates, fills::repeats(units, 140, max), judge),
    ]
}

fn e01(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        texts("references", &["&", "#", "e", "u", ";", " ", "é", "1", "x", "-", ".", "%", "&e;", "&no;", "&#65;", "\u{1F600}"], 5 + d, |t, cx| expansion(t, '&', cx)),
        texts("references-only", &["&", "e", ";", "#", "u", "&é;", "&#x"], 6 + d, |t, cx| expansion(t, '&', cx)),
        texts("names", &["&", "nest", "lt", "E", "_", ":", "٣", "#SP", "漢", "ª", "\n", "\u{301}", ";"], 5 + d, |t, cx| expansion(t, '&', cx)),
    ];
    v.extend(sweep(
        &["x&§;y", "&e§&e;", "§", "§&e;§", "x&#§;", "x&#x§;", "&e;§&u;§", "&§", "x&e;&§&e;"],
        &["e", "lt", "nest", "#SP", "é", "#65", "#x41", "#xD800", "u"],
        &["a", "&", "&e;", "é", "&#65;", "0", "#", ";", "漢&", "&u;"],
        5000,
        |t, cx| expansion(t, '&', cx),
    ));
    v
}

fn e02(thorough: bool) -> Vec<Space> {
    let forms: &'static [fn(u64) -> String] = &[
        |n| format!("{}", n),
        |n| format!("0{}", n),
        |n| format!("x{:x}", n),
        |n| format!("x{:X}", n),
        |n| format!("x000{:x}", n),
        |n| format!("00000000000000000000{}", n),
        |n| format!("x00000000{:X}", n),
    ];
    const AFTER: &[&str] = &[";", "", ";;", " ", "<", "&", ";b", "\u{301}", "é;"];
    fn judge(forms: &[fn(u64) -> String], n: u64, cx: &mut Cx) -> Verdict {
        let ch = u32::try_from(n).ok().and_then(char::from_u32);
        for form in forms {
            let body = form(n);
            for after in AFTER {
                if *after == "é;" {
                    // The reference would go on, in hexadecimal
                    if body.starts_with('x') {
                        continue;
                    }
                }
                let text = format!("a&#{}{}", body, after);
                note(|| format!("{:?}", text));
                cx.state();
                cx.op();
                let mut calls = vec![];
                let got = expand_entities(&text, |name| {
                    calls.push(name.to_owned());
                    Some("FUNCTION")
                });
                let rest = after.strip_prefix(';').unwrap_or(after);
                cx.checked();
                let want = match ch {
                    Some(c) => format!("a{}{}", c, rest),
                    None => format!("aFUNCTION{}", rest),
                };
                let want_calls = if ch.is_some() { vec![] } else { vec![format!("#{}", body)] };
                if got.as_deref() != Ok(&want[..]) || calls != want_calls {
                    return Err(format!(
                        "{:?}\nexpected: {:?} with lookups {:?}\ngot: {:?} with lookups {:?}",
                        text, want, want_calls, got, calls
                    ));
                }
                cx.op();
                cx.checked();
                let got = expand_characters(&text);
                let end = text.len() - rest.len();
                let ok = match (&got, ch) {
                    (Ok(g), Some(_)) => *g == want,
                    (Err(e), None) => e.entity == format!("#{}", body) && e.position == (1..end),
                    _ => false,
                };
                if !ok {
                    return Err(format!("{:?}\nexpected: {:?}, or an error at {:?}\ngot: {:?}", text, ch, 1..end, got));
                }
            }
        }
        Ok(())
    }
    let limit = 0x110010u64;
    // Around what fits in each integer size
    let mut big: Vec<u64> = vec![];
    for b in [16u32, 20, 21, 31, 32, 33, 63] {
        for k in -64i64..=64 {
            big.push((1u64 << b).wrapping_add(k as u64));
        }
    }
    for k in 0..=128 {
        big.push(u64::MAX - k);
        // Wrapping around to a valid code
        big.push((1u64 << 32) + 0x41 + k);
        big.push((0xD7F0 + k) & 0xFFFF);
        big.push(0x10FFB0 + k);
    }
    vec![
        space(
            "codes",
            format!("every code 0..{}, in {} notations, before each of {:?}", limit, forms.len(), AFTER),
            limit,
            move || {
                move |idx, cx: &mut Cx| {
                    // All notations where it matters, at least three of them everywhere
                    let all = idx < 0x3000 || (0xD000..0xE100).contains(&idx) || idx > 0x10F000;
                    let f = if all { &forms[..] } else if idx % 2 == 0 { &forms[..3] } else { &forms[2..5] };
                    judge(f, idx, cx)?;
                    cx.sample(|| format!("code {}", idx));
                    Ok(())
                }
            },
        ),
        space(
            "big-codes",
            "codes around powers of 2, up to 2^64",
            big.len() as u64,
            move || {
                let big = big.clone();
                move |idx, cx: &mut Cx| {
                    cx.sample(|| format!("code {}", big[idx as usize]));
                    judge(forms, big[idx as usize], cx)
                }
            },
        ),
        holes(
            "leading-zeros",
            &["a&#§65;b", "a&#x§41;b", "&#§;", "&#x§;", "&#§1114111;&#§1114112;", "&#x§D800;", "&#x§110000", "&#x§FFFFFFFF1;", "&#§4294967361;", "&#x§41"],
            fills::repeats(&["0"], 140, 5000),
            |t, cx| expansion(t, '&', cx),
        ),
        holes(
            "long-numbers",
            &["a&#§;b", "a&#x§;b", "a&#1§;b", "&#x1§;", "&#x8§"],
            fills::repeats(&["0", "1", "9", "65", "41", "F", "a", "F0"], 140, 5000),
            |t, cx| expansion(t, '&', cx),
        ),
        holes(
            "digits-around",
            &["a&#§65;b", "a&#6§5;b", "a&#65§;b", "a&#x§41;b", "a&#x4§1;b", "a&#x41§;b", "&#§", "&#x§", "&#x10§FFFF", "&#1114§111"],
            fills::ascii_pairs(),
            |t, cx| expansion(t, '&', cx),
        ),
        holes(
            "digits-around-characters",
            &["a&#§65;b", "a&#6§5;b", "a&#x§41;b", "a&#x4§1;b", "&#x41§"],
            fills::odd_scalars(),
            |t, cx| expansion(t, '&', cx),
        ),
        texts("digits", &["0", "1", "4", "9", "a", "A", "f", "F", "D", "8", "x", "&#", "&#x", ";"], if thorough { 6 } else { 5 }, |t, cx| {
            expansion(t, '&', cx)
        }),
    ]
}

fn e03(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        texts("references", &["%", "#", "inc", "u", ";", " ", "é", "1", "x", "-", ".", "&", "%two;", "%none;", "&#65;", "%self"], 5 + d, |t, cx| expansion(t, '%', cx)),
        texts("references-only", &["%", "cd", ";", "#", "u", "%self;", "%%"], 6 + d, |t, cx| expansion(t, '%', cx)),
    ];
    v.extend(sweep(
        &["x%§;y", "%inc§%cd;", "§", "§%inc;§", "x%#§;", "&§;%inc;", "%inc;§%u;§", "%§"],
        &["inc", "two", "self", "none", "#65", "u"],
        &["a", "%", "%inc;", "é", "&#65;", "#", ";", "漢%", "%u;"],
        5000,
        |t, cx| expansion(t, '%', cx),
    ));
    v
}

fn escaped(text: &str, cx: &mut Cx) -> Verdict {
    let bad = |what: &str, got: &dyn std::fmt::Debug| Err(format!("escaping {:?}\n{}\ngot: {:?}", text, what, got));
    for amp in [true, false] {
        let mut e = escape(text);
        if !amp {
            e.set_escape_ampersand(false);
        }
        let want: String = text
            .chars()
            .map(|c| match c {
                '<' => "&#60;".to_owned(),
                '>' => "&#62;".to_owned(),
                '&' if amp => "&#38;".to_owned(),
                c => c.to_string(),
            })
            .collect();
        let s = e.to_string();
        cx.op();
        cx.checked();
        cx.outcome(&s.len());
        if s != want {
            return bad(&format!("expected: {:?} (escaping ampersands: {})", want, amp), &s);
        }
        // Every state of the iterator
        let chars: Vec<char> = want.chars().collect();
        let mut it = e.clone();
        for i in 0..=chars.len() {
            let n = chars.len() - i;
            let (min, max) = it.size_hint();
            cx.op();
            cx.checked();
            if min > n || max.map_or(false, |m| m < n) {
                return bad(&format!("after {} characters there are {} left", i, n), &(min, max));
            }
            if chars.len() < LONG || i < 4 || n < 4 {
                let left: String = chars[i..].iter().collect();
                if it.to_string() != left || it.clone().collect::<String>() != left {
                    return bad(&format!("after {} characters {:?} is left", i, left), &it.to_string());
                }
            }
            let c = it.next();
            if c != chars.get(i).copied() {
                return bad(&format!("character {} of {:?}", i, want), &c);
            }
        }
        for _ in 0..3 {
            let c = it.next();
            if c.is_some() {
                return bad("an iterator that ended goes on", &c);
            }
        }
        // Changing the setting on the way affects what was not reached yet
        for before in [true, false] {
            let mut it = escape(text);
            it.set_escape_ampersand(before);
            for (at, c) in text.char_indices() {
                let whole = match c {
                    '<' => "&#60;".to_owned(),
                    '>' => "&#62;".to_owned(),
                    '&' if before => "&#38;".to_owned(),
                    c => c.to_string(),
                };
                for taken in 0..whole.chars().count() {
                    if text.len() < LONG || at < 4 || text.len() - at < 4 {
                        // What was begun is finished
                        let (begun, rest) = if taken == 0 { (String::new(), &text[at..]) } else { (whole.chars().skip(taken).collect(), &text[at + c.len_utf8()..]) };
                        let mut tail = escape(rest);
                        tail.set_escape_ampersand(amp);
                        let want = format!("{}{}", begun, tail);
                        let mut it = it.clone();
                        it.set_escape_ampersand(amp);
                        cx.op();
                        cx.checked();
                        if it.to_string() != want || it.clone().collect::<String>() != want {
                            return bad(&format!("after changing the setting from {} to {} at {} + {}, expected {:?}", before, amp, at, taken, want), &it.to_string());
                        }
                    }
                    it.next();
                }
            }
        }
    }
    // Going back
    let s = escape(text).to_string();
    cx.op();
    cx.checked();
    if expand_characters(&s).as_deref() != Ok(text) {
        return bad(&format!("{:?} does not expand to the same text", s), &expand_characters(&s));
    }
    let doc = format!("<a>{}</a>", s);
    let f = Parser::builder().trim_whitespace(false).parse(&doc);
    cx.op();
    cx.checked();
    let texts: Option<Vec<String>> = f.as_ref().ok().map(|f| {
        f.iter()
            .filter_map(|e| match e {
                SgmlEvent::Character(s) => Some(s.to_string()),
                _ => None,
            })
            .collect()
    });
    let want: Vec<String> = if text.is_empty() { vec![] } else { vec![text.to_owned()] };
    if texts.as_ref() != Some(&want) || f.as_ref().map_or(0, |f| f.len()) != 3 + want.len() {
        return bad(&format!("{:?} does not parse to the same text", doc), &f);
    }
    Ok(())
}

/// How long a text may be to look at each state in full.
const LONG: usize = 2000;

/// All ways to go through the characters.
fn walked(text: &str, cx: &mut Cx) -> Verdict {
    for amp in [true, false] {
        let want: Vec<char> = text
            .chars()
            .flat_map(|c| match c {
                '<' => "&#60;".chars().collect(),
                '>' => "&#62;".chars().collect(),
                '&' if amp => "&#38;".chars().collect(),
                c => vec![c],
            })
            .collect();
        let make = || {
            let mut e = escape(text);
            e.set_escape_ampersand(amp);
            e
        };
        mc::walks::walk(&make, &want, 3, cx).map_err(|e| format!("escaping {:?}\n{}", text, e))?;
    }
    Ok(())
}

fn e04(thorough: bool) -> Vec<Space> {
    let mut v = vec![
        texts("ways-through", &["<", "&", "a", "é"], if thorough { 6 } else { 4 }, walked),
        texts("texts", &["<", ">", "&", "a", "é", ";", "#", "6", "\u{1F600}", " ", "&#60;", "]]>"], if thorough { 6 } else { 5 }, escaped),
        space("characters", "every Unicode scalar, alone and around markup", 0x110000, || {
            |idx, cx: &mut Cx| {
                let c = match char::from_u32(idx as u32) {
                    Some(c) => c,
                    None => return Ok(()),
                };
                cx.state();
                let text = format!("{}<{}", c, c);
                note(|| format!("{:?}", text));
                cx.sample(|| format!("{:?}", text));
                escaped(&text, cx)
            }
        }),
    ];
    v.extend(sweep(
        &["§", "x§<", "§&§", "&§;"],
        &["lt", "#60", "&#60;"],
        &["a", "&", "<", "é", ">", "漢<", "&#60;"],
        300,
        escaped,
    ));
    v
}

const ASSUME: &[&str] = &[
    "Nothing is said about texts beyond the listed alphabets and lengths",
    "Rust's Unicode tables (char::is_alphabetic and so on) are taken as given",
];

fn main() {
    engine::main(&[
        Property { id: "E01", assumptions: ASSUME, spaces: e01, probes: &[] },
        Property { id: "E02", assumptions: ASSUME, spaces: e02, probes: &[] },
        Property { id: "E03", assumptions: ASSUME, spaces: e03, probes: &[] },
        Property { id: "E04", assumptions: ASSUME, spaces: e04, probes: &[] },
    ])
}
