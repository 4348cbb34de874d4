//! Properties of the building blocks of the parser (R..).
use mc::conf::{entity, parameter_entity, Conf, Ms, Names, DEFAULT};
use mc::engine::{self, note, space, Cx, Property, Seqs, Space, Verdict};
use mc::fills::{self, Fills};
use mc::refparse::{self as model, part, piece, Bad, Ev, Part, Piece, Status, Stop};
use nom::error::{Error as NomError, ErrorKind, ParseError};
use nom::{IResult, Parser as _};
use sgmlish::marked_sections::MarkedSectionStatus;
use sgmlish::parser::raw::MarkedSectionEndHandling::{self, StopParsing, TreatAsText};
use sgmlish::parser::{events, raw, util, MarkedSectionHandling, NameNormalization, ParserConfig};
use sgmlish::SgmlEvent;
use std::borrow::Cow;
use std::fmt::Debug;

type E<'a> = NomError<&'a str>;

fn within(whole: &str, part: &str) -> Option<usize> {
    let (w, p) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    (w <= p && p + part.len() <= w + whole.len()).then(|| p - w)
}

/// The rest must be what is left of the input, and errors must point into it.
fn taken<'a, T>(input: &'a str, r: IResult<&'a str, T, E<'a>>) -> Result<Option<(usize, T)>, String> {
    match r {
        Ok((rest, t)) => match within(input, rest) {
            Some(n) if n + rest.len() == input.len() => Ok(Some((n, t))),
            _ => Err(format!("the rest is not that of the input\ngot: {:?}", rest)),
        },
        Err(nom::Err::Incomplete(_)) => Err("says that input is incomplete".into()),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => match within(input, e.input) {
            Some(n) if n + e.input.len() <= input.len() => Ok(None),
            _ => Err(format!("the error is not in the input\ngot: {:?}", e)),
        },
    }
}

// ---------------------------------------------------------------------------------------------
// R01: parsers of single constructs

const PIECES: &[Piece] = &[
    Piece::CommentDeclaration,
    Piece::Comment,
    Piece::MarkupDeclaration,
    Piece::SectionStart,
    Piece::CharacterBody,
    Piece::IgnoreBody,
    Piece::SectionEnd,
    Piece::Instruction,
    Piece::Text(false),
    Piece::Text(true),
    Piece::PlainText(false),
    Piece::PlainText(true),
    Piece::OpenStartTag,
    Piece::CloseStartTag,
    Piece::XmlClose,
    Piece::EmptyStartTag,
    Piece::Attribute,
    Piece::AttributeValue,
    Piece::BareValue,
    Piece::QuotedValue,
    Piece::EndTag,
    Piece::Name,
    Piece::NameStart,
    Piece::Spaces,
    Piece::CommentsAndSpaces,
];

fn mse(stop: bool) -> MarkedSectionEndHandling {
    if stop {
        StopParsing
    } else {
        TreatAsText
    }
}

fn call<'a>(k: Piece, s: &'a str) -> IResult<&'a str, Vec<Option<&'a str>>, E<'a>> {
    let one = |r: IResult<&'a str, &'a str, E<'a>>| r.map(|(rest, s)| (rest, vec![Some(s)]));
    match k {
        Piece::CommentDeclaration => one(raw::comment_declaration(s)),
        Piece::Comment => one(raw::comment(s)),
        Piece::MarkupDeclaration => raw::markup_declaration(s).map(|(r, (a, b))| (r, vec![Some(a), Some(b)])),
        Piece::SectionStart => one(raw::marked_section_start_and_keywords(s)),
        Piece::CharacterBody => one(raw::marked_section_body_character_data(s)),
        Piece::IgnoreBody => one(raw::marked_section_body_ignore(s)),
        Piece::SectionEnd => one(raw::marked_section_end(s)),
        Piece::Instruction => one(raw::processing_instruction(s)),
        Piece::Text(stop) => one(raw::text(s, mse(stop))),
        Piece::PlainText(stop) => one(raw::plain_text(s, mse(stop))),
        Piece::OpenStartTag => one(raw::open_start_tag(s)),
        Piece::CloseStartTag => one(raw::close_start_tag(s)),
        Piece::XmlClose => one(raw::xml_close_empty_element(s)),
        Piece::EmptyStartTag => one(raw::empty_start_tag(s)),
        Piece::Attribute => raw::attribute(s).map(|(r, (a, b))| (r, vec![Some(a), b])),
        Piece::AttributeValue => raw::attribute_value(s).map(|(r, (a, q))| (r, vec![Some(a), q.then(|| "")])),
        Piece::BareValue => one(raw::unquoted_attribute_value(s)),
        Piece::QuotedValue => one(raw::quoted_attribute_value(s)),
        Piece::EndTag => raw::end_tag(s).map(|(r, a)| (r, vec![a])),
        Piece::Name => one(raw::name(s)),
        Piece::NameStart => one(raw::name_start(s)),
        Piece::Spaces => one(util::spaces(s)),
        Piece::CommentsAndSpaces => one(util::comments_and_spaces(s)),
    }
}

/// Whether what the parser is for begins here at all; if not, something else may be tried.
fn begins(k: Piece, s: &str) -> bool {
    let start = |s: &str| s.chars().next().map_or(false, model::name_start);
    match k {
        Piece::CommentDeclaration => s.starts_with("<!-") || s.starts_with("<!>"),
        Piece::Comment => s.starts_with("--"),
        Piece::MarkupDeclaration => s.starts_with("<!") && start(&s[2..]),
        Piece::SectionStart => s.starts_with("<!["),
        Piece::Instruction => s.starts_with("<?"),
        Piece::EndTag => s.starts_with("</"),
        Piece::QuotedValue | Piece::AttributeValue => s.starts_with(|c| c == '"' || c == '\''),
        Piece::Attribute => start(s),
        Piece::CharacterBody | Piece::IgnoreBody | Piece::CommentsAndSpaces => true,
        _ => false,
    }
}

fn one_piece(k: Piece, s: &str, cx: &mut Cx) -> Verdict {
    let want = piece(k, s);
    cx.op();
    cx.checked();
    let r = call(k, s);
    let error = match &r {
        Err(nom::Err::Failure(_)) => Some(true),
        Err(_) => Some(false),
        Ok(_) => None,
    };
    let got = taken(s, r).map_err(|e| format!("input: {:?}\n{:?}: {}", s, k, e))?;
    cx.outcome(&(k, error, want.as_ref().map(|w| w.1.iter().map(|p| p.is_some()).collect::<Vec<_>>())));
    if got != want {
        return Err(format!("input: {:?}\n{:?}\nexpected: {:?}\ngot: {:?}", s, k, want, got));
    }
    if error == Some(true) && !begins(k, s) {
        return Err(format!("input: {:?}\n{:?}\nthis is something else; it should be possible to try that", s, k));
    }
    for p in got.iter().flat_map(|g| &g.1).flatten() {
        if !p.is_empty() && within(s, p).is_none() {
            return Err(format!("input: {:?}\n{:?}\nthe part is not one of the input: {:?}", s, k, p));
        }
    }
    Ok(())
}

fn pieces(s: &str, cx: &mut Cx) -> Verdict {
    for &k in PIECES {
        one_piece(k, s, cx)?;
    }
    // The closure for attribute values
    let plain = raw::attribute::<E>(s);
    let mut calls = vec![];
    cx.op();
    cx.checked();
    let r: IResult<&str, (&str, Option<usize>), E> = raw::attribute_parse_value(s, |v, quoted| {
        calls.push((v, quoted));
        Ok(v.len())
    });
    let fails: IResult<&str, (&str, Option<()>), E> =
        raw::attribute_parse_value(s, |v, _| Err(nom::Err::Failure(NomError::from_error_kind(v, ErrorKind::Verify))));
    let want = piece(Piece::Attribute, s);
    match (&want, &plain, &r, &fails) {
        (None, Err(_), Err(_), Err(_)) if calls.is_empty() => {}
        (Some((n, parts)), Ok(_), Ok((rest, (name, value))), fails) if *rest == &s[*n..] && Some(*name) == parts[0] => {
            match parts[1] {
                Some(v) => {
                    let before = s[..*n].ends_with(|c| c == '"' || c == '\'');
                    if calls != [(v, before)] || *value != Some(v.len()) {
                        return Err(format!("input: {:?}\nthe closure for values was called with {:?} and {:?} was made of its result", s, calls, value));
                    }
                    match fails {
                        Err(nom::Err::Failure(e)) if e.code == ErrorKind::Verify && e.input == v => {}
                        f => return Err(format!("input: {:?}\nthe error of the closure was replaced by {:?}", s, f)),
                    }
                }
                None => match fails {
                    Ok((_, (n, None))) if Some(*n) == parts[0] && calls.is_empty() && value.is_none() => {}
                    f => return Err(format!("input: {:?}\nthere is no value, but the closure was called, or: {:?}", s, f)),
                },
            }
        }
        o => return Err(format!("input: {:?}\nattributes with a closure for values: {:?}, called with {:?}", s, o, calls)),
    }
    Ok(())
}

const DELIMITERS: &[&str] = &[">", "-->", "]]>", "--", "a", "aa", "aba", "é", "é]", "]é>"];

fn combinators(s: &str, cx: &mut Cx) -> Verdict {
    for &d in DELIMITERS {
        cx.op();
        cx.checked();
        let want = s.find(d).map(|n| (n + d.len(), &s[..n]));
        let r: IResult<&str, &str, E> = util::take_until_terminated("delimiter", d)(s);
        if let Err(nom::Err::Error(_)) = r {
            return Err(format!("input: {:?}\nwithout delimiter {:?}, something else may be tried", s, d));
        }
        let got = taken(s, r).map_err(|e| format!("input: {:?}\nuntil {:?}: {}", s, d, e))?;
        cx.outcome(&got.is_some());
        if got != want {
            return Err(format!("input: {:?}\nuntil {:?}\nexpected: {:?}\ngot: {:?}", s, d, want, got));
        }
    }
    let spaces = |s: &str| s.len() - s.trim_start_matches(model::ws).len();
    let name = |s| piece(Piece::Name, s).map(|(n, p)| (n, p[0].unwrap()));
    let before = spaces(s);
    let after = name(s).map(|(n, t)| (n + spaces(&s[n..]), t));
    let around = name(&s[before..]).map(|(n, t)| (before + n + spaces(&s[before + n..]), t));
    let comments = name(s).and_then(|(n, t)| piece(Piece::CommentsAndSpaces, &s[n..]).map(|(m, _)| (n + m, t)));
    cx.ops(3);
    for (what, want, r) in [
        ("spaces after", after, util::strip_spaces_after(raw::name::<E>).parse(s)),
        ("spaces around", around, util::strip_spaces_around(raw::name::<E>).parse(s)),
        ("comments and spaces after", comments, util::strip_comments_and_spaces_after(raw::name::<E>).parse(s)),
    ] {
        cx.checked();
        let got = taken(s, r).map_err(|e| format!("input: {:?}\n{}: {}", s, what, e))?;
        if got != want {
            return Err(format!("input: {:?}\na name and {}\nexpected: {:?}\ngot: {:?}", s, what, want, got));
        }
    }
    Ok(())
}

fn strings<F>(name: &str, toks: &'static [&'static str], max: u32, pre: &'static [&'static str], judge: F) -> Space
where
    F: Fn(&str, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let s = Seqs::new(toks.len(), 0, max);
    let n = pre.len() as u64;
    space(name, format!("all sequences of 0..={} of {:?}, after each of {:?}", max, toks, pre), s.len() * n, move || {
        let mut seq = vec![];
        let mut input = String::new();
        move |idx, cx: &mut Cx| {
            s.decode(idx / n, &mut seq);
            input.clear();
            input.push_str(pre[(idx % n) as usize]);
            for &t in &seq {
                input.push_str(toks[t]);
            }
            note(|| input.clone());
            cx.state();
            cx.sample(|| format!("{:?}", input));
            judge(&input, cx)
        }
    })
}

fn holes<F>(name: &str, templates: &'static [&'static str], f: Fills, judge: F) -> Space
where
    F: Fn(&str, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let bound = format!("{:?}, with {} in place of §", templates, f.what);
    let list = std::sync::Arc::new(f.list);
    let n = list.len() as u64;
    space(name, bound, n * templates.len() as u64, move || {
        let list = list.clone();
        let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
        let mut input = String::new();
        move |idx, cx: &mut Cx| {
            fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut input);
            note(|| input.clone());
            cx.state();
            cx.sample(|| format!("{:?}", input));
            judge(&input, cx)
        }
    })
}

const REPEATED: &[&str] = &["a", "é", " ", "\n", "-", "'", "]", "<b>", "</b>", "<![", "]]>", " c='d'", "<!-- x -->", "-- y --", "<?p>", "&e;", "[", "<"];

fn sweep<F>(templates: &'static [&'static str], judge: F) -> Vec<Space>
where
    F: Fn(&str, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    vec![
        holes("fill-words", templates, fills::words(true), judge),
        holes("fill-ascii", templates, fills::ascii_pairs(), judge),
        holes("fill-characters", templates, fills::odd_scalars(), judge),
        holes("fill-delimiters", templates, fills::delimiters(4), judge),
        holes("fill-huge", templates, fills::huge(REPEATED), judge),
        holes("fill-repeated", templates, fills::repeats(REPEATED, 80, 3000), judge),
    ]
}

const CHARS: &[&str] = &["<", ">", "!", "-", "?", "/", "[", "]", "'", "\"", "=", "a", "é", "1", " ", "\n", "."];
const TOKENS: &[&str] = &["<!", "--", "<![", "]]>", "-->", "x", "é", " ", "\t", "=", "'", "\"", ">", "/>", "</", "[", "]", "<?", "<", "-", "<!-- c -->", "\u{c}", "\u{a0}"];

fn r01(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        strings("characters", CHARS, 5 + d, &[""], pieces),
        strings("tokens", TOKENS, 5 + d, &[""], pieces),
        strings(
            "constructs",
            &["--", "-", " ", "x", "'", "\"", "[", "]", ">", "<!a", "]]>", "<![", "="],
            5 + d,
            &["<!", "<!D", "<!D ", "<![", "a", "</a", "--"],
            |s, cx| {
                for &k in PIECES {
                    if k == Piece::CommentsAndSpaces || begins(k, s) {
                        one_piece(k, s, cx)?;
                    }
                }
                Ok(())
            },
        ),
        strings("combinators", &["a", "b", "é", "]", ">", "-", "<!--", "-->", " ", "\n", "<!>"], 6 + d, &[""], combinators),
    ];
    v.extend(sweep(
        &[
            "§", "a§", "<§", "</§>", "a=§ >", "a§=x", "a='§'", "a = \"§\" b", "<!§>", "<!--§-->z", "<!-- x --§-- y -->", "--§--z", "<!D §>", "<!D [§]>", "<!D '§' \"§\">z",
            "<![§[x", "§]]>x", "x§<![y]]>z]]>", "<?§>x", "x§y", "x§<a", " §x",
        ],
        pieces,
    ));
    const DEPTHS: &[(&str, &str, &str)] = &[("<![", "x", "]]>"), ("<![ y", "<z>", "]]>"), ("[", " ", "]"), ("<!D [", "x", "]>"), ("<!--", "", "-->"), ("<", "", ">"), ("</", "", ">"), ("'", "", "'")];
    v.push(holes("depths", &["§", "x§]]>z", "<!D §>", "<![§", "§y]]>]]>"], fills::nested(DEPTHS, 80, 2000), pieces));
    v.push(holes("fill-combinators", &["§", "a§", " §a §b", "a<!--§-->§b"], fills::words(true), combinators));
    v.push(holes("fill-combinators-ascii", &["§", "a§", " §a §b", "a<!--§-->§b"], fills::ascii_pairs(), combinators));
    v.push(space("classes", "every Unicode scalar value, alone, after a name and before one", 0x110000, || {
        let mut s = String::new();
        move |idx, cx: &mut Cx| {
            let c = match char::from_u32(idx as u32) {
                Some(c) => c,
                None => return Ok(()),
            };
            note(|| format!("{:?}", c));
            cx.state();
            cx.ops(2);
            cx.checked();
            let (start, more) = (raw::is_name_start_char(c), raw::is_name_char(c));
            cx.outcome(&(start, more));
            if (start, more) != (model::name_start(c), model::name_char(c)) {
                return Err(format!("{:?}: starts a name: {}, continues one: {}", c, start, more));
            }
            if sgmlish::text::is_sgml_whitespace(c) != model::ws(c) {
                return Err(format!("{:?} is white space: {}", c, !model::ws(c)));
            }
            for pre in ["", "a", "<", "</", " "] {
                s.clear();
                s.push_str(pre);
                s.push(c);
                s.push_str("b>");
                for k in [Piece::Name, Piece::NameStart, Piece::OpenStartTag, Piece::EndTag, Piece::Attribute, Piece::BareValue, Piece::Spaces, Piece::Text(false)] {
                    one_piece(k, &s, cx)?;
                }
            }
            Ok(())
        }
    }));
    v
}

// ---------------------------------------------------------------------------------------------
// R02: parsers that give events

fn handling(ms: Ms) -> MarkedSectionHandling {
    match ms {
        Ms::Keep => MarkedSectionHandling::KeepUnmodified,
        Ms::Chars => MarkedSectionHandling::AcceptOnlyCharacterData,
        Ms::All => MarkedSectionHandling::ExpandAll,
    }
}
fn naming(n: Names) -> NameNormalization {
    match n {
        Names::Same => NameNormalization::Unchanged,
        Names::Lower => NameNormalization::ToLowercase,
        Names::Upper => NameNormalization::ToUppercase,
    }
}

/// Made by setting fields, as opposed to calls.
fn config(c: &Conf) -> ParserConfig {
    let mut b = sgmlish::Parser::builder();
    if c.ents {
        b = b.expand_entities(|n: &str| entity(n));
    }
    if c.pents {
        b = b.expand_parameter_entities(|n: &str| parameter_entity(n));
    }
    let mut k = b.into_config();
    k.trim_whitespace = c.trim;
    k.name_normalization = naming(c.names);
    k.marked_section_handling = handling(c.ms);
    k.ignore_markup_declarations = c.ignore_decls;
    k.ignore_processing_instructions = c.ignore_pis;
    k
}

/// Takes the events out, one by one, looking at what is said to remain at each step.
fn unroll(mut it: events::EventIter) -> Result<Vec<Ev>, String> {
    let n = it.len();
    let mut out = vec![];
    loop {
        let left = n - out.len();
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return Err(format!("after {} of {} events, {:?}, the length is given as {} and {:?}", out.len(), n, out, it.len(), it.size_hint()));
        }
        // Not for every one of many, as that takes too long
        let shown = (left < 40 || left.is_power_of_two()).then(|| format!("{:?}", it));
        match it.next() {
            Some(e) => {
                if shown.as_ref().map_or(false, |s| !s.contains(&format!("{:?}", e))) {
                    return Err(format!("the next event {:?} is missing from {:?}", e, shown));
                }
                out.push(Ev::of(&e))
            }
            None => break,
        }
        if out.len() > n {
            return Err(format!("more than the {} events: {:?}", n, out));
        }
    }
    if out.len() != n {
        return Err(format!("{} events instead of {}: {:?}", out.len(), n, out));
    }
    if it.next().is_some() || it.next().is_some() || it.len() != 0 {
        return Err("events after the end".into());
    }
    // Taken otherwise, and put together again
    Ok(out)
}

fn of(e: SgmlEvent) -> Result<Vec<Ev>, String> {
    Ok(vec![Ev::of(&e)])
}

fn one_part(k: &Part, s: &str, c: &Conf, cfg: &ParserConfig, cx: &mut Cx) -> Verdict {
    let want = part(k, s, c);
    if want == Err(Bad::Unspecified) {
        return Ok(());
    }
    fn each<'a>(r: IResult<&'a str, events::EventIter<'a>, E<'a>>) -> IResult<&'a str, Result<Vec<Ev>, String>, E<'a>> {
        r.map(|(rest, it)| (rest, unroll(it)))
    }
    fn one<'a>(r: IResult<&'a str, SgmlEvent<'a>, E<'a>>) -> IResult<&'a str, Result<Vec<Ev>, String>, E<'a>> {
        r.map(|(rest, e)| (rest, of(e)))
    }
    cx.op();
    let r = match k {
        Part::Declaration => each(events::markup_declaration(s, cfg)),
        Part::Section => each(events::marked_section_declaration(s, cfg)),
        Part::SectionBody(keywords, st) => {
            let st = match st {
                Status::Include => MarkedSectionStatus::Include,
                Status::RcData => MarkedSectionStatus::RcData,
                Status::CData => MarkedSectionStatus::CData,
                Status::Ignore => MarkedSectionStatus::Ignore,
            };
            each(events::marked_section_body(s, keywords.clone().into(), st, cfg))
        }
        Part::Instruction => each(events::processing_instruction(s, cfg)),
        Part::Text(stop) => each(events::text(s, cfg, mse(*stop))),
        Part::StartTag => each(events::start_tag(s, cfg)),
        Part::OpenStartTag => one(events::open_start_tag(s, cfg)),
        Part::EmptyStartTag => each(events::empty_start_tag(s)),
        Part::CloseStartTag => one(events::close_start_tag(s)),
        Part::XmlClose => one(events::xml_close_empty_element(s)),
        Part::Attribute => one(events::attribute(s, cfg)),
        Part::Item(stop) => each(events::content_item(s, cfg, mse(*stop))),
    };
    cx.checked();
    let bad = |what: &str, got: &dyn Debug| Err(format!("input: {:?}\nconfiguration: {:?}\n{:?}: {}\nexpected: {:?}\ngot: {:?}", s, c, k, what, want, got));
    let got = match taken(s, r) {
        Ok(Some((n, Ok(evs)))) => Some((n, evs)),
        Ok(None) => None,
        Ok(Some((_, Err(e)))) | Err(e) => return bad(&e, &""),
    };
    cx.outcome(&(format!("{:?}", std::mem::discriminant(k)), got.as_ref().map(|g| g.1.len())));
    if got.as_ref() != want.as_ref().ok() {
        return bad("not what was expected", &got);
    }
    Ok(())
}

fn runs(s: &str, c: &Conf, cfg: &ParserConfig, cx: &mut Cx) -> Verdict {
    for which in 0..3 {
        let (stop, prolog) = (which == 1, which == 2);
        let (n, evs, items, why) = model::run(s, c, stop, prolog);
        if why == Stop::Bad(Bad::Unspecified) {
            continue;
        }
        cx.op();
        cx.checked();
        let r: IResult<&str, Vec<SgmlEvent>, E> = if prolog {
            events::prolog(s, cfg)
        } else {
            events::content(s, cfg, mse(stop)).map(|(r, it)| (r, it.collect()))
        };
        let what = ["content", "content of a section", "prolog"][which];
        let got = taken(s, r).map_err(|e| format!("input: {:?}\nconfiguration: {:?}\n{}: {}", s, c, what, e))?;
        let got = got.map(|(n, v)| (n, v.iter().map(Ev::of).collect::<Vec<_>>()));
        cx.outcome(&(which, got.is_some(), format!("{:?}", std::mem::discriminant(&why))));
        let ok = match &got {
            Some(g) => *g == (n, evs.clone()) && (items > 0 || prolog),
            None => items == 0 && !prolog || matches!(why, Stop::Bad(_)),
        };
        if !ok {
            return Err(format!("input: {:?}\nconfiguration: {:?}\n{}, which ends because of {:?}\nexpected: {:?}\ngot: {:?}", s, c, what, why, (n, evs, items), got));
        }
    }
    // A whole document
    let want = model::parse(s, c);
    if want == Err(Bad::Unspecified) {
        return Ok(());
    }
    cx.op();
    cx.checked();
    let r: IResult<&str, Vec<SgmlEvent>, E> = events::document_entity(s, cfg).map(|(r, it)| (r, it.collect()));
    let got = taken(s, r).map_err(|e| format!("input: {:?}\nconfiguration: {:?}\na document: {}", s, c, e))?;
    let got = got.map(|(n, v)| (n, v.iter().map(Ev::of).collect::<Vec<_>>()));
    if got != want.clone().ok().map(|w| (s.len(), w)) {
        return Err(format!("input: {:?}\nconfiguration: {:?}\na document\nexpected: {:?}\ngot: {:?}", s, c, want, got));
    }
    Ok(())
}

fn parts(s: &str, confs: &[(Conf, ParserConfig)], cx: &mut Cx) -> Verdict {
    const KINDS: &[Part] = &[
        Part::Declaration,
        Part::Section,
        Part::Instruction,
        Part::Text(false),
        Part::Text(true),
        Part::StartTag,
        Part::OpenStartTag,
        Part::EmptyStartTag,
        Part::CloseStartTag,
        Part::XmlClose,
        Part::Attribute,
        Part::Item(false),
        Part::Item(true),
    ];
    for (c, cfg) in confs {
        for k in KINDS {
            one_part(k, s, c, cfg, cx)?;
        }
        if s.contains("]]>") {
            for st in [Status::Include, Status::RcData, Status::CData, Status::Ignore] {
                one_part(&Part::SectionBody("any words".into(), st), s, c, cfg, cx)?;
            }
        }
        runs(s, c, cfg, cx)?;
    }
    Ok(())
}

thread_local! {
    static CONFIGS: Vec<(Conf, ParserConfig)> = Conf::few().into_iter().map(|c| (c, config(&c))).collect();
    static ALL_CONFIGS: Vec<(Conf, ParserConfig)> = Conf::all().into_iter().map(|c| (c, config(&c))).collect();
}

fn few_parts(s: &str, cx: &mut Cx) -> Verdict {
    CONFIGS.with(|c| parts(s, c, cx))
}

fn r02(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        strings(
            "tokens",
            &[
                "<a", "<B", " ", ">", "/>", "=", "c", "'x'", "\"&e;\"", "</a>", "<>", "</>", "t", "&lt;", "&no;", "<?p>", "<!D e>", "<!-- x -->", "<![CDATA[", "<![RCDATA[", "<![ %inc [",
                "<![IGNORE[", "<![TEMP[", "]]>", "]", "<", "\n",
            ],
            4 + d,
            &[""],
            few_parts,
        ),
        strings(
            "constructs",
            &["<a>", "</a>", "<b c='&e;' D>", "<e/>", " x ", "&amp;", "<?p>", "<!D e>", "<!-- x -->", "<![CDATA[ y ]]>", "<![INCLUDE[<i>z]]>", "<![IGNORE[<w]]>", "<![RCDATA[&e;]]>", "]]>", "<"],
            4 + d,
            &[""],
            few_parts,
        ),
        strings("all-settings", &["<A b=C>", "</A>", " x&lt; ", "<?p>", "<!D e>", "<![CDATA[ y ]]>", "<![ %inc; [<I> z ]]>", "<![IGNORE[]]>", "]]>", "<!-- -->"], 3 + d, &[""], |s, cx| {
            ALL_CONFIGS.with(|c| parts(s, c, cx))
        }),
        strings("tags", &["a", "É", "=", "'", "\"", " ", "/", ">", "&e;", "&x;", "<"], 5 + d, &["<", "<a "], |s, cx| {
            CONFIGS.with(|confs| {
                for (c, cfg) in confs {
                    one_part(&Part::StartTag, s, c, cfg, cx)?;
                    one_part(&Part::Item(false), s, c, cfg, cx)?;
                    one_part(&Part::OpenStartTag, s, c, cfg, cx)?;
                    if let Some(s) = s.strip_prefix("<a ") {
                        one_part(&Part::Attribute, s, c, cfg, cx)?;
                    }
                }
                Ok(())
            })
        }),
    ];
    v.extend(sweep(
        &["§", "<a§>x", "<a b§ c='§'>", "</a§>z", "<§a>", "x§<?§>", "<!D §>x", "<![CDATA[§]]>x", "<![INCLUDE[§<a§>]]>x", "<![IGNORE[§]]>x", "<![§[x]]>", "<!--§-->x", "b=§ ", "b=\"§\""],
        few_parts,
    ));
    // Many attributes: iterators over them
    v.push(holes("many", &["<a§>", "<a§/>x", "<![INCLUDE[§]]>"], fills::repeats(&[" b", " c='d' e=f", "<a b=c>x"], 300, 3000), few_parts));
    const WAYS: &[&str] = &[
        "<>", "<a>", "<a/>", "<a b>", "<a b=c d/>", "<a b=c d='e' f>", "<a b c d e f g>", "x", " ", "</a>", "<?p>", "<!D x>", "<![CDATA[x]]>", "<![IGNORE[x]]>", "<![INCLUDE[]]>",
        "<![INCLUDE[x]]>", "<![INCLUDE[<a b>x</a>]]>", "<![INCLUDE[<a><b/></a>]]>",
    ];
    v.push(space(
        "ways-through",
        format!("the events of each of {:?} kept and ignored, and iterators made of 0..=8 events, in all ways of up to 4 steps before each of 12 ways to use up the rest", WAYS),
        WAYS.len() as u64 * 2 + 9,
        || {
            |idx, cx: &mut Cx| {
                let i = (idx / 2) as usize;
                cx.state();
                if i < WAYS.len() {
                    note(|| format!("{:?}", WAYS[i]));
                    let mut c = sgmlish::Parser::builder().marked_section_handling(MarkedSectionHandling::ExpandAll);
                    if idx % 2 == 1 {
                        c = c.ignore_markup_declarations(true).ignore_processing_instructions(true).trim_whitespace(false);
                    }
                    let cfg = c.into_config();
                    let make = || {
                        let r: IResult<&str, events::EventIter, E> =
                            if WAYS[i].starts_with("<!D") { events::markup_declaration(WAYS[i], &cfg) } else { events::content_item(WAYS[i], &cfg, MarkedSectionEndHandling::TreatAsText) };
                        match r {
                            Ok((_, it)) => it,
                            Err(_) => std::iter::empty().collect(),
                        }
                    };
                    let mut want = vec![];
                    let mut it = make();
                    while let Some(e) = it.next() {
                        want.push(e);
                    }
                    mc::walks::walk(&make, &want, 4, cx).map_err(|e| format!("{:?}: {}", WAYS[i], e))
                } else {
                    let n = idx as usize - WAYS.len() * 2;
                    let list: Vec<SgmlEvent> = (0..n).map(|i| SgmlEvent::Character(format!("t{}", i).into())).collect();
                    mc::walks::walk(&|| list.iter().cloned().collect::<events::EventIter>(), &list, 4, cx)
                }
            }
        },
    ));
    v.push(space("iterators", "iterators made of 0..=600 events, by hand", 601, || {
        |idx, cx: &mut Cx| {
            let n = idx as usize;
            let list: Vec<SgmlEvent> = (0..n).map(|i| SgmlEvent::Character(format!("t{}", i).into())).collect();
            note(|| format!("{} events", n));
            cx.state();
            cx.ops(n as u64);
            cx.checked();
            let want: Vec<Ev> = list.iter().map(Ev::of).collect();
            let made = || list.iter().cloned().collect::<events::EventIter>();
            if unroll(made())? != want {
                return Err(format!("{} events: different ones come out", n));
            }
            // Other ways through it
            let k = n / 3;
            let mut it = made();
            let a: Vec<Ev> = it.by_ref().take(k).map(|e| Ev::of(&e)).collect();
            let again: events::EventIter = it.collect();
            let b = unroll(again)?;
            if a != want[..k] || b != want[k..] {
                return Err(format!("{} events, {} taken first: different ones come out", n, k));
            }
            let mut it = made();
            let nth = it.nth(k).map(|e| Ev::of(&e));
            if nth.as_ref() != want.get(k) || it.len() != n.saturating_sub(k + 1) || made().count() != n || made().last().map(|e| Ev::of(&e)).as_ref() != want.last() {
                return Err(format!("{} events: skipping or counting goes wrong", n));
            }
            if made() != made() {
                return Err(format!("{} events: not equal to the same", n));
            }
            cx.outcome(&n);
            Ok(())
        }
    }));
    v
}

// ---------------------------------------------------------------------------------------------
// R03: what settings mean, on their own

fn settings(s: &str, cx: &mut Cx) -> Verdict {
    CONFIGS.with(|confs| {
        for (c, cfg) in confs {
            cx.ops(3);
            cx.checked();
            let got = cfg.trim(s);
            let want = if c.trim { model::trimmed(s) } else { s };
            if got != want || within(s, got).is_none() {
                return Err(format!("text: {:?}\nconfiguration: {:?}\ntrimmed\nexpected: {:?}\ngot: {:?}", s, c, want, got));
            }
            let none = |_: &str| None;
            for (prefix, r) in [('&', cfg.parse_rcdata::<E>(s)), ('%', cfg.parse_markup_declaration_text::<E>(s))] {
                let f: &dyn Fn(&str) -> Option<&'static str> = match prefix {
                    '&' if c.ents => &entity,
                    '%' if c.pents => &parameter_entity,
                    _ => &none,
                };
                let want = model::expand(s, prefix, f, &mut vec![]);
                let fine = match (&want, &r) {
                    (Ok(w), Ok(g)) => w == g,
                    (Err(u), Err(nom::Err::Error(e))) => within(s, e.input) == Some(u.range.start) && e.input.len() == u.range.len(),
                    _ => false,
                };
                cx.outcome(&(prefix, r.is_ok()));
                if !fine {
                    return Err(format!(
                        "text: {:?}\nconfiguration: {:?}\nreferences with {:?}\nexpected: {:?}\ngot: {:?}",
                        s, c, prefix, want.map_err(|u| (u.name, u.range)), r
                    ));
                }
            }
        }
        Ok(())
    })
}

fn names(s: &str, cx: &mut Cx) -> Verdict {
    for n in [Names::Same, Names::Lower, Names::Upper] {
        cx.ops(2);
        cx.checked();
        let want = model::normal(s, n);
        let a = naming(n).normalize(Cow::Borrowed(s));
        let b = naming(n).normalize(Cow::Owned(s.to_owned()));
        cx.outcome(&(n, want == s));
        if a != want || b != want {
            return Err(format!("name: {:?}\n{:?}\nexpected: {:?}\ngot: {:?} (owned: {:?})", s, n, want, a, b));
        }
        // Unless it was changed, it is not copied
        if want == s {
            if let Cow::Borrowed(a) = a {
                if within(s, a) != Some(0) {
                    return Err(format!("name: {:?}\n{:?} gives one from elsewhere", s, n));
                }
            }
        }
    }
    Ok(())
}

fn status_of(s: Status) -> MarkedSectionStatus {
    match s {
        Status::Include => MarkedSectionStatus::Include,
        Status::RcData => MarkedSectionStatus::RcData,
        Status::CData => MarkedSectionStatus::CData,
        Status::Ignore => MarkedSectionStatus::Ignore,
    }
}

fn keywords(s: &str, cx: &mut Cx) -> Verdict {
    cx.op();
    cx.checked();
    let want = model::keyword(s).map(status_of);
    let got = s.parse::<MarkedSectionStatus>();
    cx.outcome(&want.is_some());
    if got.as_ref().ok() != want.as_ref() {
        return Err(format!("keyword: {:?}\nexpected: {:?}\ngot: {:?}", s, want, got));
    }
    for ms in [Ms::Chars, Ms::All, Ms::Keep] {
        cx.op();
        let want = model::status(s, ms).map(status_of);
        let got = handling(ms).parse_keywords(s);
        cx.outcome(&(ms, want.is_some()));
        let fine = match (&want, &got) {
            (Some(w), Ok(g)) => w == g,
            // One that is not accepted
            (None, Err(k)) => within(s, k).is_some() && if ms == Ms::Chars { *k == s } else { model::keyword(k).is_none() && !k.is_empty() },
            _ => false,
        };
        if !fine {
            return Err(format!("keywords: {:?}\n{:?}\nexpected: {:?}\ngot: {:?}", s, ms, want, got));
        }
        if ms != Ms::Chars && MarkedSectionStatus::from_keywords(s) != got {
            return Err(format!("keywords: {:?}\n{:?} gives {:?}, but on their own they are {:?}", s, ms, got, MarkedSectionStatus::from_keywords(s)));
        }
    }
    Ok(())
}

fn r03(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        strings("texts", &[" ", "\t", "\r", "\n", "a", "&e;", "&", "#", "%inc;", "%", "x41;", "33", ";", "\u{a0}", "\u{c}", "é", "&u", "%self "], 4 + d, &[""], settings),
        strings("names", &["a", "B", "ß", "ı", "İ", "ǅ", "Σ", "σ", "ς", "É", "1", ".", "_", "ŉ", "ﬀ"], 5 + d, &[""], names),
        strings(
            "keywords",
            &["CDATA", "cdata", "RCDATA", "IGNORE", "Include", "TEMP", "FOO", " ", "\n", "\t", "\r", "\u{c}", "\u{a0}", "", "S", "%inc;", "İ", "ı"],
            5,
            &[""],
            keywords,
        ),
        space("characters", "every Unicode scalar value, alone and in words", 0x110000, || {
            let mut s = String::new();
            move |idx, cx: &mut Cx| {
                let c = match char::from_u32(idx as u32) {
                    Some(c) => c,
                    None => return Ok(()),
                };
                note(|| format!("{:?}", c));
                cx.state();
                for (pre, post) in [("", ""), ("a", ""), ("", "b"), ("A", "B")] {
                    s.clear();
                    s.push_str(pre);
                    s.push(c);
                    s.push_str(post);
                    names(&s, cx)?;
                }
                for (pre, post) in [("", ""), (" x", " "), ("&", "e;"), ("&e", "f;"), ("%i", "c;")] {
                    s.clear();
                    s.push_str(pre);
                    s.push(c);
                    s.push_str(post);
                    settings(&s, cx)?;
                }
                for (pre, post) in [("CDATA", ""), ("", "TEMP"), ("CDATA", "IGNORE"), ("IGN", "RE")] {
                    s.clear();
                    s.push_str(pre);
                    s.push(c);
                    s.push_str(post);
                    keywords(&s, cx)?;
                }
                Ok(())
            }
        }),
        space("statuses", "all pairs of statuses, their order, default and keywords", 16, || {
            |idx, cx: &mut Cx| {
                const ALL: [MarkedSectionStatus; 4] = [MarkedSectionStatus::Include, MarkedSectionStatus::RcData, MarkedSectionStatus::CData, MarkedSectionStatus::Ignore];
                const WORDS: [&str; 4] = ["INCLUDE", "RCDATA", "CDATA", "IGNORE"];
                let (i, j) = (idx as usize / 4, idx as usize % 4);
                cx.state();
                cx.op();
                cx.checked();
                let (a, b) = (ALL[i], ALL[j]);
                let of = |s: &str| MarkedSectionStatus::from_keywords(s).ok();
                let fine = a.cmp(&b) == i.cmp(&j)
                    && (a == b) == (i == j)
                    && of(&format!("{} {}", WORDS[i], WORDS[j])) == Some(a.max(b))
                    && of("") == Some(MarkedSectionStatus::default())
                    && of("") == Some(ALL[0])
                    && MarkedSectionHandling::default() == MarkedSectionHandling::AcceptOnlyCharacterData
                    && NameNormalization::default() == NameNormalization::Unchanged;
                cx.outcome(&idx);
                if fine {
                    Ok(())
                } else {
                    Err(format!("{:?} and {:?}: order or priority is wrong", a, b))
                }
            }
        }),
    ];
    let t: &[&str] = &["§", " §", "§x ", "&§;", "&e§", "%§;", "a&§;b%§;c§", "&#§;"];
    v.push(holes("fill-words", t, fills::words(true), settings));
    v.push(holes("fill-ascii", t, fills::ascii_pairs(), settings));
    v.push(holes("fill-repeated", t, fills::repeats(REPEATED, 140, 5000), settings));
    let t: &[&str] = &["§", "a§", "§B"];
    v.push(holes("fill-words-names", t, fills::words(true), names));
    v.push(holes("fill-repeated-names", t, fills::repeats(&["a", "É", "ǅx", "ß"], 300, 5000), names));
    let t: &[&str] = &["§", "CDATA§", "§ TEMP", "IGNORE§CDATA", "TEMP §INCLUDE"];
    v.push(holes("fill-words-keywords", t, fills::words(true), keywords));
    v.push(holes("fill-ascii-keywords", t, fills::ascii_pairs(), keywords));
    v.push(holes("fill-repeated-keywords", t, fills::repeats(&[" ", "CDATA ", "RCDATA TEMP ", "IGNORE\n", "C"], 140, 5000), keywords));
    let _ = DEFAULT;
    v
}

const ASSUME: &[&str] = &[
    "Nothing is said about inputs beyond the listed alphabets and lengths",
    "Rust's Unicode tables (char::is_alphabetic and so on) are taken as given",
];

fn main() {
    engine::main(&[
        Property { id: "R01", assumptions: ASSUME, spaces: r01, probes: &[] },
        Property { id: "R02", assumptions: ASSUME, spaces: r02, probes: &[] },
        Property { id: "R03", assumptions: ASSUME, spaces: r03, probes: &[] },
    ])
}
