//! Properties of the parser (P..).
use mc::conf::{Conf, Ms, Names, DEFAULT};
use mc::engine::{self, note, space, Cx, Property, Seqs, Space, Verdict};
use mc::fills::{self, Fills};
use mc::refparse::{self as model, Bad, Ev};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};

type Real<'a> = sgmlish::Result<SgmlFragment<'a>>;

fn show(r: &Real) -> String {
    match r {
        Ok(f) => format!("Ok({:?})", f.as_slice()),
        Err(e) => format!("Err({})", e),
    }
}

fn fail(input: &str, c: &Conf, what: &str, expected: &dyn std::fmt::Debug, got: &Real) -> Verdict {
    Err(format!(
        "input: {:?}\nconfiguration: {:?}\n{}\nexpected: {:?}\ngot: {}",
        input,
        c,
        what,
        expected,
        show(got)
    ))
}

fn parsers(confs: &[Conf]) -> Vec<(Conf, Parser)> {
    confs.iter().map(|c| (*c, c.parser())).collect()
}

/// A space with every sequence of `toks`, between `pre` and `post`, under each configuration.
fn seqs<F>(
    name: &str,
    what: &str,
    toks: &'static [&'static str],
    pre: &'static str,
    post: &'static str,
    (min, max): (u32, u32),
    confs: Vec<Conf>,
    judge: F,
) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let s = Seqs::new(toks.len(), min, max);
    let bound = format!(
        "{}: all sequences of {}..={} of {:?}, after {:?} and before {:?}, under {} configurations",
        what,
        min,
        max,
        toks,
        pre,
        post,
        confs.len()
    );
    space(name, bound, s.len(), move || {
        let ps = parsers(&confs);
        let mut seq = vec![];
        let mut input = String::new();
        move |idx, cx: &mut Cx| {
            s.decode(idx, &mut seq);
            input.clear();
            input.push_str(pre);
            for &t in &seq {
                input.push_str(toks[t]);
            }
            input.push_str(post);
            for (c, p) in &ps {
                note(|| format!("{:?} under {:?}", input, c));
                cx.state();
                judge(&input, c, p, cx)?;
            }
            cx.sample(|| format!("{:?}", input));
            Ok(())
        }
    })
}

/// A space with each template (in which `§` is a hole) with each of the strings in its holes,
/// under each configuration.
fn holes<F>(name: &str, templates: &'static [&'static str], fills: Fills, confs: Vec<Conf>, judge: F) -> Space
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    let bound = format!("{:?}, with {} in place of §, under {} configurations", templates, fills.what, confs.len());
    let list = std::sync::Arc::new(fills.list);
    let n = list.len() as u64;
    space(name, bound, n * templates.len() as u64, move || {
        let ps = parsers(&confs);
        let parts: Vec<Vec<&str>> = templates.iter().map(|t| fills::holes(t)).collect();
        let list = list.clone();
        let mut input = String::new();
        move |idx, cx: &mut Cx| {
            fills::fill(&parts[(idx / n) as usize], &list[(idx % n) as usize], &mut input);
            for (c, p) in &ps {
                note(|| format!("{:?} under {:?}", input, c));
                cx.state();
                judge(&input, c, p, cx)?;
            }
            cx.sample(|| format!("{:?}", input));
            Ok(())
        }
    })
}

/// The usual families: pairs of characters, words, odd characters and repetitions in the holes.
fn sweep<F>(templates: &'static [&'static str], confs: Vec<Conf>, judge: F) -> Vec<Space>
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    vec![
        holes("fill-words", templates, fills::words(true), confs.clone(), judge),
        holes("fill-ascii", templates, fills::ascii_pairs(), confs.clone(), judge),
        holes("fill-characters", templates, fills::odd_scalars(), confs.clone(), judge),
        holes("fill-delimiters", templates, fills::delimiters(4), confs.clone(), judge),
        holes("fill-huge", templates, fills::huge(REPEATED), confs.clone(), judge),
        holes("fill-repeated", templates, fills::repeats(REPEATED, 140, 5000), confs, judge),
    ]
}

const REPEATED: &[&str] = &["a", "A1", "é", " ", "\n", "-", "'", "<b>", "</b>", "&e;", "]", " c='d'", "<!-- x -->", "<?p>"];

fn parse<'a>(p: &Parser, input: &'a str, cx: &mut Cx) -> Real<'a> {
    cx.op();
    p.parse(input)
}

fn outcome(cx: &mut Cx, r: &Real) {
    match r {
        Ok(f) => {
            let kinds: Vec<std::mem::Discriminant<SgmlEvent>> =
                f.iter().map(std::mem::discriminant).collect();
            cx.outcome(&kinds)
        }
        Err(e) => cx.outcome(&e.to_string().lines().next().unwrap_or("").to_owned()),
    }
}

/// Full agreement with the model.
fn conform(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let want = model::parse(input, c);
    if want == Err(Bad::Unspecified) {
        return Ok(());
    }
    let got = parse(p, input, cx);
    outcome(cx, &got);
    cx.checked();
    match (&want, &got) {
        (Ok(w), Ok(g)) if model::same(w, g) => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => fail(input, c, "the events differ from what the model says", &want, &got),
    }
}

/// Agreement with the model, also on what is undefined and where, on keywords that are not valid,
/// and on the names that are looked up.
fn conform_refs(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let m = model::parse_full(input, c);
    if m.result == Err(Bad::Unspecified) {
        return Ok(());
    }
    mc::conf::take_calls();
    let got = parse(p, input, cx);
    let calls = mc::conf::take_calls();
    outcome(cx, &got);
    cx.checked();
    match (&m.result, &got) {
        (Ok(w), Ok(g)) if model::same(w, g) => {
            // In kept sections there may be lookups or not
            if c.ents && c.ms != Ms::Keep && !calls.is_empty() && calls != m.calls {
                return fail(input, c, &format!("lookups: {:?}", calls), &m.calls, &got);
            }
            Ok(())
        }
        (Err(bad), Err(e)) => {
            let text = e.to_string();
            let head = text.lines().next().unwrap_or("");
            let (what, at) = match bad {
                Bad::Entity(n) => (format!("entity '{}' is not defined", n), m.undefined_at),
                Bad::Keyword(k) => (format!("invalid marked section keyword: {}", k), None),
                _ => return Ok(()),
            };
            if !text.contains(&what) {
                return fail(input, c, "the error does not name what is wrong", &what, &got);
            }
            if let Some(at) = at {
                let line = input[..at].matches('\n').count() + 1;
                if !head.contains(&format!("line {}:", line)) {
                    return fail(input, c, "the wrong line is reported", &line, &got);
                }
            }
            Ok(())
        }
        _ => fail(input, c, "the events differ from what the model says", &m.result, &got),
    }
}

const PLACES_ALL: &[&str] = &[
    "§", "<a>§</a>", "<a>x§y</a>", "x<§>y", "<§>", "<a§>", "<a §>", "<a b§>", "<a b=§>", "<a b=§ c>", "<a b='§'>", "<a b=\"§\" c=d>", "<a/§>",
    "<a></a§>", "<a></§>", "x<!--§-->y", "<!--§--><a>", "x<!§>y", "<!§><a>", "<!D§><a>", "<!D §><a>", "<!D '§'><a>", "<!D [§]><a>", "<?§>x", "x<?§>y",
    "<![§[x]]>y", "<![CDATA[§]]>y", "<![RCDATA[§]]>y", "<![IGNORE[§]]>y", "<![INCLUDE[§]]>y", "<a>&§;</a>", "<a>&e§</a>", "&#§;x", "&#x§;x", "x<§",
    "§<a>", "<a>§", "<a>\n§\n<b>§</b></a>", "<§a§ b§='§'>§</§a§>", "<a b = §>", "<a b='§' b='§' §>", "<a>x</a>§", "<?p>§<!D>§<a>",
];

fn three_confs() -> Vec<Conf> {
    vec![DEFAULT, Conf { names: Names::Lower, ..small_conf(false, Ms::All) }, small_conf(true, Ms::Keep)]
}

const DOC: &[&str] = &[
    "<a>", "</a>", "x", " ", "<b c=d>", "<B C='&e;' D>", "<c/>", "<>", "</>", "</B\n>", "&e;",
    "&#65;", "&u;", "<!-- <c> -->", "<!>", "<?p q>", "<!D x [ <!E '>'> ] >", "<![CDATA[",
    "<![rcdata[", "<![IGNORE[", "<![INCLUDE[", "<![ %two; [", "]]>", "<", ">",
];

const CHARS: &[&str] = &[
    "a", "<", ">", "/", "!", "-", "?", "[", "]", " ", "=", "'", "&", ";",
];

const TAG: &[&str] = &[
    "b", "C", "é", "1", " ", "\n", "=", "'", "\"", "/", ">", "<", "-", "&e;", "&u;",
];

fn small_conf(trim: bool, ms: Ms) -> Conf {
    Conf {
        trim,
        ms,
        ents: true,
        pents: true,
        ..DEFAULT
    }
}

// ---------------------------------------------------------------------------------------------
// P01: totality

fn survives(input: &str, _c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let r = parse(p, input, cx);
    outcome(cx, &r);
    match r {
        Ok(f) => {
            cx.op();
            std::hint::black_box(f.to_string());
        }
        Err(e) => {
            cx.op();
            let s = e.to_string();
            if s.is_empty() {
                return Err(format!("input: {:?}\nthe error has an empty description", input));
            }
        }
    }
    cx.checked();
    Ok(())
}

const WILD: &[&str] = &[
    "<", ">", "!", "-", "[", "]", "?", "/", "&", "#", ";", "'", "\"", "=", "a", "é", "\u{0}",
    "\n", "\r", "%", "\u{1F600}", "ǅ",
];

const LINE_TAILS: &[&str] = &[
    "<a ", "<a b='", "<!-- ", "<![CDATA[ ]", "<![ FOO [", "&u;", "<a b='&u;'>", "</a ", "<?x",
    "<!D '", "<", "<a>\r\nb", "<![IGNORE[<![a", "\n", "\r", "<a\u{301}", "<![INCLUDE[",
];

fn families() -> Vec<(&'static str, fn(usize) -> String, &'static [usize])> {
    const SMALL: &[usize] = &[0, 1, 2, 3, 5, 8, 16, 33, 64, 100, 150, 200];
    const BIG: &[usize] = &[0, 1, 2, 10, 100, 1000, 5000, 10000];
    vec![
        ("elements", |n| "<a>".repeat(n) + "x" + &"</a>".repeat(n), BIG),
        ("unclosed elements", |n| "<a>".repeat(n), BIG),
        ("end tags", |n| "</a>".repeat(n), BIG),
        ("attributes", |n| format!("<a{}>", " b='c'".repeat(n)), BIG),
        ("comments", |n| "<!-- a -->".repeat(n) + "<a>", BIG),
        ("comments in one", |n| format!("<!{}><a>", "-- a --".repeat(n)), BIG),
        ("instructions", |n| "<?a>".repeat(n) + "<a>", BIG),
        ("declarations", |n| "<!D a>".repeat(n) + "<a>", BIG),
        ("references", |n| "<a>".to_owned() + &"&e;".repeat(n), BIG),
        ("ampersands", |n| "<a>".to_owned() + &"&".repeat(n), BIG),
        ("less-thans", |n| "<a>".to_owned() + &"<".repeat(n), BIG),
        ("hyphens", |n| format!("<!D {}>", "- ".repeat(n)), BIG),
        ("brackets", |n| "<a>".to_owned() + &"]]>".repeat(n), BIG),
        ("closed sections", |n| "<a>".to_owned() + &"<![CDATA[x]]>".repeat(n), BIG),
        ("include sections", |n| "<a>".to_owned() + &"<![INCLUDE[x]]>".repeat(n), BIG),
        ("ignore pairs", |n| format!("<a><![IGNORE[{}]]>", "<![ x ]]>".repeat(n)), BIG),
        ("ignore nested", |n| {
            format!("<a><![IGNORE[{}{}]]>", "<![".repeat(n), "]]>".repeat(n))
        }, BIG),
        ("ignore unclosed", |n| format!("<a><![IGNORE[{}", "<![".repeat(n)), SMALL),
        ("include nested", |n| {
            "<a>".to_owned() + &"<![INCLUDE[".repeat(n) + "x" + &"]]>".repeat(n)
        }, SMALL),
        ("include unclosed", |n| "<a>".to_owned() + &"<![INCLUDE[x".repeat(n), SMALL),
        ("subset brackets", |n| format!("<!D {}{}><a>", "[".repeat(n), "]".repeat(n)), SMALL),
        ("subset unclosed", |n| format!("<!D {}", "[".repeat(n)), SMALL),
        ("subset declarations", |n| {
            format!("<!D {}{}><a>", "[<!E ".repeat(n), ">]".repeat(n))
        }, SMALL),
        ("long name", |n| format!("<{}>", "a".repeat(n)), BIG),
        ("long char ref", |n| format!("<a>&#{};", "9".repeat(n)), BIG),
        ("long hex ref", |n| format!("<a>&#x{};", "f".repeat(n)), BIG),
        ("long line, bad end", |n| format!("{}<a ", "é".repeat(n)), BIG),
        ("many lines, bad end", |n| format!("<a>{}<a ", "é\n".repeat(n)), BIG),
    ]
}

/// What may open or close something, for nesting.
const NESTING: &[&str] = &["[", "]", "<!D ", ">", "'", "--", "<![INCLUDE[", "]]>", "<![", "?", "x", " ", "&u;", "<a ", "=", "<!--"];
const NESTED_IN: &[(&str, &str)] = &[("<!D ", ">"), ("<!D ", ""), ("<a>", ""), ("<a ", ">"), ("<a b='", "'>"), ("<a><![INCLUDE[", "]]>"), ("<a><![IGNORE[", "]]>"), ("<a><![%", "")];

/// Nestings, which take forever to parse when each level is parsed more than once.
fn nestings(thorough: bool, confs: Vec<Conf>) -> Space {
    let depth = if thorough { 40 } else { 26 };
    let sides = Seqs::new(NESTING.len(), 0, 2);
    let k = sides.len();
    let n = k * k * NESTED_IN.len() as u64;
    space(
        "nestings",
        format!(
            "{} times each 0..=2 of {:?}, then x, then {} times each 0..=2 of them, in each of {:?}, under {} configurations",
            depth, NESTING, depth, NESTED_IN, confs.len()
        ),
        n,
        move || {
            let ps = parsers(&confs);
            let mut seq = vec![];
            let mut side = move |i: u64| {
                sides.decode(i, &mut seq);
                seq.iter().map(|t| NESTING[*t]).collect::<String>()
            };
            move |idx, cx: &mut Cx| {
                let (pre, post) = NESTED_IN[(idx % NESTED_IN.len() as u64) as usize];
                let i = idx / NESTED_IN.len() as u64;
                let input = format!("{}{}x{}{}", pre, side(i % k).repeat(depth), side(i / k).repeat(depth), post);
                note(|| format!("{:?}", input));
                for (c, p) in &ps {
                    cx.state();
                    survives(&input, c, p, cx)?;
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    )
}

fn p01(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![
        DEFAULT,
        small_conf(false, Ms::All),
        small_conf(true, Ms::Keep),
    ];
    let mut v = vec![
        seqs("chars", "arbitrary text", WILD, "", "", (0, 4 + d), confs.clone(), survives),
        seqs("chars-in-element", "arbitrary text in an element", WILD, "<a>", "", (0, 4), confs.clone(), survives),
        seqs("chars-in-tag", "arbitrary text in a tag", TAG, "<a", "", (0, 4 + d), confs.clone(), survives),
        seqs("markup", "markup", DOC, "", "", (0, 4), confs.clone(), survives),
        seqs("chars-in-declaration", "arbitrary text in a declaration", WILD, "<!D", "", (0, 4), confs.clone(), survives),
        seqs("chars-in-section", "arbitrary text in a section", WILD, "<a><![", "", (0, 4), confs.clone(), survives),
    ];
    // Long lines
    let units: &'static [&'static str] = &["a", "é", "漢", "\u{1F600}", "\t", "a\u{301}", "\r", "é "];
    let tails = LINE_TAILS;
    let max = 140u64;
    let n = units.len() as u64 * tails.len() as u64 * (max + 1) * 4;
    let cs = confs.clone();
    v.push(space(
        "long-lines",
        format!(
            "lines of 0..={} repetitions of each of {:?}, then each of {:?}, then 0, 1, 50 or 90 more characters",
            max, units, tails
        ),
        n,
        move || {
            let ps = parsers(&cs);
            move |idx, cx: &mut Cx| {
                let after = [0, 1, 50, 90][(idx % 4) as usize];
                let i = idx / 4;
                let tail = tails[(i % tails.len() as u64) as usize];
                let i = i / tails.len() as u64;
                let unit = units[(i % units.len() as u64) as usize];
                let reps = (i / units.len() as u64) as usize;
                let input = unit.repeat(reps) + tail + &"ü".repeat(after);
                note(|| format!("{:?}", input));
                for (c, p) in &ps {
                    cx.state();
                    survives(&input, c, p, cx)?;
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    ));
    v.push(nestings(thorough, vec![DEFAULT, small_conf(false, Ms::All)]));
    // Sizes
    let fams = families();
    let list: Vec<(usize, usize)> = fams
        .iter()
        .enumerate()
        .flat_map(|(i, f)| f.2.iter().map(move |&n| (i, n)))
        .collect();
    let names: Vec<&str> = fams.iter().map(|f| f.0).collect();
    v.push(space(
        "sizes",
        format!("repetitions of {:?}, up to 10000 times (200 for nested INCLUDE sections and declaration subsets)", names),
        list.len() as u64,
        move || {
            let ps = parsers(&confs);
            let fams = families();
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let (f, n) = list[idx as usize];
                let input = (fams[f].1)(n);
                note(|| format!("{} x {}", fams[f].0, n));
                for (c, p) in &ps {
                    cx.state();
                    survives(&input, c, p, cx)
                        .map_err(|m| format!("{} x {}: {}", fams[f].0, n, m))?;
                }
                cx.sample(|| format!("{} x {}", fams[f].0, n));
                Ok(())
            }
        },
    ));
    v.extend(sweep(PLACES_ALL, vec![DEFAULT, small_conf(false, Ms::All)], survives));
    v.push(holes("fill-all-characters", &["<a §", "<a>&u§;", "<§"], fills::scalars(), vec![DEFAULT], survives));
    v
}

const P01_PROBES: &[engine::Probe] = &[
    engine::Probe {
        name: "deep-include",
        what: "30000 nested INCLUDE marked sections overflow the stack",
        run: || {
            let n = 30000;
            let s = "<a>".to_owned() + &"<![INCLUDE[".repeat(n) + "x" + &"]]>".repeat(n);
            let _ = Parser::builder().expand_marked_sections().parse(&s);
        },
    },
    engine::Probe {
        name: "deep-subset-brackets",
        what: "100000 nested [ in a markup declaration overflow the stack",
        run: || {
            let n = 100000;
            let s = format!("<!D {}{}><a>", "[".repeat(n), "]".repeat(n));
            let _ = sgmlish::parse(&s);
        },
    },
    engine::Probe {
        name: "deep-subset-declarations",
        what: "30000 markup declarations nested in declaration subsets overflow the stack",
        run: || {
            let n = 30000;
            let s = format!("<!D {}{}><a>", "[<!E ".repeat(n), ">]".repeat(n));
            let _ = sgmlish::parse(&s);
        },
    },
    engine::Probe {
        name: "deep-ignore",
        what: "30000 nested pairs in an IGNORE marked section",
        run: || {
            let n = 30000;
            let s = format!("<a><![IGNORE[{}{}]]>", "<![".repeat(n), "]]>".repeat(n));
            let _ = Parser::builder().expand_marked_sections().parse(&s);
        },
    },
];

// ---------------------------------------------------------------------------------------------
// P02: the events of a document

fn p02(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        seqs("markup-all-configurations", "documents", DOC, "", "", (0, 3), Conf::all(), conform),
        seqs("markup", "documents", DOC, "", "", (4, 4 + d), Conf::few(), conform),
        seqs("chars", "documents", CHARS, "", "", (0, 5 + d), Conf::few()[..if thorough { 3 } else { 3 }].to_vec(), conform),
        seqs("tag-chars", "start tags", TAG, "<a", ">", (0, 5), vec![DEFAULT, Conf { names: Names::Lower, ents: true, ..DEFAULT }], conform),
        seqs("end-tag-chars", "end tags", TAG, "<a></", ">x", (0, 4), vec![DEFAULT, Conf { names: Names::Upper, ..DEFAULT }], conform),
        seqs("declaration-chars", "declarations",
            &["a", " ", "\n", "-", "--", "'", "\"", "[", "]", "<!E", ">", "<", "%"],
            "<!D", "><a>", (0, 5), vec![DEFAULT, Conf { ignore_decls: true, ..DEFAULT }], conform),
        seqs("instruction-chars", "processing instructions",
            &["a", " ", "?", "'", "\"", "<", "--", ">", "]]>", "&u;"],
            "<a>x<?", ">y", (0, 4), vec![DEFAULT, Conf { ignore_pis: true, ..small_conf(false, Ms::All) }], conform),
    ];
    if thorough {
        v.push(seqs("tag-chars-long", "start tags", &TAG[..12], "<a ", "", (6, 6), vec![DEFAULT], conform));
    }
    let deep = fills::nested(
        &[("[", "x", "]"), ("[<!E ", "'>'", ">]"), ("[<!E [", "--]--", "]>]"), ("x[ 'y' ", "", "]"), ("[--x--", "", "\"]\"]"), ("[[", "]", "]"), ("[", "[", "]")],
        50,
        64,
    );
    v.push(holes("depths-of-subsets", &["<!D §><a>", "<!D § [§]\n><a>x", "<!D§>§", "<!D [§><a>"], deep, three_confs(), conform));
    let many = fills::repeats(
        &["<b c>", "</b>", "<b/>x", " c='d>'", " c=d", "\nc", "<!E 'x' [y]>", "<?p >", "<![CDATA[<]]>", "<![IGNORE[<]]>", "<![INCLUDE[x<b>]]>", "<", "<>", "</>", "]]>", "-", "[]", "'x' ", "é", "\r\n"],
        140,
        1100,
    );
    v.push(holes("many", &["§", "<a>§</a>", "<a §>", "<a\n§/>x", "<!D §><a>", "<!D [§]><a>", "§<a>", "<a>x§", "<?§><a>"], many, three_confs(), conform));
    v.extend(sweep(PLACES_ALL, three_confs(), conform));
    v.push(holes("fill-all-characters", &["<a>x<§y>z</a>", "<a b=§ c§>&e§;</a>"], fills::scalars(), vec![small_conf(true, Ms::All)], conform));
    v
}

// ---------------------------------------------------------------------------------------------
// P03: the shape of event lists

/// A name, as written or in another case (which may be spelled with characters names do not have,
/// like the dot of "i\u{307}" for "\u{130}").
fn valid_name_under(n: &str, c: &Conf) -> bool {
    valid_name(n) || (c.names != Names::Same && !n.is_ascii() && n.chars().all(|x| !x.is_ascii() || model::name_char(x)))
}

fn valid_name(n: &str) -> bool {
    let mut cs = n.chars();
    match cs.next() {
        None => return true,
        Some(c) if model::name_start(c) => {}
        _ => return false,
    }
    cs.all(model::name_char)
}

fn shape(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let got = parse(p, input, cx);
    outcome(cx, &got);
    let f = match &got {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    cx.checked();
    let bad = |w: &str| fail(input, c, w, &"a well-formed list of events", &got);
    let mut in_tag = None::<bool>; // Some(whether the tag is an empty one)
    if f.len() != f.as_slice().len() {
        return bad("wrong length");
    }
    for e in f.iter() {
        match e {
            SgmlEvent::OpenStartTag { name } => {
                if in_tag.is_some() {
                    return bad("a start tag within a start tag");
                }
                if !valid_name_under(name, c) {
                    return bad("not a name");
                }
                in_tag = Some(name.is_empty());
            }
            SgmlEvent::Attribute { name, .. } => {
                if in_tag != Some(false) {
                    return bad("an attribute outside of a start tag, or in an empty one");
                }
                if name.is_empty() || !valid_name_under(name, c) {
                    return bad("not an attribute name");
                }
            }
            SgmlEvent::CloseStartTag => {
                if in_tag.take().is_none() {
                    return bad("the end of a start tag outside of one");
                }
            }
            SgmlEvent::XmlCloseEmptyElement => {
                if in_tag.take() != Some(false) {
                    return bad("the end of an XML-style empty element outside of one");
                }
            }
            _ if in_tag.is_some() => return bad("an unfinished start tag"),
            SgmlEvent::EndTag { name } => {
                if !valid_name_under(name, c) {
                    return bad("not a name");
                }
            }
            SgmlEvent::ProcessingInstruction(s) => {
                if c.ignore_pis {
                    return bad("an ignored processing instruction");
                }
                if !s.starts_with("<?") || s.find('>') != Some(s.len() - 1) {
                    return bad("not a processing instruction");
                }
            }
            SgmlEvent::MarkupDeclaration { keyword, body } => {
                if c.ignore_decls {
                    return bad("an ignored declaration");
                }
                if keyword.is_empty() || !valid_name(keyword) || model::trimmed(body) != body {
                    return bad("not a declaration");
                }
            }
            SgmlEvent::MarkedSection { .. } => {
                if c.ms != Ms::Keep {
                    return bad("a marked section that should have been expanded");
                }
            }
            SgmlEvent::Character(_) => {}
        }
    }
    if in_tag.is_some() {
        return bad("an unfinished start tag");
    }
    Ok(())
}

fn p03(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut v = vec![
        seqs("markup", "documents", DOC, "", "", (0, 4 + d), Conf::few(), shape),
        seqs("tag-chars", "start tags", TAG, "<a", "", (0, 5 + d), vec![DEFAULT, Conf { names: Names::Upper, ..DEFAULT }], shape),
        seqs("chars", "documents", CHARS, "", "", (0, 5), vec![DEFAULT, small_conf(false, Ms::All)], shape),
    ];
    v.extend(sweep(PLACES_ALL, Conf::few(), shape));
    v
}

// ---------------------------------------------------------------------------------------------
// P04: what is text and what is markup

fn text_vs_markup(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // <a>TEXT</a>
    let body = &input[3..input.len() - 4];
    let got = parse(p, input, cx);
    outcome(cx, &got);
    cx.checked();
    let full = &input[3..];
    let first = (0..=body.len())
        .filter(|&i| full.is_char_boundary(i))
        .find(|&i| model::is_markup(&full[i..]))
        .unwrap_or(full.len());
    let text = if c.trim {
        model::trimmed(&full[..first])
    } else {
        &full[..first]
    };
    let f = match &got {
        Ok(f) => f.as_slice(),
        Err(_) if first < body.len() => return Ok(()), // the markup may be invalid
        Err(_) => return fail(input, c, "text is rejected", &text, &got),
    };
    let mut want = vec![Ev::Open("a".into()), Ev::Close];
    if !text.is_empty() {
        want.push(Ev::Text(text.to_owned()));
    }
    let exact = first == body.len();
    if exact {
        want.push(Ev::End("a".into()));
    }
    let prefix_ok = f.len() >= want.len() && want.iter().zip(f).all(|(w, e)| w.eq(e));
    if !prefix_ok || (exact && f.len() != want.len()) {
        return fail(input, c, "text and markup are told apart wrongly", &want, &got);
    }
    if !exact {
        // What follows must not be text, unless it is from a marked section or after a comment
        let next_is_text = matches!(f.get(want.len()), Some(SgmlEvent::Character(_)));
        let r = &full[first..];
        if next_is_text && !(r.starts_with("<!") || (r.starts_with("<?") && c.ignore_pis)) {
            return fail(input, c, "markup is delivered as text", &want, &got);
        }
    }
    Ok(())
}

fn p04(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![DEFAULT, Conf { trim: false, ..DEFAULT }];
    let mut v = vec![
        seqs("chars", "text",
            &["<", "/", "!", "?", ">", "a", "é", "1", "-", "[", "]", " ", "=", "'"],
            "<a>", "</a>", (0, 5 + d), confs.clone(), text_vs_markup),
        seqs("after-lt", "text",
            &["<", "<!", "</", "<\u{301}", "<_", "<ª", "<Ⅷ", "<²", "<.", "<:", "<#", "<%", "<&;", "<(", "<\"", "<\n", "x", "\u{a0}", "]]>", "<٣", "<漢", "<ǅ"],
            "<a>", "</a>", (0, 4), confs, text_vs_markup),
    ];
    v.extend(sweep(TEXT_PLACES, vec![DEFAULT, small_conf(false, Ms::All)], text_vs_markup_plain));
    v.push(holes("fill-all-characters", &["<a>x<§y z</a>", "<a>x</§y z</a>", "<a>x<!§y z</a>"], fills::scalars(), vec![DEFAULT], text_vs_markup_plain));
    v
}

// ---------------------------------------------------------------------------------------------
// P05: comments

fn comments_vanish(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // The input has U+1 wherever a comment goes; a processing instruction is used as reference,
    // as it also goes anywhere, and splits text the same way
    const STAND_IN: &str = "<?\u{2}>";
    let plain = input.replace('\u{1}', STAND_IN);
    cx.op();
    let want: Result<Vec<Ev>, ()> = p
        .parse(&plain)
        .map(|f| {
            Ev::all(&f)
                .into_iter()
                .filter(|e| *e != Ev::Pi(STAND_IN.to_owned()))
                .collect()
        })
        .map_err(|_| ());
    for com in COMMENTS {
        let text = input.replace('\u{1}', com);
        let got = parse(p, &text, cx);
        outcome(cx, &got);
        cx.checked();
        let ok = match (&want, &got) {
            (Ok(w), Ok(g)) => model::same(w, g),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !ok {
            return fail(&text, c, "a comment affects the events", &want, &got);
        }
    }
    Ok(())
}

const COMMENTS: &[&str] = &[
    "<!-- c -->",
    "<!>",
    "<!---->",
    "<!-- <b x='> &u; ]]> <![ <? - > -->",
    "<!-- a -- -- b --\n\t--c-->",
];

fn p05(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![
        small_conf(true, Ms::All),
        small_conf(false, Ms::All),
    ];
    let com = [
        DEFAULT,
        Conf { trim: false, ..DEFAULT },
    ];
    let mut v = vec![
        seqs("placement", "documents with comments (U+1)",
            &["\u{1}", "<a>", "</a>", "x", " ", "<c d/>", "<?p>", "<!D>", "<![INCLUDE[", "]]>", "<![CDATA[y]]>", "<"],
            "", "", (0, 5 + d), confs, comments_vanish),
        seqs("body-chars", "comment text",
            &["-", "--", ">", "<", "!", "a", " ", "\n", "&u;", "'", "]]>"],
            "<a>x<!--", "-->y</a>", (0, 5), com.to_vec(), conform),
        seqs("body-chars-in-prolog", "comment text",
            &["-", "--", ">", "<!", "a", " ", "'"],
            "<!--", "--><a>", (0, 5 + d), com.to_vec(), conform),
        seqs("declaration-comments", "comments in declarations",
            &["-", "--", ">", "<", "a", " ", "'", "\"", "[", "]"],
            "<!D --", "--><a>", (0, 4 + d), com.to_vec(), conform),
    ];
    let many = fills::repeats(&["--'>--", "-- x --\n", "---- ", "<!---->", "<!-- ' -->", "<!>", "<!>\n<?p>"], 140, 1100);
    v.push(holes("many", &["<!D x §><a>", "<!D [ § ]><a>", "<!D [ <!E § > ] ><a>", "<a>x<!--y--§>z", "<a>x<!§>z", "§<a>", "<!D>§<a>x", "<a>x§y", "<a/>§", "<![INCLUDE[§x§]]>§", "<a b='§'>"], many, vec![DEFAULT, small_conf(false, Ms::All)], conform));
    v.extend(sweep(COMMENT_PLACES, vec![DEFAULT, small_conf(false, Ms::All)], conform));
    v
}

// ---------------------------------------------------------------------------------------------
// P06: unfinished constructs

/// (construct, length of the part that already identifies it, whether it is only for INCLUDE)
const CONSTRUCTS: &[(&str, usize)] = &[
    ("<name attr = val other='a>b' third=\"&e;\" flag>", 2),
    ("<b/>", 2),
    ("<b c='/>'/>", 2),
    ("</name >", 3),
    ("<!-- a > b -- -- c -->", 3),
    ("<?pi a='b'>", 2),
    ("<![CDATA[ a ]] ]> > ]]>", 3),
    ("<![RCDATA[ a ]]>", 3),
    ("<![ IGNORE [ a <![ b ]]> c ]]>", 3),
    ("<![ INCLUDE [ a <c d='e'> <![CDATA[ f ]]> ]]>", 3),
    ("<![INCLUDE[<![INCLUDE[<![IGNORE[]]>]]>]]>", 3),
];

const PROLOG_CONSTRUCTS: &[(&str, usize)] = &[
    ("<!DOCTYPE a '>' [ <!ENTITY b \"c\"> -- > -- ] - -- > -- >", 3),
    ("<!-- a -->", 3),
    ("<!>", 3),
    ("<?pi>", 2),
    ("<![CDATA[a]]>", 3),
    ("<![IGNORE[<!D>]]>", 3),
];

fn p06(thorough: bool) -> Vec<Space> {
    let mut cases: Vec<(String, usize, bool)> = vec![];
    for (k, n) in CONSTRUCTS {
        for cut in *n..k.len() {
            cases.push((k[..cut].to_owned(), 0, false));
        }
    }
    for (k, n) in PROLOG_CONSTRUCTS {
        for cut in *n..k.len() {
            cases.push((k[..cut].to_owned(), 0, true));
        }
    }
    const BEFORE: &[&str] = &[
        "<a>", "x", " ", "</a>", "<b c=d>", "<!-- c -->", "<?p>", "<![CDATA[ y ]]>",
        "<![INCLUDE[", "<![INCLUDE[z", "<!D>", "\n", "<", "<![INCLUDE[<!>", "<c/>",
    ];
    let s = Seqs::new(BEFORE.len(), 0, if thorough { 4 } else { 3 });
    let total = s.len() * cases.len() as u64;
    let n = cases.len();
    let mut v = vec![space(
        "cuts",
        format!(
            "each of {:?} and (in prologs) {:?} cut at every byte past where it is recognizable ({} cuts), after all sequences of 0..={} of {:?}",
            CONSTRUCTS.iter().map(|c| c.0).collect::<Vec<_>>(),
            PROLOG_CONSTRUCTS.iter().map(|c| c.0).collect::<Vec<_>>(),
            n,
            s.max,
            BEFORE
        ),
        total,
        move || {
            let ps = parsers(&[
                small_conf(true, Ms::All),
                small_conf(false, Ms::All),
                small_conf(true, Ms::Keep),
                Conf { ignore_decls: true, ignore_pis: true, ..small_conf(true, Ms::All) },
            ]);
            let cases = cases.clone();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let (cut, _, prolog) = &cases[(idx % n as u64) as usize];
                s.decode(idx / n as u64, &mut seq);
                if *prolog && seq.iter().any(|&t| !matches!(BEFORE[t], " " | "\n" | "<!-- c -->" | "<?p>" | "<!D>")) {
                    return Ok(());
                }
                let mut input: String = seq.iter().map(|&t| BEFORE[t]).collect();
                input.push_str(cut);
                for (c, p) in &ps {
                    note(|| format!("{:?} under {:?}", input, c));
                    cx.state();
                    let got = parse(p, &input, cx);
                    outcome(cx, &got);
                    cx.checked();
                    if got.is_ok() {
                        return fail(&input, c, "an unfinished construct is accepted", &"an error", &got);
                    }
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    )];
    for (n, f) in [("fill-words", fills::words(thorough)), ("fill-ascii", fills::ascii_pairs()), ("fill-characters", fills::odd_scalars())] {
        v.push(holes(n, CUT_PLACES, f, vec![small_conf(true, Ms::All)], prefixes));
    }
    v.push(holes("fill-repeated", CUT_PLACES, fills::repeats(REPEATED, 20, 20), vec![small_conf(true, Ms::All), small_conf(false, Ms::Keep)], prefixes));
    v
}

// ---------------------------------------------------------------------------------------------
// P07: marked section keywords

const KEYWORD_TOKS: &[&str] = &[
    "CDATA", "rcdata", "Ignore", "INCLUDE", "temp", "%inc;", "%ign", "%two;", "%none;", "%self;",
    "FOO", " ", "\n\t", "\u{a0}", "%u;", "%", "&e;", "-",
];

fn section_status(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // <a><![ KEYWORDS [B<b c='&amp;'>&lt;]]>z
    const TAIL: &str = "[B<b>&lt;]]>z";
    let kw = &input[6..input.len() - TAIL.len()];
    let none = |_: &str| None;
    let f: &dyn Fn(&str) -> Option<&'static str> = if c.pents {
        &mc::conf::parameter_entity
    } else {
        &none
    };
    let got = parse(p, input, cx);
    outcome(cx, &got);
    cx.checked();
    let raw = model::trimmed(kw);
    let want = model::expand(raw, '%', f, &mut vec![]).ok().map(|k| (model::status(&k, c.ms), k));
    if c.ms == Ms::Chars {
        if let Some((None, k)) = &want {
            if model::status(model::trimmed(k), c.ms).is_some() {
                // Spaces around the single keyword, from a parameter entity: not documented
                return Ok(());
            }
        }
    }
    let st = match &want {
        Some((Some(st), _)) => *st,
        _ => {
            let what = match &want {
                Some((_, k)) => format!("invalid marked section keyword: {}", k),
                None => "is not defined".to_owned(),
            };
            return match &got {
                Err(e) if e.to_string().contains(&what) => Ok(()),
                Err(_) => fail(input, c, "the error does not name the keywords", &what, &got),
                Ok(_) => fail(input, c, "the keywords are accepted", &"an error", &got),
            };
        }
    };
    let mut w = vec![Ev::Open("a".into()), Ev::Close];
    use model::Status::*;
    if c.ms == Ms::Keep {
        w.push(Ev::Section(want.as_ref().unwrap().1.clone(), "B<b>&lt;".into()));
    } else {
        match st {
            CData => w.push(Ev::Text("B<b>&lt;".into())),
            RcData => w.push(Ev::Text("B<b><".into())),
            Ignore => {}
            Include => w.extend([
                Ev::Text("B".into()),
                Ev::Open("b".into()),
                Ev::Close,
                Ev::Text("<".into()),
            ]),
        }
    }
    w.push(Ev::Text("z".into()));
    match &got {
        Ok(g) if model::same(&w, g) => Ok(()),
        _ => fail(input, c, "the section is handled as something else", &(st, w), &got),
    }
}

fn p07(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let mut confs = vec![];
    for ms in [Ms::Chars, Ms::All, Ms::Keep] {
        confs.push(small_conf(true, ms));
    }
    confs.push(Conf { pents: false, ..small_conf(false, Ms::All) });
    const WORDS: &[&str] = &[
        "CDATA", "cdata", "RcData", "IGNORE", "ignore", "INCLUDE", "Temp", "FOO", "CDAT", "CDATAA", "", "%cd;",
    ];
    const SEPS: &[&str] = &[" ", "\t", "\n", "\r", "  ", "\u{c}", ",", "\u{a0}", ""];
    let s = Seqs::new(WORDS.len() * SEPS.len(), 0, 3);
    let mut v = vec![
        seqs("keywords", "keyword lists", KEYWORD_TOKS, "<a><![", "[B<b>&lt;]]>z", (0, 4 + d), confs, section_status),
        space(
            "keyword-functions",
            format!("from_keywords and parse_keywords over all lists of 0..=3 of {:?} each followed by one of {:?}", WORDS, SEPS),
            s.len(),
            move || {
                use sgmlish::marked_sections::MarkedSectionStatus as S;
                use sgmlish::parser::MarkedSectionHandling as H;
                let mut seq = vec![];
                let conv = |s: S| match s {
                    S::Include => model::Status::Include,
                    S::RcData => model::Status::RcData,
                    S::CData => model::Status::CData,
                    S::Ignore => model::Status::Ignore,
                };
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    let kw: String = seq
                        .iter()
                        .map(|&i| format!("{}{}", WORDS[i / SEPS.len()], SEPS[i % SEPS.len()]))
                        .collect();
                    note(|| format!("{:?}", kw));
                    for (h, m) in [
                        (None, Ms::All),
                        (Some(H::ExpandAll), Ms::All),
                        (Some(H::KeepUnmodified), Ms::Keep),
                        (Some(H::AcceptOnlyCharacterData), Ms::Chars),
                    ] {
                        cx.state();
                        cx.op();
                        let got = match h {
                            None => S::from_keywords(&kw),
                            Some(h) => h.parse_keywords(&kw),
                        };
                        let want = model::status(&kw, m);
                        if m == Ms::Chars && want.is_none() && model::status(model::trimmed(&kw), m).is_some() {
                            continue;
                        }
                        cx.checked();
                        cx.outcome(&format!("{:?}", got.is_ok()));
                        let bad_word = match got {
                            Err(w) if m != Ms::Chars => !kw.split_ascii_whitespace().any(|k| k == w && model::keyword(k).is_none()),
                            _ => false,
                        };
                        if got.ok().map(conv) != want || bad_word {
                            return Err(format!(
                                "keywords: {:?} in mode {:?}\nexpected: {:?}\ngot: {:?}",
                                kw, h, want, got
                            ));
                        }
                    }
                    cx.sample(|| format!("{:?}", kw));
                    Ok(())
                }
            },
        ),
    ];
    let three: Vec<Conf> = [Ms::Chars, Ms::All, Ms::Keep].iter().map(|&ms| small_conf(true, ms)).collect();
    let mut v2 = sweep(KEYWORD_PLACES, three, conform_refs);
    v.append(&mut v2);
    // Any character in place of each of those of a keyword
    const CUT: &[&str] = &[
        "<![§DATA[x]]>y", "<![C§ATA[x]]>y", "<![CD§TA[x]]>y", "<![CDA§A[x]]>y", "<![CDAT§[x]]>y",
        "<![§CDATA[&lt;]]>y", "<![RC§ATA[&lt;]]>y", "<![RCDAT§A[&lt;]]>y", "<![RCDATA§[&lt;]]>y",
        "<![§GNORE[x]]>y", "<![IG§ORE[x]]>y", "<![IGN§RE[x]]>y", "<![IGNO§E[x]]>y", "<![IGNOR§[x]]>y",
        "<![§NCLUDE[<b>]]>y", "<![INC§UDE[<b>]]>y", "<![INCL§DE[<b>]]>y", "<![TEM§[<b>]]>y", "<![T§MP[<b>]]>y",
        "<![TEMP§CDATA[<b>]]>y", "<![§[<b>]]>y",
    ];
    let all = vec![small_conf(true, Ms::All)];
    // However many there are
    const MANY: &[&str] = &["<![§[x]]>y", "<![§IGNORE[x]]>y", "<![§CDATA[&lt;]]>y", "<a><![ §RCDATA[&lt;<b>]]>y", "<![INCLUDE §[<b>]]>y", "<![§FOO[x]]>y", "<![IGNORE §[x]]>y"];
    let units = fills::repeats(&["TEMP ", " ", "include\n", "CDATA\t", "RCDATA\r", "IGNORE  ", "%inc; ", "%ign;\t", "%two; ", "FOO "], 140, 1100);
    v.push(holes("many-keywords", MANY, units, vec![small_conf(true, Ms::All), small_conf(true, Ms::Keep)], conform_refs));
    v.push(holes("parameter-names", PARAMETER_PLACES, fills::around(PARAMETER_NAMES), vec![small_conf(true, Ms::All), small_conf(true, Ms::Keep)], conform_refs));
    v.push(holes("characters-in-keywords", CUT, fills::odd_scalars(), vec![small_conf(true, Ms::Chars), small_conf(true, Ms::Keep)], conform_refs));
    v.push(holes("all-characters-in-keywords", CUT, fills::scalars(), all, conform_refs));
    v
}

// ---------------------------------------------------------------------------------------------
// P08: CDATA and RCDATA sections

fn chardata_body(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // <a><![CDATA[ BODY ]]>z</a>
    let raw = input.starts_with("<a><![CDATA[");
    let start = input.find("DATA[").unwrap() + 5;
    let rest = &input[start..];
    let body = &rest[..rest.find("]]>").unwrap()];
    let after = &rest[body.len() + 3..];
    let got = parse(p, input, cx);
    outcome(cx, &got);
    let body = if c.trim { model::trimmed(body) } else { body };
    let mut calls = vec![];
    let none = |_: &str| None;
    let f: &dyn Fn(&str) -> Option<&'static str> = if c.ents { &mc::conf::entity } else { &none };
    let want = if raw {
        Ok(body.to_owned())
    } else {
        model::expand(body, '&', f, &mut calls).map_err(|u| u.name)
    };
    cx.checked();
    let want = match want {
        Ok(w) => w,
        Err(n) => {
            return match &got {
                Err(e) if e.to_string().contains(&format!("'{}'", n)) => Ok(()),
                _ => fail(input, c, "an undefined reference in RCDATA", &n, &got),
            }
        }
    };
    // Where the section ends; what comes after it is judged only if it is plain
    let f = match &got {
        Ok(f) => f.as_slice(),
        Err(_) if after != "z</a>" => return Ok(()),
        Err(_) => return fail(input, c, "rejected", &want, &got),
    };
    match f.get(2) {
        Some(SgmlEvent::Character(t)) if *t == want => {}
        _ => return fail(input, c, "the content of the section", &want, &got),
    }
    if after == "z</a>" && (f.len() != 5 || !Ev::Text("z".into()).eq(&f[3])) {
        return fail(input, c, "what follows the section", &want, &got);
    }
    Ok(())
}

const BODY: &[&str] = &[
    "a", "<", ">", "]", "]]", " ", "\n", "&lt;", "&#38;", "&nest;", "&u;", "&", "<b>", "</a>", "<![CDATA[", "<!--", "%inc;",
    "\u{a0}",
];

fn p08(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![
        DEFAULT,
        small_conf(true, Ms::All),
        small_conf(false, Ms::All),
        small_conf(false, Ms::Chars),
    ];
    let mut v = vec![
        seqs("cdata", "CDATA content", BODY, "<a><![CDATA[", "]]>z</a>", (0, 4 + d), confs.clone(), chardata_body),
        seqs("rcdata", "RCDATA content", BODY, "<a><![RCDATA[", "]]>z</a>", (0, 4 + d), confs, chardata_body),
    ];
    // One after the other
    const ROW: &[&str] = &["<![CDATA[", "<![RCDATA[", "]]>", "]]", ">", "&lt;", "x", " ", "<b>", "<!---->", "]]><![CDATA[", "]]><![RCDATA["];
    let confs = || vec![DEFAULT, small_conf(false, Ms::All), small_conf(true, Ms::Keep)];
    v.push(seqs("rows", "sections and what is around them", ROW, "<a><![CDATA[", "", (0, 5), confs(), conform_refs));
    v.push(seqs("rows-of-rcdata", "sections and what is around them", ROW, "<a><![RCDATA[", "]]>", (0, 4 + d), confs(), conform_refs));
    v.extend(sweep(CDATA_PLACES, vec![DEFAULT, small_conf(true, Ms::All), small_conf(false, Ms::All)], chardata_body));
    v
}

// ---------------------------------------------------------------------------------------------
// P09: IGNORE sections

fn ignored(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // <a>w<![IGNORE[ BODY ]]>z</a>
    let start = input.find("IGNORE[").unwrap() + 7;
    let mut depth = 1;
    let mut i = start;
    let mut end = None;
    while i < input.len() {
        let r = &input[i..];
        if r.starts_with("<![") {
            depth += 1;
            i += 3;
        } else if r.starts_with("]]>") {
            depth -= 1;
            i += 3;
            if depth == 0 {
                end = Some(i);
                break;
            }
        } else {
            i += r.chars().next().unwrap().len_utf8();
        }
    }
    let got = parse(p, input, cx);
    outcome(cx, &got);
    cx.checked();
    let end = match end {
        Some(e) => e,
        None => {
            return if got.is_err() {
                Ok(())
            } else {
                fail(input, c, "a section that does not end is accepted", &"an error", &got)
            }
        }
    };
    // The same document without the section, but for something that keeps both sides apart
    let plain = format!("{}<?x>{}", &input[..input.find("<![IGNORE[").unwrap()], &input[end..]);
    cx.op();
    match (p.parse(&plain), &got) {
        (Ok(w), Ok(g)) => {
            let w: Vec<Ev> = Ev::all(&w).into_iter().filter(|e| !matches!(e, Ev::Pi(s) if s == "<?x>")).collect();
            if model::same(&w, g) {
                Ok(())
            } else {
                fail(input, c, "something other than the section is affected, or it is not ignored", &w, &got)
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (w, _) => fail(input, c, "something other than the section is affected, or it is not ignored", &show(&w), &got),
    }
}

fn p09(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![small_conf(true, Ms::All), small_conf(false, Ms::All)];
    const T: &[&str] = &[
        "<![", "]]>", "<![IGNORE[", "<![CDATA[", "x", "]", "]]", ">", "<", "<b>", "&u;", "<!--", "'", " ", "<!", "[",
    ];
    let mut v = vec![
        seqs("bodies", "IGNORE content", T, "<a>w<![IGNORE[", "]]>z</a>", (0, 5), confs.clone(), ignored),
        seqs("pairs", "nested pairs", &["<![", "]]>", "x", "<![IGNORE["], "<a>w<![IGNORE[", "]]>z</a>", (0, 8 + d), confs.clone(), ignored),
        seqs("in-prolog", "IGNORE content", &T[..12], "<!D> <![IGNORE[", "]]> <a>z</a>", (0, 4 + d), confs.clone(), ignored),
        seqs("in-include", "IGNORE content", &T[..8], "<a><![INCLUDE[<b><![IGNORE[", "]]>y]]>z</a>", (0, 5 + d), confs.clone(), ignored),
    ];
    const ROW: &[&str] = &["<![IGNORE[", "<![TEMP IGNORE[", "]]>", "]]", ">", "<![CDATA[", "x", " ", "<b>", "<!--", "]]><![IGNORE["];
    v.push(seqs("rows", "sections and what is around them", ROW, "<a><![IGNORE[", "]]>", (0, 5), vec![small_conf(true, Ms::All), small_conf(true, Ms::Keep)], conform_refs));
    let confs2 = confs;
    let deep = fills::nested(
        &[("<![", "z", "]]>"), ("<![x[", "]", "]]>"), ("<![IGNORE[", "<![CDATA[", "]]>]"), ("a<![TEMP [\n", "'", "]]>b"), ("<![<![", "x", "]]>]]>"), ("<![x]]>", "<![", "]]><![x]]>"), ("<![", "-", "]]>]]>")],
        150,
        2100,
    );
    v.push(holes("depths", &["<a>w<![IGNORE[§]]>z</a>", "<a><![IGNORE[§<![]]>]]>z</a>", "<a><![IGNORE[§]]>x]]>z]]>", "<!D><![IGNORE[§]]><a>", "<a><![IGNORE[<![§]]>z</a>"], deep, confs2, ignored));
    v.extend(sweep(IGNORE_PLACES, vec![small_conf(true, Ms::All), small_conf(false, Ms::All)], ignored));
    v
}

// ---------------------------------------------------------------------------------------------
// P10: INCLUDE sections

/// U+1 starts an included section and U+2 ends it, in the input; checks that it all means the same
/// as if there was something neutral (an ignored processing instruction) in place of both.
fn included(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let mut depth = 0;
    for ch in input.chars() {
        match ch {
            '\u{1}' => depth += 1,
            '\u{2}' if depth == 0 => return Ok(()), // just text
            '\u{2}' => depth -= 1,
            _ => {}
        }
    }
    if depth != 0 {
        return Ok(());
    }
    let text = input.replace('\u{1}', "<![INCLUDE[").replace('\u{2}', "]]>");
    let plain = input.replace('\u{1}', "<?x>").replace('\u{2}', "<?x>");
    cx.op();
    let got = parse(p, &text, cx);
    outcome(cx, &got);
    cx.checked();
    match (p.parse(&plain), &got) {
        (Ok(w), Ok(g)) => {
            let w: Vec<Ev> = Ev::all(&w).into_iter().filter(|e| !matches!(e, Ev::Pi(s) if s == "<?x>")).collect();
            if model::same(&w, g) {
                Ok(())
            } else {
                fail(&text, c, "the content of the section differs from the same content outside of it", &w, &got)
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (w, _) => fail(&text, c, "the content of the section differs from the same content outside of it", &show(&w), &got),
    }
}

fn p10(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![
        small_conf(true, Ms::All),
        small_conf(false, Ms::All),
        Conf { ents: false, names: Names::Lower, ..small_conf(true, Ms::All) },
    ];
    const T: &[&str] = &[
        "\u{1}", "\u{2}", "x", " ", "<b>", "</b>", "<c d='&e;]]>'>", "&e;", "&u;", "<!-- ]]> -->", "<?p ]]\t>", "<![CDATA[y]]]>", "]]", "<", "<!E>",
        "<!>", "<a ", "</>", "<![IGNORE[<![w]]>]]>",
    ];
    let mut v = vec![
        seqs("content", "INCLUDE sections (between U+1 and U+2)", T, "<a>", "</a>", (0, 4 + d), confs.clone(), included),
        seqs("nested", "nested INCLUDE sections", &["\u{1}", "\u{2}", "x", " ", "<b>", "<!>", "<?p>"], "<a>\u{1}", "\u{2}z</a>", (0, 6 + d), confs, included),
        seqs("unfinished", "INCLUDE content that does not end", &T[2..], "<a><![INCLUDE[", "", (0, 4), vec![small_conf(true, Ms::All), small_conf(true, Ms::Keep)], |input, c, p, cx| {
            let got = parse(p, input, cx);
            cx.checked();
            match model::parse(input, c) {
                Err(_) if got.is_ok() => fail(input, c, "the section never ends", &"an error", &got),
                _ => Ok(()),
            }
        }),
    ];
    let deep = fills::nested(
        &[("<![INCLUDE[", "z", "]]>"), ("<![[x", "", "y]]>"), ("<![TEMP[<b>", "&e;", "</b>]]> "), ("<![%inc;[<!-- ]]> -->", "<![CDATA[]]]>", "<?p>]]>"), (" <![INCLUDE[ ", "<![IGNORE[<![]]>]]>", " ]]> "), ("<![INCLUDE[<b c=']]>'>", "]", "]]>"), ("<![INCLUDE[", "<", "x]]>")],
        60,
        64,
    );
    v.push(holes("depths", &["<a>§</a>", "§", "<!D> §z", "<a>§]]>", "<a><![INCLUDE[§</a>", "<a><![INCLUDE[x§"], deep, vec![small_conf(true, Ms::All), small_conf(false, Ms::All), small_conf(true, Ms::Keep)], conform));
    v.extend(sweep(INCLUDE_PLACES, vec![small_conf(true, Ms::All), Conf { ents: false, ..small_conf(false, Ms::All) }], conform));
    v
}

// ---------------------------------------------------------------------------------------------
// P11: sections kept unmodified

fn kept(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let want = match model::parse(input, c) {
        Err(Bad::Unspecified) => return Ok(()),
        w => w,
    };
    let got = parse(p, input, cx);
    outcome(cx, &got);
    cx.checked();
    let sections = |v: &mut dyn Iterator<Item = Ev>| -> Vec<Ev> {
        v.filter(|e| matches!(e, Ev::Section(..))).collect()
    };
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            let a = sections(&mut w.iter().cloned());
            let b = sections(&mut g.iter().map(Ev::of));
            if a != b {
                return fail(input, c, "the sections are not kept as they are", &a, &got);
            }
            // They can be written back
            for e in g.iter() {
                if let SgmlEvent::MarkedSection { .. } = e {
                    cx.op();
                    let s = e.to_string();
                    let doc = format!("<a>{}</a>", s);
                    if p.parse(&doc).ok().map_or(true, |f| f.as_slice().get(2) != Some(e)) {
                        return fail(&doc, c, "a section is not itself when parsed again", &Ev::of(e), &p.parse(&doc));
                    }
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        _ => fail(input, c, "the sections are not kept as they are", &want, &got),
    }
}

fn p11(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![small_conf(true, Ms::Keep), small_conf(false, Ms::Keep), Conf { names: Names::Lower, ents: false, ..small_conf(true, Ms::Keep) }];
    const T: &[&str] = &[
        "<![CDATA[", "<![ rcdata [", "<![IGNORE[", "<![INCLUDE[", "<![%two;[", "<![[", "<![\tTEMP RCDATA\n[", "]]>", " x ", "]", "<b c=']]>'>", "&u;", "<!-- ]]> -->", "<",
        "<![FOO[",
    ];
    let mut v = vec![
        seqs("content", "kept sections", T, "<a>", "]]></a>", (0, 5), confs.clone(), kept),
        seqs("prolog", "kept sections", T, "", "]]><a>", (0, 4 + d), confs, kept),
    ];
    let deep = fills::nested(
        &[("<![IGNORE[", "z", "]]>"), ("<![INCLUDE[x", "y", "]]>"), ("<![TEMP[<b>", "&e;", "</b>]]> "), ("<![INCLUDE[<!-- ]]> -->", "<![CDATA[]]]>", "<?p>]]>"), ("<![INCLUDE[", "<![IGNORE[<![]]>]]>", "]]>")],
        60,
        64,
    );
    v.push(holes("depths", &["<a>§</a>", "§", "<!D> §z"], deep, vec![small_conf(true, Ms::Keep), small_conf(false, Ms::Keep)], kept));
    let many = fills::nested(&[("<![IGNORE[", "z", "]]>"), ("<![", "", "]]>"), ("[", "", "]"), ("x\n", "", "y\n")], 140, 1100);
    v.push(holes("many", &["<a><![IGNORE[§]]>x</a>", "<a><![CDATA[§x<![IGNORE[y"], many, vec![small_conf(true, Ms::Keep), small_conf(false, Ms::Keep)], kept));
    v.extend(sweep(KEEP_PLACES, vec![small_conf(true, Ms::Keep), small_conf(false, Ms::Keep)], kept));
    v
}

// ---------------------------------------------------------------------------------------------
// P12: where references are replaced

const REFS: &[&str] = &[
    "&e;", "&e", "&lt;", "&amp;", "&nest;", "&mk;", "&#60;", "&#x26;e;", "&#SP;", "&no;", "&é;", "&", "&;", "&#;", "x", " ", ";", "&u;",
    "&#xD800;", "&E;",
];

/// (before, after, whether references are replaced)
const PLACES: &[(&str, &str, bool)] = &[
    ("<a>|", "|</a>", true),
    ("<a b='|", "|'>", true),
    ("<a b=\"|", "|\">", true),
    ("<a><![RCDATA[|", "|]]>", true),
    ("<a><![INCLUDE[|", "|]]>", true),
    ("<a b=|", "|>", false),
    ("<a><![CDATA[|", "|]]>", false),
    ("<a><!-- |", "| --></a>", false),
    ("<a><?p |", "|></a>", false),
    ("<!D |", "|><a>", false),
    ("<!D '|", "|'><a>", false),
    ("<!D [ |", "| ]><a>", false),
    ("<a><![IGNORE[|", "|]]></a>", false),
];

fn p12(thorough: bool) -> Vec<Space> {
    let s = Seqs::new(REFS.len(), 0, if thorough { 4 } else { 3 });
    let n = PLACES.len() as u64;
    let confs = [
        small_conf(true, Ms::All),
        small_conf(false, Ms::All),
        Conf { ents: false, ..small_conf(true, Ms::All) },
    ];
    let mut v = vec![space(
        "places",
        format!("all sequences of 0..={} of {:?}, in each of {:?}", s.max, REFS, PLACES),
        s.len() * n,
        move || {
            let ps: Vec<(Conf, Parser)> = confs
                .iter()
                .map(|c| (*c, if c.ents { c.recording_builder().build() } else { c.parser() }))
                .collect();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let (pre, post, replaced) = PLACES[(idx % n) as usize];
                s.decode(idx / n, &mut seq);
                let body: String = seq.iter().map(|&t| REFS[t]).collect();
                if pre == "<a b=|" && body.contains(' ') {
                    return Ok(());
                }
                let input = format!("{}{}{}", pre, body, post);
                for (c, p) in &ps {
                    note(|| format!("{:?} under {:?}", input, c));
                    cx.state();
                    mc::conf::take_calls();
                    let got = parse(p, &input, cx);
                    outcome(cx, &got);
                    cx.checked();
                    let calls = mc::conf::take_calls();
                    let none = |_: &str| None;
                    let f: &dyn Fn(&str) -> Option<&'static str> = if c.ents { &mc::conf::entity } else { &none };
                    let mut want_calls = vec![];
                    let raw = format!("|{}|", body);
                    let want = if replaced {
                        model::expand(&raw, '&', f, &mut want_calls).map_err(|u| u.name)
                    } else {
                        Ok(raw)
                    };
                    if c.ents && calls != want_calls {
                        return fail(&input, c, &format!("lookups: {:?}", calls), &want_calls, &got);
                    }
                    match (&want, &got) {
                        (Err(name), Err(e)) if e.to_string().contains(&format!("'{}'", name)) => {}
                        (Err(name), _) => return fail(&input, c, "an undefined entity must be an error that names it", name, &got),
                        (Ok(_), Err(_)) => return fail(&input, c, "rejected", &want, &got),
                        (Ok(w), Ok(g)) => {
                            // In this place alone, and without being parsed again
                            let gone = pre.contains("<!--") || pre.contains("IGNORE");
                            let kinds: String = g.iter().map(|e| match e {
                                SgmlEvent::MarkupDeclaration { .. } => 'D',
                                SgmlEvent::ProcessingInstruction(_) => 'P',
                                SgmlEvent::MarkedSection { .. } => 'M',
                                SgmlEvent::OpenStartTag { .. } => 'O',
                                SgmlEvent::Attribute { .. } => 'A',
                                SgmlEvent::CloseStartTag => 'C',
                                SgmlEvent::XmlCloseEmptyElement => 'X',
                                SgmlEvent::EndTag { .. } => 'E',
                                SgmlEvent::Character(_) => 'T',
                            }).collect();
                            let (shape, at) = if pre.starts_with("<!D") {
                                ("DOC", 0)
                            } else if pre.contains("<?") {
                                ("OCPE", 2)
                            } else if pre.contains("<a b") {
                                ("OAC", 1)
                            } else if gone {
                                ("OCE", 0)
                            } else if pre == "<a>|" {
                                ("OCTE", 2)
                            } else {
                                ("OCT", 2)
                            };
                            let value = match g.as_slice().get(at) {
                                Some(SgmlEvent::Character(t)) => t.as_ref(),
                                Some(SgmlEvent::Attribute { value: Some(v), .. }) => v.as_ref(),
                                Some(SgmlEvent::ProcessingInstruction(v)) => v.as_ref(),
                                Some(SgmlEvent::MarkupDeclaration { body, .. }) => body.as_ref(),
                                _ => "",
                            };
                            let ok = kinds == shape
                                && (gone || if at == 0 || pre.contains("<?") { value.contains(w.as_str()) } else { value == w });
                            if !ok {
                                return fail(&input, c, "references replaced wrongly", w, &got);
                            }
                        }
                    }
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    )];
    v.extend(recording_sweep(REF_PLACES));
    v
}

// ---------------------------------------------------------------------------------------------
// P13: undefined entities

fn p13(thorough: bool) -> Vec<Space> {
    const BAD: &[(&str, &str)] = &[
        ("&u;", "u"), ("&u", "u"), ("&#1114112;", "#1114112"), ("&#xD800;", "#xD800"), ("&#FN;", "#FN"), ("&E;", "E"),
        ("&#xzz;", "#xzz"), ("&a.b-c_d:e;", "a.b-c_d:e"), ("&ém;", "ém"),
    ];
    // ...and how many of the unnamed ones are, each in all places
    const PLACES: &[(&str, &str)] = &[
        ("<a>", "</a>"), ("<a>x ", " y</a>"), ("<a b='", "'>"), ("<a c b=\"x", " y\" d=e>"), ("<a><![RCDATA[", "]]>"), ("", "<a>"),
        ("<a><![INCLUDE[", "]]>"), ("<a><![INCLUDE[ <b> <![RCDATA[ x", " ]]> ]]>"), ("<![RCDATA[", "]]><a>"), ("<a>\n\n<b>\n\tx", "\n</a>"),
        ("<a/><!-- x -->", "<?p>"), ("<a><![INCLUDE[ <b c='", "'> ]]>"),
    ];
    // Parameter entities in keywords are handled likewise
    const PBAD: &[(&str, &str)] = &[("%u;", "u"), ("%u", "u"), ("%INC;", "INC"), ("%é.x;", "é.x")];
    const PPLACES: &[(&str, &str)] = &[
        ("<a><![", "[x]]>"), ("<a><![ %inc; ", "[x]]>"), ("<![", " %inc;[x]]><a>"), ("<a>y<![INCLUDE[ <![ ", " [x]]> ]]>"), ("<a><![IGNORE ", "[]]>"),
    ];
    const FILL: &[&str] = &["<b>", "x", "</b>", "<!-- &u; -->", "&e;", "<![CDATA[&u;]]>", "<c d=&u;>", "<?&u;>", " ", "é", "< ", "\n"];
    let s = Seqs::new(FILL.len(), 0, if thorough { 4 } else { 3 });
    let n1 = (BAD.len() * PLACES.len()) as u64;
    let n2 = (PBAD.len() * PPLACES.len()) as u64;
    let mut v = vec![space(
        "undefined",
        format!("references {:?} in {:?} and {:?} in {:?}, after \"<r>\" and all sequences of 0..={} of {:?}", BAD, PLACES, PBAD, PPLACES, s.max, FILL),
        s.len() * (n1 + n2),
        move || {
            let ps = parsers(&[small_conf(true, Ms::All), small_conf(false, Ms::All), Conf { ents: false, ..small_conf(true, Ms::All) }]);
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let i = idx % (n1 + n2);
                s.decode(idx / (n1 + n2), &mut seq);
                let ((r, name), (pre, post)) = if i < n1 {
                    (BAD[i as usize % BAD.len()], PLACES[i as usize / BAD.len()])
                } else {
                    let i = (i - n1) as usize;
                    (PBAD[i % PBAD.len()], PPLACES[i / PBAD.len()])
                };
                let fill: String = seq.iter().map(|&t| FILL[t]).collect();
                let input = if pre.starts_with("<!") && seq.is_empty() {
                    format!("{}{}{}", pre, r, post)
                } else {
                    format!("<r>{}{}{}{}", fill, pre, r, post)
                };
                for (c, p) in &ps {
                    if !c.ents && input.contains("&e;") {
                        continue;
                    }
                    note(|| format!("{:?} under {:?}", input, c));
                    cx.state();
                    let got = parse(p, &input, cx);
                    outcome(cx, &got);
                    cx.checked();
                    let want = format!("entity '{}' is not defined", name);
                    match &got {
                        Err(e) if e.to_string().lines().next().unwrap_or("").contains(&want) => {
                            // The line of the reference is the one reported
                            let line = input[..input.rfind(r).unwrap()].matches('\n').count() + 1;
                            if !e.to_string().lines().next().unwrap_or("").contains(&format!("line {}:", line)) {
                                return fail(&input, c, "the wrong line is reported", &line, &got);
                            }
                        }
                        _ => return fail(&input, c, "an undefined entity must be an error that names it", &want, &got),
                    }
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    )];
    v.extend(sweep(UNDEFINED_PLACES, vec![small_conf(true, Ms::All), Conf { ents: false, ..small_conf(false, Ms::All) }], conform_refs));
    v.push(holes("fill-names", &["<a>\n&§</a>", "<a\nb='&§'>", "<a>\n&§;</a>", "<a><![RCDATA[&§ x]]>"], fills::around(ENTITY_NAMES), vec![small_conf(true, Ms::All)], conform_refs));
    v.push(holes("fill-parameter-names", PARAMETER_PLACES, fills::around(PARAMETER_NAMES), vec![small_conf(true, Ms::All)], conform_refs));
    // Several, some of which are named as parts of others
    const REFS: &[&str] = &["&nest;", "&nes;", "&nest", "&am;", "&amp;", "&n.", "\n", "x", "&#10;", "&e;", "&#6;", "&#65;", "&#xD8000;", "&#xD800;"];
    const PREFS: &[&str] = &["%inc;", "%in;", "%ign;", "%i", "%ign", "\n", " ", "TEMP", "%", "%two;", "%tw;"];
    let confs = || vec![small_conf(true, Ms::All), Conf { ents: false, ..small_conf(false, Ms::All) }];
    let d = thorough as u32;
    for (n, pre, post) in [("several", "<a>", "</a>"), ("several-in-attribute", "<a\nb='", "'>"), ("several-in-section", "<a><![RCDATA[", "]]>")] {
        v.push(seqs(n, "references", REFS, pre, post, (0, 4 + d), confs(), conform_refs));
    }
    v.push(seqs("several-parameters", "references", PREFS, "<a><![", "[x]]>y", (0, 4 + d), confs(), conform_refs));
    v
}

// ---------------------------------------------------------------------------------------------
// P14: white space

fn whitespace(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    // <a b=' T '> T <c> T </a>
    let body = input;
    let esc = |s: &str| s.to_owned();
    for shape in 0..5 {
        let doc = match shape {
            0 => format!("<a>{}</a>", body),
            1 => format!("<a b='{}'></a>", body),
            2 => format!("<a><![CDATA[{}]]></a>", body),
            3 => format!("<a><![RCDATA[{}]]></a>", body),
            _ => format!("<a>y{}<c>{}z</a>", body, body),
        };
        let t = |s: &str| -> String {
            let s = if c.trim { model::trimmed(s) } else { s };
            s.replace("&#32;", " ").replace("&sp;", " ").replace("&no;", "")
        };
        let raw = |s: &str| s.replace("&#32;", " ").replace("&sp;", " ").replace("&no;", "");
        let mut want = vec![Ev::Open("a".into())];
        match shape {
            0 => {
                want.push(Ev::Close);
                let keep = !(if c.trim { model::trimmed(body) } else { body }).is_empty();
                if keep {
                    want.push(Ev::Text(t(body)));
                }
            }
            1 => {
                want.push(Ev::Attr("b".into(), Some(raw(body))));
                want.push(Ev::Close);
            }
            2 => {
                want.push(Ev::Close);
                want.push(Ev::Text(esc(if c.trim { model::trimmed(body) } else { body })));
            }
            3 => {
                want.push(Ev::Close);
                want.push(Ev::Text(t(body)));
            }
            _ => {
                want.push(Ev::Close);
                want.push(Ev::Text(t(&format!("y{}", body))));
                want.push(Ev::Open("c".into()));
                want.push(Ev::Close);
                want.push(Ev::Text(t(&format!("{}z", body))));
            }
        }
        want.push(Ev::End("a".into()));
        note(|| format!("{:?} under {:?}", doc, c));
        let got = parse(p, &doc, cx);
        outcome(cx, &got);
        cx.checked();
        // How many empty text events there are is not judged here
        let drop_empty = |v: &mut Vec<Ev>| v.retain(|e| *e != Ev::Text(String::new()) || shape == 0);
        drop_empty(&mut want);
        let ok = got.as_ref().map_or(false, |g| {
            let mut g = Ev::all(g);
            drop_empty(&mut g);
            g == want
        });
        if !ok {
            return fail(&doc, c, "white space", &want, &got);
        }
    }
    Ok(())
}

fn p14(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    let confs = vec![small_conf(true, Ms::All), small_conf(false, Ms::All)];
    let mut v = vec![
        seqs("text", "text with all sorts of spaces",
            &[" ", "\t", "\n", "\r", "\u{c}", "\u{b}", "\u{a0}", "\u{2003}", "\u{85}", "\u{feff}", "x", "&#32;", "&sp;", "\u{3000}"],
            "", "", (0, 4 + d), confs.clone(), whitespace),
        space(
            "config-trim",
            "ParserConfig::trim with every Unicode scalar on both sides of a letter, and alone",
            0x110000,
            move || {
                let on = small_conf(true, Ms::All).builder().into_config();
                let off = small_conf(false, Ms::All).builder().into_config();
                move |idx, cx: &mut Cx| {
                    let ch = match char::from_u32(idx as u32) {
                        Some(c) => c,
                        None => return Ok(()),
                    };
                    for s in [format!("{0} {0}x {0}y{0} {0}", ch), ch.to_string()] {
                        note(|| format!("{:?}", s));
                        cx.state();
                        cx.op();
                        cx.checked();
                        if on.trim(&s) != model::trimmed(&s) || off.trim(&s) != s {
                            return Err(format!("trim({:?}) = {:?} / {:?}", s, on.trim(&s), off.trim(&s)));
                        }
                        if sgmlish::text::is_sgml_whitespace(ch) != model::ws(ch) {
                            return Err(format!("is_sgml_whitespace({:?})", ch));
                        }
                        cx.outcome(&on.trim(&s).len());
                    }
                    cx.sample(|| format!("{:?}", ch));
                    Ok(())
                }
            },
        ),
    ];
    v.extend(sweep_plain(&["§", "x§", " §", "§x ", " x§y ", "§\n", "\n§", "§\r\n", "\t§\t", "\u{3000}§\u{a0}"], vec![small_conf(true, Ms::All), small_conf(false, Ms::All)], whitespace));
    v
}

// ---------------------------------------------------------------------------------------------
// P15: names

fn names_of(f: &SgmlFragment) -> Vec<String> {
    f.iter()
        .filter_map(|e| match e {
            SgmlEvent::OpenStartTag { name }
            | SgmlEvent::EndTag { name }
            | SgmlEvent::Attribute { name, .. } => Some(name.to_string()),
            _ => None,
        })
        .collect()
}

fn others_of(f: &SgmlFragment) -> Vec<Ev> {
    f.iter()
        .map(|e| match Ev::of(e) {
            Ev::Open(_) => Ev::Open(String::new()),
            Ev::End(_) => Ev::End(String::new()),
            Ev::Attr(_, v) => Ev::Attr(String::new(), v),
            e => e,
        })
        .collect()
}

fn name_case(doc: &str, ps: &[(Conf, Parser)], cx: &mut Cx) -> Verdict {
    // ps[0] leaves names unchanged
    cx.op();
    let plain = ps[0].1.parse(doc);
    if let (Ok(m), Ok(w)) = (model::parse(doc, &ps[0].0), &plain) {
        // Names left alone are as written
        if !model::same(&m, w) {
            return fail(doc, &ps[0].0, "events", &m, &plain);
        }
    }
    for (c, p) in &ps[1..] {
        cx.state();
        let got = parse(p, doc, cx);
        outcome(cx, &got);
        cx.checked();
        match (&plain, &got) {
            (Ok(w), Ok(g)) => {
                if let Ok(m) = model::parse(doc, c) {
                    if !model::same(&m, g) {
                        return fail(doc, c, "events", &m, &got);
                    }
                }
                let want: Vec<String> = names_of(w).iter().map(|n| model::normal(n, c.names)).collect();
                if names_of(g) != want {
                    return fail(doc, c, "names", &want, &got);
                }
                if others_of(g) != others_of(w) {
                    return fail(doc, c, "something other than names is affected", &others_of(w), &got);
                }
            }
            (Err(_), Err(_)) => {}
            _ => return fail(doc, c, "only accepted with or without normalization", &show(&plain), &got),
        }
    }
    Ok(())
}

fn name_confs() -> Vec<Conf> {
    [Names::Same, Names::Lower, Names::Upper]
        .iter()
        .map(|&names| Conf { names, ..small_conf(true, Ms::All) })
        .collect()
}

fn p15(thorough: bool) -> Vec<Space> {
    let d = thorough as u32;
    const T: &[&str] = &["a", "B", "ß", "Σ", "ς", "ǅ", "İ", "ŉ", "1", ".", "-", "_", ":", "中", "𐐀", "\u{301}", "ﬁ", "ª"];
    let s = Seqs::new(T.len(), 1, 4 + d);
    let mut v = vec![
        space(
            "scalars",
            "every Unicode scalar as first, middle and last character of element and attribute names",
            0x110000,
            || {
                let ps = parsers(&name_confs());
                move |idx, cx: &mut Cx| {
                    let ch = match char::from_u32(idx as u32) {
                        Some(c) => c,
                        None => return Ok(()),
                    };
                    let doc = format!("<a{0}b{0} {0}X{0}=x{0}y z{0}='Q'>T{0}</a{0}b{0}><{0}a></{0}a>", ch);
                    note(|| format!("{:?}", doc));
                    name_case(&doc, &ps, cx)?;
                    let doc = format!("<{0}X a{0}A>{0}T{0}</{0}X>", ch);
                    name_case(&doc, &ps, cx)?;
                    // Names are left alone by default, and are only what they should be
                    cx.state();
                    let doc = format!("<a{0}>", ch);
                    let got = parse(&ps[0].1, &doc, cx);
                    cx.checked();
                    let want = if model::name_char(ch) { Some(format!("a{}", ch)) } else if model::ws(ch) || ch == '/' || ch == '>' { Some("a".into()) } else { None };
                    let g = got.as_ref().ok().map(|f| names_of(f)[0].clone());
                    if g != want {
                        return fail(&doc, &DEFAULT, "name characters", &want, &got);
                    }
                    let doc = format!("<{0}>", ch);
                    let got = parse(&ps[0].1, &doc, cx);
                    cx.checked();
                    let want = if model::name_start(ch) { Some(ch.to_string()) } else if ch == '>' || ch == '/' || ch == '<' { Some(String::new()) } else { None };
                    let g = got.as_ref().ok().and_then(|f| names_of(f).first().cloned());
                    if g != want && !(ch == '!' || ch == '?') {
                        return fail(&doc, &DEFAULT, "name start characters", &want, &got);
                    }
                    cx.sample(|| format!("{:?}", doc));
                    Ok(())
                }
            },
        ),
        space(
            "combinations",
            format!("names made of 1..={} of {:?}", s.max, T),
            s.len(),
            move || {
                let ps = parsers(&name_confs());
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    let n: String = seq.iter().map(|&t| T[t]).collect();
                    let doc = format!("<x{0} {0} y{0}='{0}'>{0}<?{0}><![CDATA[{0}]]></{0}><{0}/>", n);
                    note(|| format!("{:?}", doc));
                    name_case(&doc, &ps, cx)?;
                    cx.sample(|| doc.clone());
                    Ok(())
                }
            },
        ),
        space(
            "markup",
            format!("all sequences of 0..=4 of {:?}", DOC),
            Seqs::new(DOC.len(), 0, 4).len(),
            || {
                let ps = parsers(&name_confs());
                let s = Seqs::new(DOC.len(), 0, 4);
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    let doc: String = seq.iter().map(|&t| DOC[t]).collect();
                    note(|| format!("{:?}", doc));
                    name_case(&doc, &ps, cx)
                }
            },
        ),
    ];
    v.extend(sweep(NAME_PLACES, vec![DEFAULT], |doc, _, _, cx| NAME_PARSERS.with(|ps| name_case(doc, ps, cx))));
    v
}

// ---------------------------------------------------------------------------------------------
// P16: ignoring declarations and processing instructions

fn p16(thorough: bool) -> Vec<Space> {
    const T: &[&str] = &[
        "<a>", "</a>", "x", " ", "<?p>", "<?q '>", "<!D>", "<!D [ <!E> ] >", "<!-- -->", "<![CDATA[ <?r> ]]>", "<![INCLUDE[", "]]>", "<b c='<?s>'>", "<", "<![IGNORE[<?t>]]>",
    ];
    let s = Seqs::new(T.len(), 0, if thorough { 6 } else { 5 });
    let mut v = vec![space(
        "filters",
        format!("all sequences of 0..={} of {:?}, under each combination of both settings and two more", s.max, T),
        s.len(),
        move || {
            let mut groups = vec![];
            for base in [small_conf(true, Ms::All), small_conf(false, Ms::All), small_conf(true, Ms::Keep)] {
                let mut g = vec![];
                for (ignore_decls, ignore_pis) in [(false, false), (true, false), (false, true), (true, true)] {
                    g.push(Conf { ignore_decls, ignore_pis, ..base });
                }
                groups.push(parsers(&g));
            }
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let doc: String = seq.iter().map(|&t| T[t]).collect();
                for g in &groups {
                    note(|| format!("{:?} under {:?}", doc, g[0].0));
                    filtering(&doc, &g[0].1, &g[1..], cx)?;
                }
                cx.sample(|| doc.clone());
                Ok(())
            }
        },
    )];
    v.extend(sweep(PLACES_ALL, vec![small_conf(true, Ms::All), small_conf(false, Ms::Keep)], |doc, c, p, cx| { let g = filter_parsers(c); filtering(doc, p, &g, cx) }));
    v
}

// ---------------------------------------------------------------------------------------------
// Where the holes are, per property

const TEXT_PLACES: &[&str] = &[
    "<a>§</a>", "<a>x§y</a>", "<a>x<§</a>", "<a>§<</a>", "<a> <§> </a>", "<a>x</§</a>", "<a>x<!§</a>", "<a>x < §</a>", "<a>§<b></a>", "<a>§ ]]> §</a>",
];

/// `text_vs_markup`, where there are no references to be replaced.
fn text_vs_markup_plain(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    if input.contains('&') {
        return conform(input, c, p, cx);
    }
    text_vs_markup(input, c, p, cx)
}

const COMMENT_PLACES: &[&str] = &[
    "<a>x<!--§-->y</a>", "<!--§--><a>", "<a>§<!-- c -->§</a>", "<!-- c -->§<a>", "<a>x<!-- a --§-- b -->y</a>", "<a>x<!§>y", "<!D><!--§--><?p><!--§--><a>", "<a/><!--§-->",
    "<!D --§--><a>", "<!D [ --§-- ]><a>", "<!D -§-><a>", "<![INCLUDE[<!--§-->x<!--§-->]]>", "<a><!--§--><!--§--></a>", "<a>x<?p><!--§--> y", "<a b='<!--§-->'>", "<a><!-- § --§>",
];

const CUT_PLACES: &[&str] = &[
    "<a§ b='§' c=§ d/>", "<a></b§>", "x<!-- § -->", "<!D § '§'><a>", "<?§>x", "<![CDATA[§]]>", "<a><![IGNORE[ § <![ ]]> ]]>", "<![INCLUDE[§<b>§]]>", "<a>§</a>", "<![§[x]]>",
    "x<a§ b='§' c=§ d/>", "x</b§ >y", "x<?§>", "x<? §>y", "x<![CDATA[§]]>", "x<![RCDATA[ §]]>", "x<![§[]]>", "x<![INCLUDE[<?§>]]>", "x<!--§-->",
];

/// The document cut at every character, against the model.
fn prefixes(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    for (i, _) in input.char_indices().skip(1).chain([(input.len(), ' ')]) {
        let cut = &input[..i];
        let want = match model::parse(cut, c) {
            Err(Bad::Unspecified) => continue,
            w => w,
        };
        let got = parse(p, cut, cx);
        cx.checked();
        match (&want, &got) {
            (Ok(w), Ok(g)) if model::same(w, g) => {}
            (Err(_), Err(_)) => {}
            _ => return fail(cut, c, "an unfinished document", &want, &got),
        }
    }
    Ok(())
}

const KEYWORD_PLACES: &[&str] = &[
    "<![§[x]]>y", "<a>z<![ CDATA§ [x]]>y", "<![§IGNORE[x]]>y", "<![%§;[x]]>y", "<![INCLUDE § RCDATA[ &lt; ]]>y", "<a><![TEMP[<![ § [x]]>y]]>", "<![§IGN§ORE[x]]>y", "<a><![ %inc§ [x]]>y",
];

const CDATA_PLACES: &[&str] = &[
    "<a><![CDATA[§]]>z</a>", "<a><![RCDATA[§]]>z</a>", "<a><![CDATA[x§y]]>z</a>", "<a><![RCDATA[x§y]]>z</a>", "<a><![CDATA[ §\n§ ]]>z</a>", "<a><![RCDATA[&e;§&e;§]]>z</a>",
];

const IGNORE_PLACES: &[&str] = &[
    "<a>w<![IGNORE[§]]>z</a>", "<a>w<![IGNORE[§<![x[y]]>§]]>z</a>", "<a>w<![IGNORE[<![§[]]>]]>z</a>", "<a>w<![IGNORE[ '§' \"§\" <!-- § --> <b § ]]>z</a>", "<a>w<![IGNORE[<![CDATA[§]]>]]>z</a>",
    "<!D><![IGNORE[§]]><a>", "<a><![INCLUDE[x<![IGNORE[§]]>y]]>",
];

const INCLUDE_PLACES: &[&str] = &[
    "<a><![INCLUDE[§]]>z</a>", "<a><![INCLUDE[x§y]]>z</a>", "<a><![TEMP[<b>§</b>§]]>z</a>", "<a>w<![INCLUDE[§<![INCLUDE[§]]>]]>z</a>", "<![INCLUDE[§]]><a>", "<a><![INCLUDE[<b c='§'>]]>z</a>",
    "<a><![INCLUDE[<!--§-->]]>z</a>", "<a><![INCLUDE[<?§>]]>z</a>", "<a><![INCLUDE[ § < § ]]>z</a>", "<a><![INCLUDE[<![CDATA[§]]>§]]>z</a>", "<a><![[§]]>z</a>", "<a><![INCLUDE[<b §>]]>z</a>",
];

const KEEP_PLACES: &[&str] = &[
    "<a><![CDATA[§]]></a>", "<a><![RCDATA[§]]></a>", "<a><![IGNORE[§]]></a>", "<a><![INCLUDE[§]]></a>", "<a><![ § [x]]></a>", "<a><![ CDATA [ §x§ ]]></a>", "<a><![INCLUDE[<b c='§'>§]]></a>",
    "<![§[]]><a>", "<a><![IGNORE[<![§[]]>§]]></a>", "<a><![IGNORE §[ x ]]></a>",
];

const REF_PLACES: &[&str] = &[
    "<a>§</a>", "<a>&§;</a>", "<a>&e§</a>", "<a>x&#§;y</a>", "<a>&#x§;</a>", "<a b='§'>", "<a b=\"&§;\">", "<a b=&§;>", "<a b=§&e;>", "<a>&e;§&amp;</a>", "<![CDATA[&§;]]>", "<![RCDATA[&§;]]>", "<![RCDATA[ §&e; ]]>",
    "<![INCLUDE[&§;]]>", "<![INCLUDE[<b c='&§;'>]]>", "<!D &§; '&§;'><a>", "<?&§;>x", "x<!--&§;-->&e;", "<a&§;>", "</&§;>", "<![%inc;§[&e;]]>", "<![%§[x]]>", "<a b='&nest;§' c='§&mk;'>", "<a b='x' c='§&e;' d=\"&e;§\">&e;§",
];

/// Like `sweep`, with lookups being recorded.
fn recording_sweep(templates: &'static [&'static str]) -> Vec<Space> {
    thread_local! {
        static PS: Vec<(Conf, Parser)> = [small_conf(true, Ms::All), small_conf(false, Ms::Keep)]
            .iter()
            .map(|c| (*c, c.recording_builder().build()))
            .collect();
    }
    sweep(templates, vec![DEFAULT], |doc, _, _, cx| {
        PS.with(|ps| {
            for (c, p) in ps {
                conform_refs(doc, c, p, cx)?;
            }
            Ok(())
        })
    })
}

const ENTITY_NAMES: &[&str] = &["e", "lt", "amp", "nest", "mk", "#SP", "é", "#65", "#x41", "#xD800", "u"];
const PARAMETER_PLACES: &[&str] = &["<![%§[x]]>y", "<a>\n<![%§; RCDATA [x]]>"];
const PARAMETER_NAMES: &[&str] = &["inc", "ign", "cd", "two", "self", "u"];

const UNDEFINED_PLACES: &[&str] = &[
    "<a>\n&§;</a>", "<a>&u§;</a>", "<a>§&u;§</a>", "<a>&#§;</a>", "<a>\n\n&#x§;</a>", "<a b='§&u;'>", "<a\nb=\"\n&§;\">", "<![RCDATA[§\n&u;]]>", "<a><![INCLUDE[§\n&§;]]>", "<a>&e;§\n&§.;\n</a>", "<![%§;[x]]>", "<a><![ %inc;\n§ %u; [x]]>",
    "<a>&#65;§&u;", "<a>§\n§<b c='&§;'>", "<a>\n<!--§-->&u;", "<a b='x'\n c='&#65;&§;'>",
];

/// Only with what is neither markup nor a reference, nor ends a quoted value.
fn sweep_plain<F>(templates: &'static [&'static str], confs: Vec<Conf>, judge: F) -> Vec<Space>
where
    F: Fn(&str, &Conf, &Parser, &mut Cx) -> Verdict + Send + Sync + Copy + 'static,
{
    [("fill-words", fills::words(true)), ("fill-ascii", fills::ascii_pairs()), ("fill-characters", fills::odd_scalars()), ("fill-repeated", fills::repeats(&["a", " ", "\n", "\t\r", "\u{a0}", " x", "é "], 140, 5000)), ("fill-huge", fills::huge(&["a", " ", "\n", "é "]))]
        .into_iter()
        .map(|(n, mut f)| {
            f.list.retain(|s| !s.contains(|c| matches!(c, '<' | '&' | '\'' | ']')));
            f.what += " (other than any with < & ' or ])";
            holes(n, templates, f, confs.clone(), judge)
        })
        .collect()
}

const NAME_PLACES: &[&str] = &[
    "<A§ B§='C§' D§>E§</A§>", "<§A §B=§C §D/>", "<A§b C='&é;'>", "<?A§><A>", "<!D§ X§><A>", "<A><![CDATA[X§]]><![rcdata[Y§]]><![ Include [<Z§>]]>", "<A B§ C§=d></A§\n>", "<A:§.B-§>", "<a b=§>", "<A></§B>",
];

thread_local! {
    static NAME_PARSERS: Vec<(Conf, Parser)> = parsers(&name_confs());
}

fn filter_parsers(base: &Conf) -> std::rc::Rc<Vec<(Conf, Parser)>> {
    thread_local! {
        static PS: std::cell::RefCell<std::collections::HashMap<Conf, std::rc::Rc<Vec<(Conf, Parser)>>>> = Default::default();
    }
    PS.with(|m| {
        m.borrow_mut()
            .entry(*base)
            .or_insert_with(|| {
                let g: Vec<Conf> = [(true, false), (false, true), (true, true)]
                    .iter()
                    .map(|&(ignore_decls, ignore_pis)| Conf { ignore_decls, ignore_pis, ..*base })
                    .collect();
                std::rc::Rc::new(parsers(&g))
            })
            .clone()
    })
}

/// Runs of the same document that differ in what is ignored.
fn filtering(doc: &str, keep: &Parser, g: &[(Conf, Parser)], cx: &mut Cx) -> Verdict {
    cx.op();
    let all = keep.parse(doc);
    for (c, p) in g {
        cx.state();
        let got = parse(p, doc, cx);
        outcome(cx, &got);
        cx.checked();
        match (&all, &got) {
            (Ok(w), Ok(g)) => {
                let w: Vec<Ev> = Ev::all(w)
                    .into_iter()
                    .filter(|e| !(c.ignore_decls && matches!(e, Ev::Decl(..)) || c.ignore_pis && matches!(e, Ev::Pi(_))))
                    .collect();
                if !model::same(&w, g) {
                    return fail(doc, c, "more or less than what is ignored is missing", &w, &got);
                }
            }
            (Err(a), Err(b)) if a.to_string() == b.to_string() => {}
            _ => return fail(doc, c, "only accepted, or another error, with or without ignoring", &show(&all), &got),
        }
    }
    Ok(())
}

include!("../parse_more.rs");

fn main() {
    engine::main(&[
        Property { id: "P01", assumptions: ASSUME, spaces: p01, probes: P01_PROBES },
        Property { id: "P02", assumptions: ASSUME, spaces: p02, probes: &[] },
        Property { id: "P03", assumptions: ASSUME, spaces: p03, probes: &[] },
        Property { id: "P04", assumptions: ASSUME, spaces: p04, probes: &[] },
        Property { id: "P05", assumptions: ASSUME, spaces: p05, probes: &[] },
        Property { id: "P06", assumptions: ASSUME, spaces: p06, probes: &[] },
        Property { id: "P07", assumptions: ASSUME, spaces: p07, probes: &[] },
        Property { id: "P08", assumptions: ASSUME, spaces: p08, probes: &[] },
        Property { id: "P09", assumptions: ASSUME, spaces: p09, probes: &[] },
        Property { id: "P10", assumptions: ASSUME, spaces: p10, probes: &[] },
        Property { id: "P11", assumptions: ASSUME, spaces: p11, probes: &[] },
        Property { id: "P12", assumptions: ASSUME, spaces: p12, probes: &[] },
        Property { id: "P13", assumptions: ASSUME, spaces: p13, probes: &[] },
        Property { id: "P14", assumptions: ASSUME, spaces: p14, probes: &[] },
        Property { id: "P15", assumptions: ASSUME, spaces: p15, probes: &[] },
        Property { id: "P16", assumptions: ASSUME, spaces: p16, probes: &[] },
        Property { id: "P17", assumptions: ASSUME, spaces: p17, probes: &[] },
        Property { id: "P18", assumptions: ASSUME, spaces: p18, probes: &[] },
        Property { id: "P19", assumptions: ASSUME, spaces: p19, probes: &[] },
    ])
}

const ASSUME: &[&str] = &[
    "Nothing is said about inputs beyond the listed alphabets and lengths",
    "Rust's Unicode tables (char::is_alphabetic and so on) are taken as given",
];
