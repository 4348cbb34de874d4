// ---------------------------------------------------------------------------------------------
// P17: where errors are

use sgmlish::parser::ContextualizedError;

/// Line number, column (in characters) and the text of the line, for an offset.
fn locate(input: &str, offset: usize) -> (usize, usize, &str) {
    let mut line = 1;
    let mut start = 0;
    for (i, c) in input.char_indices() {
        if i >= offset {
            break;
        }
        if c == '\n' {
            line += 1;
            start = i + 1;
        }
    }
    let text = &input[start..];
    let text = match text.find('\n') {
        Some(n) => text[..n].strip_suffix('\r').unwrap_or(&text[..n]),
        None => text,
    };
    (line, input[start..offset].chars().count() + 1, text)
}

/// Checks that `excerpt` is of `line`, and that the caret is on its column `col`.
fn pointed(excerpt: &str, caret: &str, line: &str, col: usize) -> Result<(), String> {
    let chars: Vec<char> = excerpt.chars().collect();
    let full: Vec<char> = line.chars().collect();
    if chars.len() > 80 {
        return Err(format!("the excerpt has {} characters", chars.len()));
    }
    let spaces = caret.strip_suffix('^').filter(|s| s.chars().all(|c| c == ' ')).map(str::len);
    let spaces = match spaces {
        Some(n) => n,
        None => return Err(format!("no caret in {:?}", caret)),
    };
    // The character of the line at the first character of the excerpt
    let starts: Vec<isize> = {
        let mut v = vec![];
        if line.starts_with(excerpt) && excerpt.len() == line.len() {
            v.push(0isize);
        }
        for (skip, cut) in [(0, 3), (3, 0), (3, 3)] {
            if chars.len() < skip + cut
                || (skip > 0 && chars[..3] != ['.'; 3])
                || (cut > 0 && chars[chars.len() - 3..] != ['.'; 3])
            {
                continue;
            }
            let mid = &chars[skip..chars.len() - cut];
            for at in 0..=full.len().saturating_sub(mid.len()) {
                if full[at..].starts_with(mid)
                    && (skip > 0 || at == 0)
                    && (cut > 0 || at + mid.len() == full.len())
                {
                    v.push(at as isize - skip as isize);
                }
            }
        }
        v
    };
    if starts.is_empty() {
        return Err(format!("{:?} is not an excerpt of {:?}", excerpt, line));
    }
    if !starts.iter().any(|s| *s + spaces as isize == col as isize - 1) {
        return Err(format!(
            "in {:?} the caret is {} characters in, but the location is column {} of {:?}",
            excerpt, spaces, col, line
        ));
    }
    Ok(())
}

/// Checks a description against the offsets of the error and its contexts.
fn described(input: &str, at: usize, contexts: &[(usize, &str)], text: &str) -> Result<(), String> {
    let first = described_from(input, at, contexts, text, 1);
    if first.is_ok() {
        return first;
    }
    // What is wrong may be named in more than one line
    let n = text.split('\n').count();
    if (2..n).any(|k| described_from(input, at, contexts, text, k).is_ok()) {
        return Ok(());
    }
    first
}

fn described_from(input: &str, at: usize, contexts: &[(usize, &str)], text: &str, head: usize) -> Result<(), String> {
    let (head, rest) = match text.match_indices('\n').nth(head - 1) {
        Some((n, _)) => (&text[..n], &text[n + 1..]),
        None => (text, ""),
    };
    let mut lines = rest.split('\n');
    let (line, col, content) = locate(input, at);
    if !head.contains(&format!("at line {}:", line)) {
        return Err(format!("line {} is not reported", line));
    }
    pointed(lines.next().unwrap_or(""), lines.next().unwrap_or(""), content, col)?;
    let mut last = (line, col);
    for (i, (off, ctx)) in contexts.iter().enumerate() {
        let (line, col, content) = locate(input, *off);
        if i == 0 && (line, col) == last && !head.contains(ctx) {
            return Err(format!("context {:?} is not reported", ctx));
        }
        if (line, col) == last {
            continue;
        }
        let head = lines.next().unwrap_or("");
        if !head.contains(ctx) || !head.contains(&format!("line {}:", line)) {
            return Err(format!("context {:?} of line {} is not reported in {:?}", ctx, line, head));
        }
        if head.contains("same line") != (line == last.0) {
            return Err(format!("context {:?} is wrong about being in the same line", ctx));
        }
        pointed(lines.next().unwrap_or(""), lines.next().unwrap_or(""), content, col)?;
        last = (line, col);
    }
    Ok(())
}

/// Checks that a description says which character was expected and what there is, or what is wrong.
fn told(input: &str, at: usize, char: Option<char>, error: Option<String>, text: &str) -> Result<(), String> {
    let (line, ..) = locate(input, at);
    let head = text.split_once(&format!("at line {}:", line)).map_or("", |x| x.1);
    if let Some(e) = error {
        let said = head.trim_start_matches(' ').strip_prefix(&e[..]);
        if !said.map_or(false, |rest| rest.starts_with(|c| c == ' ' || c == '\n')) {
            return Err(format!("the error {:?} is not reported", e));
        }
        return Ok(());
    }
    let head = head.split('\n').next().unwrap();
    match char {
        None if head.trim().is_empty() => Ok(()),
        None => Err("something is reported that is not in the error".into()),
        Some(c) => {
            let there = match input[at..].chars().next() {
                None => "end of input".to_owned(),
                Some(' ' | '\t') => "whitespace".to_owned(),
                Some('\r' | '\n') => "end of line".to_owned(),
                Some(c) => format!("'{}'", c.escape_default()),
            };
            // The expected character may be a line end itself
            let whole = text.split_once(&format!("at line {}:", line)).map_or("", |x| x.1);
            match whole.split_once(&format!("'{}'", c)) {
                Some((_, rest)) if rest.split('\n').next().unwrap().ends_with(&there) => Ok(()),
                Some(_) => Err(format!("it is not said that there is {}", there)),
                None => Err(format!("it is not said that {:?} was expected", c)),
            }
        }
    }
}

fn distinct(i: usize, pattern: usize) -> char {
    let i32 = i as u32;
    char::from_u32(match if pattern < 4 { (i + pattern) % 4 } else { pattern - 4 } {
        0 => 0x100 + i32,
        1 => 0x4E00 + i32,
        2 => 0x10400 + i32,
        _ => 0x41 + i32 / 4,
    })
    .unwrap()
}

const BROKEN_PLACES: &[&str] = &[
    "<a§\n§b='", "<a>§\n§</a b>", "<a>\n§&u;", "§<b c=§", "<a>x\ny§\r\n<![CDATA[§\n", "<a><![INCLUDE[§\n§<b c='§&u;'>", "§\n<!--§", "<a>\n§<?§", "<a b='\n§&#xD800;'>", "<a><![§[", "<![%§;[§", "<a>é漢§&§;",
];

/// The description of the error in a document that is not accepted.
fn reported_right(input: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let got = parse(p, input, cx);
    outcome(cx, &got);
    if got.is_ok() {
        return Ok(());
    }
    cx.op();
    let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(input) {
        Err(e) => e,
        Ok(_) => return fail(input, c, "no error", &"an error", &got),
    };
    let off = |s: &str| (s.as_ptr() as usize).checked_sub(input.as_ptr() as usize).filter(|n| *n <= input.len());
    let at = match off(e.input) {
        Some(n) => n,
        None => return fail(input, c, "the position is not in the input", &e.input, &got),
    };
    let mut contexts = vec![];
    for (pos, name) in &e.context {
        match off(pos) {
            Some(n) => contexts.push((n, *name)),
            None => return fail(input, c, "the position of a context is not in the input", name, &got),
        }
    }
    cx.checked();
    // Except where a declaration or marked section is not accepted, which only gets pointed at
    let rest = input[at..].strip_prefix("<!").unwrap_or("");
    if e.char.is_none() && e.error.is_none() && !input.is_empty() && !rest.starts_with(|c: char| c.is_alphabetic() || c == '[') {
        return fail(input, c, "neither an expected character nor anything wrong is reported", &(at, &contexts), &got);
    }
    let text = match &got {
        Err(sgmlish::Error::ParseError(text)) => text.clone(),
        _ => return fail(input, c, "not a parse error", &"a parse error", &got),
    };
    for text in [text, e.describe(&input)] {
        let said = told(input, at, e.char, e.error.as_ref().map(|e| e.to_string()), &text);
        if let Err(m) = described(input, at, &contexts, &text).and(said) {
            return fail(input, c, &m, &(at, &contexts), &got);
        }
    }
    Ok(())
}

/// What is wrong, with a mark (`①`) at each place that is told of, text for `§` and white space for `¶`;
/// then which place the error is at, what was expected there (or else what is wrong), and what it is in.
type Place = (&'static str, usize, Result<char, &'static str>, &'static [(usize, &'static str)]);

const MSE: &str = r#"marked section end ("]]>")"#;
const CDC: &str = r#"comment declaration close ("-->")"#;
const PIE: &str = r#"processing instruction end (">")"#;
const MSD: &str = "marked section declaration";
const U: &str = "entity 'u' is not defined";

const CONTENT_PLACES: &[Place] = &[
    ("①<b¶②", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶②/ ¶>", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶②/", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶②=c>§", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶②<c>§", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶c='§'②'>", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶c='§'¶d¶②9='§'>", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶c=x②'y'>", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶c¶d¶②", 2, Ok('>'), &[(1, "start tag")]),
    ("①<b¶②c=③'§④", 4, Ok('\''), &[(4, "closing '"), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶②c¶=¶③\"§④", 4, Ok('"'), &[(4, "closing \""), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶d='§'¶②c=③'§&lt;§④", 4, Ok('\''), &[(4, "closing '"), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶②c¶=¶③", 3, Ok('"'), &[(3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶②c¶=¶③>§", 3, Ok('"'), &[(3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶②c=③\"§④&u;§\">", 4, Err(U), &[(4, "entity"), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶②c=③'§&lt;§④&u§'>", 4, Err("entity 'u§' is not defined"), &[(4, "entity"), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①<b¶d='&lt;'¶②c=③'§④&#x110000;'>", 4, Err("entity '#x110000' is not defined"), &[(4, "character reference"), (3, "attribute value"), (2, "attribute"), (1, "start tag")]),
    ("①</b¶②", 2, Ok('>'), &[(1, "end tag")]),
    ("①</b¶②9§>", 2, Ok('>'), &[(1, "end tag")]),
    ("①</b¶②</b>§", 2, Ok('>'), &[(1, "end tag")]),
    ("①<!--§②", 2, Ok('-'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§②-③", 3, Ok('-'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§--②", 2, Ok('>'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§--②¶y§>", 2, Ok('>'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§--¶--§②", 2, Ok('-'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§--¶--§--②<b>§", 2, Ok('>'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!②-9§", 2, Ok('>'), &[(2, CDC), (1, "comment declaration")]),
    ("①<?§②", 2, Ok('>'), &[(2, PIE), (1, "processing instruction")]),
    ("①<![CDATA[§②]]③", 3, Ok('>'), &[(2, MSE), (1, MSD)]),
    ("①<![¶CDATA¶[§②]③", 3, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![CDATA[§<![CDATA[§②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![RCDATA[§&u;②]]③", 3, Ok('>'), &[(2, MSE), (1, MSD)]),
    ("①<![RCDATA[§②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![IGNORE[§②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![IGNORE[§<![§]]>§②]③", 3, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![IGNORE[§<![②§<![§]]>§③", 3, Ok(']'), &[(3, MSE), (2, "nested marked section pair"), (1, MSD)]),
    ("①<![IGNORE[§<![②§<![③§<![§]]>§④]]⑤", 5, Ok('>'), &[(4, MSE), (3, "nested marked section pair"), (2, "nested marked section pair"), (1, MSD)]),
    ("①<![RCDATA[§②&u;§]]>", 2, Err(U), &[(2, "entity"), (1, MSD)]),
    ("①<![RCDATA[§&lt;&lt;②&#99999999;§]]>", 2, Err("entity '#99999999' is not defined"), &[(2, "character reference"), (1, MSD)]),
    ("①<![¶②FOO¶[§]]>", 2, Err("invalid marked section keyword: FOO"), &[(1, MSD)]),
    ("①<![¶TEMP¶②TEM¶[§]]>", 2, Err("invalid marked section keyword: TEMP¶TEM"), &[(1, MSD)]),
    ("①<![IGNORE¶INCLUDE¶②I¶N[§]]>", 2, Err("invalid marked section keyword: IGNORE¶INCLUDE¶I¶N"), &[(1, MSD)]),
    ("①<![CDATA¶②C¶CDATA¶D[§]]>", 2, Err("invalid marked section keyword: CDATA¶C¶CDATA¶D"), &[(1, MSD)]),
    ("①<![¶②%u;¶[§]]>", 2, Err(U), &[(2, "entity"), (1, MSD)]),
    ("①<![¶CDATA¶%inc;¶②%u;%u;¶[§]]>", 2, Err(U), &[(2, "entity"), (1, MSD)]),
    ("①<![¶CDATA¶②", 2, Ok('['), &[(1, MSD)]),
    ("①<![¶CDATA¶②>§", 2, Ok('['), &[(1, MSD)]),
    ("①<![CDATA¶②<![CDATA[§]]>", 2, Ok('['), &[(1, MSD)]),
    ("①<![②]]>§", 2, Ok('['), &[(1, MSD)]),
    ("①<![INCLUDE[§②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![INCLUDE[§]]②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![TEMP[§<b>§</b>②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![INCLUDE[§<!--§-->②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![INCLUDE[§②<b¶③", 3, Ok('>'), &[(2, "start tag"), (1, MSD)]),
    ("①<![INCLUDE[§②<b¶③]]>§", 3, Ok('>'), &[(2, "start tag"), (1, MSD)]),
    ("①<![INCLUDE[§②<![TEMP[§③&u;§]]>§]]>", 3, Err(U), &[(3, "entity"), (2, MSD), (1, MSD)]),
    ("①<![INCLUDE[§②<![CDATA[§③]④", 4, Ok(']'), &[(3, MSE), (2, MSD), (1, MSD)]),
    ("①<![INCLUDE[§②</b¶③</b>§", 3, Ok('>'), &[(2, "end tag"), (1, MSD)]),
    ("§①&u;§", 1, Err(U), &[(1, "entity")]),
    ("§&lt;&#38;§& §①&#x110000§", 1, Err("entity '#x110000§' is not defined"), &[(1, "character reference")]),
];

const PROLOG_PLACES: &[Place] = &[
    ("①<!DOCTYPE¶a¶②", 2, Ok('>'), &[(1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②<b>§", 2, Ok('>'), &[(1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶'§②", 2, Ok('\''), &[(2, "closing '"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶'§'¶\"§②", 2, Ok('"'), &[(2, "closing \""), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶--§②", 2, Ok('-'), &[(2, CDC), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶--§②-③", 3, Ok('-'), &[(2, CDC), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§③", 3, Ok(']'), &[(2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§③>§]>", 3, Ok(']'), &[(2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§'§③", 3, Ok('\''), &[(3, "closing '"), (2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§--§③", 3, Ok('-'), &[(3, CDC), (2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§③[§④", 4, Ok(']'), &[(3, "declaration subset"), (2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§③<!E¶b¶④", 4, Ok('>'), &[(3, "markup declaration"), (2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶②[§<!E¶b>§③", 3, Ok(']'), &[(2, "declaration subset"), (1, "markup declaration")]),
    ("①<!DOCTYPE¶a¶[§]¶②", 2, Ok('>'), &[(1, "markup declaration")]),
    ("①<!--§②", 2, Ok('-'), &[(2, CDC), (1, "comment declaration")]),
    ("①<!--§--②¶y§>", 2, Ok('>'), &[(2, CDC), (1, "comment declaration")]),
    ("①<?§②", 2, Ok('>'), &[(2, PIE), (1, "processing instruction")]),
    ("①<![¶CDATA¶②", 2, Ok('['), &[(1, MSD)]),
    ("①<![IGNORE[§②", 2, Ok(']'), &[(2, MSE), (1, MSD)]),
    ("①<![¶TEMP¶②TEM¶[§]]>", 2, Err("invalid marked section keyword: TEMP¶TEM"), &[(1, MSD)]),
    ("①<![INCLUDE[§②<b¶③", 3, Ok('>'), &[(2, "start tag"), (1, MSD)]),
];

/// Exactly which place each error is at, and what it is said to be in.
fn places(name: &str, table: &'static [Place], start: &'static str, before: &'static [&'static str], depth: u32, outer: &'static str) -> Space {
    const SPACES: &[&str] = &["", " ", "\n", "\t\r\n  ", "\r", "\n\n"];
    let mut texts: Vec<String> = ["", "x", "é", "\n", "漢 \r\n y", "\ra", "z\n\n"].iter().map(|s| s.to_string()).collect();
    for unit in ["z", "é", "漢", "x\n", "a b "] {
        texts.extend([37, 38, 39, 40, 41, 79, 80, 81, 300].iter().map(|&n| unit.repeat(n)));
    }
    let s = Seqs::new(before.len(), 0, depth);
    let (rows, fills, spaces) = (table.len() as u64, texts.len() as u64, SPACES.len() as u64);
    space(
        name,
        format!(
            "each of {} kinds of errors, after {:?} and all sequences of 0..={} of {:?}, with each of {} texts of up to 1500 bytes, and each of {:?}, in the construct",
            rows, start, depth, before, fills, SPACES
        ),
        rows * fills * spaces * s.len(),
        move || {
            let c = small_conf(true, Ms::All);
            let p = c.parser();
            let texts = texts.clone();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let (template, at, wrong, contexts) = &table[(idx % rows) as usize];
                let idx = idx / rows;
                let (text, blank) = (&texts[(idx % fills) as usize], SPACES[(idx / fills % spaces) as usize]);
                // The names need something between them
                let name_after = |rest: &str| rest.starts_with(|c: char| c.is_alphanumeric() || c == '②' || c == '%');
                s.decode(idx / fills / spaces, &mut seq);
                let mut input = String::from(start);
                seq.iter().for_each(|&t| input.push_str(before[t]));
                let mut marks = vec![0];
                let mut rest = *template;
                while let Some(ch) = rest.chars().next() {
                    rest = &rest[ch.len_utf8()..];
                    match ch {
                        '①'..='⑤' => marks.push(input.len()),
                        '§' => input.push_str(text),
                        '¶' if blank.is_empty() && name_after(rest) && input.ends_with(|c: char| c.is_alphanumeric()) => input.push(' '),
                        '¶' => input.push_str(blank),
                        c => input.push(c),
                    }
                }
                note(|| format!("{:?} under {:?}", input, c));
                cx.state();
                let got = parse(&p, &input, cx);
                cx.op();
                let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&input) {
                    Err(e) => e,
                    Ok(_) => return fail(&input, &c, "no error", &template, &got),
                };
                let bad = |what: &str, want: &dyn std::fmt::Debug, had: &dyn std::fmt::Debug| -> Verdict {
                    Err(format!("document: {:?}\nconfiguration: {:?}\n{}\nexpected: {:?}\ngot: {:?}\n{}", input, c, what, want, had, show(&got)))
                };
                let off = |s: &str| (s.as_ptr() as usize).wrapping_sub(input.as_ptr() as usize);
                cx.checked();
                cx.outcome(&(template, text.len(), blank));
                // An entity name goes on as far as it can
                let wrong_text = wrong.err().map(|m| {
                    let tail: String = text.chars().take_while(|c| c.is_alphanumeric()).collect();
                    let mut m = m.replace('¶', if blank.is_empty() { " " } else { blank });
                    if m.contains("x110000§") && tail.is_empty() {
                        m = m.replace('§', "");
                    }
                    m.replace('§', &tail)
                });
                if off(e.input) != marks[*at] || e.char != wrong.ok() || e.error.as_ref().map(|e| e.to_string()) != wrong_text {
                    return bad("the place of the error, or what is wrong there", &(marks[*at], wrong, wrong_text), &(off(e.input), e.char, &e.error));
                }
                let mut want: Vec<(usize, &str)> = contexts.iter().map(|(m, name)| (marks[*m], *name)).collect();
                let mut had: Vec<(usize, &str)> = e.context.iter().map(|(s, name)| (off(s), *name)).collect();
                match had.pop() {
                    Some((n, name)) if name == outer && n <= marks[1] && (n == 0 || outer == "prolog") => want.push((n, name)),
                    // The prolog starts after the comments
                    Some(inner) if outer == "prolog" && inner.1 == "comment declaration" => had.push(inner),
                    other => return bad("what everything is in", &outer, &other),
                }
                if want.len() > had.len() {
                    had.push(want[want.len() - 1]);
                }
                if had != want {
                    return bad("what the error is in", &want, &had);
                }
                let said = match &got {
                    Err(sgmlish::Error::ParseError(said)) => said,
                    _ => return fail(&input, &c, "not a parse error", &template, &got),
                };
                if let Err(m) = described(&input, marks[*at], &want, said).and(told(&input, marks[*at], e.char, wrong_text, said)) {
                    return fail(&input, &c, &m, &want, &got);
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    )
}

fn p17(thorough: bool) -> Vec<Space> {
    const PRE: &[&str] = &["", "x\n", "\n\n", "é\r\n漢\n"];
    const POST: &[&str] = &["", "\n", "\r\n", "\nzz\n"];
    let max = if thorough { 260u64 } else { 130 };
    // Pairs (length, offset <= length + 1)
    let pairs = (max + 1) * (max + 2);
    let n = pairs * 7 * (PRE.len() * POST.len()) as u64;
    let mut v = vec![space(
        "long-lines",
        format!(
            "errors at each character of lines of 0..={} distinct characters of 1 to 4 bytes (7 patterns), after {:?} and before {:?}",
            max, PRE, POST
        ),
        n,
        move || {
            move |idx, cx: &mut Cx| {
                let post = POST[(idx % 4) as usize];
                let pre = PRE[(idx / 4 % 4) as usize];
                let i = idx / 16;
                let pattern = (i % 7) as usize;
                let i = i / 7;
                let (len, at) = ((i / (max + 2)) as usize, (i % (max + 2)) as usize);
                let line: String = (0..len).map(|i| distinct(i, pattern)).collect();
                let input = format!("{}{}{}", pre, line, post);
                let off = if at <= len {
                    pre.len() + line.char_indices().map(|c| c.0).nth(at).unwrap_or(line.len())
                } else if at == len + 1 && post.starts_with("\r\n") {
                    pre.len() + line.len() + 1
                } else {
                    return Ok(());
                };
                if input.is_empty() {
                    return Ok(());
                }
                note(|| format!("{:?} at {}", input, off));
                cx.state();
                cx.op();
                let e = ContextualizedError { input: &input[off..], char: None, error: None, context: vec![] };
                let s = e.describe(&&input[..]);
                cx.checked();
                cx.outcome(&(s.len(), off));
                cx.sample(|| s.clone());
                described(&input, off, &[], &s)
                    .map_err(|m| format!("input: {:?}, error at byte {}\n{}\ndescription:\n{}", input, off, m, s))
            }
        },
    )];
    const T: &[&str] = &["a", "é", "漢", "\n", "\r\n", "\r", "<", "."];
    let s = Seqs::new(T.len(), 1, if thorough { 6 } else { 5 });
    v.push(space(
        "contexts",
        format!("errors at each character of all sequences of 1..={} of {:?}, with each two contexts that start before it", s.max, T),
        s.len(),
        move || {
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let input: String = seq.iter().map(|&t| T[t]).collect();
                let offs: Vec<usize> = input.char_indices().map(|c| c.0).chain([input.len()]).collect();
                for (i, &at) in offs.iter().enumerate() {
                    for (j, &c1) in offs[..=i].iter().enumerate() {
                        for &c2 in &offs[..=j] {
                            cx.state();
                            cx.op();
                            note(|| format!("{:?} at {} from {}, {}", input, at, c1, c2));
                            let e = ContextualizedError {
                                input: &input[at..],
                                char: None,
                                error: None,
                                context: vec![(&input[c1..], "INNER"), (&input[c2..], "OUTER")],
                            };
                            let s = e.describe(&&input[..]);
                            cx.checked();
                            cx.outcome(&s);
                            described(&input, at, &[(c1, "INNER"), (c2, "OUTER")], &s).map_err(|m| {
                                format!("input: {:?}, error at byte {}, contexts at {} and {}\n{}\ndescription:\n{}", input, at, c1, c2, m, s)
                            })?;
                        }
                    }
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    ));
    // What was expected, and what there is
    const EXPECTED: &[char] = &['<', '>', '"', '\'', ']', '-', 'a', 'é', ' ', '\n', '\\', '\u{1F600}'];
    let there = fills::odd_scalars();
    const AROUND: &[(&str, &str)] = &[("", ""), ("x\n<a", "b"), ("\r", "\t "), ("", "\n\u{1}"), ("é'", "'")];
    let n = there.list.len() as u64 + 1;
    let list = std::sync::Arc::new(there.list);
    v.push(space(
        "expected",
        format!("errors expecting each of {:?}, or none, at {}, or at the end, between each of {:?}", EXPECTED, there.what, AROUND),
        n * AROUND.len() as u64,
        move || {
            let list = list.clone();
            move |idx, cx: &mut Cx| {
                let (before, after) = AROUND[(idx / n) as usize];
                let input = match list.get((idx % n) as usize) {
                    Some(c) => format!("{}{}{}", before, c, after),
                    None => before.to_owned(),
                };
                if input.is_empty() {
                    return Ok(());
                }
                for char in EXPECTED.iter().map(|c| Some(*c)).chain([None]) {
                    cx.state();
                    cx.op();
                    note(|| format!("{:?} at {} expecting {:?}", input, before.len(), char));
                    let e = ContextualizedError { input: &input[before.len()..], char, error: None, context: vec![] };
                    let text = e.describe(&&input[..]);
                    cx.checked();
                    cx.outcome(&text);
                    told(&input, before.len(), char, None, &text)
                        .map_err(|m| format!("input: {:?}, error at byte {}, expecting {:?}\n{}\ndescription:\n{}", input, before.len(), char, m, text))?;
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    ));
    // What the parser really reports
    const BROKEN: &[&str] = &[
        "<b ", "<b c='", "<b c=\"&u;\">", "</b", "<!-- x", "<?p", "<![CDATA[ ]]", "<![RCDATA[ &u; ]]>", "<![FOO[", "<![ %u; [ x ]]>", "<![INCLUDE[ x", "&u;",
        "<![INCLUDE[ <b '> ]]>", "<b / >", "<b =c>", "<![IGNORE[<![]]>", "<!>&u;", "<![", "</a b>", "<b\n\n\n c='\n\n", "<![INCLUDE[\n<![INCLUDE[\n&u;]]>",
    ];
    const BEFORE: &[&str] = &["<b>", "x ", "\n", "</b>", "<c\nd='e\n'>", "é", "<![CDATA[\ny]]>", "\r\n", "<!-- \n -->", "&e;", "漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢"];
    let s = Seqs::new(BEFORE.len(), 0, if thorough { 5 } else { 4 });
    v.push(space(
        "reported",
        format!("each of {:?}, after \"<a>\" and all sequences of 0..={} of {:?}", BROKEN, s.max, BEFORE),
        s.len() * BROKEN.len() as u64,
        move || {
            let ps = parsers(&[small_conf(true, Ms::All), small_conf(false, Ms::All)]);
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let broken = BROKEN[(idx % BROKEN.len() as u64) as usize];
                s.decode(idx / BROKEN.len() as u64, &mut seq);
                let mut input = String::from("<a>");
                for &t in &seq {
                    input.push_str(BEFORE[t]);
                }
                let start = input.len();
                input.push_str(broken);
                for (c, p) in &ps {
                    note(|| format!("{:?} under {:?}", input, c));
                    cx.state();
                    let got = parse(p, &input, cx);
                    cx.op();
                    let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&input) {
                        Err(e) => e,
                        Ok(_) => return fail(&input, c, "no error", &broken, &got),
                    };
                    let off = |s: &str| {
                        (s.as_ptr() as usize).checked_sub(input.as_ptr() as usize).filter(|n| *n <= input.len())
                    };
                    let at = match off(e.input) {
                        Some(n) => n,
                        None => return fail(&input, c, "the position is not in the input", &e.input, &got),
                    };
                    // Text is taken as a whole, up to the next markup
                    let from = if broken.starts_with('&') {
                        input[..start].rfind('>').map_or(0, |n| n + 1)
                    } else {
                        start
                    };
                    cx.checked();
                    cx.outcome(&(broken, at - from.min(at), e.context.len()));
                    if at < from {
                        return fail(&input, c, "the error is placed before what is wrong", &(start, at), &got);
                    }
                    if let Some(n) = input.find("&u;").or_else(|| input.find("%u;")) {
                        if at != n {
                            return fail(&input, c, "the error is not placed at the undefined entity", &(n, at), &got);
                        }
                    }
                    let mut last = at;
                    let mut contexts = vec![];
                    for (pos, name) in &e.context {
                        match off(pos) {
                            Some(n) if n <= last => {
                                last = n;
                                contexts.push((n, *name));
                            }
                            _ => return fail(&input, c, "a context does not start before the next one", name, &got),
                        }
                    }
                    let text = match &got {
                        Err(sgmlish::Error::ParseError(text)) => text.clone(),
                        _ => return fail(&input, c, "not a parse error", &broken, &got),
                    };
                    let said = told(&input, at, e.char, e.error.as_ref().map(|e| e.to_string()), &text);
                    if let Err(m) = described(&input, at, &contexts, &text).and(said) {
                        return fail(&input, c, &m, &contexts, &got);
                    }
                }
                cx.sample(|| format!("{:?}", input));
                Ok(())
            }
        },
    ));
    const FEW: &[&str] = &["<b>", "x ", "\n", "<c\nd='e\n'>", "é", "<![CDATA[\ny]]>", "<!-- \n -->", "&e;"];
    const DECLS: &[&str] = &["<!DOCTYPE x>", "<?p\nq>", "<!-- \n -->", "\n", "<!E é 'x' [ <!F> ]>", "<![CDATA[ \n]]>"];
    v.push(places("places", CONTENT_PLACES, "<a>", FEW, 2 + thorough as u32, "document content"));
    v.push(places("places-in-prolog", PROLOG_PLACES, "", DECLS, 2 + thorough as u32, "prolog"));
    // Looking for all the places an error may name takes too long on huge documents.
    v.extend(sweep(BROKEN_PLACES, vec![small_conf(true, Ms::All)], reported_right).into_iter().filter(|s| s.name != "fill-huge"));
    v.push(holes("fill-words-kept", BROKEN_PLACES, fills::words(false), vec![DEFAULT, small_conf(false, Ms::Keep)], reported_right));
    v
}

// ---------------------------------------------------------------------------------------------
// P18: the builder

const BUILDER_OPS: &[&str] = &[
    "trim_whitespace(true)", "trim_whitespace(false)",
    "name_normalization(Unchanged)", "name_normalization(ToLowercase)", "name_normalization(ToUppercase)", "lowercase_names()", "uppercase_names()",
    "marked_section_handling(KeepUnmodified)", "marked_section_handling(AcceptOnlyCharacterData)", "marked_section_handling(ExpandAll)", "expand_marked_sections()",
    "ignore_markup_declarations(true)", "ignore_markup_declarations(false)",
    "ignore_processing_instructions(true)", "ignore_processing_instructions(false)",
    "expand_entities(table)", "expand_entities(other)", "expand_parameter_entities(table)", "expand_parameter_entities(other)",
];

/// Documents that tell all settings apart.
const TELLING: &[&str] = &[
    "<!DOCTYPE A><?p X><Aß c='&e;' D=e> x <B/> </aß>",
    "<a> <![CDATA[ x ]]> </a>",
    "<A>&e;<![RCDATA[ &e; ]]></A>",
    "<a><![INCLUDE[ <Q>&no;</q> ]]><![IGNORE[ x ]]></a>",
    "<a><![%inc;[ <Q> ]]></a>",
    "<a><![%ign;[ <Q> ]]></a>",
    "<a><![%q;[ <Q> ]]></a>",
    "<a>&q;</a>",
    "<a>x</a",
];

fn p18(thorough: bool) -> Vec<Space> {
    use sgmlish::parser::{MarkedSectionHandling as M, NameNormalization as N, ParserBuilder};
    let s = Seqs::new(BUILDER_OPS.len(), 0, if thorough { 5 } else { 4 });
    // Which entity tables are in use: none, the usual, another
    fn other(n: &str) -> Option<&'static str> {
        match n {
            "q" => Some("IGNORE"),
            "e" => Some("other"),
            _ => None,
        }
    }
    fn results(p: &Parser) -> Vec<String> {
        TELLING
            .iter()
            .map(|d| match p.parse(d) {
                Ok(f) => format!("{:?}", Ev::all(&f)),
                Err(_) => "error".to_owned(),
            })
            .collect()
    }
    fn canonical(c: &Conf, ents: u8, pents: u8) -> Parser {
        let mut b = Conf { ents: ents == 1, pents: pents == 1, ..*c }.builder();
        if ents == 2 {
            b = b.expand_entities(|n: &str| other(n));
        }
        if pents == 2 {
            b = b.expand_parameter_entities(|n: &str| other(n));
        }
        b.build()
    }
    vec![space(
        "builder-calls",
        format!("all sequences of 0..={} calls of {:?}, then parsing of each of {:?}", s.max, BUILDER_OPS, TELLING),
        s.len(),
        move || {
            let mut seq = vec![];
            let mut cache = std::collections::HashMap::<(Conf, u8, u8), Vec<String>>::new();
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                let mut c = DEFAULT;
                let (mut ents, mut pents) = (0u8, 0u8);
                let mut b = if idx % 2 == 0 { Parser::builder() } else { ParserBuilder::new() };
                for &op in &seq {
                    b = match op {
                        0 | 1 => {
                            c.trim = op == 0;
                            b.trim_whitespace(op == 0)
                        }
                        2 => {
                            c.names = Names::Same;
                            b.name_normalization(N::Unchanged)
                        }
                        3 => {
                            c.names = Names::Lower;
                            b.name_normalization(N::ToLowercase)
                        }
                        4 => {
                            c.names = Names::Upper;
                            b.name_normalization(N::ToUppercase)
                        }
                        5 => {
                            c.names = Names::Lower;
                            b.lowercase_names()
                        }
                        6 => {
                            c.names = Names::Upper;
                            b.uppercase_names()
                        }
                        7 => {
                            c.ms = Ms::Keep;
                            b.marked_section_handling(M::KeepUnmodified)
                        }
                        8 => {
                            c.ms = Ms::Chars;
                            b.marked_section_handling(M::AcceptOnlyCharacterData)
                        }
                        9 => {
                            c.ms = Ms::All;
                            b.marked_section_handling(M::ExpandAll)
                        }
                        10 => {
                            c.ms = Ms::All;
                            b.expand_marked_sections()
                        }
                        11 | 12 => {
                            c.ignore_decls = op == 11;
                            b.ignore_markup_declarations(op == 11)
                        }
                        13 | 14 => {
                            c.ignore_pis = op == 13;
                            b.ignore_processing_instructions(op == 13)
                        }
                        15 => {
                            ents = 1;
                            b.expand_entities(|n: &str| mc::conf::entity(n))
                        }
                        16 => {
                            ents = 2;
                            b.expand_entities(|n: &str| other(n).map(str::to_owned))
                        }
                        17 => {
                            pents = 1;
                            b.expand_parameter_entities(|n: &str| mc::conf::parameter_entity(n))
                        }
                        _ => {
                            pents = 2;
                            b.expand_parameter_entities(|n: &str| other(n).map(str::to_owned))
                        }
                    };
                }
                let calls: Vec<&str> = seq.iter().map(|&t| BUILDER_OPS[t]).collect();
                note(|| format!("{:?}", calls));
                cx.state();
                let p = b.build();
                let got = results(&p);
                cx.trans += TELLING.len() as u64;
                let want = match cache.get(&(c, ents, pents)) {
                    Some(w) => w.clone(),
                    None => {
                        let w = results(&canonical(&c, ents, pents));
                        // Bound to the model, where it has the same tables
                        if ents < 2 && pents < 2 {
                            let mc = Conf { ents: ents == 1, pents: pents == 1, ..c };
                            for (d, w) in TELLING.iter().zip(&w) {
                                let m = match model::parse(d, &mc) {
                                    Ok(v) => format!("{:?}", v),
                                    Err(Bad::Unspecified) => continue,
                                    Err(_) => "error".to_owned(),
                                };
                                if m != *w {
                                    return Err(format!("{:?} under {:?}\nexpected: {}\ngot: {}", d, mc, m, w));
                                }
                            }
                        }
                        cache.insert((c, ents, pents), w.clone());
                        w
                    }
                };
                cx.checked();
                cx.outcome(&got);
                for ((d, w), g) in TELLING.iter().zip(&want).zip(&got) {
                    if w != g {
                        return Err(format!(
                            "after the calls {:?}, the result for {:?} is not what the last call for each setting asks for\nexpected: {}\ngot: {}",
                            calls, d, w, g
                        ));
                    }
                }
                cx.sample(|| format!("{:?}", calls));
                Ok(())
            }
        },
    )]
}

// ---------------------------------------------------------------------------------------------
// P19: results depend on nothing else

/// The same document through each entry point and with each error type.
fn entries(doc: &str, c: &Conf, p: &Parser, cx: &mut Cx) -> Verdict {
    let want = parse(p, doc, cx);
    let mut results: Vec<(&str, Result<SgmlFragment, ()>)> = vec![
        ("the unit error type", p.parse_with_detailed_errors::<()>(doc)),
        ("simple errors", p.parse_with_detailed_errors::<nom::error::Error<&str>>(doc).map_err(|_| ())),
        ("verbose errors", p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(doc).map_err(|_| ())),
        ("contextualized errors", p.parse_with_detailed_errors::<ContextualizedError<&str>>(doc).map_err(|_| ())),
        ("the builder", c.builder().parse(doc).map_err(|_| ())),
        ("a second parsing", p.parse(doc).map_err(|_| ())),
    ];
    if *c == DEFAULT {
        results.push(("the parse function", sgmlish::parse(doc).map_err(|_| ())));
        results.push(("Parser::new", Parser::new().parse(doc).map_err(|_| ())));
        results.push(("Parser::default", Parser::default().parse(doc).map_err(|_| ())));
    }
    for (by, got) in &results {
        cx.op();
        cx.checked();
        let same = match (&want, got) {
            (Ok(w), Ok(g)) => w == g,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        cx.outcome(&(by, got.is_ok()));
        if !same {
            return fail(doc, c, &format!("a different result with {}", by), got, &want);
        }
    }
    Ok(())
}

/// What an expansion function does besides giving the value, when called for the nth time.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Meanwhile {
    /// Parses a document, with the parser that is being used or another one.
    Parse(usize, bool),
    Panic,
}

#[derive(Default)]
struct Plan {
    /// How many calls to let pass before each of these.
    steps: Vec<(usize, Meanwhile)>,
    done: Vec<(usize, String)>,
}

thread_local! {
    static PLAN: std::cell::RefCell<Plan> = std::cell::RefCell::new(Plan::default());
    static BUSY: std::cell::RefCell<Vec<(std::rc::Rc<Parser>, std::rc::Rc<Parser>)>> = std::cell::RefCell::new(vec![]);
    static CURRENT: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

const NESTED: &[&str] = &[
    "<a>x &e; y&lt;</a>", "<a b='&e;' c=\"&sp;&e;\"> &amp; </a>", "<a><![RCDATA[ &e; ]]>&nest;</a>", "<a><![%inc;[<B>&e;]]></a>", "<a>&u;</a>", "<![%cd; %none;[ z ]]><a>&e;</a>", "<a>x &e; <", "&e;<b",
];

fn meanwhile() {
    let what = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        match p.steps.first_mut() {
            Some((0, w)) => {
                let w = *w;
                p.steps.remove(0);
                Some(w)
            }
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    match what {
        None => {}
        Some(Meanwhile::Panic) => std::panic::resume_unwind(Box::new("planned")),
        Some(Meanwhile::Parse(d, same)) => {
            let (this, other) = BUSY.with(|b| b.borrow()[CURRENT.with(|c| c.get())].clone());
            let at = PLAN.with(|p| {
                let mut p = p.borrow_mut();
                p.done.push((d, String::new()));
                p.done.len() - 1
            });
            let got = show(&if same { this } else { other }.parse(NESTED[d]));
            PLAN.with(|p| p.borrow_mut().done[at].1 = got);
        }
    }
}

/// Expansion functions that parse other documents, with the same parser or another, or panic: all else
/// is as it would be without.
fn lookups_that_parse(thorough: bool) -> Space {
    let confs: Vec<Conf> = Conf::few().into_iter().filter(|c| c.ents).collect();
    let mut acts = vec![Meanwhile::Panic];
    for d in 0..NESTED.len() {
        acts.extend([Meanwhile::Parse(d, true), Meanwhile::Parse(d, false)]);
    }
    const CALLS: usize = 3;
    let k = acts.len() * CALLS;
    let plans = Seqs::new(k, 1, if thorough { 3 } else { 2 });
    let n = plans.len() * NESTED.len() as u64;
    space(
        "lookups-that-parse",
        format!(
            "parsing each of {:?} while, at all sequences of 1..={} of the lookups of entities in it (in the first {} calls, and those in what is parsed meanwhile), each of these is parsed by the same parser or another, or the function panics, under {} configurations",
            NESTED, plans.max, CALLS, confs.len()
        ),
        n,
        move || {
            let mut pairs = vec![];
            let mut alone = vec![];
            for c in &confs {
                let make = || {
                    std::rc::Rc::new(
                        c.builder()
                            .expand_entities(|n: &str| {
                                meanwhile();
                                mc::conf::entity(n)
                            })
                            .expand_parameter_entities(|n: &str| {
                                meanwhile();
                                mc::conf::parameter_entity(n)
                            })
                            .build(),
                    )
                };
                pairs.push((make(), make()));
                alone.push(NESTED.iter().map(|d| show(&c.parser().parse(d))).collect::<Vec<String>>());
            }
            BUSY.with(|b| *b.borrow_mut() = pairs.clone());
            let (acts, confs) = (acts.clone(), confs.clone());
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                let doc = (idx % NESTED.len() as u64) as usize;
                plans.decode(idx / NESTED.len() as u64, &mut seq);
                let steps: Vec<(usize, Meanwhile)> = seq.iter().map(|&i| (i % CALLS, acts[i / CALLS])).collect();
                for (i, c) in confs.iter().enumerate() {
                    note(|| format!("{:?} under {:?}, with {:?}", NESTED[doc], c, steps));
                    cx.state();
                    cx.ops(2);
                    cx.checked();
                    CURRENT.with(|x| x.set(i));
                    PLAN.with(|p| *p.borrow_mut() = Plan { steps: steps.clone(), done: vec![] });
                    let p = &pairs[i].0;
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(&p.parse(NESTED[doc]))));
                    let plan = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
                    let planned = |e: &Box<dyn std::any::Any + Send>| e.downcast_ref::<&str>() == Some(&"planned");
                    let got = match got {
                        Err(e) if planned(&e) => None,
                        Err(e) => std::panic::resume_unwind(e),
                        Ok(g) => Some(g),
                    };
                    cx.outcome(&(i, doc, got.is_some(), plan.done.len()));
                    let mut all: Vec<(usize, String)> = plan.done.into_iter().filter(|d| !d.1.is_empty()).collect();
                    all.extend(got.map(|g| (doc, g)));
                    // And once more, after all that
                    all.push((doc, show(&p.parse(NESTED[doc]))));
                    for (d, g) in all {
                        if g != alone[i][d] {
                            return Err(format!(
                                "{:?} under {:?} is parsed differently when lookups in {:?} do {:?}\n  otherwise: {}\n  then:      {}",
                                NESTED[d], c, NESTED[doc], steps, alone[i][d], g
                            ));
                        }
                    }
                }
                cx.sample(|| format!("{:?} with {:?}", NESTED[doc], steps));
                Ok(())
            }
        },
    )
}

fn p19(thorough: bool) -> Vec<Space> {
    const DOCS: &[&str] = &[
        "<a>x</a>", "<A b='&e;'> y </A>", "", "<a", "<a>&u;</a>", "<!D x><?p><a/>", "<a><![INCLUDE[<b>]]></b>", "<![%inc;[<a>]]>", "<![%u;[<a>]]>",
        "<a><![IGNORE[ <![ ]]> ]]>", "x", "<a> &#65; </a>", "<a><![CDATA[ z", "</a>",
    ];
    let s = Seqs::new(DOCS.len(), 1, if thorough { 5 } else { 4 });
    let confs = Conf::few();
    let cs = confs.clone();
    let entry = Conf::all();
    let mut v = vec![
        space(
            "histories",
            format!("all sequences of 1..={} parsings of {:?} by the same parser, under {} configurations", s.max, DOCS, confs.len()),
            s.len(),
            move || {
                let ps = parsers(&cs);
                let fresh: Vec<Vec<String>> = cs
                    .iter()
                    .map(|c| DOCS.iter().map(|d| show(&c.parser().parse(d))).collect())
                    .collect();
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    for (i, (c, _)) in ps.iter().enumerate() {
                        note(|| format!("{:?} under {:?}", seq, c));
                        cx.state();
                        let p = c.parser();
                        let mut kept: Vec<(usize, SgmlFragment)> = vec![];
                        for &d in &seq {
                            let got = parse(&p, DOCS[d], cx);
                            cx.checked();
                            cx.outcome(&(i, d, got.is_ok()));
                            if show(&got) != fresh[i][d] {
                                return fail(DOCS[d], c, &format!("parsed differently by a used parser, after {:?}", seq), &fresh[i][d], &got);
                            }
                            if let Ok(f) = got {
                                kept.push((d, f));
                            }
                        }
                        for (d, f) in &kept {
                            if format!("Ok({:?})", f.as_slice()) != fresh[i][*d] {
                                return Err(format!("the fragment of {:?} changed after more parsing", DOCS[*d]));
                            }
                        }
                    }
                    cx.sample(|| format!("{:?}", seq.iter().map(|&t| DOCS[t]).collect::<Vec<_>>()));
                    Ok(())
                }
            },
        ),
        space(
            "entry-points",
            format!("all sequences of 0..=3 of {:?}, under {} configurations, through each entry point and with each error type", DOC, entry.len()),
            Seqs::new(DOC.len(), 0, 3).len(),
            move || {
                let ps = parsers(&entry);
                let few = Conf::few();
                let s = Seqs::new(DOC.len(), 0, 3);
                let mut seq = vec![];
                move |idx, cx: &mut Cx| {
                    s.decode(idx, &mut seq);
                    let doc: String = seq.iter().map(|&t| DOC[t]).collect();
                    for (c, p) in &ps {
                        if !few.contains(c) && idx % 8 != 0 {
                            continue;
                        }
                        note(|| format!("{:?} under {:?}", doc, c));
                        cx.state();
                        entries(&doc, c, p, cx)?;
                    }
                    cx.sample(|| format!("{:?}", doc));
                    Ok(())
                }
            },
        ),
    ];
    v.extend(sweep(PLACES_ALL, vec![DEFAULT, small_conf(true, Ms::All)], entries));
    // Parsers with different settings in turn: whatever one leaves behind, the next is to ignore
    const TURNS: &[&str] = &[
        "<a>\tx</a>", "<A b=c> y </A>", "<a>&e;</a>", "<a>&lt;</a>", "<a>&u;</a>", "<!D x><?p><a/>", "<a>\r\nx <![ CDATA[ \ty]]>", "<a><![INCLUDE[<B>]]></a>", "<![%cd;[ z ]]>", "<a",
        "<a b='\t&e; '>", "<>x</>",
    ];
    let confs = Conf::few();
    let pool: Vec<(usize, usize)> = (0..confs.len()).flat_map(|c| (0..TURNS.len()).map(move |d| (c, d))).collect();
    let turns = Seqs::new(pool.len(), 1, if thorough { 3 } else { 2 });
    let (cs, ts) = (confs.clone(), turns.clone());
    let same_parser = pool.clone();
    v.push(space(
        "in-turn",
        format!("all sequences of 1..={} parsings of {:?} by parsers under {} configurations, each against the model", turns.max, TURNS, confs.len()),
        turns.len(),
        move || {
            let ps = parsers(&cs);
            let pool = pool.clone();
            let ts = ts.clone();
            let mut seq = vec![];
            move |idx, cx: &mut Cx| {
                ts.decode(idx, &mut seq);
                note(|| format!("{:?}", seq.iter().map(|&i| (TURNS[pool[i].1], pool[i].0)).collect::<Vec<_>>()));
                cx.state();
                for &i in &seq {
                    let (c, d) = pool[i];
                    conform(TURNS[d], &ps[c].0, &ps[c].1, cx)?;
                }
                Ok(())
            }
        },
    ));
    // Three in turn, of fewer
    let few: Vec<(usize, usize)> = same_parser.iter().copied().filter(|(c, d)| *c < 3 && matches!(d, 0 | 1 | 2 | 4 | 6 | 7 | 8 | 9)).collect();
    let longer = Seqs::new(few.len(), 3, if thorough { 5 } else { 4 });
    let cs = confs.clone();
    v.push(space(
        "in-longer-turn",
        format!("all sequences of 3..={} parsings of some of those under three configurations, each against the model", longer.max),
        longer.len(),
        move || {
            let ps = parsers(&cs);
            let few = few.clone();
            let s = longer.clone();
            let mut seq = vec![];
            let mut want: std::collections::HashMap<(usize, usize), Option<Vec<Ev>>> = Default::default();
            move |idx, cx: &mut Cx| {
                s.decode(idx, &mut seq);
                note(|| format!("{:?}", seq.iter().map(|&i| (TURNS[few[i].1], few[i].0)).collect::<Vec<_>>()));
                cx.state();
                for &i in &seq {
                    let (c, d) = few[i];
                    let m = want.entry((c, d)).or_insert_with(|| model::parse(TURNS[d], &ps[c].0).ok());
                    let got = parse(&ps[c].1, TURNS[d], cx);
                    cx.checked();
                    let ok = match (m, &got) {
                        (Some(m), Ok(g)) => model::same(m, g),
                        (None, Err(_)) => true,
                        _ => false,
                    };
                    if !ok {
                        let seq: Vec<_> = seq.iter().map(|&i| (TURNS[few[i].1], few[i].0)).collect();
                        return fail(TURNS[d], &ps[c].0, &format!("parsed differently after others, in the history {:?}", seq), &"the same", &got);
                    }
                }
                Ok(())
            }
        },
    ));
    v.push(lookups_that_parse(thorough));
    // One parser for very many documents
    const MANY: u64 = 40_000;
    let cs = confs.clone();
    v.push(space(
        "many",
        format!("{} parsings by one parser, of each of {:?} in turn, under {} configurations", MANY, TURNS, confs.len()),
        confs.len() as u64,
        move || {
            let cs = cs.clone();
            move |idx, cx: &mut Cx| {
                let c = cs[idx as usize];
                let p = c.parser();
                let want: Vec<Option<Vec<Ev>>> = TURNS.iter().map(|d| model::parse(d, &c).ok()).collect();
                cx.state();
                for i in 0..MANY {
                    let d = ((i + i / 5000) % TURNS.len() as u64) as usize;
                    let got = parse(&p, TURNS[d], cx);
                    cx.checked();
                    let ok = match (&want[d], &got) {
                        (Some(m), Ok(g)) => model::same(m, g),
                        (None, Err(_)) => true,
                        _ => false,
                    };
                    if !ok {
                        return fail(TURNS[d], &c, &format!("parsed differently as number {}", i + 1), &want[d], &got);
                    }
                }
                Ok(())
            }
        },
    ));
    v
}
