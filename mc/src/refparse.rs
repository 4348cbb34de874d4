//! The reference model of the parser: a direct transcription of what the documentation of the
//! crate says an input means, one character at a time, sharing no code with it.

use crate::conf::{entity, parameter_entity, Conf, Ms, Names};
use sgmlish::SgmlEvent;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Decl(String, String),
    Pi(String),
    Section(String, String),
    Open(String),
    Attr(String, Option<String>),
    Close,
    XmlClose,
    End(String),
    Text(String),
}

impl Ev {
    pub fn of(e: &SgmlEvent) -> Ev {
        match e {
            SgmlEvent::MarkupDeclaration { keyword, body } => {
                Ev::Decl(keyword.to_string(), body.to_string())
            }
            SgmlEvent::ProcessingInstruction(s) => Ev::Pi(s.to_string()),
            SgmlEvent::MarkedSection {
                status_keywords,
                section,
            } => Ev::Section(status_keywords.to_string(), section.to_string()),
            SgmlEvent::OpenStartTag { name } => Ev::Open(name.to_string()),
            SgmlEvent::Attribute { name, value } => {
                Ev::Attr(name.to_string(), value.as_ref().map(|v| v.to_string()))
            }
            SgmlEvent::CloseStartTag => Ev::Close,
            SgmlEvent::XmlCloseEmptyElement => Ev::XmlClose,
            SgmlEvent::EndTag { name } => Ev::End(name.to_string()),
            SgmlEvent::Character(s) => Ev::Text(s.to_string()),
        }
    }
    pub fn event(&self) -> SgmlEvent<'static> {
        use std::borrow::Cow;
        let o = |s: &String| Cow::Owned(s.clone());
        match self {
            Ev::Decl(keyword, body) => SgmlEvent::MarkupDeclaration { keyword: o(keyword), body: o(body) },
            Ev::Pi(s) => SgmlEvent::ProcessingInstruction(o(s)),
            Ev::Section(status_keywords, section) => SgmlEvent::MarkedSection { status_keywords: o(status_keywords), section: o(section) },
            Ev::Open(name) => SgmlEvent::OpenStartTag { name: o(name) },
            Ev::Attr(name, value) => SgmlEvent::Attribute { name: o(name), value: value.as_ref().map(o) },
            Ev::Close => SgmlEvent::CloseStartTag,
            Ev::XmlClose => SgmlEvent::XmlCloseEmptyElement,
            Ev::End(name) => SgmlEvent::EndTag { name: o(name) },
            Ev::Text(s) => SgmlEvent::Character(o(s)),
        }
    }
    pub fn all(f: &sgmlish::SgmlFragment) -> Vec<Ev> {
        f.as_slice().iter().map(Ev::of).collect()
    }
    pub fn eq(&self, e: &SgmlEvent) -> bool {
        match (self, e) {
            (Ev::Decl(k, b), SgmlEvent::MarkupDeclaration { keyword, body }) => {
                k == keyword && b == body
            }
            (Ev::Pi(a), SgmlEvent::ProcessingInstruction(b)) => a == b,
            (
                Ev::Section(k, b),
                SgmlEvent::MarkedSection {
                    status_keywords,
                    section,
                },
            ) => k == status_keywords && b == section,
            (Ev::Open(a), SgmlEvent::OpenStartTag { name }) => a == name,
            (Ev::Attr(a, v), SgmlEvent::Attribute { name, value }) => {
                a == name && v.as_deref() == value.as_deref()
            }
            (Ev::Close, SgmlEvent::CloseStartTag) => true,
            (Ev::XmlClose, SgmlEvent::XmlCloseEmptyElement) => true,
            (Ev::End(a), SgmlEvent::EndTag { name }) => a == name,
            (Ev::Text(a), SgmlEvent::Character(b)) => a == b,
            _ => false,
        }
    }
}

pub fn same(model: &[Ev], real: &sgmlish::SgmlFragment) -> bool {
    let r = real.as_slice();
    model.len() == r.len() && model.iter().zip(r).all(|(a, b)| a.eq(b))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    /// Not valid syntax.
    Syntax,
    /// An entity that is not defined.
    Entity(String),
    /// A marked section keyword list that is not accepted.
    Keyword(String),
    /// The documentation does not say; nothing is asserted.
    Unspecified,
}

type R<T> = Result<T, Bad>;

pub fn ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\r' || c == '\n'
}
pub fn name_start(c: char) -> bool {
    c.is_alphabetic()
}
pub fn name_char(c: char) -> bool {
    c.is_alphabetic() || c.is_numeric() || c == '.' || c == '-' || c == '_' || c == ':'
}
pub fn trimmed(s: &str) -> &str {
    s.trim_start_matches(ws).trim_end_matches(ws)
}

/// What a reference at the start of some text is.
enum Ref<'a> {
    Char(char, usize),
    Named(&'a str, usize),
    None,
}

fn name_len(s: &str) -> usize {
    let mut it = s.char_indices();
    match it.next() {
        Some((_, c)) if name_start(c) => {}
        _ => return 0,
    }
    for (i, c) in it {
        if !name_char(c) {
            return i;
        }
    }
    s.len()
}

/// `s` is what follows the `&`. Lengths do not include the optional `;`.
fn reference(s: &str, chars: bool) -> Ref<'_> {
    if chars && s.starts_with('#') {
        let t = &s[1..];
        let digits = t.bytes().take_while(|b| b.is_ascii_digit()).count();
        if digits > 0 {
            let mut code: u64 = 0;
            for b in t[..digits].bytes() {
                code = (code * 10 + (b - b'0') as u64).min(1 << 40);
            }
            return match scalar(code) {
                Some(c) => Ref::Char(c, 1 + digits),
                None => Ref::Named(&s[..1 + digits], 1 + digits),
            };
        }
        if t.starts_with('x') {
            let h: &str = &t[1..];
            let n: usize = h.chars().take_while(|&c| name_char(c)).map(char::len_utf8).sum();
            if n > 0 {
                let mut code = Some(0u64);
                for c in h[..n].chars() {
                    code = match (code, c.to_digit(16)) {
                        (Some(v), Some(d)) => Some((v * 16 + d as u64).min(1 << 40)),
                        _ => None,
                    };
                }
                return match code.and_then(scalar) {
                    Some(c) => Ref::Char(c, 2 + n),
                    None => Ref::Named(&s[..2 + n], 2 + n),
                };
            }
        }
    }
    let hash = s.starts_with('#') as usize;
    let n = name_len(&s[hash..]);
    if n == 0 {
        Ref::None
    } else {
        Ref::Named(&s[..hash + n], hash + n)
    }
}

fn scalar(code: u64) -> Option<char> {
    if code > 0x10ffff || (0xd800..0xe000).contains(&code) {
        None
    } else {
        char::from_u32(code as u32)
    }
}

pub struct Undefined {
    pub name: String,
    pub range: std::ops::Range<usize>,
}

/// Reference expansion. `calls` receives the lookups, in order.
pub fn expand(
    text: &str,
    prefix: char,
    lookup: &dyn Fn(&str) -> Option<&'static str>,
    calls: &mut Vec<String>,
) -> Result<String, Undefined> {
    let mut out = String::new();
    let mut i = 0;
    while i < text.len() {
        let c = text[i..].chars().next().unwrap();
        if c != prefix {
            out.push(c);
            i += c.len_utf8();
            continue;
        }
        match reference(&text[i + 1..], prefix == '&') {
            Ref::None => {
                out.push(c);
                i += 1;
            }
            Ref::Char(c, n) => {
                out.push(c);
                i += 1 + n;
                if text[i..].starts_with(';') {
                    i += 1;
                }
            }
            Ref::Named(name, n) => {
                let mut end = i + 1 + n;
                if text[end..].starts_with(';') {
                    end += 1;
                }
                calls.push(name.to_owned());
                match lookup(name) {
                    Some(s) => out.push_str(s),
                    None => {
                        return Err(Undefined {
                            name: name.to_owned(),
                            range: i..end,
                        })
                    }
                }
                i = end;
            }
        }
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Status {
    Include,
    RcData,
    CData,
    Ignore,
}

pub fn keyword(s: &str) -> Option<Status> {
    let up: String = s.chars().map(|c| c.to_ascii_uppercase()).collect();
    Some(match up.as_str() {
        "CDATA" => Status::CData,
        "RCDATA" => Status::RcData,
        "IGNORE" => Status::Ignore,
        "INCLUDE" | "TEMP" => Status::Include,
        _ => return None,
    })
}

/// The status given by a list of keywords, or `None` if it is not accepted.
pub fn status(keywords: &str, ms: Ms) -> Option<Status> {
    if ms == Ms::Chars {
        return keyword(keywords).filter(|s| matches!(s, Status::CData | Status::RcData));
    }
    let mut st = Status::Include;
    for k in keywords
        .split(|c: char| c.is_ascii_whitespace())
        .filter(|k| !k.is_empty())
    {
        st = st.max(keyword(k)?);
    }
    Some(st)
}

pub fn normal(name: &str, n: Names) -> String {
    match n {
        Names::Same => name.to_owned(),
        Names::Lower => name.to_lowercase(),
        Names::Upper => name.to_uppercase(),
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
    c: &'a Conf,
    out: Vec<Ev>,
    /// Names looked up in the entity closure
    calls: Vec<String>,
    /// Where the undefined reference is, if there is one
    undefined_at: Option<usize>,
}

pub struct Parsed {
    pub result: Result<Vec<Ev>, Bad>,
    pub calls: Vec<String>,
    pub undefined_at: Option<usize>,
}

pub fn parse(s: &str, c: &Conf) -> Result<Vec<Ev>, Bad> {
    parse_full(s, c).result
}

pub fn parse_full(s: &str, c: &Conf) -> Parsed {
    let mut p = P {
        s,
        i: 0,
        c,
        out: vec![],
        calls: vec![],
        undefined_at: None,
    };
    let r = p.document();
    Parsed {
        result: r.map(|_| p.out),
        calls: p.calls,
        undefined_at: p.undefined_at,
    }
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn spaces(&mut self) {
        while self.peek().map_or(false, ws) {
            self.i += 1;
        }
    }
    /// Everything up to `t`, which is skipped.
    fn until(&mut self, t: &str) -> R<&'a str> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.i += n + t.len();
                Ok(r)
            }
            None => Err(Bad::Syntax),
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.at(t) {
            self.i += t.len();
            Ok(())
        } else {
            Err(Bad::Syntax)
        }
    }
    fn name(&mut self) -> Option<&'a str> {
        let n = name_len(self.rest());
        if n == 0 {
            return None;
        }
        let r = &self.rest()[..n];
        self.i += n;
        Some(r)
    }

    fn at_comment(&self) -> bool {
        self.at("<!-") || self.at("<!>")
    }
    fn comment(&mut self) -> R<()> {
        self.i += 2;
        if self.at("--") {
            loop {
                self.expect("--")?;
                self.until("--")?;
                let save = self.i;
                self.spaces();
                if !self.at("--") {
                    self.i = save;
                    break;
                }
            }
        }
        self.expect(">")
    }
    fn spaces_and_comments(&mut self) -> R<()> {
        loop {
            if self.at_comment() {
                self.comment()?;
            } else if self.peek().map_or(false, ws) {
                self.i += 1;
            } else {
                return Ok(());
            }
        }
    }

    fn document(&mut self) -> R<()> {
        self.spaces_and_comments()?;
        loop {
            let r = self.rest();
            if r.starts_with("<!") && r[2..].chars().next().map_or(false, name_start) {
                self.declaration(true)?;
            } else if self.at("<![") {
                self.section()?;
            } else if self.at("<?") {
                self.pi()?;
            } else {
                break;
            }
            self.spaces_and_comments()?;
        }
        // The document must have some content other than what may precede it
        if self.eof() {
            return Err(Bad::Syntax);
        }
        self.content(false)?;
        if self.eof() {
            Ok(())
        } else {
            Err(Bad::Syntax)
        }
    }

    fn quoted(&mut self) -> R<&'a str> {
        let q = if self.at("'") { "'" } else { "\"" };
        self.i += 1;
        self.until(q)
    }

    fn declaration(&mut self, emit: bool) -> R<()> {
        self.expect("<!")?;
        let kw = self.name().ok_or(Bad::Syntax)?;
        self.spaces();
        let start = self.i;
        let mut end = self.i;
        loop {
            self.spaces();
            match self.peek() {
                Some('"' | '\'') => {
                    self.quoted()?;
                }
                Some('[') => self.subset()?,
                Some('-') => {
                    self.i += 1;
                    if self.at("-") {
                        self.i += 1;
                        self.until("--")?;
                    }
                }
                Some('<' | '>') | None => break,
                Some(c) => self.i += c.len_utf8(),
            }
            end = self.i;
        }
        self.expect(">")?;
        if emit && !self.c.ignore_decls {
            self.out
                .push(Ev::Decl(kw.to_owned(), self.s[start..end].to_owned()));
        }
        Ok(())
    }

    fn subset(&mut self) -> R<()> {
        self.expect("[")?;
        loop {
            match self.peek() {
                Some('"' | '\'') => {
                    self.quoted()?;
                }
                Some('[') => self.subset()?,
                Some(']') => break,
                Some('-') => {
                    // Only as part of a comment
                    self.expect("--")?;
                    self.until("--")?;
                }
                Some('<') => self.declaration(false)?,
                Some('>') | None => return Err(Bad::Syntax),
                Some(c) => self.i += c.len_utf8(),
            }
        }
        self.expect("]")
    }

    fn pi(&mut self) -> R<()> {
        let start = self.i;
        self.until(">")?;
        if !self.c.ignore_pis {
            self.out.push(Ev::Pi(self.s[start..self.i].to_owned()));
        }
        Ok(())
    }

    /// Whether there is markup (rather than a `<` that is just text) at `r`.
    pub fn is_markup(r: &str) -> bool {
        let mut it = r.chars();
        if it.next() != Some('<') {
            return false;
        }
        match it.next() {
            Some('?') | Some('>') => true,
            Some('!') => {
                matches!(it.next(), Some(c) if c == '-' || c == '>' || c == '[' || name_start(c))
            }
            Some('/') => matches!(it.next(), Some(c) if c == '>' || name_start(c)),
            Some(c) => name_start(c),
            None => false,
        }
    }

    fn content(&mut self, in_section: bool) -> R<()> {
        loop {
            if self.eof() || (in_section && self.at("]]>")) {
                return Ok(());
            }
            if self.at_comment() {
                self.comment()?;
            } else if self.at("<![") {
                self.section()?;
            } else if !Self::is_markup(self.rest()) {
                self.text(in_section)?;
            } else if self.at("<?") {
                self.pi()?;
            } else if self.at("</") {
                self.end_tag()?;
            } else if self.at("<!") {
                // Declarations are only valid before the content
                return Err(Bad::Syntax);
            } else {
                self.start_tag()?;
            }
        }
    }

    fn raw_text(&mut self, in_section: bool) -> &'a str {
        let start = self.i;
        while let Some(c) = self.peek() {
            if Self::is_markup(self.rest()) || (in_section && self.at("]]>")) {
                break;
            }
            self.i += c.len_utf8();
        }
        &self.s[start..self.i]
    }

    fn text(&mut self, in_section: bool) -> R<()> {
        let raw = self.raw_text(in_section);
        let t = if self.c.trim { trimmed(raw) } else { raw };
        if !t.is_empty() {
            let t = self.replace(t)?;
            self.out.push(Ev::Text(t));
        }
        Ok(())
    }

    fn offset(&self, t: &str) -> usize {
        t.as_ptr() as usize - self.s.as_ptr() as usize
    }

    fn replace(&mut self, t: &str) -> R<String> {
        let none = |_: &str| None;
        let f: &dyn Fn(&str) -> Option<&'static str> = if self.c.ents { &entity } else { &none };
        let at = self.offset(t);
        expand(t, '&', f, &mut self.calls).map_err(|u| {
            self.undefined_at = Some(at + u.range.start);
            Bad::Entity(u.name)
        })
    }

    fn start_tag(&mut self) -> R<()> {
        self.expect("<")?;
        let name = self.name().unwrap_or("");
        self.out.push(Ev::Open(normal(name, self.c.names)));
        if name.is_empty() {
            self.expect(">")?;
            self.out.push(Ev::Close);
            return Ok(());
        }
        loop {
            self.spaces();
            if self.at("/>") {
                self.i += 2;
                self.out.push(Ev::XmlClose);
                return Ok(());
            }
            if self.at(">") {
                self.i += 1;
                self.out.push(Ev::Close);
                return Ok(());
            }
            self.attribute()?;
        }
    }

    /// And whether it is quoted
    fn value(&mut self) -> R<(&'a str, bool)> {
        if let Some('"' | '\'') = self.peek() {
            return Ok((self.quoted()?, true));
        }
        let n = self
            .rest()
            .find(|c: char| ws(c) || c == '"' || c == '\'' || c == '>')
            .unwrap_or(self.rest().len());
        if n == 0 {
            return Err(Bad::Syntax);
        }
        let v = &self.rest()[..n];
        self.i += n;
        Ok((v, false))
    }

    fn part(&mut self, k: &Part) -> R<()> {
        match k {
            Part::Declaration => self.declaration(true),
            Part::Section => self.section(),
            Part::SectionBody(keywords, st) => self.section_body(keywords.clone(), *st),
            Part::Instruction => {
                if !self.at("<?") {
                    return Err(Bad::Syntax);
                }
                self.pi()
            }
            Part::Text(stop) => {
                let i = self.i;
                self.text(*stop)?;
                if self.i == i {
                    return Err(Bad::Syntax);
                }
                Ok(())
            }
            Part::StartTag => self.start_tag(),
            Part::OpenStartTag => {
                self.expect("<")?;
                let name = self.name().ok_or(Bad::Syntax)?;
                self.out.push(Ev::Open(normal(name, self.c.names)));
                Ok(())
            }
            Part::EmptyStartTag => {
                self.expect("<>")?;
                self.out.extend([Ev::Open(String::new()), Ev::Close]);
                Ok(())
            }
            Part::CloseStartTag => {
                self.expect(">")?;
                self.out.push(Ev::Close);
                Ok(())
            }
            Part::XmlClose => {
                self.expect("/>")?;
                self.out.push(Ev::XmlClose);
                Ok(())
            }
            Part::Attribute => self.attribute(),
            Part::Item(stop) => {
                if self.eof() || *stop && self.at("]]>") {
                    Err(Bad::Syntax)
                } else if self.at("<![") {
                    self.section()
                } else if !Self::is_markup(self.rest()) {
                    self.text(*stop)
                } else if self.at("<?") {
                    self.pi()
                } else if self.at("</") {
                    self.end_tag()
                } else if self.at("<!") {
                    Err(Bad::Syntax)
                } else {
                    self.start_tag()
                }
            }
        }
    }

    fn attribute(&mut self) -> R<()> {
        let attr = self.name().ok_or(Bad::Syntax)?;
        let save = self.i;
        self.spaces();
        let mut value = None;
        if self.at("=") {
            self.i += 1;
            self.spaces();
            value = Some(match self.value()? {
                (v, true) => self.replace(v)?,
                (v, false) => v.to_owned(),
            });
        } else {
            self.i = save;
        }
        self.out
            .push(Ev::Attr(normal(attr, self.c.names), value));
        Ok(())
    }

    fn end_tag(&mut self) -> R<()> {
        self.expect("</")?;
        let name = self.name().unwrap_or("");
        if !name.is_empty() {
            self.spaces();
        }
        self.expect(">")?;
        self.out.push(Ev::End(normal(name, self.c.names)));
        Ok(())
    }

    fn section(&mut self) -> R<()> {
        self.expect("<![")?;
        let n = self
            .rest()
            .find(|c| matches!(c, '[' | ']' | '<' | '>' | '!'))
            .ok_or(Bad::Syntax)?;
        let raw = trimmed(&self.rest()[..n]);
        self.i += n;
        self.expect("[")?;
        let none = |_: &str| None;
        let f: &dyn Fn(&str) -> Option<&'static str> =
            if self.c.pents { &parameter_entity } else { &none };
        let at = self.offset(raw);
        let keywords = expand(raw, '%', f, &mut vec![]).map_err(|u| {
            self.undefined_at = Some(at + u.range.start);
            Bad::Entity(u.name)
        })?;
        let st = status(&keywords, self.c.ms).ok_or_else(|| Bad::Keyword(keywords.clone()))?;
        self.section_body(keywords, st)
    }

    /// The body of an ignored section, with its end
    fn ignored(&mut self) -> R<()> {
        let mut depth = 0;
        loop {
            if self.at("<![") {
                depth += 1;
                self.i += 3;
            } else if self.at("]]>") {
                self.i += 3;
                if depth == 0 {
                    break;
                }
                depth -= 1;
            } else {
                self.i += self.peek().ok_or(Bad::Syntax)?.len_utf8();
            }
        }
        Ok(())
    }

    fn section_body(&mut self, keywords: String, st: Status) -> R<()> {
        let start = self.i;
        match st {
            Status::Ignore => {
                self.ignored()?;
            }
            Status::CData | Status::RcData => {
                let body = self.until("]]>")?;
                if self.c.ms != Ms::Keep {
                    let t = if self.c.trim { trimmed(body) } else { body };
                    let t = if st == Status::RcData {
                        self.replace(t)?
                    } else {
                        t.to_owned()
                    };
                    self.out.push(Ev::Text(t));
                }
            }
            Status::Include => {
                let mark = self.out.len();
                let r = self.content(true);
                if self.c.ms == Ms::Keep {
                    self.out.truncate(mark);
                    // Whether references and nested sections within a section that is not
                    // expanded need to be valid is not documented
                    match r {
                        Err(Bad::Entity(_)) | Err(Bad::Keyword(_)) => {
                            return Err(Bad::Unspecified)
                        }
                        r => r?,
                    }
                } else {
                    r?;
                }
                self.expect("]]>")?;
            }
        }
        if self.c.ms == Ms::Keep {
            self.out.push(Ev::Section(
                keywords,
                self.s[start..self.i - 3].to_owned(),
            ));
        }
        Ok(())
    }
}
pub fn is_markup(r: &str) -> bool {
    P::is_markup(r)
}

/// What the parsers of single constructs (`parser::raw` and `parser::events`) take from the start
/// of some text: how much of it, and the parts they name.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Piece {
    CommentDeclaration,
    Comment,
    MarkupDeclaration,
    SectionStart,
    CharacterBody,
    IgnoreBody,
    SectionEnd,
    Instruction,
    Text(bool),
    PlainText(bool),
    OpenStartTag,
    CloseStartTag,
    XmlClose,
    EmptyStartTag,
    Attribute,
    AttributeValue,
    BareValue,
    QuotedValue,
    EndTag,
    Name,
    NameStart,
    Spaces,
    CommentsAndSpaces,
}

/// The number of bytes taken and the parts given.
pub fn piece<'a>(k: Piece, s: &'a str) -> Option<(usize, Vec<Option<&'a str>>)> {
    let mut p = P { s, i: 0, c: &crate::conf::DEFAULT, out: vec![], calls: vec![], undefined_at: None };
    let mut parts = vec![];
    let all = |p: &P<'a>| Some(&s[..p.i]);
    let mut go = || -> R<()> {
        match k {
            Piece::CommentDeclaration => {
                if !p.at_comment() {
                    return Err(Bad::Syntax);
                }
                p.comment()?;
                parts.push(all(&p));
            }
            Piece::Comment => {
                p.expect("--")?;
                parts.push(Some(p.until("--")?));
            }
            Piece::MarkupDeclaration => {
                p.declaration(true)?;
                let (kw, body) = match &p.out[0] {
                    Ev::Decl(kw, body) => (kw.len(), body.len()),
                    e => unreachable!("{:?}", e),
                };
                parts.push(Some(&s[2..2 + kw]));
                let rest = s[2 + kw..].trim_start_matches(ws);
                parts.push(Some(&rest[..body]));
            }
            Piece::SectionStart => {
                p.expect("<![")?;
                let n = p.rest().find(|c| matches!(c, '[' | ']' | '<' | '>' | '!')).ok_or(Bad::Syntax)?;
                parts.push(Some(trimmed(&p.rest()[..n])));
                p.i += n;
                p.expect("[")?;
            }
            Piece::CharacterBody => parts.push(Some(p.until("]]>")?)),
            Piece::IgnoreBody => {
                p.ignored()?;
                parts.push(Some(&s[..p.i - 3]));
            }
            Piece::SectionEnd => {
                p.expect("]]>")?;
                parts.push(all(&p));
            }
            Piece::Instruction => {
                p.expect("<?")?;
                p.until(">")?;
                parts.push(all(&p));
            }
            Piece::Text(stop) => {
                let t = p.raw_text(stop);
                if t.is_empty() {
                    return Err(Bad::Syntax);
                }
                parts.push(Some(t));
            }
            Piece::PlainText(stop) => {
                let n = (0..s.len()).find(|&i| s.is_char_boundary(i) && (s[i..].starts_with('<') || stop && s[i..].starts_with("]]>")));
                p.i = n.unwrap_or(s.len());
                if p.i == 0 {
                    return Err(Bad::Syntax);
                }
                parts.push(all(&p));
            }
            Piece::OpenStartTag => {
                p.expect("<")?;
                parts.push(Some(p.name().ok_or(Bad::Syntax)?));
            }
            Piece::CloseStartTag => {
                p.expect(">")?;
                parts.push(all(&p));
            }
            Piece::XmlClose => {
                p.expect("/>")?;
                parts.push(all(&p));
            }
            Piece::EmptyStartTag => {
                p.expect("<>")?;
                parts.push(all(&p));
            }
            Piece::Attribute => {
                parts.push(Some(p.name().ok_or(Bad::Syntax)?));
                let save = p.i;
                p.spaces();
                if p.at("=") {
                    p.i += 1;
                    p.spaces();
                    parts.push(Some(p.value()?.0));
                } else {
                    p.i = save;
                    parts.push(None);
                }
            }
            Piece::AttributeValue => {
                let (v, quoted) = p.value()?;
                parts.push(Some(v));
                parts.push(if quoted { Some("") } else { None });
            }
            Piece::BareValue => match p.value()? {
                (v, false) => parts.push(Some(v)),
                _ => return Err(Bad::Syntax),
            },
            Piece::QuotedValue => match p.value()? {
                (v, true) => parts.push(Some(v)),
                _ => return Err(Bad::Syntax),
            },
            Piece::EndTag => {
                p.expect("</")?;
                let name = p.name();
                if name.is_some() {
                    p.spaces();
                }
                p.expect(">")?;
                parts.push(name);
            }
            Piece::Name => parts.push(Some(p.name().ok_or(Bad::Syntax)?)),
            Piece::NameStart => {
                let c = p.peek().filter(|c| name_start(*c)).ok_or(Bad::Syntax)?;
                p.i += c.len_utf8();
                parts.push(all(&p));
            }
            Piece::Spaces => {
                p.spaces();
                parts.push(all(&p));
            }
            Piece::CommentsAndSpaces => {
                p.spaces_and_comments()?;
                parts.push(all(&p));
            }
        }
        Ok(())
    };
    match go() {
        Ok(()) => Some((p.i, parts)),
        Err(_) => None,
    }
}

/// Constructs that give events.
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Declaration,
    Section,
    /// The rest of a section with these keywords
    SectionBody(String, Status),
    Instruction,
    Text(bool),
    StartTag,
    OpenStartTag,
    EmptyStartTag,
    CloseStartTag,
    XmlClose,
    Attribute,
    /// Any of the above that content can have, but not a comment
    Item(bool),
}

pub fn part(k: &Part, s: &str, c: &Conf) -> Result<(usize, Vec<Ev>), Bad> {
    let mut p = P { s, i: 0, c, out: vec![], calls: vec![], undefined_at: None };
    p.part(k)?;
    Ok((p.i, p.out))
}

/// What is in the way of more.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    End,
    /// Something that cannot be here, but may be elsewhere
    Other,
    /// Something begun, but wrong
    Bad(Bad),
}

/// The longest run of content (or, if `prolog`, of what may come before it).
pub fn run(s: &str, c: &Conf, in_section: bool, prolog: bool) -> (usize, Vec<Ev>, usize, Stop) {
    let mut p = P { s, i: 0, c, out: vec![], calls: vec![], undefined_at: None };
    let mut items = 0;
    loop {
        let (i, n) = (p.i, p.out.len());
        let r = if p.eof() || in_section && p.at("]]>") {
            return (i, p.out, items, Stop::End);
        } else if items > 0 && p.at_comment() {
            p.comment()
        } else if items > 0 && prolog && p.peek().map_or(false, ws) {
            p.spaces();
            Ok(())
        } else if prolog {
            let r = p.rest();
            items += 1;
            if r.starts_with("<!") && r[2..].chars().next().map_or(false, name_start) {
                p.declaration(true)
            } else if p.at("<![") {
                p.section()
            } else if p.at("<?") {
                p.pi()
            } else {
                return (i, p.out, items - 1, Stop::Other);
            }
        } else {
            if p.at("<!") && is_markup(p.rest()) && !p.at("<![") {
                return (i, p.out, items, Stop::Other);
            }
            items += 1;
            p.part(&Part::Item(in_section))
        };
        if let Err(e) = r {
            p.out.truncate(n);
            return (i, p.out, items, Stop::Bad(e));
        }
    }
}
