//! What goes in the holes of templates: enumerated families of strings, one of which takes its
//! alphabet from the literals in the code under test (its source is only read for words to build
//! inputs from; what is judged is what the code does with them).

use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("SGMLISH_REPO").unwrap_or_else(|_| "/repo".to_owned()))
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<PathBuf> = match fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

/// The string and character literals, and the integers, of the code under test (tests excluded).
#[derive(Default, Debug)]
pub struct Mined {
    pub words: Vec<String>,
    pub ints: Vec<u64>,
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => {
                while it.peek().map_or(false, |c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

fn mine_text(src: &str, words: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let src = match src.find("#[cfg(test)]\nmod ") {
        Some(n) => &src[..n],
        None => src,
    };
    let b: Vec<char> = src.chars().collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let ident = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !ident(b[i - 1]) || b[i - 1] == 'b') {
            let mut j = i + 1;
            while at(j) == '#' {
                j += 1;
            }
            let hashes = j - i - 1;
            if at(j) != '"' {
                i += 1;
                continue;
            }
            let start = j + 1;
            j = start;
            while j < b.len() && !(b[j] == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
                j += 1;
            }
            words.insert(b[start..j.min(b.len())].iter().collect());
            i = j + 1 + hashes;
        } else if c == '"' {
            let start = i + 1;
            let mut j = start;
            while j < b.len() && b[j] != '"' {
                j += if b[j] == '\\' { 2 } else { 1 };
            }
            let s: String = b[start..j.min(b.len())].iter().collect();
            words.insert(unescape(&s));
            i = j + 1;
        } else if c == '\'' {
            // A character, or a lifetime
            if at(i + 1) == '\\' {
                let mut j = i + 3;
                while j < b.len() && b[j] != '\'' {
                    j += 1;
                }
                let s: String = b[i + 1..j.min(b.len())].iter().collect();
                words.insert(unescape(&s));
                i = j + 1;
            } else if at(i + 2) == '\'' {
                words.insert(at(i + 1).to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
            let mut j = i;
            while j < b.len() && ident(b[j]) {
                j += 1;
            }
            let s: String = b[i..j].iter().filter(|c| **c != '_').collect();
            let n = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else {
                s.trim_end_matches(|c: char| c.is_alphabetic() || c == '_').parse().ok().or_else(|| {
                    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse().ok()
                })
            };
            ints.extend(n);
            i = j;
        } else {
            i += 1;
        }
    }
}

pub fn mined() -> &'static Mined {
    static M: OnceLock<Mined> = OnceLock::new();
    M.get_or_init(|| {
        let mut files = vec![];
        sources(&repo().join("src"), &mut files);
        let (mut words, mut ints) = (BTreeSet::new(), BTreeSet::new());
        for f in &files {
            if let Ok(s) = fs::read_to_string(f) {
                mine_text(&s, &mut words, &mut ints);
            }
        }
        // Messages are of no use as input
        let mut words: Vec<String> = words
            .into_iter()
            .filter(|w| !w.is_empty() && w.chars().count() <= 20 && !w.contains("{}") && !w.trim().contains(' '))
            .collect();
        words.sort_by_key(|w| (w.len(), w.clone()));
        words.truncate(220);
        Mined {
            words,
            ints: ints.into_iter().filter(|n| *n <= 20_000).collect(),
        }
    })
}

/// Strings to put into holes, by index.
pub struct Fills {
    pub what: String,
    pub list: Vec<String>,
}

/// All strings of up to two ASCII characters.
pub fn ascii_pairs() -> Fills {
    let mut list = vec![String::new()];
    for a in 0..128u8 {
        list.push((a as char).to_string());
    }
    for a in 0..128u8 {
        for b in 0..128u8 {
            list.push([a as char, b as char].iter().collect());
        }
    }
    Fills { what: "all strings of 0..=2 ASCII characters".into(), list }
}

/// The same in two pieces.
pub fn ascii_pieces() -> Fills {
    let mut list = vec![];
    for a in 0..128u8 {
        for b in 0..128u8 {
            if a != b'<' && a != b'&' {
                list.push(format!("{}<!-- -->{}", a as char, b as char));
            }
        }
    }
    Fills { what: "each two ASCII characters with a comment between them (the first other than < and &)".into(), list }
}

/// What may begin or end something, in sequences.
pub fn delimiters(max: u32) -> Fills {
    const T: &[&str] = &["<!--", "-->", "--", "<![", "[", "]]>", "'", "\"", "<?", ">", "<b ", "</", "/", "&e;", "x "];
    let mut list = vec![String::new()];
    let mut last = 0..1;
    for _ in 0..max {
        let end = list.len();
        for i in last {
            for t in T {
                list.push(format!("{}{}", list[i], t));
            }
        }
        last = end..list.len();
    }
    Fills { what: format!("all sequences of 0..={} of {:?}", max, T), list }
}

/// The words found in the code under test, alone, each two of them, and with each ASCII character
/// before and after.
pub fn words(pairs: bool) -> Fills {
    let m = &mined().words;
    let mut list = m.clone();
    for w in m {
        for v in [w.to_lowercase(), w.to_uppercase()] {
            if v != *w {
                list.push(v);
            }
        }
    }
    if pairs {
        for a in m {
            for b in m {
                list.push(format!("{}{}", a, b));
            }
        }
    }
    for w in m {
        for a in 0..128u8 {
            list.push(format!("{}{}", a as char, w));
            list.push(format!("{}{}", w, a as char));
        }
    }
    Fills {
        what: format!(
            "the {} literals of the code under test{}, alone and with each ASCII character before and after",
            m.len(),
            if pairs { ", and each two of them" } else { "" }
        ),
        list,
    }
}

/// Each of `names` with up to two ASCII characters after it, or one before it and up to one after, or
/// two before it of those that names are made of.
pub fn around(names: &[&str]) -> Fills {
    let mut list = vec![];
    let opt = |n: u8| if n == 128 { String::new() } else { (n as char).to_string() };
    const PARTS: &str = "aZé0.-_:# ";
    for w in names {
        for a in 0..=128u8 {
            for b in 0..=128u8 {
                if a == 128 || b < 128 {
                    list.push(format!("{}{}{}", w, opt(b), opt(a)));
                }
                if a < 128 {
                    list.push(format!("{}{}{}", opt(a), w, opt(b)));
                }
            }
        }
        for a in PARTS.chars() {
            for b in PARTS.chars() {
                list.push(format!("{}{}{}", a, b, w));
                list.push(format!("{}{}{}{}", a, b, w, w));
                list.push(format!("{}{}{}{}", w, a, b, w));
            }
        }
    }
    Fills {
        what: format!("each of {:?} with up to two ASCII characters after it, or one before and up to one after, or two of {:?} before it, or between it and itself", names, PARTS),
        list,
    }
}

/// Repetition counts: all small ones, and those around the integers of the code under test.
pub fn counts(small: u64, max: u64) -> Vec<usize> {
    let mut s: BTreeSet<u64> = (0..=small).collect();
    for p in [64u64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384] {
        s.extend([p - 1, p, p + 1]);
    }
    for &n in &mined().ints {
        s.extend([n.saturating_sub(1), n, n + 1]);
    }
    s.into_iter().filter(|n| *n <= max).map(|n| n as usize).collect()
}

/// What may make a difference at the edge of something long.
const EDGES: &[&str] = &[" ", "\n", "é", "'", "&e;", "x", "]", "-", "\r\n", "&#32;"];

/// A few counts beyond all thresholds there may be.
fn few_counts(max: u64) -> Vec<usize> {
    let mut s: BTreeSet<u64> = [70, 130, 260, 1030].into();
    for &n in mined().ints.iter().filter(|n| **n >= 5) {
        s.extend([n, n + 1]);
    }
    s.into_iter().filter(|n| *n <= max).map(|n| n as usize).collect()
}

/// Each unit repeated by each count.
pub fn repeats(units: &[&str], small: u64, max: u64) -> Fills {
    let c = counts(small, max);
    let mut list = vec![];
    for u in units {
        for &n in &c {
            list.push(u.repeat(n));
        }
    }
    // With something else at one of the ends, or in the middle
    let few = few_counts(max);
    for u in units {
        for &n in &few {
            for e in EDGES {
                list.push(format!("{}{}", u.repeat(n), e));
                list.push(format!("{}{}", e, u.repeat(n)));
                list.push(format!("{}{}{}", u.repeat(n), e, u));
            }
        }
    }
    // Wide characters at all distances from the start, in bytes
    const WIDE: &[(&str, &str)] = &[("x", "é"), ("", "€"), ("x", "€"), ("xx", "€")];
    for (before, u) in WIDE {
        for &n in &c {
            list.push(format!("{}{}", before, u.repeat(n)));
        }
    }
    Fills {
        what: format!("{:?}, and wide characters, repeated each of 0..={} times, and (up to {}) around powers of two and the integers of the code under test; and {:?} times, with each of {:?} before, after, or before the last", units, small, max, few, EDGES),
        list,
    }
}

/// Each unit (other than tags) repeated more often than any 16 bits count, and more than the large integers of the code under test.
pub fn huge(units: &[&str]) -> Fills {
    let mut counts: BTreeSet<u64> = [70003].into();
    counts.extend(mined().ints.iter().filter(|n| (5000..1_000_000).contains(*n)).map(|n| n + 1));
    let mut list = vec![];
    for u in units.iter().filter(|u| !u.contains(['<', '['])) {
        for &n in &counts {
            list.push(u.repeat(n as usize));
            list.push(format!("{}\n", u.repeat(n as usize)));
        }
    }
    Fills { what: format!("{:?} (except those with < or [) repeated each of {:?} times, with a line feed after it or not", units, counts), list }
}

/// Elements in each other, each with something before and after its content, by each count.
pub fn nested(units: &[(&str, &str, &str)], small: u64, max: u64) -> Fills {
    let c = counts(small, max);
    let mut list = vec![];
    for (a, x, b) in units {
        for &n in &c {
            list.push(format!("{}{}{}", a.repeat(n), x, b.repeat(n)));
        }
        for &n in &few_counts(max) {
            for e in EDGES {
                list.push(format!("{}{}{}{}", a.repeat(n), e, x, b.repeat(n)));
                list.push(format!("{}{}{}{}", a.repeat(n), x, e, b.repeat(n)));
                list.push(format!("{}{}{}{}{}", a.repeat(n), x, b, e, b.repeat(n - 1)));
            }
        }
    }
    Fills {
        what: format!("each of {:?} with the first and last part each of 0..={} times, and (up to {}) around powers of two and the integers of the code under test", units, small, max),
        list,
    }
}

/// Every Unicode scalar value.
pub fn scalars() -> Fills {
    Fills {
        what: "every Unicode scalar value".into(),
        list: (0..=0x10ffffu32).filter_map(char::from_u32).map(String::from).collect(),
    }
}

/// Characters that anything is likely to treat specially.
pub fn odd_scalars() -> Fills {
    let mut list: Vec<String> = (0..0x3100u32).filter_map(char::from_u32).map(String::from).collect();
    for r in [0xA640..0xA700u32, 0xAB30..0xABC0, 0xD7F0..0xD7FF, 0xE000..0xE010, 0xF8F0..0xFB20, 0xFE00..0x10000, 0x10400..0x10450, 0x1F600..0x1F610, 0xE0000..0xE0010, 0x10FFF0..0x110000] {
        list.extend(r.filter_map(char::from_u32).map(String::from));
    }
    Fills { what: "each of some 15000 Unicode characters (U+0000 to U+30FF and samples of other blocks, whole)".into(), list }
}

/// Splits a template at its holes (`§`).
pub fn holes(template: &str) -> Vec<&str> {
    template.split('§').collect()
}

pub fn fill(parts: &[&str], f: &str, out: &mut String) {
    out.clear();
    out.push_str(parts[0]);
    for p in &parts[1..] {
        out.push_str(f);
        out.push_str(p);
    }
}
