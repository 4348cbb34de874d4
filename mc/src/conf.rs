//! Parser configurations, shared by the model and the real parser.
use sgmlish::parser::{MarkedSectionHandling, NameNormalization, Parser, ParserBuilder};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ms {
    Keep,
    Chars,
    All,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Names {
    Same,
    Lower,
    Upper,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Conf {
    pub trim: bool,
    pub names: Names,
    pub ms: Ms,
    pub ignore_decls: bool,
    pub ignore_pis: bool,
    pub ents: bool,
    pub pents: bool,
}

pub const DEFAULT: Conf = Conf {
    trim: true,
    names: Names::Same,
    ms: Ms::Chars,
    ignore_decls: false,
    ignore_pis: false,
    ents: false,
    pents: false,
};

/// The entities the closure given to the parser knows.
pub fn entity(name: &str) -> Option<&'static str> {
    Some(match name {
        "e" => "E",
        "lt" => "<",
        "amp" => "&",
        "nest" => "&e;",
        "sp" => " ",
        "no" => "",
        "mk" => "<b>x</b>",
        "#SP" => " ",
        "é" => "ACUTE",
        _ => return None,
    })
}

pub fn parameter_entity(name: &str) -> Option<&'static str> {
    Some(match name {
        "inc" => "INCLUDE",
        "ign" => "IGNORE",
        "cd" => "CDATA",
        "rc" => "RCDATA",
        "two" => "INCLUDE IGNORE",
        "bad" => "FOO",
        "none" => "",
        "self" => "%inc;",
        _ => return None,
    })
}

thread_local! {
    /// Calls to the entity closure, when being recorded.
    pub static CALLS: RefCell<Vec<String>> = RefCell::new(Vec::new());
}

pub fn take_calls() -> Vec<String> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

impl Conf {
    pub fn builder(&self) -> ParserBuilder {
        let mut b = Parser::builder()
            .trim_whitespace(self.trim)
            .name_normalization(match self.names {
                Names::Same => NameNormalization::Unchanged,
                Names::Lower => NameNormalization::ToLowercase,
                Names::Upper => NameNormalization::ToUppercase,
            })
            .marked_section_handling(match self.ms {
                Ms::Keep => MarkedSectionHandling::KeepUnmodified,
                Ms::Chars => MarkedSectionHandling::AcceptOnlyCharacterData,
                Ms::All => MarkedSectionHandling::ExpandAll,
            })
            .ignore_markup_declarations(self.ignore_decls)
            .ignore_processing_instructions(self.ignore_pis);
        if self.ents {
            b = b.expand_entities(|n: &str| entity(n));
        }
        if self.pents {
            b = b.expand_parameter_entities(|n: &str| parameter_entity(n));
        }
        b
    }
    pub fn recording_builder(&self) -> ParserBuilder {
        self.builder().expand_entities(|n: &str| {
            CALLS.with(|c| c.borrow_mut().push(n.to_owned()));
            entity(n)
        })
    }
    pub fn parser(&self) -> Parser {
        self.builder().build()
    }

    /// Every combination of settings (with both entity closures given, or neither).
    pub fn all() -> Vec<Conf> {
        let mut v = vec![];
        for ms in [Ms::Chars, Ms::All, Ms::Keep] {
            for trim in [true, false] {
                for names in [Names::Same, Names::Lower, Names::Upper] {
                    for (ignore_decls, ignore_pis) in
                        [(false, false), (true, false), (false, true), (true, true)]
                    {
                        for ents in [true, false] {
                            v.push(Conf {
                                trim,
                                names,
                                ms,
                                ignore_decls,
                                ignore_pis,
                                ents,
                                pents: ents,
                            });
                        }
                    }
                }
            }
        }
        v
    }
    /// A smaller set in which every pair of settings appears.
    pub fn few() -> Vec<Conf> {
        let c = |trim, names, ms, ignore_decls, ignore_pis, ents| Conf {
            trim,
            names,
            ms,
            ignore_decls,
            ignore_pis,
            ents,
            pents: ents,
        };
        use self::{Ms::*, Names::*};
        vec![
            DEFAULT,
            c(false, Lower, All, false, true, true),
            c(true, Upper, All, true, false, true),
            c(false, Same, Keep, true, true, true),
            c(true, Lower, Keep, false, false, true),
            c(false, Upper, Chars, true, true, true),
            c(true, Same, All, false, false, false),
        ]
    }
}
