//! Element trees, as the reference for what is deserialized.
use crate::refparse::Ev;

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub kids: Vec<Kid>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    Node(Node),
    Text(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    /// The root element, and how many events it takes.
    Root(Node, usize),
    /// An end tag within the root has another name than the element it ends.
    Mismatch,
    /// The root never ends.
    Unfinished,
    /// The root has events that data cannot be read from.
    Unsupported,
    /// There is no root where there should be.
    NoRoot,
    /// Not a list of events that the parser would come up with.
    Strange,
}

impl Node {
    pub fn nodes(&self) -> impl Iterator<Item = &Node> {
        self.kids.iter().filter_map(|k| match k {
            Kid::Node(n) => Some(n),
            Kid::Text(_) => None,
        })
    }
    /// All text in the element, in order.
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Kid::Node(n) => n.text(),
                Kid::Text(t) => t.clone(),
            })
            .collect()
    }
}

pub fn tree(events: &[Ev]) -> Tree {
    match events.first() {
        Some(Ev::Open(_)) => {}
        Some(Ev::Decl(..) | Ev::Pi(_) | Ev::Section(..)) => return Tree::Unsupported,
        _ => return Tree::NoRoot,
    }
    let mut stack: Vec<Node> = vec![];
    let mut in_tag = false;
    for (i, e) in events.iter().enumerate() {
        let mut done = None;
        match e {
            Ev::Open(n) => {
                if n.is_empty() {
                    return Tree::Unsupported;
                }
                if in_tag {
                    return Tree::Strange;
                }
                in_tag = true;
                stack.push(Node { name: n.clone(), attrs: vec![], kids: vec![] });
            }
            Ev::Attr(n, v) => {
                if !in_tag {
                    return Tree::Strange;
                }
                stack.last_mut().unwrap().attrs.push((n.clone(), v.clone()));
            }
            Ev::Close | Ev::XmlClose if !in_tag => return Tree::Strange,
            Ev::Close => in_tag = false,
            Ev::XmlClose => {
                in_tag = false;
                done = stack.pop();
            }
            Ev::End(n) => {
                if n.is_empty() {
                    return Tree::Unsupported;
                }
                if in_tag {
                    return Tree::Strange;
                }
                if stack.last().map(|x| &x.name) != Some(n) {
                    return Tree::Mismatch;
                }
                done = stack.pop();
            }
            Ev::Text(t) => {
                if in_tag {
                    return Tree::Strange;
                }
                stack.last_mut().unwrap().kids.push(Kid::Text(t.clone()));
            }
            Ev::Decl(..) | Ev::Pi(_) | Ev::Section(..) => return Tree::Unsupported,
        }
        if let Some(n) = done {
            match stack.last_mut() {
                Some(p) => p.kids.push(Kid::Node(n)),
                None => return Tree::Root(n, i + 1),
            }
        }
    }
    Tree::Unfinished
}
