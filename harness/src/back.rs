//! The same document in every node type the library can search: a user-defined node, the
//! public HTML and XML node types built directly, and the three parsers' own output.
//! Every node carries the position it has in the specification's document.

use std::{
    cell::RefCell,
    cmp::Ordering,
    collections::{BTreeMap, HashMap},
    convert::Infallible,
    fmt,
    marker::PhantomData,
    sync::Arc,
};

use serde_json::Value;
use soupy::{parser::Parser, Node, Soup};

use crate::flat;

/// One node of a specification document.
#[derive(Clone, Debug)]
pub struct Spec {
    pub d: usize,
    pub k: String,
    pub n: String,
    pub a: Vec<(String, String)>,
    pub t: String,
}

pub fn doc(v: &Value) -> Vec<Spec> {
    v.as_array()
        .expect("HARNESS doc")
        .iter()
        .map(|x| Spec {
            d: x["d"].as_u64().unwrap() as usize,
            k: x["k"].as_str().unwrap().to_string(),
            n: flat::text(&x["n"]),
            a: x["a"].as_array().unwrap().iter().map(|p| (flat::text(&p[0]), flat::text(&p[1]))).collect(),
            t: flat::text(&x["t"]),
        })
        .collect()
}

/// A node type that can be built from a specification document.
pub trait Make: Node + Clone + Sized + 'static {
    fn can(k: &str) -> bool;
    fn make(id: usize, s: &Spec, kids: Vec<Self>) -> Self;
    /// position in the specification's document
    fn id(&self) -> usize;
}

/// Builds the whole document; None if the node type cannot express it.
pub fn build<N: Make>(doc: &[Spec]) -> Option<Vec<N>> {
    if !doc.iter().all(|s| N::can(&s.k)) {
        return None;
    }
    // last node first: children are complete before their parent
    let mut open: Vec<(usize, Vec<N>)> = vec![];
    for (i, s) in doc.iter().enumerate().rev() {
        let kids = match open.last() {
            Some((d, _)) if *d == s.d + 1 => {
                let mut k = open.pop().unwrap().1;
                k.reverse();
                k
            }
            _ => vec![],
        };
        let n = N::make(i + 1, s, kids);
        match open.last_mut() {
            Some((d, v)) if *d == s.d => v.push(n),
            _ => open.push((s.d, vec![n])),
        }
    }
    let mut roots = open.pop().map_or(vec![], |o| o.1);
    roots.reverse();
    Some(roots)
}

/// A user-supplied parser that hands over ready-made nodes.
pub struct Ready<N>(PhantomData<N>);
impl<N: Node> Parser for Ready<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = Infallible;
    fn parse(input: Vec<N>) -> Result<Vec<N>, Infallible> {
        Ok(input)
    }
}

pub fn soup<N: Node>(nodes: Vec<N>) -> Soup<N> {
    match Soup::new::<Ready<N>>(nodes) {
        Ok(s) => s,
        Err(e) => match e {},
    }
}

// ---- a text type of the user's own ----------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Word(pub Box<str>);
impl AsRef<str> for Word {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl From<&str> for Word {
    fn from(s: &str) -> Self {
        Word(s.into())
    }
}
impl fmt::Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

/// A node type of the user's own.
#[derive(Clone, Debug)]
pub struct Plain {
    id: usize,
    name: Option<Word>,
    text: Option<Word>,
    attrs: Option<BTreeMap<Word, Word>>,
    kids: Arc<[Plain]>,
}

/// While a document is being built with equal lists of children kept once: the lists there are,
/// and which position stands for which.
type Lists = (HashMap<String, Arc<[Plain]>>, BTreeMap<usize, usize>);
thread_local!(static LISTS: RefCell<Option<Lists>> = const { RefCell::new(None) });

fn kept(kids: Vec<Plain>) -> Arc<[Plain]> {
    LISTS.with(|l| {
        let mut l = l.borrow_mut();
        let Some((lists, stands)) = &mut *l else { return kids.into() };
        let key: Vec<_> = kids.iter().map(|k| (&k.name, &k.text, &k.attrs, k.kids.as_ptr() as usize * usize::from(!k.kids.is_empty()))).collect();
        let all = lists.entry(format!("{key:?}")).or_insert_with(|| kids.clone().into());
        for (k, a) in kids.iter().zip(all.iter()) {
            stands.insert(k.id, a.id);
        }
        all.clone()
    })
}

/// The document in nodes that share equal lists of children, and the position each one is told by;
/// None if nothing is shared.
pub fn shared(doc: &[Spec]) -> Option<(Vec<Plain>, Vec<usize>)> {
    LISTS.with(|l| *l.borrow_mut() = Some(Lists::default()));
    let nodes = build::<Plain>(doc);
    let (_, stands) = LISTS.with(|l| l.borrow_mut().take()).unwrap();
    let canon: Vec<usize> = (0..=doc.len()).map(|i| stands.get(&i).copied().unwrap_or(i)).collect();
    if canon.iter().enumerate().all(|(i, c)| i == *c) {
        return None;
    }
    nodes.map(|n| (n, canon))
}

impl Node for Plain {
    type Text = Word;
    fn name(&self) -> Option<&Word> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&Word> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<Word, Word>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Self] {
        &self.kids
    }
}

fn w(s: &str) -> Word {
    Word(s.into())
}

impl Make for Plain {
    fn can(_: &str) -> bool {
        true
    }
    fn make(id: usize, s: &Spec, kids: Vec<Self>) -> Self {
        let k = s.k.as_str();
        Plain {
            id,
            name: matches!(k, "el" | "void" | "raw" | "tagonly" | "rich").then(|| w(&s.n)),
            text: matches!(k, "text" | "rich").then(|| w(&s.t)),
            attrs: matches!(k, "el" | "void" | "raw" | "bag" | "rich")
                .then(|| s.a.iter().map(|(n, v)| (w(n), w(v))).collect()),
            kids: kept(kids),
        }
    }
    fn id(&self) -> usize {
        self.id
    }
}

// ---- HTML nodes over a text type that remembers where it belongs -------------------------

#[derive(Clone, Debug)]
pub struct Tagged {
    pub s: String,
    pub id: usize,
}
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.s == o.s
    }
}
impl Eq for Tagged {}
impl PartialOrd for Tagged {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tagged {
    fn cmp(&self, o: &Self) -> Ordering {
        self.s.cmp(&o.s)
    }
}
impl AsRef<str> for Tagged {
    fn as_ref(&self) -> &str {
        &self.s
    }
}
impl From<&str> for Tagged {
    fn from(s: &str) -> Self {
        Tagged { s: s.into(), id: 0 }
    }
}
impl fmt::Display for Tagged {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.s.fmt(f)
    }
}

#[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
impl Make for soupy::parser::HTMLNode<Tagged> {
    fn can(k: &str) -> bool {
        !matches!(k, "tagonly" | "bag" | "rich")
    }
    fn make(id: usize, s: &Spec, children: Vec<Self>) -> Self {
        use soupy::parser::HTMLNode as H;
        let tag = |x: &str| Tagged { s: x.into(), id };
        let attrs = s.a.iter().map(|(n, v)| (tag(n), tag(v))).collect();
        match s.k.as_str() {
            "el" => H::Element { name: tag(&s.n), attrs, children },
            "void" => H::Void { name: tag(&s.n), attrs },
            "raw" => H::RawElement { name: tag(&s.n), attrs, content: tag(&s.t) },
            "text" => H::Text(tag(&s.t)),
            "doctype" => H::Doctype(tag(&s.t)),
            // the nearest HTML has to CDATA and processing instructions
            _ => H::Comment(tag(&s.t)),
        }
    }
    fn id(&self) -> usize {
        use soupy::parser::HTMLNode as H;
        match self {
            H::Element { name: t, .. }
            | H::Void { name: t, .. }
            | H::RawElement { name: t, .. }
            | H::Text(t)
            | H::Doctype(t)
            | H::Comment(t) => t.id,
        }
    }
}

// ---- XML nodes: the prefix of an element and a marked tail of other contents hold the id ----

#[cfg(feature = "uses-xml")]
pub const MARK: char = '\u{1}';

#[cfg(feature = "uses-xml")]
impl Make for soupy::parser::XMLNode {
    fn can(k: &str) -> bool {
        !matches!(k, "tagonly" | "bag" | "rich")
    }
    fn make(id: usize, s: &Spec, children: Vec<Self>) -> Self {
        use soupy::parser::{XMLElement, XMLNode as X};
        let mark = |x: &str| format!("{x}{MARK}{id}");
        match s.k.as_str() {
            "el" | "void" | "raw" => X::Element(XMLElement {
                prefix: Some(id.to_string()),
                name: s.n.clone(),
                attributes: s.a.iter().cloned().collect(),
                children,
                ..Default::default()
            }),
            "text" => X::Text(mark(&s.t)),
            "cdata" => X::CData(mark(&s.t)),
            "pi" => X::ProcessingInstruction("pi".into(), Some(mark(&s.t))),
            _ => X::Comment(mark(&s.t)),
        }
    }
    fn id(&self) -> usize {
        use soupy::parser::XMLNode as X;
        let tail = |t: &str| t.rsplit(MARK).next().and_then(|x| x.parse().ok()).unwrap_or(0);
        match self {
            X::Element(e) => e.prefix.as_ref().and_then(|p| p.parse().ok()).unwrap_or(0),
            X::Text(t) | X::CData(t) | X::Comment(t) => tail(t),
            X::ProcessingInstruction(_, t) => t.as_ref().map_or(0, |t| tail(t)),
        }
    }
}
