//! Queries of every shape, built step by step through the public builder.

use std::marker::PhantomData;

use serde_json::Value;
use soupy::{
    query::{Query, QueryItem},
    Node, Pattern, Queryable, Soup,
};

use crate::pat::Pat;

/// One builder call.
pub enum Op {
    Strict,
    Recursive,
    Tag(Pat),
    Attr(Pat, Pat),
    AttrName(Pat),
    AttrValue(Pat),
    Class(Pat),
}

pub fn op(v: &Value) -> Option<Op> {
    let p = || Pat::new(&v["p"]);
    let w = || Pat::new(&v["v"]);
    Some(match v["o"].as_str().unwrap() {
        "strict" => Op::Strict,
        "recursive" => Op::Recursive,
        "tag" => Op::Tag(p()?),
        "attr" => Op::Attr(p()?, w()?),
        "attr_name" => Op::AttrName(p()?),
        "attr_value" => Op::AttrValue(w()?),
        "class" => Op::Class(p()?),
        o => panic!("HARNESS unknown builder call {o}"),
    })
}

/// None: needs a feature this harness was built without.
pub fn ops(v: &Value) -> Option<&'static [Op]> {
    let v: Option<Vec<Op>> = v.as_array().expect("HARNESS ops").iter().map(op).collect();
    v.map(|v| &*Box::leak(v.into_boxed_slice()))
}

pub trait Searchable: Node<Text: Ord + AsRef<str> + From<&'static str>> + 'static
where
    for<'p> &'p Pat: Pattern<Self::Text>,
{
}
impl<N> Searchable for N
where
    N: Node<Text: Ord + AsRef<str> + From<&'static str>> + 'static,
    for<'p> &'p Pat: Pattern<N::Text>,
{
}

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    All,
    Into,
    First,
}

pub type Items<'x, N> = Box<dyn Iterator<Item = QueryItem<'x, N>> + 'x>;

/// A query whose type was forgotten.
pub trait Search<'x, N> {
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x>;
    fn run(self: Box<Self>, how: How) -> Items<'x, N>;
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>>;
}

pub struct Z;
pub struct S<L>(PhantomData<L>);

/// How many more filters fit.
pub trait Level<'x, N: Node + 'x>: 'x {
    fn wrap<Q>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x;
}

struct Full<Q>(Q);
struct More<Q, L>(Q, PhantomData<L>);

fn run<'x, N, Q>(q: Q, how: How) -> Items<'x, N>
where
    N: Node + 'x,
    Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
{
    match how {
        How::All => Box::new(q.all()),
        How::Into => Box::new(q.into_iter()),
        How::First => Box::new(q.first().into_iter()),
    }
}

impl<'x, N: Searchable> Level<'x, N> for Z
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn wrap<Q>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    {
        Box::new(Full(q))
    }
}

impl<'x, N: Searchable, L: Level<'x, N>> Level<'x, N> for S<L>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn wrap<Q>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    {
        Box::new(More::<Q, L>(q, PhantomData))
    }
}

impl<'x, N: Searchable, Q> Search<'x, N> for Full<Q>
where
    Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x> {
        match op {
            Op::Strict => Box::new(Full(self.0.strict())),
            Op::Recursive => Box::new(Full(self.0.recursive())),
            _ => panic!("HARNESS too many filters"),
        }
    }
    fn run(self: Box<Self>, how: How) -> Items<'x, N> {
        run(self.0, how)
    }
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>> {
        None
    }
}

fn refine<'x, N: Searchable, Q, L: Level<'x, N>>(q: Q, op: &'static Op) -> Box<dyn Search<'x, N> + 'x>
where
    Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    for<'p> &'p Pat: Pattern<N::Text>,
{
    match op {
        Op::Tag(p) => L::wrap(q.tag(p)),
        Op::Attr(p, v) => L::wrap(q.attr(p, v)),
        Op::AttrName(p) => L::wrap(q.attr_name(p)),
        Op::AttrValue(v) => L::wrap(q.attr_value(v)),
        Op::Class(p) => L::wrap(q.class(p)),
        Op::Strict | Op::Recursive => panic!("HARNESS mode"),
    }
}

impl<'x, N: Searchable, Q, L: Level<'x, N>> Search<'x, N> for More<Q, L>
where
    Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x> {
        match op {
            Op::Strict => Box::new(More::<_, L>(self.0.strict(), PhantomData)),
            Op::Recursive => Box::new(More::<_, L>(self.0.recursive(), PhantomData)),
            _ => refine::<N, Q, L>(self.0, op),
        }
    }
    fn run(self: Box<Self>, how: How) -> Items<'x, N> {
        run(self.0, how)
    }
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>> {
        None
    }
}

/// The document itself, as the start of a query.
pub struct Whole<'x, N>(pub &'x Soup<N>);
/// An unfiltered query: the only kind that can be copied.
pub struct Plain<'x, N>(Query<'x, N, ()>);

impl<'x, N: Searchable> Search<'x, N> for Whole<'x, N>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x> {
        match op {
            Op::Strict => Box::new(Plain(self.0.strict())),
            Op::Recursive => Box::new(Plain(self.0.recursive())),
            _ => refine::<N, &'x Soup<N>, S<S<Z>>>(self.0, op),
        }
    }
    fn run(self: Box<Self>, how: How) -> Items<'x, N> {
        match how {
            How::Into => Box::new(self.0.iter()),
            _ => run(self.0, how),
        }
    }
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>> {
        Some(Box::new(Whole(self.0)))
    }
}

impl<'x, N: Searchable> Search<'x, N> for Plain<'x, N>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x> {
        match op {
            Op::Strict => Box::new(Plain(self.0.strict())),
            Op::Recursive => Box::new(Plain(self.0.recursive())),
            _ => refine::<N, Query<'x, N, ()>, S<S<Z>>>(self.0, op),
        }
    }
    fn run(self: Box<Self>, how: How) -> Items<'x, N> {
        run(self.0, how)
    }
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>> {
        // both ways of duplicating it
        let a = self.0;
        let b = Clone::clone(&a);
        Some(Box::new(Plain(b)))
    }
}

pub fn start<'x, N: Searchable>(soup: &'x Soup<N>) -> Box<dyn Search<'x, N> + 'x>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    Box::new(Whole(soup))
}

pub fn query<'x, N: Searchable>(soup: &'x Soup<N>, ops: &'static [Op]) -> Box<dyn Search<'x, N> + 'x>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let mut q = if ops.iter().filter(|o| !matches!(o, Op::Strict | Op::Recursive)).count() > 3 { long(soup, ops) } else { start(soup) };
    for o in ops {
        q = q.op(o);
    }
    q
}

// ---- long chains of filters: all of one kind, or the kinds in turn ---------------------------------

type Eight = S<S<S<S<S<S<S<S<Z>>>>>>>>;

struct Tags;
struct Attrs;
struct Names;
struct Values;
struct Classes;
/// The kinds in turn.
struct Turn<const K: usize>;
struct Chain<Q, K, L>(Q, PhantomData<(K, L)>);

trait Links<'x, N: Node + 'x>: 'x {
    fn link<Q, K: Link<'x, N>>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x;
}

/// Which filter comes next.
trait Link<'x, N: Node + 'x>: 'static {
    type Next: Link<'x, N>;
    fn add<Q, L: Links<'x, N>>(q: Q, op: &'static Op) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x;
}
macro_rules! links {
    ($($k:ty, $n:ty: $p:pat, $q:ident => $e:expr);*) => { $(
        impl<'x, N: Searchable> Link<'x, N> for $k
        where
            for<'p> &'p Pat: Pattern<N::Text>,
        {
            type Next = $n;
            fn add<Q, L: Links<'x, N>>($q: Q, op: &'static Op) -> Box<dyn Search<'x, N> + 'x>
            where
                Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
            {
                match op {
                    $p => L::link::<_, $n>($e),
                    _ => panic!("HARNESS chain"),
                }
            }
        })*
    };
}
links!(Tags, Tags: Op::Tag(p), q => q.tag(p); Attrs, Attrs: Op::Attr(p, v), q => q.attr(p, v); Names, Names: Op::AttrName(p), q => q.attr_name(p);
       Values, Values: Op::AttrValue(v), q => q.attr_value(v); Classes, Classes: Op::Class(p), q => q.class(p);
       Turn<0>, Turn<1>: Op::Tag(p), q => q.tag(p); Turn<1>, Turn<2>: Op::Attr(p, v), q => q.attr(p, v); Turn<2>, Turn<3>: Op::AttrName(p), q => q.attr_name(p);
       Turn<3>, Turn<4>: Op::AttrValue(v), q => q.attr_value(v); Turn<4>, Turn<0>: Op::Class(p), q => q.class(p));

impl<'x, N: Searchable> Links<'x, N> for Z
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn link<Q, K: Link<'x, N>>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    {
        Box::new(Full(q))
    }
}
impl<'x, N: Searchable, L: Links<'x, N>> Links<'x, N> for S<L>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn link<Q, K: Link<'x, N>>(q: Q) -> Box<dyn Search<'x, N> + 'x>
    where
        Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    {
        Box::new(Chain::<Q, K, L>(q, PhantomData))
    }
}
impl<'x, N: Searchable, Q, K: Link<'x, N>, L: Links<'x, N>> Search<'x, N> for Chain<Q, K, L>
where
    Q: Queryable<'x, Node = N> + IntoIterator<Item = QueryItem<'x, N>> + 'x,
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn op(self: Box<Self>, op: &'static Op) -> Box<dyn Search<'x, N> + 'x> {
        match op {
            Op::Strict => Box::new(Chain::<_, K, L>(self.0.strict(), PhantomData)),
            Op::Recursive => Box::new(Chain::<_, K, L>(self.0.recursive(), PhantomData)),
            _ => K::add::<Q, L>(self.0, op),
        }
    }
    fn run(self: Box<Self>, how: How) -> Items<'x, N> {
        run(self.0, how)
    }
    fn copy(&self) -> Option<Box<dyn Search<'x, N> + 'x>> {
        None
    }
}

fn long<'x, N: Searchable>(soup: &'x Soup<N>, ops: &'static [Op]) -> Box<dyn Search<'x, N> + 'x>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let mut f = ops.iter().filter(|o| !matches!(o, Op::Strict | Op::Recursive));
    let q = soup.recursive();
    match (f.next(), f.next()) {
        (Some(Op::Tag(_)), Some(Op::Tag(_))) => <Eight as Links<N>>::link::<_, Tags>(q),
        (Some(Op::Tag(_)), _) => <Eight as Links<N>>::link::<_, Turn<0>>(q),
        (Some(Op::Attr(..)), _) => <Eight as Links<N>>::link::<_, Attrs>(q),
        (Some(Op::AttrName(_)), _) => <Eight as Links<N>>::link::<_, Names>(q),
        (Some(Op::AttrValue(_)), _) => <Eight as Links<N>>::link::<_, Values>(q),
        _ => <Eight as Links<N>>::link::<_, Classes>(q),
    }
}
