//! Component types, tuples of them and the query accesses the generators choose from,
//! behind object-safe traits so that an operation can name them by index.
use crate::alloc::Tracked;
use division_ecs::query::access::ComponentQueryAccess;
use division_ecs::*;

/// One component seen through a reference handed out by the library.
pub trait CompDyn {
    fn idx(&self) -> usize;
    fn addr(&self) -> usize;
    fn eq_seed(&self, seed: u32) -> bool;
    fn set(&mut self, seed: u32);
}

pub trait Comp: Component + PartialEq + 'static {
    const IDX: usize;
    fn make(seed: u32) -> Self;
}

impl<T: Comp> CompDyn for T {
    fn idx(&self) -> usize {
        T::IDX
    }
    fn addr(&self) -> usize {
        self as *const T as usize
    }
    fn eq_seed(&self, seed: u32) -> bool {
        *self == T::make(seed)
    }
    fn set(&mut self, seed: u32) {
        *self = T::make(seed)
    }
}

pub use crate::util::mix;

#[inline]
fn m(seed: u32, i: usize) -> u64 {
    mix(((seed as u64) << 20) ^ i as u64)
}

macro_rules! comp {
    ($name:ident, $idx:expr, { $($f:ident : $t:ty = $mk:expr),* }, $(#[$at:meta])*) => {
        #[derive(Component, Clone, Copy, PartialEq)]
        $(#[$at])*
        pub struct $name { $(pub $f: $t),* }
        impl Comp for $name {
            const IDX: usize = $idx;
            fn make(seed: u32) -> Self {
                $(let $f: $t = ($mk)(seed);)*
                $name { $($f),* }
            }
        }
    };
}

comp!(C0, 0, { v: u8 = |s| m(s, 0) as u8 },);
comp!(C1, 1, { v: [u8; 3] = |s| { let x = m(s, 1); [x as u8, (x >> 8) as u8, (x >> 16) as u8] } },);
comp!(C2, 2, { v: u16 = |s| m(s, 2) as u16 },);
comp!(C3, 3, { v: u32 = |s| m(s, 3) as u32 },);
comp!(C4, 4, { v: [u32; 3] = |s| std::array::from_fn(|i| m(s, 40 + i) as u32) },);
comp!(C5, 5, { v: u64 = |s| m(s, 5) },);
comp!(C6, 6, { v: u128 = |s| (m(s, 6) as u128) << 64 | m(s, 60) as u128 },);
comp!(C7, 7, { v: [u64; 5] = |s| std::array::from_fn(|i| m(s, 70 + i)) },);
comp!(C8, 8, { v: [u8; 300] = |s| { let x = m(s, 8); std::array::from_fn(|i| (x >> (i % 8 * 8)) as u8 ^ i as u8) } },);
comp!(C9, 9, { v: [u32; 350] = |s| { let x = m(s, 9); std::array::from_fn(|i| x as u32 ^ (i as u32).wrapping_mul(0x9e3779b9)) } },);
comp!(C10, 10, { v: [u64; 600] = |s| { let x = m(s, 10); std::array::from_fn(|i| x ^ (i as u64).wrapping_mul(0x9e3779b97f4a7c15)) } },);
comp!(C11, 11, { v: [u64; 4] = |s| std::array::from_fn(|i| m(s, 110 + i)) }, #[repr(align(32))]);
comp!(C12, 12, { v: u64 = |s| m(s, 12) },);
// has padding bytes
comp!(C13, 13, { a: u8 = |s| m(s, 13) as u8, b: u32 = |s| m(s, 130) as u32, c: u16 = |s| m(s, 131) as u16 },);
// no bytes at all
comp!(C14, 14, { v: () = |_| () },);
comp!(C15, 15, { v: [u64; 0] = |_| [] },);

pub const NC: usize = 16;
pub const SIZES: [usize; NC] = [
    std::mem::size_of::<C0>(),
    std::mem::size_of::<C1>(),
    std::mem::size_of::<C2>(),
    std::mem::size_of::<C3>(),
    std::mem::size_of::<C4>(),
    std::mem::size_of::<C5>(),
    std::mem::size_of::<C6>(),
    std::mem::size_of::<C7>(),
    std::mem::size_of::<C8>(),
    std::mem::size_of::<C9>(),
    std::mem::size_of::<C10>(),
    std::mem::size_of::<C11>(),
    std::mem::size_of::<C12>(),
    std::mem::size_of::<C13>(),
    0,
    0,
];
pub const ALIGNS: [usize; NC] = [1, 1, 2, 4, 4, 8, 16, 8, 1, 4, 8, 32, 8, 4, 1, 8];

pub fn type_ids_of(mask: u32) -> Vec<std::any::TypeId> {
    use std::any::TypeId as I;
    let all = [
        I::of::<C0>(), I::of::<C1>(), I::of::<C2>(), I::of::<C3>(), I::of::<C4>(), I::of::<C5>(), I::of::<C6>(),
        I::of::<C7>(), I::of::<C8>(), I::of::<C9>(), I::of::<C10>(), I::of::<C11>(), I::of::<C12>(), I::of::<C13>(), I::of::<C14>(), I::of::<C15>(),
    ];
    (0..NC).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect()
}

/// The component sets the properties promise to be accepted.
pub fn fits(mask: u32) -> bool {
    let n = mask.count_ones() as usize;
    let (mut s, mut a) = (0, 0);
    for i in 0..NC {
        if mask >> i & 1 == 1 {
            s = s.max(SIZES[i]);
            a = a.max(ALIGNS[i]);
        }
    }
    n * (s + a) <= Store::data_page_size()
}

/// A bound on how many rows a page can hold for this set.
pub fn rows_bound(mask: u32) -> usize {
    let sum: usize = (0..NC).filter(|i| mask >> i & 1 == 1).map(|i| SIZES[i]).sum();
    Store::data_page_size() / sum.max(1)
}

macro_rules! tags {
    ($($t:ident $i:expr),*) => {
        $(#[derive(Tag)] pub struct $t;)*
        pub fn add_tag(s: &mut Store, e: Entity, t: usize) { match t { $($i => s.add_tag::<$t>(e),)* _ => unreachable!() } }
        pub fn remove_tag(s: &mut Store, e: Entity, t: usize) { match t { $($i => s.remove_tag::<$t>(e),)* _ => unreachable!() } }
        pub fn has_tag(s: &Store, e: Entity, t: usize) -> bool { match t { $($i => s.has_tag::<$t>(e),)* _ => unreachable!() } }
        pub fn ord_add(s: &mut Store, e: Entity, t: usize) { match t { $($i => s.add_entity_order_by::<$t>(e),)* _ => unreachable!() } }
        pub fn ord_next(s: &mut Store, e: Entity, a: Entity, t: usize) { match t { $($i => s.add_entity_next_to_order_by::<$t>(e, a),)* _ => unreachable!() } }
        pub fn ord_prev(s: &mut Store, e: Entity, a: Entity, t: usize) { match t { $($i => s.add_entity_previous_to_order_by::<$t>(e, a),)* _ => unreachable!() } }
        pub fn ord_remove(s: &mut Store, e: Entity, t: usize) { match t { $($i => s.remove_entity_order_by::<$t>(e),)* _ => unreachable!() } }
        pub fn get_next(s: &Store, e: Entity, t: usize) -> Option<Entity> { match t { $($i => s.get_next_entity_ordered_by::<$t>(e),)* _ => unreachable!() } }
        pub fn get_prev(s: &Store, e: Entity, t: usize) -> Option<Entity> { match t { $($i => s.get_previous_entity_ordered_by::<$t>(e),)* _ => unreachable!() } }
        pub fn get_first(s: &Store, t: usize) -> Option<Entity> { match t { $($i => s.get_first_entity_ordered_by::<$t>(),)* _ => unreachable!() } }
        pub fn get_last(s: &Store, t: usize) -> Option<Entity> { match t { $($i => s.get_last_entity_ordered_by::<$t>(),)* _ => unreachable!() } }
    };
}
tags!(T0 0, T1 1, T2 2, T3 3, T4 4);
/// Tag types; the first NG of them are also used as order groups.
pub const NT: usize = 5;
pub const NG: usize = 4;

/// A tuple of distinct component types.
pub trait Tup: ComponentTuple + 'static {
    const COMPS: &'static [usize];
    fn make(seed: &dyn Fn(usize) -> u32) -> Self;
    fn refs(r: Self::RefTuple<'_>, f: &mut dyn FnMut(&[&dyn CompDyn]));
    fn refs_mut(r: Self::MutRefTuple<'_>, f: &mut dyn FnMut(&mut [&mut dyn CompDyn]));
    fn cloned(r: Self::RefTuple<'_>, f: &mut dyn FnMut(&[&dyn CompDyn]));
}

macro_rules! tup {
    ($($t:ident),*) => {
        #[allow(non_snake_case, unused_parens)]
        impl Tup for ($($t),*) {
            const COMPS: &'static [usize] = &[$($t::IDX),*];
            fn make(seed: &dyn Fn(usize) -> u32) -> Self {
                ($(<$t as Comp>::make(seed($t::IDX))),*)
            }
            fn refs(r: <($($t),*) as ComponentTuple>::RefTuple<'_>, f: &mut dyn FnMut(&[&dyn CompDyn])) {
                let ($($t),*) = r;
                f(&[$($t as &dyn CompDyn),*])
            }
            fn refs_mut(r: <($($t),*) as ComponentTuple>::MutRefTuple<'_>, f: &mut dyn FnMut(&mut [&mut dyn CompDyn])) {
                let ($($t),*) = r;
                f(&mut [$($t as &mut dyn CompDyn),*])
            }
            fn cloned(r: <($($t),*) as ComponentTuple>::RefTuple<'_>, f: &mut dyn FnMut(&[&dyn CompDyn])) {
                let ($($t),*) = ClonedExtension::cloned(r);
                f(&[$(&$t as &dyn CompDyn),*])
            }
        }
    };
}

pub enum Item<'x, 'y> {
    R(&'x [&'y dyn CompDyn]),
    W(&'x mut [&'y mut dyn CompDyn]),
    RW(&'x [&'y dyn CompDyn], &'x mut [&'y mut dyn CompDyn]),
}

impl<'x, 'y> Item<'x, 'y> {
    /// (component, address, handed out mutably)
    pub fn parts(&self) -> Vec<(usize, usize, bool)> {
        match self {
            Item::R(r) => r.iter().map(|c| (c.idx(), c.addr(), false)).collect(),
            Item::W(w) => w.iter().map(|c| (c.idx(), c.addr(), true)).collect(),
            Item::RW(r, w) => {
                let mut v: Vec<_> = r.iter().map(|c| (c.idx(), c.addr(), false)).collect();
                v.extend(w.iter().map(|c| (c.idx(), c.addr(), true)));
                v
            }
        }
    }
    pub fn write(&mut self, seed: u32) {
        match self {
            Item::R(_) => {}
            Item::W(w) | Item::RW(_, w) => w.iter_mut().for_each(|c| c.set(seed)),
        }
    }
    /// reads every component and compares it with the seed the model has
    pub fn eq_seeds(&self, seeds: &[u32; NC]) -> Option<usize> {
        match self {
            Item::R(r) => r.iter().find(|c| !c.eq_seed(seeds[c.idx()])).map(|c| c.idx()),
            Item::W(w) => w.iter().find(|c| !c.eq_seed(seeds[c.idx()])).map(|c| c.idx()),
            Item::RW(r, w) => r
                .iter()
                .find(|c| !c.eq_seed(seeds[c.idx()]))
                .map(|c| c.idx())
                .or(w.iter().find(|c| !c.eq_seed(seeds[c.idx()])).map(|c| c.idx())),
        }
    }
}

pub trait Acc: ComponentQueryAccess + 'static {
    const READ: &'static [usize];
    const WRITE: &'static [usize];
    fn give(o: Self::AccessOutput<'_>, f: &mut dyn FnMut(Item<'_, '_>));
}
impl<T: Tup> Acc for ReadonlyAccess<T> {
    const READ: &'static [usize] = T::COMPS;
    const WRITE: &'static [usize] = &[];
    fn give(o: T::RefTuple<'_>, f: &mut dyn FnMut(Item<'_, '_>)) {
        T::refs(o, &mut |r| f(Item::R(r)))
    }
}
impl<T: Tup> Acc for WriteAccess<T> {
    const READ: &'static [usize] = &[];
    const WRITE: &'static [usize] = T::COMPS;
    fn give(o: T::MutRefTuple<'_>, f: &mut dyn FnMut(Item<'_, '_>)) {
        T::refs_mut(o, &mut |r| f(Item::W(r)))
    }
}
impl<R: Tup, W: Tup> Acc for ReadWriteAccess<R, W> {
    const READ: &'static [usize] = R::COMPS;
    const WRITE: &'static [usize] = W::COMPS;
    fn give(o: (R::RefTuple<'_>, W::MutRefTuple<'_>), f: &mut dyn FnMut(Item<'_, '_>)) {
        let (r, w) = o;
        let mut w = Some(w);
        R::refs(r, &mut |r| {
            let r: &[&dyn CompDyn] = r;
            if let Some(w) = w.take() {
                W::refs_mut(w, &mut |w| {
                    // give both lists one lifetime
                    let mut ws: Vec<&mut dyn CompDyn> = w.iter_mut().map(|x| &mut **x as &mut dyn CompDyn).collect();
                    let rs: Vec<&dyn CompDyn> = r.iter().map(|x| *x).collect();
                    f(Item::RW(&rs, &mut ws))
                })
            }
        })
    }
}

pub type OnItem<'f> = &'f mut dyn FnMut(Option<Entity>, Item<'_, '_>);

/// One observation of an iterator before a call of next: size_hint, len (if the iterator
/// reports one) and whether next then returned an item.
pub struct Step {
    pub hint: (usize, Option<usize>),
    pub len: Option<usize>,
    pub item: bool,
}

fn proto<I: Iterator>(mut it: I, limit: usize, len: impl Fn(&I) -> Option<usize>, out: &mut Vec<Step>) {
    let mut after_end = 0;
    while out.len() < limit && after_end < 4 {
        let (hint, l) = (it.size_hint(), len(&it));
        let item = it.next().is_some();
        after_end += (!item || after_end > 0) as usize;
        out.push(Step { hint, len: l, item });
    }
}

pub const ADAPTERS: usize = 6;

/// Adapters that rely on the exact length: (reported length, items really yielded) pairs.
fn adapt<I: ExactSizeIterator>(mut it: I, kind: usize, k: usize, limit: usize, out: &mut Vec<(usize, usize)>) {
    match kind {
        0 => {
            let it = it.take(k);
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
        1 => {
            let it = it.skip(k);
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
        2 => {
            let mut it = it.enumerate();
            for _ in 0..k {
                it.next();
            }
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
        3 => {
            let mut it = it.peekable();
            for _ in 0..k {
                it.peek();
                it.next();
            }
            it.peek();
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
        4 => {
            it.nth(k);
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
        _ => {
            let it = it.map(|_| ()).zip(0..limit + 10);
            let l = it.len();
            out.push((l, it.take(limit).count()));
        }
    }
}

pub const WALKS: usize = 6;
/// What identifies an item: its handle, if it carries one, and where its components are.
pub type Key = (Option<Entity>, Vec<usize>);

/// The items an iterator yields when it is driven in one of several ways.
fn walk<I: Iterator>(mut it: I, kind: usize, k: usize, limit: usize, key: impl Fn(I::Item) -> Key) -> Vec<Key> {
    let mut out = vec![];
    match kind {
        // one after the other
        0 => {
            while let (Some(i), true) = (it.next(), out.len() < limit) {
                out.push(key(i))
            }
        }
        // every k+1st
        1 => {
            while let (Some(i), true) = (it.nth(k), out.len() < limit) {
                out.push(key(i))
            }
        }
        // all after the first k
        2 => {
            for _ in 0..k {
                it.next();
            }
            it.for_each(|i| out.push(key(i)))
        }
        // the last one after the first k
        3 => {
            for _ in 0..k {
                it.next();
            }
            out.extend(it.last().map(key))
        }
        // as many as follow the first k
        4 => {
            for _ in 0..k {
                it.next();
            }
            out = vec![(None, vec![]); it.count()]
        }
        // the first one not before k, then the rest
        _ => {
            let mut n = 0;
            let at = it.find(|_| {
                n += 1;
                n > k
            });
            out.extend(at.map(&key));
            let rest: Vec<I::Item> = it.collect();
            out.extend(rest.into_iter().map(key));
        }
    }
    out
}

/// The same on a list of items.
pub fn walk_list(v: &[Key], kind: usize, k: usize) -> Vec<Key> {
    let rest = v.get(k..).unwrap_or(&[]);
    match kind {
        1 => rest.iter().step_by(k + 1).cloned().collect(),
        3 => rest.last().cloned().into_iter().collect(),
        4 => vec![(None, vec![]); rest.len()],
        _ => rest.to_vec(),
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Which {
    Comp,
    CompEnts,
    CompTag(usize),
    List,
    ListEnts,
    Ordered(usize),
    OrderedEnts(usize),
}

pub trait AccObj {
    fn read(&self) -> &'static [usize];
    fn write(&self) -> &'static [usize];
    /// Runs the query (forgetting the cached query object first if `fresh`), stops after
    /// `limit` items and returns the length reported up front, if any.
    fn run(&mut self, s: &Store, which: Which, list: &[Entity], fresh: bool, limit: usize, f: OnItem) -> Option<usize>;
    fn protocol(&mut self, s: &Store, which: Which, list: &[Entity], limit: usize) -> Vec<Step>;
    fn adapters(&mut self, s: &Store, which: Which, kind: usize, k: usize, limit: usize) -> Vec<(usize, usize)>;
}

pub struct AccImpl<A: Acc> {
    cq: ComponentQuery<A>,
    lq: EntityComponentQuery<A>,
    q0: OrderedComponentQuery<T0, A>,
    q1: OrderedComponentQuery<T1, A>,
    q2: OrderedComponentQuery<T2, A>,
    q3: OrderedComponentQuery<T3, A>,
}
impl<A: Acc> AccImpl<A> {
    pub fn new() -> Self {
        AccImpl {
            cq: ComponentQuery::new(),
            lq: EntityComponentQuery::new(),
            q0: OrderedComponentQuery::new(),
            q1: OrderedComponentQuery::new(),
            q2: OrderedComponentQuery::new(),
            q3: OrderedComponentQuery::new(),
        }
    }
}

fn filtered<A: Acc>(it: division_ecs::query::component::WithEntitiesIter<'_, A>, t: usize) -> division_ecs::query::component::FilterTagIter<'_, A> {
    match t {
        0 => it.filter_tag::<T0>(),
        1 => it.filter_tag::<T1>(),
        2 => it.filter_tag::<T2>(),
        3 => it.filter_tag::<T3>(),
        _ => it.filter_tag::<T4>(),
    }
}

macro_rules! with_group {
    ($self:ident, $g:expr, $q:ident => $body:expr) => {
        match $g {
            0 => { let $q = &mut $self.q0; $body }
            1 => { let $q = &mut $self.q1; $body }
            2 => { let $q = &mut $self.q2; $body }
            3 => { let $q = &mut $self.q3; $body }
            _ => unreachable!(),
        }
    };
}

impl<A: Acc> AccObj for AccImpl<A> {
    fn read(&self) -> &'static [usize] {
        A::READ
    }
    fn write(&self) -> &'static [usize] {
        A::WRITE
    }
    fn run(&mut self, s: &Store, which: Which, list: &[Entity], fresh: bool, limit: usize, f: OnItem) -> Option<usize> {
        if fresh {
            *self = Self::new();
        }
        let mut left = limit;
        let mut give = |e: Option<Entity>, o: A::AccessOutput<'_>| {
            A::give(o, &mut |i| f(e, i));
            left -= 1;
            left > 0
        };
        macro_rules! ents {
            ($it:expr) => {
                for (e, o) in $it {
                    if !give(Some(e), o) {
                        break;
                    }
                }
            };
        }
        macro_rules! plain {
            ($it:expr) => {
                for o in $it {
                    if !give(None, o) {
                        break;
                    }
                }
            };
        }
        match which {
            Which::Comp => {
                let it = s.component_query_iter(&mut self.cq);
                let l = it.len();
                plain!(it);
                Some(l)
            }
            Which::CompEnts => {
                let it = s.component_query_iter(&mut self.cq);
                let l = it.len();
                ents!(it.with_entities());
                Some(l)
            }
            Which::CompTag(t) => {
                ents!(filtered(s.component_query_iter(&mut self.cq).with_entities(), t));
                None
            }
            Which::List => {
                plain!(s.entity_component_query_iter(list, &mut self.lq));
                None
            }
            Which::ListEnts => {
                ents!(s.entity_component_query_iter(list, &mut self.lq).with_entities());
                None
            }
            Which::Ordered(g) => {
                let it = with_group!(self, g, q => s.ordered_query_iter(q));
                let l = it.len();
                plain!(it);
                Some(l)
            }
            Which::OrderedEnts(g) => {
                let it = with_group!(self, g, q => s.ordered_query_iter(q));
                let l = it.len();
                ents!(it.with_entities());
                Some(l)
            }
        }
    }
    fn protocol(&mut self, s: &Store, which: Which, list: &[Entity], limit: usize) -> Vec<Step> {
        let mut out = Vec::new();
        match which {
            Which::Comp => proto(s.component_query_iter(&mut self.cq), limit, |i| Some(i.len()), &mut out),
            Which::CompEnts => proto(s.component_query_iter(&mut self.cq).with_entities(), limit, |_| None, &mut out),
            Which::CompTag(t) => {
                proto(filtered(s.component_query_iter(&mut self.cq).with_entities(), t), limit, |_| None, &mut out)
            }
            Which::List => proto(s.entity_component_query_iter(list, &mut self.lq), limit, |_| None, &mut out),
            Which::ListEnts => {
                proto(s.entity_component_query_iter(list, &mut self.lq).with_entities(), limit, |_| None, &mut out)
            }
            Which::Ordered(g) => {
                proto(with_group!(self, g, q => s.ordered_query_iter(q)), limit, |i| Some(i.len()), &mut out)
            }
            Which::OrderedEnts(g) => {
                proto(with_group!(self, g, q => s.ordered_query_iter(q)).with_entities(), limit, |_| None, &mut out)
            }
        }
        out
    }
    fn adapters(&mut self, s: &Store, which: Which, kind: usize, k: usize, limit: usize) -> Vec<(usize, usize)> {
        let mut out = Vec::new();
        match which {
            Which::Comp => adapt(s.component_query_iter(&mut self.cq), kind, k, limit, &mut out),
            Which::Ordered(g) => adapt(with_group!(self, g, q => s.ordered_query_iter(q)), kind, k, limit, &mut out),
            _ => {}
        }
        out
    }
}

/// Only for some accesses: it takes the compiler long.
pub trait Walk: AccObj {
    fn walk(&mut self, s: &Store, which: Which, list: &[Entity], kind: usize, k: usize, limit: usize) -> Vec<Key>;
}
impl<A: Acc> Walk for AccImpl<A> {
    fn walk(&mut self, s: &Store, which: Which, list: &[Entity], kind: usize, k: usize, limit: usize) -> Vec<Key> {
        fn key<A: Acc>(e: Option<Entity>, o: A::AccessOutput<'_>) -> Key {
            let mut v = vec![];
            A::give(o, &mut |i| v = i.parts().iter().map(|p| p.1).collect());
            (e, v)
        }
        macro_rules! ents { ($it:expr) => { walk($it, kind, k, limit, |(e, o)| key::<A>(Some(e), o)) }; }
        macro_rules! plain { ($it:expr) => { walk($it, kind, k, limit, |o| key::<A>(None, o)) }; }
        match which {
            Which::Comp => plain!(s.component_query_iter(&mut self.cq)),
            Which::CompEnts => ents!(s.component_query_iter(&mut self.cq).with_entities()),
            Which::CompTag(t) => {
                ents!(filtered(s.component_query_iter(&mut self.cq).with_entities(), t))
            }
            Which::List => plain!(s.entity_component_query_iter(list, &mut self.lq)),
            Which::ListEnts => ents!(s.entity_component_query_iter(list, &mut self.lq).with_entities()),
            Which::Ordered(g) => plain!(with_group!(self, g, q => s.ordered_query_iter(q))),
            Which::OrderedEnts(g) => ents!(with_group!(self, g, q => s.ordered_query_iter(q)).with_entities()),
        }
    }
}
pub fn walkers() -> Vec<Box<dyn Walk>> {
    vec![
        Box::new(AccImpl::<R<C3>>::new()),
        Box::new(AccImpl::<W<C5>>::new()),
        Box::new(AccImpl::<R<C8>>::new()),
        Box::new(AccImpl::<W<C10>>::new()),
        Box::new(AccImpl::<R<(C5, C0)>>::new()),
        Box::new(AccImpl::<RW<C3, C5>>::new()),
    ]
}

pub trait TupObj {
    fn comps(&self) -> &'static [usize];
    fn archetype(&self) -> Archetype;
    fn include(&self, b: &mut ArchetypeBuilder);
    fn exclude(&self, b: &mut ArchetypeBuilder);
    fn add(&self, s: &mut Store, e: Entity, seed: &dyn Fn(usize) -> u32);
    fn remove(&self, s: &mut Store, e: Entity);
    fn refs(&self, s: &Store, e: Entity, f: &mut dyn FnMut(&[&dyn CompDyn])) -> bool;
    fn cloned(&self, s: &Store, e: Entity, f: &mut dyn FnMut(&[&dyn CompDyn])) -> bool;
    fn refs_mut(&self, s: &mut Store, e: Entity, f: &mut dyn FnMut(&mut [&mut dyn CompDyn])) -> bool;
    fn has(&self, a: &Archetype) -> bool;
    fn mask(&self) -> u32 {
        self.comps().iter().fold(0, |m, c| m | 1 << c)
    }
}
pub struct TupImpl<T>(std::marker::PhantomData<T>);
impl<T: Tup> TupObj for TupImpl<T> {
    fn comps(&self) -> &'static [usize] {
        T::COMPS
    }
    fn archetype(&self) -> Archetype {
        Archetype::with_components::<T>()
    }
    fn include(&self, b: &mut ArchetypeBuilder) {
        b.include_components::<T>();
    }
    fn exclude(&self, b: &mut ArchetypeBuilder) {
        b.exclude_components::<T>();
    }
    fn add(&self, s: &mut Store, e: Entity, seed: &dyn Fn(usize) -> u32) {
        let v = T::make(seed);
        let _t = Tracked::on_if();
        s.add_components(e, v)
    }
    fn remove(&self, s: &mut Store, e: Entity) {
        let _t = Tracked::on_if();
        s.remove_components::<T>(e)
    }
    fn refs(&self, s: &Store, e: Entity, f: &mut dyn FnMut(&[&dyn CompDyn])) -> bool {
        match s.get_components_refs::<T>(e) {
            Some(r) => {
                T::refs(r, f);
                true
            }
            None => false,
        }
    }
    fn cloned(&self, s: &Store, e: Entity, f: &mut dyn FnMut(&[&dyn CompDyn])) -> bool {
        match s.get_components_refs::<T>(e) {
            Some(r) => {
                T::cloned(r, f);
                true
            }
            None => false,
        }
    }
    fn refs_mut(&self, s: &mut Store, e: Entity, f: &mut dyn FnMut(&mut [&mut dyn CompDyn])) -> bool {
        match s.get_components_refs_mut::<T>(e) {
            Some(r) => {
                T::refs_mut(r, f);
                true
            }
            None => false,
        }
    }
    fn has(&self, a: &Archetype) -> bool {
        T::is_archetype_include_types(a)
    }
}

macro_rules! tuples {
    ($( ($($t:ident),*) )*) => {
        $(tup!($($t),*);)*
        pub fn tuples() -> Vec<Box<dyn TupObj>> {
            vec![$(Box::new(TupImpl::<($($t),*)>(std::marker::PhantomData))),*]
        }
    };
}
// the first NC entries are the single components, in order
tuples! {
    (C0) (C1) (C2) (C3) (C4) (C5) (C6) (C7) (C8) (C9) (C10) (C11) (C12) (C13) (C14) (C15)
    (C14, C3) (C15, C14) (C0, C15, C9) (C5, C14, C2, C15)
    (C5, C0) (C3, C13) (C6, C2) (C8, C3) (C9, C1) (C10, C12) (C4, C10) (C8, C9)
    (C2, C6, C0) (C12, C3, C7) (C13, C11, C1) (C9, C5, C8)
    (C12, C0, C4, C3) (C8, C7, C6, C5)
    (C1, C2, C3, C5, C6)
    (C6, C5, C4, C3, C2, C1)
    (C13, C0, C12, C1, C7, C2, C5)
    (C11, C3, C8, C5, C0, C7, C1, C13)
    (C0, C1, C2, C3, C4, C5, C6, C7, C8)
    (C8, C7, C6, C5, C4, C3, C2, C1, C0, C12)
    (C12, C2, C4, C6, C0, C11, C13, C1, C3, C5, C7)
    (C0, C1, C2, C3, C4, C5, C6, C7, C8, C11, C12, C13)
}

macro_rules! accs {
    ($( $a:ty ; )*) => {
        pub fn accs() -> Vec<Box<dyn AccObj>> {
            vec![$(Box::new(AccImpl::<$a>::new())),*]
        }
    };
}
type R<T> = ReadonlyAccess<T>;
type W<T> = WriteAccess<T>;
type RW<A, B> = ReadWriteAccess<A, B>;
accs! {
    R<C0>; R<C2>; R<C3>; R<C5>; R<C6>; R<C8>; R<C9>; R<C10>; R<C12>; R<C13>;
    W<C1>; W<C3>; W<C5>; W<C8>; W<C10>; W<C11>; W<C12>;
    R<(C5, C0)>; R<(C3, C13)>; R<(C8, C3)>; R<(C2, C6, C0)>; R<(C12, C3, C7)>;
    W<(C3, C5)>; W<(C9, C8)>; W<(C2, C6, C0)>; W<(C13, C11, C1)>;
    R<(C14, C3)>; W<(C5, C14, C2, C15)>; R<(C8, C7, C6, C5)>; W<(C12, C0, C4, C3)>; R<(C0, C1, C2, C3, C4, C5, C6, C7, C8, C11, C12, C13)>;
    W<(C13, C0, C12, C1, C7, C2, C5)>;
    RW<C3, C5>; RW<C5, C3>; RW<C8, C12>; RW<C9, C8>; RW<(C0, C5), C3>; RW<C12, (C3, C7)>; RW<(C2, C6), (C0, C1)>; RW<C15, C12>; RW<(C12, C7), C14>;
    RW<(C6, C5, C4), (C3, C2, C1)>;
}
tup!(C3, C5);
tup!(C12, C7);
tup!(C9, C8);
tup!(C0, C5);
tup!(C3, C7);
tup!(C2, C6);
tup!(C0, C1);
tup!(C6, C5, C4);
tup!(C3, C2, C1);
