//! Component storage machine (C11): many component types of all sizes and alignments, sets of
//! up to 30 of them, and histories that fill, empty and reuse pages.
use crate::alloc;
use crate::alloc::Tracked;
use crate::case::Case;
use crate::comps::mix;
use crate::world::{h, quiet, Res};
use division_ecs::*;
use std::collections::BTreeMap;

macro_rules! aligned {
    ($($name:ident $a:literal),*) => { $(
        #[repr(C, align($a))]
        #[derive(Clone, Copy)]
        pub struct $name<const N: usize, const M: usize>([u8; N]);
        impl<const N: usize, const M: usize> Component for $name<N, M> {}
        impl<const N: usize, const M: usize> Bytes for $name<N, M> {
            fn make(seed: u32) -> Self {
                let x = mix(seed as u64);
                $name(std::array::from_fn(|i| byte(x, i)))
            }
            fn is(&self, seed: u32) -> bool {
                let x = mix(seed as u64);
                self.0.iter().enumerate().all(|(i, b)| *b == byte(x, i))
            }
        }
    )* };
}
fn byte(x: u64, i: usize) -> u8 {
    (x >> (i % 8 * 8)) as u8 ^ (i / 8) as u8
}
pub trait Bytes: Component + 'static {
    fn make(seed: u32) -> Self;
    fn is(&self, seed: u32) -> bool;
}
aligned!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128, A256 256, A512 512, A1024 1024, A2048 2048, A4096 4096);

#[derive(Clone, Copy)]
pub struct Ty {
    pub ty: fn() -> ComponentType,
    pub size: usize,
    pub align: usize,
    pub addr: fn(&Store, Entity) -> Option<usize>,
    pub set: fn(&mut Store, Entity, u32) -> bool,
    pub is: fn(&Store, Entity, u32) -> Option<bool>,
    pub add: fn(&mut Store, Entity, u32),
    pub remove: fn(&mut Store, Entity),
}
fn ty<T: Bytes>() -> Ty {
    Ty {
        ty: || ComponentType::of::<T>(),
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        addr: |s, e| s.get_components_refs::<T>(e).map(|r| r as *const T as usize),
        set: |s, e, x| s.get_components_refs_mut::<T>(e).map(|r| *r = T::make(x)).is_some(),
        is: |s, e, x| s.get_components_refs::<T>(e).map(|r| r.is(x)),
        add: |s, e, x| s.add_components(e, T::make(x)),
        remove: |s, e| s.remove_components::<T>(e),
    }
}
macro_rules! types {
    ($($name:ident: $($n:literal)*;)*) => { vec![$($(ty::<$name<$n, 0>>(), ty::<$name<$n, 1>>()),*),*] };
}
pub fn types() -> Vec<Ty> {
    // making the whole table takes the interpreter most of a minute
    #[cfg(miri)]
    let mut v = types! {
        A1: 0 1 3 5 20000;
        A2: 2 6;
        A8: 8 24;
        A64: 64;
    };
    #[cfg(not(miri))]
    let mut v = types! {
        A1: 0 1 2 3 5 7 9 13 17 31 33 65 100 129 255 257 512 1000 2047 3001 5461 8191 8192 16383 16384 16385 20000;
        A2: 2 6 10 34 66 130 254 258 1022 4098 8190;
        A4: 4 12 20 60 68 132 260 300 1364 4092 5460 8188 16380;
        A8: 0 8 16 24 40 56 72 120 136 264 504 1640 3272 4088 8184 16376 16384;
        A16: 16 32 48 80 144 272 496 2032 4080 8176;
        A32: 32 64 96 480 2016 8160 16352;
        A64: 0 64 128 192 448 4032 8128;
        A128: 128 256 384 3968;
        A256: 256 512 2048;
        A512: 512 1024 4096;
        A1024: 1024 2048;
        A2048: 2048 4096;
        A4096: 4096 8192;
    };
    v.extend(twins());
    v.sort_by_key(|t| (t.size, t.align));
    v
}

/// Different types of the same name.
fn twins() -> Vec<Ty> {
    let mut v = vec![];
    macro_rules! twin {
        ($($align:literal $n:literal),*) => { $({
            #[repr(C, align($align))]
            #[derive(Clone, Copy)]
            struct Twin([u8; $n]);
            impl Component for Twin {}
            impl Bytes for Twin {
                fn make(seed: u32) -> Self {
                    let x = mix(seed as u64);
                    Twin(std::array::from_fn(|i| byte(x, i)))
                }
                fn is(&self, seed: u32) -> bool {
                    let x = mix(seed as u64);
                    self.0.iter().enumerate().all(|(i, b)| *b == byte(x, i))
                }
            }
            v.push(ty::<Twin>());
        })* };
    }
    twin!(1 1, 1 1, 2 2, 4 4, 4 4, 4 8, 8 8, 8 8);
    v
}

/// A type that is only there: nothing of it is read or written.
fn silent<T: Component + 'static>() -> Ty {
    Ty {
        ty: || ComponentType::of::<T>(),
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        addr: |_, _| None,
        set: |_, _, _| true,
        is: |_, _, _| None,
        add: |_, _, _| unreachable!(),
        remove: |_, _| unreachable!(),
    }
}
/// A few hundred more small types, for sets of very many.
pub fn tiny() -> Vec<Ty> {
    macro_rules! tiny {
        ($($k:literal)*) => { vec![$(silent::<A1<1, $k>>(), silent::<A2<2, $k>>(), silent::<A4<4, $k>>(), silent::<A8<8, $k>>()),*] };
    }
    tiny!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71)
}

struct E {
    h: Entity,
    set: Vec<usize>,
    seeds: BTreeMap<usize, u32>,
}

pub struct Blob {
    tys: Vec<Ty>,
    pub feats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    store: Option<Store>,
    ents: Vec<E>,
    sets: Vec<Vec<usize>>,
    next: u64,
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

impl Blob {
    pub fn new(case: &Case) -> Blob {
        let tys = types();
        let k = 1 + case.cfg[0] as usize % 4;
        let sets = (0..k).map(|j| make_set(&tys, case.cfg[1] as u64, j as u64, case.cfg[2] as u64)).collect();
        let _t = Tracked::on_if();
        let store = Some(Store::new());
        drop(_t);
        Blob { tys, feats: BTreeMap::new(), log: vec![], store, ents: vec![], sets, next: 0 }
    }
    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_insert(0) += 1;
    }
    fn say(&mut self, s: String) {
        if self.log.len() < 200 {
            self.log.push(s);
        }
    }
    fn describe(&self, set: &[usize]) -> String {
        set.iter().map(|t| format!("{}@{}", self.tys[*t].size, self.tys[*t].align)).collect::<Vec<_>>().join(" ")
    }
    fn promised(&self, set: &[usize]) -> bool {
        let s = set.iter().map(|t| self.tys[*t].size).max().unwrap_or(0);
        let a = set.iter().map(|t| self.tys[*t].align).max().unwrap_or(0);
        set.len() * (s + a) <= Store::data_page_size()
    }
    fn row(&self, set: &[usize]) -> usize {
        set.iter().map(|t| self.tys[*t].size).sum()
    }
    fn rows_bound(&self, set: &[usize]) -> usize {
        Store::data_page_size() / self.row(set).max(1)
    }
    fn archetype(&self, set: &[usize]) -> Archetype {
        let v: Vec<ComponentType> = set.iter().map(|t| (self.tys[*t].ty)()).collect();
        ArchetypeBuilder::new().include_component_types(&v).build()
    }

    fn create(&mut self, set: &[usize]) -> Res {
        let a = self.archetype(set);
        let s = self.store.as_mut().unwrap();
        let e = {
            let _t = Tracked::on_if();
            s.create_entity_with_archetype(&a)
        };
        let mut seeds = BTreeMap::new();
        for t in set {
            self.next += 1;
            let seed = mix(self.next) as u32;
            // look before writing: a write outside the store's memory would damage the harness
            place_one(&self.tys[*t], s, e)?;
            if !(self.tys[*t].set)(s, e, seed) {
                bad!("a component of a new entity cannot be written");
            }
            seeds.insert(*t, seed);
        }
        self.ents.push(E { h: e, set: set.to_vec(), seeds });
        Ok(())
    }

    fn check(&mut self) -> Res {
        let s = self.store.as_ref().unwrap();
        let mut v: Vec<(usize, usize, usize, usize)> = vec![];
        for (i, e) in self.ents.iter().enumerate() {
            for t in &e.set {
                let ty = &self.tys[*t];
                let Some(p) = (ty.addr)(s, e.h) else { bad!("entity {i} has no component of size {}", ty.size) };
                if p % ty.align != 0 {
                    bad!("component of size {} and alignment {} is at {p:#x} (set {})", ty.size, ty.align, self.describe(&e.set));
                }
                if ty.size > 0 {
                    v.push((p, ty.size, i, *t));
                }
            }
        }
        v.sort();
        for w in v.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                bad!(
                    "component of size {} of entity {} overlaps component of size {} of entity {} (sets {} and {})",
                    w[0].1,
                    w[0].2,
                    w[1].1,
                    w[1].2,
                    self.describe(&self.ents[w[0].2].set),
                    self.describe(&self.ents[w[1].2].set)
                );
            }
        }
        let blocks = alloc::blocks();
        if !blocks.is_empty() {
            let mut b = 0;
            for (p, n, i, _) in &v {
                while b < blocks.len() && blocks[b].0 + blocks[b].1 <= *p {
                    b += 1;
                }
                if b == blocks.len() || *p < blocks[b].0 || p + n > blocks[b].0 + blocks[b].1 {
                    bad!("component of size {n} of entity {i} is not inside memory of the store (set {})", self.describe(&self.ents[*i].set));
                }
            }
        }
        for (i, e) in self.ents.iter().enumerate() {
            for (t, seed) in &e.seeds {
                if (self.tys[*t].is)(s, e.h, *seed) != Some(true) {
                    bad!("component of size {} of entity {i} lost its value (set {})", self.tys[*t].size, self.describe(&e.set));
                }
            }
        }
        Ok(())
    }

    fn destroy(&mut self, i: usize) {
        let e = self.ents.remove(i);
        let _t = Tracked::on_if();
        self.store.as_mut().unwrap().destroy_entity(e.h);
        drop(_t);
        if !self.ents.iter().any(|x| x.set == e.set) {
            self.feat("component set emptied");
        }
    }

    pub fn run(&mut self, case: &Case) -> Res {
        for (n, op) in case.ops.iter().enumerate() {
            let set = self.sets[op.a as usize % self.sets.len()].clone();
            match op.k {
                // fill
                0 => {
                    if self.row(&set) > Store::data_page_size() || !self.promised(&set) {
                        self.doubtful(&set)?;
                        continue;
                    }
                    let rows = self.rows_bound(&set);
                    let max = if cfg!(miri) { 3 } else { 800 };
                    // around whole pages, as long as that is affordable
                    let n = match op.b % 4 {
                        0 => 1 + op.c as usize % 4,
                        1 => rows + op.c as usize % 3,
                        2 => 2 * rows + op.c as usize % 5,
                        _ => 1 + op.c as usize % 40,
                    }
                    .min(max)
                    .min((1 << 19) / self.row(&set).max(1) + 1);
                    if self.ents.len() + n > 2 * max {
                        continue;
                    }
                    let reused = self.feats.contains_key("component set emptied");
                    if n > rows {
                        self.feat("more rows than a page holds");
                    }
                    if reused {
                        self.feat("filled after another set was emptied");
                    }
                    if set.len() > 8 {
                        self.feat("more than 8 types");
                    }
                    if set.iter().any(|t| self.tys[*t].align > 16) {
                        self.feat("alignment above 16");
                    }
                    if rows < 4 {
                        self.feat("fewer than 4 rows in a page");
                    }
                    self.say(format!("create {n} entities of [{}]", self.describe(&set)));
                    for _ in 0..n {
                        self.create(&set)?;
                    }
                }
                // empty a set, or everything
                1 => {
                    let all = op.b % 4 == 0;
                    self.say(format!("destroy {} of [{}]", if all { "everything, also" } else { "all" }, self.describe(&set)));
                    let mut i = 0;
                    while i < self.ents.len() {
                        if all || self.ents[i].set == set {
                            self.destroy(i)
                        } else {
                            i += 1
                        }
                    }
                }
                2 => {
                    for j in 0..1 + op.b as u64 % 6 {
                        if !self.ents.is_empty() {
                            let i = h(&[op.c as u64, j]) as usize % self.ents.len();
                            self.destroy(i);
                        }
                    }
                    self.say("destroy a few".into());
                }
                // change the set of an entity, one type at a time
                _ => {
                    if self.ents.is_empty() {
                        continue;
                    }
                    let i = op.b as usize % self.ents.len();
                    let e = &self.ents[i];
                    let t = set[op.c as usize % set.len()];
                    let mut new = e.set.clone();
                    if let Some(p) = new.iter().position(|x| *x == t) {
                        if new.len() > 1 {
                            new.remove(p);
                            if !self.promised(&new) {
                                continue;
                            }
                            let _t = Tracked::on_if();
                            (self.tys[t].remove)(self.store.as_mut().unwrap(), e.h);
                            drop(_t);
                            self.ents[i].seeds.remove(&t);
                        }
                    } else {
                        new.push(t);
                        if self.row(&new) > Store::data_page_size() {
                            self.feat("component refused");
                            self.say(format!("add a component to entity {i} that makes it [{}], which cannot fit", self.describe(&new)));
                            let (s, add, h) = (self.store.as_mut().unwrap(), self.tys[t].add, self.ents[i].h);
                            let r = quiet(|| {
                                let _t = Tracked::on_if();
                                add(s, h, n as u32)
                            });
                            if r.is_ok() {
                                bad!("the set [{}] does not fit in a page and is not refused", self.describe(&new));
                            }
                            if !cfg!(miri) {
                                self.check()?;
                            }
                            continue;
                        }
                        if !self.promised(&new) {
                            continue;
                        }
                        let _t = Tracked::on_if();
                        (self.tys[t].add)(self.store.as_mut().unwrap(), e.h, n as u32);
                        drop(_t);
                        self.ents[i].seeds.insert(t, n as u32);
                    }
                    self.say(format!("change entity {i} to [{}]", self.describe(&new)));
                    self.ents[i].set = new;
                    self.feat("moved to another set");
                }
            }
            if !cfg!(miri) {
                self.check()?;
            }
        }
        self.check()
    }

    /// A set no acceptance is promised for: it may be refused, and must be if a row cannot fit;
    /// where it is not refused its storage must be sound.
    fn doubtful(&mut self, set: &[usize]) -> Res {
        let a = self.archetype(set);
        let must_refuse = self.row(set) > Store::data_page_size();
        self.say(format!("create an entity of [{}], which {} fit", self.describe(set), if must_refuse { "cannot" } else { "may not" }));
        self.feat(if must_refuse { "row larger than a page" } else { "acceptance not promised" });
        if must_refuse && !self.ents.is_empty() {
            // in a store in use: what is there stays as it is
            self.feat("refused by a store in use");
            let s = self.store.as_mut().unwrap();
            let r = quiet(|| {
                let _t = Tracked::on_if();
                s.create_entity_with_archetype(&a);
            });
            if r.is_ok() {
                bad!("the set [{}] does not fit in a page and is not refused", self.describe(set));
            }
            return self.check();
        }
        let mut s = {
            let _t = Tracked::on_if();
            Store::new()
        };
        let r = quiet(|| {
            let _t = Tracked::on_if();
            (0..3).map(|_| s.create_entity_with_archetype(&a)).collect::<Vec<_>>()
        });
        let Ok(v) = r else { return Ok(()) };
        if must_refuse {
            bad!("the set [{}] does not fit in a page and is not refused", self.describe(set));
        }
        let ents = std::mem::take(&mut self.ents);
        let old = self.store.replace(s);
        for e in v {
            for t in set {
                place_one(&self.tys[*t], self.store.as_ref().unwrap(), e)?;
                (self.tys[*t].set)(self.store.as_mut().unwrap(), e, 1);
            }
            self.ents.push(E { h: e, set: set.to_vec(), seeds: set.iter().map(|t| (*t, 1)).collect() });
        }
        let r = self.check();
        self.ents = ents;
        let _t = Tracked::on_if();
        self.store = old;
        r
    }
}

fn place_one(t: &Ty, s: &Store, e: Entity) -> Res {
    let Some(p) = (t.addr)(s, e) else { bad!("a component of size {} of a new entity cannot be accessed", t.size) };
    if p % t.align != 0 {
        bad!("component of size {} and alignment {} is at {p:#x}", t.size, t.align);
    }
    if t.size > 0 && alloc::live() > 0 && !alloc::inside(p, t.size) {
        bad!("component of size {} and alignment {} is not inside memory of the store", t.size, t.align);
    }
    Ok(())
}

fn make_set(tys: &[Ty], seed: u64, j: u64, class: u64) -> Vec<usize> {
    let x = |k: u64| h(&[seed, j, k]);
    let pool: Vec<usize> = match (class + j) % 7 {
        // every byte costs there
        _ if cfg!(miri) => (0..tys.len()).filter(|t| tys[*t].size <= 70).collect(),
        0 => (0..tys.len()).filter(|t| tys[*t].size <= 128).collect(),
        1 => (0..tys.len()).filter(|t| tys[*t].size <= 600 && tys[*t].align <= 8).collect(),
        2 => (0..tys.len()).filter(|t| tys[*t].size <= 9000 && tys[*t].size > 900).collect(),
        3 => (0..tys.len()).filter(|t| tys[*t].align >= 16).collect(),
        4 => (0..tys.len()).filter(|t| tys[*t].size <= 16).collect(),
        // nearly the same size, which for some is the alignment: padding takes what the page has left
        5 => {
            let a = 16 << (x(4) % 5) as usize;
            (0..tys.len()).filter(|t| tys[*t].size >= a && tys[*t].size <= a + a / 8).collect()
        }
        _ => (0..tys.len()).collect(),
    };
    let most = match x(1) % 4 {
        0 => 1,
        1 => 3,
        2 => 8,
        _ => 30,
    };
    let most = if cfg!(miri) { most.min(4) } else { most };
    let n = 1 + x(2) % most;
    let mut v: Vec<usize> = vec![];
    for k in 0..n * 2 {
        let t = pool[x(10 + k) as usize % pool.len()];
        if v.contains(&t) || v.len() as u64 == n {
            continue;
        }
        v.push(t);
        // mostly stay inside what must be accepted
        let s = v.iter().map(|t| tys[*t].size).max().unwrap();
        let a = v.iter().map(|t| tys[*t].align).max().unwrap();
        if v.len() > 1 && v.len() * (s + a) > Store::data_page_size() && x(3) % 8 != 0 {
            v.pop();
        }
    }
    v
}
