//! Archetypes against sets of component types (C12).
use crate::blob::{tiny, types, Ty};
use crate::case::Case;
use crate::comps::*;
use crate::world::{h, set_name, Res};
use division_ecs::*;
use std::any::TypeId;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

/// index of a component type in the universe: first the NC components, then the blobs
pub struct Universe {
    ids: Vec<TypeId>,
    blobs: Vec<Ty>,
    tuples: Vec<Box<dyn TupObj>>,
}

fn comp_type(c: usize) -> ComponentType {
    let f: [fn() -> ComponentType; NC] = [
        ComponentType::of::<C0>, ComponentType::of::<C1>, ComponentType::of::<C2>, ComponentType::of::<C3>,
        ComponentType::of::<C4>, ComponentType::of::<C5>, ComponentType::of::<C6>, ComponentType::of::<C7>,
        ComponentType::of::<C8>, ComponentType::of::<C9>, ComponentType::of::<C10>, ComponentType::of::<C11>,
        ComponentType::of::<C12>, ComponentType::of::<C13>, ComponentType::of::<C14>, ComponentType::of::<C15>,
    ];
    f[c]()
}

fn has(a: &Archetype, c: usize) -> (bool, Option<usize>) {
    macro_rules! m { ($($i:literal $t:ident)*) => { match c { $($i => (a.has_component::<$t>(), a.find_component_index_of::<$t>()),)* _ => unreachable!() } } }
    m!(0 C0 1 C1 2 C2 3 C3 4 C4 5 C5 6 C6 7 C7 8 C8 9 C9 10 C10 11 C11 12 C12 13 C13 14 C14 15 C15)
}
fn name_of(c: usize) -> &'static str {
    macro_rules! m { ($($i:literal $t:ident)*) => { match c { $($i => std::any::type_name::<$t>(),)* _ => unreachable!() } } }
    m!(0 C0 1 C1 2 C2 3 C3 4 C4 5 C5 6 C6 7 C7 8 C8 9 C9 10 C10 11 C11 12 C12 13 C13 14 C14 15 C15)
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn hash_of(a: &Archetype) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut s);
    s.finish()
}

fn listing(a: &Archetype) -> Vec<(TypeId, usize, usize, &'static str)> {
    a.components_iter().map(|c| (c.id(), c.size(), c.align(), c.name())).collect()
}

type Set = BTreeSet<usize>;

impl Universe {
    pub fn new() -> Universe {
        let mut ids = type_ids_of((1 << NC) - 1);
        let blobs: Vec<Ty> = types().into_iter().chain(tiny()).collect();
        ids.extend(blobs.iter().map(|t| (t.ty)().id()));
        Universe { ids, blobs, tuples: tuples() }
    }
    fn ty(&self, u: usize) -> ComponentType {
        if u < NC {
            comp_type(u)
        } else {
            (self.blobs[u - NC].ty)()
        }
    }
    fn show(&self, s: &Set) -> String {
        let low: u32 = s.iter().filter(|u| **u < NC).fold(0, |m, u| m | 1 << u);
        let rest: Vec<String> =
            s.iter().filter(|u| **u >= NC).map(|u| format!("{}@{}", self.blobs[u - NC].size, self.blobs[u - NC].align)).collect();
        format!("{}+[{}]", set_name(low), rest.join(" "))
    }
    fn tuple_set(&self, t: usize) -> Set {
        self.tuples[t].comps().iter().copied().collect()
    }
    fn some(&self, x: u64, among: usize, n: usize) -> Vec<usize> {
        let mut v = vec![];
        for k in 0..n as u64 {
            let u = h(&[x, k]) as usize % among;
            if !v.contains(&u) {
                v.push(u);
            }
        }
        v
    }

    /// everything that must hold for an archetype of this set
    fn check(&self, a: &Archetype, s: &Set, x: u64) -> Res {
        let shown = self.show(s);
        if a.component_count() != s.len() {
            bad!("archetype of {shown} counts {} components", a.component_count());
        }
        let listed: Vec<ComponentType> = a.components_iter().collect();
        let listed_ids: Vec<TypeId> = listed.iter().map(|c| c.id()).collect();
        if listed_ids != a.included_ids() {
            bad!("archetype of {shown}: components_iter and included_ids disagree");
        }
        let got: BTreeSet<TypeId> = listed_ids.iter().copied().collect();
        let want: BTreeSet<TypeId> = s.iter().map(|u| self.ids[*u]).collect();
        if got != want || listed.len() != s.len() {
            bad!("archetype of {shown} lists {} components, other than its set", listed.len());
        }
        for (i, c) in listed.iter().enumerate() {
            let u = *s.iter().find(|u| self.ids[**u] == c.id()).unwrap();
            let (size, align) = if u < NC { (SIZES[u], ALIGNS[u]) } else { (self.blobs[u - NC].size, self.blobs[u - NC].align) };
            if (c.size(), c.align()) != (size, align) || (u < NC && c.name() != name_of(u)) {
                bad!("archetype of {shown}: component {i} is listed as {} with size {} and alignment {}", c.name(), c.size(), c.align());
            }
        }
        // membership of every type of the universe
        for u in 0..self.ids.len() {
            if u >= NC && h(&[x, u as u64]) % 8 != 0 && !s.contains(&u) {
                continue;
            }
            let idx = a.find_component_index(self.ids[u]);
            if idx.is_some() != s.contains(&u) {
                bad!("archetype of {shown}: find_component_index of type {u} is {idx:?}");
            }
            if let Some(i) = idx {
                if listed_ids.get(i) != Some(&self.ids[u]) {
                    bad!("archetype of {shown}: find_component_index of type {u} is {i}, where another type is listed");
                }
            }
            if u < NC {
                let (m, i) = has(a, u);
                if m != s.contains(&u) || i != idx {
                    bad!("archetype of {shown}: has_component::<C{u}> is {m}, find_component_index_of {i:?}");
                }
            }
        }
        for t in 0..self.tuples.len() {
            if self.tuples[t].has(a) != self.tuple_set(t).is_subset(s) {
                bad!("archetype of {shown}: includes tuple {} is {}", set_name(self.tuples[t].mask()), self.tuples[t].has(a));
            }
        }
        // lists of distinct ids, in any order
        for k in 0..6u64 {
            let mut list: Vec<usize> = match k {
                // parts of the set itself
                0 => s.iter().copied().collect(),
                1 => s.iter().copied().filter(|u| h(&[x, k, *u as u64]) % 2 == 0).collect(),
                2 => {
                    let mut v: Vec<usize> = s.iter().copied().filter(|u| h(&[x, k, *u as u64]) % 8 != 0).collect();
                    v.extend(self.some(x ^ k, self.ids.len(), 1));
                    v
                }
                3 => vec![],
                4 => {
                    // mostly outside
                    let mut v: Vec<usize> =
                        self.some(x ^ k, self.ids.len(), 12).into_iter().filter(|u| !s.contains(u)).collect();
                    if x % 3 != 0 {
                        v.extend(s.iter().nth(x as usize / 3 % s.len()));
                    }
                    v
                }
                _ => self.some(x ^ k, NC, 5),
            };
            list.sort();
            list.dedup();
            list.sort_by_key(|u| h(&[x, k, *u as u64, 1]));
            let ids: Vec<TypeId> = list.iter().map(|u| self.ids[*u]).collect();
            let l: Set = list.iter().copied().collect();
            let r = (a.is_include_ids(&ids), a.is_include_only_ids(&ids), a.is_exclude_ids(&ids));
            let w = (l.is_subset(s), l == *s, l.is_disjoint(s));
            if r != w {
                bad!("archetype of {shown} and the ids of {}: (include, include only, exclude) are {r:?} instead of {w:?}", self.show(&l));
            }
        }
        let c = a.clone();
        if !c.is_same_as(a) || !a.is_same_as(&c) || hash_of(&c) != hash_of(a) || c.included_ids() != a.included_ids() {
            bad!("archetype of {shown}: its clone differs");
        }
        if listing(&c) != listing(a) {
            bad!("archetype of {shown}: its clone lists its components differently");
        }
        Ok(())
    }

    fn check_two(&self, a: &Archetype, s: &Set, b: &Archetype, t: &Set) -> Res {
        let (n, m) = (self.show(s), self.show(t));
        if a.is_same_as(b) != (s == t) {
            bad!("archetypes of {n} and {m}: is_same_as is {}", a.is_same_as(b));
        }
        if s == t {
            if hash_of(a) != hash_of(b) {
                bad!("two archetypes of {n} have different hashes");
            }
            if listing(a) != listing(b) {
                bad!("two archetypes of {n} list their components differently");
            }
        }
        if a.is_include(b) != t.is_subset(s) {
            bad!("archetype of {n} includes that of {m}: {}", a.is_include(b));
        }
        if a.is_exclude(b) != t.is_disjoint(s) {
            bad!("archetype of {n} excludes that of {m}: {}", a.is_exclude(b));
        }
        Ok(())
    }

    /// One builder per case; archetypes built along the way are kept and compared.
    pub fn run(&self, case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
        let mut feat = |f: &'static str| *feats.entry(f).or_insert(0) += 1;
        let mut b = ArchetypeBuilder::new();
        let mut s = Set::new();
        let mut built: Vec<(Archetype, Set)> = vec![];
        let among = if case.cfg[0] % 2 == 0 { NC } else { self.ids.len() };
        for op in &case.ops {
            let x = h(&[op.a as u64, op.b as u64, op.c as u64]);
            let t = op.a as usize % self.tuples.len();
            match op.k {
                0 => {
                    self.tuples[t].include(&mut b);
                    s.extend(self.tuple_set(t));
                    log.push(format!("include {}", set_name(self.tuples[t].mask())));
                }
                1 => {
                    self.tuples[t].exclude(&mut b);
                    let before = s.len();
                    s = s.difference(&self.tuple_set(t)).copied().collect();
                    if s.len() < before {
                        feat("types excluded");
                    }
                    log.push(format!("exclude {}", set_name(self.tuples[t].mask())));
                }
                2 | 3 => {
                    let n = if op.b % 32 == 31 && among > NC { op.c as usize % 400 } else { op.b as usize % 9 };
                    let v = self.some(op.a as u64, among, 1 + n);
                    let tys: Vec<ComponentType> = v.iter().map(|u| self.ty(*u)).collect();
                    if op.k == 2 {
                        b.include_component_types(&tys);
                        s.extend(v.iter());
                    } else {
                        b.exclude_component_types(&tys);
                        v.iter().for_each(|u| {
                            s.remove(u);
                        });
                    }
                    log.push(format!("{} {}", if op.k == 2 { "include" } else { "exclude" }, self.show(&v.into_iter().collect())));
                }
                4 => {
                    if !built.is_empty() {
                        let times = if op.b % 8 == 0 { 1 + op.c as usize % 80 } else { 1 };
                        for k in 0..times {
                            let (a, t) = &built[(op.a as usize + k) % built.len()];
                            b.include_archetype(a);
                            s.extend(t.iter());
                            log.push(format!("include archetype {}", self.show(t)));
                        }
                        feat("extended by an archetype");
                        if times > 30 {
                            feat("extended by more than 30 archetypes");
                        }
                    }
                }
                5 => {
                    if !s.is_empty() {
                        let a = b.build();
                        log.push(format!("build {}", self.show(&s)));
                        self.check(&a, &s, x)?;
                        for (o, t) in &built {
                            self.check_two(&a, &s, o, t)?;
                            self.check_two(o, t, &a, &s)?;
                            if *t == s {
                                feat("set built twice");
                            }
                        }
                        feat(match s.len() {
                            1 => "one type",
                            2..=4 => "2 to 4 types",
                            5..=12 => "5 to 12 types",
                            13..=64 => "more than 12 types",
                            _ => "more than 64 types",
                        });
                        // a clone is as good as the original
                        built.push((if x % 4 == 0 { a.clone() } else { a }, s.clone()));
                    }
                }
                6 => {
                    // the same set by another route: a new builder, one type at a time
                    if let Some((a, t)) = built.last() {
                        let mut v: Vec<usize> = t.iter().copied().collect();
                        v.sort_by_key(|u| h(&[x, *u as u64]));
                        let mut b2 = ArchetypeBuilder::new();
                        for u in &v {
                            b2.include_component_types(&[self.ty(*u)]);
                            if x % 3 == 0 {
                                // again: adds nothing
                                b2.include_component_types(&[self.ty(v[0])]);
                            }
                        }
                        let c = b2.build();
                        self.check(&c, t, x)?;
                        self.check_two(a, t, &c, t)?;
                        self.check_two(&c, t, a, t)?;
                        feat("set built twice");
                        log.push(format!("rebuild {}", self.show(t)));
                    }
                }
                7 => {
                    // straight from a tuple
                    let a = self.tuples[t].archetype();
                    let set = self.tuple_set(t);
                    self.check(&a, &set, x)?;
                    for (o, t) in &built {
                        self.check_two(&a, &set, o, t)?;
                        self.check_two(o, t, &a, &set)?;
                        if *t == set {
                            feat("set built twice");
                        }
                    }
                    built.push((a, set));
                    log.push(format!("tuple {}", set_name(self.tuples[t].mask())));
                }
                _ => {
                    b = ArchetypeBuilder::new();
                    s.clear();
                    log.push("new builder".into());
                }
            }
            if built.len() > 12 {
                built.remove(op.b as usize % 12);
            }
        }
        Ok(())
    }
}
