//! Entities with very many small component types (C02, C03), and ids reused very often (C01, C13).
use crate::alloc::{self, Tracked};
use crate::blob::{tiny, types, Ty};
use crate::case::Case;
use crate::comps::mix;
use crate::world::{h, Res};
use division_ecs::*;
use std::collections::{BTreeMap, BTreeSet};

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

struct E {
    h: Entity,
    alive: bool,
    values: BTreeMap<usize, u32>,
}

pub struct Many {
    tys: Vec<Ty>,
    /// the first so many can be read, written, added and removed
    full: usize,
    ids: Vec<std::any::TypeId>,
    store: Store,
    ents: Vec<E>,
    next: u64,
    values: bool,
    pub feats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
}

impl Many {
    /// `values`: decide by values (C02), otherwise by sets (C03)
    pub fn new(capacity: usize, values: bool, wide: bool) -> Many {
        let mut tys: Vec<Ty> = types().into_iter().filter(|t| t.size <= 16).collect();
        let full = tys.len();
        if wide {
            tys.extend(tiny());
        }
        let ids = tys.iter().map(|t| (t.ty)().id()).collect();
        Many { tys, full, ids, store: Store::with_capacity(capacity), ents: vec![], next: 0, values, feats: BTreeMap::new(), log: vec![] }
    }
    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_insert(0) += 1;
    }
    fn seed(&mut self) -> u32 {
        self.next += 1;
        mix(self.next) as u32
    }
    fn some(&self, x: u64, n: usize, among: usize) -> Vec<usize> {
        let s: BTreeSet<usize> = (0..n as u64).map(|k| h(&[x, k]) as usize % among).collect();
        let mut v: Vec<usize> = s.into_iter().collect();
        v.sort_by_key(|t| h(&[x, *t as u64, 1]));
        v
    }
    fn pick(&self, a: u32) -> Option<usize> {
        let v: Vec<usize> = (0..self.ents.len()).filter(|i| self.ents[*i].alive).collect();
        (!v.is_empty()).then(|| v[a as usize % v.len()])
    }

    fn check_one(&self, i: usize) -> Res {
        let e = &self.ents[i];
        let s = &self.store;
        if self.values {
            for (t, v) in &e.values {
                if (self.tys[*t].is)(s, e.h, *v) == Some(false) {
                    bad!("component {t} of entity {i}, which has {} types, is not the value last stored in it", e.values.len());
                }
            }
            return Ok(());
        }
        let got: BTreeSet<_> = s.get_entity_archetype(e.h).map(|a| a.included_ids().iter().copied().collect()).unwrap_or_default();
        let want: BTreeSet<_> = e.values.keys().map(|t| self.ids[*t]).collect();
        if got != want {
            bad!("the archetype of entity {i} has {} types, other than the {} it was given", got.len(), want.len());
        }
        for (t, ty) in self.tys[..self.full].iter().enumerate() {
            if (ty.addr)(s, e.h).is_some() != e.values.contains_key(&t) {
                bad!("access to component {t} of entity {i}, which has {} types, succeeds: {}", want.len(), !e.values.contains_key(&t));
            }
        }
        Ok(())
    }

    pub fn run(&mut self, case: &Case) -> Res {
        for op in &case.ops {
            let x = h(&[op.a as u64, op.b as u64, op.c as u64]);
            let touched = match op.k {
                0 => {
                    let _t = Tracked::on_if();
                    let h = self.store.create_entity();
                    drop(_t);
                    self.ents.push(E { h, alive: true, values: BTreeMap::new() });
                    self.ents.len() - 1
                }
                1 => {
                    let most = if self.tys.len() > 200 && op.c % 2 == 0 { 900 } else { 40 };
                    let v = self.some(op.a as u64, 1 + op.b as usize % most, self.tys.len());
                    let tys: Vec<ComponentType> = v.iter().map(|t| (self.tys[*t].ty)()).collect();
                    let a = ArchetypeBuilder::new().include_component_types(&tys).build();
                    let h = self.store.create_entity_with_archetype(&a);
                    self.log.push(format!("create with {} types", v.len()));
                    let mut values = BTreeMap::new();
                    for t in v {
                        let s = self.seed();
                        if !(self.tys[t].set)(&mut self.store, h, s) && !self.values {
                            bad!("component {t} of a new entity with {} types cannot be written", tys.len());
                        }
                        values.insert(t, s);
                    }
                    self.ents.push(E { h, alive: true, values });
                    self.ents.len() - 1
                }
                // add some types, one after the other
                2 | 3 => {
                    let Some(i) = self.pick(op.a) else { continue };
                    let v = self.some(x, if op.k == 2 { 1 } else { 1 + op.b as usize % 30 }, self.full);
                    self.log.push(format!("add {} types to entity {i}", v.len()));
                    for t in v {
                        let s = self.seed();
                        (self.tys[t].add)(&mut self.store, self.ents[i].h, s);
                        self.ents[i].values.insert(t, s);
                        self.check_one(i)?;
                    }
                    i
                }
                // remove some, mostly present ones
                4 | 5 => {
                    let Some(i) = self.pick(op.a) else { continue };
                    let mut v = self.some(x, if op.k == 4 { 1 } else { 1 + op.b as usize % 20 }, self.full);
                    if op.c % 2 == 0 {
                        v.extend(self.ents[i].values.keys().copied().find(|t| *t < self.full && h(&[x, *t as u64]) % 3 == 0));
                    }
                    self.log.push(format!("remove {} types from entity {i}", v.len()));
                    for t in v {
                        (self.tys[t].remove)(&mut self.store, self.ents[i].h);
                        if self.ents[i].values.remove(&t).is_some() {
                            self.feat("components removed");
                        }
                        self.check_one(i)?;
                    }
                    i
                }
                6 => {
                    let Some(i) = self.pick(op.a) else { continue };
                    self.log.push(format!("destroy entity {i}"));
                    self.store.destroy_entity(self.ents[i].h);
                    self.ents[i].alive = false;
                    self.ents[i].values.clear();
                    i
                }
                _ => {
                    let Some(i) = self.pick(op.a) else { continue };
                    let s = self.seed();
                    if let Some(t) = self.ents[i].values.keys().nth(x as usize % self.ents[i].values.len().max(1)).copied() {
                        (self.tys[t].set)(&mut self.store, self.ents[i].h, s);
                        self.ents[i].values.insert(t, s);
                    }
                    i
                }
            };
            match self.ents[touched].values.len() {
                0..=8 => {}
                9..=16 => self.feat("more than 8 types"),
                17..=64 => self.feat("more than 16 types"),
                65..=256 => self.feat("more than 64 types"),
                _ => self.feat("more than 256 types"),
            }
            self.check_one(touched)?;
            if self.ents.len() < 12 {
                for i in 0..self.ents.len() {
                    self.check_one(i)?;
                }
            }
        }
        for i in 0..self.ents.len() {
            self.check_one(i)?;
        }
        Ok(())
    }
}

/// How often to reuse: rarely as often as counters of 20 or 24 bits can tell apart.
fn times(b: u32) -> u32 {
    match b % 400 {
        399 => 16_777_400,
        x if x % 40 == 38 => 1_048_700,
        x => [3, 255, 256, 300, 70_000][x as usize % 5],
    }
}
/// Lifetimes worth looking at after `n` of them: recent ones, and those that truncated counters would confuse with `n`.
fn suspects(n: u32) -> impl Iterator<Item = u32> {
    const BACK: [u32; 23] = [
        1, 2, 3, 4, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 1048575, 1048576, 16777215, 16777216,
    ];
    BACK.iter().map_while(move |d| n.checked_sub(*d)).chain(Some(0))
}

/// One id after the other reused very often (C01); nothing else about the store may matter.
pub fn churn(case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
    let mut s = Store::with_capacity(case.cfg[0].max(1) as usize);
    let mut alive: Vec<Entity> = vec![];
    // per id all handles issued for it
    let mut issued: BTreeMap<u32, Vec<Entity>> = BTreeMap::new();
    let mut of = |e: Entity, issued: &mut BTreeMap<u32, Vec<Entity>>| -> Res {
        let v = issued.entry(e.id()).or_default();
        let n = v.len() as u32;
        if let Some(i) = suspects(n).find(|i| v.get(*i as usize) == Some(&e)) {
            bad!("lifetime {n} of id {} gets the handle that lifetime {i} had", e.id());
        }
        v.push(e);
        if n == 65536 {
            *feats.entry("id reused more than 65536 times").or_insert(0) += 1;
        }
        if n == 1 << 24 {
            *feats.entry("id reused more than 2^24 times").or_insert(0) += 1;
        }
        Ok(())
    };
    for op in &case.ops {
        match op.k {
            0 => {
                for _ in 0..1 + op.a % 5 {
                    let e = s.create_entity();
                    of(e, &mut issued)?;
                    alive.push(e);
                }
                log.push("create a few".into());
            }
            1 => {
                if !alive.is_empty() {
                    s.destroy_entity(alive.remove(op.a as usize % alive.len()));
                    log.push("destroy one".into());
                }
            }
            _ => {
                let n = times(op.b);
                log.push(format!("create and destroy {n} times"));
                for _ in 0..n {
                    let e = s.create_entity();
                    of(e, &mut issued)?;
                    s.destroy_entity(e);
                }
            }
        }
        for e in &alive {
            if !s.is_alive(*e) {
                bad!("the live entity #{}.{} is reported dead", e.id(), e.version());
            }
        }
        for (id, v) in &issued {
            for i in suspects(v.len() as u32) {
                let Some(e) = v.get(i as usize) else { continue };
                if s.is_alive(*e) != alive.contains(e) {
                    bad!("lifetime {i} of id {id} is alive after {} lifetimes: {}", v.len(), s.is_alive(*e));
                }
            }
        }
    }
    Ok(())
}

/// The same for resources (C13).
pub fn churn_resources(case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
    let mut s: ResourceStore<u64> = if case.cfg[0] == 0 { ResourceStore::new() } else { ResourceStore::with_capacity(case.cfg[0].max(1) as usize) };
    let mut held: Vec<(Entity, u64)> = vec![];
    let mut issued: BTreeMap<u32, Vec<Entity>> = BTreeMap::new();
    let mut next = 0u64;
    for op in &case.ops {
        let (n, keep) = match op.k {
            0 => (if op.a % 16 == 0 { 66_000 } else { 1 + op.a % 5 }, true),
            1 => {
                if !held.is_empty() {
                    let (e, v) = held.remove(op.a as usize % held.len());
                    if s.release(e) != v {
                        bad!("released another resource than the one stored");
                    }
                    log.push("release one".into());
                }
                (0, false)
            }
            _ => (times(op.b), false),
        };
        log.push(format!("create {n}, kept: {keep}"));
        for _ in 0..n {
            next += 1;
            let e = s.create(next);
            let v = issued.entry(e.id()).or_default();
            let n = v.len() as u32;
            if let Some(i) = suspects(n).find(|i| v.get(*i as usize) == Some(&e)) {
                bad!("use {n} of slot {} gets the handle that use {i} had", e.id());
            }
            if n == 65536 {
                *feats.entry("slot reused more than 65536 times").or_insert(0) += 1;
            }
            if n == 1 << 24 {
                *feats.entry("slot reused more than 2^24 times").or_insert(0) += 1;
            }
            v.push(e);
            if keep {
                held.push((e, next));
            } else if s.release(e) != next {
                bad!("released another resource than the one stored");
            }
        }
        for (e, v) in &held {
            if s[*e] != *v {
                bad!("a held resource changed");
            }
        }
    }
    Ok(())
}

/// More than 65536 entities with components in one store (C02, C04, C06, C07, C08, C15).
pub fn masses(case: &Case, prop: &str, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
    use crate::comps::{Comp, C0, C3, T0};
    type Big = crate::comps::C5;
    let n = 65_600 + case.cfg[0] as usize * 997;
    let mut s = Store::with_capacity(1 + case.cfg[1] as usize);
    let archs = [Archetype::with_components::<C3>(), Archetype::with_components::<(C0, C3)>()];
    let run = [n, 3000, 257, 100_000][case.cfg[2] as usize % 4];
    let mut all: Vec<(Entity, u32, bool)> = vec![];
    for i in 0..n {
        let e = s.create_entity_with_archetype(&archs[i / run % 2]);
        let v = mix(i as u64) as u32;
        *s.get_components_refs_mut::<C3>(e).unwrap() = C3::make(v);
        all.push((e, v, true));
    }
    // the group: in creation order, backwards, or in long strides
    let stride = [1, n - 1, 1013, 17][case.cfg[3] as usize % 4];
    let ordered = matches!(prop, "C07" | "C08" | "C15");
    let mut group: Vec<usize> = if ordered { (0..n).map(|i| (i + 1) * stride % n).collect() } else { vec![] };
    group.sort();
    group.dedup();
    if ordered && stride > 1 {
        let mut seen = vec![false; n];
        group = vec![];
        for i in 0..n {
            let j = (i + 1) * stride % n;
            if !std::mem::replace(&mut seen[j], true) {
                group.push(j);
            }
        }
    }
    for i in &group {
        s.add_entity_order_by::<T0>(all[*i].0);
    }
    log.push(format!("{n} entities, {} in a group (stride {stride})", group.len()));
    for op in &case.ops {
        let i = (op.a as usize * 65536 + op.b as usize) % n;
        if !all[i].2 {
            continue;
        }
        match op.k {
            0 => {
                s.destroy_entity(all[i].0);
                all[i].2 = false;
                log.push(format!("destroy number {i}"));
            }
            1 => {
                s.add_components(all[i].0, Big::make(all[i].1));
                log.push(format!("move number {i}"));
            }
            _ => {
                all[i].1 ^= 1;
                s.add_components(all[i].0, C3::make(all[i].1));
                log.push(format!("write number {i}"));
            }
        }
    }
    group.retain(|i| all[*i].2);
    *feats.entry("more than 65536 entities with components").or_insert(0) += (n > 65536) as u64;
    let alive: BTreeMap<u32, usize> = (0..n).filter(|i| all[*i].2).map(|i| (all[i].0.id(), i)).collect();
    let wanted = |list: &[usize]| -> Vec<(Entity, u32)> { list.iter().map(|i| (all[*i].0, all[*i].1)).collect() };
    let same = |what: &str, want: &[(Entity, u32)], got: &[(Entity, C3)]| -> Res {
        if let Some(p) = (0..want.len().max(got.len())).find(|p| match (want.get(*p), got.get(*p)) {
            (Some(w), Some(g)) => w.0 != g.0 || g.1 != C3::make(w.1),
            _ => true,
        }) {
            bad!("{what} over {} entities yields {} items, and item {p} is not the right one", want.len(), got.len());
        }
        Ok(())
    };
    match prop {
        "C02" => {
            for i in alive.values() {
                if s.get_components_refs::<C3>(all[*i].0) != Some(&C3::make(all[*i].1)) {
                    bad!("number {i} of {n} entities does not have the value last stored in it");
                }
            }
        }
        "C04" => {
            let mut q = ComponentReadOnlyQuery::<C3>::new();
            let mut got: Vec<(Entity, C3)> = s.component_query_iter(&mut q).with_entities().map(|(e, c)| (e, *c)).collect();
            got.sort_by_key(|(e, _)| e.id());
            same("a component query", &wanted(&alive.values().copied().collect::<Vec<_>>()), &got)?;
            let mut q = ComponentWriteQuery::<C3>::new();
            let mut k = 0;
            for (e, c) in s.component_query_iter(&mut q).with_entities() {
                *c = C3::make(e.id() ^ 77);
                k += 1;
            }
            if k != alive.len() || alive.values().any(|i| s.get_components_refs::<C3>(all[*i].0) != Some(&C3::make(all[*i].0.id() ^ 77))) {
                bad!("values written through a query of {} entities are not what is read later", alive.len());
            }
        }
        "C06" => {
            let mut list: Vec<usize> = (0..n).collect();
            if case.cfg[3] % 2 == 1 {
                list.sort_by_key(|i| h(&[*i as u64]));
            }
            let handles: Vec<Entity> = list.iter().map(|i| all[*i].0).collect();
            list.retain(|i| all[*i].2);
            let mut q = EntityComponentReadOnlyQuery::<C3>::new();
            let got: Vec<(Entity, C3)> = s.entity_component_query_iter(&handles, &mut q).with_entities().map(|(e, c)| (e, *c)).collect();
            same("a list query", &wanted(&list), &got)?;
        }
        "C07" => {
            let (mut at, mut back) = (s.get_first_entity_ordered_by::<T0>(), s.get_last_entity_ordered_by::<T0>());
            for k in 0..group.len() {
                let (w, b) = (all[group[k]].0, all[group[group.len() - 1 - k]].0);
                if at != Some(w) || back != Some(b) {
                    bad!("the group of {} members is wrong at position {k} from an end", group.len());
                }
                at = s.get_next_entity_ordered_by::<T0>(w);
                back = s.get_previous_entity_ordered_by::<T0>(b);
            }
            if at.is_some() || back.is_some() {
                bad!("the group of {} members does not end", group.len());
            }
        }
        "C08" => {
            let mut q = ReadonlyOrderedComponentQuery::<T0, C3>::new();
            let got: Vec<(Entity, C3)> = s.ordered_query_iter(&mut q).with_entities().map(|(e, c)| (e, *c)).collect();
            same("an ordered query", &wanted(&group), &got)?;
        }
        _ => {
            let skip = case.cfg[1] as usize * 3001 % n;
            let mut q = ComponentReadOnlyQuery::<C3>::new();
            lengths("a component query", s.component_query_iter(&mut q), alive.len(), skip)?;
            let mut q = ReadonlyOrderedComponentQuery::<T0, C3>::new();
            lengths("an ordered query", s.ordered_query_iter(&mut q), group.len(), skip)?;
        }
    }
    Ok(())
}

/// The same workload over many component sets and entities, again and again (C16).
pub fn rounds(case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
    use crate::comps::{T0, T1};
    const ROUNDS: usize = 12;
    alloc::reset(true);
    let tys: Vec<Ty> = types().into_iter().filter(|t| (4..=64).contains(&t.size)).take(12).collect();
    let sets = [1, 5, 40, 300, 600][case.cfg[1] as usize % 5];
    let per = [1, 3, 60, 900][case.cfg[2] as usize % 4].min(40_000 / sets);
    let cap0 = crate::props::capacity(case.cfg[0]);
    let (order, early) = (case.cfg[3] % 4, case.cfg[4] % 2 == 1);
    log.push(format!("capacity {cap0}; {ROUNDS} rounds of {per} entities in each of {sets} sets; destroyed in order {order}, each set before the next is filled: {early}"));
    let mut s = {
        let _t = Tracked::on_if();
        Store::with_capacity(cap0)
    };
    let archs: Vec<Archetype> = (0..sets)
        .map(|j| {
            let j = if sets == 1 { case.cfg[5] as usize % 63 } else { j } + 1;
            ArchetypeBuilder::new().include_component_types(&(0..tys.len()).filter(|b| j >> b & 1 == 1).map(|b| (tys[b].ty)()).collect::<Vec<_>>()).build()
        })
        .collect();
    let mut use_ = vec![];
    let mut peak = 0;
    let mut had = s.entities_capacity();
    if had < cap0 {
        bad!("capacity {had} although {cap0} was requested");
    }
    for _ in 0..ROUNDS {
        let mut alive: Vec<Entity> = Vec::with_capacity(sets * per);
        let destroy = |s: &mut Store, alive: &mut Vec<Entity>| {
            match order {
                0 => alive.reverse(),
                1 => {}
                k => alive.sort_by_key(|e| h(&[e.id() as u64, k as u64])),
            }
            let _t = Tracked::on_if();
            for e in alive.iter() {
                s.destroy_entity(*e);
            }
            alive.clear();
        };
        for a in &archs {
            if early && alive.len() > per {
                destroy(&mut s, &mut alive);
            }
            {
                let _t = Tracked::on_if();
                for _ in 0..per {
                    alive.push(s.create_entity_with_archetype(a));
                    let cap = s.entities_capacity();
                    if cap < alive.len() || cap < had || cap > had && alive.len() <= had {
                        bad!("entity capacity {cap} after creating with {had}, {} entities are alive", alive.len());
                    }
                    had = cap;
                }
            }
            peak = peak.max(alive.len());
            if early || std::ptr::eq(a, archs.last().unwrap()) {
                for op in &case.ops {
                    let (step, t) = (1 + op.a as usize % 7, op.b as usize % tys.len());
                    let mut i = 0;
                    let _t = Tracked::on_if();
                    while i < alive.len() {
                        let e = alive[i];
                        match op.k {
                            0 => (tys[t].add)(&mut s, e, 1),
                            1 => (tys[t].remove)(&mut s, e),
                            2 => s.add_tag::<T0>(e),
                            3 => {
                                if s.get_last_entity_ordered_by::<T1>() != Some(e) && s.get_next_entity_ordered_by::<T1>(e).is_none() {
                                    s.add_entity_order_by::<T1>(e)
                                }
                            }
                            _ => s.destroy_entity(alive.swap_remove(i)),
                        }
                        i += step;
                    }
                }
            }
        }
        destroy(&mut s, &mut alive);
        use_.push((alloc::blocks_of(Store::data_page_size()), alloc::live(), s.entities_capacity()));
    }
    let (first, second) = use_.split_at(ROUNDS / 2);
    let (p1, p2) = (first.iter().map(|u| u.0).max().unwrap(), second.iter().map(|u| u.0).max().unwrap());
    if p2 > p1 {
        bad!("the same workload repeated: {p1} data pages after {} rounds, {p2} after {ROUNDS}", ROUNDS / 2);
    }
    let (l1, l2) = (first.iter().map(|u| u.1).max().unwrap(), second.iter().map(|u| u.1).max().unwrap());
    if l2 > l1 + 3 + p1.min(10) {
        bad!("the same workload repeated: {l1} blocks of memory after {} rounds, {l2} after {ROUNDS}", ROUNDS / 2);
    }
    if use_[0].2 != use_[ROUNDS - 1].2 {
        bad!("the same workload repeated: entity capacity {} after one round, {} after {ROUNDS}", use_[0].2, use_[ROUNDS - 1].2);
    }
    if sets > 30 {
        feats.insert("rounds over many sets", 1);
    }
    if peak > 2000 {
        feats.insert("rounds over thousands of entities", 1);
    }
    {
        let _t = Tracked::on_if();
        drop(s);
    }
    if alloc::live() != 0 {
        bad!("{} blocks ({} bytes) of a dropped store are not given back", alloc::live(), alloc::bytes());
    }
    if alloc::bad_frees() != 0 {
        bad!("memory was freed with another layout than it was allocated with");
    }
    alloc::reset(false);
    Ok(())
}

fn lengths<I: ExactSizeIterator>(what: &str, mut it: I, n: usize, skip: usize) -> Res {
    let mut left = n;
    for k in 0..3 {
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            bad!("{what} with {left} of {n} items to come reports {} and {:?}", it.len(), it.size_hint());
        }
        if k == 2 {
            break;
        }
        for _ in 0..if k == 0 { 1 } else { skip } {
            if it.next().is_some() != (left > 0) {
                bad!("{what} ends with {left} of {n} items to come");
            }
            left = left.saturating_sub(1);
        }
    }
    let m = it.count();
    if m != left {
        bad!("{what} with {left} of {n} items to come yields {m}");
    }
    Ok(())
}

/// A component of one byte, one of seventeen.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Bit<const N: usize>(u8);
impl<const N: usize> Component for Bit<N> {}
struct Bits {
    ty: fn() -> ComponentType,
    get: fn(&Store, Entity) -> Option<u8>,
    set: fn(&mut Store, Entity, u8) -> bool,
    add: fn(&mut Store, Entity, u8),
    remove: fn(&mut Store, Entity),
    all: fn(&Store) -> Vec<(Entity, u8)>,
    list: fn(&Store, &[Entity]) -> Vec<(Entity, u8)>,
    ordered: fn(&Store) -> Vec<(Entity, u8)>,
}
fn bits<const N: usize>() -> Bits {
    use crate::comps::T0;
    Bits {
        ty: ComponentType::of::<Bit<N>>,
        get: |s, e| s.get_components_refs::<Bit<N>>(e).map(|b| b.0),
        set: |s, e, v| s.get_components_refs_mut::<Bit<N>>(e).map(|b| b.0 = v).is_some(),
        add: |s, e, v| s.add_components(e, Bit::<N>(v)),
        remove: |s, e| s.remove_components::<Bit<N>>(e),
        all: |s| s.component_query_iter(&mut ComponentReadOnlyQuery::<Bit<N>>::new()).with_entities().map(|(e, b)| (e, b.0)).collect(),
        list: |s, l| s.entity_component_query_iter(l, &mut EntityComponentReadOnlyQuery::<Bit<N>>::new()).with_entities().map(|(e, b)| (e, b.0)).collect(),
        ordered: |s| s.ordered_query_iter(&mut ReadonlyOrderedComponentQuery::<T0, Bit<N>>::new()).with_entities().map(|(e, b)| (e, b.0)).collect(),
    }
}

/// More than 65536 entities, each with a component set of its own: as many sets and pages (C02, C03, C04, C06, C08).
pub fn sets(case: &Case, prop: &str, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>) -> Res {
    use crate::comps::T0;
    let tys = [
        bits::<0>(), bits::<1>(), bits::<2>(), bits::<3>(), bits::<4>(), bits::<5>(), bits::<6>(), bits::<7>(), bits::<8>(),
        bits::<9>(), bits::<10>(), bits::<11>(), bits::<12>(), bits::<13>(), bits::<14>(), bits::<15>(), bits::<16>(),
    ];
    let n = 65_550 + case.cfg[0] as usize * 31;
    let mut s = Store::with_capacity(1 + case.cfg[1] as usize);
    // sets in counting order, or with all differences in the high types
    let set_of = |i: usize| if case.cfg[2] % 2 == 0 { i + 1 } else { ((i + 1) as u32).reverse_bits() as usize >> 15 };
    let types = |set: usize| (0..17).filter(move |b| set >> b & 1 == 1);
    let mut all: Vec<(Entity, usize, BTreeMap<usize, u8>)> = Vec::with_capacity(n);
    for i in 0..n {
        let set = set_of(i);
        let list: Vec<ComponentType> = types(set).map(|b| (tys[b].ty)()).collect();
        let e = s.create_entity_with_archetype(&ArchetypeBuilder::new().include_component_types(&list).build());
        let mut v = BTreeMap::new();
        for b in types(set) {
            let x = mix((i * 17 + b) as u64) as u8;
            if !(tys[b].set)(&mut s, e, x) {
                bad!("number {i} was created without one of its components");
            }
            v.insert(b, x);
        }
        all.push((e, 1, v));
    }
    log.push(format!("{n} entities, each with a set of its own"));
    let ordered: Vec<usize> = (0..n).rev().step_by(1 + case.cfg[3] as usize).collect();
    if prop == "C08" {
        for i in &ordered {
            s.add_entity_order_by::<T0>(all[*i].0);
        }
    }
    let mut next = 0;
    for op in &case.ops {
        // half of them among those beyond the 65536th
        let i = if op.b % 2 == 0 { (op.a as usize * 65536 + op.b as usize) % n } else { n - 1 - op.a as usize % (n - 65_536) };
        let b = op.b as usize / 2 % 17;
        if all[i].1 == 0 {
            continue;
        }
        next += 1;
        let v = mix(next + 999) as u8;
        match op.k {
            0 => {
                s.destroy_entity(all[i].0);
                all[i].1 = 0;
                log.push(format!("destroy number {i}"));
            }
            1 => {
                (tys[b].add)(&mut s, all[i].0, v);
                all[i].2.insert(b, v);
                log.push(format!("add type {b} to number {i}"));
            }
            _ => {
                (tys[b].remove)(&mut s, all[i].0);
                all[i].2.remove(&b);
                log.push(format!("remove type {b} of number {i}"));
            }
        }
    }
    *feats.entry("more than 65536 sets and pages").or_insert(0) += 1;
    let asked = [0, 16, case.cfg[4] as usize % 17];
    let same = |what: &str, want: Vec<(Entity, u8)>, got: Vec<(Entity, u8)>| -> Res {
        if let Some(p) = (0..want.len().max(got.len())).find(|p| want.get(*p) != got.get(*p)) {
            bad!("{what} over {} sets yields {} items instead of {}, and item {p} is {:?} instead of {:?}", n, got.len(), want.len(), got.get(p), want.get(p));
        }
        Ok(())
    };
    let item = |i: usize, b: usize| all[i].2.get(&b).filter(|_| all[i].1 == 1).map(|v| (all[i].0, *v));
    match prop {
        "C02" => {
            for (i, (e, alive, v)) in all.iter().enumerate() {
                for (b, x) in v {
                    if *alive == 1 && (tys[*b].get)(&s, *e) != Some(*x) {
                        bad!("number {i} of {n} entities has {:?} and not {x} as component {b}", (tys[*b].get)(&s, *e));
                    }
                }
            }
        }
        "C03" => {
            for (i, (e, alive, v)) in all.iter().enumerate() {
                let mut want: Vec<_> = v.keys().map(|b| (tys[*b].ty)().id()).collect();
                want.sort();
                let got = s.get_entity_archetype(*e).map(|a| a.included_ids().to_vec());
                if got.clone().unwrap_or_default() != if *alive == 1 { want.clone() } else { vec![] } {
                    bad!("number {i} of {n} entities, with {} components, has {:?} of them", want.len(), got.map(|g| g.len()));
                }
                for b in asked {
                    if (tys[b].get)(&s, *e).is_some() != (*alive == 1 && v.contains_key(&b)) {
                        bad!("number {i} of {n} entities seems to have component {b}, or to lack it");
                    }
                }
            }
        }
        "C04" => {
            for b in asked {
                let mut got = (tys[b].all)(&s);
                got.sort_by_key(|(e, _)| e.id());
                let mut want: Vec<_> = (0..n).filter_map(|i| item(i, b)).collect();
                want.sort_by_key(|(e, _)| e.id());
                same("a component query", want, got)?;
            }
        }
        "C06" => {
            for b in asked {
                let mut list: Vec<usize> = (0..n).collect();
                list.sort_by_key(|i| h(&[*i as u64, case.cfg[3] as u64]));
                let handles: Vec<Entity> = list.iter().map(|i| all[*i].0).collect();
                same("a list query", list.iter().filter_map(|i| item(*i, b)).collect(), (tys[b].list)(&s, &handles))?;
            }
        }
        _ => {
            for b in asked {
                same("an ordered query", ordered.iter().filter_map(|i| item(*i, b)).collect(), (tys[b].ordered)(&s))?;
            }
        }
    }
    Ok(())
}
