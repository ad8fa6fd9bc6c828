//! The store machine: applies generated operations to a real store and to a model of it,
//! and compares the two with the oracles a property asks for.
use crate::alloc::Tracked;
use crate::case::Op;
use crate::comps::*;
use division_ecs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// operation kinds
pub const CREATE: u8 = 0;
pub const CREATE_WITH: u8 = 1;
pub const DESTROY: u8 = 2;
pub const ADD: u8 = 3;
pub const REMOVE: u8 = 4;
pub const WRITE: u8 = 5;
pub const Q_COMP: u8 = 6;
pub const Q_LIST: u8 = 7;
pub const Q_ORD: u8 = 8;
pub const TAG: u8 = 9;
pub const UNTAG: u8 = 10;
pub const ORD_ADD: u8 = 11;
pub const ORD_NEXT: u8 = 12;
pub const ORD_PREV: u8 = 13;
pub const ORD_REMOVE: u8 = 14;
pub const BULK_CREATE: u8 = 15;
pub const BULK_DESTROY: u8 = 16;
pub const BULK_ADD: u8 = 17;
pub const STALE: u8 = 18;
pub const MISUSE: u8 = 19;
pub const Q_TAG: u8 = 20;
pub const PROTO: u8 = 21;
pub const ADAPT: u8 = 22;
pub const CHECK: u8 = 23;
pub const BULK_ORDER: u8 = 24;
pub const BULK_REMOVE: u8 = 25;
pub const BULK_TAG: u8 = 26;
pub const RENEW: u8 = 27;

pub type Res = Result<(), String>;

// oracles
pub const O_ALIVE: u32 = 1;
pub const O_VALUES: u32 = 2;
pub const O_SETS: u32 = 4;
pub const O_TAGS: u32 = 8;
pub const O_GROUPS: u32 = 16;
pub const O_STALE: u32 = 32;
pub const O_PLACE: u32 = 64;
pub const O_ALL: u32 = 63;
/// run one of each query at every full check
pub const O_QUERIES: u32 = 128;

pub fn h(xs: &[u64]) -> u64 {
    xs.iter().fold(0x51, |a, x| mix(a ^ *x))
}

#[derive(Clone)]
pub struct Ent {
    pub h: Entity,
    pub alive: bool,
    pub mask: u32,
    pub seeds: [u32; NC],
    pub tags: u8,
}

/// What several stores may share.
pub struct Shared {
    pub tuples: Vec<Box<dyn TupObj>>,
    pub accs: Vec<Box<dyn AccObj>>,
    pub walkers: Vec<Box<dyn Walk>>,
    pub archetypes: BTreeMap<(u32, u32), Archetype>,
    pub palette: Vec<usize>,
    pub bulk: usize,
    pub max_alive: usize,
    pub feats: BTreeMap<&'static str, u64>,
    pub log: Option<Vec<String>>,
    pub oracles: u32,
    pub debug: bool,
    /// misuse and stale operations injected so far
    pub fresh_queries: bool,
    /// results of calls, for comparing two runs of the same operations on one store
    pub trace: Option<Vec<u64>>,
}

impl Shared {
    pub fn new(cfg: &[u32], oracles: u32) -> Shared {
        let tuples = tuples();
        let k = 2 + (cfg[2] % 10) as usize;
        // cfg[1] == 0: the first tuples, so that shrinking arrives at single components
        let palette = (0..k)
            .map(|j| if cfg[1] == 0 { j + 2 } else { (h(&[cfg[1] as u64, j as u64]) % tuples.len() as u64) as usize })
            .collect();
        let bulk = if cfg!(miri) { [4, 6, 8, 12][(cfg[3] % 4) as usize] } else { [6, 30, 120, 600][(cfg[3] % 4) as usize] };
        Shared {
            tuples,
            accs: accs(),
            walkers: walkers(),
            archetypes: BTreeMap::new(),
            palette,
            bulk,
            max_alive: if cfg!(miri) { 40 } else { 2500 },
            feats: BTreeMap::new(),
            log: None,
            oracles,
            debug: cfg!(debug_assertions),
            fresh_queries: false,
            trace: None,
        }
    }
    pub fn feat(&mut self, f: &'static str) {
        let _t = Tracked::off();
        *self.feats.entry(f).or_insert(0) += 1;
    }
    pub fn say(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let _t = Tracked::off();
            if l.len() < 400 {
                l.push(s());
            }
        }
    }
    fn note(&mut self, x: u64) {
        if let Some(t) = &mut self.trace {
            let _t = Tracked::off();
            t.push(x);
        }
    }
    pub fn tuple(&self, x: u32) -> usize {
        self.palette[x as usize % self.palette.len()]
    }
}

pub fn set_name(mask: u32) -> String {
    let v: Vec<String> = (0..NC).filter(|i| mask >> i & 1 == 1).map(|i| format!("C{i}")).collect();
    format!("{{{}}}", v.join(","))
}
pub fn hname(e: Entity) -> String {
    format!("#{}.{}", e.id(), e.version())
}

pub struct World {
    pub store: Store,
    pub ents: Vec<Ent>,
    pub alive: Vec<usize>,
    pub groups: Vec<Vec<usize>>,
    by_handle: HashMap<(u32, u32), usize>,
    count_by_mask: HashMap<u32, usize>,
    seen_masks: HashSet<u32>,
    next_seed: u64,
    pub cap0: usize,
    pub max_simultaneous: usize,
    cap_seen: usize,
    steps: usize,
    pub slot: usize,
    /// entities the operations do not touch: handle, has every second of the crowd's tags
    others: Vec<(Entity, bool)>,
    /// tag and group types they have
    filled: usize,
}

/// Tags of entities the operations do not touch.
pub struct Filler<const N: usize>;
impl<const N: usize> Tag for Filler<N> {}
macro_rules! fillers {
    ($($n:literal)*) => {
        const FILLERS: &[(fn(&mut Store, Entity), fn(&Store, Entity) -> bool, fn(&mut Store, Entity), fn(&Store) -> Option<Entity>)] = &[$((
            |s, e| s.add_tag::<Filler<$n>>(e),
            |s, e| s.has_tag::<Filler<$n>>(e),
            |s, e| s.add_entity_order_by::<Filler<$n>>(e),
            |s| s.get_last_entity_ordered_by::<Filler<$n>>(),
        )),*];
    };
}
fillers!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271);
/// kinds of crowds
pub const CROWDS: u32 = 4 * 3 * 2 * 4 * 4;

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

impl World {
    pub fn new(capacity: usize, slot: usize) -> World {
        let store = {
            let _t = Tracked::on_if();
            if capacity == 10 {
                Store::new()
            } else {
                Store::with_capacity(capacity)
            }
        };
        World {
            store,
            ents: vec![],
            alive: vec![],
            groups: vec![vec![]; NG],
            by_handle: HashMap::new(),
            count_by_mask: HashMap::new(),
            seen_masks: HashSet::new(),
            next_seed: slot as u64 * 1000,
            cap0: capacity,
            max_simultaneous: 0,
            cap_seen: capacity,
            steps: 0,
            slot,
            others: vec![],
            filled: 0,
        }
    }

    /// Many entities, archetypes, tags and groups that the operations do not touch.
    pub fn crowd(&mut self, sh: &mut Shared, kind: u32) -> Res {
        if kind == 0 {
            return Ok(());
        }
        let kind = kind as usize;
        let n = [0, 300, 5_000, 65_600][kind % 4];
        let sets = [0, 40, 300][kind / 4 % 3];
        let fill = if kind / 12 % 2 == 0 { 0 } else if n < 10_000 { FILLERS.len() } else { 140 };
        let reuses = [0, 70, 1000, 66_000][kind / 96 % 4];
        sh.say(|| format!("{n} other entities, {sets} other component sets, {fill} other tags and groups, {reuses} entities created and destroyed"));
        let tys: Vec<_> = crate::blob::types().into_iter().filter(|t| t.size <= 8).take(10).collect();
        let _t = Tracked::on_if();
        let mut all = vec![];
        for j in 1..=sets {
            let set: Vec<ComponentType> = (0..tys.len()).filter(|b| j >> b & 1 == 1).map(|b| (tys[b].ty)()).collect();
            if !set.is_empty() {
                let a = ArchetypeBuilder::new().include_component_types(&set).build();
                all.push(self.store.create_entity_with_archetype(&a));
            }
        }
        for _ in 0..n {
            all.push(self.store.create_entity());
        }
        for e in all.iter().rev().take(3) {
            for f in &FILLERS[..fill] {
                f.0(&mut self.store, *e);
                f.2(&mut self.store, *e);
            }
        }
        let m = all.len();
        for (i, e) in all.into_iter().enumerate() {
            let gone = match kind / 24 % 4 {
                0 => false,
                1 => i % 50 == 7,
                2 => i % 2 == 0,
                _ => i + 10 < m,
            };
            if gone {
                self.store.destroy_entity(e);
            } else {
                self.others.push((e, fill > 0 && i + 3 >= m));
            }
        }
        for i in 0..reuses {
            let e = self.store.create_entity();
            if i + 3 > reuses {
                // the first one of a later creation
                for f in &FILLERS[..fill] {
                    f.0(&mut self.store, e);
                    f.2(&mut self.store, e);
                }
            }
            self.store.destroy_entity(e);
        }
        drop(_t);
        self.filled = fill;
        let now = self.store.entities_capacity();
        self.cap_seen = now;
        sh.feat("among very many others");
        self.check_crowd(sh)
    }
    fn check_crowd(&self, sh: &Shared) -> Res {
        let n = self.others.len();
        for k in (0..n.min(20)).chain(n.saturating_sub(5)..n) {
            let (e, filled) = self.others[k];
            if sh.oracles & (O_ALIVE | O_STALE) != 0 && !self.store.is_alive(e) {
                bad!("{}, one of very many others, is not alive", hname(e));
            }
            for (j, f) in FILLERS.iter().enumerate().skip(self.steps % 7).step_by(7) {
                let filled = filled && j < self.filled;
                if sh.oracles & O_TAGS != 0 && f.1(&self.store, e) != filled {
                    bad!("{}, one of very many others, has tag Filler<{j}>: {}", hname(e), !filled);
                }
            }
        }
        if sh.oracles & O_GROUPS != 0 {
            let first = self.others.iter().find(|o| o.1).map(|o| o.0);
            for (j, f) in FILLERS.iter().enumerate().skip(self.steps % 7).step_by(7) {
                let first = first.filter(|_| j < self.filled);
                if f.3(&self.store) != first {
                    bad!("last of the group Filler<{j}> is {:?} instead of {:?}", f.3(&self.store).map(hname), first.map(hname));
                }
            }
        }
        Ok(())
    }

    fn seed(&mut self) -> u32 {
        self.next_seed += 1;
        mix(self.next_seed) as u32
    }

    /// an alive entity; small and round numbers favour the first and the last one
    pub fn pick(&self, x: u32) -> Option<usize> {
        let n = self.alive.len();
        if n == 0 {
            return None;
        }
        Some(self.alive[match x % 8 {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => (x as usize / 8) % n,
        }])
    }
    fn pick_dead(&self, x: u32) -> Option<usize> {
        let dead: Vec<usize> = (0..self.ents.len()).filter(|i| !self.ents[*i].alive).collect();
        if dead.is_empty() {
            return None;
        }
        let n = dead.len();
        Some(dead[match x % 4 {
            0 => n - 1,
            1 => 0,
            _ => (x as usize / 4) % n,
        }])
    }
    fn pick_member(&self, g: usize, x: u32) -> Option<usize> {
        let v = &self.groups[g];
        if v.is_empty() {
            return None;
        }
        let n = v.len();
        Some(v[match x % 4 {
            0 => 0,
            1 => n - 1,
            _ => (x as usize / 4) % n,
        }])
    }
    fn same_mask(&self, i: usize) -> Vec<usize> {
        let m = self.ents[i].mask;
        self.alive.iter().copied().filter(|j| self.ents[*j].mask == m).collect()
    }

    fn leave_mask(&mut self, sh: &mut Shared, mask: u32) {
        if mask == 0 {
            return;
        }
        let n = self.count_by_mask.entry(mask).or_insert(0);
        *n -= 1;
        if *n == 0 {
            sh.feat("component set emptied");
        } else {
            sh.feat("row removed among others");
        }
        if *n > rows_bound(mask) {
            sh.feat("several pages in one set");
        }
    }
    fn enter_mask(&mut self, sh: &mut Shared, mask: u32) {
        if mask == 0 {
            return;
        }
        let n = self.count_by_mask.entry(mask).or_insert(0);
        *n += 1;
        let first = *n == 1;
        if *n > rows_bound(mask) {
            sh.feat("several pages in one set");
        }
        if first && !self.seen_masks.insert(mask) {
            sh.feat("emptied component set refilled");
        } else if first && self.count_by_mask.iter().any(|(m, n)| *m != mask && *n == 0) {
            sh.feat("new component set after another emptied");
        }
    }

    pub fn create(&mut self, sh: &mut Shared, mask: u32, how: u32) -> Result<usize, String> {
        let cap = self.store.entities_capacity();
        let e = if mask == 0 {
            let _t = Tracked::on_if();
            self.store.create_entity()
        } else {
            let a = archetype_of(sh, mask, how);
            let _t = Tracked::on_if();
            self.store.create_entity_with_archetype(a)
        };
        sh.note((e.id() as u64) << 32 | e.version() as u64);
        let cap2 = self.store.entities_capacity();
        if cap2 != cap {
            sh.feat("entity capacity grown");
        }
        sh.say(|| format!("create {} -> {}", set_name(mask), hname(e)));
        if e.version() > 1 {
            sh.feat("id reused");
        }
        let i = self.ents.len();
        if let Some(j) = self.by_handle.insert((e.id(), e.version()), i) {
            bad!(
                "creation returned the handle {} that was issued before ({})",
                hname(e),
                if self.ents[j].alive { "and is still alive" } else { "and destroyed since" }
            );
        }
        if let Some(j) = self.alive.iter().find(|j| self.ents[**j].h.id() == e.id()) {
            bad!("creation returned {} while {} is alive", hname(e), hname(self.ents[*j].h));
        }
        if !self.store.is_alive(e) {
            bad!("{} is not alive right after its creation", hname(e));
        }
        let mut seeds = [0; NC];
        for c in 0..NC {
            if mask >> c & 1 == 1 {
                seeds[c] = self.seed();
                let s = seeds[c];
                if !sh.tuples[c].refs_mut(&mut self.store, e, &mut |r| r[0].set(s)) {
                    bad!("{} was created with {} but its C{c} cannot be accessed", hname(e), set_name(mask));
                }
            }
        }
        self.ents.push(Ent { h: e, alive: true, mask, seeds, tags: 0 });
        self.alive.push(i);
        self.max_simultaneous = self.max_simultaneous.max(self.alive.len());
        self.enter_mask(sh, mask);
        Ok(i)
    }

    pub fn destroy(&mut self, sh: &mut Shared, i: usize) -> Res {
        let e = self.ents[i].h;
        sh.say(|| format!("destroy {}", hname(e)));
        {
            let _t = Tracked::on_if();
            self.store.destroy_entity(e);
        }
        self.ents[i].alive = false;
        let p = self.alive.iter().position(|j| *j == i).unwrap();
        self.alive.remove(p);
        let mask = self.ents[i].mask;
        self.leave_mask(sh, mask);
        if self.ents[i].tags != 0 {
            sh.feat("tagged entity destroyed");
        }
        for g in &mut self.groups {
            if let Some(p) = g.iter().position(|j| *j == i) {
                g.remove(p);
                sh.feat("group member destroyed");
            }
        }
        if self.store.is_alive(e) {
            bad!("{} is alive after its destruction", hname(e));
        }
        Ok(())
    }

    fn add(&mut self, sh: &mut Shared, i: usize, t: usize) -> Res {
        let (e, mask) = (self.ents[i].h, self.ents[i].mask);
        let tm = sh.tuples[t].mask();
        if !fits(mask | tm) {
            return Ok(());
        }
        let mut seeds = [0u32; NC];
        for c in sh.tuples[t].comps() {
            seeds[*c] = self.seed();
        }
        sh.say(|| format!("add {} to {} (had {})", set_name(tm), hname(e), set_name(mask)));
        sh.tuples[t].add(&mut self.store, e, &|c| seeds[c]);
        if mask | tm != mask {
            self.leave_mask(sh, mask);
            self.enter_mask(sh, mask | tm);
            sh.feat("components added");
            if mask & tm != 0 {
                sh.feat("overlapping add");
            }
            if mask != 0 {
                sh.feat("moved to another set");
            }
        }
        let en = &mut self.ents[i];
        en.mask |= tm;
        for c in sh.tuples[t].comps() {
            en.seeds[*c] = seeds[*c];
        }
        Ok(())
    }

    fn remove(&mut self, sh: &mut Shared, i: usize, t: usize) -> Res {
        let (e, mask) = (self.ents[i].h, self.ents[i].mask);
        let tm = sh.tuples[t].mask();
        sh.say(|| format!("remove {} from {} (had {})", set_name(tm), hname(e), set_name(mask)));
        sh.tuples[t].remove(&mut self.store, e);
        let new = mask & !tm;
        if new != mask {
            self.leave_mask(sh, mask);
            self.enter_mask(sh, new);
            sh.feat("components removed");
            sh.feat(if new == 0 { "last component removed" } else { "moved to another set" });
        } else {
            sh.feat("absent components removed");
        }
        self.ents[i].mask = new;
        Ok(())
    }

    pub fn apply(&mut self, sh: &mut Shared, op: &Op) -> Res {
        let Op { k, a, b, c } = *op;
        match k {
            CREATE => {
                if self.alive.len() < sh.max_alive {
                    self.create(sh, 0, 0)?;
                }
            }
            CREATE_WITH => {
                if self.alive.len() < sh.max_alive {
                    let m = self.choose_mask(sh, a, b);
                    self.create(sh, m, c)?;
                }
            }
            DESTROY => {
                if let Some(i) = self.pick(a) {
                    self.destroy(sh, i)?;
                }
            }
            ADD => {
                if let Some(i) = self.pick(a) {
                    let t = sh.tuple(b);
                    self.add(sh, i, t)?;
                    self.touched(sh, i)?;
                }
            }
            REMOVE => {
                if let Some(i) = self.pick(a) {
                    let t = self.tuple_for_removal(sh, i, b);
                    self.remove(sh, i, t)?;
                    self.touched(sh, i)?;
                }
            }
            WRITE => {
                if let Some(i) = self.pick(a) {
                    // a tuple it has, if there is one
                    let m = self.ents[i].mask;
                    let cand: Vec<usize> = (0..sh.tuples.len()).filter(|t| sh.tuples[*t].mask() & !m == 0).collect();
                    if !cand.is_empty() {
                        let t = cand[b as usize % cand.len()];
                        let s = self.seed();
                        let e = self.ents[i].h;
                        let tm = sh.tuples[t].mask();
                        sh.say(|| format!("write {} of {}", set_name(tm), hname(e)));
                        if !sh.tuples[t].refs_mut(&mut self.store, e, &mut |r| r.iter_mut().for_each(|c| c.set(s))) {
                            bad!("{} has {} but {} cannot be accessed", hname(e), set_name(m), set_name(sh.tuples[t].mask()));
                        }
                        for c in sh.tuples[t].comps() {
                            self.ents[i].seeds[*c] = s;
                        }
                    }
                }
            }
            Q_COMP => {
                let acc = self.choose_acc(sh, a);
                self.q_comp(sh, acc, b % 2 == 0, c % 4 == 0)?;
            }
            Q_LIST => {
                let acc = self.choose_acc(sh, a);
                let list = self.make_list(b, c);
                self.q_list(sh, acc, &list, b % 2 == 0, c % 4 == 0)?;
            }
            Q_ORD => {
                let g = self.group_in_use(b);
                let acc = self.choose_acc_of(sh, a, self.pick_member(g, a / 4));
                self.q_ord(sh, acc, g, c % 2 == 0, c % 8 < 2)?;
            }
            Q_TAG => {
                let t = self.tag_in_use(b);
                let tagged: Vec<usize> = self.alive.iter().copied().filter(|i| self.ents[*i].tags >> t & 1 == 1).collect();
                let of = if tagged.is_empty() { self.pick(a / 4) } else { Some(tagged[a as usize / 4 % tagged.len()]) };
                let acc = self.choose_acc_of(sh, a, of);
                self.q_tag(sh, acc, t)?;
            }
            PROTO => {
                let acc = self.choose_acc_near(sh, a, b);
                self.protocol(sh, acc, b, c)?;
            }
            ADAPT => {
                let acc = self.choose_acc_of(sh, a, if b % 2 == 0 { self.pick(a / 4) } else { self.pick_member(self.group_in_use(b / 2), a / 4) });
                self.adapters(sh, acc, b, c)?;
                self.walks(sh, a / 5, b / 3, c / 3)?;
            }
            TAG | UNTAG => {
                if let Some(i) = self.pick(a) {
                    let t = b as usize % NT;
                    let e = self.ents[i].h;
                    let _t = Tracked::on_if();
                    if k == TAG {
                        add_tag(&mut self.store, e, t);
                        self.ents[i].tags |= 1 << t;
                    } else {
                        remove_tag(&mut self.store, e, t);
                        self.ents[i].tags &= !(1 << t);
                    }
                    drop(_t);
                    sh.feat("tag set or removed");
                    sh.say(|| format!("{} tag T{t} of {}", if k == TAG { "set" } else { "remove" }, hname(e)));
                }
            }
            ORD_ADD | ORD_NEXT | ORD_PREV => {
                let g = self.group(b);
                if let Some(i) = self.pick(a) {
                    if !self.groups[g].contains(&i) {
                        self.order(sh, k, g, i, c)?;
                    }
                }
            }
            ORD_REMOVE => {
                let g = self.group(b);
                let i = if c % 4 == 0 { self.pick(a) } else { self.pick_member(g, a) };
                if let Some(i) = i {
                    let e = self.ents[i].h;
                    {
                        let _t = Tracked::on_if();
                        ord_remove(&mut self.store, e, g);
                    }
                    sh.say(|| format!("remove {} from group T{g}", hname(e)));
                    if let Some(p) = self.groups[g].iter().position(|j| *j == i) {
                        sh.feat("removed from group");
                        if p > 0 && p + 1 < self.groups[g].len() {
                            sh.feat("removed from the middle of a group");
                        }
                        self.groups[g].remove(p);
                    }
                }
            }
            BULK_CREATE => {
                let m = self.choose_mask(sh, a, b);
                let n = (1 + c as usize % sh.bulk).min(sh.max_alive.saturating_sub(self.alive.len()));
                for _ in 0..n {
                    self.create(sh, m, c)?;
                }
            }
            BULK_DESTROY => {
                let list = self.bulk_list(a, b, c);
                for i in list {
                    self.destroy(sh, i)?;
                }
            }
            BULK_ADD => {
                let t = sh.tuple(b);
                for i in self.bulk_list(a, 5 + b % 2, c) {
                    self.add(sh, i, t)?;
                }
            }
            BULK_REMOVE => {
                let list = self.bulk_list(a, 5 + b % 2, c);
                if let Some(i) = list.first() {
                    let t = self.tuple_for_removal(sh, *i, b);
                    for i in list {
                        self.remove(sh, i, t)?;
                    }
                }
            }
            BULK_TAG => {
                let t = a as usize % NT;
                for (n, i) in self.alive.clone().into_iter().enumerate() {
                    if h(&[b as u64, n as u64]) % 8 < (c % 8) as u64 {
                        let _t = Tracked::on_if();
                        add_tag(&mut self.store, self.ents[i].h, t);
                        self.ents[i].tags |= 1 << t;
                    }
                }
                sh.feat("tag set or removed");
                sh.say(|| format!("set tag T{t} of many entities"));
            }
            BULK_ORDER => {
                // append many in storage order, reversed, or interleaved
                let g = self.group(b);
                let mut v: Vec<usize> = self.alive.iter().copied().filter(|i| !self.groups[g].contains(i)).collect();
                match c % 4 {
                    0 => v.reverse(),
                    1 => v.sort_by_key(|i| h(&[a as u64, *i as u64])),
                    2 => v.retain(|i| h(&[a as u64, *i as u64]) % 3 > 0),
                    _ => {}
                }
                v.truncate(if a % 16 == 5 { 700 } else { 60 });
                for i in v {
                    self.order(sh, ORD_ADD, g, i, 0)?;
                }
            }
            STALE => self.stale(sh, a, b, c)?,
            MISUSE => {
                if sh.debug {
                    self.misuse(sh, a, b, c)?
                }
            }
            CHECK => self.full(sh)?,
            RENEW => {}
            _ => unreachable!("operation kind {k}"),
        }
        self.capacity(sh)?;
        self.steps += 1;
        if self.alive.len() <= 12 || self.steps % if self.alive.len() < 60 { 6 } else { 24 } == 0 {
            self.full(sh)?;
        }
        Ok(())
    }

    fn group(&self, b: u32) -> usize {
        b as usize % NG
    }
    /// mostly a group with several members
    fn group_in_use(&self, b: u32) -> usize {
        let v: Vec<usize> = (0..NG).filter(|g| self.groups[*g].len() > 1).collect();
        if b % 8 == 7 || v.is_empty() {
            return b as usize / 8 % NG;
        }
        v[b as usize / 8 % v.len()]
    }
    /// mostly a tag something alive has
    fn tag_in_use(&self, b: u32) -> usize {
        let v: Vec<usize> = (0..NT).filter(|t| self.alive.iter().any(|i| self.ents[*i].tags >> t & 1 == 1)).collect();
        if b % 8 == 7 || v.is_empty() {
            return b as usize / 8 % NT;
        }
        v[b as usize / 8 % v.len()]
    }

    fn choose_mask(&self, sh: &Shared, a: u32, b: u32) -> u32 {
        let m = sh.tuples[sh.tuple(a)].mask();
        let more = m | sh.tuples[sh.tuple(b)].mask();
        if b % 3 == 2 && fits(more) {
            more
        } else {
            m
        }
    }

    /// mostly something the entity has (sometimes all of it), sometimes anything
    fn tuple_for_removal(&self, sh: &Shared, i: usize, b: u32) -> usize {
        let m = self.ents[i].mask;
        let cand: Vec<usize> = match b % 4 {
            0 => vec![],
            1 => (0..sh.tuples.len()).filter(|t| m != 0 && m & !sh.tuples[*t].mask() == 0).collect(),
            _ => (0..sh.tuples.len()).filter(|t| m & sh.tuples[*t].mask() != 0).collect(),
        };
        if cand.is_empty() {
            b as usize / 4 % sh.tuples.len()
        } else {
            cand[b as usize / 4 % cand.len()]
        }
    }

    /// mostly an access something alive matches
    fn choose_acc(&self, sh: &Shared, a: u32) -> usize {
        self.choose_acc_of(sh, a, self.pick(a / 4))
    }
    fn choose_acc_of(&self, sh: &Shared, a: u32, of: Option<usize>) -> usize {
        let n = sh.accs.len();
        if a % 4 == 3 || of.is_none() {
            return a as usize / 4 % n;
        }
        let m = self.ents[of.unwrap()].mask;
        let cand: Vec<usize> = (0..n).filter(|i| need(&*sh.accs[*i]) & !m == 0).collect();
        if cand.is_empty() {
            a as usize / 4 % n
        } else {
            cand[(a as usize / 4) % cand.len()]
        }
    }

    fn choose_acc_near(&self, sh: &Shared, a: u32, b: u32) -> usize {
        let of = match self.which(b) {
            Which::Ordered(g) | Which::OrderedEnts(g) if !self.groups[g].is_empty() => self.pick_member(g, a / 4),
            _ => self.pick(a / 4),
        };
        self.choose_acc_of(sh, a, of)
    }

    fn bulk_list(&self, a: u32, b: u32, c: u32) -> Vec<usize> {
        let Some(i) = self.pick(a) else { return vec![] };
        let mut v = self.same_mask(i);
        match b % 7 {
            0 => {}
            1 => v.reverse(),
            2 => v.sort_by_key(|i| h(&[c as u64, *i as u64])),
            3 => v.retain(|i| h(&[c as u64, *i as u64]) % 2 == 0),
            4 => v = self.alive.clone(),
            5 => v.truncate(1 + c as usize % 8),
            _ => v.truncate(1 + c as usize % 200),
        }
        v
    }

    fn order(&mut self, sh: &mut Shared, k: u8, g: usize, i: usize, c: u32) -> Res {
        let e = self.ents[i].h;
        let anchor = if k == ORD_ADD { None } else { self.pick_member(g, c) };
        match anchor {
            None => {
                {
                    let _t = Tracked::on_if();
                    ord_add(&mut self.store, e, g);
                }
                self.groups[g].push(i);
            }
            Some(j) => {
                let x = self.ents[j].h;
                let p = self.groups[g].iter().position(|m| *m == j).unwrap();
                {
                    let _t = Tracked::on_if();
                    if k == ORD_NEXT {
                        ord_next(&mut self.store, e, x, g);
                    } else {
                        ord_prev(&mut self.store, e, x, g);
                    }
                }
                self.groups[g].insert(if k == ORD_NEXT { p + 1 } else { p }, i);
                sh.feat("inserted next to a member");
            }
        }
        sh.feat("added to group");
        sh.say(|| match anchor {
            None => format!("append {} to group T{g}", hname(e)),
            Some(j) => format!("insert {} {} {} in group T{g}", hname(e), if k == ORD_NEXT { "after" } else { "before" }, hname(self.ents[j].h)),
        });
        Ok(())
    }

    // ------------------------------------------------------------------ oracles

    fn capacity(&mut self, sh: &mut Shared) -> Res {
        let cap = self.store.entities_capacity();
        sh.note(cap as u64);
        self.cap_seen = cap;
        Ok(())
    }

    fn touched(&mut self, sh: &mut Shared, i: usize) -> Res {
        if sh.oracles & O_VALUES != 0 {
            self.values_of(sh, i)?;
        }
        if sh.oracles & O_SETS != 0 {
            self.set_of(sh, i)?;
        }
        Ok(())
    }

    pub fn full(&mut self, sh: &mut Shared) -> Res {
        let o = sh.oracles;
        if !self.others.is_empty() {
            self.check_crowd(sh)?;
        }
        if o & O_ALIVE != 0 {
            self.check_alive()?;
        }
        if o & O_SETS != 0 {
            for n in 0..self.alive.len() {
                self.set_of(sh, self.alive[n])?;
            }
        }
        if o & O_VALUES != 0 {
            for n in 0..self.alive.len() {
                self.values_of(sh, self.alive[n])?;
            }
        }
        if o & O_TAGS != 0 {
            self.check_tags(sh)?;
        }
        if o & O_GROUPS != 0 {
            self.check_groups(sh)?;
        }
        if o & O_STALE != 0 {
            self.check_stale(sh)?;
        }
        if o & O_PLACE != 0 {
            self.check_place(sh)?;
        }
        if o & O_QUERIES != 0 {
            let x = self.steps as u32 * 7 + 1;
            for acc in [self.choose_acc(sh, x * 4), self.choose_acc(sh, x + 3)] {
                self.q_comp(sh, acc, true, false)?;
                let l = self.make_list(x, x);
                self.q_list(sh, acc, &l, true, false)?;
                self.q_ord(sh, acc, self.group(x), true, false)?;
                self.q_tag(sh, acc, x as usize % NT)?;
            }
        }
        Ok(())
    }

    fn check_alive(&self) -> Res {
        let mut n = 0;
        for e in &self.ents {
            let a = self.store.is_alive(e.h);
            n += a as usize;
            if a != e.alive {
                bad!("is_alive({}) is {a} but the entity is {}", hname(e.h), if e.alive { "alive" } else { "destroyed" });
            }
        }
        if n != self.alive.len() {
            bad!("{n} handles are alive instead of {}", self.alive.len());
        }
        Ok(())
    }

    fn set_of(&self, sh: &mut Shared, i: usize) -> Res {
        let en = &self.ents[i];
        let (e, m) = (en.h, en.mask);
        let arch = self.store.get_entity_archetype(e);
        if self.store.is_valid_entity_with_archetype(e) != (m != 0) {
            bad!("is_valid_entity_with_archetype({}) is {} but it has {}", hname(e), m == 0, set_name(m));
        }
        match arch {
            None if m != 0 => bad!("{} has no archetype but should have {}", hname(e), set_name(m)),
            Some(a) if m == 0 => bad!("{} has an archetype ({a}) but no component", hname(e)),
            Some(a) => {
                let got: BTreeSet<_> = a.included_ids().iter().copied().collect();
                let want: BTreeSet<_> = type_ids_of(m).into_iter().collect();
                if got != want || a.component_count() != want.len() {
                    bad!("the archetype of {} is {a} but its components are {}", hname(e), set_name(m));
                }
            }
            None => {}
        }
        // every tuple for a few entities, a rotating choice otherwise
        let all = self.alive.len() <= 12;
        for t in 0..sh.tuples.len() {
            if !all && (t + i) % 7 != 0 && sh.tuples[t].mask() != m {
                continue;
            }
            let want = sh.tuples[t].mask() & !m == 0;
            let mut order_ok = true;
            let got = sh.tuples[t].refs(&self.store, e, &mut |r| {
                order_ok = r.iter().map(|c| c.idx()).eq(sh.tuples[t].comps().iter().copied());
            });
            if got != want || !order_ok {
                bad!(
                    "reading {} of {} {} although it has {}",
                    set_name(sh.tuples[t].mask()),
                    hname(e),
                    if got { "succeeds" } else { "fails" },
                    set_name(m)
                );
            }
        }
        Ok(())
    }

    /// typed mutable access, for which the store must be borrowed mutably
    pub fn check_mut_access(&mut self, sh: &mut Shared) -> Res {
        for n in 0..self.ents.len().min(60) {
            let en = &self.ents[n];
            let (e, m, alive) = (en.h, en.mask, en.alive);
            for t in 0..sh.tuples.len() {
                let want = alive && sh.tuples[t].mask() & !m == 0;
                if sh.tuples[t].refs_mut(&mut self.store, e, &mut |_| {}) != want {
                    bad!("mutable access to {} of {} {} (alive {alive}, has {})", set_name(sh.tuples[t].mask()), hname(e), if want { "fails" } else { "succeeds" }, set_name(m));
                }
            }
        }
        Ok(())
    }

    fn values_of(&self, sh: &mut Shared, i: usize) -> Res {
        let en = &self.ents[i];
        let mut wrong = None;
        let mut sum = 0;
        for c in 0..NC {
            if en.mask >> c & 1 == 1 {
                let ok = sh.tuples[c].refs(&self.store, en.h, &mut |r| {
                    if !r[0].eq_seed(en.seeds[c]) {
                        wrong = Some(c);
                    }
                    sum += 1;
                });
                if !ok {
                    bad!("C{c} of {} cannot be read although it was stored", hname(en.h));
                }
            }
        }
        // and once through a tuple, copied out of the store
        let t = (i + self.steps) % sh.tuples.len();
        if sh.tuples[t].mask() & !en.mask == 0 {
            sh.tuples[t].cloned(&self.store, en.h, &mut |r| {
                for c in r {
                    if !c.eq_seed(en.seeds[c.idx()]) {
                        wrong = Some(c.idx());
                    }
                }
            });
        }
        if let Some(c) = wrong {
            bad!("C{c} of {} (components {}) is not the value last stored in it", hname(en.h), set_name(en.mask));
        }
        Ok(())
    }

    fn check_tags(&self, sh: &mut Shared) -> Res {
        for i in &self.alive {
            let e = &self.ents[*i];
            for t in 0..NT {
                let got = has_tag(&self.store, e.h, t);
                if got != (e.tags >> t & 1 == 1) {
                    bad!("has_tag::<T{t}>({}) is {got}", hname(e.h));
                }
            }
        }
        let _ = sh;
        Ok(())
    }

    fn check_groups(&self, sh: &mut Shared) -> Res {
        for g in 0..NG {
            let v = &self.groups[g];
            let hh = |i: usize| self.ents[i].h;
            let first = get_first(&self.store, g);
            let last = get_last(&self.store, g);
            if first != v.first().map(|i| hh(*i)) {
                bad!("first of group T{g} is {:?} instead of {:?}", first.map(hname), v.first().map(|i| hname(hh(*i))));
            }
            if last != v.last().map(|i| hh(*i)) {
                bad!("last of group T{g} is {:?} instead of {:?}", last.map(hname), v.last().map(|i| hname(hh(*i))));
            }
            let mut pos = HashMap::new();
            for (p, i) in v.iter().enumerate() {
                pos.insert(*i, p);
            }
            for i in &self.alive {
                let (n, p) = (get_next(&self.store, hh(*i), g), get_prev(&self.store, hh(*i), g));
                let (wn, wp) = match pos.get(i) {
                    Some(p) => (v.get(p + 1).map(|j| hh(*j)), p.checked_sub(1).map(|q| hh(v[q]))),
                    None => (None, None),
                };
                if n != wn {
                    bad!("next of {} in group T{g} is {:?} instead of {:?}", hname(hh(*i)), n.map(hname), wn.map(hname));
                }
                if p != wp {
                    bad!("previous of {} in group T{g} is {:?} instead of {:?}", hname(hh(*i)), p.map(hname), wp.map(hname));
                }
            }
        }
        let _ = sh;
        Ok(())
    }

    fn stale_shows(&self, sh: &Shared, e: Entity) -> Option<String> {
        if self.store.is_alive(e) {
            return Some("is alive".into());
        }
        if self.store.is_valid_entity_with_archetype(e) {
            return Some("is valid with an archetype".into());
        }
        if self.store.get_entity_archetype(e).is_some() {
            return Some("has an archetype".into());
        }
        for t in &sh.tuples {
            if t.refs(&self.store, e, &mut |_| {}) {
                return Some(format!("shows {}", set_name(t.mask())));
            }
        }
        for t in 0..NT {
            if has_tag(&self.store, e, t) {
                return Some(format!("has tag T{t}"));
            }
        }
        for g in 0..NG {
            if let Some(n) = get_next(&self.store, e, g) {
                return Some(format!("has {} after it in group T{g}", hname(n)));
            }
            if let Some(n) = get_prev(&self.store, e, g) {
                return Some(format!("has {} before it in group T{g}", hname(n)));
            }
        }
        None
    }

    fn check_stale(&self, sh: &mut Shared) -> Res {
        let dead: Vec<usize> = (0..self.ents.len()).filter(|i| !self.ents[*i].alive).collect();
        let step = 1 + dead.len() / 60;
        for i in dead.iter().skip(self.steps % step).step_by(step) {
            if let Some(s) = self.stale_shows(sh, self.ents[*i].h) {
                bad!("the destroyed entity {} {s}", hname(self.ents[*i].h));
            }
        }
        Ok(())
    }

    /// Every component is aligned and apart from every other one.
    fn check_place(&self, sh: &mut Shared) -> Res {
        let mut v: Vec<(usize, usize, usize, usize)> = vec![];
        for i in &self.alive {
            let en = &self.ents[*i];
            for c in 0..NC {
                if en.mask >> c & 1 == 1 {
                    let Some(p) = self.addr(sh, *i, c) else { bad!("C{c} of {} has no address", hname(en.h)) };
                    if p % ALIGNS[c] != 0 {
                        bad!("C{c} of {} is at {p:#x}, not aligned to {}", hname(en.h), ALIGNS[c]);
                    }
                    if SIZES[c] > 0 {
                        v.push((p, SIZES[c], *i, c));
                    }
                }
            }
        }
        v.sort();
        for w in v.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                bad!("C{} of {} overlaps C{} of {}", w[0].3, hname(self.ents[w[0].2].h), w[1].3, hname(self.ents[w[1].2].h));
            }
        }
        Ok(())
    }

    fn addr(&self, sh: &Shared, i: usize, c: usize) -> Option<usize> {
        let mut p = None;
        sh.tuples[c].refs(&self.store, self.ents[i].h, &mut |r| p = Some(r[0].addr()));
        p
    }

    // ------------------------------------------------------------------ queries

    fn matching(&self, sh: &Shared, acc: usize) -> Vec<usize> {
        let m = need(&*sh.accs[acc]);
        self.alive.iter().copied().filter(|i| m & !self.ents[*i].mask == 0).collect()
    }

    /// Runs a query and resolves each item to the entity whose components it refers to.
    fn collect(
        &mut self,
        sh: &mut Shared,
        acc: usize,
        which: Which,
        list: &[Entity],
        cand: &[usize],
        expected: usize,
        write: bool,
    ) -> Result<Vec<usize>, String> {
        let name = format!("{which:?} query of {}", acc_name(&*sh.accs[acc]));
        // component addresses of the entities that may be yielded, by point access
        let mut at: HashMap<(usize, usize), usize> = HashMap::new();
        let mut mask = need(&*sh.accs[acc]);
        while mask != 0 {
            let c = mask.trailing_zeros() as usize;
            mask &= mask - 1;
            for i in cand {
                match self.addr(sh, *i, c) {
                    None => bad!("C{c} of {} cannot be read", hname(self.ents[*i].h)),
                    Some(p) => {
                        // components without bytes may share their place
                        if let Some(j) = at.insert((c, p), *i) {
                            if j != *i && SIZES[c] > 0 {
                                bad!("C{c} of {} and of {} are at the same address", hname(self.ents[*i].h), hname(self.ents[j].h));
                            }
                        }
                    }
                }
            }
        }
        let write = write && !sh.accs[acc].write().is_empty();
        let base = if write { self.seed() } else { 0 };
        let limit = expected + 3;
        let mut items: Vec<(Option<Entity>, Vec<(usize, usize, bool)>)> = vec![];
        let mut n = 0u32;
        let fresh = sh.fresh_queries;
        sh.accs[acc].run(&self.store, which, list, fresh, limit, &mut |e, mut it| {
            if write {
                // only touch memory known to belong to a matching entity
                if it.parts().iter().all(|(c, p, _)| at.contains_key(&(*c, *p))) {
                    it.write(base.wrapping_add(n));
                }
            }
            n += 1;
            items.push((e, it.parts()));
        });
        let mut out = vec![];
        for (k, (e, parts)) in items.iter().enumerate() {
            let mut who: Option<usize> = None;
            for (c, p, m) in parts {
                match at.get(&(*c, *p)) {
                    None => bad!("{name}: item {k} refers to a C{c} that is not the C{c} of any matching entity{}", match e {
                        Some(e) => format!(" (handle {})", hname(*e)),
                        None => String::new(),
                    }),
                    Some(_) if SIZES[*c] == 0 => {}
                    Some(i) => {
                        if who.is_some() && who != Some(*i) {
                            bad!("{name}: item {k} mixes components of {} and {}", hname(self.ents[who.unwrap()].h), hname(self.ents[*i].h));
                        }
                        who = Some(*i);
                    }
                }
                if *m != sh.accs[acc].write().contains(c) {
                    bad!("{name}: item {k} has the wrong access to C{c}");
                }
            }
            let got: Vec<usize> = parts.iter().map(|p| p.0).collect();
            let want: Vec<usize> = sh.accs[acc].read().iter().chain(sh.accs[acc].write()).copied().collect();
            if got != want {
                bad!("{name}: item {k} carries components {got:?}");
            }
            let who = who.unwrap();
            if let Some(e) = e {
                if *e != self.ents[who].h {
                    bad!("{name}: item {k} carries the handle {} with the components of {}", hname(*e), hname(self.ents[who].h));
                }
            }
            out.push(who);
        }
        if items.len() >= limit {
            bad!("{name}: yields at least {limit} items instead of {expected}");
        }
        if write {
            sh.feat("written through a query");
            for (k, i) in out.iter().enumerate() {
                for c in sh.accs[acc].write() {
                    self.ents[*i].seeds[*c] = base.wrapping_add(k as u32);
                }
            }
            for i in &out {
                for c in sh.accs[acc].write() {
                    let seed = self.ents[*i].seeds[*c];
                    let mut ok = false;
                    sh.tuples[*c].refs(&self.store, self.ents[*i].h, &mut |r| ok = r[0].eq_seed(seed));
                    if !ok {
                        bad!("{name}: C{c} of {} is not what was written through the query", hname(self.ents[*i].h));
                    }
                }
            }
        }
        if sh.trace.is_some() {
            let mut v: Vec<u64> = out.iter().map(|i| (self.ents[*i].h.id() as u64) << 32 | self.ents[*i].h.version() as u64).collect();
            if matches!(which, Which::Comp | Which::CompEnts | Which::CompTag(_)) {
                v.sort();
            }
            v.into_iter().for_each(|x| sh.note(x));
            sh.note(u64::MAX);
        }
        sh.say(|| format!("{name}{}: {} items", if write { " with writes" } else { "" }, out.len()));
        Ok(out)
    }

    pub fn q_comp(&mut self, sh: &mut Shared, acc: usize, ents: bool, write: bool) -> Res {
        let cand = self.matching(sh, acc);
        let which = if ents { Which::CompEnts } else { Which::Comp };
        let masks: HashSet<u32> = cand.iter().map(|i| self.ents[*i].mask).collect();
        if masks.len() > 1 {
            sh.feat("component query over several sets");
        }
        if masks.iter().any(|m| cand.iter().filter(|i| self.ents[**i].mask == *m).count() > rows_bound(*m)) {
            sh.feat("component query over several pages of a set");
        }
        if !cand.is_empty() {
            sh.feat("component query with items");
        }
        let got = self.collect(sh, acc, which, &[], &cand, cand.len(), write)?;
        let mut seen = HashSet::new();
        for i in &got {
            if !seen.insert(*i) {
                bad!("{which:?} query of {} yields {} twice", acc_name(&*sh.accs[acc]), hname(self.ents[*i].h));
            }
        }
        if let Some(i) = cand.iter().find(|i| !seen.contains(i)) {
            bad!(
                "{which:?} query of {} leaves out {} that has {}",
                acc_name(&*sh.accs[acc]),
                hname(self.ents[*i].h),
                set_name(self.ents[*i].mask)
            );
        }
        Ok(())
    }

    pub fn make_list(&self, b: u32, c: u32) -> Vec<Entity> {
        if self.ents.is_empty() {
            return vec![];
        }
        let n = self.ents.len();
        let len = [4, 10, 40, 150][(b / 16 % 4) as usize].min(n * 3);
        match b / 4 % 4 {
            // everything ever issued, in order
            0 => self.ents.iter().take(400).map(|e| e.h).collect(),
            // runs of entities created one after the other, with holes
            1 => {
                let mut v = vec![];
                let mut j = 0u64;
                while v.len() < len {
                    let start = h(&[c as u64, j]) as usize % n;
                    let run = 1 + h(&[c as u64, j, 1]) as usize % 6;
                    for i in start..(start + run).min(n) {
                        v.push(self.ents[i].h);
                    }
                    j += 1;
                }
                v
            }
            // mostly alive ones of one component set, other handles in between
            2 if !self.alive.is_empty() => {
                let same = self.same_mask(self.pick(c).unwrap());
                (0..len as u64)
                    .map(|j| {
                        let x = h(&[c as u64, j]) as usize;
                        if x % 5 == 0 {
                            self.ents[x / 5 % n].h
                        } else {
                            self.ents[same[x / 5 % same.len()]].h
                        }
                    })
                    .collect()
            }
            _ => (0..len as u64).map(|j| self.ents[h(&[c as u64, j]) as usize % n].h).collect(),
        }
    }

    pub fn q_list(&mut self, sh: &mut Shared, acc: usize, list: &[Entity], ents: bool, write: bool) -> Res {
        let m = need(&*sh.accs[acc]);
        let want: Vec<usize> = list
            .iter()
            .map(|e| self.by_handle[&(e.id(), e.version())])
            .filter(|i| self.ents[*i].alive && m & !self.ents[*i].mask == 0)
            .collect();
        if want.len() > 1 && want.len() < list.len() {
            sh.feat("list query with holes");
        }
        if want.len() > 1 {
            sh.feat("list query with items");
        }
        let which = if ents { Which::ListEnts } else { Which::List };
        let mut cand = want.clone();
        cand.sort();
        cand.dedup();
        let got = self.collect(sh, acc, which, list, &cand, want.len(), write)?;
        if got != want {
            let names = |v: &[usize]| v.iter().take(40).map(|i| hname(self.ents[*i].h)).collect::<Vec<_>>().join(" ");
            bad!(
                "{which:?} query of {} over [{}] yields [{}] instead of [{}]",
                acc_name(&*sh.accs[acc]),
                list.iter().take(40).map(|e| hname(*e)).collect::<Vec<_>>().join(" "),
                names(&got),
                names(&want)
            );
        }
        Ok(())
    }

    /// The links of a group end (a query over one that does not would never return).
    fn group_ends(&self, g: usize) -> Res {
        let mut n = 0;
        let mut e = get_first(&self.store, g);
        while let Some(x) = e {
            n += 1;
            if n > self.alive.len() + 2 {
                bad!("following group T{g} from its first entity never ends");
            }
            e = get_next(&self.store, x, g);
        }
        Ok(())
    }

    pub fn q_ord(&mut self, sh: &mut Shared, acc: usize, g: usize, ents: bool, write: bool) -> Res {
        self.group_ends(g)?;
        let m = need(&*sh.accs[acc]);
        let want: Vec<usize> = self.groups[g].iter().copied().filter(|i| m & !self.ents[*i].mask == 0).collect();
        if want.len() > 1 {
            sh.feat("ordered query with items");
            if want.len() < self.groups[g].len() {
                sh.feat("ordered query with holes");
            }
        }
        let which = if ents { Which::OrderedEnts(g) } else { Which::Ordered(g) };
        let got = self.collect(sh, acc, which, &[], &want, want.len(), write)?;
        if got != want {
            let names = |v: &[usize]| v.iter().take(40).map(|i| hname(self.ents[*i].h)).collect::<Vec<_>>().join(" ");
            bad!(
                "{which:?} query of {} over group [{}] yields [{}] instead of [{}]",
                acc_name(&*sh.accs[acc]),
                names(&self.groups[g]),
                names(&got),
                names(&want)
            );
        }
        Ok(())
    }

    pub fn q_tag(&mut self, sh: &mut Shared, acc: usize, t: usize) -> Res {
        let limit = self.alive.len() + 3;
        let mut all: Vec<(Entity, Vec<(usize, usize, bool)>)> = vec![];
        let fresh = sh.fresh_queries;
        sh.accs[acc].run(&self.store, Which::CompEnts, &[], fresh, limit, &mut |e, it| all.push((e.unwrap(), it.parts())));
        let mut got = vec![];
        sh.accs[acc].run(&self.store, Which::CompTag(t), &[], fresh, limit, &mut |e, it| got.push((e.unwrap(), it.parts())));
        let known = |e: &Entity| self.by_handle.contains_key(&(e.id(), e.version()));
        let want: Vec<_> = all.iter().filter(|(e, _)| known(e) && has_tag(&self.store, *e, t)).cloned().collect();
        if want.len() > 0 && want.len() < all.len() {
            sh.feat("tag filter with and without the tag");
        }
        if !self.ents.iter().any(|e| e.tags >> t & 1 == 1) {
            sh.feat("filter by a tag nobody has");
        }
        if sh.trace.is_some() {
            let mut v: Vec<u64> = got.iter().map(|(e, _)| (e.id() as u64) << 32 | e.version() as u64).collect();
            v.sort();
            v.into_iter().for_each(|x| sh.note(x));
            sh.note(u64::MAX - 1);
        }
        if sh.log.is_some() {
            let name = acc_name(&*sh.accs[acc]);
            sh.say(|| format!("query of {name} filtered by T{t}: {} of {} items", got.len(), all.len()));
        }
        if got != want {
            let n = |v: &[(Entity, Vec<(usize, usize, bool)>)]| v.iter().take(40).map(|(e, _)| hname(*e)).collect::<Vec<_>>().join(" ");
            bad!(
                "query of {} filtered by T{t} yields [{}] instead of [{}] (unfiltered [{}])",
                acc_name(&*sh.accs[acc]),
                n(&got),
                n(&want),
                n(&all)
            );
        }
        Ok(())
    }

    fn which(&self, b: u32) -> Which {
        match b % 7 {
            0 => Which::Comp,
            1 => Which::CompEnts,
            2 => Which::CompTag(self.tag_in_use(b / 7)),
            3 => Which::List,
            4 => Which::ListEnts,
            5 => Which::Ordered(self.group_in_use(b / 7)),
            _ => Which::OrderedEnts(self.group_in_use(b / 7)),
        }
    }

    pub fn protocol(&mut self, sh: &mut Shared, acc: usize, b: u32, c: u32) -> Res {
        let which = self.which(b);
        if let Which::Ordered(g) | Which::OrderedEnts(g) = which {
            self.group_ends(g)?;
        }
        let list = self.make_list(c, b);
        let limit = self.alive.len().max(list.len()) + 16;
        let steps = sh.accs[acc].protocol(&self.store, which, &list, limit);
        let total = steps.iter().filter(|s| s.item).count();
        let name = format!("{which:?} query of {}", acc_name(&*sh.accs[acc]));
        sh.say(|| format!("length protocol of {name}: {total} items"));
        if total > 1 && steps[0].len.is_some() {
            sh.feat("lengths checked over several items");
        }
        if total > 1 {
            sh.feat("size hints checked over several items");
        }
        let mut left = total;
        let mut ended = false;
        for (k, s) in steps.iter().enumerate() {
            if s.len.is_some_and(|l| l != left) {
                bad!("{name}: len() before item {k} is {} but {left} items follow", s.len.unwrap());
            }
            if s.len.is_some() && s.hint != (left, Some(left)) {
                bad!("{name}: size_hint() before item {k} is {:?} but {left} items follow", s.hint);
            }
            if s.hint.0 > left || s.hint.1.is_some_and(|u| u < left) {
                bad!("{name}: size_hint() before item {k} is {:?} but {left} items follow", s.hint);
            }
            if ended && s.item {
                bad!("{name}: yields an item again after its end");
            }
            ended |= !s.item;
            left -= s.item as usize;
        }
        if !ended {
            bad!("{name}: does not end after {limit} items");
        }
        Ok(())
    }

    /// However an iterator is driven, it goes through the same items.
    fn walks(&mut self, sh: &mut Shared, a: u32, b: u32, c: u32) -> Res {
        // an access that somebody's components match
        let mask = self.pick(a).map_or(0, |i| self.ents[i].mask);
        let fit: Vec<usize> = (0..sh.walkers.len()).filter(|w| need(&*sh.walkers[*w]) & !mask == 0).collect();
        let w = if fit.is_empty() { c as usize % sh.walkers.len() } else { fit[c as usize % fit.len()] };
        let which = self.which(b);
        if let Which::Ordered(g) | Which::OrderedEnts(g) = which {
            self.group_ends(g)?;
        }
        let list = self.make_list(c, b);
        let limit = self.alive.len().max(list.len()) + 16;
        let name = format!("{which:?} query of {}", acc_name(&*sh.walkers[w]));
        let all = sh.walkers[w].walk(&self.store, which, &list, 0, 0, limit);
        if all.len() >= limit {
            bad!("{name}: does not end after {limit} items");
        }
        if all.len() > 2 {
            sh.feat("driven in several ways over several items");
        }
        for j in 0..3 {
            let kind = 1 + (c as usize + j) % (WALKS - 1);
            let k = h(&[b as u64, c as u64, j as u64]) as usize % (all.len() + 2).min(9 + j * 40);
            let got = sh.walkers[w].walk(&self.store, which, &list, kind, k, limit);
            if got != walk_list(&all, kind, k) {
                let how = ["", "nth", "for_each", "last", "count", "find and collect"][kind];
                bad!("{name}: driven by {how} (k = {k}) it yields {} items, other than the {} of next()", got.len(), all.len());
            }
        }
        sh.say(|| format!("{name} driven in several ways: {} items", all.len()));
        Ok(())
    }

    pub fn adapters(&mut self, sh: &mut Shared, acc: usize, b: u32, c: u32) -> Res {
        let g = self.group_in_use(b / 2);
        let which = if b % 2 == 0 { Which::Comp } else { Which::Ordered(g) };
        self.group_ends(g)?;
        let kind = c as usize % ADAPTERS;
        let k = (c as usize / ADAPTERS) % (self.alive.len() + 3);
        for (len, n) in sh.accs[acc].adapters(&self.store, which, kind, k, self.alive.len() + 8) {
            if n > 1 {
                sh.feat("adapter over several items");
            }
            if len != n {
                bad!("{which:?} query of {} behind adapter {kind} (k = {k}): len() is {len} but {n} items follow", acc_name(&*sh.accs[acc]));
            }
        }
        sh.say(|| format!("adapter {kind} on {which:?} query, k = {k}"));
        Ok(())
    }

    // ------------------------------------------------------------------ stale handles, misuse

    fn stale(&mut self, sh: &mut Shared, a: u32, b: u32, c: u32) -> Res {
        let Some(d) = self.pick_dead(a) else { return Ok(()) };
        let e = self.ents[d].h;
        let owner = self.alive.iter().copied().find(|i| self.ents[*i].h.id() == e.id());
        if owner.is_some() {
            sh.feat("stale call after its id was reused");
        }
        sh.feat("stale call");
        let g = c as usize % NG;
        let t = sh.tuple(c);
        let mut anchor_stale = false;
        let st = &mut self.store;
        let what;
        match b % 9 {
            0 => {
                what = format!("add {} through the stale {}", set_name(sh.tuples[t].mask()), hname(e));
                sh.tuples[t].add(st, e, &|c| c as u32);
            }
            1 => {
                // what the present owner of the id has, if there is one
                let t = match owner {
                    Some(i) => self.tuple_for_removal(sh, i, 1 + c * 2),
                    None => t,
                };
                what = format!("remove {} through the stale {}", set_name(sh.tuples[t].mask()), hname(e));
                sh.tuples[t].remove(&mut self.store, e);
            }
            2 => {
                what = format!("set tag T{} through the stale {}", c as usize % NT, hname(e));
                add_tag(st, e, c as usize % NT);
            }
            3 => {
                what = format!("remove tag T{} through the stale {}", c as usize % NT, hname(e));
                remove_tag(st, e, c as usize % NT);
            }
            4 => {
                what = format!("append the stale {} to group T{g}", hname(e));
                ord_add(st, e, g);
            }
            5 | 6 => {
                let Some(m) = self.pick_member(g, c / 4) else { return Ok(()) };
                let x = self.ents[m].h;
                what = format!("insert the stale {} next to {} in group T{g}", hname(e), hname(x));
                if b % 9 == 5 {
                    ord_next(&mut self.store, e, x, g);
                } else {
                    ord_prev(&mut self.store, e, x, g);
                }
            }
            7 => {
                what = format!("remove the stale {} from group T{g}", hname(e));
                ord_remove(st, e, g);
            }
            _ => {
                // a live entity next to a stale one: may be refused, may not have an effect
                let Some(i) = self.pick(c / 4) else { return Ok(()) };
                if self.groups[g].contains(&i) {
                    return Ok(());
                }
                let x = self.ents[i].h;
                what = format!("insert {} next to the stale {} in group T{g}", hname(x), hname(e));
                anchor_stale = true;
                let st = &mut self.store;
                let _ = quiet(|| if b / 9 % 2 == 0 { ord_next(st, x, e, g) } else { ord_prev(st, x, e, g) });
            }
        }
        let _ = anchor_stale;
        sh.say(|| what.clone());
        self.everything(sh).map_err(|m| format!("after the call \"{what}\": {m}"))
    }

    fn everything(&mut self, sh: &mut Shared) -> Res {
        let o = sh.oracles;
        sh.oracles = O_ALL;
        let r = self.full(sh);
        sh.oracles = o;
        r
    }

    fn misuse(&mut self, sh: &mut Shared, a: u32, b: u32, c: u32) -> Res {
        let g = c as usize % NG;
        let what;
        let panicked;
        match b % 8 {
            // destroying what is not alive
            0 | 1 => {
                let Some(d) = self.pick_dead(a) else { return Ok(()) };
                let e = self.ents[d].h;
                what = format!("destroy the destroyed {}", hname(e));
                let st = &mut self.store;
                panicked = quiet(|| st.destroy_entity(e)).is_err();
            }
            2 => {
                // a handle that cannot be from this store: the id is beyond its capacity
                let e = if c % 2 == 0 {
                    Entity::null()
                } else {
                    let n = self.store.entities_capacity() + c as usize % 70;
                    foreign(n)
                };
                what = format!("destroy the foreign {}", hname(e));
                let st = &mut self.store;
                panicked = quiet(|| st.destroy_entity(e)).is_err();
            }
            3 if c % 2 == 0 && !self.ents.is_empty() => {
                // a handle from another store, of a later lifetime of an id used here
                let id = self.ents[a as usize % self.ents.len()].h.id();
                let last = self.ents.iter().filter(|e| e.h.id() == id).map(|e| e.h.version()).max().unwrap();
                let e = foreign_reused(id as usize, last + 1 + c / 2 % 3);
                if e.version() <= last {
                    return Ok(());
                }
                what = format!("destroy the foreign {}", hname(e));
                let st = &mut self.store;
                panicked = quiet(|| st.destroy_entity(e)).is_err();
            }
            3 => {
                // a handle from another store whose id was never used here
                if !self.others.is_empty() {
                    return Ok(());
                }
                let used = self.ents.iter().map(|e| e.h.id() as usize + 1).max().unwrap_or(0);
                let cap = self.store.entities_capacity();
                if used >= cap {
                    return Ok(());
                }
                let e = foreign(used + c as usize % (cap - used));
                what = format!("destroy the foreign {}", hname(e));
                let st = &mut self.store;
                panicked = quiet(|| st.destroy_entity(e)).is_err();
            }
            4 | 5 => {
                // adding a member again
                let Some(i) = self.pick_member(g, a) else { return Ok(()) };
                let e = self.ents[i].h;
                let others: Vec<usize> = self.groups[g].iter().copied().filter(|j| *j != i).collect();
                let st = &mut self.store;
                if others.is_empty() || c / 4 % 3 == 0 {
                    what = format!("append {} to group T{g} again ({} members)", hname(e), others.len() + 1);
                    panicked = quiet(|| ord_add(st, e, g)).is_err();
                } else {
                    let x = self.ents[others[c as usize / 12 % others.len()]].h;
                    what = format!("insert {} again next to {} in group T{g}", hname(e), hname(x));
                    panicked = quiet(|| if c / 4 % 3 == 1 { ord_next(st, e, x, g) } else { ord_prev(st, e, x, g) }).is_err();
                }
            }
            _ => {
                // next to a live entity that is not in the group (possibly itself)
                let free: Vec<usize> = self.alive.iter().copied().filter(|i| !self.groups[g].contains(i)).collect();
                if free.is_empty() {
                    return Ok(());
                }
                let i = free[a as usize % free.len()];
                let j = if c / 8 % 4 == 0 { i } else { free[c as usize / 32 % free.len()] };
                let (e, x) = (self.ents[i].h, self.ents[j].h);
                what = format!("insert {} next to {} that is not in group T{g}", hname(e), hname(x));
                let st = &mut self.store;
                panicked = quiet(|| if c / 4 % 2 == 0 { ord_next(st, e, x, g) } else { ord_prev(st, e, x, g) }).is_err();
            }
        }
        sh.feat("misuse");
        sh.say(|| format!("misuse: {what}"));
        if !panicked {
            bad!("\"{what}\" is not rejected");
        }
        self.everything(sh).map_err(|m| format!("after the rejected call \"{what}\": {m}"))
    }
}

/// A handle with this id, from a store made for it.
pub fn foreign(id: usize) -> Entity {
    let _t = Tracked::off();
    let mut s = Store::with_capacity(id + 1);
    let mut e = s.create_entity();
    for _ in 0..id {
        e = s.create_entity();
    }
    e
}

/// A handle with this id from a store that issued it this many times.
pub fn foreign_reused(id: usize, times: u32) -> Entity {
    let _t = Tracked::off();
    let mut s = Store::with_capacity(id + 1);
    let mut all: Vec<Entity> = (0..=id).map(|_| s.create_entity()).collect();
    for _ in 1..times.min(400) {
        let e = all.pop().unwrap();
        s.destroy_entity(e);
        all.push(s.create_entity());
    }
    *all.last().unwrap()
}

/// Runs something that may panic, without a report of the panic.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    crate::EXPECT_PANIC.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    crate::EXPECT_PANIC.with(|x| x.set(false));
    r
}

pub fn need(acc: &dyn AccObj) -> u32 {
    acc.read().iter().chain(acc.write()).fold(0, |m, c| m | 1 << c)
}

pub fn acc_name(acc: &dyn AccObj) -> String {
    let n = |v: &[usize]| v.iter().map(|c| format!("C{c}")).collect::<Vec<_>>().join(",");
    match (acc.read().is_empty(), acc.write().is_empty()) {
        (false, true) => format!("read({})", n(acc.read())),
        (true, false) => format!("write({})", n(acc.write())),
        _ => format!("read({}) write({})", n(acc.read()), n(acc.write())),
    }
}

/// The archetype of a component set, put together in one of several ways.
pub fn archetype_of(sh: &mut Shared, mask: u32, how: u32) -> &Archetype {
    let how = how % 4;
    if !sh.archetypes.contains_key(&(mask, how)) {
        let _t = Tracked::off();
        let whole = (0..sh.tuples.len()).find(|t| sh.tuples[*t].mask() == mask);
        let a = match (how, whole) {
            (0 | 1, Some(t)) => sh.tuples[t].archetype(),
            _ => {
                let mut b = ArchetypeBuilder::new();
                let mut cs: Vec<usize> = (0..NC).filter(|c| mask >> c & 1 == 1).collect();
                cs.sort_by_key(|c| h(&[how as u64, *c as u64]));
                for c in cs {
                    sh.tuples[c].include(&mut b);
                }
                b.build()
            }
        };
        sh.archetypes.insert((mask, how), a);
    }
    &sh.archetypes[&(mask, how)]
}

impl World {
    /// Forgets the handles issued so far; everything must be destroyed.
    pub fn forget(&mut self) {
        assert!(self.alive.is_empty());
        let _t = Tracked::off();
        self.ents.clear();
        self.by_handle.clear();
        self.steps = 0;
    }

    /// Reads all there is to read through every path, ignoring what it is.
    pub fn read_all(&mut self, sh: &mut Shared) -> Res {
        for n in 0..self.alive.len() {
            let i = self.alive[n];
            let _ = self.values_of(sh, i);
            if n < 30 {
                let _ = self.set_of(sh, i);
            }
        }
        let _ = self.check_groups(sh);
        let _ = self.check_tags(sh);
        let _ = self.check_stale(sh);
        let l = self.make_list(0, 0);
        for acc in 0..sh.accs.len() {
            if (acc + self.steps) % if cfg!(miri) { 25 } else { 5 } == 0 {
                let _ = self.q_comp(sh, acc, true, false);
                let _ = self.q_list(sh, acc, &l, true, false);
                let _ = self.q_ord(sh, acc, acc % NG, true, false);
            }
        }
        Ok(())
    }
}
