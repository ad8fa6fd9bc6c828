//! Resource store machine (C13, C14).
use crate::alloc::{self, Tracked};
use crate::case::Case;
use crate::comps::mix;
use crate::world::{hname, quiet, Res};
use division_ecs::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};

thread_local! {
    /// token -> number of drops
    static DROPS: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
    static ZST_DROPS: Cell<u32> = Cell::new(0);
}

/// Something that notices being dropped.
pub struct Token(u32);
impl Drop for Token {
    fn drop(&mut self) {
        let _t = Tracked::off();
        DROPS.with(|d| *d.borrow_mut().entry(self.0).or_insert(0) += 1)
    }
}
fn drops(token: u32) -> u32 {
    DROPS.with(|d| d.borrow().get(&token).copied().unwrap_or(0))
}

pub trait R: 'static {
    const NAME: &'static str;
    const COUNTED: bool;
    fn make(seed: u32) -> Self;
    fn is(&self, seed: u32) -> bool;
}
impl R for u8 {
    const NAME: &'static str = "u8";
    const COUNTED: bool = false;
    fn make(seed: u32) -> Self {
        seed as u8
    }
    fn is(&self, seed: u32) -> bool {
        *self == seed as u8
    }
}
impl R for String {
    const NAME: &'static str = "String";
    const COUNTED: bool = false;
    fn make(seed: u32) -> Self {
        format!("resource {seed}")
    }
    fn is(&self, seed: u32) -> bool {
        *self == format!("resource {seed}")
    }
}
impl R for () {
    const NAME: &'static str = "()";
    const COUNTED: bool = false;
    fn make(_: u32) -> Self {}
    fn is(&self, _: u32) -> bool {
        true
    }
}
#[repr(align(64))]
pub struct Wide([u8; 65]);
impl R for Wide {
    const NAME: &'static str = "Wide (128 bytes, alignment 64)";
    const COUNTED: bool = false;
    fn make(seed: u32) -> Self {
        let x = mix(seed as u64);
        Wide(std::array::from_fn(|i| (x >> (i % 8)) as u8))
    }
    fn is(&self, seed: u32) -> bool {
        self as *const Self as usize % 64 == 0 && self.0 == Self::make(seed).0
    }
}
impl R for Token {
    const NAME: &'static str = "Token";
    const COUNTED: bool = true;
    fn make(seed: u32) -> Self {
        Token(seed)
    }
    fn is(&self, seed: u32) -> bool {
        self.0 == seed
    }
}
impl R for (u8, Box<Token>, Vec<u16>) {
    const NAME: &'static str = "(u8, Box<Token>, Vec<u16>)";
    const COUNTED: bool = true;
    fn make(seed: u32) -> Self {
        (seed as u8, Box::new(Token(seed)), vec![seed as u16; seed as usize % 5])
    }
    fn is(&self, seed: u32) -> bool {
        self.0 == seed as u8 && self.1 .0 == seed && self.2 == vec![seed as u16; seed as usize % 5]
    }
}
#[repr(align(32))]
pub struct WideToken(Token, [u64; 9]);
impl R for WideToken {
    const NAME: &'static str = "WideToken (alignment 32)";
    const COUNTED: bool = true;
    fn make(seed: u32) -> Self {
        WideToken(Token(seed), [mix(seed as u64); 9])
    }
    fn is(&self, seed: u32) -> bool {
        self as *const Self as usize % 32 == 0 && self.0 .0 == seed && self.1 == [mix(seed as u64); 9]
    }
}
/// Zero-sized and counted.
pub struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_DROPS.with(|d| d.set(d.get() + 1))
    }
}
impl R for Zst {
    const NAME: &'static str = "Zst (zero-sized, counted)";
    const COUNTED: bool = false;
    fn make(_: u32) -> Self {
        Zst
    }
    fn is(&self, _: u32) -> bool {
        true
    }
}

pub const TYPES: u32 = 8;

pub fn run(case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>, counting: bool) -> Res {
    match case.cfg[0] % TYPES {
        0 => go::<u8>(case, feats, log, counting),
        1 => go::<String>(case, feats, log, counting),
        2 => go::<Token>(case, feats, log, counting),
        3 => go::<()>(case, feats, log, counting),
        4 => go::<Wide>(case, feats, log, counting),
        5 => go::<(u8, Box<Token>, Vec<u16>)>(case, feats, log, counting),
        6 => go::<WideToken>(case, feats, log, counting),
        _ => go::<Zst>(case, feats, log, counting),
    }
}

struct Held {
    h: Entity,
    seed: u32,
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn go<T: R>(case: &Case, feats: &mut BTreeMap<&'static str, u64>, log: &mut Vec<String>, counting: bool) -> Res {
    let mut feat = |f: &'static str| *feats.entry(f).or_insert(0) += 1;
    DROPS.with(|d| d.borrow_mut().clear());
    ZST_DROPS.with(|d| d.set(0));
    let cap = case.cfg[1] as usize;
    let on = || Tracked::on_if();
    let mut s: ResourceStore<T> = {
        let _t = on();
        match cap {
            0 => ResourceStore::new(),
            1 => ResourceStore::with_capacity(0),
            n => ResourceStore::with_capacity(n - 1),
        }
    };
    log.push(format!("resource store of {}, {}", T::NAME, if cap == 0 { "new()".into() } else { format!("with_capacity({})", cap - 1) }));
    feat(match cap {
        0 => "new()",
        1 => "with_capacity(0)",
        _ => "with_capacity(n)",
    });
    let mut held: Vec<Held> = vec![];
    let mut issued: HashMap<(u32, u32), ()> = HashMap::new();
    let mut released: Vec<Entity> = vec![];
    let mut outside: Vec<(T, u32)> = vec![];
    // tokens whose value was overwritten or dropped outside the store
    let mut gone: Vec<u32> = vec![];
    let mut seed = 1u32;
    let mut zst_gone = 0u32;
    let mut made = 0u32;
    let mut slots = 0u32;
    for op in &case.ops {
        match op.k {
            0 | 5 => {
                let n = if op.k == 0 { 1 } else { 1 + op.a % 40 };
                for _ in 0..n {
                    seed += 1;
                    let v = T::make(seed);
                    made += 1;
                    let e = {
                        let _t = on();
                        s.create(v)
                    };
                    if issued.insert((e.id(), e.version()), ()).is_some() {
                        bad!("create returned the handle {} again", hname(e));
                    }
                    if let Some(x) = held.iter().find(|x| x.h.id() == e.id()) {
                        bad!("create returned {} while {} is held", hname(e), hname(x.h));
                    }
                    if e.version() > 1 {
                        feat("slot reused");
                    }
                    if e.id() >= slots {
                        slots = e.id() + 1;
                        if slots as usize > cap.saturating_sub(1) && (slots & (slots - 1)) == 1 && held.len() > 1 {
                            feat("grown while holding resources");
                        }
                    }
                    log.push(format!("create {seed} -> {}", hname(e)));
                    held.push(Held { h: e, seed });
                }
            }
            1 => {
                if held.is_empty() {
                    continue;
                }
                let i = pick(op.a, held.len());
                let x = held.remove(i);
                log.push(format!("release {}", hname(x.h)));
                let v = {
                    let _t = on();
                    s.release(x.h)
                };
                feat("released");
                if !v.is(x.seed) {
                    bad!("release of {} returns another resource than the one created or last stored", hname(x.h));
                }
                released.push(x.h);
                if op.b % 3 == 0 {
                    outside.push((v, x.seed));
                } else {
                    drop(v);
                    zst_gone += 1;
                    gone.push(x.seed);
                }
            }
            2 => {
                // overwrite or mutate in place
                if held.is_empty() {
                    continue;
                }
                let i = pick(op.a, held.len());
                seed += 1;
                made += 1;
                let v = T::make(seed);
                let x = &mut held[i];
                log.push(format!("store {seed} in {}", hname(x.h)));
                if op.b % 2 == 0 {
                    s[x.h] = v;
                    zst_gone += 1;
                } else {
                    let old = std::mem::replace(&mut s[x.h], v);
                    if !old.is(x.seed) {
                        bad!("what {} held is not what was stored", hname(x.h));
                    }
                    drop(old);
                    zst_gone += 1;
                }
                gone.push(x.seed);
                x.seed = seed;
                feat("overwritten");
            }
            3 => {
                // released handles must be refused where assertions are on
                if released.is_empty() || !cfg!(debug_assertions) {
                    continue;
                }
                let e = released[pick(op.a, released.len())];
                feat("released handle used");
                log.push(format!("misuse of the released {}", hname(e)));
                let ok = match op.b % 3 {
                    0 => quiet(|| s[e].is(0)).is_ok(),
                    1 => quiet(|| drop(&mut s[e])).is_ok(),
                    _ => quiet(|| {
                        let v = s.release(e);
                        std::mem::forget(v);
                    })
                    .is_ok(),
                };
                if ok {
                    bad!("using the released handle {} is not refused", hname(e));
                }
            }
            _ => {}
        }
        // everything held is there
        let step = 1 + held.len() / 50;
        for (i, x) in held.iter().enumerate() {
            if i % step != op.c as usize % step {
                continue;
            }
            if !s[x.h].is(x.seed) {
                bad!("{} does not hold the resource stored in it", hname(x.h));
            }
            if T::COUNTED && counting && drops(x.seed) != 0 {
                bad!("the resource {} is held by the store and was dropped", x.seed);
            }
        }
        if T::COUNTED && counting {
            for t in &gone {
                if drops(*t) != 1 {
                    bad!("the released or overwritten resource {t} was dropped {} times", drops(*t));
                }
            }
            for (_, t) in &outside {
                if drops(*t) != 0 {
                    bad!("the released resource {t} was dropped by the store");
                }
            }
        }
        if counting && T::NAME == Zst::NAME && ZST_DROPS.with(|d| d.get()) != zst_gone {
            bad!("{} zero-sized resources were dropped instead of {zst_gone}", ZST_DROPS.with(|d| d.get()));
        }
    }
    for x in &held {
        if !s[x.h].is(x.seed) {
            bad!("{} does not hold the resource stored in it", hname(x.h));
        }
    }
    if !held.is_empty() {
        feat("dropped while holding resources");
    }
    {
        let _t = on();
        drop(s);
    }
    log.push(format!("drop the store holding {}", held.len()));
    if !counting {
        return Ok(());
    }
    if T::COUNTED {
        for x in &held {
            if drops(x.seed) != 1 {
                bad!("the resource {} that the store held was dropped {} times", x.seed, drops(x.seed));
            }
        }
        for t in &gone {
            if drops(*t) != 1 {
                bad!("the released or overwritten resource {t} was dropped {} times", drops(*t));
            }
        }
        for (v, t) in &outside {
            if drops(*t) != 0 || !v.is(*t) {
                bad!("the released resource {t} was damaged or dropped with the store");
            }
        }
    }
    if T::NAME == Zst::NAME {
        let want = made - outside.len() as u32;
        let got = ZST_DROPS.with(|d| d.get());
        if got != want {
            bad!("{got} zero-sized resources were dropped instead of {want}");
        }
    }
    drop(outside);
    if alloc::live() != 0 {
        bad!("{} blocks ({} bytes) allocated by the resource store are not given back", alloc::live(), alloc::bytes());
    }
    if alloc::bad_frees() != 0 {
        bad!("memory was freed with another layout than it was allocated with");
    }
    Ok(())
}

fn pick(x: u32, n: usize) -> usize {
    match x % 8 {
        0 => n - 1,
        1 => 0,
        _ => x as usize / 8 % n,
    }
}
