//! C20: generated safe programs that hold on to what a store hands out, decided by the compiler.
//! A model of loans says at which lines a program must be refused, and where it must not be.
use crate::util::{js, Args};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::process::{exit, Command};
use std::time::Instant;

/// How an object is taken: certainly, and at most (what the statement leaves open lies between).
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
enum Mode {
    No,
    Shared,
    Excl,
}
use Mode::*;
type Touch = (&'static str, Mode, Mode);

struct Hold {
    name: &'static str,
    text: &'static str,
    /// while it is made
    access: &'static [Touch],
    /// as long as it is used
    loan: &'static [Touch],
}
struct Call {
    name: &'static str,
    text: &'static str,
    access: &'static [Touch],
}

// S (in texts: $) stands for one of two stores.
const READ: &[Touch] = &[("S", Shared, Shared)];
const CHANGE: &[Touch] = &[("S", Excl, Excl)];
const OWNED: &[Touch] = &[];

macro_rules! iters {
    // store access, per query: object, list
    ($($family:literal $q:literal $s:ident $make:literal [$($l:literal)?];)*) => {
        &[$(
            Hold { name: concat!($family, " iterator"), text: $make, access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?] },
            Hold { name: concat!($family, " iterator with entities"), text: concat!($make, ".with_entities()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?] },
            Hold { name: concat!($family, " items"), text: concat!($make, ".collect::<Vec<_>>()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, No, Excl), $(($l, No, Shared))?] },
            Hold { name: concat!($family, " item"), text: concat!($make, ".next()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, No, Excl), $(($l, No, Shared))?] },
            Hold { name: concat!($family, " items with entities"), text: concat!($make, ".with_entities().collect::<Vec<_>>()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, No, Excl), $(($l, No, Shared))?] },
            Hold { name: concat!($family, " item with entity"), text: concat!($make, ".with_entities().next()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: &[("S", Shared, $s), ($q, No, Excl), $(($l, No, Shared))?] },
            Hold { name: concat!($family, " handles"), text: concat!($make, ".with_entities().map(|x| x.0).collect::<Vec<Entity>>()"), access: &[("S", Shared, $s), ($q, Excl, Excl), $(($l, Shared, Shared))?], loan: OWNED },
        )*]
    };
}
// A write query may one day take the store exclusively: what it does to it is left open.
const ITERS: &[Hold] = iters! {
    "component read" "cr" Shared "$.component_query_iter(&mut cr)" [];
    "component write" "cw" Excl "$.component_query_iter(&mut cw)" [];
    "component read-write" "cx" Excl "$.component_query_iter(&mut cx)" [];
    "list read" "er" Shared "$.entity_component_query_iter(&l, &mut er)" ["l"];
    "list write" "ew" Excl "$.entity_component_query_iter(&l, &mut ew)" ["l"];
    "list read-write" "ex" Excl "$.entity_component_query_iter(&l, &mut ex)" ["l"];
    "ordered read" "qr" Shared "$.ordered_query_iter(&mut qr)" [];
    "ordered write" "qw" Excl "$.ordered_query_iter(&mut qw)" [];
    "ordered read-write" "qx" Excl "$.ordered_query_iter(&mut qx)" [];
};
const HOLDS: &[Hold] = &[
    Hold { name: "filtered read iterator", text: "$.component_query_iter(&mut cr).with_entities().filter_tag::<T>()", access: &[("S", Shared, Shared), ("cr", Excl, Excl)], loan: &[("S", Shared, Shared), ("cr", Excl, Excl)] },
    Hold { name: "filtered write iterator", text: "$.component_query_iter(&mut cw).with_entities().filter_tag::<T>()", access: &[("S", Shared, Excl), ("cw", Excl, Excl)], loan: &[("S", Shared, Excl), ("cw", Excl, Excl)] },
    Hold { name: "filtered read item", text: "$.component_query_iter(&mut cr).with_entities().filter_tag::<T>().next()", access: &[("S", Shared, Shared), ("cr", Excl, Excl)], loan: &[("S", Shared, Shared), ("cr", No, Excl)] },
    Hold { name: "filtered write items", text: "$.component_query_iter(&mut cw).with_entities().filter_tag::<T>().collect::<Vec<_>>()", access: &[("S", Shared, Excl), ("cw", Excl, Excl)], loan: &[("S", Shared, Excl), ("cw", No, Excl)] },
    Hold { name: "component reference", text: "$.get_components_refs::<A>(e)", access: READ, loan: READ },
    Hold { name: "component references", text: "$.get_components_refs::<(A, B)>(e)", access: READ, loan: READ },
    Hold { name: "unwrapped component references", text: "$.get_components_refs::<(B, C, A)>(e).unwrap()", access: READ, loan: READ },
    Hold { name: "field reference", text: "&$.get_components_refs::<B>(e).unwrap().y", access: READ, loan: READ },
    Hold { name: "mutable component reference", text: "$.get_components_refs_mut::<B>(e)", access: CHANGE, loan: CHANGE },
    Hold { name: "mutable component references", text: "$.get_components_refs_mut::<(B, A)>(e)", access: CHANGE, loan: CHANGE },
    Hold { name: "mutable field reference", text: "&mut $.get_components_refs_mut::<B>(e).unwrap().y", access: CHANGE, loan: CHANGE },
    Hold { name: "shared reference from a mutable one", text: "&*$.get_components_refs_mut::<C>(e).unwrap()", access: CHANGE, loan: CHANGE },
    Hold { name: "archetype reference", text: "$.get_entity_archetype(e)", access: READ, loan: READ },
    Hold { name: "archetype components", text: "$.get_entity_archetype(e).unwrap().components_iter()", access: READ, loan: READ },
    Hold { name: "archetype ids", text: "$.get_entity_archetype(e).unwrap().included_ids()", access: READ, loan: READ },
    Hold { name: "archetype reference of another", text: "$.get_entity_archetype(f).filter(|a| a.has_component::<A>())", access: READ, loan: READ },
    Hold { name: "component copy", text: "$.get_components_refs::<(A, B)>(e).map(|r| r.cloned())", access: READ, loan: OWNED },
    Hold { name: "field copy", text: "$.get_components_refs_mut::<B>(e).map(|b| b.y)", access: CHANGE, loan: OWNED },
    Hold { name: "archetype copy", text: "$.get_entity_archetype(e).cloned()", access: READ, loan: OWNED },
    Hold { name: "component types", text: "$.get_entity_archetype(e).unwrap().components_iter().collect::<Vec<ComponentType>>()", access: READ, loan: OWNED },
    Hold { name: "new entity", text: "$.create_entity()", access: CHANGE, loan: OWNED },
    Hold { name: "new entity of an archetype", text: "$.create_entity_with_archetype(&a)", access: &[("S", Excl, Excl), ("a", Shared, Shared)], loan: OWNED },
    Hold { name: "first in order", text: "$.get_first_entity_ordered_by::<T>()", access: READ, loan: OWNED },
    Hold { name: "next in order", text: "$.get_next_entity_ordered_by::<T>(e)", access: READ, loan: OWNED },
    Hold { name: "number of items", text: "$.component_query_iter(&mut cr).len()", access: &[("S", Shared, Shared), ("cr", Excl, Excl)], loan: OWNED },
    Hold { name: "own archetype's components", text: "a.components_iter()", access: &[("a", Shared, Shared)], loan: &[("a", Shared, Shared)] },
    Hold { name: "own archetype's ids", text: "a.included_ids()", access: &[("a", Shared, Shared)], loan: &[("a", Shared, Shared)] },
    Hold { name: "own archetype's copy", text: "a.clone()", access: &[("a", Shared, Shared)], loan: OWNED },
    Hold { name: "builder", text: "b.include_components::<(A, C)>()", access: &[("b", Excl, Excl)], loan: &[("b", Excl, Excl)] },
    Hold { name: "builder given an archetype", text: "b.include_archetype(&a)", access: &[("b", Excl, Excl), ("a", Shared, Shared)], loan: &[("b", Excl, Excl)] },
    Hold { name: "built archetype", text: "b.exclude_components::<B>().build()", access: &[("b", Excl, Excl)], loan: OWNED },
    Hold { name: "resource reference", text: "&r[h]", access: &[("r", Shared, Shared)], loan: &[("r", Shared, Shared)] },
    Hold { name: "part of a resource", text: "r[h].as_str()", access: &[("r", Shared, Shared)], loan: &[("r", Shared, Shared)] },
    Hold { name: "mutable resource reference", text: "&mut r[h]", access: &[("r", Excl, Excl)], loan: &[("r", Excl, Excl)] },
    Hold { name: "part of a mutable resource", text: "r[h].as_mut_str()", access: &[("r", Excl, Excl)], loan: &[("r", Excl, Excl)] },
    Hold { name: "resource copy", text: "r[h].clone()", access: &[("r", Shared, Shared)], loan: OWNED },
    Hold { name: "released resource", text: "r.release(h)", access: &[("r", Excl, Excl)], loan: OWNED },
    Hold { name: "resource handle", text: "r.create(String::new())", access: &[("r", Excl, Excl)], loan: OWNED },
];
const BOTH: &[Touch] = &[("s", Excl, Excl), ("s2", Excl, Excl)];
const CALLS: &[Call] = &[
    Call { name: "create_entity", text: "$.create_entity();", access: CHANGE },
    Call { name: "create_entity_with_archetype", text: "$.create_entity_with_archetype(&a);", access: &[("S", Excl, Excl), ("a", Shared, Shared)] },
    Call { name: "destroy_entity", text: "$.destroy_entity(f);", access: CHANGE },
    Call { name: "add_components", text: "$.add_components(e, A(1));", access: CHANGE },
    Call { name: "add_components of several", text: "$.add_components(f, (B { x: 1, y: 2 }, C([0; 3])));", access: CHANGE },
    Call { name: "remove_components", text: "$.remove_components::<B>(f);", access: CHANGE },
    Call { name: "remove_components of several", text: "$.remove_components::<(A, C)>(e);", access: CHANGE },
    Call { name: "add_tag", text: "$.add_tag::<T>(e);", access: CHANGE },
    Call { name: "remove_tag", text: "$.remove_tag::<T>(e);", access: CHANGE },
    Call { name: "add_entity_order_by", text: "$.add_entity_order_by::<T>(e);", access: CHANGE },
    Call { name: "add_entity_next_to_order_by", text: "$.add_entity_next_to_order_by::<T>(e, f);", access: CHANGE },
    Call { name: "add_entity_previous_to_order_by", text: "$.add_entity_previous_to_order_by::<T>(e, f);", access: CHANGE },
    Call { name: "remove_entity_order_by", text: "$.remove_entity_order_by::<T>(e);", access: CHANGE },
    Call { name: "drop of the store", text: "drop($); $ = Store::new();", access: CHANGE },
    Call { name: "replacing the store", text: "$ = Store::with_capacity(9);", access: CHANGE },
    Call { name: "taking the store out", text: "drop(std::mem::replace(&mut $, Store::new()));", access: CHANGE },
    Call { name: "swapping stores", text: "std::mem::swap(&mut s, &mut s2);", access: BOTH },
    Call { name: "writing a component", text: "*$.get_components_refs_mut::<A>(e).unwrap() = A(4);", access: CHANGE },
    Call { name: "is_alive", text: "$.is_alive(e);", access: READ },
    Call { name: "has_tag", text: "$.has_tag::<T>(e);", access: READ },
    Call { name: "is_valid_entity_with_archetype", text: "$.is_valid_entity_with_archetype(e);", access: READ },
    Call { name: "entities_capacity", text: "$.entities_capacity();", access: READ },
    Call { name: "reading a component", text: "let _ = $.get_components_refs::<A>(f).map(|a| a.0);", access: READ },
    Call { name: "reading an archetype", text: "let _ = $.get_entity_archetype(f).map(|a| a.component_count());", access: READ },
    Call { name: "reading an order", text: "($.get_first_entity_ordered_by::<T>(), $.get_last_entity_ordered_by::<T>(), $.get_previous_entity_ordered_by::<T>(e));", access: READ },
    Call { name: "a query with an object of its own", text: "$.component_query_iter(&mut ComponentReadOnlyQuery::<(A, C)>::new()).count();", access: READ },
    Call { name: "a list query with an object of its own", text: "$.entity_component_query_iter(&l, &mut EntityComponentReadOnlyQuery::<(A, C)>::new()).count();", access: &[("S", Shared, Shared), ("l", Shared, Shared)] },
    Call { name: "dropping an ordered read query", text: "drop(qr); qr = ReadonlyOrderedComponentQuery::new();", access: &[("qr", Excl, Excl)] },
    Call { name: "dropping an ordered write query", text: "drop(qw); qw = WriteOrderedComponentQuery::new();", access: &[("qw", Excl, Excl)] },
    Call { name: "replacing an ordered read-write query", text: "qx = ReadWriteOrderedComponentQuery::new();", access: &[("qx", Excl, Excl)] },
    Call { name: "replacing a component read query", text: "cr = ComponentReadOnlyQuery::new();", access: &[("cr", Excl, Excl)] },
    Call { name: "dropping a component write query", text: "drop(cw); cw = ComponentWriteQuery::new();", access: &[("cw", Excl, Excl)] },
    Call { name: "dropping a component read-write query", text: "drop(cx); cx = ComponentReadWriteQuery::new();", access: &[("cx", Excl, Excl)] },
    Call { name: "dropping a list read query", text: "drop(er); er = EntityComponentReadOnlyQuery::new();", access: &[("er", Excl, Excl)] },
    Call { name: "replacing a list write query", text: "ew = EntityComponentWriteQuery::new();", access: &[("ew", Excl, Excl)] },
    Call { name: "dropping a list read-write query", text: "drop(ex); ex = EntityComponentReadWriteQuery::new();", access: &[("ex", Excl, Excl)] },
    Call { name: "changing the list", text: "l.push(e);", access: &[("l", Excl, Excl)] },
    Call { name: "dropping the list", text: "drop(l); l = vec![e];", access: &[("l", Excl, Excl)] },
    Call { name: "reading the list", text: "l.len();", access: &[("l", Shared, Shared)] },
    Call { name: "dropping the archetype", text: "drop(a); a = Archetype::with_components::<A>();", access: &[("a", Excl, Excl)] },
    Call { name: "reading the archetype", text: "a.is_include(&a);", access: &[("a", Shared, Shared)] },
    Call { name: "changing the builder", text: "b.exclude_component_types(&[ComponentType::of::<A>()]);", access: &[("b", Excl, Excl)] },
    Call { name: "create of a resource", text: "r.create(String::from(\"x\"));", access: &[("r", Excl, Excl)] },
    Call { name: "release of a resource", text: "r.release(h);", access: &[("r", Excl, Excl)] },
    Call { name: "changing a resource", text: "r[h].push('x');", access: &[("r", Excl, Excl)] },
    Call { name: "reading a resource", text: "let _ = r[h].len();", access: &[("r", Shared, Shared)] },
    Call { name: "dropping the resource store", text: "drop(r); r = ResourceStore::new();", access: &[("r", Excl, Excl)] },
    Call { name: "replacing the resource store", text: "r = ResourceStore::with_capacity(2);", access: &[("r", Excl, Excl)] },
];

const HEAD: &str = r#"#![allow(warnings)]
use division_ecs::*;
use std::mem::ManuallyDrop;
#[derive(Clone, Copy, Component)] pub struct A(pub u32);
#[derive(Clone, Copy, Component)] pub struct B { pub x: u8, pub y: u64 }
#[derive(Clone, Copy, Component)] pub struct C(pub [u16; 3]);
#[derive(Clone, Copy, Tag)] pub struct T;
fn touch<X>(x: &mut X) {}
"#;
const LOCALS: &str = "let (mut s, mut s2) = (Store::new(), Store::new()); let (mut a, mut b, mut r, mut l) = (Archetype::with_components::<(A, B, C)>(), ArchetypeBuilder::new(), ResourceStore::<String>::new(), vec![e, f]); \
let (mut cr, mut cw, mut cx) = (ComponentReadOnlyQuery::<A>::new(), ComponentWriteQuery::<(B, C)>::new(), ComponentReadWriteQuery::<A, B>::new()); \
let (mut er, mut ew, mut ex) = (EntityComponentReadOnlyQuery::<(C, A)>::new(), EntityComponentWriteQuery::<A>::new(), EntityComponentReadWriteQuery::<(A, B), C>::new()); \
let (mut qr, mut qw, mut qx) = (ReadonlyOrderedComponentQuery::<T, B>::new(), WriteOrderedComponentQuery::<T, (A, B)>::new(), ReadWriteOrderedComponentQuery::<T, C, A>::new());";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// what, of the second store?, of a store that ends at once?
    Hold(usize, bool, bool),
    /// of the holds so far
    Use(usize),
    Call(usize, bool),
}
type Program = Vec<Op>;

fn hold(k: usize) -> &'static Hold {
    if k < HOLDS.len() {
        &HOLDS[k]
    } else {
        &ITERS[k - HOLDS.len()]
    }
}

fn strategy() -> impl Strategy<Value = Program> {
    let other = || prop::bool::weighted(0.15);
    let op = prop_oneof![
        4 => (0..HOLDS.len() + ITERS.len(), other(), prop::bool::weighted(0.05)).prop_map(|(k, o, x)| Op::Hold(k, o, x)),
        5 => (0..4usize).prop_map(Op::Use),
        4 => (0..CALLS.len(), other()).prop_map(|(k, o)| Op::Call(k, o)),
    ];
    // something held, something that takes the same object, and a use
    let about = (0..HOLDS.len() + ITERS.len(), any::<prop::sample::Index>(), other(), prop::bool::weighted(0.6)).prop_map(|(k, i, o, used)| {
        let h = hold(k);
        let on: Vec<usize> = (0..CALLS.len()).filter(|c| CALLS[*c].access.iter().any(|x| h.access.iter().any(|y| x.0 == y.0))).collect();
        let mut v = vec![Op::Hold(k, o, false), Op::Call(on[i.index(on.len())], o)];
        if used {
            v.push(Op::Use(0));
        }
        v
    });
    let part = prop_oneof![3 => op.prop_map(|o| vec![o]), 2 => about];
    prop::collection::vec(part, 1..=12).prop_map(|v| v.concat())
}

struct Line {
    text: String,
    /// must the compiler refuse it; may it
    sure: bool,
    maybe: bool,
}
struct Cross {
    hold: &'static str,
    by: &'static str,
    refused: bool,
}

fn object(o: &'static str, second: bool) -> &'static str {
    match (o, second) {
        ("S", false) => "s",
        ("S", true) => "s2",
        _ => o,
    }
}
fn clash(a: Mode, b: Mode) -> bool {
    a != No && b != No && (a == Excl || b == Excl)
}

/// One line per operation, and every loan that was in use across something that takes its object.
fn render(p: &[Op], uses: bool, crossed: &mut Vec<Cross>) -> Vec<Line> {
    // the n-th use is of this hold, the most recent ones first
    let mut holds: Vec<(usize, usize)> = vec![]; // (line, kind)
    let mut last = BTreeMap::new(); // hold's line -> last line using it
    for (n, o) in p.iter().enumerate() {
        match o {
            Op::Hold(k, ..) => holds.push((n, *k)),
            Op::Use(u) if uses && !holds.is_empty() => {
                last.insert(holds[holds.len() - 1 - u % holds.len()].0, n);
            }
            _ => {}
        }
    }
    let mut seen = 0;
    let mut live: Vec<(&Hold, Vec<Touch>, usize)> = vec![]; // loans, until
    let mut told = BTreeSet::new();
    let mut out = vec![];
    for (n, o) in p.iter().enumerate() {
        let (mut sure, mut maybe) = (false, false);
        let mut now = BTreeSet::new();
        let mut check = |access: &[Touch], second: bool, by: &'static str, skip: bool| {
            for (o, s, m) in access {
                if skip && *o == "S" {
                    continue;
                }
                let o = object(o, second);
                for (h, loans, until) in &live {
                    if *until <= n {
                        continue;
                    }
                    for (lo, ls, lm) in loans {
                        if *lo == o && *lm != No {
                            let (mut a, b) = (clash(*ls, *s), clash(*lm, *m));
                            // after one method call on something lent exclusively, rustc does not
                            // report those on the same thing while it is lent for reading
                            if *lm == Excl && b {
                                now.insert(o);
                            }
                            if *ls == Shared && told.contains(o) {
                                a = false;
                            }
                            sure |= a;
                            maybe |= b;
                            if a || !b {
                                crossed.push(Cross { hold: h.name, by, refused: a });
                            }
                        }
                    }
                }
            }
        };
        let text = match o {
            Op::Hold(k, second, escapes) => {
                let h = hold(*k);
                let of_store = h.access.iter().any(|a| a.0 == "S");
                let escapes = *escapes && of_store && uses;
                check(h.access, *second, h.name, escapes);
                let name = format!("h{n}");
                let until = last.get(&n).copied().unwrap_or(0);
                let mut text = h.text.replace('$', object("S", *second));
                let loans: Vec<Touch> = h.loan.iter().filter(|l| !(escapes && l.0 == "S")).map(|(o, s, m)| (object(o, *second), *s, *m)).collect();
                if escapes {
                    let own = if *second { "s2" } else { "s" };
                    text = format!("{{ let mut {own} = Store::new(); let x = {text}; x }}");
                    if h.loan.iter().any(|l| l.0 == "S") {
                        sure |= until > n;
                        maybe = true;
                        if until > n {
                            crossed.push(Cross { hold: h.name, by: "end of the store's scope", refused: true });
                        }
                    }
                }
                live.push((h, loans, until));
                seen += 1;
                format!("let mut {name} = ManuallyDrop::new({text});")
            }
            Op::Use(u) => match seen {
                0 => String::new(),
                _ if !uses => String::new(),
                _ => format!("touch(&mut h{});", holds[seen - 1 - u % seen].0),
            },
            Op::Call(k, second) => {
                let c = &CALLS[*k];
                check(c.access, *second, c.name, false);
                let t = c.text.replace('$', object("S", *second));
                // what is given a new value is not what was borrowed any more
                for (o, ..) in c.access {
                    let o = object(o, *second);
                    if t.split("; ").any(|x| x.starts_with(&format!("{o} = "))) {
                        for l in live.iter_mut().flat_map(|l| &mut l.1).filter(|l| l.0 == o) {
                            l.1 = No;
                        }
                    }
                }
                t
            }
        };
        told.extend(now);
        out.push(Line { text, sure, maybe });
    }
    out
}

fn text(p: &[Op]) -> String {
    let mut t = format!("fn f(e: Entity, f: Entity, h: Entity) {{\n{LOCALS}\n");
    for l in render(p, true, &mut vec![]) {
        writeln!(t, "{}{}", l.text, if l.sure { " // must be refused" } else { "" }).unwrap();
    }
    t + "}\n"
}

struct Compiler {
    ext: String,
    deps: String,
    dir: String,
}
struct Error {
    line: usize,
    code: String,
    text: String,
}
impl Compiler {
    fn errors(&self, tag: &str, src: &str) -> Result<(Vec<Error>, String), String> {
        let f = format!("{}/{tag}.rs", self.dir);
        std::fs::write(&f, src).unwrap();
        let out = Command::new("rustc")
            .args(["--edition", "2021", "--error-format", "short", "--cap-lints", "allow", "--emit", "metadata", "--crate-name", "programs", "--crate-type", "lib"])
            .args(["--extern", &format!("division_ecs={}", self.ext), "-L", &format!("dependency={}", self.deps)])
            .args(["-o", &format!("{}/{tag}.meta", self.dir), &f])
            .output()
            .map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let mut errors = vec![];
        for l in err.lines() {
            let Some((at, rest)) = l.split_once(": error") else {
                if l.starts_with("error") && !l.starts_with("error: aborting") {
                    errors.push(Error { line: 0, code: String::new(), text: l.into() });
                }
                continue;
            };
            let line = at.strip_prefix(&f).and_then(|r| r.strip_prefix(':')).and_then(|r| r.split(':').next()).and_then(|n| n.parse().ok()).unwrap_or(0);
            let code = rest.strip_prefix('[').and_then(|r| r.split(']').next()).unwrap_or("").to_string();
            errors.push(Error { line, code, text: rest.trim_start_matches(|c: char| c != ' ').trim().to_string() });
        }
        if !out.status.success() && errors.is_empty() {
            return Err(format!("rustc failed without an error at a line: {err}"));
        }
        Ok((errors, err))
    }
    /// The first program that the compiler does not treat as the model says, and why.
    fn decide(&self, tag: &str, programs: &[(usize, &Program)], uses: bool) -> Result<Option<(usize, String)>, String> {
        let mut src = String::from(HEAD);
        let mut at = HEAD.lines().count();
        let mut first = vec![];
        let mut all = vec![];
        for (n, p) in programs {
            writeln!(src, "fn f{n}(e: Entity, f: Entity, h: Entity) {{ {LOCALS}").unwrap();
            at += 1;
            first.push(at + 1);
            let lines = render(p, uses, &mut vec![]);
            for l in &lines {
                src.push_str(&l.text);
                src.push('\n');
                at += 1;
            }
            src.push_str("}\n");
            at += 1;
            all.push(lines);
        }
        let (errors, err) = self.errors(tag, &src)?;
        let mut refused: BTreeMap<(usize, usize), String> = BTreeMap::new();
        for e in errors {
            let k = first.partition_point(|x| *x <= e.line);
            let borrow = ["E0499", "E0502", "E0503", "E0505", "E0506", "E0597", "E0716", "E0521", "E0713", "E0515"].contains(&e.code.as_str());
            if k == 0 || !borrow || e.line - first[k - 1] >= all[k - 1].len() {
                // a lifetime error without a code is one of borrows, too
                return Err(format!("rustc refuses a program for another reason: {} {}\n{}\n{}", e.code, e.text, src.lines().nth(e.line.max(1) - 1).unwrap_or(""), err.lines().take(5).collect::<Vec<_>>().join("\n")));
            }
            refused.entry((k - 1, e.line - first[k - 1])).or_insert(format!("{} ({})", e.text, e.code));
        }
        for (k, lines) in all.iter().enumerate() {
            for (j, l) in lines.iter().enumerate() {
                match refused.get(&(k, j)) {
                    Some(m) if !l.maybe && !l.sure => return Ok(Some((programs[k].0, format!("line {} `{}` is refused though nothing it invalidates is used later: {m}", j + 1, l.text)))),
                    None if l.sure => return Ok(Some((programs[k].0, format!("line {} `{}` is accepted though what it invalidates is used later", j + 1, l.text)))),
                    _ => {}
                }
            }
        }
        Ok(None)
    }
}

/// Programs of fixed text: (name, refused for one of these, text, the same without what is wrong).
fn facts() -> Vec<(String, &'static [&'static str], String, String)> {
    let mut v = vec![];
    let threads: &'static [&'static str] = &["E0277", "E0373", "E0521", "E0597"];
    let locals = LOCALS;
    let body = |inner: &str| format!("{HEAD}pub fn program(e: Entity, f: Entity, h: Entity) {{ {locals}\n{inner}\n}}\n");
    // a store (or what it handed out) in another thread
    let mut uses: Vec<(String, String)> = vec![];
    for h in ITERS.iter().filter(|h| h.name.ends_with("iterator") || h.name.ends_with("iterator with entities")) {
        uses.push((format!("{} in another thread", h.name), format!("let mut it = {};\nstd::thread::scope(|sc| {{ sc.spawn(SPAWN || {{ let mut it = it; it.next(); }}); }});", h.text.replace('$', "s"))));
        uses.push((format!("{} made in two threads", h.name), {
            let t = h.text.replace('$', "s");
            // each thread with a query object of its own
            let q = h.access[1].0;
            let own = LOCALS.split("; ").find_map(|l| find_new(l, q)).unwrap();
            format!("{{ let (s, l) = (&s, &l);\nstd::thread::scope(|sc| {{ for _ in 0..2 {{ sc.spawn(SPAWN || {{ let mut {q} = {own}; {}.next(); }}); }} }}); }}", t.replace("&l", "l"))
        }));
    }
    uses.push(("a store of pointers in another thread".into(), "#[derive(Clone, Copy, Component)] struct P(*const u8);\ns.add_components(e, P(std::ptr::null()));\nstd::thread::scope(|sc| { sc.spawn(SPAWN || { let s = s; s.get_components_refs::<P>(e); }); });".into()));
    uses.push(("a store of pointers shared".into(), "#[derive(Clone, Copy, Component)] struct P(*mut u8);\nlet s = &s;\nstd::thread::scope(|sc| { for _ in 0..2 { sc.spawn(SPAWN || { if let Some(p) = s.get_components_refs::<P>(e) { let _ = p.0; } }); } });".into()));
    uses.push(("a resource store of Rc in another thread".into(), "let mut r = ResourceStore::<std::rc::Rc<u8>>::new(); let k = std::rc::Rc::new(1); r.create(k.clone());\nstd::thread::scope(|sc| { sc.spawn(SPAWN || { let r = r; }); }); drop(k);".into()));
    uses.push(("a resource store of Cell shared".into(), "let mut r = ResourceStore::<std::cell::Cell<u8>>::new(); let k = r.create(std::cell::Cell::new(1)); let r = &r;\nstd::thread::scope(|sc| { for _ in 0..2 { sc.spawn(SPAWN || { r[k].set(2); }); } });".into()));
    uses.push(("a resource store of Rc shared".into(), "let mut r = ResourceStore::<std::rc::Rc<u8>>::new(); let k = r.create(std::rc::Rc::new(1)); let r = &r;\nstd::thread::scope(|sc| { for _ in 0..2 { sc.spawn(SPAWN || { let c = r[k].clone(); }); } });".into()));
    for (name, t) in uses {
        // the control does the same in the thread it is in
        let here = t.replace("sc.spawn(SPAWN || {", "here(|| {");
        let control = format!("{}\nfn here<X>(f: impl FnOnce() -> X) {{ f(); }}", body(&here));
        v.push((name, threads, body(&t.replace("SPAWN", "move")), control));
    }
    // what cannot be a component
    v.push((
        "a component that owns memory".into(), &["E0204", "E0277"],
        body("#[derive(Clone, Component)] struct P(String);\ns.add_components(e, P(String::new()));"),
        body("#[derive(Clone, Copy, Component)] struct P(&'static str);\ns.add_components(e, P(\"\"));"),
    ));
    v.push((
        "a component that owns memory, by hand".into(), &["E0204", "E0277"],
        body("#[derive(Clone)] struct P(Box<u8>); impl Component for P {}\ns.add_components(e, P(Box::new(1)));"),
        body("#[derive(Clone, Copy)] struct P(u8); impl Component for P {}\ns.add_components(e, P(1));"),
    ));
    v.push((
        "a component that is dropped".into(), &["E0184", "E0204", "E0277"],
        body("#[derive(Clone)] struct P(u8); impl Drop for P { fn drop(&mut self) {} } impl Component for P {}\nlet a = Archetype::with_components::<P>();"),
        body("#[derive(Clone, Copy)] struct P(u8); impl Component for P {}\nlet a = Archetype::with_components::<P>();"),
    ));
    let lent = |call: &str| format!("#[derive(Clone, Copy)] struct P<'a>(&'a str); impl<'a> Component for P<'a> {{}}\nlet x = String::new();\n{call}");
    for (name, bad, good) in [
        ("a component that borrows", "s.add_components(e, P(&x));", "s.add_components(e, P(\"\"));"),
        ("a component of several that borrows", "s.add_components(e, (A(1), P(&x)));", "s.add_components(e, (A(1), P(\"\")));"),
        ("a component that borrows, overwritten", "*s.get_components_refs_mut::<P>(e).unwrap() = P(&x);", "*s.get_components_refs_mut::<P>(e).unwrap() = P(\"\");"),
        ("a component that borrows, read", "let y: &'static str = { let mut q = ComponentWriteQuery::<P>::new(); for p in s.component_query_iter(&mut q) { p.0 = &x; } s.get_components_refs::<P>(e).unwrap().0 }; drop(x); y.len();", "let y: &'static str = { let mut q = ComponentWriteQuery::<P>::new(); for p in s.component_query_iter(&mut q) { p.0 = \"\"; } s.get_components_refs::<P>(e).unwrap().0 }; drop(x); y.len();"),
    ] {
        v.push((name.into(), &["E0597", "E0310", "E0521", "E0716", "E0505"], body(&lent(bad)), body(&lent(good))));
    }
    // what a resource borrows must outlive it
    let loud = "struct P<'a>(&'a std::cell::Cell<u8>); impl<'a> Drop for P<'a> { fn drop(&mut self) { self.0.set(1); } }\n";
    v.push((
        "a resource store outliving what its resources borrow".into(), &["E0597"],
        body(&format!("{loud}let mut r = ResourceStore::<P>::new();\n{{ let c = std::cell::Cell::new(0); r.create(P(&c)); }}")),
        body(&format!("{loud}let c = std::cell::Cell::new(0);\n{{ let mut r = ResourceStore::<P>::new(); r.create(P(&c)); }}")),
    ));
    v.push((
        "a resource released after what it borrows is gone".into(), &["E0505", "E0597"],
        body(&format!("{loud}let c = std::cell::Cell::new(0);\nlet mut r = ResourceStore::<P>::new(); let k = r.create(P(&c));\ndrop(c); let p = r.release(k);")),
        body(&format!("{loud}let c = std::cell::Cell::new(0);\nlet mut r = ResourceStore::<P>::new(); let k = r.create(P(&c));\nlet p = r.release(k); drop(p); drop(r); drop(c);")),
    ));
    v
}

/// `ComponentReadOnlyQuery::<A>::new()` of `let (mut cr, ...) = (ComponentReadOnlyQuery::<A>::new(), ...)`.
fn find_new(l: &str, q: &str) -> Option<String> {
    let (names, values) = l.split_once(") = (")?;
    let at = names.trim_start_matches("let (").split(", ").position(|n| n == format!("mut {q}"))?;
    values.trim_end_matches(')').trim_end_matches(");").split("new(), ").nth(at).map(|v| format!("{}new()", v.trim_end_matches("new()").trim_end_matches("new(")))
}

fn tree(seed: u64, i: u64) -> impl ValueTree<Value = Program> {
    let mut s = [0u8; 32];
    for (j, ch) in s.chunks_mut(8).enumerate() {
        ch.copy_from_slice(&crate::util::mix(seed ^ crate::util::mix(0xC20 ^ crate::util::mix(i * 4 + j as u64))).to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    strategy().new_tree(&mut r).unwrap()
}

fn no_answer(m: &str) -> ! {
    eprintln!("ERROR: {m}");
    exit(2)
}

pub fn main(a: &Args) {
    let start = Instant::now();
    let (seed, cases, jobs) = (a.num("--seed", 1), a.num("--cases", 1000), a.num("--jobs", 8));
    let dir = a.str("--dir").to_string();
    std::fs::create_dir_all(&dir).unwrap();
    let c = Compiler { ext: a.str("--ext").into(), deps: a.str("--deps").into(), dir };
    let replay = a.str("--replay").to_string();
    let facts = facts();
    let batch = 250;
    let batches: Vec<(u64, u64)> = (0..cases).step_by(batch).map(|f| (f, (f + batch as u64).min(cases))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    // key: fact, then program
    let found: std::sync::Mutex<BTreeMap<(usize, usize), Result<String, String>>> = Default::default();
    std::thread::scope(|s| {
        for w in 0..jobs {
            let (c, batches, next, found, facts) = (&c, &batches, &next, &found, &facts);
            s.spawn(move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= batches.len() + facts.len() || !found.lock().unwrap().is_empty() {
                    return;
                }
                let tag = format!("w{w}");
                if k < facts.len() {
                    let (name, codes, bad, good) = &facts[k];
                    let r = (|| {
                        let (e, err) = c.errors(&tag, good)?;
                        // components that may not cross threads may be refused to begin with
                        if name.starts_with("a store of pointers") && !e.is_empty() && e.iter().all(|e| e.code == "E0277") {
                            return Ok(None);
                        }
                        if !e.is_empty() {
                            return Err(format!("the program that should be fine ({name}) is not: {err}\n{good}"));
                        }
                        let (e, err) = c.errors(&tag, bad)?;
                        if e.is_empty() {
                            return Ok(Some(format!("{name} is accepted")));
                        }
                        if !e.iter().any(|e| codes.contains(&e.code.as_str())) {
                            return Err(format!("{name} is refused for another reason: {err}"));
                        }
                        Ok(None)
                    })();
                    match r {
                        Ok(None) => {}
                        Ok(Some(m)) => drop(found.lock().unwrap().insert((0, k), Ok(m))),
                        Err(m) => drop(found.lock().unwrap().insert((2, k), Err(m))),
                    }
                    continue;
                }
                let (from, to) = batches[k - facts.len()];
                let items: Vec<(usize, Program)> = (from..to).map(|i| (i as usize, tree(seed, i).current())).collect();
                let refs: Vec<(usize, &Program)> = items.iter().map(|(n, i)| (*n, i)).collect();
                match c.decide(&tag, &refs, true) {
                    Ok(None) => {}
                    Ok(Some((n, m))) => drop(found.lock().unwrap().insert((1, n), Ok(m))),
                    Err(m) => drop(found.lock().unwrap().insert((2, 0), Err(m))),
                }
            });
        }
    });
    let found = found.into_inner().unwrap();
    if let Some(((what, n), r)) = found.iter().next() {
        let mut message = match r {
            Ok(m) => m.clone(),
            Err(m) => no_answer(m),
        };
        if *what == 0 {
            std::fs::write(&replay, format!("// C20 violated: {message}\n// should be refused\n{}", facts[*n].2)).unwrap();
            println!("{message}");
            exit(10)
        }
        // alone, then smaller
        let mut t = tree(seed, *n as u64);
        let fails = |p: &Program| c.decide("try", &[(0, p)], true).ok().flatten().map(|x| x.1);
        let mut best = t.current();
        match fails(&best) {
            None => no_answer(&format!("not so when compiled alone: program {n}: {message}")),
            Some(m) => message = m,
        }
        let mut tries = 0;
        let mut more = t.simplify();
        while more && tries < 200 {
            tries += 1;
            match fails(&t.current()) {
                Some(m) => {
                    message = m;
                    best = t.current();
                    more = t.simplify();
                }
                None => more = t.complicate(),
            }
        }
        let mut i = best.len();
        while i > 0 {
            i -= 1;
            let mut less = best.clone();
            less.remove(i);
            if let Some(m) = fails(&less) {
                message = m;
                best = less;
            }
        }
        // the same program holding on to nothing has to be fine
        match c.decide("control", &[(0, &best)], false) {
            Ok(None) => {}
            Ok(Some((_, m))) => message = m,
            Err(m) => no_answer(&m),
        }
        std::fs::write(&replay, format!("// C20 violated, seed {seed}, program {n}: {message}\n{HEAD}{}", text(&best))).unwrap();
        println!("program {n}: {message}\n{}", text(&best));
        exit(10)
    }
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut seen = BTreeSet::new();
    let mut samples = vec![];
    let mut nontrivial = 0;
    for i in 0..cases {
        let p = tree(seed, i).current();
        let mut x = vec![];
        let lines = render(&p, true, &mut x);
        *events.entry(format!("program {}", if lines.iter().any(|l| l.sure) { "to be refused" } else if lines.iter().any(|l| l.maybe) { "left open" } else { "to be accepted" })).or_default() += 1;
        let mut names = BTreeSet::new();
        for c in &x {
            names.insert(format!("{} {} in use across it", c.hold, if c.refused { "refused:" } else { "accepted:" }));
            names.insert(format!("{} {} what it takes is in use", c.by, if c.refused { "refused:" } else { "accepted:" }));
        }
        for n in names {
            *events.entry(n).or_default() += 1;
        }
        if !x.is_empty() {
            nontrivial += 1;
            let t = text(&p);
            if lines.len() > 6 && seen.insert(lines.iter().any(|l| l.sure)) || samples.len() < 6 && i % 997 == 0 {
                samples.push(format!("{{\"program\":{i},\"text\":{}}}", js(&t.replacen(LOCALS, "...", 1))));
            }
            distinct.insert(t);
        }
    }
    let nf = facts.len() as u64;
    let mut ev: Vec<String> = events.iter().map(|(k, n)| format!("{}:{{\"cases\":{n}}}", js(k))).collect();
    ev.push(format!("\"fixed programs refused, and accepted without what is wrong\":{{\"cases\":{nf}}}"));
    let json = format!(
        "{{\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"rule\":{},\"events\":{{{}}},\"samples\":[{}],\"wall_s\":{:.1}}}",
        cases + nf,
        nontrivial + nf,
        distinct.len() as u64 + nf,
        js("Generated programs, and fixed ones. Non-trivial, if something is used after a call or another borrow that takes the object it came from, exclusively or not; distinct by text"),
        ev.join(","),
        samples.join(","),
        start.elapsed().as_secs_f64()
    );
    std::fs::write(a.str("--out"), json).unwrap();
    exit(0)
}
