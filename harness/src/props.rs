//! What each property generates, which oracles decide it, and when a case counts as non-trivial.
use crate::alloc;
use crate::case::{Case, Shape, NCFG};
use crate::world::*;
use crate::{blob, many, res, setops};
use std::collections::BTreeMap;

pub struct Report {
    pub result: Res,
    pub feats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub shape: Shape,
    /// non-trivial if for every group at least one of its features occurred
    pub rule: &'static [&'static [&'static str]],
    pub run: fn(&Case, bool) -> Report,
    /// a panic of the library is a violation (otherwise the case is only counted)
    pub panics: bool,
}

// cfg: [capacity class, palette seed, palette size, bulk class, free, free, free, free]
const CFG: [u32; NCFG] = [15, 400, 9, 3, 0, 0, 0, 0];

pub fn capacity(x: u32) -> usize {
    // 10 is what Store::new uses
    [10, 1, 2, 5, 16, 31, 32, 33, 64, 100, 3, 63, 65, 128, 1000, 5000][x as usize % 16]
}

fn w(v: &[(u8, u32)]) -> Vec<(u8, u32)> {
    v.to_vec()
}
const SIZES: &[(u32, usize)] = &[(2, 12), (5, 40), (3, 120)];

fn shape(weights: &[(u8, u32)], sizes: &[(u32, usize)], cfg: [u32; NCFG]) -> Shape {
    Shape { weights: w(weights), prologue: vec![], sizes: sizes.to_vec(), cfg_max: cfg }
}

fn world_case(case: &Case, verbose: bool, oracles: u32) -> Report {
    let mut sh = Shared::new(&case.cfg, oracles);
    if verbose {
        sh.log = Some(vec![]);
    }
    let result = (|| {
        let mut wd = World::new(capacity(case.cfg[0]), 0);
        sh.say(|| format!("store with capacity {}", wd.cap0));
        wd.crowd(&mut sh, case.cfg[6])?;
        for op in &case.ops {
            wd.apply(&mut sh, op)?;
        }
        wd.full(&mut sh)?;
        if oracles & (O_SETS | O_STALE) != 0 {
            wd.check_mut_access(&mut sh)?;
        }
        if oracles & (O_VALUES | O_SETS) != 0 {
            wd.full(&mut sh)?;
        }
        Ok(())
    })();
    Report { result, feats: sh.feats, log: sh.log.unwrap_or_default() }
}

/// C19: interleaved stores against the same operations on one store alone.
///
/// `own`: every run is made in a process of its own, forked from one that never used the library, so that
/// nothing the library may remember for the whole process is shared between the runs.
fn independent(case: &Case, verbose: bool, own: bool) -> Report {
    let n = stores_of(case);
    let apart = |f: &dyn Fn() -> Shown| if own { apart(f) } else { f() };
    let together = apart(&|| together(case, verbose));
    let mut result = Ok(());
    for i in 0..n {
        let alone = apart(&|| alone(case, i));
        let (t, all) = (&alone.traces[0], &together.traces[i]);
        if t != all {
            let p = t.iter().zip(all).position(|(a, b)| a != b).unwrap_or(t.len().min(all.len()));
            result = Err(format!(
                "store {i} of {n} behaves differently from the same operations on a store alone with new query objects (observation {p}; alone: {:?}, together: {:?}; {} / {})",
                t.get(p),
                all.get(p),
                alone.ends[0],
                together.ends[i],
            ));
            break;
        }
    }
    let mut feats = together.feats;
    if together.traces.iter().filter(|t| t.len() > 4).count() > 1 {
        feats.insert("several stores in use", 1);
    }
    Report { result, feats, log: together.log }
}

/// What one or several stores showed.
#[derive(Default)]
struct Shown {
    traces: Vec<Vec<u64>>,
    /// per store how it ended early
    ends: Vec<String>,
    feats: BTreeMap<&'static str, u64>,
    log: Vec<String>,
}

fn stores_of(case: &Case) -> usize {
    2 + case.cfg[4] as usize % 2
}
fn store_of(case: &Case, op: &crate::case::Op) -> usize {
    (op.c >> 3) as usize % stores_of(case)
}
fn renewed(case: &Case, i: usize) -> World {
    World::new(capacity(case.cfg[0] + i as u32 * 3), i)
}
fn started(case: &Case, sh: &mut Shared, i: usize, trace: &mut Vec<u64>) -> Option<World> {
    let mut wd = renewed(case, i);
    if case.cfg[6] > 0 {
        // decided by comparison
        if let Err(m) = wd.crowd(sh, h(&[case.cfg[6] as u64, i as u64]) as u32 % CROWDS) {
            trace.push(hash_str(&m));
        }
        trace.push(wd.store.entities_capacity() as u64);
    }
    Some(wd)
}

fn drive(case: &Case, sh: &mut Shared, slot: &mut Option<World>, i: usize, op: &crate::case::Op, trace: &mut Vec<u64>) -> Res {
    if op.k == RENEW {
        // an own store dropped and replaced while the other ones live on
        *slot = None;
        *slot = Some(renewed(case, i));
        sh.feat("store dropped and replaced");
        trace.push(u64::MAX - 2);
        return Ok(());
    }
    sh.trace = Some(std::mem::take(trace));
    let r = slot.as_mut().unwrap().apply(sh, op);
    *trace = sh.trace.take().unwrap();
    if let Err(m) = &r {
        // decided by comparison: the same operation alone must end in the same way
        trace.push(hash_str(m));
        sh.feat("operation with another outcome than the model's");
    }
    r
}

fn together(case: &Case, verbose: bool) -> Shown {
    let n = stores_of(case);
    let mut sh = Shared::new(&case.cfg, 0);
    if verbose {
        sh.log = Some(vec![]);
    }
    let mut traces: Vec<Vec<u64>> = vec![vec![]; n];
    let mut worlds: Vec<Option<World>> = (0..n).map(|i| started(case, &mut sh, i, &mut traces[i])).collect();
    let mut ends: Vec<Option<String>> = vec![None; n];
    for op in &case.ops {
        let i = store_of(case, op);
        if ends[i].is_some() {
            continue;
        }
        sh.say(|| format!("store {i}:"));
        if op.k == RENEW && op.a % 2 == 0 {
            // archetypes are dropped before the stores that know them
            sh.archetypes.clear();
            sh.feat("archetypes dropped before the stores");
        }
        ends[i] = drive(case, &mut sh, &mut worlds[i], i, op, &mut traces[i]).err();
    }
    for i in 0..n {
        if ends[i].is_none() {
            traces[i].extend(snapshot(&mut sh, worlds[i].as_mut().unwrap()));
        }
    }
    Shown { traces, ends: ends.into_iter().map(|e| e.unwrap_or_default()).collect(), feats: sh.feats, log: sh.log.unwrap_or_default() }
}

fn alone(case: &Case, i: usize) -> Shown {
    let mut sh = Shared::new(&case.cfg, 0);
    sh.fresh_queries = true;
    let mut t = vec![];
    let mut wd = started(case, &mut sh, i, &mut t);
    let mut end = None;
    for op in case.ops.iter().filter(|o| store_of(case, o) == i) {
        end = drive(case, &mut sh, &mut wd, i, op, &mut t).err();
        if end.is_some() {
            break;
        }
    }
    if end.is_none() {
        t.extend(snapshot(&mut sh, wd.as_mut().unwrap()));
    }
    Shown { traces: vec![t], ends: vec![end.unwrap_or_default()], ..Shown::default() }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(status: i32) -> !;
    fn raise(signal: i32) -> i32;
    fn prctl(option: i32, ...) -> i32;
}

/// Runs `f` in a forked process.
fn apart(f: impl FnOnce() -> Shown) -> Shown {
    use std::io::{Read, Write};
    let (mut from, mut to) = std::io::pipe().expect("pipe");
    let pid = unsafe { fork() };
    if pid < 0 {
        panic!("no process");
    }
    if pid == 0 {
        const PDEATHSIG: i32 = 1;
        unsafe { prctl(PDEATHSIG, 9u64) };
        drop(from);
        let line = |s: &str| s.replace('\n', " ");
        let text = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Err(_) => {
                let (l, m) = crate::run::PANIC.lock().unwrap().take().unwrap_or_default();
                format!("panic {}\t{}\n", line(&l), line(&m))
            }
            Ok(s) => {
                let mut t = String::new();
                for v in &s.traces {
                    t += "trace";
                    for x in v {
                        t += &format!(" {x:x}");
                    }
                    t.push('\n');
                }
                s.ends.iter().for_each(|e| t += &format!("end {}\n", line(e)));
                s.feats.iter().for_each(|(f, n)| t += &format!("feat {n} {f}\n"));
                s.log.iter().for_each(|l| t += &format!("log {}\n", line(l)));
                t
            }
        };
        let ok = to.write_all(text.as_bytes()).is_ok();
        unsafe { _exit(if ok { 0 } else { 3 }) }
    }
    drop(to);
    let mut text = String::new();
    let read = from.read_to_string(&mut text);
    let mut status = 0;
    if unsafe { waitpid(pid, &mut status, 0) } != pid {
        panic!("no status of the process");
    }
    if status & 127 != 0 {
        // as if it had happened here
        unsafe { raise(status & 127) };
    }
    read.expect("result");
    if status != 0 {
        // the standard library or a sanitizer has ended it
        std::process::exit(status >> 8);
    }
    let mut s = Shown::default();
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "panic" => {
                let (l, m) = v.split_once('\t').unwrap_or((v, ""));
                *crate::run::PANIC.lock().unwrap() = Some((l.into(), m.into()));
                std::panic::resume_unwind(Box::new(()));
            }
            "trace" => s.traces.push(v.split(' ').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect()),
            "end" => s.ends.push(v.into()),
            "feat" => {
                let (n, f) = v.split_once(' ').unwrap();
                s.feats.insert(interned(f), n.parse().unwrap());
            }
            _ => s.log.push(v.into()),
        }
    }
    s
}

fn interned(s: &str) -> &'static str {
    static ALL: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut all = ALL.lock().unwrap();
    if let Some(k) = all.get(s) {
        return k;
    }
    let k: &'static str = Box::leak(s.to_string().into_boxed_str());
    all.insert(k);
    k
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(9, |x, b| crate::comps::mix(x ^ b as u64))
}

/// Everything point access shows of a store.
fn snapshot(sh: &mut Shared, wd: &mut World) -> Vec<u64> {
    use crate::comps::*;
    let mut v = vec![];
    for e in &wd.ents {
        v.push(wd.store.is_alive(e.h) as u64);
        v.push((e.h.id() as u64) << 32 | e.h.version() as u64);
        let mut names: Vec<&str> = wd.store.get_entity_archetype(e.h).map(|a| a.components_iter().map(|c| c.name()).collect()).unwrap_or_default();
        names.sort();
        v.push(hash_str(&names.join(" ")));
        for c in 0..NC {
            let mut ok = 2;
            sh.tuples[c].refs(&wd.store, e.h, &mut |r| ok = r[0].eq_seed(e.seeds[c]) as u64);
            v.push(ok);
        }
        for t in 0..NT {
            v.push(has_tag(&wd.store, e.h, t) as u64);
        }
        let enc = |e: Option<division_ecs::Entity>| e.map(|e| (e.id() as u64) << 32 | e.version() as u64).unwrap_or(7);
        for g in 0..NG {
            v.push(enc(get_next(&wd.store, e.h, g)));
            v.push(enc(get_prev(&wd.store, e.h, g)));
        }
    }
    v.push(wd.store.entities_capacity() as u64);
    v
}

/// C16: the same workload again and again.
fn bounded(case: &Case, verbose: bool) -> Report {
    let mut sh = Shared::new(&case.cfg, 0);
    if verbose {
        sh.log = Some(vec![]);
    }
    // few sets per workload; a single one for exact byte counts
    let single = case.cfg[4] % 3 == 0;
    if single {
        sh.palette.truncate(1);
    }
    let rounds = if single { 64 } else { 40 };
    let result = (|| {
        alloc::reset(true);
        let cap0 = capacity(case.cfg[0]);
        let mut wd = World::new(cap0, 0);
        if wd.store.entities_capacity() < cap0 {
            return Err(format!("capacity {} although {cap0} was requested", wd.store.entities_capacity()));
        }
        let mut use_: Vec<(usize, usize, usize, usize)> = vec![];
        for r in 0..rounds {
            if r == 1 {
                sh.log = sh.log.take().map(|mut l| {
                    l.push(format!("... the same {rounds} times"));
                    l
                });
            }
            let log = if r > 0 { sh.log.take() } else { None };
            for op in &case.ops {
                if single && matches!(op.k, ADD | REMOVE | BULK_ADD | BULK_REMOVE | CREATE) {
                    continue;
                }
                let mut op = *op;
                if single && op.k != DESTROY {
                    op.a = 0;
                    op.b = op.b / 3 * 3;
                }
                watched(&mut sh, &mut wd, &op)?;
            }
            // end of the round: everything is destroyed, in some order
            let mut order = wd.alive.clone();
            match case.cfg[5] % 4 {
                0 => order.reverse(),
                1 => {}
                k => {
                    let n = order.len();
                    let mut v: Vec<usize> = (0..n).collect();
                    v.sort_by_key(|i| h(&[k as u64, *i as u64]));
                    order = v.into_iter().map(|i| order[i]).collect();
                }
            }
            for i in order {
                wd.destroy(&mut sh, i)?;
                cap_rule(&wd, cap0)?;
            }
            let peak = wd.max_simultaneous;
            wd.forget();
            if r > 0 {
                sh.log = log;
            }
            let pages = alloc::blocks_of(division_ecs::Store::data_page_size());
            use_.push((alloc::live(), alloc::bytes(), pages, wd.store.entities_capacity()));
            if peak > 0 && r + 1 == rounds {
                sh.feat("rounds with entities");
            }
        }
        if cfg!(not(miri)) {
            let first = &use_[..rounds / 2];
            let second = &use_[rounds / 2..];
            let max = |v: &[(usize, usize, usize, usize)], f: fn(&(usize, usize, usize, usize)) -> usize| v.iter().map(f).max().unwrap();
            let (p1, p2) = (max(first, |u| u.2), max(second, |u| u.2));
            if p2 > p1 {
                return Err(format!("the same workload repeated: {p1} data pages after {} rounds, {p2} after {rounds}", rounds / 2));
            }
            let (l1, l2) = (max(first, |u| u.0), max(second, |u| u.0));
            // a data page may get its list of ids late
            let slack = if single { 3 } else { 3 + p1.min(10) };
            if l2 > l1 + slack {
                return Err(format!("the same workload repeated: {l1} blocks of memory after {} rounds, {l2} after {rounds}", rounds / 2));
            }
            let (b1, b2) = (max(first, |u| u.1), max(second, |u| u.1));
            if single && b2 > b1 {
                return Err(format!("the same workload repeated: {b1} bytes of memory after {} rounds, {b2} after {rounds}", rounds / 2));
            }
            let (c1, c2) = (use_[0].3, use_[rounds - 1].3);
            if c1 != c2 {
                return Err(format!("the same workload repeated: entity capacity {c1} after one round, {c2} after {rounds}"));
            }
        }
        drop(wd);
        if alloc::live() != 0 {
            return Err(format!("{} blocks ({} bytes) of a dropped store are not given back", alloc::live(), alloc::bytes()));
        }
        if alloc::bad_frees() != 0 {
            return Err("memory was freed with another layout than it was allocated with".into());
        }
        // and dropped in the middle of the workload
        alloc::reset(true);
        let mut wd = World::new(cap0, 0);
        let n = case.ops.len() * (1 + case.cfg[5] as usize % 4) / 4;
        for op in &case.ops[..n] {
            watched(&mut sh, &mut wd, op)?;
        }
        if wd.alive.len() > 1 {
            sh.feat("dropped with live entities");
        }
        drop(wd);
        if alloc::live() != 0 {
            return Err(format!("{} blocks ({} bytes) of a store dropped in use are not given back", alloc::live(), alloc::bytes()));
        }
        Ok(())
    })();
    Report { result, feats: sh.feats, log: sh.log.unwrap_or_default() }
}

fn cap_rule(wd: &World, cap0: usize) -> Res {
    let cap = wd.store.entities_capacity();
    let need = cap0.max(wd.max_simultaneous);
    if cap < need {
        return Err(format!("entity capacity {cap} with {} alive entities and {cap0} requested", wd.alive.len()));
    }
    Ok(())
}

fn watched(sh: &mut Shared, wd: &mut World, op: &crate::case::Op) -> Res {
    let (cap, alive, issued) = (wd.store.entities_capacity(), wd.alive.len(), wd.ents.len());
    wd.apply(sh, op)?;
    let cap2 = wd.store.entities_capacity();
    if cap2 < cap {
        return Err(format!("entity capacity shrank from {cap} to {cap2}"));
    }
    let created = wd.ents.len() - issued;
    if cap2 > cap && alive + created <= cap {
        return Err(format!("entity capacity grew from {cap} to {cap2} although at most {} entities were alive", alive + created));
    }
    cap_rule(wd, wd.cap0)
}

fn archetypes(case: &Case, verbose: bool) -> Report {
    let mut feats = BTreeMap::new();
    let mut log = vec![];
    let result = setops::Universe::new().run(case, &mut feats, &mut log);
    if !verbose {
        log.clear();
    }
    Report { result, feats, log }
}

fn resources(case: &Case, counting: bool) -> Report {
    alloc::reset(counting);
    let mut feats = BTreeMap::new();
    let mut log = vec![];
    let result = res::run(case, &mut feats, &mut log, counting);
    alloc::reset(false);
    Report { result, feats, log }
}

fn placement(case: &Case, _: bool) -> Report {
    alloc::reset(true);
    let mut b = blob::Blob::new(case);
    let result = b.run(case);
    let r = Report { result, feats: std::mem::take(&mut b.feats), log: std::mem::take(&mut b.log) };
    drop(b);
    alloc::reset(false);
    r
}

/// C11 also over stores with typed components, moved between sets.
fn placement_world(case: &Case, verbose: bool) -> Report {
    if case.cfg[7] % 4 == 0 {
        let mut ops = case.clone();
        for o in &mut ops.ops {
            o.k = [BULK_CREATE, BULK_DESTROY, ADD, REMOVE][o.k as usize % 4];
        }
        return world_case(&ops, verbose, O_PLACE | O_VALUES);
    }
    placement(case, verbose)
}

/// C18: any operations on anything; only the process' health decides.
fn health(case: &Case, verbose: bool) -> Report {
    let mut r = match case.cfg[7] % 8 {
        6 => {
            let mut c = case.clone();
            c.ops.iter_mut().for_each(|o| o.k = [0, 1, 2, 5][o.k as usize % 4]);
            alloc::reset(true);
            let mut feats = BTreeMap::new();
            let mut log = vec![];
            let _ = res::run(&c, &mut feats, &mut log, false);
            Report { result: Ok(()), feats, log }
        }
        7 => {
            let mut c = case.clone();
            c.ops.iter_mut().for_each(|o| o.k %= 4);
            if cfg!(miri) {
                c.ops.truncate(6);
            }
            alloc::reset(true);
            let mut b = blob::Blob::new(&c);
            let result = b.run(&c);
            // wrong placement is undefined behaviour, lost values are not by themselves
            let bad = result.as_ref().is_err_and(|m| !m.contains("lost its value"));
            Report { result: if bad { result } else { Ok(()) }, feats: std::mem::take(&mut b.feats), log: std::mem::take(&mut b.log) }
        }
        _ => {
            alloc::reset(true);
            let mut sh = Shared::new(&case.cfg, 0);
            sh.debug = false;
            if verbose {
                sh.log = Some(vec![]);
            }
            let mut wd = World::new(capacity(case.cfg[0]), 0);
            let _ = wd.crowd(&mut sh, case.cfg[6]);
            for op in &case.ops {
                if let Err(m) = wd.apply(&mut sh, op) {
                    // decided by other properties
                    sh.say(|| format!("(stopped: {m})"));
                    sh.feat("stopped by another oracle");
                    break;
                }
            }
            // read everything once more
            let _ = wd.read_all(&mut sh);
            drop(wd);
            Report { result: Ok(()), feats: sh.feats, log: sh.log.unwrap_or_default() }
        }
    };
    if r.result.is_ok() && alloc::bad_frees() != 0 {
        r.result = Err("memory was freed with another layout than it was allocated with".into());
    }
    alloc::reset(false);
    r
}

pub fn props() -> Vec<Prop> {
    let lifetimes: &[(u8, u32)] =
        &[(CREATE, 6), (CREATE_WITH, 5), (DESTROY, 10), (BULK_CREATE, 2), (BULK_DESTROY, 2), (ADD, 1), (REMOVE, 1), (TAG, 1), (ORD_ADD, 1), (CHECK, 1)];
    let structure: &[(u8, u32)] = &[
        (CREATE, 2), (CREATE_WITH, 6), (DESTROY, 6), (ADD, 8), (REMOVE, 7), (WRITE, 3), (BULK_CREATE, 3),
        (BULK_DESTROY, 3), (BULK_ADD, 2), (BULK_REMOVE, 1), (Q_COMP, 1), (Q_LIST, 1), (TAG, 1), (ORD_ADD, 1), (CHECK, 1),
    ];
    let with = |extra: &[(u8, u32)]| -> Vec<(u8, u32)> {
        let mut v: Vec<(u8, u32)> = vec![
            (CREATE, 2), (CREATE_WITH, 5), (DESTROY, 5), (ADD, 4), (REMOVE, 4), (BULK_CREATE, 3), (BULK_DESTROY, 2), (BULK_ADD, 1), (BULK_REMOVE, 1),
        ];
        v.extend(extra);
        v
    };
    let groups: &[(u8, u32)] = &[
        (CREATE, 4), (CREATE_WITH, 1), (BULK_CREATE, 1), (DESTROY, 5), (ORD_ADD, 8), (ORD_NEXT, 8), (ORD_PREV, 8), (ORD_REMOVE, 7), (BULK_ORDER, 1),
        (ADD, 1), (REMOVE, 1), (TAG, 2), (UNTAG, 1), (BULK_DESTROY, 1),
    ];
    let all: Vec<(u8, u32)> = with(&[
        (WRITE, 2), (Q_COMP, 4), (Q_LIST, 4), (Q_ORD, 4), (Q_TAG, 3), (TAG, 2), (UNTAG, 1), (ORD_ADD, 3), (ORD_NEXT, 2), (ORD_PREV, 2),
        (ORD_REMOVE, 2), (BULK_ORDER, 1), (BULK_TAG, 1), (STALE, 3), (PROTO, 2), (ADAPT, 1),
    ]);
    let p = |id, weights: &[(u8, u32)], sizes, cfg, rule, run| Prop { id, shape: shape(weights, sizes, cfg), rule, run, panics: true };
    let mut cfg19 = CFG;
    cfg19[4] = 1;
    let cfg16 = [15, 400, 5, 2, 2, 3, 0, 0];
    let mut health_all = all.clone();
    health_all.push((CHECK, 1));
    let mut all_props = vec![
        p("C01", lifetimes, &[(2, 20), (5, 80), (2, 250)], CFG, &[&["id reused"]], |c, v| world_case(c, v, O_ALIVE)),
        p("C02", structure, SIZES, CFG, &[&["row removed among others", "moved to another set"]], |c, v| world_case(c, v, O_VALUES)),
        p("C03", structure, SIZES, CFG, &[&["components added"], &["components removed"]], |c, v| world_case(c, v, O_SETS)),
        p(
            "C04",
            &with(&[(Q_COMP, 12), (WRITE, 1)]),
            SIZES,
            CFG,
            &[&["component query over several sets", "component query over several pages of a set"]],
            |c, v| world_case(c, v, 0),
        ),
        p(
            "C05",
            &with(&[(Q_TAG, 8), (TAG, 10), (UNTAG, 5), (BULK_TAG, 3)]),
            SIZES,
            CFG,
            &[&["tag filter with and without the tag"]],
            |c, v| world_case(c, v, O_TAGS),
        ),
        p("C06", &with(&[(Q_LIST, 12), (WRITE, 1)]), SIZES, CFG, &[&["list query with holes"]], |c, v| world_case(c, v, 0)),
        p("C07", groups, &[(2, 15), (5, 60), (2, 200)], CFG, &[&["inserted next to a member"], &["removed from group", "group member destroyed"]], |c, v| {
            world_case(c, v, O_GROUPS)
        }),
        p(
            "C08",
            &with(&[(Q_ORD, 12), (ORD_ADD, 5), (ORD_NEXT, 4), (ORD_PREV, 4), (ORD_REMOVE, 3), (BULK_ORDER, 4)]),
            SIZES,
            CFG,
            &[&["ordered query with holes"]],
            |c, v| world_case(c, v, 0),
        ),
        p(
            "C09",
            &[
                (CREATE, 4), (CREATE_WITH, 8), (DESTROY, 9), (ADD, 2), (REMOVE, 1), (TAG, 4), (ORD_ADD, 4), (ORD_NEXT, 2), (ORD_PREV, 1),
                (STALE, 14), (BULK_CREATE, 1), (BULK_DESTROY, 1),
            ],
            &[(2, 15), (5, 50), (1, 120)],
            CFG,
            &[&["stale call after its id was reused"]],
            |c, v| world_case(c, v, O_STALE),
        ),
        p(
            "C10",
            &with(&[(MISUSE, 12), (ORD_ADD, 6), (ORD_NEXT, 3), (ORD_PREV, 3), (ORD_REMOVE, 3), (TAG, 2), (Q_COMP, 1)]),
            &[(2, 15), (5, 50), (1, 120)],
            CFG,
            &[&["misuse"]],
            |c, v| world_case(c, v, 0),
        ),
        Prop {
            id: "C11",
            shape: shape(&[(0, 8), (1, 4), (2, 3), (3, 3)], &[(2, 4), (4, 12), (1, 40)], [3, 60000, 5, 2, 0, 0, 0, 7]),
            rule: &[&["more rows than a page holds", "filled after another set was emptied", "more than 8 types", "alignment above 16", "fewer than 4 rows in a page", "row larger than a page", "moved to another set", "row removed among others"]],
            run: placement_world,
            panics: true,
        },
        p(
            "C12",
            &[(0, 3), (1, 3), (2, 6), (3, 4), (4, 3), (5, 9), (6, 4), (7, 4), (8, 1)],
            &[(2, 8), (4, 30)],
            [1, 0, 0, 0, 0, 0, 0, 0],
            &[&["2 to 4 types", "5 to 12 types", "more than 12 types"]],
            archetypes,
        ),
        p(
            "C13",
            &[(0, 8), (1, 5), (2, 3), (3, 2), (5, 1)],
            &[(2, 10), (4, 50), (1, 150)],
            [res::TYPES - 1, 12, 0, 0, 0, 0, 0, 0],
            &[&["slot reused"]],
            |c, _| resources(c, false),
        ),
        p(
            "C14",
            &[(0, 8), (1, 5), (2, 4), (5, 2)],
            &[(2, 10), (4, 50), (1, 150)],
            [res::TYPES - 1, 12, 0, 0, 0, 0, 0, 0],
            &[&["dropped while holding resources"], &["released"]],
            |c, _| resources(c, true),
        ),
        p(
            "C15",
            &with(&[(PROTO, 10), (ADAPT, 6), (ORD_ADD, 4), (BULK_ORDER, 3), (BULK_TAG, 1)]),
            SIZES,
            CFG,
            &[&["lengths checked over several items"]],
            |c, v| world_case(c, v, 0),
        ),
        p(
            "C16",
            &[
                (CREATE, 3), (CREATE_WITH, 5), (DESTROY, 5), (ADD, 4), (REMOVE, 3), (BULK_CREATE, 3), (BULK_DESTROY, 2), (BULK_ADD, 1), (BULK_REMOVE, 1),
                (TAG, 3), (UNTAG, 1), (ORD_ADD, 2), (ORD_NEXT, 1), (ORD_PREV, 1), (ORD_REMOVE, 1), (BULK_TAG, 1),
            ],
            &[(3, 10), (3, 30)],
            cfg16,
            &[&["rounds with entities"], &["dropped with live entities"]],
            bounded,
        ),
        Prop {
            id: "C18",
            shape: shape(&health_all, &[(2, 15), (5, 60), (2, 150)], [15, 400, 9, 3, 3, 0, 0, 7]),
            rule: &[&[
                "row removed among others", "moved to another set", "list query with items", "ordered query with items", "stale call", "slot reused",
                "more rows than a page holds", "grown while holding resources", "filled after another set was emptied",
            ]],
            run: health,
            panics: false,
        },
        p("C19", &{
            let mut v = all.clone();
            v.push((RENEW, 1));
            v
        }, &[(2, 30), (5, 80)], cfg19, &[&["several stores in use"]], |c, v| independent(c, v, false)),
    ];
    for p in &mut all_props {
        p.shape.prologue = w(match p.id {
            "C02" | "C03" | "C04" | "C06" => &[(BULK_CREATE, 3), (CREATE_WITH, 2), (CREATE, 1), (ADD, 1)],
            "C05" => &[(BULK_CREATE, 3), (CREATE_WITH, 1), (BULK_TAG, 1), (TAG, 2)],
            "C07" => &[(CREATE, 4), (CREATE_WITH, 1), (BULK_CREATE, 1), (ORD_ADD, 3), (BULK_ORDER, 1)],
            "C08" | "C10" | "C15" => &[(BULK_CREATE, 4), (CREATE_WITH, 1), (CREATE, 1), (BULK_ORDER, 3)],
            "C18" | "C19" => &[(BULK_CREATE, 3), (CREATE_WITH, 2), (BULK_ORDER, 1), (BULK_TAG, 1)],
            _ => &[],
        });
    }
    all_props
}

/// C05: a tag filter that has to skip very many entities.
fn many_untagged(case: &Case, _verbose: bool) -> Report {
    use crate::comps::*;
    use division_ecs::*;
    let mut feats = BTreeMap::new();
    let n = 20_000 + case.cfg[0] as usize * 3_000;
    let mut log = vec![format!("{n} entities")];
    let result = (|| {
        let mut s = Store::with_capacity(capacity(case.cfg[1]));
        let archs = [Archetype::with_components::<C0>(), Archetype::with_components::<(C5, C0)>()];
        let mut want = vec![];
        let tagged: Vec<usize> = case.ops.iter().map(|o| (o.a as usize * 65536 + o.b as usize) % n).collect();
        for i in 0..n {
            let e = s.create_entity_with_archetype(&archs[(i / 1000) % 2]);
            *s.get_components_refs_mut::<C0>(e).unwrap() = <C0 as Comp>::make(i as u32);
            if tagged.contains(&i) {
                s.add_tag::<T0>(e);
                want.push(e);
            }
        }
        log.push(format!("{} of them tagged", want.len()));
        let mut q = ComponentReadOnlyQuery::<C0>::new();
        let all: Vec<Entity> = s.component_query_iter(&mut q).with_entities().map(|(e, _)| e).collect();
        let want: Vec<Entity> = all.iter().copied().filter(|e| want.contains(e)).collect();
        let got: Vec<Entity> = s.component_query_iter(&mut q).with_entities().filter_tag::<T0>().map(|(e, _)| e).collect();
        feats.insert("tag filter with and without the tag", 1);
        feats.insert("tag filter over very many entities", 1);
        if got != want {
            return Err(format!("filtering {n} entities by a tag yields {} of {} tagged ones, or not in order", got.len(), want.len()));
        }
        if s.component_query_iter(&mut q).with_entities().filter_tag::<T1>().next().is_some() {
            return Err("a tag nobody has is found".into());
        }
        Ok(())
    })();
    Report { result, feats, log }
}

fn many_types(case: &Case, values: bool) -> Report {
    alloc::reset(false);
    let mut m = many::Many::new(capacity(case.cfg[0]), values, case.cfg[1] % 4 == 3);
    let result = m.run(case);
    Report { result, feats: std::mem::take(&mut m.feats), log: std::mem::take(&mut m.log) }
}

fn simple(case: &Case, f: fn(&Case, &mut BTreeMap<&'static str, u64>, &mut Vec<String>) -> Res) -> Report {
    let (mut feats, mut log) = (BTreeMap::new(), vec![]);
    let result = f(case, &mut feats, &mut log);
    log.truncate(300);
    Report { result, feats, log }
}

/// Other generators for the same property.
pub fn vary(p: &mut Prop, variant: Option<&str>) {
    match variant {
        None => {}
        Some("many") => {
            p.shape.prologue = vec![];
            p.shape.cfg_max = [19, 15, 0, 0, 0, 0, 0, 0];
            p.shape.sizes = vec![(1, 40)];
            p.run = many_untagged;
        }
        // from an empty store, everything else left to chance
        Some("small") => {
            p.shape.prologue = vec![];
            p.shape.sizes = vec![(1, 4), (1, 10)];
        }
        // stores that grow from little, most entities without components
        Some("bare") => {
            let w: &[(u8, u32)] = &[
                (CREATE, 8), (CREATE_WITH, 4), (BULK_ORDER, 3), (ORD_ADD, 1), (Q_ORD, 4), (Q_LIST, 2), (Q_COMP, 1), (Q_TAG, 1), (STALE, 2),
                (TAG, 1), (ADD, 2), (REMOVE, 1), (DESTROY, 1), (BULK_CREATE, 1),
            ];
            p.shape.weights = w.to_vec();
            p.shape.prologue = vec![];
            p.shape.cfg_max = [3, 400, 4, 0, 3, 0, 0, 0];
            p.shape.sizes = vec![(1, 24), (1, 24)];
        }
        // entities with up to dozens of component types
        Some("types") => {
            p.shape = shape(&[(0, 2), (1, 3), (2, 5), (3, 4), (4, 4), (5, 2), (6, 2), (7, 3)], &[(1, 8), (2, 30)], [15, 7, 0, 0, 0, 0, 0, 0]);
            p.rule = &[&["more than 8 types"], &["more than 16 types"]];
            p.run = if p.id == "C02" { |c, _| many_types(c, true) } else { |c, _| many_types(c, false) };
        }
        Some("masses") if p.id == "C16" => {
            p.shape = shape(&[(0, 3), (1, 2), (2, 1), (3, 1), (4, 2)], &[(1, 3), (1, 8)], [15, 40, 3, 3, 1, 400, 0, 0]);
            p.rule = &[&["rounds over many sets", "rounds over thousands of entities"]];
            p.run = |c, _| simple(c, many::rounds);
        }
        // more than 65536 entities
        Some("masses") => {
            p.shape = shape(&[(0, 3), (1, 3), (2, 2)], &[(1, 30)], [12, 40, 3, 3, 0, 0, 0, 0]);
            p.rule = &[&["more than 65536 entities with components"]];
            macro_rules! of { ($($id:literal)*) => { match p.id { $($id => |c: &Case, _| simple(c, |c, f, l| many::masses(c, $id, f, l)),)* _ => unreachable!() } } }
            p.run = of!("C02" "C04" "C06" "C07" "C08" "C15");
        }
        // more than 65536 component sets and pages
        Some("sets") => {
            p.shape = shape(&[(0, 2), (1, 3), (2, 3)], &[(1, 30)], [12, 40, 1, 3, 16, 0, 0, 0]);
            p.rule = &[&["more than 65536 sets and pages"]];
            macro_rules! of { ($($id:literal)*) => { match p.id { $($id => |c: &Case, _| simple(c, |c, f, l| many::sets(c, $id, f, l)),)* _ => unreachable!() } } }
            p.run = of!("C02" "C03" "C04" "C06" "C08");
        }
        // (C19) every run in an own process
        Some("apart") => p.run = |c, v| independent(c, v, true),
        // in a store with very many other entities, archetypes, tags and groups
        Some("crowded") => {
            if p.id == "C19" {
                p.run = |c, v| independent(c, v, true);
            }
            p.shape.cfg_max[6] = CROWDS - 1;
            p.shape.sizes = vec![(1, 30), (1, 60)];
        }
        // ids reused very often
        Some("churn") => {
            p.shape = shape(&[(0, 2), (1, 2), (2, 3)], &[(1, 10)], [40, 0, 0, 0, 0, 0, 0, 0]);
            p.rule = if p.id == "C01" { &[&["id reused more than 65536 times"]] } else { &[&["slot reused more than 65536 times"]] };
            p.run = if p.id == "C01" { |c, _| simple(c, many::churn) } else { |c, _| simple(c, many::churn_resources) };
        }
        Some(v) => panic!("no variant {v}"),
    }
}
