//! Running cases: worker processes over a range of generated cases, replays, shrinking.
use crate::case::{Case, Gen, Op};
use crate::props::{props, Prop, Report};
use crate::util::{js, Args};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Child, Command, ExitStatus, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HELD: i32 = 0;
const ERROR: i32 = 2;
const VIOLATED: i32 = 10;

pub static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

enum Outcome {
    Held(Report),
    Violated(Report),
    Broken(String),
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if crate::EXPECT_PANIC.with(|x| x.get()) {
            return;
        }
        let _off = crate::alloc::Tracked::off();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap() = Some((l, m));
    }));
}

/// One case, in a thread of its own with a stack of the usual size.
fn one(p: &Prop, case: &Case, verbose: bool) -> Outcome {
    *PANIC.lock().unwrap() = None;
    let f = p.run;
    let t = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(|| f(case, verbose))))
            .unwrap()
            .join()
    });
    crate::alloc::quiesce();
    match t {
        Ok(Ok(r)) if r.result.is_ok() => Outcome::Held(r),
        Ok(Ok(r)) => Outcome::Violated(r),
        _ => {
            let (l, m) = PANIC.lock().unwrap().take().unwrap_or_default();
            let r = |result| Report { result, feats: BTreeMap::new(), log: vec![] };
            if l.starts_with("src/") {
                Outcome::Broken(format!("the harness panicked at {l}: {m}"))
            } else if p.panics {
                Outcome::Violated(r(Err(format!("panic at {l}: {m}"))))
            } else {
                Outcome::Held(r(Ok(())))
            }
        }
    }
}

fn nontrivial(p: &Prop, r: &Report) -> bool {
    p.rule.iter().all(|g| g.iter().any(|f| r.feats.contains_key(f)))
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

pub fn find(id: &str, variant: Option<&str>) -> Prop {
    let mut p = props().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    crate::props::vary(&mut p, variant);
    p
}

pub fn main() {
    let a = Args::new();
    match a.command() {
        Some("worker") => worker(&a),
        Some("exec") => exec(&a),
        Some("gen") => gen(&a),
        Some("run") => supervise(&a),
        Some("list") => props().iter().for_each(|p| println!("{} {:?}", p.id, p.rule)),
        _ => {
            eprintln!("usage: pbt run|exec|gen|list ...");
            exit(ERROR)
        }
    }
}

fn generator(a: &Args) -> (Prop, Gen) {
    let p = find(a.str("--prop"), a.get("--variant"));
    let salt = format!("{}{}", p.id, a.get("--variant").unwrap_or(""));
    let g = Gen::new(&p.shape, a.num("--seed", 1), &salt);
    (p, g)
}

/// Prints cases from the generator (to be run under Miri, say).
fn gen(a: &Args) {
    let (_, g) = generator(a);
    let ops = a.num("--ops", u64::MAX) as usize;
    for i in a.num("--from", 0)..a.num("--to", 10) {
        let mut c = g.case(i);
        c.ops.truncate(ops);
        print!("{}", c.text());
    }
}

/// Runs the cases of a file (a replay), or a range of generated ones; says what happens.
fn exec(a: &Args) {
    hook();
    let t = std::fs::read_to_string(a.str("--file")).expect("replay file");
    let head = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let id = a.get("--prop").map(|s| s.to_string()).or(head("property")).expect("property");
    let p = find(&id, a.get("--variant").map(|s| s.to_string()).or(head("variant")).as_deref());
    let silent = a.get("--silent").is_some();
    let cases: Vec<Case> = match head("range") {
        Some(r) => {
            let n: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let salt = format!("{}{}", p.id, head("variant").unwrap_or_default());
            let g = Gen::new(&p.shape, n[0], &salt);
            (n[1]..=n[2]).step_by(n[3] as usize).map(|i| g.case(i)).collect()
        }
        None => Case::parse_all(&t),
    };
    let single = cases.len() == 1;
    for (i, c) in cases.iter().enumerate() {
        if cfg!(miri) && !silent {
            eprintln!("case {i}");
        }
        match one(&p, c, single) {
            Outcome::Held(r) => {
                if !silent && single {
                    r.log.iter().for_each(|l| println!("  {l}"));
                    println!("held");
                }
            }
            Outcome::Violated(r) => {
                if !silent {
                    r.log.iter().for_each(|l| println!("  {l}"));
                    println!("case {i} violates {id}: {}", r.result.unwrap_err());
                }
                exit(VIOLATED)
            }
            Outcome::Broken(m) => {
                eprintln!("case {i}: {m}");
                exit(ERROR)
            }
        }
    }
    exit(HELD)
}

/// Cases from, from + step, ... below to; the files tell the supervisor how far it got.
fn worker(a: &Args) {
    hook();
    let (p, g) = generator(a);
    let (from, to, step) = (a.num("--from", 0), a.num("--to", 1), a.num("--step", 1));
    let base = a.str("--files").to_string();
    let status = std::fs::File::create(format!("{base}.status")).unwrap();
    let mut feats: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut done = 0u64;
    let (mut ops, mut panicked) = (0u64, 0u64);
    let mut i = from;
    while i < to {
        std::os::unix::fs::FileExt::write_at(&status, &i.to_le_bytes(), 0).unwrap();
        let c = g.case(i);
        match one(&p, &c, false) {
            Outcome::Held(r) => {
                done += 1;
                ops += c.ops.len() as u64;
                if PANIC.lock().unwrap().is_some() {
                    panicked += 1;
                }
                for (f, n) in &r.feats {
                    let e = feats.entry(f).or_insert((0, 0));
                    e.0 += 1;
                    e.1 += n;
                }
                if nontrivial(&p, &r) {
                    hashes.push(c.hash64());
                    if from == 0 && samples.len() < 3 && c.ops.len() < 40 {
                        if let Outcome::Held(r) = one(&p, &c, true) {
                            let mut l = r.log;
                            let n = l.len();
                            l.truncate(30);
                            if n > 30 {
                                l.push(format!("... {} more", n - 30));
                            }
                            samples.push(format!("{{\"case\":{i},\"generated\":{},\"ran\":{}}}", js(&c.text()), jlist(&l)));
                        }
                    }
                }
            }
            Outcome::Violated(r) => {
                std::fs::write(format!("{base}.fail"), format!("{i}\n{}", r.result.unwrap_err())).unwrap();
                exit(VIOLATED)
            }
            Outcome::Broken(m) => {
                std::fs::write(format!("{base}.fail"), format!("{i}\n{m}")).unwrap();
                exit(ERROR)
            }
        }
        i += step;
    }
    let mut out = std::fs::File::create(format!("{base}.stats")).unwrap();
    let mut t = format!("done {done}\nops {ops}\npanicked {panicked}\n");
    for (f, (n, m)) in &feats {
        t.push_str(&format!("feat {n} {m} {f}\n"));
    }
    for s in &samples {
        t.push_str(&format!("sample {s}\n"));
    }
    for h in &hashes {
        t.push_str(&format!("hash {h}\n"));
    }
    out.write_all(t.as_bytes()).unwrap();
    exit(HELD)
}

fn crash_name(s: &ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(11) => Some("SIGSEGV".into()),
        Some(6) => Some("SIGABRT".into()),
        Some(7) => Some("SIGBUS".into()),
        Some(4) => Some("SIGILL".into()),
        Some(5) => Some("SIGTRAP".into()),
        Some(8) => Some("SIGFPE".into()),
        _ => None,
    }
}

struct Replayer {
    id: String,
    variant: Option<String>,
    dir: String,
    n: usize,
    asan: bool,
}
impl Replayer {
    fn text(&self, case: &Case) -> String {
        let mut t = format!("property {}\n", self.id);
        if let Some(v) = &self.variant {
            t.push_str(&format!("variant {v}\n"));
        }
        t + &case.text()
    }
    /// None: held; Some: how it failed
    fn fails(&mut self, text: &str, secs: u64) -> Option<String> {
        self.n += 1;
        let f = format!("{}/try.case", self.dir);
        std::fs::write(&f, text).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["exec", "--file", &f])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        // the output is small; read it in a thread so that the pipe cannot fill up
        let mut so = c.stdout.take().unwrap();
        let mut se = c.stderr.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut so, &mut s);
            s
        });
        let re = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = std::io::Read::read_to_end(&mut se, &mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let st = wait_for(&mut c, Duration::from_secs(secs));
        let out = rd.join().unwrap();
        let err = re.join().unwrap();
        let st = st?;
        if st.code() == Some(VIOLATED) {
            return Some(out.lines().rev().find_map(|l| l.split_once(" violates ").and_then(|x| x.1.split_once(": ")).map(|x| x.1.to_string())).unwrap_or_default());
        }
        if self.asan && st.code() == Some(1) && err.contains("AddressSanitizer") {
            return Some(err.lines().find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or("AddressSanitizer").to_string());
        }
        crash_name(&st).map(|s| {
            let why = err.lines().find(|l| !l.trim().is_empty() && !l.starts_with("case")).unwrap_or("");
            format!("the process dies of {s} {why}")
        })
    }
}

fn wait_for(c: &mut Child, d: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    let mut nap = 500;
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    }
}

/// A smaller case that still fails.
fn shrink(r: &mut Replayer, case: Case) -> Case {
    let start = Instant::now();
    let mut best = case;
    let mut tries = 0;
    let mut attempt = |best: &mut Case, c: Case, tries: &mut usize| -> bool {
        *tries += 1;
        if *tries > 4000 || start.elapsed() > Duration::from_secs(90) || c == *best {
            return false;
        }
        let t = r.text(&c);
        if r.fails(&t, 10).is_some() {
            *best = c;
            true
        } else {
            false
        }
    };
    // operations
    let mut size = (best.ops.len() / 2).max(1);
    loop {
        let mut k = 0;
        let mut any = false;
        while k < best.ops.len() {
            let mut c = best.clone();
            let e = (k + size).min(c.ops.len());
            c.ops.drain(k..e);
            if attempt(&mut best, c, &mut tries) {
                any = true;
            } else {
                k += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        size = if any && size == 1 { 1 } else { (size / 2).max(1) };
    }
    // configuration
    for k in 0..best.cfg.len() {
        for v in [0, 1, best.cfg[k] / 2] {
            if v < best.cfg[k] {
                let mut c = best.clone();
                c.cfg[k] = v;
                if attempt(&mut best, c, &mut tries) {
                    break;
                }
            }
        }
    }
    // arguments
    for k in 0..best.ops.len() {
        for f in 0..3 {
            let get = |o: &Op| [o.a, o.b, o.c][f];
            for v in [0, 1, 2, 3, get(&best.ops[k]) % 8, get(&best.ops[k]) % 64, get(&best.ops[k]) / 2] {
                if v < get(&best.ops[k]) {
                    let mut c = best.clone();
                    match f {
                        0 => c.ops[k].a = v,
                        1 => c.ops[k].b = v,
                        _ => c.ops[k].c = v,
                    }
                    if attempt(&mut best, c, &mut tries) {
                        break;
                    }
                }
            }
        }
    }
    best
}

fn supervise(a: &Args) {
    let start = Instant::now();
    let (p, g) = generator(a);
    let (seed, cases, jobs) = (a.num("--seed", 1), a.num("--cases", 1000), a.num("--jobs", 8));
    let dir = a.str("--dir").to_string();
    let replay = a.str("--replay").to_string();
    std::fs::create_dir_all(&dir).unwrap();
    let asan = a.get("--asan").is_some();
    let stall = Duration::from_secs(a.num("--stall", 150));
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Child, u64, Instant, bool)> = vec![];
    for w in 0..jobs {
        let base = format!("{dir}/w{w}");
        for e in ["status", "stats", "fail", "err"] {
            let _ = std::fs::remove_file(format!("{base}.{e}"));
        }
        let mut c = Command::new(&exe);
        c.args(["worker", "--prop", p.id, "--seed", &seed.to_string(), "--from", &w.to_string(), "--to", &cases.to_string()])
            .args(["--step", &jobs.to_string(), "--files", &base]);
        if let Some(v) = a.get("--variant") {
            c.args(["--variant", v]);
        }
        c.stderr(std::fs::File::create(format!("{base}.err")).unwrap());
        kids.push((w, c.spawn().expect("worker"), u64::MAX, Instant::now(), false));
    }
    let read_status = |w: u64| -> u64 {
        std::fs::read(format!("{dir}/w{w}.status")).ok().and_then(|b| b.try_into().ok().map(u64::from_le_bytes)).unwrap_or(u64::MAX)
    };
    let mut failure: Option<(u64, u64, ExitStatus)> = None;
    let mut error: Option<String> = None;
    while failure.is_none() && error.is_none() && kids.iter().any(|k| !k.4) {
        std::thread::sleep(Duration::from_millis(10));
        for k in kids.iter_mut().filter(|k| !k.4) {
            if let Some(st) = k.1.try_wait().unwrap() {
                k.4 = true;
                if st.code() == Some(HELD) {
                    continue;
                }
                if failure.is_none() {
                    failure = Some((k.0, read_status(k.0), st));
                }
            } else {
                let s = read_status(k.0);
                if s != k.2 {
                    k.2 = s;
                    k.3 = Instant::now();
                } else if k.3.elapsed() > stall {
                    error = Some(format!("case {s} (seed {seed}) makes no progress for {} s", stall.as_secs()));
                }
            }
        }
    }
    for k in kids.iter_mut() {
        if !k.4 {
            let _ = k.1.kill();
            let _ = k.1.wait();
        }
    }
    if let Some(m) = error {
        eprintln!("ERROR: {m}");
        exit(ERROR)
    }
    if let Some((w, case, st)) = failure {
        let note = std::fs::read_to_string(format!("{dir}/w{w}.fail")).unwrap_or_default();
        let note = note.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default();
        if st.code() == Some(ERROR) {
            eprintln!("ERROR: case {case} (seed {seed}): {note}");
            exit(ERROR)
        }
        let mut r = Replayer { id: p.id.into(), variant: a.get("--variant").map(|s| s.into()), dir: dir.clone(), n: 0, asan };
        let first = g.case(case);
        let text = r.text(&first);
        let message;
        let head = format!("# {} violated, seed {seed}, case {case}", p.id);
        if r.fails(&text, 120).is_some() {
            let small = shrink(&mut r, first);
            let text = r.text(&small);
            message = r.fails(&text, 120).unwrap_or(note);
            std::fs::write(&replay, format!("{head}\n# {}\n{text}", message.replace('\n', " "))).unwrap();
        } else {
            // depends on what ran before it in the same process
            let from = case % jobs;
            let mut text = format!("property {}\n", p.id);
            if let Some(v) = a.get("--variant") {
                text.push_str(&format!("variant {v}\n"));
            }
            let mut found = None;
            for back in [8, 64, 512, u64::MAX] {
                let f = if back == u64::MAX || case < from + back * jobs { from } else { case - back * jobs };
                let t = format!("{text}range {seed} {f} {case} {jobs}\n");
                if let Some(m) = r.fails(&t, 300) {
                    found = Some((m, t));
                    break;
                }
                if f == from {
                    break;
                }
            }
            match found {
                Some((m, t)) => {
                    std::fs::write(&replay, format!("{head}, only after the cases before it\n# {m}\n{t}")).unwrap();
                    message = m;
                }
                None if st.code() == Some(VIOLATED) => {
                    // the oracle did see it; memory contents decide whether it comes again
                    std::fs::write(&replay, format!("{head}, seen once, not again when rerun\n# {note}\n{text}{}", g.case(case).text())).unwrap();
                    message = note;
                }
                None => {
                    let err = std::fs::read_to_string(format!("{dir}/w{w}.err")).unwrap_or_default();
                    eprintln!("ERROR: a worker ended with {st:?} at case {case} (seed {seed}), which does not happen again: {err}");
                    exit(ERROR)
                }
            }
        }
        println!("case {case}: {message}");
        println!("replay {replay} ({} replays to shrink)", r.n);
        exit(VIOLATED)
    }
    // everything held
    let (mut done, mut ops, mut panicked) = (0u64, 0u64, 0u64);
    let mut feats: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut samples = vec![];
    for w in 0..jobs {
        let t = std::fs::read_to_string(format!("{dir}/w{w}.stats")).expect("worker statistics");
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "done" => done += v.parse::<u64>().unwrap(),
                "ops" => ops += v.parse::<u64>().unwrap(),
                "panicked" => panicked += v.parse::<u64>().unwrap(),
                "hash" => {
                    nontrivial += 1;
                    hashes.insert(v.parse().unwrap());
                }
                "sample" => samples.push(v.to_string()),
                _ => {
                    let mut w = v.splitn(3, ' ');
                    let (n, m) = (w.next().unwrap().parse::<u64>().unwrap(), w.next().unwrap().parse::<u64>().unwrap());
                    let e = feats.entry(w.next().unwrap().to_string()).or_insert((0, 0));
                    e.0 += n;
                    e.1 += m;
                }
            }
        }
    }
    assert_eq!(done, cases);
    let rule: Vec<String> = p.rule.iter().map(|g| g.iter().map(|f| format!("\"{f}\"")).collect::<Vec<_>>().join(" or ")).collect();
    let f: Vec<String> = feats.iter().map(|(k, (n, m))| format!("{}:{{\"cases\":{n},\"times\":{m}}}", js(k))).collect();
    let json = format!(
        "{{\"evaluations\":{done},\"operations\":{ops},\"nontrivial\":{nontrivial},\"distinct_nontrivial\":{},\"ended_by_library_panic\":{panicked},\"rule\":{},\"events\":{{{}}},\"samples\":[{}],\"wall_s\":{:.1}}}",
        hashes.len(),
        js(&rule.join(" and ")),
        f.join(","),
        samples.join(","),
        start.elapsed().as_secs_f64()
    );
    std::fs::write(a.str("--out"), json).unwrap();
    if let Some(f) = a.get("--hashes") {
        let b: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(f, b).unwrap();
    }
    exit(HELD)
}
