//! C17: generated item definitions with derived traits, decided by the compiler (is the item
//! accepted?) and by running the accepted ones.
use crate::util::{js, Args};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::process::{exit, Command};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Struct,
    Enum,
    Union,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Field {
    ty: usize,
    vis: usize,
    attr: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Item {
    tag: bool,
    kind: Kind,
    fields: Vec<Field>,
    named: bool,
    /// of a struct without fields: `;`, `{}`, `()`
    form: usize,
    name: usize,
    vis: usize,
    attrs: Vec<usize>,
    repr: usize,
    style: usize,
    place: usize,
    bound: bool,
    variants: usize,
}

// (type, value)
const TYPES: &[(&str, &str)] = &[
    ("u8", "7"),
    ("u64", "1 << 40"),
    ("i128", "-5"),
    ("f32", "0.5"),
    ("bool", "true"),
    ("char", "'x'"),
    ("[u8; 7]", "[3; 7]"),
    ("[u64; 0]", "[]"),
    ("()", "()"),
    ("(u8, u32)", "(1, 2)"),
    ("&'static str", "\"text\""),
    ("::core::option::Option<u8>", "::core::option::Option::Some(4)"),
    ("fn(u8) -> u8", "|x| x"),
    ("*const u8", "::core::ptr::null()"),
    ("::core::marker::PhantomData<u16>", "::core::marker::PhantomData"),
    ("::core::option::Option<&'static Self>", "::core::option::Option::None"),
    ("crate::Inner", "crate::Inner { a: 1, b: 2 }"),
    ("[[u16; 3]; 5]", "[[9; 3]; 5]"),
    ("usize", "3"),
    ("(u64, (u8, [crate::Inner; 2]))", "(1, (2, [crate::Inner { a: 3, b: 4 }; 2]))"),
];
const NAMES: &[&str] = &[
    "A", "Position", "r#type", "r#struct", "r#async", "_Hidden", "Ωmega", "été", "lower_case", "SHOUT", "T", "Vec", "Option", "String", "C0",
    "X1_y2", "Store", "Entity", "Default", "r#match", "u8x", "Clone_", "AVeryLongNameThatGoesOnAndOnAndOnForNoReasonWhatsoever",
];
const VIS: &[&str] = &["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate) "];
const ATTRS: &[&str] = &[
    "#[allow(dead_code)]", "/// Documented.", "#[must_use]", "#[cfg(all())]", "#[doc(hidden)]", "#[non_exhaustive]", "#[cfg_attr(all(), allow(unused))]",
    "/** A block\n * of it. */", "#[rustfmt::skip]",
];
const REPR: &[&str] = &["", "#[repr(C)]", "#[repr(align(32))]", "#[repr(packed)]", "#[repr(C, align(4))]", "#[repr(Rust)]"];
const FIELD_ATTRS: &[&str] = &["", "#[allow(unused)] ", "/// A field.\n", "#[cfg(all())] ", "#[doc(hidden)] "];
const STYLES: usize = 6;
const PLACES: usize = 4;

fn strategy() -> impl Strategy<Value = Item> {
    let field = (0..TYPES.len(), 0..VIS.len(), 0..FIELD_ATTRS.len()).prop_map(|(ty, vis, attr)| Field { ty, vis, attr });
    let kind = prop_oneof![6 => Just(Kind::Struct), 1 => Just(Kind::Enum), 1 => Just(Kind::Union)];
    let fields = prop_oneof![
        3 => Just(vec![]),
        3 => prop::collection::vec(field.clone(), 1..=3),
        1 => prop::collection::vec(field, 4..=14),
    ];
    let looks = (0..NAMES.len(), 0..VIS.len(), prop::collection::vec(0..ATTRS.len(), 0..4), 0..REPR.len());
    (any::<bool>(), kind, fields, any::<bool>(), 0..3usize, looks, 0..STYLES, 0..PLACES, any::<bool>(), 0..4usize).prop_map(
        |(tag, kind, fields, named, form, (name, vis, attrs, repr), style, place, bound, variants)| {
            let mut i = Item { tag, kind, fields, named, form, name, vis, attrs, repr, style, place, bound, variants };
            // must_use twice is a warning, a doc comment before #[cfg] is fine
            i.attrs.dedup();
            if i.kind == Kind::Union && i.fields.is_empty() {
                i.fields = vec![Field { ty: 0, vis: 0, attr: 0 }];
            }
            i
        },
    )
}

impl Item {
    fn good(&self) -> bool {
        self.kind == Kind::Struct && self.tag == self.fields.is_empty()
    }
    fn class(&self) -> &'static str {
        match (self.tag, self.kind, self.fields.is_empty()) {
            (true, Kind::Struct, true) => match self.form {
                0 => "Tag on a unit struct",
                1 => "Tag on a struct with empty braces",
                _ => "Tag on a struct with empty parentheses",
            },
            (true, Kind::Struct, false) if self.named => "Tag on a struct with named fields",
            (true, Kind::Struct, false) => "Tag on a tuple struct",
            (true, Kind::Enum, _) => "Tag on an enum",
            (true, Kind::Union, _) => "Tag on a union",
            (false, Kind::Struct, true) => "Component on a struct without fields",
            (false, Kind::Struct, false) if self.named => "Component on a struct with named fields",
            (false, Kind::Struct, false) => "Component on a tuple struct",
            (false, Kind::Enum, _) => "Component on an enum",
            (false, Kind::Union, _) => "Component on a union",
        }
    }
    /// The definition, with the traits derived or (as a control) implemented by hand.
    fn definition(&self, derived: bool) -> String {
        let mut s = String::new();
        let t = if self.tag { "Tag" } else { "Component" };
        let path = if self.style >= 3 { format!("division_ecs::{t}") } else { t.to_string() };
        let with = |d: &str| match (derived, self.style % 3) {
            (false, _) => format!("#[derive({d})]\n"),
            (true, 0) => format!("#[derive({d}, {path})]\n"),
            (true, 1) => format!("#[derive({path})]\n#[derive({d})]\n"),
            _ => format!("#[derive({path}, {d})]\n"),
        };
        let mut attrs = String::new();
        for a in &self.attrs {
            if ATTRS[*a].contains("must_use") && attrs.contains("must_use") || ATTRS[*a].contains("non_exhaustive") && (self.kind == Kind::Union || attrs.contains("non_exhaustive")) {
                continue;
            }
            attrs.push_str(ATTRS[*a]);
            attrs.push('\n');
        }
        if self.style % 2 == 0 {
            s.push_str(&attrs);
        }
        s.push_str(&with("Clone, Copy"));
        if self.style % 2 == 1 {
            s.push_str(&attrs);
        }
        if self.kind != Kind::Enum {
            s.push_str(REPR[self.repr]);
            s.push('\n');
        }
        let name = NAMES[self.name];
        s.push_str(VIS[self.vis]);
        let field = |n: usize, f: &Field, named: bool, vis: bool| {
            let v = if vis { VIS[f.vis] } else { "" };
            let ty = TYPES[f.ty].0;
            format!("{}{v}{}{ty}, ", FIELD_ATTRS[f.attr], if named { format!("{}: ", field_name(n)) } else { String::new() })
        };
        let bound = if self.bound && self.kind != Kind::Enum { " where u8: ::core::marker::Copy" } else { "" };
        let all = |named: bool, vis: bool| self.fields.iter().enumerate().map(|(n, f)| field(n, f, named, vis)).collect::<String>();
        match self.kind {
            Kind::Struct if self.fields.is_empty() => match self.form {
                0 => write!(s, "struct {name}{bound};").unwrap(),
                1 => write!(s, "struct {name}{bound} {{}}").unwrap(),
                _ => write!(s, "struct {name}(){bound};").unwrap(),
            },
            Kind::Struct if self.named => write!(s, "struct {name}{bound} {{ {} }}", all(true, true)).unwrap(),
            Kind::Struct => write!(s, "struct {name}({}){bound};", all(false, true)).unwrap(),
            Kind::Union => write!(s, "union {name}{bound} {{ {} }}", all(true, true)).unwrap(),
            Kind::Enum => {
                write!(s, "enum {name} {{").unwrap();
                for v in 0..self.variants {
                    match (v, self.fields.is_empty()) {
                        (0, false) if self.named => write!(s, "V0 {{ {} }}, ", all(true, false)).unwrap(),
                        (0, false) => write!(s, "V0({}), ", all(false, false)).unwrap(),
                        _ => write!(s, "V{v}, ").unwrap(),
                    }
                }
                s.push('}');
            }
        }
        s.push('\n');
        if !derived {
            write!(s, "impl division_ecs::{t} for {name} {{}}\n").unwrap();
        }
        s
    }
    fn value(&self) -> String {
        let name = NAMES[self.name];
        if self.fields.is_empty() {
            return match self.form {
                0 => name.into(),
                1 => format!("{name} {{}}"),
                _ => format!("{name}()"),
            };
        }
        let v: Vec<String> = self
            .fields
            .iter()
            .enumerate()
            .map(|(n, f)| if self.named { format!("{}: {}", field_name(n), TYPES[f.ty].1) } else { TYPES[f.ty].1.to_string() })
            .collect();
        if self.named {
            format!("{name} {{ {} }}", v.join(", "))
        } else {
            format!("{name}({})", v.join(", "))
        }
    }
    /// The item in a module of its own; with a function `go` that uses it.
    fn module(&self, n: usize, derived: bool, used: bool) -> String {
        let d = self.definition(derived);
        let name = NAMES[self.name];
        let go = match (used, self.tag) {
            (false, _) => String::new(),
            (true, false) => format!(
                "crate::component::<{name}>(|| {}); <{name} as crate::NotTag<_>>::f();",
                self.value()
            ),
            (true, true) => format!("crate::tag::<{name}>(); let _ = || {}; <{name} as crate::NotComponent<_>>::f();", self.value()),
        };
        let uses = "#[allow(unused_imports)] use division_ecs::{Component, Tag};";
        match self.place {
            0 => format!("mod m{n} {{ {uses}\n{d}\npub fn go() {{ {go} }} }}\n"),
            1 => format!("mod m{n} {{ {uses}\npub fn go() {{\n{d}\n{go} }} }}\n"),
            2 => format!("mod m{n} {{ mod inner {{ {uses}\n{d}\npub fn go() {{ {go} }} }} pub use inner::go; }}\n"),
            _ => format!("mod m{n} {{ {uses}\npub fn go() {{ let _c = || {{\n{d}\n{go} }}; _c() }} }}\n"),
        }
    }
}

fn field_name(n: usize) -> String {
    ["x", "r#fn", "_pad", "value", "ünï", "self_"].get(n).map(|s| s.to_string()).unwrap_or(format!("f{n}"))
}

const HEAD: &str = r#"#![allow(warnings)]
use division_ecs::*;
#[derive(Clone, Copy)] pub struct Inner { pub a: u8, pub b: u32 }
pub trait NotTag<A> { fn f() {} }
impl<T> NotTag<()> for T {}
impl<T: Tag> NotTag<u8> for T {}
pub trait NotComponent<A> { fn f() {} }
impl<T> NotComponent<()> for T {}
impl<T: Component> NotComponent<u8> for T {}
fn component<T: Component + 'static>(v: impl Fn() -> T) {
    let mut s = Store::new();
    let a = Archetype::with_components::<T>();
    assert!(a.has_component::<T>() && a.component_count() == 1);
    let e = s.create_entity();
    s.add_components(e, v());
    assert!(s.get_components_refs::<T>(e).is_some(), "not accessible after it was added");
    let p = s.get_components_refs_mut::<T>(e).unwrap() as *mut T as usize;
    assert_eq!(p % std::mem::align_of::<T>(), 0, "misaligned");
    let f = s.create_entity_with_archetype(&a);
    assert!(s.get_components_refs_mut::<T>(f).is_some());
    *s.get_components_refs_mut::<T>(f).unwrap() = v();
    let mut q = ComponentReadOnlyQuery::<T>::new();
    assert_eq!(s.component_query_iter(&mut q).count(), 2);
    s.remove_components::<T>(e);
    assert!(s.get_components_refs::<T>(e).is_none(), "still there after it was removed");
    assert_eq!(s.component_query_iter(&mut q).count(), 1);
}
fn tag<T: Tag>() {
    let mut s = Store::new();
    let (e, f) = (s.create_entity(), s.create_entity());
    s.add_tag::<T>(e);
    assert!(s.has_tag::<T>(e) && !s.has_tag::<T>(f));
    s.add_entity_order_by::<T>(f);
    assert!(s.get_first_entity_ordered_by::<T>() == Some(f));
    s.remove_tag::<T>(e);
    assert!(!s.has_tag::<T>(e));
}
"#;

struct Compiler {
    ext: String,
    deps: String,
    dir: String,
}
struct Compiled {
    ok: bool,
    /// item -> what the compiler says
    errors: BTreeMap<usize, String>,
    other: String,
}
impl Compiler {
    /// Compiles these items (and `main`, which uses them, if linked).
    fn compile(&self, tag: &str, items: &[(usize, &Item)], derived: bool, used: &dyn Fn(usize) -> bool, link: bool) -> Compiled {
        let mut src = String::from(HEAD);
        let mut lines: Vec<(usize, usize)> = vec![];
        for (n, i) in items {
            lines.push((src.lines().count() + 1, *n));
            src.push_str(&i.module(*n, derived, used(*n)));
        }
        lines.push((src.lines().count() + 1, usize::MAX));
        src.push_str("fn main() {\n");
        for (n, _) in items {
            if used(*n) {
                writeln!(src, "println!(\"item {n}\"); m{n}::go();").unwrap();
            }
        }
        src.push_str("}\n");
        let f = format!("{}/{tag}.rs", self.dir);
        std::fs::write(&f, &src).unwrap();
        let out = Command::new("rustc")
            .args(["--edition", "2021", "--error-format", "short", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "codegen-units=4"])
            .args(["--crate-name", "items", "--crate-type", "bin"])
            .args(if link { ["--emit", "link"] } else { ["--emit", "metadata"] })
            .args(["--extern", &format!("division_ecs={}", self.ext), "-L", &format!("dependency={}", self.deps)])
            .args(["-o", &format!("{}/{tag}.{}", self.dir, if link { "bin" } else { "meta" }), &f])
            .output()
            .expect("rustc");
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let mut errors = BTreeMap::new();
        let mut other = String::new();
        for l in err.lines() {
            let at = l.strip_prefix(&f).and_then(|r| r.strip_prefix(':')).and_then(|r| r.split(':').next()).and_then(|n| n.parse::<usize>().ok());
            let Some(at) = at else {
                if l.starts_with("error") && !l.starts_with("error: aborting") {
                    other.push_str(l);
                }
                continue;
            };
            if !l.contains(": error") {
                continue;
            }
            let k = lines.partition_point(|x| x.0 <= at);
            if k == 0 || lines[k - 1].1 == usize::MAX {
                other.push_str(l);
            } else {
                errors.entry(lines[k - 1].1).or_insert_with(|| l[f.len() + 1..].to_string());
            }
        }
        Compiled { ok: out.status.success(), errors, other }
    }
    /// None: everything is as it should be; otherwise the first item that is not and why.
    fn decide(&self, tag: &str, items: &[(usize, &Item)]) -> Result<Option<(usize, String)>, String> {
        let find = |n: usize| items.iter().find(|i| i.0 == n).unwrap().1;
        let mut left: Vec<(usize, &Item)> = items.to_vec();
        for round in 0..4 {
            // a refused item is all it takes for the compiler to stop before checking the others
            let link = round > 0;
            let c = self.compile(tag, &left, true, &|n| find(n).good(), link);
            if !c.other.is_empty() || (!c.ok && c.errors.is_empty()) {
                return Err(format!("rustc failed outside of the items: {}", c.other));
            }
            if let Some((n, m)) = c.errors.iter().find(|(n, _)| find(**n).good()) {
                return Ok(Some((*n, format!("is refused by the compiler: {m}"))));
            }
            left.retain(|(n, _)| !c.errors.contains_key(n));
            if c.ok && link {
                if let Some((n, _)) = left.iter().find(|(_, i)| !i.good()) {
                    return Ok(Some((*n, "is accepted".into())));
                }
                let out = Command::new(format!("{}/{tag}.bin", self.dir)).output().map_err(|e| e.to_string())?;
                if !out.status.success() {
                    let so = String::from_utf8_lossy(&out.stdout).to_string();
                    let n = so.lines().rev().find_map(|l| l.strip_prefix("item ")).and_then(|x| x.parse().ok());
                    let se = String::from_utf8_lossy(&out.stderr).replace('\n', " ");
                    return match n {
                        Some(n) => Ok(Some((n, format!("cannot be used with a store: {se}")))),
                        None => Err(format!("the compiled items do not run: {se}")),
                    };
                }
                return Ok(None);
            }
        }
        Err("the compiler keeps refusing more items".into())
    }
}

fn tree(seed: u64, i: u64) -> impl ValueTree<Value = Item> {
    let mut s = [0u8; 32];
    for (j, ch) in s.chunks_mut(8).enumerate() {
        ch.copy_from_slice(&crate::util::mix(seed ^ crate::util::mix(0xC17 ^ crate::util::mix(i * 4 + j as u64))).to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    strategy().new_tree(&mut r).unwrap()
}

fn label(i: &Item) -> &'static str {
    if i.tag {
        "Tag"
    } else {
        "Component"
    }
}

pub fn main(a: &Args) {
    let start = Instant::now();
    let (seed, cases, jobs) = (a.num("--seed", 1), a.num("--cases", 1000), a.num("--jobs", 8));
    let dir = a.str("--dir").to_string();
    std::fs::create_dir_all(&dir).unwrap();
    let c = Compiler { ext: a.str("--ext").into(), deps: a.str("--deps").into(), dir };
    let batch = 150;
    let batches: Vec<(u64, u64)> = (0..cases).step_by(batch).map(|f| (f, (f + batch as u64).min(cases))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for w in 0..jobs {
            let (c, batches, next, found) = (&c, &batches, &next, &found);
            s.spawn(move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= batches.len() || !found.lock().unwrap().is_empty() {
                    return;
                }
                let items: Vec<(usize, Item)> = (batches[k].0..batches[k].1).map(|i| (i as usize, tree(seed, i).current())).collect();
                let refs: Vec<(usize, &Item)> = items.iter().map(|(n, i)| (*n, i)).collect();
                match c.decide(&format!("w{w}"), &refs) {
                    Ok(None) => {}
                    Ok(Some((n, m))) => {
                        found.lock().unwrap().insert(n, Ok(m));
                    }
                    Err(m) => {
                        found.lock().unwrap().insert(usize::MAX, Err::<String, String>(m));
                    }
                }
            });
        }
    });
    let found = found.into_inner().unwrap();
    if let Some((n, r)) = found.iter().next() {
        let message = match r {
            Ok(m) => m.clone(),
            Err(m) => {
                eprintln!("ERROR: {m}");
                exit(2)
            }
        };
        let mut message = message;
        // alone, then smaller
        let mut t = tree(seed, *n as u64);
        let fails = |i: &Item| c.decide("try", &[(0, i)]).ok().flatten().map(|x| x.1);
        let mut best = t.current();
        if let Some(m) = fails(&best) {
            message = m;
            let mut tries = 0;
            let mut more = t.simplify();
            while more && tries < 150 {
                tries += 1;
                match fails(&t.current()) {
                    Some(m) => {
                        message = m;
                        best = t.current();
                        more = t.simplify();
                    }
                    None => more = t.complicate(),
                }
            }
        }
        // would the item be fine with the trait implemented by hand (or not at all)?
        if best.good() {
            let k = c.compile("control", &[(0, &best)], false, &|_| true, false);
            if !k.ok {
                eprintln!("ERROR: the generated item is wrong by itself: {:?} {}\n{}", k.errors, k.other, best.definition(false));
                exit(2)
            }
        }
        let text = best.definition(true);
        let what = format!("{} ({}) {}", label(&best), best.class(), message);
        std::fs::write(
            a.str("--replay"),
            format!("// C17 violated, seed {seed}, item {n}: deriving {what}\n// should be {}\n{text}", if best.good() { "accepted" } else { "refused" }),
        )
        .unwrap();
        println!("item {n}: deriving {what}\n{text}");
        exit(10)
    }
    let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut seen = BTreeSet::new();
    let mut samples = vec![];
    for i in 0..cases {
        let it = tree(seed, i).current();
        *classes.entry(it.class()).or_insert(0) += 1;
        if seen.insert(it.class()) && samples.len() < 12 {
            samples.push(format!("{{\"item\":{i},\"class\":{},\"expected\":{},\"text\":{}}}", js(it.class()), js(if it.good() { "accepted" } else { "refused" }), js(&it.definition(true))));
        }
        distinct.insert(it.definition(true));
    }
    let ev: Vec<String> = classes.iter().map(|(k, n)| format!("{}:{{\"cases\":{n}}}", js(k))).collect();
    let json = format!(
        "{{\"evaluations\":{cases},\"nontrivial\":{cases},\"distinct_nontrivial\":{},\"rule\":{},\"events\":{{{}}},\"samples\":[{}],\"wall_s\":{:.1}}}",
        distinct.len(),
        js("every item definition counts; distinct by its text"),
        ev.join(","),
        samples.join(","),
        start.elapsed().as_secs_f64()
    );
    std::fs::write(a.str("--out"), json).unwrap();
    exit(0)
}
