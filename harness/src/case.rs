//! A case: a few configuration numbers and a sequence of operations. Generated with
//! proptest strategies, written to and read from a line-based text form for replays.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<Op>,
}

pub const NCFG: usize = 8;

impl Case {
    pub fn text(&self) -> String {
        let mut s = String::from("cfg");
        for c in &self.cfg {
            write!(s, " {c}").unwrap();
        }
        s.push('\n');
        for o in &self.ops {
            writeln!(s, "op {} {} {} {}", o.k, o.a, o.b, o.c).unwrap();
        }
        s
    }
    /// Parses the cases in a text (there may be several, each starting with its cfg line).
    pub fn parse_all(t: &str) -> Vec<Case> {
        let mut v: Vec<Case> = Vec::new();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let nums = || w[1..].iter().map(|x| x.parse::<u32>().unwrap()).collect::<Vec<_>>();
            match w.first() {
                Some(&"cfg") => v.push(Case { cfg: nums(), ops: vec![] }),
                Some(&"op") => {
                    let n = nums();
                    v.last_mut().unwrap().ops.push(Op { k: n[0] as u8, a: n[1], b: n[2], c: n[3] });
                }
                _ => {}
            }
        }
        v
    }
    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |x: u32| {
            h = crate::comps::mix(h ^ x as u64);
        };
        self.cfg.iter().for_each(|c| add(*c));
        for o in &self.ops {
            add(o.k as u32 + 1000);
            add(o.a);
            add(o.b);
            add(o.c);
        }
        h
    }
}

/// What a property wants generated.
#[derive(Clone)]
pub struct Shape {
    /// (operation kind, weight)
    pub weights: Vec<(u8, u32)>,
    /// operations that two thirds of the cases start with some of
    pub prologue: Vec<(u8, u32)>,
    /// (weight, most operations, classes of cfg[0..]): sizes of cases
    pub sizes: Vec<(u32, usize)>,
    pub cfg_max: [u32; NCFG],
}

fn strategy(shape: &Shape) -> BoxedStrategy<Case> {
    let op = |weights: &[(u8, u32)]| {
        let table: Vec<u8> = weights.iter().flat_map(|(k, w)| std::iter::repeat(*k).take(*w as usize)).collect();
        (prop::sample::select(table), any::<u16>(), any::<u16>(), any::<u16>())
            .prop_map(|(k, a, b, c)| Op { k, a: a as u32, b: b as u32, c: c as u32 })
            .boxed()
    };
    let prologue = if shape.prologue.is_empty() {
        Just(vec![]).boxed()
    } else {
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(op(&shape.prologue), 2..=8)].boxed()
    };
    let op = op(&shape.weights);
    let sizes: Vec<(u32, BoxedStrategy<Vec<Op>>)> =
        shape.sizes.iter().map(|(w, n)| (*w, prop::collection::vec(op.clone(), 1..=*n).boxed())).collect();
    let cfg: Vec<_> = shape.cfg_max.iter().map(|m| 0..=*m).collect();
    (cfg, prologue, prop::strategy::Union::new_weighted(sizes))
        .prop_map(|(cfg, mut ops, rest)| {
            ops.extend(rest);
            Case { cfg, ops }
        })
        .boxed()
}

pub struct Gen {
    strategy: BoxedStrategy<Case>,
    seed: u64,
    salt: u64,
}
impl Gen {
    pub fn new(shape: &Shape, seed: u64, salt: &str) -> Gen {
        let salt = salt.bytes().fold(7u64, |h, b| crate::comps::mix(h ^ b as u64));
        Gen { strategy: strategy(shape), seed, salt }
    }
    /// Case number `i`: a pure function of the seed, the property and i.
    pub fn case(&self, i: u64) -> Case {
        let mut s = [0u8; 32];
        for (j, ch) in s.chunks_mut(8).enumerate() {
            ch.copy_from_slice(&crate::comps::mix(self.seed ^ crate::comps::mix(self.salt ^ crate::comps::mix(i * 4 + j as u64))).to_le_bytes());
        }
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
        self.strategy.new_tree(&mut r).unwrap().current()
    }
}
