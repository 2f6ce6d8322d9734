//! Crossing, mutation, creation, inertia, position and velocity corrections: operators with random draws are
//! enumerated completely and their exact outcome distribution is compared with the specified one.

use super::Prop;
use crate::engine::*;
use crate::util::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::{Creator, Cross, Mutation};
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::{ConstInertia, Inertia, LinearInertia};
use optlib::particleswarm::{CoordinatesInitializer, PostMove, PostVelocityCalc, VelocityInitializer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

fn mids(n: usize) -> Vec<f64> {
    (0..n).map(|i| (i as f64 + 0.5) / n as f64).collect()
}

/// Complete enumeration of integer draws up to `full`; floats in `n` strata.
fn policy(full: u64, n: usize) -> Policy {
    Policy { int_full: full, int_sparse: 5, floats: mids(n), fixed: 0 }
}

fn dist<K: Ord>(v: Vec<(K, f64)>) -> BTreeMap<K, f64> {
    let mut m = BTreeMap::new();
    for (k, w) in v {
        *m.entry(k).or_insert(0.0) += w;
    }
    m
}

fn same_dist<K: Ord + Debug>(have: &BTreeMap<K, f64>, want: &BTreeMap<K, f64>, key: &str, what: &str) {
    for (k, w) in have {
        let x = want.get(k).copied().unwrap_or(0.0);
        ensure!((w - x).abs() < 1e-9, key, "{}: outcome {:?} has probability {} instead of {}", what, k, w, x);
    }
    for (k, x) in want {
        let w = have.get(k).copied().unwrap_or(0.0);
        ensure!((w - x).abs() < 1e-9, key, "{}: outcome {:?} has probability {} instead of {}", what, k, w, x);
    }
}

// ---------------------------------------------------------------------------------------------------------------

pub const C07: Prop = Prop {
    id: "C07",
    tasks: c07,
    bounds: "all pairs of 8-bit parents, all pairs from bit-pattern families (constant, single bits, all but one bit, low and high masks, alternating, boundary floats) for 16 to 64 bits, at every position; every draw of the bitwise and the exponent/mantissa operator for pairs from a list of floats, with exact probabilities",
    assumptions: &["each result bit depends on the parents as single-point crossing of wider words does in the enumerated bit-pattern families"],
};

/// Bit by bit: the low `pos` bits from b, the others from a.
fn splice(a: u64, b: u64, pos: usize, size: usize) -> u64 {
    let mut r = 0u64;
    for i in 0..size {
        let from = if i < pos { b } else { a };
        r |= from & (1u64 << i);
    }
    r
}

fn patterns(size: usize) -> Vec<u64> {
    let all = if size == 64 { !0u64 } else { (1u64 << size) - 1 };
    let mut v = vec![0, all, 0x5555_5555_5555_5555 & all, 0xAAAA_AAAA_AAAA_AAAA & all, 0x0123_4567_89AB_CDEF & all, 0xF0F0_0F0F_3C3C_A5C3 & all];
    for i in 0..size {
        v.push(1 << i);
        v.push(all & !(1 << i));
        v.push(all >> i);
        v.push((all << i) & all);
    }
    v.sort();
    v.dedup();
    v
}

type CrossFn = fn(u64, u64, usize) -> u64;

const WIDTHS: [(&str, usize, CrossFn); 9] = [
    ("u8", 8, |a, b, p| cross_u8(a as u8, b as u8, p) as u64),
    ("i8", 8, |a, b, p| cross_i8(a as u8 as i8, b as u8 as i8, p) as u8 as u64),
    ("u16", 16, |a, b, p| cross_u16(a as u16, b as u16, p) as u64),
    ("i16", 16, |a, b, p| cross_i16(a as u16 as i16, b as u16 as i16, p) as u16 as u64),
    ("u32", 32, |a, b, p| cross_u32(a as u32, b as u32, p) as u64),
    ("u64", 64, cross_u64),
    ("f32", 32, |a, b, p| cross_f32(f32::from_bits(a as u32), f32::from_bits(b as u32), p).to_bits() as u64),
    ("f64", 64, |a, b, p| cross_f64(f64::from_bits(a), f64::from_bits(b), p).to_bits()),
    // the same function once more with the masks of the exponent operator in mind
    ("i16 exponents", 16, |a, b, p| cross_i16(a as u16 as i16, b as u16 as i16, p) as u16 as u64),
];

fn floats64() -> Vec<f64> {
    vec![1.0, -1.0, 2.5, -0.1, 0.3, 1e300, -1e-300, 123456.789, 0.0, -0.0, NAN, INF, -INF, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::from_bits(!0)]
}
fn floats32() -> Vec<f32> {
    vec![1.0, -1.0, 2.5, -0.1, 0.3, 1e30, -1e-30, 123456.79, 0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::from_bits(!0)]
}

/// sign * m * 2^e as a float of T's precision, exactly rounded; None if the operator's arithmetic cannot be exact.
fn compose64(m: u64, e: i16, s: i8) -> Option<f64> {
    if m != 0 && (-1074..=1023).contains(&e) {
        let v = s as f64 * (m as f64) * (e as f64).exp2();
        if v.is_finite() {
            return Some(v);
        }
    }
    None
}
fn compose32(m: u64, e: i16, s: i8) -> Option<f32> {
    if m != 0 && (-149..=127).contains(&e) {
        let v = s as f32 * (m as f32) * (e as f32).exp2();
        if v.is_finite() {
            return Some(v);
        }
    }
    None
}

fn check_exp<K: Ord + Debug + Copy>(
    what: &str,
    have: BTreeMap<K, f64>,
    d1: (u64, i16, i8),
    d2: (u64, i16, i8),
    compose: impl Fn(u64, i16, i8) -> Option<K>,
) {
    let w = 1.0 / (63.0 * 15.0 * 2.0);
    let mut want: BTreeMap<K, f64> = BTreeMap::new();
    let mut open = 0.0;
    for mp in 1..64 {
        for ep in 1..16 {
            for s in [d1.2, d2.2] {
                let m = splice(d1.0, d2.0, mp, 64);
                let e = splice(d1.1 as u16 as u64, d2.1 as u16 as u64, ep, 16) as u16 as i16;
                match compose(m, e, s) {
                    Some(k) => *want.entry(k).or_insert(0.0) += w,
                    None => open += w,
                }
            }
        }
    }
    for (k, x) in &want {
        let h = have.get(k).copied().unwrap_or(0.0);
        ensure!(h > x - 1e-9, "exp", "{}: child {:?} has probability {} instead of {}", what, k, h, x);
    }
    let total: f64 = have.values().sum();
    let exact: f64 = have.iter().filter(|(k, _)| want.contains_key(k)).map(|x| x.1).sum();
    let need: f64 = want.values().sum();
    ensure!(
        (total - 1.0).abs() < 1e-9 && exact < need + open + 1e-9 && total - exact < open + 1e-9,
        "exp",
        "{}: children that no positions give have probability {}",
        what,
        total - exact - open
    );
}

fn c07(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (name, size, f) in WIDTHS {
        v.push(Task::new(format!("single point {}", name), move || {
            if size == 8 {
                let a = choose(256) as u64;
                for b in 0..256 {
                    for pos in 1..size {
                        let r = f(a, b, pos);
                        ensure!(r == splice(a, b, pos, size), "splice", "cross_{}({:#b}, {:#b}, {}) = {:#b}", name, a, b, pos, r);
                    }
                }
                cases(256 * 7);
            } else {
                let p = if name == "i16 exponents" {
                    (-60i32..60).map(|e| e as i16 as u16 as u64).chain([-1075i16, -1074, 971, 970].iter().map(|e| *e as u16 as u64)).collect()
                } else {
                    patterns(size)
                };
                let a = p[choose(p.len())];
                for b in &p {
                    for pos in 1..size {
                        let r = f(a, *b, pos);
                        ensure!(r == splice(a, *b, pos, size), "splice", "cross_{}({:#b}, {:#b}, {}) = {:#b}", name, a, b, pos, r);
                    }
                }
                cases((p.len() * (size - 1)) as u64);
                note!("cross_{} of {:#x} with {} other parents at all positions", name, a, p.len());
            }
        }));
    }
    v.push(Task::new("operator CrossBitwise f64", || {
        let m = floats64();
        let (a, b) = (m[choose(m.len())], m[choose(m.len())]);
        let mut c = CrossBitwise::new();
        let have = dist(nested(&policy(200, 63), None, || bits_of(&Cross::<f64>::cross(&mut c, &[&a, &b]))));
        let want = dist((1..64).map(|p| (vec![splice(a.to_bits(), b.to_bits(), p, 64)], 1.0 / 63.0)).collect());
        same_dist(&have, &want, "bitwise", &format!("bitwise crossing of {} and {}", a, b));
        state((a.to_bits(), b.to_bits()));
        note!("bitwise crossing of {} and {}: {} children", a, b, have.len());
    }));
    v.push(Task::new("operator CrossBitwise f32", || {
        let m = floats32();
        let (a, b) = (m[choose(m.len())], m[choose(m.len())]);
        let mut c = CrossBitwise::new();
        let have = dist(nested(&policy(200, 31), None, || {
            Cross::<f32>::cross(&mut c, &[&a, &b]).iter().map(|x| x.to_bits() as u64).collect::<Vec<_>>()
        }));
        let want = dist((1..32).map(|p| (vec![splice(a.to_bits() as u64, b.to_bits() as u64, p, 32)], 1.0 / 31.0)).collect());
        same_dist(&have, &want, "bitwise", &format!("bitwise crossing of {} and {}", a, b));
        state((a.to_bits(), b.to_bits()));
    }));
    let n = t.pick(9, 19);
    v.push(Task::new("operator FloatCrossExp f64", move || {
        let m = [1.0, -2.5, 0.0, -0.0, 0.1, 1.75, 123456.789, -3e-5, 1024.0, 1e300, -1e-300, f64::MIN_POSITIVE, 0.3, 7.0, -8.0, 1e10, f64::MAX, 1.0000000001, -0.5];
        let (a, b) = (m[choose(n)], m[choose(n)]);
        let mut c = FloatCrossExp::new();
        let have = dist(nested(&policy(200, 63), None, || {
            let r = Cross::<f64>::cross(&mut c, &[&a, &b]);
            ensure!(r.len() == 1, "exp", "{} children", r.len());
            bits(r[0])
        }));
        let d1 = num::Float::integer_decode(a);
        let d2 = num::Float::integer_decode(b);
        check_exp(&format!("exponent/mantissa crossing of {} and {}", a, b), have, d1, d2, |m, e, s| compose64(m, e, s).map(bits));
        if a == b {
            let only = nested(&policy(200, 63), Some(1), || Cross::<f64>::cross(&mut c, &[&a, &b])[0]);
            ensure!(only.iter().all(|x| x.0 == a), "exp", "equal parents {} do not reproduce themselves", a);
        }
        state((a.to_bits(), b.to_bits()));
        note!("exponent/mantissa crossing of {} and {}: 1890 draws", a, b);
    }));
    v.push(Task::new("operator FloatCrossExp f32", move || {
        let m = [1.0f32, -2.5, 0.0, -0.0, 0.1, 1.75, 123456.79, -3e-5, 1024.0, 1e30, -1e-30, f32::MIN_POSITIVE, 0.3, 7.0, -8.0, 1e10, f32::MAX, 1.0001, -0.5];
        let (a, b) = (m[choose(n)], m[choose(n)]);
        let mut c = FloatCrossExp::new();
        let have = dist(nested(&policy(200, 63), None, || {
            let r = Cross::<f32>::cross(&mut c, &[&a, &b]);
            ensure!(r.len() == 1, "exp", "{} children", r.len());
            bits(r[0] as f64)
        }));
        let d1 = num::Float::integer_decode(a);
        let d2 = num::Float::integer_decode(b);
        check_exp(&format!("exponent/mantissa crossing of {} and {}", a, b), have, d1, d2, |m, e, s| {
            compose32(m, e, s).map(|x| bits(x as f64))
        });
        state((a.to_bits(), b.to_bits()));
    }));
    v
}

fn bits_of(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

// ---------------------------------------------------------------------------------------------------------------

pub const C08: Prop = Prop {
    id: "C08",
    tasks: c08,
    bounds: "every tuple of 2 to 4 parents from a menu of 8 values (f32, f64) or 7 (integers), structured tuples of up to 40 parents; vectors of every length up to 6, 33 and 100 with a recording single-gene operator and with the library's own operators; parents that are one and the same object and equal copies of each other",
    assumptions: &["sums and products of the parents' genes are representable in the gene type"],
};

struct PairCross(Rc<RefCell<Vec<(f64, f64)>>>);
impl Cross<f64> for PairCross {
    fn cross(&mut self, p: &[&f64]) -> Vec<f64> {
        ensure!(p.len() == 2, "parents", "the single-gene operator gets {} parents", p.len());
        self.0.borrow_mut().push((*p[0], *p[1]));
        vec![*p[0] * 1024.0 + *p[1]]
    }
}

fn check_mean(p: &[f64]) {
    let n = p.len() as f64;
    let mean = p.iter().sum::<f64>() / n;
    let mag = p.iter().map(|x| x.abs()).sum::<f64>() / n + 1e-300;
    let r = CrossMean::new().cross(&p.iter().collect::<Vec<_>>());
    ensure!(r.len() == 1 && (r[0] - mean).abs() <= 1e-12 * mag, "mean", "mean crossing of {:?} gives {:?} instead of {}", p, r, mean);
    let q: Vec<f32> = p.iter().map(|x| *x as f32).collect();
    let r = CrossMean::new().cross(&q.iter().collect::<Vec<_>>());
    let mean32 = q.iter().map(|x| *x as f64).sum::<f64>() / n;
    ensure!(
        r.len() == 1 && (r[0] as f64 - mean32).abs() <= 2e-6 * mag,
        "mean",
        "mean crossing of {:?} (f32) gives {:?} instead of {}",
        q,
        r,
        mean32
    );
    note!("mean of {:?} is {:?}", p, r);
    state(bits(mean));
}

fn check_geo(p: &[f64]) {
    let n = p.len() as f64;
    let mean = (p.iter().map(|x| x.ln()).sum::<f64>() / n).exp();
    let r = FloatCrossGeometricMean::new().cross(&p.iter().collect::<Vec<_>>());
    ensure!(r.len() == 1 && (r[0] / mean - 1.0).abs() <= 1e-11, "geometric", "geometric-mean crossing of {:?} gives {:?} instead of {}", p, r, mean);
    let q: Vec<f32> = p.iter().map(|x| *x as f32).collect();
    let mean = (q.iter().map(|x| (*x as f64).ln()).sum::<f64>() / n).exp();
    let r = FloatCrossGeometricMean::new().cross(&q.iter().collect::<Vec<_>>());
    ensure!(
        r.len() == 1 && (r[0] as f64 / mean - 1.0).abs() <= 1e-5,
        "geometric",
        "geometric-mean crossing of {:?} (f32) gives {:?} instead of {}",
        q,
        r,
        mean
    );
    note!("geometric mean of {:?} is {:?}", p, r);
    state(bits(mean));
}

fn check_int<G: num::Num + num::NumCast + Clone + Debug + num::ToPrimitive>(p: &[i64], name: &str) {
    let q: Vec<G> = p.iter().map(|x| num::cast(*x).unwrap()).collect();
    let mean = p.iter().sum::<i64>() as f64 / p.len() as f64;
    let r = CrossMean::new().cross(&q.iter().collect::<Vec<_>>());
    ensure!(
        r.len() == 1 && (r[0].to_f64().unwrap() - mean).abs() < 1.0,
        "mean",
        "mean crossing of {:?} ({}) gives {:?} instead of about {}",
        q,
        name,
        r,
        mean
    );
    if mean == mean.trunc() {
        ensure!(r[0].to_f64().unwrap() == mean, "mean", "mean crossing of {:?} ({}) gives {:?} instead of {}", q, name, r, mean);
    }
}

fn c08(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for n in 2..=4usize {
        v.push(Task::new(format!("means of {} parents", n), move || {
            let menu = [1.0, 0.0, -3.5, 2.25, 1000.0, -1e-3, 1e10, 0.1];
            let p: Vec<f64> = (0..n).map(|_| menu[choose(8)]).collect();
            check_mean(&p);
        }));
        v.push(Task::new(format!("integer means of {} parents", n), move || {
            let menu = [1i64, 0, 2, 3, 7, 20, 31];
            let p: Vec<i64> = (0..n).map(|_| menu[choose(7)]).collect();
            check_int::<u8>(&p, "u8");
            check_int::<i32>(&p, "i32");
            check_int::<u64>(&p, "u64");
            check_int::<usize>(&p, "usize");
            check_int::<i16>(&p, "i16");
            let q: Vec<i64> = p.iter().enumerate().map(|(i, x)| if i % 2 == 0 { -x } else { *x }).collect();
            check_int::<i8>(&q, "i8");
            check_int::<i32>(&q, "i32");
            check_int::<i64>(&q, "i64");
            cases(7);
        }));
        v.push(Task::new(format!("geometric means of {} parents", n), move || {
            let menu = [1.0, 2.0, 0.5, 3.0, 1000.0, 1e-3, 1e8, 0.1];
            let p: Vec<f64> = (0..n).map(|_| menu[choose(8)]).collect();
            check_geo(&p);
        }));
    }
    for n in [5, 6, 10, 17, 40] {
        v.push(
            Task::new(format!("means of {} parents", n), move || {
                let menu = [1.0, 0.0, -3.5, 2.25, 100.0, -1e-3, 1e4, 0.1];
                let p: Vec<f64> = (0..n).map(|_| menu[choose(8)]).collect();
                check_mean(&p);
                let menu = [1.0, 2.0, 0.5, 3.0, 1.25, 0.75, 4.0, 0.4];
                let p: Vec<f64> = (0..n).map(|_| menu[choose(8)]).collect();
                check_geo(&p);
                let menu = [1i64, 0, 2, 3, 1];
                let p: Vec<i64> = (0..n).map(|_| menu[choose(5)]).collect();
                check_int::<u8>(&p, "u8");
                check_int::<i32>(&p, "i32");
            })
            .base(seed + n as u64)
            .bound(2),
        );
    }
    // many parents; sums and products are representable whatever the order of evaluation
    for n in [63usize, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097, 65535, 65536, 65537, 70000] {
        v.push(Task::new(format!("means of {} parents", n), move || {
            // the odd one out: everywhere for small numbers, at the usual limits and at both ends for large ones
            let mut at: Vec<usize> = if n <= t.pick(130, 1025) {
                (0..n).collect()
            } else {
                [0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, n / 2, n - 2, n - 1].to_vec()
            };
            at.retain(|i| *i < n);
            let at = at[choose(at.len())];
            let p: Vec<f64> = (0..n).map(|i| if i == at { n as f64 } else { (i % 2) as f64 }).collect();
            let mean = (p.iter().sum::<f64>()) / n as f64;
            let r = CrossMean::new().cross(&p.iter().collect::<Vec<_>>());
            let q: Vec<f32> = p.iter().map(|x| *x as f32).collect();
            let r32 = CrossMean::new().cross(&q.iter().collect::<Vec<_>>());
            for (r, eps, what) in [(r, 1e-12, "f64"), (r32.iter().map(|x| *x as f64).collect(), 4e-7, "f32")] {
                ensure!(
                    r.len() == 1 && (r[0] - mean).abs() <= eps * mean,
                    "mean",
                    "mean crossing of {} parents 0, 1, 0, 1... with {} at {} ({}) gives {:?} instead of {}",
                    n,
                    n,
                    at,
                    what,
                    r,
                    mean
                );
            }
            let i: Vec<i64> = (0..n).map(|i| if i == at { n as i64 } else { 2 * (i % 2) as i64 }).collect();
            check_int::<i64>(&i, "i64");
            check_int::<usize>(&i, "usize");
            check_int::<i32>(&i, "i32");
            if n <= 1025 {
                let i: Vec<i64> = (0..n).map(|i| if i == at { 2 * n as i64 } else { 3 * (i % 2) as i64 }).collect();
                check_int::<i16>(&i, "i16");
                check_int::<u16>(&i, "u16");
            }
            let p: Vec<f64> = (0..n).map(|i| if i == at { 64.0 } else { [2.0, 0.5][i % 2] }).collect();
            check_geo(&p);
            cases(6);
        }));
    }
    for n in [0usize, 1, 2, 3, 4, 5, 6, 33, 100, 300] {
        v.push(Task::new(format!("vector crossing of {} genes", n), move || {
            let log = Rc::new(RefCell::new(vec![]));
            let mut c = VecCrossAllGenes::new(Box::new(PairCross(log.clone())));
            for round in 0..3 {
                let a: Vec<f64> = (0..n).map(|i| (i * 3 + round) as f64).collect();
                let b: Vec<f64> = (0..n).map(|i| (i * 3 + 1 + 500) as f64).collect();
                let r = c.cross(&[&a, &b]);
                ensure!(r.len() == 1, "children", "vector crossing gives {} children", r.len());
                let want: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x * 1024.0 + y).collect();
                ensure!(r[0] == want, "genes", "vector crossing of {:?} and {:?} gives {:?}", a, b, r[0]);
                let mut l = log.borrow_mut();
                ensure!(l.len() == n, "genes", "the single-gene operator is applied {} times to {} genes", l.len(), n);
                l.clear();
                cases(n as u64);
            }
            state(n);
        }));
    }
    for n in [1usize, 2, 3, 4, 7, 33, 300] {
        v.push(Task::new(format!("vector crossing of a parent with itself or its copy, {} genes", n), move || {
            let log = Rc::new(RefCell::new(vec![]));
            let mut c = VecCrossAllGenes::new(Box::new(PairCross(log.clone())));
            let gene = |i: usize| [i as f64, 1.0, (i % 2) as f64, -0.0, NAN][choose(5)];
            let a: Vec<f64> = (0..n).map(|i| if i < 3 { gene(i) } else { i as f64 }).collect();
            let b = a.clone();
            let r = c.cross(&[&a, if choose(2) == 0 { &a } else { &b }]);
            let want: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x * 1024.0 + y).collect();
            ensure!(r.len() == 1 && bits_of(&r[0]) == bits_of(&want), "genes", "vector crossing of {:?} with itself gives {:?}", a, r);
            ensure!(log.borrow().len() == n, "genes", "the single-gene operator is applied {} times to {} genes", log.borrow().len(), n);
            state((n, bits_of(&want)));
        }));
    }
    // with the library's own single-gene operators: joint distribution
    v.push(Task::new("vector crossing, bitwise f32", move || {
        let m = floats32();
        let n = t.pick(4, 8);
        let (a, b) = (vec![m[choose(n)], 2.5f32], vec![m[choose(n)], m[choose(n)]]);
        let mut c = VecCrossAllGenes::new(Box::new(CrossBitwise::new()));
        let have = dist(nested(&policy(200, 31), None, || {
            let r = c.cross(&[&a, &b]);
            r.iter().map(|c| c.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()
        }));
        let mut want = vec![];
        for p in 1..32 {
            for q in 1..32 {
                let g = |i: usize, pos| splice(a[i].to_bits() as u64, b[i].to_bits() as u64, pos, 32) as u32;
                want.push((vec![vec![g(0, p), g(1, q)]], 1.0 / 961.0));
            }
        }
        same_dist(&have, &dist(want), "genes", &format!("vector crossing of {:?} and {:?}", a, b));
    }));
    v.push(Task::new("vector crossing, means", || {
        let menu = [1.0, 2.0, 0.5, 3.0];
        let a: Vec<f64> = (0..3).map(|_| menu[choose(4)]).collect();
        let b: Vec<f64> = (0..3).map(|_| menu[choose(4)]).collect();
        let r = VecCrossAllGenes::new(Box::new(CrossMean::new())).cross(&[&a, &b]);
        let want: Vec<f64> = a.iter().zip(&b).map(|(x, y)| (x + y) / 2.0).collect();
        ensure!(r == vec![want], "genes", "vector mean crossing of {:?} and {:?} gives {:?}", a, b, r);
        let r = VecCrossAllGenes::new(Box::new(FloatCrossGeometricMean::new())).cross(&[&a, &b]);
        ensure!(
            r.len() == 1 && r[0].len() == 3 && (0..3).all(|i| (r[0][i] - (a[i] * b[i]).sqrt()).abs() < 1e-12 * (1.0 + r[0][i])),
            "genes",
            "vector geometric-mean crossing of {:?} and {:?} gives {:?}",
            a,
            b,
            r
        );
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C09: Prop = Prop {
    id: "C09",
    tasks: c09,
    bounds: "every draw for change counts 0 to 3 (f32) and 0 to 2 (f64; 3 in the thorough tier) with exact probabilities; single deviations for change counts up to 100; vector mutation of up to 3 genes over 200 strata of each draw and every probability of the menu; one gene over 20000 strata; single deviations for up to 300 genes",
    assumptions: &["the mutation decision is monotone between the strata of the random draw"],
};

fn flips(size: usize, k: usize) -> BTreeMap<u64, f64> {
    let mut m: BTreeMap<u64, f64> = BTreeMap::new();
    m.insert(0, 1.0);
    for _ in 0..k {
        let mut next = BTreeMap::new();
        for (b, w) in &m {
            for i in 0..size {
                *next.entry(b ^ (1u64 << i)).or_insert(0.0) += w / size as f64;
            }
        }
        m = next;
    }
    m
}

struct Tag(Rc<RefCell<u32>>);
impl Mutation<u32> for Tag {
    fn mutation(&mut self, g: &u32) -> u32 {
        *self.0.borrow_mut() += 1;
        g + 1000
    }
}

fn c09(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for k in 0..=3usize {
        let m = floats32();
        let n = if k <= 2 { m.len() } else { t.pick(3, 10) };
        v.push(Task::new(format!("bitwise f32, {} changes", k), move || {
            let g = m[choose(n)];
            let mut o = BitwiseMutation::new(k);
            let have = dist(nested(&policy(64, 32), None, || (Mutation::<f32>::mutation(&mut o, &g).to_bits() ^ g.to_bits()) as u64));
            same_dist(&have, &flips(32, k), "bits", &format!("toggled bits of {} with {} changes", g, k));
            note!("bitwise mutation of {} (f32), {} changes: {} outcomes", g, k, have.len());
            state((k, g.to_bits()));
        }));
        let m = floats64();
        let n = if k <= 1 { m.len() } else { t.pick(3, 10) };
        if k <= t.pick(2, 3) {
            v.push(Task::new(format!("bitwise f64, {} changes", k), move || {
                let g = m[choose(n.min(if k == 3 { 3 } else { 99 }))];
                let mut o = BitwiseMutation::new(k);
                let have = dist(nested(&policy(64, 64), None, || Mutation::<f64>::mutation(&mut o, &g).to_bits() ^ g.to_bits()));
                same_dist(&have, &flips(64, k), "bits", &format!("toggled bits of {} with {} changes", g, k));
                state((k, g.to_bits()));
            }));
        }
    }
    for k in [4usize, 5, 8, 16, 31, 32, 33, 64, 100, 300] {
        v.push(Task::new(format!("bitwise, {} changes, single deviations", k), move || {
            let g = 0.75f64;
            let mut o = BitwiseMutation::new(k);
            let have = dist(nested(&policy(64, 64), Some(1), || (Mutation::<f64>::mutation(&mut o, &g).to_bits() ^ g.to_bits(), 0)).into_iter().map(|x| (x.0 .0, 1.0)).collect());
            let par = (k % 2) as u64;
            let mut want = BTreeMap::new();
            want.insert(par, 1.0);
            for j in 1..64 {
                want.insert((1u64 << j) ^ (1 - par), k as f64);
            }
            same_dist(&have, &want, "bits", &format!("toggled bits with {} changes, all draws bit 0 but one", k));
            let g = -0.75f32;
            let have = dist(nested(&policy(64, 32), Some(1), || (Mutation::<f32>::mutation(&mut o, &g).to_bits() ^ g.to_bits(), 0)).into_iter().map(|x| (x.0 .0 as u64, 1.0)).collect());
            let mut want = BTreeMap::new();
            want.insert(par, 1.0);
            for j in 1..32 {
                want.insert((1u64 << j) ^ (1 - par), k as f64);
            }
            same_dist(&have, &want, "bits", &format!("toggled bits (f32) with {} changes, all draws bit 0 but one", k));
            state(k);
        }));
    }
    let probs = [0.0, 100.0, 50.0, 25.0, 1.0, 99.0, 80.0, 5.0, 0.5, 99.5, 33.5];
    for p in probs {
        for n in 0..=t.pick(2usize, 3) {
            let strata = [20_000, 20_000, 200, 20][n];
            v.push(Task::new(format!("vector mutation of {} genes, {} percent", n, p), move || {
                let calls = Rc::new(RefCell::new(0));
                let mut o = VecMutation::new(p, Box::new(Tag(calls.clone())));
                let g: Vec<u32> = (1..=n as u32).collect();
                let have = dist(nested(&policy(64, strata), None, || {
                    *calls.borrow_mut() = 0;
                    let r = o.mutation(&g);
                    ensure!(r.len() == n, "length", "{} genes become {}", n, r.len());
                    let mut mask = 0;
                    for i in 0..n {
                        ensure!(r[i] == g[i] || r[i] == g[i] + 1000, "gene", "{:?} is mutated to {:?}", g, r);
                        mask |= ((r[i] != g[i]) as usize) << i;
                    }
                    ensure!(*calls.borrow() == mask.count_ones(), "calls", "{} single mutations for {:?}", calls.borrow(), r);
                    mask
                }));
                for mask in 0..1usize << n {
                    let want: f64 = (0..n).map(|i| if mask >> i & 1 == 1 { p / 100.0 } else { 1.0 - p / 100.0 }).product();
                    let h = have.get(&mask).copied().unwrap_or(0.0);
                    let tol = if n <= 2 { 1e-9 } else { 0.06 };
                    ensure!((h - want).abs() <= tol, "probability", "{} genes, {} percent: mutated genes {:#b} have probability {} instead of {}", n, p, mask, h, want);
                    state((n, mask));
                }
                note!("{} genes, {} percent: {:?}", n, p, have);
            }));
        }
    }
    // the extreme raw words: 0 percent never, 100 percent always
    v.push(Task::new("vector mutation, extreme draws", || {
        let pol = Policy { fixed: 0, int_full: 64, int_sparse: 5, floats: vec![0.0, 1.0, 0.5, 1e-9, 1.0 - 1e-9] };
        for (p, want) in [(0.0, false), (100.0, true)] {
            let mut o = VecMutation::new(p, Box::new(Tag(Rc::new(RefCell::new(0)))));
            let g = vec![1u32, 2, 3, 4];
            for (r, _) in nested(&pol, None, || o.mutation(&g)) {
                ensure!((0..4).all(|i| r[i] == g[i] + if want { 1000 } else { 0 }), "extreme", "{} percent turns {:?} into {:?}", p, g, r);
            }
        }
    }));
    for n in [10usize, 33, 60, 300] {
        v.push(Task::new(format!("vector mutation of {} genes, single deviations", n), move || {
            let calls = Rc::new(RefCell::new(0));
            let mut o = VecMutation::new(30.0, Box::new(Tag(calls)));
            let g: Vec<u32> = (1..=n as u32).collect();
            let mut pol = policy(64, 20);
            pol.floats.reverse(); // by default nothing mutates
            let mut per = vec![0; n];
            for (r, _) in nested(&pol, Some(1), || o.mutation(&g)) {
                ensure!(r.len() == n, "length", "{} genes become {}", n, r.len());
                let d: Vec<usize> = (0..n).filter(|i| r[*i] != g[*i]).collect();
                ensure!(d.len() <= 1 && d.iter().all(|i| r[*i] == g[*i] + 1000), "gene", "one draw turns {:?} into {:?}", g, r);
                for i in d {
                    per[i] += 1;
                }
            }
            ensure!(per.iter().all(|c| *c == 6), "probability", "of 20 strata {:?} mutate at 30 percent", per);
        }));
    }
    // the usual combination; other genes stay bit-identical
    v.push(Task::new("vector of bitwise mutations", || {
        let m = floats32();
        let g = vec![m[choose(m.len())], m[choose(m.len())]];
        let mut o = VecMutation::new(50.0, Box::new(BitwiseMutation::new(1)));
        let have = dist(nested(&policy(64, 2), None, || {
            let r = o.mutation(&g);
            ensure!(r.len() == 2, "length", "2 genes become {}", r.len());
            (r[0].to_bits() ^ g[0].to_bits(), r[1].to_bits() ^ g[1].to_bits())
        }));
        let one: Vec<(u32, f64)> = std::iter::once((0, 0.5)).chain((0..32).map(|i| (1u32 << i, 0.5 / 32.0))).collect();
        let want = dist(one.iter().flat_map(|a| one.iter().map(move |b| ((a.0, b.0), a.1 * b.1))).collect());
        same_dist(&have, &want, "bits", &format!("toggled bits of {:?}", g));
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C10: Prop = Prop {
    id: "C10",
    tasks: c10,
    bounds: "all combinations of lowest, highest and intermediate raw words for up to 3 points of up to 3 values (6 draws), single deviations for 20 points of 4 values; exact stratum occupancy over 64 strata per value; repeated calls; f32, f64, i8 to i64, u8 to u64",
    assumptions: &["interval bounds are exactly representable in f64 (as for all values in the menu)"],
};

type Iv = Vec<(f64, f64)>;

/// One of the creators for element type G: (intervals, count) -> points of two consecutive calls.
fn make_points<G: num::NumCast + PartialOrd + Copy + 'static>(kind: usize, iv: &Iv, count: usize) -> Vec<Vec<Vec<f64>>> {
    let iv: Vec<(G, G)> = iv.iter().map(|(a, b)| (num::cast(*a).unwrap(), num::cast(*b).unwrap())).collect();
    let conv = |v: Vec<Vec<G>>| -> Vec<Vec<f64>> { v.iter().map(|p| p.iter().map(|x| x.to_f64().unwrap()).collect()).collect() };
    match kind {
        0 => {
            let mut c = RandomCreator::new(count, iv);
            vec![conv(c.create()), conv(c.create())]
        }
        1 => {
            let mut c = RandomCoordinatesInitializer::new(iv, count);
            vec![conv(c.get_coordinates()), conv(c.get_coordinates())]
        }
        _ => {
            let mut c = RandomVelocityInitializer::new(iv, count);
            vec![conv(c.get_velocity()), conv(c.get_velocity())]
        }
    }
}

type Maker = fn(usize, &Iv, usize) -> Vec<Vec<Vec<f64>>>;
const MAKERS: [(&str, bool, Maker); 8] = [
    ("f64", false, make_points::<f64>),
    ("f32", false, make_points::<f32>),
    ("i32", true, make_points::<i32>),
    ("u8", true, make_points::<u8>),
    ("i64", true, make_points::<i64>),
    ("u64", true, make_points::<u64>),
    ("i8", true, make_points::<i8>),
    ("usize", true, make_points::<usize>),
];

fn c10_intervals(int: bool, name: &str, set: usize) -> Iv {
    if int {
        let neg = name.starts_with('i');
        match set {
            0 => vec![(0.0, 10.0), (20.0, 24.0), (if neg { -100.0 } else { 50.0 }, 100.0), (3.0, 4.0)],
            _ => vec![(if neg { -5.0 } else { 1.0 }, 6.0), (0.0, 1.0), (7.0, 127.0), (if neg { -128.0 } else { 0.0 }, if neg { -120.0 } else { 100.0 })],
        }
    } else {
        let f = |x: f64| if name == "f32" { x as f32 as f64 } else { x };
        match set {
            0 => vec![(f(0.0), f(1.0)), (f(-3.0), f(-2.5)), (f(100.0), f(110.0)), (f(-1.0), f(1.0))],
            1 => vec![(f(0.1), f(0.2)), (f(0.3), f(0.30001)), (f(-1e30), f(1e30)), (f(-7.7), f(123456.7))],
            _ => vec![(f(1e-30), f(2e-30)), (f(-500.0), f(500.0)), (f(-5.12), f(5.12)), (f(-2.0), f(0.0))],
        }
    }
}

fn check_points(what: &str, pts: &[Vec<Vec<f64>>], iv: &Iv, count: usize) {
    for p in pts {
        ensure!(p.len() == count, "count", "{}: {} points instead of {}", what, p.len(), count);
        for x in p {
            ensure!(x.len() == iv.len(), "shape", "{}: {} values for {} intervals", what, x.len(), iv.len());
            for (i, v) in x.iter().enumerate() {
                ensure!(*v >= iv[i].0 && *v <= iv[i].1, "bounds", "{}: value {} is {} outside {:?}", what, i, v, iv[i]);
            }
        }
    }
}

fn c10(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (name, int, maker) in MAKERS {
        for kind in 0..3usize {
            for set in 0..(if int { 2 } else { 3 }) {
                let label = format!("{} {} intervals {}", ["creator", "coordinates", "velocities"][kind], name, set);
                let l = label.clone();
                v.push(Task::new(format!("{}: extremes", label), move || {
                    let iv0 = c10_intervals(int, name, set);
                    let shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (4, 1), (1, 0)];
                    let (d, count) = shapes[choose(if kind == 0 { 6 } else { 7 })];
                    let iv = iv0[..d].to_vec();
                    let pol = Policy { fixed: 0, int_full: 64, int_sparse: 5, floats: if d * count <= 2 { vec![0.0, 1.0, 0.5, 0.1, 0.9, 1.0 - 1e-12] } else { vec![0.0, 1.0, 0.5] } };
                    let all = nested(&pol, None, || {
                        let p = maker(kind, &iv, count);
                        check_points(&l, &p, &iv, count);
                        state(p.iter().flatten().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                    });
                    note!("{}: {} points of {} values, {} draws of two calls", l, count, d, all.len());
                }));
                let l = label.clone();
                v.push(Task::new(format!("{}: larger", label), move || {
                    let iv = c10_intervals(int, name, set);
                    let pol = Policy { fixed: 0, int_full: 64, int_sparse: 5, floats: vec![0.5, 0.0, 1.0] };
                    let mut distinct: Vec<std::collections::BTreeSet<u64>> = vec![Default::default(); 160];
                    let mut base: Option<Vec<u64>> = None;
                    for (p, _) in nested(&pol, Some(1), || maker(kind, &iv, 20)) {
                        check_points(&l, &p, &iv, 20);
                        let flat: Vec<u64> = p.iter().flatten().flatten().map(|x| x.to_bits()).collect();
                        if let Some(b) = &base {
                            let d = (0..flat.len()).filter(|i| flat[*i] != b[*i]).count();
                            ensure!(d <= 1, "independent", "{}: one draw changes {} values", l, d);
                        } else {
                            base = Some(flat.clone());
                        }
                        for (i, x) in flat.iter().enumerate() {
                            distinct[i].insert(*x);
                        }
                    }
                    let few = if int { 2 } else { 3 };
                    ensure!(distinct.iter().all(|s| s.len() >= few), "independent", "{}: a value does not depend on a draw of its own", l);
                }));
                let l = label.clone();
                v.push(Task::new(format!("{}: many", label), move || {
                    let iv0 = c10_intervals(int, name, set);
                    let (d, count) = [(300, 3), (3, 700), (1, 70_001), (2, 5000), (70_001, 1)][choose(5)];
                    let iv: Iv = (0..d).map(|i| iv0[i % 4]).collect();
                    for f in [0.5, 0.0, 1.0, 0.25] {
                        let pol = Policy { fixed: 0, int_full: 64, int_sparse: 5, floats: vec![f] };
                        check_points(&l, &fixed(&pol, || maker(kind, &iv, count)), &iv, count);
                        cases(1);
                    }
                }));
                let l = label.clone();
                v.push(Task::new(format!("{}: every part", label), move || {
                    let iv0 = c10_intervals(int, name, set);
                    let i = choose(iv0.len());
                    let iv = vec![iv0[i]];
                    let n = if int { 400 } else { 64 };
                    let (lo, hi) = iv[0];
                    // second call: all draws at the first stratum; the first call's value is enumerated
                    let mut pol = policy(64, n);
                    let all = nested(&pol, Some(1), || bits(maker(kind, &iv, 1)[0][0][0]));
                    let usual = all[0].0;
                    let mut have = dist(all.into_iter().map(|x| (x.0, 1.0)).collect());
                    *have.get_mut(&usual).unwrap() -= n as f64 - 1.0;
                    if int {
                        // every integer below the upper bound is drawn, none disproportionately; the conversion to
                        // integers truncates, so a negative lower bound itself is next to never drawn
                        let k = (hi - lo) as usize;
                        for j in 0..k {
                            let x = lo + j as f64;
                            let c = have.get(&bits(x)).copied().unwrap_or(0.0);
                            ensure!(c > 0.0 || (j == 0 && lo < 0.0), "part", "{}: {} of {:?} is never drawn", l, x, iv[0]);
                            ensure!(c < 2.6 * n as f64 / k as f64 + 2.0, "part", "{}: {} of {:?} is drawn in {} of {} strata", l, x, iv[0], c, n);
                        }
                    } else {
                        // one value per stratum, in the stratum of that rank
                        let mut xs: Vec<f64> = vec![];
                        pol.floats = mids(n);
                        for b in have.keys() {
                            xs.push(f64::from_bits(*b));
                        }
                        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        ensure!(xs.len() == n, "part", "{}: {} distinct values in {} strata", l, xs.len(), n);
                        for (j, x) in xs.iter().enumerate() {
                            let want = lo + (hi - lo) * (j as f64 + 0.5) / n as f64;
                            ensure!((x - want).abs() <= (hi - lo) * 0.51 / n as f64 + 1e-6 * lo.abs().max(hi.abs()), "part", "{}: stratum {} of {} of {:?} gives {}", l, j, n, iv[0], x);
                        }
                    }
                    note!("{}: {} strata of {:?} give {} values", l, n, iv[0], have.len());
                }));
                let l = label.clone();
                if !int {
                    v.push(Task::new(format!("{}: joint", label), move || {
                        let iv: Iv = c10_intervals(int, name, set)[..t.pick(2, 3)].to_vec();
                        let k = iv.len() * 2 * 2;
                        let have = dist(nested(&policy(64, 2), None, || {
                            maker(kind, &iv, 2).iter().flatten().flatten().map(|x| bits(*x)).collect::<Vec<_>>()
                        }));
                        let want = (0.5f64).powi(k as i32);
                        ensure!(
                            have.len() == 1 << k && have.values().all(|w| (w - want).abs() < 1e-12),
                            "independent",
                            "{}: {} joint outcomes of {} two-valued draws",
                            l,
                            have.len(),
                            k
                        );
                    }));
                }
            }
        }
    }
    v.push(Task::new("zero velocities", || {
        let d = [0, 1, 2, 3, 7, 100][choose(6)];
        let n = [0, 1, 2, 3, 7, 100][choose(6)];
        let mut z = ZeroVelocityInitializer::new(d, n);
        for _ in 0..3 {
            let a: Vec<Vec<f64>> = VelocityInitializer::<f64>::get_velocity(&mut z);
            let b: Vec<Vec<f32>> = VelocityInitializer::<f32>::get_velocity(&mut z);
            let c: Vec<Vec<i32>> = VelocityInitializer::<i32>::get_velocity(&mut z);
            ensure!(a == vec![vec![0.0; d]; n], "zero", "zero velocities {} x {}: {:?}", n, d, a);
            ensure!(b == vec![vec![0.0; d]; n], "zero", "zero velocities {} x {}: {:?}", n, d, b);
            ensure!(c == vec![vec![0; d]; n], "zero", "zero velocities {} x {}: {:?}", n, d, c);
        }
        state((d, n));
        note!("zero velocities {} x {}", n, d);
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C14: Prop = Prop {
    id: "C14",
    tasks: c14,
    bounds: "every iteration number 0..=3*t_max+3 (up to 2000) in ascending, descending and mixed order for every (w_min, w_max, t_max) of the menu, f32 and f64; iteration numbers up to usize::MAX at selected points",
    assumptions: &["w_min <= w_max and t_max > 0, as documented, unless stated otherwise"],
};

fn check_inertia<T: num::Float + Debug + 'static>(lo: f64, hi: f64, tmax: usize, eps: f64, order: usize) {
    let (l, h): (T, T) = (T::from(lo).unwrap(), T::from(hi).unwrap());
    let mut li = LinearInertia::new(l, h, tmax);
    let mut ci = ConstInertia::new(h);
    let end = (3 * tmax + 3).min(if tmax > 1 << 20 { 2000 } else { tmax + 2000 });
    let its: Vec<usize> = match order {
        0 => (0..=end)
            .chain((8..64).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]))
            .chain([usize::MAX / 2, usize::MAX, tmax - 1, tmax, tmax + 1, tmax / 2, 0])
            .collect(),
        1 => (0..=end).rev().collect(),
        _ => (0..=end).map(|i| i * 7919 % (end + 1)).collect(),
    };
    for it in its.iter().copied() {
        let c = ci.get(it);
        ensure!(c == h, "const", "constant inertia {:?} gives {:?} at iteration {}", h, c, it);
        let w = li.get(it).to_f64().unwrap();
        let (lo, hi) = (l.to_f64().unwrap(), h.to_f64().unwrap());
        let scale = lo.abs().max(hi.abs()) * eps;
        let want = if it >= tmax { lo } else { hi - (hi - lo) * it as f64 / tmax as f64 };
        ensure!(
            (w - want).abs() <= scale,
            "linear",
            "linear inertia ({}, {}, {}) gives {} instead of {} at iteration {}",
            lo,
            hi,
            tmax,
            w,
            want,
            it
        );
        ensure!(w >= lo - scale && w <= hi + scale, "range", "linear inertia ({}, {}, {}) gives {} at iteration {}", lo, hi, tmax, w, it);
    }
    cases(its.len() as u64);
    state((lo.to_bits(), hi.to_bits(), tmax));
    note!("linear inertia ({}, {}, {}): {} queries", lo, hi, tmax, its.len());
}

fn c14(_t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for order in 0..3 {
        v.push(Task::new(format!("inertia schedules, order {}", order), move || {
            let w = [(0.4, 0.9), (0.0, 1.0), (0.5, 0.5), (-0.5, 0.25), (0.0, 2.0), (0.729, 1.4), (1e-6, 1e6)];
            let (lo, hi) = w[choose(w.len())];
            let tm = [1usize, 2, 3, 4, 5, 7, 10, 64, 100, 255, 256, 1000, 65536, 1 << 31, (1 << 32) + 4, 1 << 45];
            let tmax = tm[choose(tm.len())];
            if choose(2) == 0 {
                check_inertia::<f64>(lo, hi, tmax, 1e-12, order);
            } else {
                check_inertia::<f32>(lo, hi, tmax, 1e-5, order);
            }
        }));
    }
    // t_max = 0: at and after iteration 0 = t_max, w_min
    v.push(Task::new("inertia schedule of length 0", || {
        let it = [1usize, 2, 10, usize::MAX][choose(4)];
        let w = LinearInertia::new(0.25f64, 0.75, 0).get(it);
        ensure!(w == 0.25, "range", "linear inertia (0.25, 0.75, 0) gives {} at iteration {}", w, it);
        let w = LinearInertia::new(0.25f32, 0.75, 0).get(0);
        ensure!((0.25..=0.75).contains(&w), "range", "linear inertia (0.25, 0.75, 0) gives {} at iteration 0", w);
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C15: Prop = Prop {
    id: "C15",
    tasks: c15,
    bounds: "every coordinate vector over a menu of 12 values relative to each coordinate's own interval for up to 3 dimensions, single deviations for 40; teleport: 20 strata of each draw for up to 2 coordinates with every probability of the menu and exact joint distribution, extreme raw words; f32 and f64; coordinates and bounds of every sign and magnitude; teleport probabilities from 1e-6",
    assumptions: &["the teleport decision is monotone between the strata of the random draw"],
};

trait F: num::Float + Debug + Send + Sync + 'static + rand::distributions::uniform::SampleUniform {
    fn step(self, up: bool) -> Self;
    fn of(x: f64) -> Self {
        num::cast(x).unwrap()
    }
    fn id(self) -> u64;
    const N: &'static str;
    const EPS: f64;
}
impl F for f64 {
    fn step(self, up: bool) -> f64 {
        step64(self, up)
    }
    fn id(self) -> u64 {
        bits(self)
    }
    const N: &'static str = "f64";
    const EPS: f64 = 1e-12;
}
impl F for f32 {
    fn step(self, up: bool) -> f32 {
        step32(self, up)
    }
    fn id(self) -> u64 {
        bits(self as f64)
    }
    const N: &'static str = "f32";
    const EPS: f64 = 1e-5;
}

fn pm_intervals<T: F>(d: usize, set: usize) -> Vec<(T, T)> {
    let all = [
        [(0.0, 1.0), (-3.0, -2.5), (100.0, 110.0), (-1e6, 1e6)],
        [(-1.0, 1.0), (0.0, 0.0), (0.1, 0.2), (-5.12, 5.12)],
        [(-1e30, 1e30), (1e-30, 1.0), (-0.5, 0.0), (7.0, 7.25)],
        [(1e-30, 1e-20), (-1e-25, -1e-28), (1e-44, 2.0), (1e20, 1e30)],
    ];
    (0..d).map(|i| (T::of(all[set][i % 4].0), T::of(all[set][i % 4].1))).collect()
}

fn coord<T: F>(iv: (T, T), k: usize) -> T {
    match k {
        0 => iv.0 + (iv.1 - iv.0) / T::of(2.0),
        1 => iv.0,
        2 => iv.1,
        3 => iv.0.step(false),
        4 => iv.1.step(true),
        5 => T::max_value(),
        6 => T::min_value(),
        7 => T::nan(),
        8 => T::infinity(),
        9 => T::neg_infinity(),
        10 => iv.1 + T::of(1.0) + (iv.1 - iv.0),
        11 => iv.0 - T::of(1.0) - (iv.1 - iv.0),
        12 => T::zero(),
        13 => -T::zero(),
        14 => T::zero().step(true),
        15 => T::zero().step(false),
        16 => -iv.0,
        17 => -iv.1,
        18 => T::min_positive_value(),
        _ => iv.0 + iv.1,
    }
}
const COORDS: usize = 20;

fn check_boundary<T: F>(iv: &[(T, T)], c: Vec<T>, b: &mut MoveToBoundary<T>) {
    let mut r = c.clone();
    b.post_move(&mut r);
    ensure!(r.len() == c.len(), "length", "boundary correction turns {:?} into {:?}", c, r);
    for i in 0..c.len() {
        ensure!(r[i] >= iv[i].0 && r[i] <= iv[i].1, "inside", "boundary correction turns {:?} into {:?}, intervals {:?}", c, r, iv);
        if c[i].is_finite() {
            let want = if c[i] < iv[i].0 { iv[i].0 } else if c[i] > iv[i].1 { iv[i].1 } else { c[i] };
            ensure!(r[i] == want, "nearest", "boundary correction turns coordinate {} of {:?} into {:?}, intervals {:?}", i, c, r, iv);
        }
    }
    state(r.iter().map(|x| x.id()).collect::<Vec<_>>());
    note!("{:?} in {:?} -> {:?}", c, iv, r);
}

fn c15_for<T: F>(v: &mut Vec<Task>, t: Tier, seed: u64) {
    for set in 0..4 {
        for d in 0..=t.pick(3usize, 4) {
            v.push(Task::new(format!("boundary {} d={} intervals {}", T::N, d, set), move || {
                let iv = pm_intervals::<T>(d, set);
                let c: Vec<T> = (0..d).map(|i| coord(iv[i], choose(COORDS))).collect();
                let mut b = MoveToBoundary::new(iv.clone());
                check_boundary(&iv, c.clone(), &mut b);
                // a second, different point through the same object
                let c2: Vec<T> = (0..d).map(|i| coord(iv[i], (i * 5 + 10) % COORDS)).collect();
                check_boundary(&iv, c2, &mut b);
                check_boundary(&iv, c, &mut b);
            }));
        }
        v.push(
            Task::new(format!("boundary {} d=40 and more, intervals {}", T::N, set), move || {
                let d = [40usize, 100, 300][choose(3)];
                let iv = pm_intervals::<T>(d, set);
                let c: Vec<T> = (0..d).map(|i| coord(iv[i], choose(COORDS))).collect();
                check_boundary(&iv, c, &mut MoveToBoundary::new(iv.clone()));
            })
            .base(seed + 5)
            .bound(1),
        );
    }
    let probs = [0.0f32, 1.0, 0.5, 0.25, 0.05, 0.95, 0.1];
    for (pi, p) in probs.iter().copied().enumerate() {
        for d in 0..=2usize {
            v.push(Task::new(format!("teleport {} d={} p={}", T::N, d, p), move || {
                let set = choose(2);
                let iv = pm_intervals::<T>(d + 1, set)[..d].to_vec();
                if iv.iter().any(|i| i.0 >= i.1) {
                    return;
                }
                let start: Vec<T> = (0..d).map(|i| coord(iv[i], [10, 7][i % 2])).collect();
                let mut tp = RandomTeleport::new(iv.clone(), p);
                let n = 20;
                let outs = nested(&policy(64, n), None, || {
                    let mut c = start.clone();
                    tp.post_move(&mut c);
                    ensure!(c.len() == d, "length", "teleport changes the dimension");
                    c
                });
                let mut stay = 0.0;
                let mut cells: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
                for (c, w) in outs {
                    let changed = c.iter().zip(&start).filter(|(a, b)| a.id() != b.id()).count();
                    if changed == 0 {
                        stay += w;
                        continue;
                    }
                    ensure!(changed == d, "all", "teleport moves {:?} to {:?}", start, c);
                    let mut cell = vec![];
                    for i in 0..d {
                        ensure!(c[i] >= iv[i].0 && c[i] <= iv[i].1, "inside", "teleport to {:?}, intervals {:?}", c, iv);
                        let f = ((c[i] - iv[i].0) / (iv[i].1 - iv[i].0)).to_f64().unwrap();
                        cell.push(((f * n as f64) as usize).min(n - 1));
                    }
                    *cells.entry(cell).or_insert(0.0) += w;
                }
                if d > 0 {
                    ensure!((stay - (1.0 - p as f64)).abs() < 1e-6, "probability", "teleport with probability {} stays with {}", p, stay);
                    let k = (n as f64).powi(d as i32);
                    if p > 0.0 {
                        ensure!(cells.len() as f64 == k, "uniform", "teleport reaches {} of {} cells", cells.len(), k);
                        for (c, w) in &cells {
                            ensure!((w - p as f64 / k).abs() < 1e-6, "uniform", "teleport with probability {} reaches cell {:?} with {}", p, c, w);
                        }
                    }
                }
                note!("teleport d={} p={}: stays {:.3}, {} cells", d, p, stay, cells.len());
                state((d, pi, cells.len()));
            }));
        }
    }
    for p in [0.0f32, 1.0] {
        v.push(Task::new(format!("teleport {} extreme draws p={}", T::N, p), move || {
            let iv = pm_intervals::<T>(3, choose(2) * 2);
            let start: Vec<T> = (0..3).map(|i| coord(iv[i], 10)).collect();
            let mut tp = RandomTeleport::new(iv.clone(), p);
            let pol = Policy { fixed: 0, int_full: 64, int_sparse: 5, floats: vec![0.0, 1.0, 0.5, 1e-12, 1.0 - 1e-12] };
            for (c, _) in nested(&pol, None, || {
                let mut c = start.clone();
                tp.post_move(&mut c);
                c
            }) {
                let inside = (0..3).all(|i| c[i] >= iv[i].0 && c[i] <= iv[i].1);
                let same = c == start;
                ensure!(if p == 0.0 { same } else { inside }, "extreme", "teleport with probability {} turns {:?} into {:?}, intervals {:?}", p, start, c, iv);
            }
        }));
    }
    for p in [1e-2f32, 1e-3, 1e-4, 1e-5, 1e-6] {
        for rare in [true, false] {
            v.push(Task::new(format!("teleport {} p={} from {}", T::N, p, rare as u8), move || {
                let q = p as f64;
                // one of these draws is among the rare ones, at whichever end they lie
                let pol = Policy { floats: vec![q / 2.0, q * 2.0, 0.5, 1.0 - 2.0 * q, 1.0 - q / 2.0], ..Policy::default() };
                let iv = pm_intervals::<T>(1, choose(2));
                let start = vec![coord(iv[0], 10)];
                let mut tp = RandomTeleport::new(iv, if rare { p } else { 1.0 - p });
                let mut moved = 0.0;
                for (c, w) in nested(&pol, None, || {
                    let mut c = start.clone();
                    tp.post_move(&mut c);
                    c
                }) {
                    if c[0].id() != start[0].id() {
                        moved += w;
                    }
                }
                let want = if rare { 0.2 } else { 0.8 };
                ensure!((moved - want).abs() < 1e-9, "probability", "teleport with probability {} happens for {} of the draws around its limit instead of {}", if rare { p } else { 1.0 - p }, moved, want);
                state((p.to_bits(), rare));
            }));
        }
    }
    for d in [5usize, 12, 100] {
        v.push(Task::new(format!("teleport {} d={} single deviations", T::N, d), move || {
            let iv = pm_intervals::<T>(d, 0);
            let start: Vec<T> = (0..d).map(|i| coord(iv[i], 10)).collect();
            let mut tp = RandomTeleport::new(iv.clone(), 0.975);
            let mut base: Option<Vec<T>> = None;
            let mut per = vec![std::collections::BTreeSet::new(); d];
            for (c, _) in nested(&policy(64, 20), Some(1), || {
                let mut c = start.clone();
                tp.post_move(&mut c);
                c
            }) {
                if c == start {
                    continue;
                }
                ensure!((0..d).all(|i| c[i] >= iv[i].0 && c[i] <= iv[i].1), "inside", "teleport to {:?}", c);
                if let Some(b) = &base {
                    let diff: Vec<usize> = (0..d).filter(|i| c[*i] != b[*i]).collect();
                    ensure!(diff.len() <= 1, "independent", "one draw changes coordinates {:?}", diff);
                    for i in diff {
                        per[i].insert(c[i].id());
                    }
                } else {
                    base = Some(c);
                }
            }
            ensure!(per.iter().all(|s| s.len() == 19), "independent", "coordinates do not have a draw each: {:?}", per.iter().map(|s| s.len()).collect::<Vec<_>>());
        }));
    }
}

fn c15(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    c15_for::<f64>(&mut v, t, seed);
    c15_for::<f32>(&mut v, t, seed);
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C16: Prop = Prop {
    id: "C16",
    tasks: c16,
    bounds: "every velocity over a menu of 16 components (zero, at the limit, next to it, tiny, huge, infinite for the per-dimension limiter, both signs) for up to 3 (4) dimensions, every limit of the menu, f32 and f64; single deviations for 40 dimensions",
    assumptions: &["no NaN components; limits are positive and finite"],
};

fn vels<T: F>(l: T) -> Vec<T> {
    let h = T::max_value() / T::of(4.0);
    let tiny = T::min_positive_value();
    vec![
        T::zero(),
        l,
        -l,
        l.step(true),
        -l.step(true),
        l.step(false),
        l / T::of(2.0),
        -(l / T::of(3.0)),
        l * T::of(10.0),
        -l * T::of(1e6),
        h,
        -h,
        tiny,
        -tiny * T::of(8.0),
        T::of(3.0),
        -T::of(0.7),
    ]
}

fn check_dims<T: F>(l: &[T], v: Vec<T>, m: &mut MaxVelocityDimensions<T>) {
    let r = m.correct_velocity(v.clone());
    ensure!(r.len() == v.len(), "length", "the limiter turns {:?} into {:?}", v, r);
    for i in 0..v.len() {
        let want = if v[i].abs() <= l[i] { v[i] } else if v[i] > T::zero() { l[i] } else { -l[i] };
        ensure!(r[i] == want, "dimension", "component {} of {:?} with limits {:?} becomes {:?}", i, v, l, r[i]);
    }
    state(r.iter().map(|x| x.id()).collect::<Vec<_>>());
}

fn check_abs<T: F>(l: T, v: Vec<T>, m: &mut MaxVelocityAbs<T>) {
    let r = m.correct_velocity(v.clone());
    ensure!(r.len() == v.len(), "length", "the limiter turns {:?} into {:?}", v, r);
    // exact enough: scale by the largest component
    let big = v.iter().fold(0.0f64, |a, x| a.max(x.to_f64().unwrap().abs()));
    let unit: Vec<f64> = v.iter().map(|x| if big > 0.0 { x.to_f64().unwrap() / big } else { 0.0 }).collect();
    let n = unit.iter().map(|x| x * x).sum::<f64>().sqrt();
    let lim = l.to_f64().unwrap();
    let excess = n * (big / lim); // norm / limit
    let eps = T::EPS * 10.0;
    let unchanged = r.iter().zip(&v).all(|(a, b)| a.id() == b.id());
    if excess <= 1.0 - eps {
        ensure!(unchanged, "within", "velocity {:?} within {:?} becomes {:?}", v, l, r);
    } else {
        if excess <= 1.0 + eps && unchanged {
            return;
        }
        let floor = T::min_positive_value().to_f64().unwrap();
        for i in 0..v.len() {
            let want = unit[i] / n * lim;
            let got = r[i].to_f64().unwrap();
            ensure!(
                (got - want).abs() <= eps * want.abs() + floor * (1.0 + T::EPS * lim * 4.0),
                "modulus",
                "velocity {:?} limited to {:?} becomes {:?}: component {} should be {}",
                v,
                l,
                r,
                i,
                want
            );
        }
    }
    state(r.iter().map(|x| x.id()).collect::<Vec<_>>());
    note!("{:?} limited to {:?} -> {:?}", v, l, r);
}

fn c16_for<T: F>(v: &mut Vec<Task>, t: Tier, seed: u64) {
    let single = T::N == "f32";
    let limits = [1.0, 0.5, 10.0, 1e-3, 12345.678, if single { 1e-30 } else { 1e-200 }, if single { 1e-20 } else { 1e-300 }, if single { 1e30 } else { 1e300 }];
    for d in 0..=t.pick(3usize, 4) {
        v.push(Task::new(format!("modulus {} d={}", T::N, d), move || {
            let l = T::of(limits[choose(limits.len())]);
            let m = vels(l);
            let x: Vec<T> = (0..d).map(|_| m[choose(m.len())]).collect();
            let mut lim = MaxVelocityAbs::new(l);
            check_abs(l, x.clone(), &mut lim);
            check_abs(l, x.iter().rev().map(|a| -*a).collect(), &mut lim);
        }));
        v.push(Task::new(format!("per dimension {} d={}", T::N, d), move || {
            let ls: Vec<T> = (0..d).map(|i| T::of(limits[(i * 2 + 1) % 8])).collect();
            let x: Vec<T> = (0..d)
                .map(|i| {
                    let mut m = vels(ls[i]);
                    m.push(T::infinity());
                    m.push(T::neg_infinity());
                    m[choose(m.len())]
                })
                .collect();
            let mut lim = MaxVelocityDimensions::new(ls.clone());
            check_dims(&ls, x.clone(), &mut lim);
            check_dims(&ls, x.iter().map(|a| -*a).collect(), &mut lim);
            note!("{:?} limited to {:?}", x, ls);
        }));
    }
    v.push(
        Task::new(format!("larger {}", T::N), move || {
            let d = [40usize, 17, 100, 300][choose(4)];
            let l = T::of(limits[choose(8)]);
            let m = vels(l);
            // the norm stays representable
            let top = T::max_value() / T::of(32.0);
            let x: Vec<T> = (0..d).map(|_| m[choose(m.len())].min(top).max(-top)).collect();
            check_abs(l, x.clone(), &mut MaxVelocityAbs::new(l));
            let small: Vec<T> = x.iter().map(|a| if a.abs() > l { l / T::of(20.0) } else { *a / T::of(20.0) }).collect();
            check_abs(l, small, &mut MaxVelocityAbs::new(l));
            let ls: Vec<T> = (0..d).map(|i| T::of(limits[i % 8])).collect();
            check_dims(&ls, x, &mut MaxVelocityDimensions::new(ls.clone()));
        })
        .base(seed + 3)
        .bound(2),
    );
}

fn c16(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    c16_for::<f64>(&mut v, t, seed);
    c16_for::<f32>(&mut v, t, seed);
    v
}
