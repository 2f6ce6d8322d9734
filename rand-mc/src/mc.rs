//! The explorer's choice source (the only difference to rand 0.7.3 besides `ThreadRng`).
//!
//! A thread-local stack of controllers answers every `choose(n)`. A controller replays a prefix of choices and
//! takes the default choice afterwards, recording everything it answered. `ThreadRng` turns choices into raw
//! words; the real distribution arithmetic of rand runs on them.
#![allow(missing_docs)]

use std::cell::{Cell, RefCell};

/// Panic payload: the replayed prefix does not fit the execution.
#[derive(Debug)]
pub struct Divergence(pub String);

/// Panic payload: an execution exceeded the horizon.
#[derive(Debug)]
pub struct Horizon(pub String);

/// Panic payload: a follower controller saw a different choice than its leader.
#[derive(Debug)]
pub struct Mismatch(pub String);

/// How raw random words are enumerated.
#[derive(Clone, Debug)]
pub struct Policy {
    /// integer ranges up to this size are enumerated completely, larger ones by `sparse`
    pub int_full: u64,
    /// number of values (spread over the range, both ends included) for larger integer ranges
    pub int_sparse: u64,
    /// raw fractions of the word space for float draws; 1.0 means the all-ones word
    pub floats: Vec<f64>,
    /// nonzero: raw words are pseudo-random by position and no choices
    pub fixed: u64,
}

impl Default for Policy {
    fn default() -> Self {
        Policy { int_full: 64, int_sparse: 5, floats: vec![0.0, 0.5, 1.0], fixed: 0 }
    }
}

#[derive(Debug)]
pub struct Ctl {
    /// (choice relative to the default, number of alternatives)
    pub prefix: Vec<(u32, u32)>,
    pub trail: Vec<(u32, u32)>,
    /// the values actually answered, for followers
    pub values: Vec<(u32, u32)>,
    /// default choice: 0 for `base == 0`, else pseudo-random by position
    pub base: u64,
    pub policy: Policy,
    pub horizon: usize,
    /// product of 1/n over all choices
    pub weight: f64,
    /// replays `prefix` as absolute values and panics with `Mismatch` on any difference
    pub follower: bool,
    /// number of random words drawn
    pub draws: u64,
}

impl Ctl {
    pub fn new(prefix: Vec<(u32, u32)>, base: u64, policy: Policy, horizon: usize) -> Ctl {
        Ctl {
            prefix,
            trail: Vec::new(),
            values: Vec::new(),
            base,
            policy,
            horizon,
            weight: 1.0,
            follower: false,
            draws: 0,
        }
    }

    pub fn follower(values: Vec<(u32, u32)>, policy: Policy, horizon: usize) -> Ctl {
        let mut c = Ctl::new(values, 0, policy, horizon);
        c.follower = true;
        c
    }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

thread_local! {
    static STACK: RefCell<Vec<Ctl>> = RefCell::new(Vec::new());
    static HINT: Cell<Option<(u64, u32)>> = Cell::new(None);
    static FALLBACK: Cell<bool> = Cell::new(false);
}

pub fn push(c: Ctl) {
    STACK.with(|s| s.borrow_mut().push(c));
}

pub fn pop() -> Ctl {
    STACK.with(|s| s.borrow_mut().pop().expect("no controller"))
}

/// Number of controllers on the stack.
pub fn depth() -> usize {
    STACK.with(|s| s.borrow().len())
}

pub fn truncate(n: usize) {
    STACK.with(|s| s.borrow_mut().truncate(n));
    HINT.with(|h| h.set(None));
    FALLBACK.with(|h| h.set(false));
}

pub fn with_top<R>(f: impl FnOnce(&mut Ctl) -> R) -> R {
    STACK.with(|s| f(s.borrow_mut().last_mut().expect("no controller: uncontrolled choice")))
}

/// One choice among `n` alternatives, 0..n.
pub fn choose(n: usize) -> usize {
    assert!(n > 0, "choose(0)");
    if n == 1 {
        return 0;
    }
    let n = n as u32;
    enum Bad {
        D(String),
        H(String),
        M(String),
    }
    let r = with_top(|c| {
        let pos = c.trail.len();
        if pos >= c.horizon {
            return Err(Bad::H(format!("more than {} choices in one execution", c.horizon)));
        }
        let value;
        if c.follower {
            if pos >= c.prefix.len() {
                return Err(Bad::M(format!("follower draws choice {} (of {}) that its leader did not draw", pos, n)));
            }
            let (v, m) = c.prefix[pos];
            if m != n {
                return Err(Bad::M(format!("choice {}: {} alternatives, leader had {}", pos, n, m)));
            }
            value = v;
            c.trail.push((v, n));
        } else {
            let k = if pos < c.prefix.len() {
                let (k, m) = c.prefix[pos];
                if m != n || k >= n {
                    return Err(Bad::D(format!("choice {}: {} alternatives, recorded {}", pos, n, m)));
                }
                k
            } else {
                0
            };
            let d = if c.base == 0 { 0 } else { (mix(c.base ^ mix(pos as u64)) % n as u64) as u32 };
            value = (k + d) % n;
            c.trail.push((k, n));
        }
        c.values.push((value, n));
        c.weight /= n as f64;
        Ok(value as usize)
    });
    match r {
        Ok(v) => v,
        Err(Bad::D(m)) => std::panic::panic_any(Divergence(m)),
        Err(Bad::H(m)) => std::panic::panic_any(Horizon(m)),
        Err(Bad::M(m)) => std::panic::panic_any(Mismatch(m)),
    }
}

/// Announces that the next raw word decides a uniform draw from `range` values of `bits` bits.
pub(crate) fn hint_int(range: u64, bits: u32) {
    HINT.with(|h| h.set(Some((range, bits))));
}

pub(crate) fn clear_hint() {
    HINT.with(|h| h.set(None));
}

/// Announces that the next float draw repeats a rejected one and is answered without a choice.
pub(crate) fn fallback() {
    FALLBACK.with(|h| h.set(true));
}

/// A raw word of `bits` (32 or 64) bits.
pub(crate) fn raw(bits: u32) -> u64 {
    with_top(|c| c.draws += 1);
    let space: u128 = 1u128 << bits;
    if FALLBACK.with(|h| h.replace(false)) {
        return (space / 2) as u64;
    }
    let (fixed, draws) = with_top(|c| (c.policy.fixed, c.draws));
    if fixed != 0 {
        return mix(fixed ^ mix(draws)) >> (64 - bits);
    }
    match HINT.with(|h| h.get()) {
        Some((range, hb)) if hb == bits && range > 0 && (range as u128) <= space / 2 => {
            let (full, sparse) = with_top(|c| (c.policy.int_full, c.policy.int_sparse));
            let value: u64 = if range <= full {
                choose(range as usize) as u64
            } else {
                let k = choose(sparse as usize) as u128;
                (k * (range as u128 - 1) / (sparse as u128 - 1).max(1)) as u64
            };
            // the smallest word that the widening multiplication maps to `value`
            let v = (value as u128 * space + range as u128 - 1) / range as u128;
            v as u64
        }
        _ => {
            let m = with_top(|c| c.policy.floats.len());
            let k = choose(m);
            let f = with_top(|c| c.policy.floats[k]);
            if f >= 1.0 {
                (space - 1) as u64
            } else if f > 0.0 {
                // the low bits, which no float looks at, are spread as well
                ((f * space as f64) as u64 & !255) | (k as u64 & 255)
            } else {
                0
            }
        }
    }
}
