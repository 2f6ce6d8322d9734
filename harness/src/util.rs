//! Small helpers shared by the scenarios.

/// Bit-level equality; any NaN equals any NaN.
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn bits(a: f64) -> u64 {
    if a.is_nan() {
        u64::MAX
    } else {
        a.to_bits()
    }
}

pub fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// NaN as +infinity's successor: the genetic order of goal values.
pub fn ga_less(a: f64, b: f64) -> bool {
    a < b || (!a.is_nan() && b.is_nan())
}

/// The swarm order of goal values: non-finite ones are equal and worst.
pub fn pso_less(a: f64, b: f64) -> bool {
    if a.is_finite() && b.is_finite() {
        a < b
    } else {
        a.is_finite() && !b.is_finite()
    }
}

/// The neighbouring float.
pub fn step64(x: f64, up: bool) -> f64 {
    if x == 0.0 {
        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
    }
    let b = x.to_bits();
    f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
}

pub fn step32(x: f32, up: bool) -> f32 {
    if x == 0.0 {
        return if up { f32::from_bits(1) } else { -f32::from_bits(1) };
    }
    let b = x.to_bits();
    f32::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
}
