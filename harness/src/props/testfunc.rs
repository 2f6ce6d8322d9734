//! C26: the test functions on grids.

use super::Prop;
use crate::engine::*;
use num::Float;
use optlib_testfunc::*;
use std::f64::consts::PI;
use std::fmt::Debug;

pub const C26: Prop = Prop {
    id: "C26",
    tasks: c26,
    bounds: "every point of boundary-value and dense grids for up to 4 dimensions (coordinates inside and outside the documented domains), single and double deviations from the minima for up to 100 dimensions, fine lines through the domains; f32 and f64",
    assumptions: &["values between the grid points follow the same formula"],
};

/// (value, bound on the rounding error in units of epsilon) in double precision
type Reference = fn(&[f64]) -> (f64, f64);

fn r_paraboloid(x: &[f64]) -> (f64, f64) {
    let mut s = 0.0;
    let mut e = 0.0;
    for (i, v) in x.iter().enumerate() {
        let d = v - (i as f64 + 1.0);
        s += d * d;
        e += 2.0 * d.abs() * (v.abs() + i as f64 + 1.0);
    }
    (s, e + s * (x.len() as f64 + 4.0))
}
fn r_schwefel(x: &[f64]) -> (f64, f64) {
    let n = x.len() as f64;
    let mut s = 418.9829 * n;
    let mut m = s;
    let mut e = 0.0;
    for v in x {
        let r = v.abs().sqrt();
        s -= v * r.sin();
        m += v.abs();
        e += v.abs() * (r + 4.0);
    }
    (s, e + m * (n + 4.0))
}
fn r_rastrigin(x: &[f64]) -> (f64, f64) {
    let n = x.len() as f64;
    let mut s = 10.0 * n;
    let mut m = s;
    let mut e = 0.0;
    for v in x {
        s += v * v - 10.0 * (2.0 * PI * v).cos();
        m += v * v + 10.0;
        // also the error of a value of pi with 15 digits
        e += 10.0 * (2.0 * PI * v.abs() * 12.0 + 4.0);
    }
    (s, e + m * (n + 4.0))
}
fn r_rosenbrock(x: &[f64]) -> (f64, f64) {
    let mut s = 0.0;
    let mut e = 0.0;
    for i in 1..x.len() {
        let (a, b) = (x[i - 1], x[i]);
        let d = b - a * a;
        let o = 1.0 - a;
        s += 100.0 * d * d + o * o;
        e += 200.0 * d.abs() * 3.0 * (b.abs() + a * a) + 4.0 * o.abs() * (1.0 + a.abs());
    }
    (s, e + s * (x.len() as f64 + 6.0))
}

fn check<T: Float + Debug>(name: &str, f: fn(&Vec<T>) -> f64, r: Reference, eps: f64, x: &[f64], domain: f64, min: &[f64]) {
    let y: Vec<T> = x.iter().map(|v| T::from(*v).unwrap()).collect();
    let z: Vec<f64> = y.iter().map(|v| v.to_f64().unwrap()).collect();
    let have = f(&y);
    let (want, e) = r(&z);
    let tol = 4.0 * eps * (e + 1e-30);
    ensure!((have - want).abs() <= tol, "formula", "{}({:?}) = {:e} instead of {:e} (rounding up to {:e})", name, y, have, want, tol);
    if z.iter().all(|v| v.abs() <= domain) {
        ensure!(have >= -tol, "minimum", "{}({:?}) = {:e} is below the documented minimum", name, y, have);
    }
    let _ = min;
    state((name.len(), have.to_bits()));
}

struct Fun<T> {
    name: &'static str,
    f: fn(&Vec<T>) -> f64,
    r: Reference,
    domain: f64,
    min: fn(usize) -> f64,
    /// largest value at the minimum per dimension
    at_min: f64,
}
impl<T> Clone for Fun<T> {
    fn clone(&self) -> Self {
        Fun { name: self.name, f: self.f, r: self.r, domain: self.domain, min: self.min, at_min: self.at_min }
    }
}

fn functions<T: Float>() -> Vec<Fun<T>> {
    vec![
        Fun { name: "paraboloid", f: paraboloid::<T>, r: r_paraboloid, domain: 1e9, min: |i| i as f64 + 1.0, at_min: 0.0 },
        Fun { name: "schwefel", f: schwefel::<T>, r: r_schwefel, domain: 500.0, min: |_| 420.9687, at_min: 2e-5 },
        Fun { name: "rastrigin", f: rastrigin::<T>, r: r_rastrigin, domain: 5.12, min: |_| 0.0, at_min: 0.0 },
        Fun { name: "rosenbrock", f: rosenbrock::<T>, r: r_rosenbrock, domain: 1e9, min: |_| 1.0, at_min: 0.0 },
    ]
}

fn tasks<T: Float + Debug + 'static>(v: &mut Vec<Task>, t: Tier, ty: &'static str, eps: f64) {
    for f in functions::<T>() {
        let span = if f.domain < 1000.0 { f.domain } else { 30.0 };
        let menu = move |i: usize, min: fn(usize) -> f64| -> Vec<f64> {
            let m = min(i);
            vec![
                m, 0.0, -m, m + 0.5, m - 1.0, span, -span, 1.0, -1.0, 0.3 * span, -0.7 * span, m + 1e-3, 2.0, -0.5, 0.25, 3.0, 1e-4,
                m - 1e-5, 1.5 * span, -2.5 * span, 7.0, -12.5, -302.5249,
            ]
        };
        for d in 1..=t.pick(3usize, 4) {
            let g = f.clone();
            v.push(Task::new(format!("{} {} menu grid d={}", f.name, ty, d), move || {
                let x: Vec<f64> = (0..d).map(|i| { let m = menu(i, g.min); m[choose(m.len())] }).collect();
                check(g.name, g.f, g.r, eps, &x, g.domain, &[]);
                note!("{}({:?}) = {}", g.name, x, (g.f)(&x.iter().map(|v| T::from(*v).unwrap()).collect()));
            }));
        }
        let g = f.clone();
        let n = t.pick(201usize, 401);
        v.push(Task::new(format!("{} {} dense grid d=2", f.name, ty), move || {
            let a = -span + 2.0 * span * choose(n) as f64 / (n - 1) as f64;
            for k in 0..n {
                let b = -span + 2.0 * span * k as f64 / (n - 1) as f64;
                check(g.name, g.f, g.r, eps, &[a, b], g.domain, &[]);
            }
            cases(n as u64);
        }));
        let g = f.clone();
        v.push(Task::new(format!("{} {} line d=1", f.name, ty), move || {
            let k = choose(1000);
            for j in 0..t.pick(100, 1000) {
                let a = -span + 2.0 * span * (k as f64 + j as f64 / t.pick(100.0, 1000.0)) / 1000.0;
                check(g.name, g.f, g.r, eps, &[a], g.domain, &[]);
            }
            cases(t.pick(100, 1000));
        }));
        let g = f.clone();
        v.push(Task::new(format!("{} {} fine grid around the minimum", f.name, ty), move || {
            let scale = [1.0, 0.1, 0.01, 1e-3, 1e-5, 1e-8][choose(6)];
            let a = (g.min)(0) + scale * (choose(41) as f64 - 20.0) / 20.0;
            for k in 0..41 {
                let b = (g.min)(1) + scale * (k as f64 - 20.0) / 20.0;
                check(g.name, g.f, g.r, eps, &[a, b], g.domain, &[]);
            }
            cases(41);
        }));
        let g = f.clone();
        v.push(
            Task::new(format!("{} {} high dimensions", f.name, ty), move || {
                let d = [5usize, 10, 33, 100, 7, 1][choose(6)];
                let x: Vec<f64> = (0..d).map(|i| { let m = menu(i, g.min); m[choose(m.len())] }).collect();
                check(g.name, g.f, g.r, eps, &x, g.domain, &[]);
            })
            .bound(t.pick(2, 3)),
        );
        for s in 0..3 {
            let g = f.clone();
            v.push(
                Task::new(format!("{} {} high dimensions, mixed {}", f.name, ty, s), move || {
                    let d = [5usize, 10, 33, 100, 300][choose(5)];
                    let x: Vec<f64> = (0..d).map(|i| { let m = menu(i, g.min); m[choose(m.len())] }).collect();
                    check(g.name, g.f, g.r, eps, &x, g.domain, &[]);
                })
                .base(s + 1)
                .bound(1),
            );
        }
        let g = f.clone();
        v.push(Task::new(format!("{} {} very high dimensions", f.name, ty), move || {
            let d = [300usize, 1000, 3000][choose(3)];
            let k = choose(23);
            let x: Vec<f64> = (0..d).map(|i| { let m = menu(i, g.min); m[if i % 7 == 3 { (k + i) % 23 } else { k }] }).collect();
            check(g.name, g.f, g.r, eps, &x, g.domain, &[]);
        }));
        let g = f.clone();
        v.push(Task::new(format!("{} {} value of the minimum", f.name, ty), move || {
            let d = 1 + choose(t.pick(40, 200));
            let x: Vec<T> = (0..d).map(|i| T::from((g.min)(i)).unwrap()).collect();
            let y = (g.f)(&x);
            let (_, e) = (g.r)(&x.iter().map(|v| v.to_f64().unwrap()).collect::<Vec<_>>());
            let tol = g.at_min * d as f64 + 4.0 * eps * e;
            ensure!(y.abs() <= tol, "minimum", "{} of its minimum in {} dimensions is {:e}", g.name, d, y);
            state((d, y.to_bits()));
        }));
    }
}

fn c26(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    tasks::<f64>(&mut v, t, "f64", f64::EPSILON);
    tasks::<f32>(&mut v, t, "f32", f32::EPSILON as f64);
    v
}
