//! C18: relations between values of the special functions: recurrences, reflections, symmetries, inverses.
use std::cell::RefCell;
use std::collections::HashMap;
use std::f64::consts::{FRAC_PI_2, LN_2, PI};
use vchk::*;

type F<'a> = &'a dyn Fn(&str, &[f64]) -> f64;
/// (left, right, magnitude the error is measured against)
type Sides = Option<(f64, f64, f64)>;
struct Rel {
    name: &'static str,
    /// argument generator
    args: fn(&mut Src) -> Vec<f64>,
    sides: fn(F, &[f64]) -> Sides,
    tol: f64,
}
/// A multiple of 2^-20 in [lo, hi], so x+1, 1-x, 2x, x+1/2 are exact; often near region boundaries.
fn dy(s: &mut Src, lo: f64, hi: f64) -> f64 {
    const B: &[f64] = &[0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 3.75, 5.0, 6.0, 8.0, 10.0, 12.0, 15.0, 20.0, 25.0, 30.0, -0.5, -1.5, -2.5, -7.5, -0.25, -8.0, -3.0, -10.0, -20.0];
    let q = 1048576.0;
    loop {
        let x = match s.below(8) {
            0 | 1 => s.pick(B) + (s.unit() - 0.5) / 8.0,
            2 => s.pick(B) + (s.unit() - 0.5) / 4096.0,
            3 => s.range((lo * 4.0).ceil() as i64, (hi * 4.0).floor() as i64) as f64 / 4.0,
            4 | 5 => {
                // towards the end of small magnitude
                let a = lo.max(-4.0);
                a + (hi.min(4.0) - a) * s.unit()
            }
            _ => lo + (hi - lo) * s.unit(),
        };
        let x = (x * q).round() / q;
        if x >= lo && x <= hi {
            return x;
        }
    }
}
fn away(x: f64) -> bool {
    // not a pole of gamma and the like
    x > 0.0 || x != x.floor()
}
fn n(s: &mut Src, lo: i64, hi: i64) -> f64 {
    if s.chance(3, 4) { s.range(lo, hi.min(lo + 8)) as f64 } else { s.range(lo, hi) as f64 }
}
fn fact(k: f64) -> f64 {
    (1..=k as u64).map(|i| i as f64).product()
}
fn sgn(k: f64) -> f64 {
    if k.rem_euclid(2.0) == 0.0 { 1.0 } else { -1.0 }
}
/// sin(pi x) without the rounding of pi x
fn sinpi(x: f64) -> f64 {
    let r = x.rem_euclid(2.0);
    let (r, sg) = if r >= 1.0 { (r - 1.0, -1.0) } else { (r, 1.0) };
    sg * if r <= 0.25 {
        (PI * r).sin()
    } else if r <= 0.75 {
        (PI * (r - 0.5)).cos()
    } else {
        (PI * (1.0 - r)).sin()
    }
}
fn cospi(x: f64) -> f64 {
    sinpi(x + 0.5)
}
/// growth of the error of an argument by an ulp or two next to a pole at an integer <= 0
fn cond(xs: &[f64]) -> f64 {
    xs.iter().filter(|x| **x < 0.5).map(|x| 1e-2 * x.abs() / (x - x.round()).abs().max(1e-300)).sum::<f64>() + 1.0
}
fn wide(s: Sides, c: f64) -> Sides {
    s.map(|(l, r, k)| (l, r, k * c))
}
fn m(v: &[f64]) -> f64 {
    v.iter().fold(0.0f64, |a, b| a.max(b.abs()))
}
fn same(a: f64, b: f64) -> Sides {
    Some((a, b, a.abs().max(b.abs())))
}
/// the growing solution bounds the error of a recurrence
fn amp_jy(f: F, k: f64, x: f64) -> f64 {
    let (j, y) = (f("besselj", &[k, x.abs()]), f("bessely", &[k, x.abs()]));
    if y.is_finite() { j.abs().max(y.abs()).max(1e-30) } else { f64::INFINITY }
}
macro_rules! rel {
    ($name:literal, $tol:expr, $args:expr, $sides:expr) => {
        Rel { name: $name, args: $args, sides: $sides, tol: $tol }
    };
}
fn rels() -> Vec<Rel> {
    vec![
        // ---------------------------------------------------------------- gamma and beta
        rel!("gamma(x+1) = x gamma(x)", 4e-13, |s| vec![dy(s, -60.0, 170.0)], |f, a| {
            let x = a[0];
            if !away(x) || !away(x + 1.0) { return None; }
            wide(same(f("gamma", &[x + 1.0]), x * f("gamma", &[x])), cond(&[x]))
        }),
        rel!("gamma(x) gamma(1-x) sin(pi x) = pi", 4e-13, |s| vec![dy(s, -70.0, 70.0)], |f, a| {
            let x = a[0];
            if x == x.floor() { return None; }
            Some((f("gamma", &[x]) * f("gamma", &[1.0 - x]) * sinpi(x), PI, PI * cond(&[x, 1.0 - x])))
        }),
        rel!("gamma duplication", 8e-13, |s| vec![dy(s, -20.0, 85.0)], |f, a| {
            let x = a[0];
            if !away(x) || !away(2.0 * x) || !away(x + 0.5) { return None; }
            wide(same(f("gamma", &[x]) * f("gamma", &[x + 0.5]), (2.0f64).powf(1.0 - 2.0 * x) * PI.sqrt() * f("gamma", &[2.0 * x])), cond(&[x, x + 0.5, 2.0 * x]))
        }),
        rel!("beta(a,b) = beta(b,a)", 1e-14, |s| vec![dy(s, -6.0, 60.0), dy(s, -6.0, 60.0)], |f, a| {
            if !away(a[0]) || !away(a[1]) || !away(a[0] + a[1]) { return None; }
            same(f("beta", &[a[0], a[1]]), f("beta", &[a[1], a[0]]))
        }),
        rel!("beta(a,b) = beta(a+1,b) + beta(a,b+1)", 4e-12, |s| vec![dy(s, -6.0, 60.0), dy(s, -6.0, 60.0)], |f, a| {
            let (x, y) = (a[0], a[1]);
            if !away(x) || !away(y) || !away(x + y) || !away(x + 1.0) || !away(y + 1.0) || !away(x + y + 1.0) { return None; }
            let (l, p, q) = (f("beta", &[x, y]), f("beta", &[x + 1.0, y]), f("beta", &[x, y + 1.0]));
            Some((l, p + q, m(&[l, p, q]) * cond(&[x, y, x + y])))
        }),
        rel!("beta(a,b) gamma(a+b) = gamma(a) gamma(b)", 3e-12, |s| vec![dy(s, -6.0, 80.0), dy(s, -6.0, 80.0)], |f, a| {
            let (x, y) = (a[0], a[1]);
            if !away(x) || !away(y) || !away(x + y) { return None; }
            wide(same(f("beta", &[x, y]) * f("gamma", &[x + y]), f("gamma", &[x]) * f("gamma", &[y])), cond(&[x, y, x + y]))
        }),
        // ---------------------------------------------------------------- polygamma
        rel!("digamma(x+1) = digamma(x) + 1/x", 1e-12, |s| vec![dy(s, -60.0, 300.0)], |f, a| {
            let x = a[0];
            if !away(x) || !away(x + 1.0) { return None; }
            let (l, r) = (f("digamma", &[x + 1.0]), f("digamma", &[x]));
            Some((l, r + 1.0 / x, m(&[l, r, 1.0 / x, 0.05]) * cond(&[x])))
        }),
        rel!("digamma(1-x) - digamma(x) = pi cot(pi x)", 1e-12, |s| vec![dy(s, -60.0, 60.0)], |f, a| {
            let x = a[0];
            if x == x.floor() { return None; }
            let (l, r) = (f("digamma", &[1.0 - x]), f("digamma", &[x]));
            Some((l - r, PI * cospi(x) / sinpi(x), m(&[l, r, 0.05, PI / sinpi(x)]) * cond(&[x, 1.0 - x])))
        }),
        rel!("trigamma(x+1) = trigamma(x) - 1/x^2", 2e-12, |s| vec![dy(s, -60.0, 300.0)], |f, a| {
            let x = a[0];
            if !away(x) || !away(x + 1.0) { return None; }
            let (l, r) = (f("trigamma", &[x + 1.0]), f("trigamma", &[x]));
            Some((l, r - 1.0 / (x * x), m(&[l, r, 1.0 / (x * x)]) * cond(&[x])))
        }),
        rel!("trigamma(x) + trigamma(1-x) = pi^2/sin^2(pi x)", 2e-12, |s| vec![dy(s, -60.0, 60.0)], |f, a| {
            let x = a[0];
            if x == x.floor() { return None; }
            let (l, r) = (f("trigamma", &[1.0 - x]), f("trigamma", &[x]));
            Some((l + r, (PI / sinpi(x)).powi(2), m(&[l, r]) * cond(&[x, 1.0 - x])))
        }),
        rel!("tetragamma(x+1) = tetragamma(x) + 2/x^3", 2e-12, |s| vec![dy(s, -30.0, 100.0)], |f, a| {
            let x = a[0];
            if !away(x) || !away(x + 1.0) { return None; }
            let (l, r) = (f("tetragamma", &[x + 1.0]), f("tetragamma", &[x]));
            Some((l, r + 2.0 / x.powi(3), m(&[l, r, 2.0 / x.powi(3)]) * cond(&[x])))
        }),
        rel!("polygamma(n,x+1) = polygamma(n,x) + (-1)^n n!/x^(n+1)", 2e-10, |s| vec![n(s, 0, 12), dy(s, -20.0, 100.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if !away(x) || !away(x + 1.0) { return None; }
            let (l, r, t) = (f("polygamma", &[k, x + 1.0]), f("polygamma", &[k, x]), sgn(k) * fact(k) / x.powi(k as i32 + 1));
            // next to a pole the other side's magnitude enters
            let d = if x < 1.0 { (x - x.round()).abs().min(1.0) } else { x };
            let base = if k > 0.0 { fact(k) * d.powi(-(k as i32) - 1) } else { 0.05 };
            Some((l, r + t, m(&[l, r, t, if x < 1.0 { base } else { 0.0 }]) * cond(&[x])))
        }),
        rel!("polygamma(k,x) = digamma, trigamma, tetragamma", 1e-10, |s| vec![n(s, 0, 2), dy(s, -30.0, 100.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if !away(x) { return None; }
            let r = f(["digamma", "trigamma", "tetragamma"][k as usize], &[x]);
            let l = f("polygamma", &[k, x]);
            Some((l, r, m(&[l, r, if k == 1.0 { 0.0 } else { 0.01 }]) * cond(&[x])))
        }),
        rel!("polygamma duplication", 2e-10, |s| vec![n(s, 0, 12), dy(s, 0.0, 60.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x <= 0.0 { return None; }
            let (l, p, q) = (f("polygamma", &[k, 2.0 * x]), f("polygamma", &[k, x]), f("polygamma", &[k, x + 0.5]));
            let c = (2.0f64).powi(-(k as i32) - 1);
            Some((l, c * (p + q) + if k == 0.0 { LN_2 } else { 0.0 }, m(&[l, c * p, c * q, if k == 0.0 { 1.0 } else { 0.0 }])))
        }),
        // ---------------------------------------------------------------- error function
        rel!("erf is odd", 1e-15, |s| vec![dy(s, -8.0, 8.0)], |f, a| same(f("erf", &[-a[0]]), -f("erf", &[a[0]]))),
        rel!("erf + erfc = 1", 1e-14, |s| vec![dy(s, -8.0, 8.0)], |f, a| Some((f("erf", a) + f("erfc", a), 1.0, 1.0))),
        rel!("erfc(-x) = 2 - erfc(x)", 1e-14, |s| vec![dy(s, -8.0, 8.0)], |f, a| Some((f("erfc", &[-a[0]]), 2.0 - f("erfc", a), 1.0))),
        rel!("erf does not decrease", 1e-15, |s| vec![dy(s, -6.0, 6.0), s.unit() / 1024.0], |f, a| {
            let (p, q) = (f("erf", &[a[0]]), f("erf", &[a[0] + a[1]]));
            Some((p.min(q), p, 1.0))
        }),
        // ---------------------------------------------------------------- Bessel
        rel!("besselj(n-1) + besselj(n+1) = 2n/x besselj(n)", 4e-7, |s| vec![n(s, -5, 25), dy(s, -40.0, 40.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x == 0.0 { return None; }
            let (p, q, r) = (f("besselj", &[k - 1.0, x]), f("besselj", &[k + 1.0, x]), 2.0 * k / x * f("besselj", &[k, x]));
            let k = k.abs();
            // upward recurrence is used for n <= |x|
            let amp = if k + 1.0 <= x.abs() { amp_jy(f, k + 1.0, x) * (1.0 + k / x.abs()) } else { 1.0 };
            Some((p + q, r, m(&[p, q, r]).max(amp).max(0.3)))
        }),
        rel!("besselj(-n,x) = (-1)^n besselj(n,x)", 1e-14, |s| vec![n(s, 0, 30), dy(s, -40.0, 40.0)], |f, a| same(f("besselj", &[-a[0], a[1]]), sgn(a[0]) * f("besselj", a))),
        rel!("besselj(n,-x) = (-1)^n besselj(n,x)", 1e-14, |s| vec![n(s, 0, 30), dy(s, 0.0, 40.0)], |f, a| same(f("besselj", &[a[0], -a[1]]), sgn(a[0]) * f("besselj", a))),
        rel!("bessely(-n,x) = (-1)^n bessely(n,x)", 1e-14, |s| vec![n(s, 0, 12), dy(s, 0.0, 40.0)], |f, a| if a[1] <= 0.0 { None } else { same(f("bessely", &[-a[0], a[1]]), sgn(a[0]) * f("bessely", a)) }),
        rel!("bessely(n-1) + bessely(n+1) = 2n/x bessely(n)", 2e-6, |s| vec![n(s, -4, 12), dy(s, 0.0, 40.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x <= 0.0 { return None; }
            let (p, q, r) = (f("bessely", &[k - 1.0, x]), f("bessely", &[k + 1.0, x]), 2.0 * k / x * f("bessely", &[k, x]));
            Some((p + q, r, m(&[p, q, r]).max(0.3)))
        }),
        rel!("besselj(n+1) bessely(n) - besselj(n) bessely(n+1) = 2/(pi x)", 2e-6, |s| vec![n(s, 0, 10), dy(s, 0.0, 40.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x <= 0.0 { return None; }
            let (j, j1, y, y1) = (f("besselj", &[k, x]), f("besselj", &[k + 1.0, x]), f("bessely", &[k, x]), f("bessely", &[k + 1.0, x]));
            Some((j1 * y - j * y1, 2.0 / (PI * x), m(&[j1 * y, j * y1, 1.0 / x]).max(y.abs().max(y1.abs()) * if k <= x { 0.4 } else { 0.0 }).max(0.1 * y1.abs())))
        }),
        rel!("besseli(n-1) - besseli(n+1) = 2n/x besseli(n)", 2e-6, |s| vec![n(s, -4, 25), dy(s, -60.0, 60.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x == 0.0 { return None; }
            let (p, q, r) = (f("besseli", &[k - 1.0, x]), f("besseli", &[k + 1.0, x]), 2.0 * k / x * f("besseli", &[k, x]));
            Some((p - q, r, m(&[p, q, r])))
        }),
        rel!("besseli(-n,x) = besseli(n,x), besseli(n,-x) = (-1)^n besseli(n,x)", 1e-14, |s| vec![n(s, 0, 25), dy(s, 0.0, 60.0)], |f, a| same(f("besseli", &[-a[0], -a[1]]), sgn(a[0]) * f("besseli", a))),
        rel!("besselk(n+1) - besselk(n-1) = 2n/x besselk(n)", 2e-6, |s| vec![n(s, -4, 15), dy(s, 0.0, 60.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x <= 0.0 { return None; }
            let (p, q, r) = (f("besselk", &[k - 1.0, x]), f("besselk", &[k + 1.0, x]), 2.0 * k / x * f("besselk", &[k, x]));
            Some((q - p, r, m(&[p, q, r])))
        }),
        rel!("besselk(-n,x) = besselk(n,x)", 1e-14, |s| vec![n(s, 0, 15), dy(s, 0.0, 60.0)], |f, a| if a[1] <= 0.0 { None } else { same(f("besselk", &[-a[0], a[1]]), f("besselk", a)) }),
        rel!("besseli(n) besselk(n+1) + besseli(n+1) besselk(n) = 1/x", 2e-6, |s| vec![n(s, 0, 15), dy(s, 0.0, 60.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            if x <= 0.0 { return None; }
            Some((f("besseli", &[k, x]) * f("besselk", &[k + 1.0, x]) + f("besseli", &[k + 1.0, x]) * f("besselk", &[k, x]), 1.0 / x, 1.0 / x))
        }),
        // ---------------------------------------------------------------- orthogonal polynomials
        rel!("hermite(n+1) = 2x hermite(n) - 2n hermite(n-1)", 1e-12, |s| vec![n(s, 1, 40), dy(s, -20.0, 20.0)], |f, a| {
            let (k, x) = (a[0], a[1]);
            let (l, p, q) = (f("hermite", &[k + 1.0, x]), 2.0 * x * f("hermite", &[k, x]), 2.0 * k * f("hermite", &[k - 1.0, x]));
            // |H_n(ix)| bounds the magnitudes inside
            let (mut h0, mut h1) = (1.0, 2.0 * x.abs());
            for i in 1..=(k as i64) {
                (h0, h1) = (h1, 2.0 * x.abs() * h1 + 2.0 * i as f64 * h0);
            }
            Some((l, p - q, m(&[l, p, q, h1])))
        }),
        rel!("hermite(n,-x) = (-1)^n hermite(n,x)", 1e-14, |s| vec![n(s, 0, 40), dy(s, -20.0, 20.0)], |f, a| same(f("hermite", &[a[0], -a[1]]), sgn(a[0]) * f("hermite", a))),
        rel!("(l-m+1) P(l+1,m) = (2l+1) x P(l,m) - (l+m) P(l-1,m)", 1e-12, |s| { let l = n(s, 1, 20); vec![l, s.range(0, l as i64 - 1) as f64, dy(s, -1.0, 1.0)] }, |f, a| {
            let (l, k, x) = (a[0], a[1], a[2]);
            let (u, v, w) = ((l - k + 1.0) * f("assoc_legendre", &[l + 1.0, k, x]), (2.0 * l + 1.0) * x * f("assoc_legendre", &[l, k, x]), (l + k) * f("assoc_legendre", &[l - 1.0, k, x]));
            let scale = (fact(l + k) / fact(l - k)).sqrt();
            Some((u, v - w, m(&[u, v, w, scale])))
        }),
        rel!("P(l,m,-x) = (-1)^(l+m) P(l,m,x)", 1e-13, |s| { let l = n(s, 0, 20); vec![l, s.range(-l as i64, l as i64) as f64, dy(s, -1.0, 1.0)] }, |f, a| same(f("assoc_legendre", &[a[0], a[1], -a[2]]), sgn(a[0] + a[1]) * f("assoc_legendre", a))),
        rel!("P(l,-m) = (-1)^m (l-m)!/(l+m)! P(l,m)", 1e-12, |s| { let l = n(s, 0, 15); vec![l, s.range(0, l as i64) as f64, dy(s, -1.0, 1.0)] }, |f, a| same(f("assoc_legendre", &[a[0], -a[1], a[2]]), sgn(a[1]) * fact(a[0] - a[1]) / fact(a[0] + a[1]) * f("assoc_legendre", a))),
        rel!("P(l,m) of |x|=1", 1e-14, |s| { let l = n(s, 0, 20); vec![l, s.range(-l as i64, l as i64) as f64, if s.chance(1, 2) { 1.0 } else { -1.0 }] }, |f, a| {
            let want = if a[1] != 0.0 { 0.0 } else if a[2] > 0.0 { 1.0 } else { sgn(a[0]) };
            Some((f("assoc_legendre", a), want, 1.0))
        }),
        rel!("sum over m of ynm(l,m,t,0)^2 = (2l+1)/(4 pi)", 1e-12, |s| vec![n(s, 0, 14), dy(s, -7.0, 7.0)], |f, a| {
            let l = a[0] as i64;
            let sum: f64 = (-l..=l).map(|k| f("ynm", &[a[0], k as f64, a[1], 0.0]).powi(2)).sum();
            let w = (2.0 * a[0] + 1.0) / (4.0 * PI);
            Some((sum, w, w))
        }),
        rel!("ynm = spherical_harmonic", 1e-15, |s| { let l = n(s, 0, 12); vec![l, s.range(-l as i64, l as i64) as f64, dy(s, -7.0, 7.0), dy(s, -7.0, 7.0)] }, |f, a| same(f("ynm", a), f("spherical_harmonic", a))),
        rel!("ynm(l,m,t,p) = ynm(l,m,t,0) cos(m p)", 1e-12, |s| { let l = n(s, 0, 12); vec![l, s.range(-l as i64, l as i64) as f64, dy(s, -7.0, 7.0), dy(s, -7.0, 7.0)] }, |f, a| {
            Some((f("ynm", a), f("ynm", &[a[0], a[1], a[2], 0.0]) * (a[1] * a[3]).cos(), (2.0 * a[0] + 1.0).sqrt()))
        }),
        // ---------------------------------------------------------------- elliptic
        rel!("Legendre's relation", 1e-12, |s| vec![0.001 + 0.998 * s.unit()], |f, a| {
            let (k, c) = (a[0], ((1.0 - a[0]) * (1.0 + a[0])).sqrt());
            let (kk, kc, e, ec) = (f("elliptic_k", &[k]), f("elliptic_k", &[c]), f("elliptic_e", &[k]), f("elliptic_e", &[c]));
            // c has a rounding error, and K has slope k/(1-k^2) there
            Some((e * kc + ec * kk - kk * kc, FRAC_PI_2, (e * kc).abs() + (ec * kk).abs() + (kk * kc).abs() + 1e-2 / (k * k) + 1e-2 / (c * c)))
        }),
        rel!("Landen's transformation", 1e-12, |s| vec![s.unit() * 0.99], |f, a| {
            let k = a[0];
            let t = 2.0 * k.sqrt() / (1.0 + k);
            let (l, r) = (f("elliptic_k", &[t]), (1.0 + k) * f("elliptic_k", &[k]));
            let c = (1.0 - k) / (1.0 + k);
            Some((l, r, r.abs() + 1e-2 / (c * c)))
        }),
        rel!("elliptic integrals are even", 1e-15, |s| vec![s.unit(), s.below(2) as f64], |f, a| {
            let n = ["elliptic_k", "elliptic_e"][a[1] as usize];
            same(f(n, &[-a[0]]), f(n, &[a[0]]))
        }),
        // ---------------------------------------------------------------- zeta
        rel!("zeta(s) = 2^s pi^(s-1) sin(pi s/2) gamma(1-s) zeta(1-s)", 2e-12, |s| vec![dy(s, -60.0, 60.0)], |f, a| {
            let s = a[0];
            if s == 1.0 || s == 0.0 || (s > 0.0 && s == s.floor()) { return None; }
            let (l, z) = (f("zeta", &[s]), f("zeta", &[1.0 - s]));
            let c = (2.0f64).powf(s) * PI.powf(s - 1.0) * f("gamma", &[1.0 - s]);
            Some((l, c * sinpi(s / 2.0) * z, m(&[l, c * z * 0.01]) * (1.0 + 4e-3 / (s - 1.0).abs() + 4e-3 / s.abs())))
        }),
        rel!("(1 - 2^(1-s)) zeta(s) = alternating sum", 1e-12, |s| vec![dy(s, 0.0, 40.0)], |f, a| {
            let s = a[0];
            if s == 1.0 || s < 0.01 { return None; }
            // Cohen, Rodriguez Villegas, Zagier: convergence like 5.8^-n
            let nn = 30;
            let d = (3.0 + 8.0f64.sqrt()).powi(nn);
            let d = (d + 1.0 / d) / 2.0;
            let (mut b, mut c, mut t) = (-1.0, -d, 0.0);
            for k in 0..nn {
                c = b - c;
                t += c * ((k + 1) as f64).powf(-s);
                b *= (k + nn) as f64 * (k - nn) as f64 / ((k as f64 + 0.5) * (k + 1) as f64);
            }
            let eta = t / d;
            let z = f("zeta", &[s]);
            Some((-((1.0 - s) * LN_2).exp_m1() * z, eta, eta.abs() * (1.0 + 4e-3 / (s - 1.0).abs())))
        }),
        rel!("zeta at even and negative integers", 1e-12, |s| vec![s.range(0, 8) as f64], |f, a| {
            let k = a[0] as usize;
            // zeta(2k) / pi^(2k)
            const Z: [f64; 9] = [-0.5, 1.0 / 6.0, 1.0 / 90.0, 1.0 / 945.0, 1.0 / 9450.0, 1.0 / 93555.0, 691.0 / 638512875.0, 2.0 / 18243225.0, 3617.0 / 325641566250.0];
            let w = Z[k] * PI.powi(2 * k as i32);
            let v = f("zeta", &[2.0 * a[0]]);
            if k > 0 && f("zeta", &[-2.0 * a[0]]).abs() > 1e-13 { return Some((f("zeta", &[-2.0 * a[0]]), 0.0, 1e-30)); }
            Some((v, w, w.abs()))
        }),
        rel!("zeta_deriv(0,s) = zeta(s)", 1e-8, |s| vec![dy(s, -20.0, 40.0)], |f, a| if a[0] == 1.0 { None } else { let (l, r) = (f("zeta_deriv", &[0.0, a[0]]), f("zeta", &[a[0]])); Some((l, r, m(&[l, r, 0.01]))) }),
        rel!("zeta_deriv(n+1,s) is the slope of zeta_deriv(n,s)", 1e-3, |s| vec![n(s, 0, 4), dy(s, -10.0, 20.0)], |f, a| {
            let (k, s) = (a[0], a[1]);
            let d = (s - 1.0).abs();
            if d < 0.25 { return None; }
            let h = 1.0 / 128.0;
            let g = |t: f64| f("zeta_deriv", &[k, t]);
            let num = (8.0 * (g(s + h) - g(s - h)) - (g(s + 2.0 * h) - g(s - 2.0 * h))) / (12.0 * h);
            let v = f("zeta_deriv", &[k + 1.0, s]);
            // working magnitude: the pole's part, and for s < 0 the reflected factor
            let mut base = fact(k + 1.0) / d.powf(k + 2.0) + 1.0;
            if s < 0.0 {
                base += (2.0 * (2.0 * PI).powf(s - 1.0) * f("gamma", &[1.0 - s])).abs() * ((2.0 * PI).ln() + f("digamma", &[1.0 - s]).abs() + 2.0).powf(k + 1.0);
            }
            Some((v, num, m(&[v, base * 1e-2])))
        }),
        // ---------------------------------------------------------------- Lambert W
        rel!("W(x) e^W(x) = x", 1e-13, |s| vec![match s.below(3) { 0 => -(-1.0f64).exp() + (-12.0 * s.unit()).exp() * 0.3, 1 => dy(s, -0.36, 40.0), _ => (60.0 * s.unit() - 20.0).exp() }], |f, a| {
            let w = f("lambertw", a);
            Some((w * w.exp(), a[0], a[0].abs() * (1.0 + w.abs())))
        }),
        rel!("W(y e^y) = y for y >= -1", 1e-13, |s| vec![dy(s, -0.999, 40.0)], |f, a| {
            let y = a[0];
            let w = f("lambertw", &[y * y.exp()]);
            // slope of W at y e^y is 1/(e^y (1+y))
            Some((w, y, m(&[y, 1e-2 * y / (1.0 + y)])))
        }),
        // ---------------------------------------------------------------- elementary inverses
        rel!("trigonometric inverses", 1e-14, |s| vec![s.below(6) as f64, dy(s, -1.0, 1.0)], |f, a| {
            let (x, h) = (a[1], 10.0 * a[1]);
            match a[0] as u32 {
                0 => Some((f("sin", &[f("asin", &[x])]), x, 1.0)),
                1 => Some((f("cos", &[f("acos", &[x])]), x, 1.0)),
                2 => Some((f("tan", &[f("atan", &[h])]), h, 1.0 + h * h)),
                3 if x != 0.0 => Some((f("cot", &[f("acot", &[h])]), h, 1.0 + h * h)),
                4 if x != 0.0 => { let y = 1.0 / x; Some((f("sec", &[f("asec", &[y])]), y, y * y)) }
                5 if x != 0.0 => { let y = 1.0 / x; Some((f("csc", &[f("acsc", &[y])]), y, y * y)) }
                _ => None,
            }
        }),
        rel!("hyperbolic inverses", 1e-13, |s| vec![s.below(6) as f64, dy(s, -8.0, 8.0)], |f, a| {
            let x = a[1];
            match a[0] as u32 {
                0 => Some((f("asinh", &[f("sinh", &[x])]), x, x.abs())),
                1 => Some((f("cosh", &[f("acosh", &[f("cosh", &[x])])]), f("cosh", &[x]), f("cosh", &[x]))),
                2 => Some((f("tanh", &[f("atanh", &[x / 8.5])]), x / 8.5, 1.0)),
                3 if x != 0.0 => { let y = 8.5 / x; Some((f("coth", &[f("acoth", &[y])]), y, y * y)) }
                4 if x > 0.0 => { let y = x / 8.0; Some((f("sech", &[f("asech", &[y])]), y, 1.0)) }
                5 if x != 0.0 => Some((f("csch", &[f("acsch", &[x])]), x, x.abs())),
                _ => None,
            }
        }),
        rel!("powers, roots and logarithms", 1e-13, |s| vec![s.below(7) as f64, dy(s, -30.0, 30.0)], |f, a| {
            let x = a[1];
            let p = x.abs() + 0.5;
            match a[0] as u32 {
                0 => same(f("cbrt", &[x]).powi(3), x),
                1 => same(f("sqrt", &[p]).powi(2), p),
                2 => Some((f("ln", &[f("exp", &[x])]), x, 1.0 + x.abs())),
                3 => Some((f("log10", &[p]) * 10f64.ln(), f("ln", &[p]), 1.0)),
                4 => Some((f("log2", &[p]) * LN_2, f("ln", &[p]), 1.0)),
                5 if p != 1.0 => Some((f("log", &[p, 3.0]) * f("ln", &[p]), 3f64.ln(), 1.0)),
                _ => same(f("exp_polar", &[x]), f("exp", &[x])),
            }
        }),
        rel!("rounding", 0.0, |s| vec![s.below(4) as f64, if s.chance(1, 2) { s.range(-40, 40) as f64 / 4.0 } else { (s.unit() - 0.5) * 1e6 }], |f, a| {
            let x = a[1];
            let fl = f("floor", &[x]);
            match a[0] as u32 {
                0 => Some((f("ceil", &[x]), -f("floor", &[-x]), 1.0)),
                1 => Some((if fl <= x && x < fl + 1.0 && fl == fl.trunc() { 1.0 } else { 0.0 }, 1.0, 1.0)),
                2 => Some((f("round", &[-x]), -f("round", &[x]), 1.0)),
                _ => Some((f("abs", &[x]), if x == 0.0 { 0.0 } else { x * f("signum", &[x]) }, 1.0)),
            }
        }),
        rel!("atan2", 1e-14, |s| vec![dy(s, -9.0, 9.0), dy(s, -9.0, 9.0)], |f, a| {
            let (y, x) = (a[0], a[1]);
            if x == 0.0 && y == 0.0 { return None; }
            let t = f("atan2", &[y, x]);
            if !(-PI..=PI).contains(&t) { return Some((t, PI, 1.0)); }
            let r = (x * x + y * y).sqrt();
            Some(((r * f("sin", &[t]) - y).abs() + (r * f("cos", &[t]) - x).abs(), 0.0, r))
        }),
        rel!("reciprocals and sinc", 1e-14, |s| vec![s.below(8) as f64, dy(s, -9.0, 9.0)], |f, a| {
            let x = a[1];
            let rec = |p: &str, q: &str| { let (u, v) = (f(p, &[x]), f(q, &[x])); if v == 0.0 { None } else { Some((u * v, 1.0, 1.0)) } };
            match a[0] as u32 {
                0 => rec("sec", "cos"),
                1 => rec("csc", "sin"),
                2 => rec("cot", "tan"),
                3 => rec("sech", "cosh"),
                4 => rec("csch", "sinh"),
                5 => rec("coth", "tanh"),
                6 => Some((f("sinc", &[x]) * x, f("sin", &[x]), x.abs().max(1e-300))),
                _ => Some((f("sin", &[x]).powi(2) + f("cos", &[x]).powi(2), 1.0, 1.0)),
            }
        }),
    ]
}
thread_local! {
    static RELS: Vec<Rel> = rels();
    static COMPILED: RefCell<HashMap<String, sa::CompiledEvaluator>> = RefCell::new(HashMap::new());
}
/// the same function through the compiler
fn compiled(name: &str, a: &[f64]) -> f64 {
    COMPILED.with(|c| {
        let mut c = c.borrow_mut();
        // orders have to be numbers when compiling
        let ord = orders(name).min(a.len());
        let key = format!("{name}{:?}", &a[..ord]);
        if !c.contains_key(&key) {
            let names = ["x", "y", "z", "t"];
            let args: Vec<symb_anafis::Expr> = a.iter().enumerate().map(|(i, v)| if i < ord { symb_anafis::Expr::number(*v) } else { sa::symb(names[i]).into() }).collect();
            let e = symb_anafis::Expr::func_multi(name, args);
            let ev = sa::CompiledEvaluator::compile(&e, &names[ord..a.len()], None).unwrap();
            c.insert(key.clone(), ev);
        }
        c[&key].evaluate(&a[ord..])
    })
}
fn orders(name: &str) -> usize {
    match name {
        "polygamma" | "besselj" | "bessely" | "besseli" | "besselk" | "hermite" | "zeta_deriv" => 1,
        "assoc_legendre" | "ynm" | "spherical_harmonic" => 2,
        _ => 0,
    }
}
fn relation(s: &mut Src, cx: &mut Cx) -> Out {
    RELS.with(|rs| {
        let i = s.us(rs.len());
        let r = &rs[i];
        let a = (r.args)(s);
        cx.show(format!("{} at {a:?}", r.name));
        for (how, f) in [("symbolic", &lib_call as F), ("compiled", &compiled as F)] {
            let Some((l, w, scale)) = (r.sides)(f, &a) else { return Out::Discard };
            if !scale.is_nan() && !(1e-290..1e290).contains(&scale) && !(scale == 0.0 && l == w) {
                return Out::Discard;
            }
            if !((l - w).abs() <= r.tol * scale) {
                return Out::fail(r.name, format!("{how} values at {a:?}: {} has sides {l} and {w}, off by {:e} of {scale}", r.name, (l - w).abs() / scale));
            }
        }
        cx.note(r.name);
        cx.pass(true)
    })
}
fn spec() -> Spec {
    Spec::new("C18", "one of about fifty relations between values of the built-in functions, at exact arguments (multiples of 2^-20) gathered around region boundaries, poles and branch points; non-trivial: both sides were computed, by the symbolic evaluator and by compiled code")
        .stage("relation", 6_000_000, 200_000_000, relation)
}
fn main() {
    main_with(spec)
}
