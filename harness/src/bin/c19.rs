//! C19: dual numbers give the ordinary value and the exact derivative, and obey the ring laws.
use sa::{Dual, MathScalar};
use vchk::*;

/// The operations written once, for f64-like scalars; special functions only exist on Dual.
trait Scalar: MathScalar {
    fn special(name: &str, a: &[Self], k: i32) -> Option<Self>;
}
impl<S: MathScalar> Scalar for Dual<S> {
    fn special(name: &str, a: &[Self], k: i32) -> Option<Self> {
        let x = *a.last().unwrap();
        match name {
            "erf" => Some(x.erf()),
            "erfc" => Some(x.erfc()),
            "gamma" => x.gamma(),
            "digamma" => x.digamma(),
            "trigamma" => x.trigamma(),
            "polygamma" => x.polygamma(k),
            "zeta" => x.zeta(),
            "lambertw" => x.lambert_w(),
            "besselj" => x.bessel_j(k),
            "sinc" => Some(x.sinc()),
            "elliptic_k" => x.elliptic_k(),
            "elliptic_e" => x.elliptic_e(),
            "beta" => a[0].beta(a[1]),
            _ => None,
        }
    }
}
fn c<S: MathScalar>(x: f64) -> S {
    S::from_f64(x).unwrap()
}
/// pick among equivalent ways of writing an operation
fn run<S: Scalar>(t: &T, env: &[S], pick: u64) -> Option<S> {
    let r = |t: &T| run(t, env, pick);
    let p = mix(pick, t.size() as u64) % 4;
    Some(match t {
        Num(n) => c(*n),
        Pi => S::PI(),
        E => S::E(),
        Opaque(_) => return None,
        Var(i) => *env.get(*i)?,
        Neg(a) => -r(a)?,
        Add(a, b) => {
            let (a, b) = (r(a)?, r(b)?);
            match p {
                0 => {
                    let mut v = a;
                    v += b;
                    v
                }
                _ => a + b,
            }
        }
        Sub(a, b) => {
            let (a, b) = (r(a)?, r(b)?);
            match p {
                0 => {
                    let mut v = a;
                    v -= b;
                    v
                }
                1 => a + (-b),
                _ => a - b,
            }
        }
        Mul(a, b) => {
            let (a, b) = (r(a)?, r(b)?);
            match p {
                0 => {
                    let mut v = a;
                    v *= b;
                    v
                }
                1 => a.mul_add(b, S::zero()),
                _ => a * b,
            }
        }
        Div(a, b) => {
            let (a, b) = (r(a)?, r(b)?);
            match p {
                0 => {
                    let mut v = a;
                    v /= b;
                    v
                }
                1 => a * b.recip(),
                _ => a / b,
            }
        }
        Pow(a, b) => {
            let x = r(a)?;
            match **b {
                Num(k) if k == k.trunc() && k.abs() < 40.0 && p < 2 => x.powi(k as i32),
                Num(k) if k == 0.5 && p < 2 => x.sqrt(),
                _ if **a == E && p < 2 => r(b)?.exp(),
                _ if **a == Num(2.0) && p < 2 => r(b)?.exp2(),
                _ => x.powf(r(b)?),
            }
        }
        Sum(v) => {
            let mut acc = S::zero();
            for k in v {
                acc += r(k)?;
            }
            acc
        }
        Prod(v) => {
            let mut acc = S::one();
            for k in v {
                acc = acc * r(k)?;
            }
            acc
        }
        F(f, v) => {
            let x = r(v.last()?)?;
            match f.name {
                "sin" => if p == 0 { x.sin_cos().0 } else { x.sin() },
                "cos" => if p == 0 { x.sin_cos().1 } else { x.cos() },
                "tan" => x.tan(),
                "sec" => x.cos().recip(),
                "csc" => x.sin().recip(),
                "cot" => x.cos() / x.sin(),
                "asin" => x.asin(),
                "acos" => x.acos(),
                "atan" => x.atan(),
                "sinh" => x.sinh(),
                "cosh" => x.cosh(),
                "tanh" => x.tanh(),
                "asinh" => x.asinh(),
                "acosh" => x.acosh(),
                "atanh" => x.atanh(),
                "sech" => x.cosh().recip(),
                "csch" => x.sinh().recip(),
                "coth" => x.tanh().recip(),
                "exp" => if p == 0 && x > c(-1.0) { x.exp_m1() + S::one() } else { x.exp() },
                "ln" => if p == 0 && x > c(0.5) { (x - S::one()).ln_1p() } else { x.ln() },
                "log2" => x.log2(),
                "log10" => x.log10(),
                "log" => x.log(r(&v[0])?),
                "sqrt" => x.sqrt(),
                "cbrt" => x.cbrt(),
                "abs" => if p == 0 { sa_abs(x) } else { num_abs(x) },
                "signum" => sign(x),
                "floor" => x.floor(),
                "ceil" => x.ceil(),
                "round" => x.round(),
                "atan2" => r(&v[0])?.atan2(x),
                n => {
                    let k = match &v[0] {
                        Num(k) if v.len() == 2 && n != "beta" => *k as i32,
                        _ => 0,
                    };
                    let args: Option<Vec<S>> = v.iter().map(r).collect();
                    return S::special(n, &args?, k);
                }
            }
        }
    })
}
fn sa_abs<S: MathScalar>(x: S) -> S {
    (x * x).sqrt()
}
fn num_abs<S: MathScalar>(x: S) -> S {
    x.max(-x)
}
fn sign<S: MathScalar>(x: S) -> S {
    if x.is_sign_positive() { S::one() } else { -S::one() }
}
fn supported(t: &T) -> bool {
    let ok = match t {
        Opaque(_) => false,
        F(f, v) => match f.name {
            "polygamma" | "besselj" => matches!(v[0], Num(k) if k == k.trunc() && (0.0..20.0).contains(&k)),
            n => !matches!(n, "acot" | "asec" | "acsc" | "acoth" | "asech" | "acsch" | "bessely" | "besseli" | "besselk" | "hermite" | "assoc_legendre" | "spherical_harmonic" | "ynm" | "zeta_deriv" | "tetragamma" | "exp_polar"),
        },
        _ => true,
    };
    ok && t.kids().iter().all(|k| supported(k))
}
fn has_special(t: &T) -> bool {
    t.any(&|k| matches!(k, F(f, _) if matches!(f.name, "erf" | "erfc" | "gamma" | "digamma" | "trigamma" | "polygamma" | "zeta" | "lambertw" | "besselj" | "elliptic_k" | "elliptic_e" | "beta")))
}
fn numeric_slope(t: &T) -> bool {
    t.any(&|k| matches!(k, F(f, _) if matches!(f.name, "besselj" | "zeta")))
}
fn agree(got: f64, want: Ball, floor: f64, rel: f64) -> bool {
    (got - want.v).abs() <= 8.0 * want.e + rel * want.v.abs() + floor
}
/// stay where functions are smooth enough that neither side loses its digits
fn calm(t: &T, p: &[f64]) -> bool {
    let ok = match t {
        F(f, v) => match (f.name, ev(v.last().unwrap(), p)) {
            ("elliptic_k" | "elliptic_e", Ev::Val(x)) => x.v.abs() < 0.999,
            // a slope of 0/0: the point is the edge of the domain
            ("cbrt" | "sqrt", Ev::Val(x)) => x.v.abs() > 1e-9,
            ("asin" | "acos" | "acosh" | "atanh", Ev::Val(x)) => (x.v.abs() - 1.0).abs() > 1e-9,
            ("besselj", Ev::Val(x)) => x.v.abs() < 50.0,
            ("zeta", Ev::Val(x)) => x.v.abs() < 20.0 && (x.v - 1.0).abs() > 0.05,
            ("floor" | "ceil" | "round" | "signum" | "abs", Ev::Val(x)) => (x.v * 2.0 - (x.v * 2.0).round()).abs() > 1e-6,
            (_, Ev::Val(_)) => true,
            _ => false,
        },
        // a power of a negative number has no slope along its exponent
        Pow(a, b) => match (ev(a, p), &**b) {
            (Ev::Val(_), Num(k)) if *k == k.trunc() => true,
            (Ev::Val(x), _) => x.v > 1e-9,
            _ => false,
        },
        _ => true,
    };
    ok && t.kids().iter().all(|k| calm(k, p))
}
fn tree(s: &mut Src, set: FunSet, size: usize) -> Option<T> {
    let mut c = Cfg::new(size, 3, set);
    c.neg_lits = s.chance(1, 3);
    let t = gen::term(s, &c);
    if supported(&t) && gen::tame(&t) { Some(t) } else { None }
}
/// value and directional derivative of a random expression
fn first(s: &mut Src, cx: &mut Cx, set: FunSet, size: usize) -> Out {
    let Some(t) = tree(s, set, size) else { return Out::Discard };
    let ds: Option<Vec<T>> = (0..3).map(|i| ad::d(&t, i)).collect();
    let Some(ds) = ds else { return Out::Discard };
    if ds.iter().any(|d| d.size() > 3000) {
        return Out::Discard;
    }
    let pick = s.below(1 << 30);
    cx.show(format!("{t}"));
    let special = has_special(&t);
    let (floor, rel) = if numeric_slope(&t) { (1e-6, 1e-6) } else if special { (1e-9, 1e-9) } else { (1e-12, 1e-12) };
    let mut seen = 0;
    for _ in 0..3 {
        let p = gen::point(s);
        let seed: Vec<f64> = (0..3).map(|_| if s.chance(1, 2) { s.range(-2, 2) as f64 } else { 1.0 }).collect();
        let Ev::Val(v) = ev(&t, &p) else { continue };
        if !calm(&t, &p) || v.v.abs() > 1e100 {
            continue;
        }
        let x: Vec<Dual<f64>> = (0..3).map(|i| Dual::new(p[i], seed[i])).collect();
        let Some(y) = run(&t, &x, pick) else {
            // the special functions answer None only outside their domain
            return Out::fail("domain", format!("{t} has no dual value at {}, true value {}", gen::show_point(&p, &[0, 1, 2]), v.v));
        };
        if !agree(y.val, v, floor * 1e-2, rel) {
            return Out::fail("value", format!("{t} at {}: dual value {}, true value {}", gen::show_point(&p, &[0, 1, 2]), y.val, v.v));
        }
        let mut want = Ball { v: 0.0, e: 0.0 };
        let mut known = true;
        for (d, k) in ds.iter().zip(&seed) {
            if *k != 0.0 {
                match ev(d, &p) {
                    Ev::Val(b) => want = Ball { v: want.v + k * b.v, e: want.e + k.abs() * (b.e + 1e-15 * b.v.abs()) },
                    _ => known = false,
                }
            }
        }
        if !known || want.v.abs() > 1e60 || want.e > 1e-3 * want.v.abs() + 1e-6 {
            continue;
        }
        // forward mode goes through intermediate values as large as these
        let scale = if numeric_slope(&t) { 1.0 + v.v.abs() + want.v.abs() } else { 1.0 + v.v.abs() };
        if !agree(y.eps, want, floor * scale, rel) {
            return Out::fail("slope", format!("{t} at {} along {seed:?}: dual slope {}, true slope {} (+-{:e})", gen::show_point(&p, &[0, 1, 2]), y.eps, want.v, want.e));
        }
        seen += 1;
    }
    cx.pass(seen > 0 && !t.varset().is_empty())
}
fn elementary(s: &mut Src, cx: &mut Cx) -> Out {
    first(s, cx, FunSet::Elem, 9)
}
fn special(s: &mut Src, cx: &mut Cx) -> Out {
    init_special();
    first(s, cx, FunSet::All, 5)
}
/// duals of duals: mixed second derivatives
fn second(s: &mut Src, cx: &mut Cx) -> Out {
    let Some(t) = tree(s, FunSet::Elem, 7) else { return Out::Discard };
    if t.any(&|k| matches!(k, F(f, _) if f.name == "sinc")) {
        return Out::Discard;
    }
    let (i, j) = (s.us(3), s.us(3));
    let Some(di) = ad::d(&t, i) else { return Out::Discard };
    if di.size() > 600 {
        return Out::Discard;
    }
    let Some(dij) = ad::d(&di, j) else { return Out::Discard };
    if dij.size() > 6000 {
        return Out::Discard;
    }
    let pick = s.below(1 << 30);
    cx.show(format!("d{i} d{j} {t}"));
    let mut seen = 0;
    for _ in 0..3 {
        let p = gen::point(s);
        let (Ev::Val(v), Ev::Val(a), Ev::Val(b)) = (ev(&t, &p), ev(&di, &p), ev(&dij, &p)) else { continue };
        if !calm(&t, &p) || m3(v.v, a.v, b.v) > 1e40 || v.v.abs() < 1e-40 || b.e > 1e-4 * b.v.abs() + 1e-7 {
            continue;
        }
        let x: Vec<Dual<Dual<f64>>> = (0..3).map(|k| Dual::new(Dual::new(p[k], (k == j) as u8 as f64), Dual::constant((k == i) as u8 as f64))).collect();
        let Some(y) = run(&t, &x, pick) else { continue };
        let scale = 1.0 + m3(v.v, a.v, 0.0);
        for (what, got, want, tol) in [("value", y.val.val, v, 1e-12), ("first derivative", y.eps.val, a, 1e-11), ("second derivative", y.eps.eps, b, 1e-9)] {
            if !agree(got, want, tol * scale, tol) {
                return Out::fail(what, format!("{t} by {i} then {j} at {}: nested dual {what} {got}, true {} (+-{:e})", gen::show_point(&p, &[0, 1, 2]), want.v, want.e));
            }
        }
        seen += 1;
    }
    cx.pass(seen > 0 && !t.varset().is_empty())
}
fn m3(a: f64, b: f64, c: f64) -> f64 {
    a.abs().max(b.abs()).max(c.abs())
}
/// ring laws on small integers, where floating point is exact
fn ring(s: &mut Src, cx: &mut Cx) -> Out {
    let k = |s: &mut Src| s.range(-9, 9) as f64 / *s.pick(&[1.0, 2.0, 4.0]);
    let d = |s: &mut Src| Dual::new(k(s), k(s));
    let (a, b, e) = (d(s), d(s), d(s));
    cx.show(format!("{a:?} {b:?} {e:?}"));
    let zero: Dual<f64> = c(0.0);
    let one: Dual<f64> = c(1.0);
    let eqs: Vec<(&str, Dual<f64>, Dual<f64>)> = vec![
        ("a+b = b+a", a + b, b + a),
        ("(a+b)+c = a+(b+c)", (a + b) + e, a + (b + e)),
        ("ab = ba", a * b, b * a),
        ("(ab)c = a(bc)", (a * b) * e, a * (b * e)),
        ("a(b+c) = ab+ac", a * (b + e), a * b + a * e),
        ("a+0 = a", a + zero, a),
        ("1a = a", one * a, a),
        ("a-b = a+(-b)", a - b, a + (-b)),
        ("a-a = 0", a - a, zero),
        ("--a = a", -(-a), a),
        ("eps^2 = 0", Dual::new(0.0, a.eps) * Dual::new(0.0, b.eps), zero),
        ("product", a * b, Dual::new(a.val * b.val, a.val * b.eps + a.eps * b.val)),
        ("powi 2", a.powi2(), a * a),
        ("powi 3", a.powi3(), a * a * a),
    ];
    for (name, l, r) in eqs {
        if l.val != r.val || l.eps != r.eps {
            return Out::fail(name, format!("{name}: {l:?} and {r:?} for {a:?} {b:?} {e:?}"));
        }
    }
    if b.val != 0.0 {
        let q = a / b * b;
        let tol = 1e-13 * (1.0 + (a.eps.abs() + a.val.abs()) * (1.0 + b.eps.abs()) / b.val.abs().min(1.0).powi(2));
        if (q.val - a.val).abs() > tol || (q.eps - a.eps).abs() > tol {
            return Out::fail("a/b*b", format!("{a:?} / {b:?} * {b:?} = {q:?}"));
        }
    }
    // order and classification follow the value
    if (a.val < b.val) != (a < b) && a.val != b.val {
        return Out::fail("order", format!("{a:?} < {b:?} is {}", a < b));
    }
    cx.pass(a.eps != 0.0 && b.eps != 0.0)
}
trait Pw {
    fn powi2(self) -> Self;
    fn powi3(self) -> Self;
}
impl<S: MathScalar> Pw for S {
    fn powi2(self) -> S {
        self.powi(2)
    }
    fn powi3(self) -> S {
        self.powi(3)
    }
}
/// single operations at awkward arguments: value like f64's, slope like the textbook's
fn single<S: MathScalar>(i: usize, x: S, y: S, k: i32) -> S {
    match i {
        0 => x.powi(k),
        1 => x.powf(y),
        2 => x.powf(c(k as f64)),
        3 => x.exp_m1(),
        4 => x.ln_1p(),
        5 => x.hypot(y),
        6 => x / y,
        7 => x.recip(),
        8 => x.abs(),
        9 => x.fract(),
        10 => x.trunc(),
        11 => x.floor(),
        12 => x.ceil(),
        13 => x.round(),
        14 => x.max(y),
        15 => x.min(y),
        16 => x.abs_sub(y),
        17 => x.exp2(),
        18 => x.log2(),
        19 => x.log10(),
        20 => x.log(y),
        21 => x.cbrt(),
        22 => x.mul_add(y, x),
        23 => x.signum(),
        24 => x.to_degrees(),
        25 => x.to_radians(),
        26 => x.sqrt(),
        27 => x.sin_cos().0,
        28 => x.sin_cos().1,
        29 => x.atan2(y),
        30 => x.tanh(),
        31 => x.tan(),
        32 => x.exp(),
        33 => x.ln(),
        34 => x.asin(),
        35 => x.acosh(),
        36 => x.asinh(),
        37 => x.atan(),
        38 => x.sinh(),
        39 => x.atanh(),
        _ => x.cosh(),
    }
}
const NAMES: [&str; 41] = ["powi", "powf", "powf const", "exp_m1", "ln_1p", "hypot", "div", "recip", "abs", "fract", "trunc", "floor", "ceil", "round", "max", "min", "abs_sub", "exp2", "log2", "log10", "log", "cbrt", "mul_add", "signum", "to_degrees", "to_radians", "sqrt", "sin", "cos", "atan2", "tanh", "tan", "exp", "ln", "asin", "acosh", "asinh", "atan", "sinh", "atanh", "cosh"];
/// partial derivatives by both arguments, None where there is none
fn slopes(i: usize, x: f64, y: f64, k: i32) -> Option<(f64, f64)> {
    let kf = k as f64;
    let ln = |x: f64| if x > 0.0 { Some(x.ln()) } else { None };
    Some(match i {
        0 | 2 => (if k == 0 { 0.0 } else { if x == 0.0 && k < 0 { return None }; kf * x.powi(k - 1) }, 0.0),
        // 0^y has slope 0 for y > 1
        1 => if x > 0.0 { (y * x.powf(y - 1.0), x.powf(y) * x.ln()) } else { return None },
        3 => (x.exp(), 0.0),
        4 => (if x > -1.0 { 1.0 / (1.0 + x) } else { return None }, 0.0),
        5 => { let h = x.hypot(y); if h == 0.0 { return None } (x / h, y / h) }
        6 => if y == 0.0 { return None } else { (1.0 / y, -x / y / y) },
        7 => if x == 0.0 { return None } else { (-1.0 / x / x, 0.0) },
        8 => if x == 0.0 { return None } else { (x.signum(), 0.0) },
        9 => (1.0, 0.0),
        10..=13 | 23 => (0.0, 0.0),
        14 => if x == y { return None } else if x > y { (1.0, 0.0) } else { (0.0, 1.0) },
        15 => if x == y { return None } else if x < y { (1.0, 0.0) } else { (0.0, 1.0) },
        16 => if x == y { return None } else if x > y { (1.0, -1.0) } else { (0.0, 0.0) },
        17 => (x.exp2() * std::f64::consts::LN_2, 0.0),
        18 => (ln(x).map(|_| 1.0 / x / std::f64::consts::LN_2)?, 0.0),
        19 => (ln(x).map(|_| 1.0 / x / std::f64::consts::LN_10)?, 0.0),
        20 => { let (a, b) = (ln(x)?, ln(y)?); if b.abs() < 1e-9 { return None } (1.0 / x / b, -a / (b * b) / y) }
        21 => if x == 0.0 { return None } else { (1.0 / 3.0 / x.cbrt() / x.cbrt(), 0.0) },
        22 => (y + 1.0, x),
        24 => (180.0 / std::f64::consts::PI, 0.0),
        25 => (std::f64::consts::PI / 180.0, 0.0),
        26 => if x <= 0.0 { return None } else { (0.5 / x.sqrt(), 0.0) },
        27 => (x.cos(), 0.0),
        28 => (-x.sin(), 0.0),
        29 => { let r = x.hypot(y); if r == 0.0 { return None } (y / r / r, -x / r / r) }
        30 => (1.0 / x.cosh() / x.cosh(), 0.0),
        31 => (1.0 / x.cos() / x.cos(), 0.0),
        32 => (x.exp(), 0.0),
        33 => (ln(x).map(|_| 1.0 / x)?, 0.0),
        34 => if x.abs() < 0.999 { (1.0 / ((1.0 - x) * (1.0 + x)).sqrt(), 0.0) } else { return None },
        35 => if x > 1.001 { (1.0 / (x - 1.0).sqrt() / (x + 1.0).sqrt(), 0.0) } else { return None },
        36 => (1.0 / x.hypot(1.0), 0.0),
        37 => { let r = x.hypot(1.0); (1.0 / r / r, 0.0) }
        38 => (x.cosh(), 0.0),
        39 => if x.abs() < 0.999 { (1.0 / (1.0 - x) / (1.0 + x), 0.0) } else { return None },
        _ => (x.sinh(), 0.0),
    })
}
fn op(s: &mut Src, cx: &mut Cx) -> Out {
    let arg = |s: &mut Src| match s.below(6) {
        0 => s.range(-5, 5) as f64,
        1 => s.range(-20, 20) as f64 / 4.0,
        2 => (s.unit() - 0.5) * 20.0,
        3 => (if s.chance(1, 2) { -1.0 } else { 1.0 }) * 10f64.powf(s.unit() * 24.0 - 12.0),
        4 => (if s.chance(1, 2) { -1.0 } else { 1.0 }) * 10f64.powf(s.unit() * 400.0 - 200.0),
        _ => 4.0 * s.unit(),
    };
    let i = s.us(41);
    let (x, y, k) = (arg(s), arg(s), s.range(-6, 8) as i32);
    let (dx, dy) = (s.range(-3, 3) as f64, s.range(-3, 3) as f64);
    cx.show(format!("{} {x} {y} {k} along {dx} {dy}", NAMES[i]));
    let want = single(i, x, y, k);
    let got = single(i, Dual::new(x, dx), Dual::new(y, dy), k);
    let at = format!("{} at ({x}, {y}), exponent {k}, along ({dx}, {dy})", NAMES[i]);
    let same = |g: f64, w: f64, tol: f64| g == w || (g.is_nan() && w.is_nan()) || (g - w).abs() <= tol;
    // rounding of an exponent's product with a logarithm; fused multiplication
    let tol = 4e-15 * want.abs() + match i { 20 => 1e-15 * want.abs() * (1.0 + 2.0 / y.ln().abs()), 22 => 1e-15 * ((x * y).abs() + x.abs()), 1 | 2 => want.abs() * 4e-15, 18 | 19 => 1e-15, _ => 0.0 };
    if !same(got.val, want, tol) {
        return Out::fail(format!("{} value", NAMES[i]), format!("{at}: dual value {}, ordinary value {want}", got.val));
    }
    let Some((px, py)) = slopes(i, x, y, k) else { return cx.pass(false) };
    if !want.is_finite() || !px.is_finite() || !py.is_finite() {
        return cx.pass(false);
    }
    let (a, b) = (px * dx, py * dy);
    if !(a.is_finite() && b.is_finite()) || a.abs().max(b.abs()) > 1e290 {
        return cx.pass(false);
    }
    let tol = 2e-14 * (a.abs() + b.abs()) + if matches!(i, 34 | 35 | 39) { 1e-12 * a.abs() } else if i == 22 { 1e-15 * (dx * x).abs().max((dx * y).abs() + dx.abs()) } else if i == 20 { 1e-13 * (a.abs() + b.abs()) * (1.0 + 1.0 / y.abs().ln().abs()) } else { 0.0 } + 1e-150;
    if !same(got.eps, a + b, tol) {
        return Out::fail(format!("{} slope", NAMES[i]), format!("{at}: dual slope {}, true slope {}", got.eps, a + b));
    }
    cx.pass(dx != 0.0 || dy != 0.0)
}
/// the symbolic derivative of the same formula
fn symbolic(s: &mut Src, cx: &mut Cx) -> Out {
    let Some(t) = tree(s, FunSet::Elem, 7) else { return Out::Discard };
    let vars = t.varset();
    let Some(v) = vars.first().copied().filter(|v| *v < 3) else { return Out::Discard };
    let e = to_expr(&t, s);
    cx.show(format!("{t}"));
    let Ok(d) = sa::Diff::new().skip_simplification(true).differentiate(&e, &sa::symb(VARS[v])) else { return Out::fail("error", format!("{t} is not differentiated")) };
    let dt = from_expr(&d);
    let p = gen::point(s);
    let (Ev::Val(val), Ev::Val(w)) = (ev(&t, &p), ev(&dt, &p)) else { return Out::Discard };
    if !calm(&t, &p) || w.v.abs() > 1e60 || w.e > 1e-4 * w.v.abs() + 1e-7 {
        return Out::Discard;
    }
    // the library may have cancelled what the dual has to compute
    let Some(Ev::Val(raw)) = ad::d(&t, v).filter(|d| d.size() < 3000).map(|d| ev(&d, &p)) else { return Out::Discard };
    if raw.e > 1e-4 * raw.v.abs() + 1e-7 {
        return Out::Discard;
    }
    let w = Ball { v: w.v, e: w.e.max(raw.e) };
    let x: Vec<Dual<f64>> = (0..3).map(|i| Dual::new(p[i], (i == v) as u8 as f64)).collect();
    let Some(y) = run(&t, &x, 0) else { return Out::Discard };
    if !agree(y.eps, w, 1e-11 * (1.0 + val.v.abs()), 1e-11) {
        return Out::fail("symbolic", format!("{t} by {} at {}: dual slope {}, symbolic derivative {d} = {}", VARS[v], gen::show_point(&p, &[0, 1, 2]), y.eps, w.v));
    }
    cx.pass(true)
}
fn spec() -> Spec {
    Spec::new("C19", "an expression evaluated on dual numbers at a point and along a direction, its value and slope compared with reference evaluation of the expression and of its independently derived derivative; ring identities on exact small values; single operations at extreme arguments; second derivatives by duals of duals; non-trivial: the expression has a variable and the slope was compared")
        .stage("elementary", 800_000, 30_000_000, elementary)
        .stage("special", 600_000, 20_500_000, special)
        .stage("nested", 300_000, 9_000_000, second)
        .stage("ring", 500_000, 2_000_000, ring)
        .stage("operation", 4_000_000, 90_000_000, op)
        .stage("symbolic", 300_000, 9_000_000, symbolic)
}
fn main() {
    main_with(spec)
}
