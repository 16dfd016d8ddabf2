//! Reference differentiation: textbook rules over reference terms. Only trivial 0/1 folding is
//! done, so that the result keeps the shape calculus gives it.
use crate::term::*;

fn n(x: f64) -> T {
    Num(x)
}
fn is0(t: &T) -> bool {
    *t == Num(0.0)
}
fn is1(t: &T) -> bool {
    *t == Num(1.0)
}
pub fn add(a: T, c: T) -> T {
    if is0(&a) { c } else if is0(&c) { a } else { Add(b(a), b(c)) }
}
pub fn sub(a: T, c: T) -> T {
    if is0(&c) { a } else if is0(&a) { neg(c) } else { Sub(b(a), b(c)) }
}
pub fn neg(a: T) -> T {
    if is0(&a) { a } else { Neg(b(a)) }
}
pub fn mul(a: T, c: T) -> T {
    if is0(&a) || is0(&c) { n(0.0) } else if is1(&a) { c } else if is1(&c) { a } else { Mul(b(a), b(c)) }
}
pub fn div(a: T, c: T) -> T {
    if is0(&a) { a } else if is1(&c) { a } else { Div(b(a), b(c)) }
}
pub fn pow(a: T, c: T) -> T {
    Pow(b(a), b(c))
}
pub fn call1(f: &str, a: T) -> T {
    F(fun(f).unwrap_or_else(|| panic!("no reference function {f}")), vec![a])
}
fn calln(f: &str, v: Vec<T>) -> T {
    F(fun(f).unwrap_or_else(|| panic!("no reference function {f}")), v)
}
fn sq(a: T) -> T {
    pow(a, n(2.0))
}
fn has(t: &T, i: usize) -> bool {
    t.any(&|k| *k == Var(i))
}

/// The partial derivative with respect to variable `i`; None where the reference has no rule
/// (a variable order, a formal function).
pub fn d(t: &T, i: usize) -> Option<T> {
    if !has(t, i) {
        return if t.any(&|k| matches!(k, Opaque(_))) { None } else { Some(n(0.0)) };
    }
    Some(match t {
        Num(_) | Pi | E => n(0.0),
        Opaque(_) => return None,
        Var(j) => n(if *j == i { 1.0 } else { 0.0 }),
        Neg(a) => neg(d(a, i)?),
        Add(a, c) => add(d(a, i)?, d(c, i)?),
        Sub(a, c) => sub(d(a, i)?, d(c, i)?),
        Mul(a, c) => add(mul(d(a, i)?, (**c).clone()), mul((**a).clone(), d(c, i)?)),
        Div(a, c) => {
            let (u, v) = ((**a).clone(), (**c).clone());
            // u'/v - u v'/v^2
            sub(div(d(a, i)?, v.clone()), div(mul(u, d(c, i)?), sq(v)))
        }
        Pow(a, c) => {
            let (u, v) = ((**a).clone(), (**c).clone());
            let (du, dv) = (d(a, i)?, d(c, i)?);
            if is0(&dv) {
                let k = match &v {
                    Num(k) => n(*k - 1.0),
                    _ => sub(v.clone(), n(1.0)),
                };
                if v == Num(1.0) {
                    return Some(du);
                }
                mul(mul(v, pow(u, k)), du)
            } else if is0(&du) {
                mul(mul(t.clone(), call1("ln", u)), dv)
            } else {
                mul(t.clone(), add(mul(dv, call1("ln", u.clone())), div(mul(v, du), u)))
            }
        }
        Sum(v) => {
            let mut acc = n(0.0);
            for k in v {
                acc = add(acc, d(k, i)?);
            }
            acc
        }
        Prod(v) => {
            let mut acc = n(0.0);
            for (j, k) in v.iter().enumerate() {
                let dk = d(k, i)?;
                if is0(&dk) {
                    continue;
                }
                let mut p = dk;
                for (l, m) in v.iter().enumerate() {
                    if l != j {
                        p = mul(p, m.clone());
                    }
                }
                acc = add(acc, p);
            }
            acc
        }
        F(f, v) => return dfun(f, v, i),
    })
}
fn dfun(f: &'static Fun, v: &[T], i: usize) -> Option<T> {
    let u = v[v.len() - 1].clone();
    let du = d(&v[v.len() - 1], i)?;
    let one = || n(1.0);
    let outer = match f.name {
        "sin" => call1("cos", u),
        "cos" => neg(call1("sin", u)),
        "tan" => add(one(), sq(call1("tan", u))),
        "cot" => neg(add(one(), sq(call1("cot", u)))),
        "sec" => mul(call1("sec", u.clone()), call1("tan", u)),
        "csc" => neg(div(call1("cos", u.clone()), sq(call1("sin", u)))),
        "asin" => div(one(), call1("sqrt", sub(one(), sq(u)))),
        "acos" => neg(div(one(), call1("sqrt", sub(one(), sq(u))))),
        "atan" => div(one(), add(one(), sq(u))),
        "acot" => neg(div(one(), add(one(), sq(u)))),
        "asec" => div(one(), mul(call1("abs", u.clone()), call1("sqrt", sub(sq(u), one())))),
        "acsc" => neg(div(one(), mul(call1("abs", u.clone()), call1("sqrt", sub(sq(u), one()))))),
        "sinh" => call1("cosh", u),
        "cosh" => call1("sinh", u),
        "tanh" => sub(one(), sq(call1("tanh", u))),
        "coth" => neg(sq(call1("csch", u))),
        "sech" => neg(mul(call1("sech", u.clone()), call1("tanh", u))),
        "csch" => neg(div(call1("cosh", u.clone()), sq(call1("sinh", u)))),
        "asinh" => div(one(), call1("sqrt", add(sq(u), one()))),
        "acosh" => {
            // only defined for u > 1
            div(one(), mul(call1("sqrt", sub(u.clone(), one())), call1("sqrt", add(u, one()))))
        }
        "atanh" => div(one(), sub(one(), sq(u))),
        "acoth" => div(one(), sub(one(), sq(u))),
        "asech" => neg(div(one(), mul(u.clone(), call1("sqrt", sub(one(), sq(u)))))),
        "acsch" => neg(div(one(), mul(call1("abs", u.clone()), call1("sqrt", add(one(), sq(u)))))),
        "exp" | "exp_polar" => call1("exp", u),
        "ln" => div(one(), u),
        "log10" => div(one(), mul(u, call1("ln", n(10.0)))),
        "log2" => div(one(), mul(u, call1("ln", n(2.0)))),
        "sqrt" => div(one(), mul(n(2.0), call1("sqrt", u))),
        "cbrt" => div(one(), mul(n(3.0), sq(call1("cbrt", u)))),
        "abs" => div(u.clone(), call1("abs", u)),
        "signum" | "floor" | "ceil" | "round" => return Some(n(0.0)),
        "sinc" => div(sub(mul(u.clone(), call1("cos", u.clone())), call1("sin", u.clone())), sq(u)),
        "log" => {
            let q = div(call1("ln", v[1].clone()), call1("ln", v[0].clone()));
            return d(&q, i);
        }
        "atan2" => {
            let (y, x) = (v[0].clone(), v[1].clone());
            let (dy, dx) = (d(&y, i)?, d(&x, i)?);
            return Some(div(sub(mul(x.clone(), dy), mul(y.clone(), dx)), add(sq(x), sq(y))));
        }
        "erf" => mul(div(n(2.0), call1("sqrt", Pi)), call1("exp", neg(sq(u)))),
        "erfc" => neg(mul(div(n(2.0), call1("sqrt", Pi)), call1("exp", neg(sq(u))))),
        "gamma" => mul(call1("gamma", u.clone()), call1("digamma", u)),
        "digamma" => call1("trigamma", u),
        "trigamma" => call1("tetragamma", u),
        "tetragamma" => calln("polygamma", vec![n(3.0), u]),
        "zeta" => calln("zeta_deriv", vec![one(), u]),
        "lambertw" => {
            // 1/(e^W (1+W)), also fine at 0
            let w = call1("lambertw", u);
            div(one(), mul(call1("exp", w.clone()), add(one(), w)))
        }
        "elliptic_k" => {
            let (kk, ee) = (call1("elliptic_k", u.clone()), call1("elliptic_e", u.clone()));
            sub(div(ee, mul(u.clone(), sub(one(), sq(u.clone())))), div(kk, u))
        }
        "elliptic_e" => div(sub(call1("elliptic_e", u.clone()), call1("elliptic_k", u.clone())), u),
        "beta" => {
            let (a, c) = (v[0].clone(), v[1].clone());
            let s = call1("digamma", add(a.clone(), c.clone()));
            let (da, dc) = (d(&a, i)?, d(&c, i)?);
            let l = add(mul(da, sub(call1("digamma", a.clone()), s.clone())), mul(dc, sub(call1("digamma", c.clone()), s)));
            return Some(mul(calln("beta", vec![a, c]), l));
        }
        "polygamma" | "zeta_deriv" => {
            let Num(k) = v[0] else { return None };
            calln(f.name, vec![n(k + 1.0), u])
        }
        "hermite" => {
            let Num(k) = v[0] else { return None };
            if k == 0.0 {
                return Some(n(0.0));
            }
            mul(n(2.0 * k), calln("hermite", vec![n(k - 1.0), u]))
        }
        "besselj" | "bessely" | "besseli" | "besselk" => {
            let Num(k) = v[0] else { return None };
            let same = mul(div(n(k), u.clone()), calln(f.name, vec![n(k), u.clone()]));
            match f.name {
                // lower-order form for J, I; upper-order form for Y, K
                "besselj" | "besseli" => {
                    if k == 0.0 {
                        let c = calln(f.name, vec![n(1.0), u]);
                        if f.name == "besselj" { neg(c) } else { c }
                    } else {
                        sub(calln(f.name, vec![n(k - 1.0), u]), same)
                    }
                }
                "bessely" => sub(same, calln(f.name, vec![n(k + 1.0), u])),
                _ => sub(same, calln(f.name, vec![n(k + 1.0), u])),
            }
        }
        "assoc_legendre" => {
            let (Num(l), Num(m)) = (v[0].clone(), v[1].clone()) else { return None };
            legendre_d(l, m, u)
        }
        "spherical_harmonic" | "ynm" => {
            let (Num(l), Num(m)) = (v[0].clone(), v[1].clone()) else { return None };
            let (th, ph) = (v[2].clone(), v[3].clone());
            let (dth, dph) = (d(&th, i)?, d(&ph, i)?);
            let mut ratio = 1.0;
            let a = m.abs();
            let mut k = l - a + 1.0;
            while k <= l + a {
                ratio /= k;
                k += 1.0;
            }
            let mut norm = ((2.0 * l + 1.0) / (4.0 * std::f64::consts::PI) * ratio).sqrt();
            if m < 0.0 && (a as i64) % 2 == 1 {
                norm = -norm;
            }
            let c = call1("cos", th.clone());
            let p = calln("assoc_legendre", vec![n(l), n(a), c.clone()]);
            let dp = mul(mul(legendre_d(l, a, c), neg(call1("sin", th))), dth);
            let arg = mul(n(m), ph);
            let s = add(mul(dp, call1("cos", arg.clone())), mul(p, mul(neg(call1("sin", arg)), mul(n(m), dph))));
            return Some(mul(n(norm), s));
        }
        _ => return None,
    };
    // functions of one differentiated argument; the others must not depend on the variable
    if v[..v.len() - 1].iter().any(|a| has(a, i)) {
        return None;
    }
    Some(mul(outer, du))
}
fn legendre_d(l: f64, m: f64, u: T) -> T {
    let p = calln("assoc_legendre", vec![n(l), n(m), u.clone()]);
    let lower = if m.abs() > l - 1.0 { n(0.0) } else { mul(n(l + m), calln("assoc_legendre", vec![n(l - 1.0), n(m), u.clone()])) };
    div(sub(mul(mul(n(l), u.clone()), p), lower), sub(sq(u), n(1.0)))
}
