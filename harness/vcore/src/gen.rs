//! Generators of terms and points.
use crate::src::Src;
use crate::term::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub size: usize,
    pub nvars: usize,
    /// indices into VARS are drawn from first `nvars` (or the long-name pool too)
    pub long_vars: bool,
    pub funs: FunSet,
    pub neg_lits: bool,
    pub consts: bool,
    pub pow_var_exp: bool,
    /// weight of polynomial-like pieces
    pub poly: bool,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum FunSet {
    None,
    Basic,
    Elem,
    Smooth,
    All,
}
impl Cfg {
    pub fn new(size: usize, nvars: usize, funs: FunSet) -> Cfg {
        Cfg { size, nvars, long_vars: false, funs, neg_lits: false, consts: true, pow_var_exp: true, poly: true }
    }
}

/// literals: nothing that the documented 1e-14 tolerance could confuse with 0 or 1
pub fn number(s: &mut Src) -> f64 {
    match s.weighted(&[10, 6, 3, 2, 1]) {
        0 => s.range(1, 5) as f64,
        1 => *s.pick(&[2.0, 0.5, 1.5, 0.25, 2.5, 3.0, 0.1, 0.75, 4.0, 10.0]),
        2 => s.range(0, 20) as f64,
        3 => (s.range(1, 9999) as f64) / *s.pick(&[100.0, 1000.0, 7.0, 3.0]),
        _ => *s.pick(&[100.0, 1000.0, 0.001, 1e6, 12345.678, 1e-4, 65536.0, 1e5]),
    }
}

fn leaf(s: &mut Src, c: &Cfg) -> T {
    match s.weighted(&[10, 6, if c.consts { 1 } else { 0 }]) {
        0 => var(s, c),
        1 => {
            let n = number(s);
            if c.neg_lits && s.chance(1, 5) { Num(-n) } else { Num(n) }
        }
        _ => {
            if s.chance(1, 2) { E } else { Pi }
        }
    }
}
pub fn var(s: &mut Src, c: &Cfg) -> T {
    if c.long_vars && s.chance(1, 4) {
        return Var(4 + s.us(VARS.len() - 4));
    }
    Var(s.us(c.nvars.max(1)))
}
pub fn pick_fun(s: &mut Src, set: FunSet) -> Option<&'static Fun> {
    match set {
        FunSet::None => None,
        FunSet::Basic => Some(&ELEM[s.us(10)]),
        FunSet::Elem => Some(&ELEM[s.us(ELEM.len())]),
        FunSet::Smooth => {
            // exclude jumps
            let n = ELEM.iter().position(|f| f.name == "signum").unwrap();
            Some(&ELEM[s.us(n)])
        }
        FunSet::All => {
            let n = ELEM.len() + special().len();
            let i = s.us(n);
            Some(if i < ELEM.len() { &ELEM[i] } else { &special()[i - ELEM.len()] })
        }
    }
}
/// arguments that suit a special function (small integer orders etc.)
pub fn fun_args(f: &'static Fun, s: &mut Src, c: &Cfg, size: usize) -> Vec<T> {
    match f.name {
        "besselj" | "bessely" | "besseli" | "besselk" | "hermite" => vec![Num(s.range(0, 4) as f64), term_sized(s, c, size)],
        "polygamma" => vec![Num(s.range(0, 3) as f64), term_sized(s, c, size)],
        "zeta_deriv" => vec![Num(s.range(0, 2) as f64), term_sized(s, c, size)],
        "assoc_legendre" => {
            let l = s.range(0, 4);
            let m = s.range(0, l);
            vec![Num(l as f64), Num(m as f64), term_sized(s, c, size)]
        }
        "spherical_harmonic" | "ynm" => {
            let l = s.range(0, 3);
            let m = s.range(0, l);
            vec![Num(l as f64), Num(m as f64), term_sized(s, c, size / 2), term_sized(s, c, size / 2)]
        }
        _ => (0..f.arity).map(|_| term_sized(s, c, size / f.arity)).collect(),
    }
}
pub fn term(s: &mut Src, c: &Cfg) -> T {
    let n = 1 + s.us(c.size);
    term_sized(s, c, n)
}
pub fn term_sized(s: &mut Src, c: &Cfg, size: usize) -> T {
    if size <= 1 {
        return leaf(s, c);
    }
    let wf = if c.funs == FunSet::None { 0 } else { 6 };
    let k = s.weighted(&[5, 3, 5, 4, 4, 2, wf, if c.poly { 1 } else { 0 }, 1]);
    let split = |s: &mut Src| {
        let l = 1 + s.us(size - 1);
        (l, size - l)
    };
    match k {
        0 => {
            let (l, r) = split(s);
            Add(b(term_sized(s, c, l)), b(term_sized(s, c, r)))
        }
        1 => {
            let (l, r) = split(s);
            Sub(b(term_sized(s, c, l)), b(term_sized(s, c, r)))
        }
        2 => {
            let (l, r) = split(s);
            Mul(b(term_sized(s, c, l)), b(term_sized(s, c, r)))
        }
        3 => {
            let (l, r) = split(s);
            Div(b(term_sized(s, c, l)), b(term_sized(s, c, r)))
        }
        4 => {
            let base = term_sized(s, c, size - 1);
            let e = match s.weighted(&[8, 3, 2, 2]) {
                0 => Num(s.range(2, 4) as f64),
                1 => {
                    let k = Num(s.range(1, 3) as f64);
                    if c.neg_lits { Neg(b(k)) } else { Neg(b(k)) }
                }
                2 => match s.below(4) {
                    0 => Num(0.5),
                    1 => Div(b(Num(1.0)), b(Num(2.0))),
                    2 => Div(b(Num(s.range(1, 5) as f64)), b(Num(s.range(2, 3) as f64))),
                    _ => Num(1.5),
                },
                _ if c.pow_var_exp => {
                    let m = 1 + size / 3;
                    term_sized(s, c, m)
                }
                _ => Num(2.0),
            };
            Pow(b(base), b(e))
        }
        5 => Neg(b(term_sized(s, c, size - 1))),
        6 => {
            let f = pick_fun(s, c.funs).unwrap();
            F(f, fun_args(f, s, c, size - 1))
        }
        7 => poly(s, c, size),
        _ => {
            // shared subterm: (u op u') with a repeated piece
            let u = term_sized(s, c, size / 2);
            let v = term_sized(s, c, size - size / 2);
            match s.below(4) {
                0 => Add(b(Mul(b(u.clone()), b(v))), b(u)),
                1 => Div(b(Add(b(u.clone()), b(v))), b(u)),
                2 => Mul(b(u.clone()), b(Pow(b(u), b(Num(2.0))))),
                _ => Sub(b(Pow(b(u.clone()), b(Num(2.0)))), b(Mul(b(v), b(u)))),
            }
        }
    }
}
/// sum of monomials in one base (variable or small term)
pub fn poly(s: &mut Src, c: &Cfg, size: usize) -> T {
    let base = if s.chance(1, 4) { term_sized(s, c, (size / 3).max(1)) } else { var(s, c) };
    let n = 2 + s.us(3);
    let mut acc: Option<T> = None;
    for _ in 0..n {
        let k = s.range(0, 4);
        let coef = number(s);
        let m = match k {
            0 => Num(coef),
            1 => Mul(b(Num(coef)), b(base.clone())),
            _ => Mul(b(Num(coef)), b(Pow(b(base.clone()), b(Num(k as f64))))),
        };
        acc = Some(match acc {
            None => m,
            Some(a) => {
                if s.chance(1, 3) { Sub(b(a), b(m)) } else { Add(b(a), b(m)) }
            }
        });
    }
    acc.unwrap()
}

/// A point: one value per VARS entry.
pub fn point(s: &mut Src) -> Vec<f64> {
    let mode = s.below(4);
    (0..VARS.len())
        .map(|_| match mode {
            0 => positive(s),
            1 => {
                let v = positive(s);
                if s.chance(1, 2) { -v } else { v }
            }
            2 => *s.pick(&[1.0, 2.0, 0.5, -1.0, -2.0, 0.0, 3.0, -0.5, 0.25, -3.0]),
            _ => (s.range(-400, 400) as f64) / 100.0 + 0.00371,
        })
        .collect()
}
pub fn positive(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => 0.3 + s.range(0, 200) as f64 / 100.0 + 0.00137,
        1 => 0.05 + s.unit() * 0.9,
        2 => 1.05 + s.unit() * 3.0,
        _ => 0.1 + s.unit() * 9.0,
    }
}
pub fn positive_point(s: &mut Src) -> Vec<f64> {
    let f = *s.pick(&[1.0, 0.4, 2.0]);
    (0..VARS.len()).map(|_| positive(s) * f).collect()
}
pub fn show_point(p: &[f64], vars: &[usize]) -> String {
    vars.iter().map(|i| format!("{}={}", VARS[*i], p[*i])).collect::<Vec<_>>().join(", ")
}

/// The library documents a 1e-14 absolute tolerance on constants (see known_findings.txt), so
/// terms whose constant factors can combine to something that small (or absurdly large) are kept
/// out of the value checks. (lo, hi) bound log10 of the constant coefficients that can arise.
pub fn coef_range(t: &T) -> (f64, f64) {
    if const_like(t) {
        return match ev(t, &[]) {
            Ev::Val(x) if x.v == 0.0 && x.e == 0.0 => (0.0, 0.0),
            Ev::Val(x) => {
                // a cancellation residue is as bad as a tiny literal
                if x.v.abs() < 1e6 * x.e {
                    return (-99.0, 99.0);
                }
                let l = x.v.abs().log10();
                let (mut lo, mut hi) = (l, l);
                for k in t.kids() {
                    let (a, c) = coef_range(k);
                    lo = lo.min(a);
                    hi = hi.max(c);
                }
                (lo, hi)
            }
            // a constant without a value (division by zero, ...): nothing to compare anyway
            _ => {
                let (mut lo, mut hi) = (0.0f64, 0.0f64);
                for k in t.kids() {
                    let (a, c) = coef_range(k);
                    lo = lo.min(a);
                    hi = hi.max(c);
                }
                (lo, hi)
            }
        };
    }
    match t {
        Mul(a, c) => {
            let (x, y) = (coef_range(a), coef_range(c));
            (x.0.min(0.0) + y.0.min(0.0), x.1.max(0.0) + y.1.max(0.0))
        }
        Prod(v) => v.iter().map(coef_range).fold((0.0, 0.0), |x, y| (x.0 + y.0.min(0.0), x.1 + y.1.max(0.0))),
        Div(a, c) => {
            let (x, y) = (coef_range(a), coef_range(c));
            (x.0.min(0.0) - y.1.max(0.0), x.1.max(0.0) - y.0.min(0.0))
        }
        Pow(a, c) => {
            let x = coef_range(a);
            let y = coef_range(c);
            let k = if let Ev::Val(k) = ev(c, &[]) { if const_like(c) { k.v } else { 1.0 } } else { 1.0 };
            let (p, q) = (k * x.0.min(0.0), k * x.1.max(0.0));
            (p.min(q).min(y.0), p.max(q).max(y.1))
        }
        _ => {
            let (mut lo, mut hi) = (0.0f64, 0.0f64);
            for k in t.kids() {
                let (a, c) = coef_range(k);
                lo = lo.min(a);
                hi = hi.max(c);
            }
            (lo, hi)
        }
    }
}
pub fn tame(t: &T) -> bool {
    let (lo, hi) = coef_range(t);
    lo > -60.0 && hi < 60.0
}
