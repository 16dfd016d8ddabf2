//! Bridge between the reference terms and the library under test (public API only).
pub use symb_anafis as sa;
use sa::visitor::ExprView;
use sa::{ArcExprExt, Expr, Symbol};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
pub use vcore::ad;
pub use vcore::gen;
pub use vcore::gen::{Cfg, FunSet};
pub use vcore::run::{guard, main_with, thorough, Cx, Out, Spec};
pub use vcore::src::{hash_str, mix, Rng, Src};
pub use vcore::term::*;

pub mod comp;
pub mod reader;
pub mod measure;
pub mod redzone;
pub mod simp;
pub mod thr;

pub fn hs(v: &[&str]) -> HashSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}
pub fn known() -> HashSet<String> {
    hs(VARS)
}
pub fn parse(s: &str) -> Result<Expr, sa::DiffError> {
    sa::parse(s, &known(), &HashSet::new(), None)
}

// ------------------------------------------------------------------ special functions

pub fn lib_call(name: &str, a: &[f64]) -> f64 {
    let args: Vec<Expr> = a.iter().map(|x| Expr::number(*x)).collect();
    let e = Expr::func_multi(name, args);
    e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new()).as_number().unwrap_or(f64::NAN)
}
macro_rules! spec_fns {
    ($($n:literal $a:literal $r:literal),* $(,)?) => {
        vec![ $( Fun { name: $n, arity: $a, kind: Kind::Smooth, rel: $r, eval: |a| lib_call($n, a) } ),* ]
    };
}
pub fn init_special() {
    // values are taken from the library itself, so only their reproducibility matters here
    set_special(spec_fns![
        "gamma" 1 1e-13, "erf" 1 1e-14, "erfc" 1 1e-14, "digamma" 1 1e-13, "trigamma" 1 1e-13, "tetragamma" 1 1e-12,
        "polygamma" 2 1e-12, "besselj" 2 1e-13, "bessely" 2 1e-13, "besseli" 2 1e-13, "besselk" 2 1e-13,
        "beta" 2 1e-12, "zeta" 1 1e-12, "lambertw" 1 1e-13, "elliptic_k" 1 1e-13, "elliptic_e" 1 1e-13,
        "hermite" 2 1e-13, "assoc_legendre" 3 1e-12, "spherical_harmonic" 4 1e-12, "ynm" 4 1e-12,
        "zeta_deriv" 2 1e-9, "exp_polar" 1 1e-15
    ]);
}

// ------------------------------------------------------------------ Expr -> T

pub fn var_index(name: &str) -> Option<usize> {
    VARS.iter().position(|v| *v == name)
}
pub fn from_expr(e: &Expr) -> T {
    match e.view() {
        ExprView::Number(n) => Num(n),
        ExprView::Symbol(s) => match s.as_ref() {
            "pi" | "PI" | "Pi" => Pi,
            "e" | "E" => E,
            n => var_index(n).map(Var).unwrap_or_else(|| Opaque(n.to_string())),
        },
        ExprView::Function { name, args } => {
            let v: Vec<T> = args.iter().map(|a| from_expr(a)).collect();
            match fun(name) {
                Some(f) if f.arity == v.len() => F(f, v),
                _ => Opaque(format!("{e}")),
            }
        }
        ExprView::Sum(ts) => Sum(ts.iter().map(|a| from_expr(a)).collect()),
        ExprView::Product(ts) => Prod(ts.iter().map(|a| from_expr(a)).collect()),
        ExprView::Div(a, c) => Div(b(from_expr(a)), b(from_expr(c))),
        ExprView::Pow(a, c) => Pow(b(from_expr(a)), b(from_expr(c))),
        ExprView::Derivative { .. } => Opaque(format!("{e}")),
    }
}
pub fn opaque_in(t: &T) -> Option<String> {
    if let Opaque(s) = t {
        return Some(s.clone());
    }
    t.kids().into_iter().find_map(opaque_in)
}

// ------------------------------------------------------------------ T -> Expr through the API

/// Build with the operator API, choosing among equivalent spellings of each operation.
pub fn to_expr(t: &T, s: &mut Src) -> Expr {
    match t {
        Num(n) => Expr::number(*n),
        Var(i) => {
            if s.chance(1, 3) {
                Expr::symbol(VARS[*i])
            } else {
                sa::symb(VARS[*i]).to_expr()
            }
        }
        Pi => Expr::symbol("pi"),
        E => Expr::symbol("e"),
        Opaque(n) => Expr::symbol(n),
        Neg(a) => {
            let x = to_expr(a, s);
            match s.below(4) {
                0 => -x,
                1 => x.negate(),
                2 => -&x,
                _ => -1.0 * x,
            }
        }
        Add(a, c) => bin(a, c, s, '+'),
        Sub(a, c) => bin(a, c, s, '-'),
        Mul(a, c) => bin(a, c, s, '*'),
        Div(a, c) => bin(a, c, s, '/'),
        Pow(a, c) => {
            if let (Var(i), Num(n)) = (&**a, &**c) {
                let y: Symbol = sa::symb(VARS[*i]);
                return match s.below(3) {
                    0 => y.pow(*n),
                    1 => y.to_expr().pow(*n),
                    _ => Expr::pow_static(y.to_expr(), Expr::number(*n)),
                };
            }
            let x = to_expr(a, s);
            let y = to_expr(c, s);
            match s.below(3) {
                0 => x.pow(y),
                1 => Arc::new(x).pow(y),
                _ => Expr::pow_static(x, y),
            }
        }
        Sum(v) => {
            let xs: Vec<Expr> = v.iter().map(|t| to_expr(t, s)).collect();
            if s.chance(1, 2) {
                Expr::sum_from_arcs(held(xs, s).0)
            } else {
                Expr::sum(xs)
            }
        }
        Prod(v) => {
            let xs: Vec<Expr> = v.iter().map(|t| to_expr(t, s)).collect();
            if s.chance(1, 2) {
                Expr::product_from_arcs(held(xs, s).0)
            } else {
                Expr::product(xs)
            }
        }
        F(f, v) => {
            let xs: Vec<Expr> = v.iter().map(|t| to_expr(t, s)).collect();
            func(f.name, xs, s)
        }
    }
}
/// Operands behind `Arc`s; half of them are held by another owner too (the second list).
fn held(xs: Vec<Expr>, s: &mut Src) -> (Vec<Arc<Expr>>, Vec<Arc<Expr>>) {
    let v: Vec<Arc<Expr>> = xs.into_iter().map(Arc::new).collect();
    let keep = v.iter().filter(|_| s.chance(1, 2)).cloned().collect();
    (v, keep)
}
/// Plain building: one spelling only.
pub fn to_expr_plain(t: &T) -> Expr {
    let mut s = Src::replay(vec![]);
    to_expr(t, &mut s)
}
fn func(name: &str, mut v: Vec<Expr>, s: &mut Src) -> Expr {
    if v.len() == 1 {
        let x = v.pop().unwrap();
        if s.chance(1, 2) {
            macro_rules! m { ($($n:ident),*) => { match name { $( stringify!($n) => return x.$n(), )* _ => {} } } }
            m!(sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech, csch,
               asinh, acosh, atanh, acoth, asech, acsch, exp, ln, log10, log2, sqrt, cbrt, floor, ceil, round, abs,
               signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, zeta, lambertw, elliptic_k, elliptic_e, exp_polar);
        }
        return Expr::func(name, x);
    }
    match s.below(2) {
        0 => Expr::func_multi(name, v),
        _ => Expr::func_multi_from_arcs(name, held(v, s).0),
    }
}
fn bin(a: &T, c: &T, s: &mut Src, op: char) -> Expr {
    macro_rules! go {
        ($x:expr, $y:expr) => {
            match op {
                '+' => $x + $y,
                '-' => $x - $y,
                '*' => $x * $y,
                _ => $x / $y,
            }
        };
    }
    // symbol and number operands in either position
    let mode = s.below(4);
    if mode == 1 {
        match (a, c) {
            (Var(i), Var(j)) => {
                let (p, q) = (sa::symb(VARS[*i]), sa::symb(VARS[*j]));
                return match s.below(4) {
                    0 => go!(p, q),
                    1 => go!(&p, &q),
                    2 => go!(p, &q),
                    _ => go!(&p, q),
                };
            }
            (Var(i), Num(n)) => {
                let p = sa::symb(VARS[*i]);
                return if s.chance(1, 2) { go!(p, *n) } else { go!(&p, *n) };
            }
            (Num(n), Var(i)) => {
                let p = sa::symb(VARS[*i]);
                return if s.chance(1, 2) { go!(*n, p) } else { go!(*n, &p) };
            }
            (Var(i), y) => {
                let p = sa::symb(VARS[*i]);
                let y = to_expr(y, s);
                return match s.below(3) {
                    0 => go!(p, y),
                    1 => go!(p, &y),
                    _ => go!(&p, y),
                };
            }
            (x, Var(i)) => {
                let p = sa::symb(VARS[*i]);
                let x = to_expr(x, s);
                return match s.below(4) {
                    0 => go!(x, p),
                    1 => go!(x, &p),
                    2 => go!(&x, p),
                    _ => go!(&x, &p),
                };
            }
            _ => {}
        }
    }
    if mode == 2 {
        if let Num(n) = c {
            let x = to_expr(a, s);
            return if s.chance(1, 2) { go!(x, *n) } else { go!(&x, *n) };
        }
        if let Num(n) = a {
            let y = to_expr(c, s);
            return go!(*n, y);
        }
    }
    let x = to_expr(a, s);
    let y = to_expr(c, s);
    if mode == 3 {
        return match op {
            '+' => Expr::add_expr(x, y),
            '-' => Expr::sub_expr(x, y),
            '*' => Expr::mul_expr(x, y),
            _ => Expr::div_expr(x, y),
        };
    }
    match s.below(4) {
        0 => go!(x, y),
        1 => go!(&x, &y),
        2 => go!(&x, y),
        _ => go!(x, &y),
    }
}

// ------------------------------------------------------------------ library evaluation

pub fn env_map(env: &[f64]) -> HashMap<&'static str, f64> {
    VARS.iter().zip(env).map(|(n, v)| (*n, *v)).collect()
}
pub fn lib_eval(e: &Expr, env: &[f64]) -> Expr {
    e.evaluate(&env_map(env), &HashMap::new())
}
pub fn lib_num(e: &Expr, env: &[f64]) -> f64 {
    lib_eval(e, env).as_number().unwrap_or(f64::NAN)
}

/// The expression denotes the reference term: compare values at the points. Returns the number
/// of points at which both sides were well-conditioned, or a description of the difference.
pub fn same_function(want: &T, got: &T, pts: &[Vec<f64>], floor: f64) -> Result<usize, String> {
    let mut n = 0;
    let vars = {
        let mut v = want.varset();
        for i in got.varset() {
            if !v.contains(&i) {
                v.push(i)
            }
        }
        v
    };
    for p in pts {
        let w = match ev(want, p) {
            Ev::Val(w) => w,
            _ => continue,
        };
        match ev(got, p) {
            Ev::Val(g) => match close(w, g, floor) {
                Cmp::Same => n += 1,
                Cmp::Unknown => {}
                Cmp::Differ(d) => {
                    return Err(format!("at {{{}}}: expected {:e}, got {:e}: {d}", gen::show_point(p, &vars), w.v, g.v));
                }
            },
            Ev::Undef => {
                if close(w, w, floor_is(floor)).is_same() {
                    return Err(format!(
                        "at {{{}}}: expected {:e}, result is undefined there{}",
                        gen::show_point(p, &vars),
                        w.v,
                        opaque_in(got).map(|o| format!(" (contains {o})")).unwrap_or_default()
                    ));
                }
            }
            Ev::Ill => {}
        }
    }
    Ok(n)
}
fn floor_is(f: f64) -> f64 {
    f
}
pub trait CmpExt {
    fn is_same(&self) -> bool;
}
impl CmpExt for Cmp {
    fn is_same(&self) -> bool {
        matches!(self, Cmp::Same)
    }
}
pub fn points(s: &mut Src, n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|_| gen::point(s)).collect()
}
pub fn pos_points(s: &mut Src, n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|_| gen::positive_point(s)).collect()
}

/// The part of the domain on which default simplification claims to preserve values: every base
/// of a non-integer power and every argument under a root, logarithm or absolute value is
/// positive at the points.
pub fn positive_inside(t: &T, pts: &[Vec<f64>]) -> bool {
    pts.iter().all(|p| positive_at(t, p))
}
pub fn positive_at(t: &T, p: &[f64]) -> bool {
    let ok = match t {
        Pow(a, _) => part_positive(a, p),
        F(f, v) => match f.name {
            "ln" | "log10" | "log2" | "sqrt" | "cbrt" | "abs" | "signum" | "log" | "gamma" | "acosh" | "asech" | "lambertw" => {
                v.iter().all(|u| part_positive(u, p))
            }
            // inverse functions cancel on the principal branch only
            "asin" | "acos" | "atan" | "acot" => principal(&v[0], p),
            "asec" | "acsc" | "asinh" | "acsch" => part_positive(&v[0], p) && principal(&v[0], p),
            _ => true,
        },
        _ => true,
    };
    ok && t.kids().iter().all(|k| positive_at(k, p))
}
fn is_pos(t: &T, p: &[f64]) -> bool {
    matches!(ev(t, p), Ev::Val(b) if b.v > 2.0 * b.e && b.v > 0.0)
}
/// the term is positive, and so is every sum, factor, divisor and power base in it (the default
/// simplifier may factor it and distribute roots over the factors)
fn part_positive(t: &T, p: &[f64]) -> bool {
    is_pos(t, p)
        && match t {
            Mul(..) | Div(..) | Prod(_) => t.kids().iter().all(|k| part_positive(k, p)),
            // (a logarithm makes a factor of the exponent)
            Pow(a, c) => part_positive(a, p) && (c.varset().is_empty() || part_positive(c, p)),
            Neg(_) => false,
            Add(..) | Sub(..) | Sum(_) => t.kids().iter().all(|k| addend_positive(k, p)),
            // odd functions pass a sign of their argument on
            // and periodic functions one that a shift by pi gives (sin(pi + x) is -sin(x))
            F(f, v) => v.iter().all(|k| part_positive(k, p)) && !(TRIG.contains(&f.name) && v.iter().any(has_pi)),
            _ => true,
        }
}
fn addend_positive(t: &T, p: &[f64]) -> bool {
    match t {
        Num(_) => true,
        Neg(a) => addend_positive(a, p),
        Mul(..) | Prod(_) => t.kids().iter().all(|k| addend_positive(k, p)),
        Div(a, c) => addend_positive(a, p) && part_positive(c, p),
        Pow(a, c) => part_positive(a, p) && (c.varset().is_empty() || part_positive(c, p)),
        _ => part_positive(t, p),
    }
}
/// inverse functions of trigonometric expressions cancel on the principal branch only
fn principal(t: &T, p: &[f64]) -> bool {
    match t {
        F(f, v) if TRIG.contains(&f.name) => {
            part_positive(&v[0], p) && !has_trig(&v[0]) && !has_pi(&v[0]) && matches!(ev(&v[0], p), Ev::Val(b) if b.v > 1e-6 && b.v < 1.5707)
        }
        _ => !has_trig(t),
    }
}
const TRIG: [&str; 6] = ["sin", "cos", "tan", "cot", "sec", "csc"];
fn has_trig(t: &T) -> bool {
    matches!(t, F(f, _) if TRIG.contains(&f.name)) || t.kids().into_iter().any(has_trig)
}
fn has_pi(t: &T) -> bool {
    matches!(t, Pi) || t.kids().into_iter().any(has_pi)
}

/// No real value whatever the order of evaluation: a function argument is clearly outside the
/// domain and nothing around it can hide that (no zero factor, no zero exponent).
pub fn hard_undef(t: &T, p: &[f64]) -> bool {
    let val = |k: &T| matches!(ev(k, p), Ev::Val(_));
    let nonzero = |k: &T| matches!(ev(k, p), Ev::Val(x) if x.v.abs() > 4.0 * x.e);
    match t {
        F(f, v) if v.iter().all(val) => f.kind != Kind::Jump && matches!(ev(t, p), Ev::Undef) && {
            // infinite values may turn finite again
            let xs: Vec<f64> = v.iter().filter_map(|k| ev(k, p).val().map(|x| x.v)).collect();
            [-1e-6, 0.0, 1e-6].iter().all(|d| {
                let ys: Vec<f64> = xs.iter().map(|x| x + d * (1.0 + x.abs())).collect();
                (f.eval)(&ys).is_nan()
            })
        },
        F(f, v) => f.kind != Kind::Jump && v.iter().any(|k| hard_undef(k, p)),
        Neg(_) | Add(..) | Sub(..) | Sum(_) => t.kids().iter().any(|k| hard_undef(k, p)) && t.kids().iter().all(|k| val(k) || hard_undef(k, p)),
        Mul(..) | Div(..) | Prod(_) => t.kids().iter().any(|k| hard_undef(k, p)) && t.kids().iter().all(|k| nonzero(k) || hard_undef(k, p)),
        Pow(a, c) => hard_undef(a, p) && nonzero(c),
        _ => false,
    }
}
/// number of innermost undefined subterms (two of them might cancel)
pub fn undef_count(t: &T, p: &[f64]) -> usize {
    let n: usize = t.kids().iter().map(|k| undef_count(k, p)).sum();
    if n == 0 && !matches!(ev(t, p), Ev::Val(_)) { 1 } else { n }
}
