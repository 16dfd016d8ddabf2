//! Reference term language: what a formula means, evaluated with a running error bound,
//! independently of the library under test.
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(f64),
    Var(usize),
    Pi,
    E,
    Neg(Box<T>),
    Add(Box<T>, Box<T>),
    Sub(Box<T>, Box<T>),
    Mul(Box<T>, Box<T>),
    Div(Box<T>, Box<T>),
    Pow(Box<T>, Box<T>),
    Sum(Vec<T>),
    Prod(Vec<T>),
    F(&'static Fun, Vec<T>),
    /// a function the reference does not know (user function, formal derivative ...)
    Opaque(String),
}
pub use T::*;

pub fn b(t: T) -> Box<T> {
    Box::new(t)
}

/// Smoothness classes used to keep derivatives away from kinks and jumps
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Smooth,
    /// continuous with a kink (abs)
    Kink,
    /// jumps (floor, signum)
    Jump,
}

pub struct Fun {
    pub name: &'static str,
    pub arity: usize,
    pub kind: Kind,
    /// relative accuracy expected of an implementation
    pub rel: f64,
    pub eval: fn(&[f64]) -> f64,
}
impl PartialEq for Fun {
    fn eq(&self, o: &Fun) -> bool {
        self.name == o.name
    }
}
impl std::fmt::Debug for Fun {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}

macro_rules! fns {
    ($($n:literal $a:literal $k:ident $r:literal $e:expr),* $(,)?) => {
        &[ $( Fun { name: $n, arity: $a, kind: Kind::$k, rel: $r, eval: $e } ),* ]
    };
}
fn nz(x: f64) -> f64 {
    // poles: no finite value
    if x == 0.0 { f64::NAN } else { x }
}
fn acot(x: f64) -> f64 {
    // principal range (0, pi), as documented for the symbolic evaluator
    if x > 0.0 {
        (1.0 / x).atan()
    } else if x < 0.0 {
        (1.0 / x).atan() + std::f64::consts::PI
    } else {
        std::f64::consts::FRAC_PI_2
    }
}
/// Elementary functions with their textbook definitions.
pub static ELEM: &[Fun] = fns![
    "sin" 1 Smooth 4e-16 |a| a[0].sin(),
    "cos" 1 Smooth 4e-16 |a| a[0].cos(),
    "exp" 1 Smooth 4e-16 |a| a[0].exp(),
    "ln" 1 Smooth 4e-16 |a| if a[0] > 0.0 { a[0].ln() } else { f64::NAN },
    "sqrt" 1 Smooth 4e-16 |a| a[0].sqrt(),
    "abs" 1 Kink 1e-16 |a| a[0].abs(),
    "tan" 1 Smooth 8e-16 |a| a[0].tan(),
    "sinh" 1 Smooth 8e-16 |a| a[0].sinh(),
    "cosh" 1 Smooth 8e-16 |a| a[0].cosh(),
    "tanh" 1 Smooth 8e-16 |a| a[0].tanh(),
    "cot" 1 Smooth 8e-16 |a| 1.0 / nz(a[0].tan()),
    "sec" 1 Smooth 8e-16 |a| 1.0 / a[0].cos(),
    "csc" 1 Smooth 8e-16 |a| 1.0 / nz(a[0].sin()),
    "asin" 1 Smooth 8e-16 |a| a[0].asin(),
    "acos" 1 Smooth 8e-16 |a| a[0].acos(),
    "atan" 1 Smooth 8e-16 |a| a[0].atan(),
    "acot" 1 Smooth 8e-16 |a| acot(a[0]),
    "asec" 1 Smooth 8e-16 |a| if a[0].abs() >= 1.0 { (1.0 / a[0]).acos() } else { f64::NAN },
    "acsc" 1 Smooth 8e-16 |a| if a[0].abs() >= 1.0 { (1.0 / a[0]).asin() } else { f64::NAN },
    "coth" 1 Smooth 8e-16 |a| 1.0 / nz(a[0].tanh()),
    "sech" 1 Smooth 8e-16 |a| 1.0 / a[0].cosh(),
    "csch" 1 Smooth 8e-16 |a| 1.0 / nz(a[0].sinh()),
    "asinh" 1 Smooth 1e-15 |a| a[0].abs().asinh().copysign(a[0]),
    "acosh" 1 Smooth 1e-15 |a| if a[0] >= 1.0 { a[0].acosh() } else { f64::NAN },
    "atanh" 1 Smooth 1e-15 |a| if a[0].abs() < 1.0 { a[0].atanh() } else { f64::NAN },
    "acoth" 1 Smooth 1e-15 |a| if a[0].abs() > 1.0 { (1.0 / a[0]).atanh() } else { f64::NAN },
    "asech" 1 Smooth 1e-15 |a| if a[0] > 0.0 && a[0] <= 1.0 { (1.0 / a[0]).acosh() } else { f64::NAN },
    "acsch" 1 Smooth 1e-15 |a| (1.0 / nz(a[0])).abs().asinh().copysign(a[0]),
    "cbrt" 1 Smooth 8e-16 |a| a[0].cbrt(),
    "log10" 1 Smooth 8e-16 |a| if a[0] > 0.0 { a[0].log10() } else { f64::NAN },
    "log2" 1 Smooth 8e-16 |a| if a[0] > 0.0 { a[0].log2() } else { f64::NAN },
    "log" 2 Smooth 8e-16 |a| if a[0] > 0.0 && a[0] != 1.0 && a[1] > 0.0 { a[1].ln() / a[0].ln() } else { f64::NAN },
    "atan2" 2 Smooth 8e-16 |a| if a[0] == 0.0 && a[1] == 0.0 { f64::NAN } else { a[0].atan2(a[1]) },
    "sinc" 1 Smooth 1e-15 |a| if a[0] == 0.0 { 1.0 } else { a[0].sin() / a[0] },
    "signum" 1 Jump 1e-16 |a| if a[0] == 0.0 { f64::NAN } else { a[0].signum() },
    "floor" 1 Jump 1e-16 |a| a[0].floor(),
    "ceil" 1 Jump 1e-16 |a| a[0].ceil(),
    "round" 1 Jump 1e-16 |a| a[0].round(),
];
pub fn fun(name: &str) -> Option<&'static Fun> {
    ELEM.iter().find(|f| f.name == name).or_else(|| special().iter().find(|f| f.name == name))
}
static SPECIAL: std::sync::OnceLock<Vec<Fun>> = std::sync::OnceLock::new();
/// Special functions, evaluated by a callback (the library's own evaluation of a single call at
/// numbers); their values are decided by the special-function properties, not here.
pub fn set_special(v: Vec<Fun>) {
    let _ = SPECIAL.set(v);
}
pub fn special() -> &'static [Fun] {
    SPECIAL.get().map(Vec::as_slice).unwrap_or(&[])
}

pub static VARS: &[&str] = &["x", "y", "z", "t", "alpha", "x1", "rate", "long_name", "Vmax", "q_0"];

/// value with an absolute error bound
#[derive(Clone, Copy, Debug)]
pub struct Ball {
    pub v: f64,
    pub e: f64,
}
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Val(Ball),
    /// no real value here (outside the domain, pole, overflow)
    Undef,
    /// too close to a boundary, jump or pole to say
    Ill,
}
const U: f64 = 2.3e-16;

impl Ev {
    pub fn val(self) -> Option<Ball> {
        if let Ev::Val(b) = self { Some(b) } else { None }
    }
}

fn mk(v: f64, e: f64) -> Ev {
    if v.is_nan() {
        return Ev::Undef;
    }
    // overflow and underflow cannot be judged: another form of the same function may avoid them
    if !(v.abs() <= 1e150) || (v != 0.0 && v.abs() < 1e-150) || !e.is_finite() {
        return Ev::Ill;
    }
    Ev::Val(Ball { v, e: e + 2.0 * U * v.abs() + 1e-300 })
}

pub fn pow_val(x: f64, y: f64) -> f64 {
    if x == 0.0 && y <= 0.0 {
        if y == 0.0 { 1.0 } else { f64::NAN }
    } else {
        x.powf(y)
    }
}

fn powb(x: Ball, y: Ball, y_is_const: bool) -> Ev {
    let v = pow_val(x.v, y.v);
    let int_y = y_is_const && y.v == y.v.round() && y.e <= 1e-12 * (1.0 + y.v.abs());
    if v.is_nan() {
        if (x.v.abs() <= x.e * 10.0 && x.e > 0.0) || (!int_y && !y_is_const && (y.v - y.v.round()).abs() <= 1e-9) {
            return Ev::Ill;
        }
        return Ev::Undef;
    }
    if v.is_infinite() || (v == 0.0 && x.v != 0.0) || (x.v == 0.0 && y.e > 0.0 && y.v.abs() <= 4.0 * y.e) {
        return Ev::Ill;
    }
    // d/dx = y x^(y-1); d/dy = x^y ln x
    let mut e = 0.0;
    if x.e > 0.0 {
        if x.v == 0.0 || x.v.abs() < 4.0 * x.e {
            // near zero base: only fine for positive powers
            if int_y && y.v >= 1.0 {
                e += (x.v.abs() + x.e).powf(y.v) * 2.0;
            } else if y.v == 0.0 && int_y {
                // x^0 = 1
            } else if y.v > 0.0 && x.v > x.e {
                e += (x.v + x.e).powf(y.v);
            } else {
                return Ev::Ill;
            }
        } else {
            e += (y.v * v / x.v).abs() * x.e * (1.0 + (y.v.abs() * x.e / x.v.abs()));
        }
        if !int_y && x.v <= x.e {
            // negative base with fractional power is decided exactly elsewhere
            if x.v.abs() <= x.e {
                return Ev::Ill;
            }
        }
    }
    if !int_y && y.e > 0.0 {
        if x.v > 0.0 {
            e += (v * x.v.ln()).abs() * y.e;
        } else if x.v < 0.0 {
            // exponent computed, base negative: value hinges on exact integrality
            return Ev::Ill;
        }
    }
    mk(v, e + 4.0 * U * v.abs() * (1.0 + y.v.abs()))
}

pub fn const_like(t: &T) -> bool {
    match t {
        Num(_) | Pi | E => true,
        Var(_) | Opaque(_) => false,
        Neg(a) => const_like(a),
        Add(a, c) | Sub(a, c) | Mul(a, c) | Div(a, c) | Pow(a, c) => const_like(a) && const_like(c),
        Sum(v) | Prod(v) => v.iter().all(const_like),
        F(_, v) => v.iter().all(const_like),
    }
}

pub fn call(f: &Fun, a: &[Ball]) -> Ev {
    let xs: Vec<f64> = a.iter().map(|b| b.v).collect();
    let v = (f.eval)(&xs);
    let fails = |x: f64| x.is_nan() || x.is_infinite();
    let mut e = 0.0f64;
    let mut edge = false;
    for i in 0..a.len() {
        if a[i].e > 0.0 {
            // probe a little beyond the error bound for boundaries and jumps
            for s in [-1.0, 1.0] {
                let mut ys = xs.clone();
                let step = a[i].e.max(4.0 * U * xs[i].abs());
                ys[i] += s * step;
                let w = (f.eval)(&ys);
                if fails(w) != fails(v) {
                    edge = true;
                } else if !fails(v) {
                    e += (w - v).abs() * 1.5 * (a[i].e / step).min(1.0);
                }
                if f.kind == Kind::Jump && !fails(v) {
                    // near-integers may be taken for integers (documented tolerance)
                    ys[i] = xs[i] + s * step.max(1e-13 * xs[i].abs().max(1.0));
                    if w != v || (f.eval)(&ys) != v {
                        edge = true;
                    }
                }
                // an error bound comparable to a period: probes at ±bound alone may all look alike
                if step > 0.05 && !fails(v) {
                    for q in [0.313, 0.127, 0.791] {
                        ys[i] = xs[i] + s * step * q;
                        let w = (f.eval)(&ys);
                        if fails(w) || (w - v).abs() > 1e-3 * v.abs() {
                            edge = true;
                        }
                    }
                }
                // wider probe for a nearby pole
                let mut zs = xs.clone();
                zs[i] += s * 64.0 * step;
                if fails((f.eval)(&zs)) != fails(v) {
                    edge = true;
                }
            }
        }
    }
    if f.name == "atan2" && a[1].v <= 0.0 && a[0].v.abs() <= 64.0 * a[0].e.max(1e-300) {
        // branch cut; also hides the sign of a zero
        edge = true;
    }
    if e > 1e-3 * (1.0 + v.abs()) {
        edge = true;
    }
    if edge {
        return Ev::Ill;
    }
    if fails(v) {
        if v.is_infinite() && xs.iter().any(|x| x.abs() > 20.0) || xs.iter().any(|x| x.abs() > 1e12) {
            return Ev::Ill;
        }
        return Ev::Undef;
    }
    if v == 0.0 && xs.iter().any(|x| x.abs() > 20.0 && !x.is_infinite()) {
        return Ev::Ill;
    }
    mk(v, e + f.rel * v.abs())
}

/// Evaluate with error bound at the point `env` (indexed by variable number).
pub fn ev(t: &T, env: &[f64]) -> Ev {
    macro_rules! go {
        ($t:expr) => {
            match ev($t, env) {
                Ev::Val(b) => b,
                o => return o,
            }
        };
    }
    match t {
        Num(n) => {
            if n.is_finite() {
                // large constants may be results of folding
                let big = n.abs() >= 9007199254740992.0 || n.abs() > 1e6 && n.fract() != 0.0;
                Ev::Val(Ball { v: *n, e: if big { 2.0 * U * n.abs() } else { 0.0 } })
            } else {
                Ev::Undef
            }
        }
        Pi => mk(std::f64::consts::PI, 0.0),
        E => mk(std::f64::consts::E, 0.0),
        Var(i) => match env.get(*i) {
            Some(v) if v.is_finite() => Ev::Val(Ball { v: *v, e: 0.0 }),
            _ => Ev::Undef,
        },
        Opaque(_) => Ev::Undef,
        Neg(a) => {
            let x = go!(a);
            Ev::Val(Ball { v: -x.v, e: x.e })
        }
        Add(a, c) => {
            let (x, y) = (go!(a), go!(c));
            add(x, y)
        }
        Sub(a, c) => {
            let (x, y) = (go!(a), go!(c));
            add(x, Ball { v: -y.v, e: y.e })
        }
        Mul(a, c) => {
            let (x, y) = (go!(a), go!(c));
            mul(x, y)
        }
        Div(a, c) => {
            let (x, y) = (go!(a), go!(c));
            div(x, y)
        }
        Pow(a, c) => {
            let (x, y) = (go!(a), go!(c));
            // (a constant that goes through functions is only as good as their rounding)
            powb(x, y, const_like(c) && !c.any(&|u| matches!(u, F(..))))
        }
        Sum(v) => {
            let mut acc = Ball { v: 0.0, e: 0.0 };
            for t in v {
                let y = go!(t);
                match add(acc, y) {
                    Ev::Val(b) => acc = b,
                    o => return o,
                }
            }
            Ev::Val(acc)
        }
        Prod(v) => {
            let mut acc = Ball { v: 1.0, e: 0.0 };
            for t in v {
                let y = go!(t);
                match mul(acc, y) {
                    Ev::Val(b) => acc = b,
                    o => return o,
                }
            }
            Ev::Val(acc)
        }
        F(f, v) => {
            let mut xs = Vec::with_capacity(v.len());
            for t in v {
                xs.push(go!(t));
            }
            call(f, &xs)
        }
    }
}
fn add(x: Ball, y: Ball) -> Ev {
    let v = x.v + y.v;
    let exact = x.e == 0.0 && y.e == 0.0 && v == v.round() && v.abs() < 1e6 && x.v == x.v.round() && x.v.abs() < 1e6;
    if exact {
        return Ev::Val(Ball { v, e: 0.0 });
    }
    mk(v, x.e + y.e + U * (x.v.abs() + y.v.abs()))
}
fn mul(x: Ball, y: Ball) -> Ev {
    let v = x.v * y.v;
    if (x.e == 0.0 && x.v == 0.0) || (y.e == 0.0 && y.v == 0.0) {
        return Ev::Val(Ball { v: 0.0, e: 0.0 });
    }
    let exact = x.e == 0.0 && y.e == 0.0 && v == v.round() && v.abs() < 1e6 && x.v == x.v.round() && x.v.abs() < 1e6 && y.v == y.v.round();
    if exact {
        return Ev::Val(Ball { v, e: 0.0 });
    }
    mk(v, x.v.abs() * y.e + y.v.abs() * x.e + x.e * y.e)
}
fn div(x: Ball, y: Ball) -> Ev {
    if y.v == 0.0 && y.e == 0.0 {
        return Ev::Undef;
    }
    if y.v.abs() <= 64.0 * y.e {
        return Ev::Ill;
    }
    let v = x.v / y.v;
    let exact = x.e == 0.0 && y.e == 0.0 && v == v.round() && x.v == x.v.round() && y.v == y.v.round() && v * y.v == x.v;
    if exact {
        return Ev::Val(Ball { v, e: 0.0 });
    }
    mk(v, (x.e + v.abs() * y.e) / (y.v.abs() - y.e))
}

pub enum Cmp {
    Same,
    Differ(String),
    /// at least one side is too ill-conditioned to judge
    Unknown,
}

/// Compare two well-conditioned values. `slack` scales the error bounds (forms may differ in
/// conditioning), `floor` is the relative difference always tolerated.
pub fn close(a: Ball, c: Ball, floor: f64) -> Cmp {
    let m = a.v.abs().max(c.v.abs());
    let tol = 1e3 * (a.e + c.e) + floor * m.max(1e-3) + 1e-13;
    if 1e3 * (a.e + c.e) > 1e-5 * m.max(1.0) {
        return Cmp::Unknown;
    }
    if (a.v - c.v).abs() <= tol {
        Cmp::Same
    } else {
        Cmp::Differ(format!("{:e} vs {:e} (difference {:e}, tolerance {:e})", a.v, c.v, (a.v - c.v).abs(), tol))
    }
}

// ------------------------------------------------------------------ structure

impl T {
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn kids(&self) -> Vec<&T> {
        match self {
            Num(_) | Var(_) | Pi | E | Opaque(_) => vec![],
            Neg(a) => vec![a],
            Add(a, c) | Sub(a, c) | Mul(a, c) | Div(a, c) | Pow(a, c) => vec![a, c],
            Sum(v) | Prod(v) | F(_, v) => v.iter().collect(),
        }
    }
    pub fn vars(&self, out: &mut Vec<usize>) {
        if let Var(i) = self {
            if !out.contains(i) {
                out.push(*i);
            }
        }
        for k in self.kids() {
            k.vars(out);
        }
    }
    pub fn varset(&self) -> Vec<usize> {
        let mut v = vec![];
        self.vars(&mut v);
        v.sort();
        v
    }
    pub fn any(&self, f: &dyn Fn(&T) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn subst(&self, i: usize, r: &T) -> T {
        self.map_leaves(&|t| if *t == Var(i) { r.clone() } else { t.clone() })
    }
    /// The term with the leaf number `k` (counted modulo the number of leaves) replaced.
    pub fn with_leaf(&self, k: usize, r: &dyn Fn(&T) -> T) -> T {
        let n = std::cell::Cell::new(0usize);
        self.map_leaves(&|t| {
            n.set(n.get() + 1);
            t.clone()
        });
        let (k, i) = (k % n.get().max(1), std::cell::Cell::new(0usize));
        self.map_leaves(&|t| {
            i.set(i.get() + 1);
            if i.get() - 1 == k { r(t) } else { t.clone() }
        })
    }
    pub fn map_leaves(&self, f: &dyn Fn(&T) -> T) -> T {
        let g = |t: &T| b(t.map_leaves(f));
        match self {
            Num(_) | Var(_) | Pi | E | Opaque(_) => f(self),
            Neg(a) => Neg(g(a)),
            Add(a, c) => Add(g(a), g(c)),
            Sub(a, c) => Sub(g(a), g(c)),
            Mul(a, c) => Mul(g(a), g(c)),
            Div(a, c) => Div(g(a), g(c)),
            Pow(a, c) => Pow(g(a), g(c)),
            Sum(v) => Sum(v.iter().map(|t| t.map_leaves(f)).collect()),
            Prod(v) => Prod(v.iter().map(|t| t.map_leaves(f)).collect()),
            F(h, v) => F(h, v.iter().map(|t| t.map_leaves(f)).collect()),
        }
    }
}

/// Unambiguous fully-parenthesised text (for reports).
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Num(n) => write!(f, "{}", num_text(*n)),
            Var(i) => write!(f, "{}", VARS.get(*i).copied().unwrap_or("?")),
            Pi => write!(f, "pi"),
            E => write!(f, "e"),
            Neg(a) => write!(f, "(-{a})"),
            Add(a, c) => write!(f, "({a} + {c})"),
            Sub(a, c) => write!(f, "({a} - {c})"),
            Mul(a, c) => write!(f, "({a}*{c})"),
            Div(a, c) => write!(f, "({a}/{c})"),
            Pow(a, c) => write!(f, "({a}^{c})"),
            Sum(v) => write!(f, "({})", v.iter().map(T::to_string).collect::<Vec<_>>().join(" + ")),
            Prod(v) => write!(f, "({})", v.iter().map(T::to_string).collect::<Vec<_>>().join("*")),
            F(h, v) => write!(f, "{}({})", h.name, v.iter().map(T::to_string).collect::<Vec<_>>().join(", ")),
            Opaque(s) => write!(f, "<{s}>"),
        }
    }
}

pub fn num_text(n: f64) -> String {
    if n < 0.0 { format!("({n})") } else { format!("{n}") }
}

// ------------------------------------------------------------------ printing with style choices

#[derive(Clone, Copy)]
pub struct Style {
    pub implicit: bool,
    pub spaces: bool,
    pub redundant: bool,
    pub starstar: bool,
}

// binding levels: 1 sum, 2 product, 3 unary minus, 4 power, 5 atom
fn needs(level: u8, ctx: u8) -> bool {
    level < ctx
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tok {
    Num,
    Word,
    Close,
    Other,
}

/// Print a term as a formula in the documented grammar, with random choices of spelling, such
/// that the documented reading of the text is exactly the term.
pub fn print_formula(t: &T, s: &mut Src, st: Style) -> String {
    let mut o = String::new();
    pr(t, 0, s, st, &mut o);
    o
}
fn sp(s: &mut Src, st: Style, o: &mut String) {
    if st.spaces {
        for _ in 0..s.weighted(&[6, 2, 1]) {
            o.push(if s.chance(1, 8) { '\t' } else { ' ' });
        }
    }
}
fn last_tok(o: &str) -> Tok {
    let t = o.trim_end();
    match t.chars().last() {
        Some(')') => Tok::Close,
        Some(c) if c.is_ascii_alphanumeric() || c == '_' || c == '.' => {
            // walk the word back
            let w: String = t.chars().rev().take_while(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '.').collect::<Vec<_>>().into_iter().rev().collect();
            // "2pi" ends in a word, "2e5" and "1e-5" are numbers
            if w.parse::<f64>().is_ok() && w.chars().all(|c| c.is_ascii_digit() || "eE.".contains(c)) { Tok::Num } else { Tok::Word }
        }
        _ => Tok::Other,
    }
}
fn pr(t: &T, ctx: u8, s: &mut Src, st: Style, o: &mut String) {
    let level = match t {
        Add(..) | Sub(..) | Sum(_) => 1,
        Mul(..) | Div(..) | Prod(_) => 2,
        Neg(_) => 3,
        Num(n) if *n < 0.0 => 3,
        Pow(..) => 4,
        _ => 5,
    };
    let par = needs(level, ctx) || (st.redundant && s.chance(1, 10));
    if par {
        o.push('(');
        sp(s, st, o);
        body(t, s, st, o);
        sp(s, st, o);
        o.push(')');
    } else {
        body(t, s, st, o);
    }
}
fn starts_atomic_word(t: &T) -> bool {
    matches!(t, Var(_) | F(..) | Pi | E)
}
fn body(t: &T, s: &mut Src, st: Style, o: &mut String) {
    match t {
        Num(n) => o.push_str(&lit(*n, s)),
        Var(i) => o.push_str(VARS[*i]),
        Pi => o.push_str("pi"),
        E => o.push('e'),
        Opaque(x) => o.push_str(x),
        Neg(a) => {
            o.push('-');
            sp(s, st, o);
            // -a^b = -(a^b); -a*b = (-a)*b has the same value, but keep the reading exact
            pr(a, 3, s, st, o);
        }
        Add(a, c) => {
            pr(a, 1, s, st, o);
            sp(s, st, o);
            o.push('+');
            sp(s, st, o);
            pr(c, 2, s, st, o);
        }
        Sub(a, c) => {
            pr(a, 1, s, st, o);
            sp(s, st, o);
            o.push('-');
            sp(s, st, o);
            pr(c, 2, s, st, o);
        }
        Sum(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    sp(s, st, o);
                    o.push('+');
                    sp(s, st, o);
                }
                pr(x, 2, s, st, o);
            }
            if v.is_empty() {
                o.push('0');
            }
        }
        Prod(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('*');
                }
                pr(x, 3, s, st, o);
            }
            if v.is_empty() {
                o.push('1');
            }
        }
        Mul(a, c) => {
            pr(a, 2, s, st, o);
            // implicit product where the grammar defines it unambiguously
            if st.implicit && s.chance(1, 2) && implicit_ok(o, c) {
                let l = last_tok(o);
                let wordish = starts_atomic_word(c) || matches!(&**c, Pow(x, _) if starts_atomic_word(x));
                if l == Tok::Word && wordish {
                    o.push(' ');
                } else if l == Tok::Num && wordish {
                    // "2e" / "2e3" would be read as scientific notation
                    let first = leading_name(c);
                    if first.starts_with('e') || first.starts_with('E') {
                        o.push(' ');
                    } else {
                        sp(s, st, o);
                    }
                } else if l == Tok::Word {
                    // word followed by "(": would be a call; keep explicit
                    o.push('*');
                } else {
                    sp(s, st, o);
                }
                pr(c, 4, s, st, o);
                return;
            }
            sp(s, st, o);
            o.push('*');
            sp(s, st, o);
            pr(c, 3, s, st, o);
        }
        Div(a, c) => {
            pr(a, 2, s, st, o);
            sp(s, st, o);
            o.push('/');
            sp(s, st, o);
            pr(c, 3, s, st, o);
        }
        Pow(a, c) => {
            pr(a, 5, s, st, o);
            sp(s, st, o);
            o.push_str(if st.starstar && s.chance(1, 2) { "**" } else { "^" });
            sp(s, st, o);
            // right associative; a unary minus in the exponent is part of the exponent
            pr(c, 3, s, st, o);
        }
        F(f, v) => {
            o.push_str(f.name);
            o.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    sp(s, st, o);
                }
                sp(s, st, o);
                pr(x, 0, s, st, o);
            }
            sp(s, st, o);
            o.push(')');
        }
    }
}
fn leading_name(t: &T) -> &'static str {
    match t {
        Var(i) => VARS[*i],
        F(f, _) => f.name,
        Pi => "pi",
        E => "e",
        Pow(a, _) => leading_name(a),
        _ => "",
    }
}
fn implicit_ok(o: &str, c: &T) -> bool {
    // the right factor must start with an atom (name or parenthesis) and be an atom or power
    let l = last_tok(o);
    match c {
        Var(_) | F(..) | Pi | E => l != Tok::Other,
        Pow(a, _) => l != Tok::Other && matches!(&**a, Var(_) | F(..)),
        Add(..) | Sub(..) => matches!(l, Tok::Num | Tok::Close),
        _ => false,
    }
}
fn lit(n: f64, s: &mut Src) -> String {
    let neg = n < 0.0;
    let a = n.abs();
    let t = match s.weighted(&[8, 1, 1, 1]) {
        1 if a != 0.0 => {
            let t = format!("{a:e}");
            if s.chance(1, 2) { t.replace('e', "E") } else { t }
        }
        2 if a == a.trunc() && a < 1e9 => format!("{a}.0"),
        3 if a < 1.0 && a > 0.0 => {
            let t = format!("{a}");
            t.strip_prefix('0').map(str::to_string).unwrap_or(t)
        }
        _ => format!("{a}"),
    };
    if neg { format!("-{t}") } else { t }
}
