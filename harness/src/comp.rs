//! Expressions aimed at the bytecode compiler: shapes it special-cases, and programs around its size thresholds.
use crate::*;

/// Shapes that the compiler and its peephole passes look for (holes as in simp::SHAPES).
const SHAPES: &[&str] = &[
    "exp(-A)", "exp(-A/B)", "exp(-A^2)", "exp(A^2)", "exp(-A*B)", "exp(A/B)", "exp(-(A^2)*B)", "exp(-A^2/B)", "e^A", "e^(-A)", "e^(A^2)", "ln(1+A)", "ln(A+1)", "ln(1-A)", "exp(A)-1", "A*exp(B)-A", "exp(ln(A))", "ln(exp(A))", "sqrt(A)^2", "sqrt(A^2)", "(A^2)^2", "1/A", "1/A^2", "1/A^3", "1/sqrt(A)", "(1/A)^2", "1/(1/A)",
    "A^2", "A^3", "A^4", "A^5", "A^8", "A^16", "A^(-1)", "A^(-2)", "A^(-3)", "A^(-4)", "A^7", "A^(-7)", "A^0.5", "A^(-0.5)", "A^1.5", "A^(-1.5)", "A^(1/3)", "A^(-1/3)", "A^(2/3)", "A^0.25", "A^B", "A^(-B)", "A^R", "2^A", "A^0", "(-A)^2", "(-A)^3", "(-A)^4",
    "A*B+C", "A*B-C", "C-A*B", "-A*B+C", "-A*B-C", "A*B+B*C", "A*B-B*C", "A*B+C*N", "N*A+N", "N*A-N", "A-N", "N-A", "A/N", "N/A", "-A/B", "A/-B", "-A/-B", "-A*-B", "(-A)*B", "A*(-B)", "-(A-B)", "-(A+B)", "-A+B", "A-(-B)", "-(-A)", "0*A+B", "1*A", "-1*A", "A/1", "A/(-1)", "A+0", "A-0", "0-A",
    "A/B/C", "A/(B/C)", "(A+B)/(A-B)", "(A+B)*(A-B)", "(A*B)/(B*C)", "A*A*B", "A*A*A", "A*(A*B)", "A+A+B", "sin(A)+cos(A)", "sin(A)*cos(A)", "sin(A)/A", "sin(A)/cos(A)", "sinc(A)", "A/sin(B)", "cos(A)/sin(A)", "sin(A)^2+cos(A)^2", "sin(A)^K", "sqrt(A)*sqrt(A)", "sqrt(A)^3", "cbrt(A)^3", "abs(A)^2", "abs(-A)",
    "N*A^2+N*A+N", "A^3+N*A-N", "N*A^4-N*A^2", "A^K+A^K", "(A^2+N*A)/(A^2-N)", "N*A^K-N*A^K+N", "A^9+N*A^5-N*A", "A^20-N*A^3", "A^2*B+A*B^2", "(A^2+A)*B", "(N*A^2+N*A+N)*(N*A+N)", "(A+1)^K", "sin(A^2+N*A)", "log(K,A)", "log(B,A)", "atan2(A,B)", "log(2,8)", "log(A,1)", "floor(A/B)", "round(A)", "ceil(A)", "signum(A)", "round(N*A)", "acot(A)", "acoth(A)", "asec(A)", "acsc(A)", "asech(A)", "acsch(A)", "coth(A)", "sech(A)", "csch(A)", "cot(A)", "sec(A)", "csc(A)",
    "sin(A)*sin(B)*sin(A)", "exp(A)*exp(B)+exp(A)", "(A/B)^2+(A/B)", "(A+B)^2/(A+B)^3", "sqrt(A+B)*(A+B)", "ln(A+B)/(A+B)+sin(A+B)", "A*B*C+A*B", "1/(A+B)+1/(A+B)^2", "tan(A/B)-A/B", "exp(-(A+B)^2/(2*C^2))", "N*exp(-((A-B)/C)^2/2)", "sqrt(A^2+B^2)", "A/sqrt(A^2+B^2)", "1/(1+exp(-A))", "A^2/(1+A^2)", "(1-A)/(1+A)", "sqrt(1-A^2)", "A*ln(A)", "A^A", "sin(A+B)*cos(A-B)-sin(A+B)", "A-B-C", "A-(B-C)", "A*(B-C)", "(A-B)*C+A-B", "A/B-B/A", "pi*A^2", "e*A", "2*pi*A/B", "sin(2*pi*A)", "A/0.1", "A/3", "N*A/N",
];
pub fn fill(s: &mut Src) -> T {
    let sh = *s.pick(SHAPES);
    fill_shape(sh, s)
}
fn fill_shape(sh: &str, s: &mut Src) -> T {
    let mut c = Cfg::new(4, 3, FunSet::Elem);
    c.neg_lits = true;
    let hs: Vec<T> = (0..3)
        .map(|_| match s.weighted(&[10, 5, 2, 2]) {
            0 => gen::var(s, &c),
            1 => gen::term(s, &c),
            2 => gen::poly(s, &c, 3),
            _ => T::Num(gen::number(s)),
        })
        .collect();
    let mut o = String::new();
    for ch in sh.chars() {
        match ch {
            'A' => o.push_str(&hs[0].to_string().replace(' ', "").pipe(paren)),
            'B' => o.push_str(&hs[1].to_string().replace(' ', "").pipe(paren)),
            'C' => o.push_str(&hs[2].to_string().replace(' ', "").pipe(paren)),
            'N' => o.push_str(&format!("{}", gen::number(s))),
            'K' => o.push_str(&s.range(2, 6).to_string()),
            'R' => o.push_str(["0.5", "(1/2)", "(1/3)", "1.5", "(3/2)", "(2/3)", "0.25", "(5/2)"][s.us(8)]),
            _ => o.push(ch),
        }
    }
    parse(&o).map(|e| from_expr(&e)).unwrap_or(T::Num(1.0))
}
fn paren(x: String) -> String {
    format!("({x})")
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for String {}

/// deep and wide shapes around the stack and cache thresholds of the evaluators
pub fn big(s: &mut Src) -> T {
    let c = Cfg::new(5, 3, FunSet::Basic);
    let leaf = |s: &mut Src| -> T {
        match s.below(4) {
            0 => T::Num(gen::number(s)),
            1 => F(fun(["sin", "cos", "tanh", "atan"][s.us(4)]).unwrap(), vec![gen::var(s, &c)]),
            _ => gen::var(s, &c),
        }
    };
    match s.below(4) {
        0 | 1 => {
            // right nest: every level keeps operands on the stack
            let n = match s.below(3) {
                0 => s.range(20, 40),
                1 => s.range(40, 56),
                _ => s.range(56, 80),
            } as usize;
            let wide = s.us(3);
            let mut t = match s.below(4) {
                0 => Add(b(Mul(b(leaf(s)), b(leaf(s)))), b(leaf(s))),
                1 => Sub(b(Mul(b(leaf(s)), b(leaf(s)))), b(leaf(s))),
                2 => Pow(b(leaf(s)), b(leaf(s))),
                _ => Sub(b(leaf(s)), b(Mul(b(leaf(s)), b(leaf(s))))),
            };
            for _ in 0..n {
                let l = leaf(s);
                let k = if wide == 0 { 1 } else { s.below(5) };
                t = match k {
                    0 => F(fun("atan2").unwrap(), vec![l, t]),
                    1 => Div(b(l), b(Add(b(T::Num(2.0)), b(F(fun("tanh").unwrap(), vec![t]))))),
                    2 => F(fun("atan2").unwrap(), vec![Add(b(l.clone()), b(T::Num(2.0))), t]),
                    3 => Div(b(l), b(Add(b(F(fun("cos").unwrap(), vec![t])), b(T::Num(3.0))))),
                    _ => Pow(b(Add(b(T::Num(1.5)), b(F(fun("abs").unwrap(), vec![F(fun("sin").unwrap(), vec![l])])))), b(F(fun("sin").unwrap(), vec![t]))),
                };
            }
            t
        }
        2 => {
            // many shared subexpressions
            let n = 4 + s.us(44);
            let subs: Vec<T> = (0..n).map(|i| F(fun(["sin", "cos", "tanh", "atan"][i % 4]).unwrap(), vec![Mul(b(T::Num(1.0 + (i / 4) as f64)), b(gen::var(s, &c)))])).collect();
            let m = n + s.us(n + 1);
            let parts: Vec<T> = (0..m)
                .map(|i| {
                    let u = if i < n { subs[i].clone() } else { subs[s.us(n)].clone() };
                    match s.below(4) {
                        0 => u,
                        1 => Mul(b(u), b(subs[s.us(n)].clone())),
                        2 => Neg(b(u)),
                        _ => Mul(b(gen::var(s, &c)), b(u)),
                    }
                })
                .collect();
            Sum(parts)
        }
        _ => {
            // long sum of products, signs mixed
            let n = 2 + s.us(70);
            Sum((0..n)
                .map(|_| {
                    let p = match s.below(4) {
                        0 => leaf(s),
                        1 => Mul(b(leaf(s)), b(leaf(s))),
                        2 => Mul(b(Mul(b(leaf(s)), b(leaf(s)))), b(leaf(s))),
                        _ => Div(b(leaf(s)), b(Add(b(T::Num(3.0)), b(F(fun("sin").unwrap(), vec![gen::var(s, &c)]))))),
                    };
                    if s.chance(1, 3) { Neg(b(p)) } else { p }
                })
                .collect())
        }
    }
}
