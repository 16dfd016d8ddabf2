//! Shared generators for the simplifier checks: random expressions and shapes that rewrite rules
//! look for, with random terms in the holes.
use crate::*;

/// A B C: terms; N: number; K: small integer; M: small even/odd integer >= 2; R: root exponent
pub const SHAPES: &[&str] = &[
    // powers and roots
    "A^K*A^K", "A^K/A^K", "A^B*A^C", "A^B/A^C", "A/A^K", "A^K/A", "A*A^K*A", "A^N*B^N", "A^R*B^R", "A^R/B^R", "(A^K)^K", "(A^K)^R", "(A^R)^K",
    "(A^B)^C", "(A^B)^K", "(A*B)^K", "(A*B)^R", "(A/B)^K", "(A/B)^R", "(A*B)^R/B", "A/(A*B)^R", "sqrt(A^K)", "cbrt(A^K)", "sqrt(A^B)", "cbrt(A^B)",
    "sqrt(A)*sqrt(B)", "sqrt(A)/sqrt(B)", "sqrt(N*A^2)", "sqrt(A^2*B)", "sqrt(A^2*B^2)", "sqrt(A)*sqrt(A)", "cbrt(A)*cbrt(B)", "cbrt(A)^3", "sqrt(A)^2",
    "(N*sqrt(A))^K", "(sqrt(A)/B)^K", "(cbrt(A)/B)^3", "A^0", "A^1", "1^A", "0^K", "A^(-K)", "A^(-B)", "A^(-R)", "(A^-K)^R", "sqrt(A)/A", "A/sqrt(A)",
    "(A/B^K)^R", "(A^K/B^K)^R", "A^(1/2)", "A^(1/3)", "(A^2)^(1/2)", "(A^4)^(1/4)", "(A^2)^B", "(A^3)^(1/3)", "sqrt(sqrt(A))", "sqrt(A^2+B^2)",
    // sums, fractions, factoring
    "A+A", "N*A+N*A", "N*A-N*A", "N*A+A", "A-A", "A*B+A*C", "A*B-A*C", "A^2-B^2", "N*A^2-N*B^2", "A^2+2*A*B+B^2", "A^2-2*A*B+B^2", "A^2+K*A+N", "N*A^2+N*A*B+N*B^2",
    "A^3+3*A^2*B+3*A*B^2+B^3", "A^3-B^3", "A^3+B^3", "A^3-3*A^2*B+3*A*B^2-B^3", "A^3-3*A^2+3*A-1", "A^4-B^4", "A^6-B^6", "N*A+N*B", "N*A-N*B+N", "A^3*B+A^2*C", "A^K+A^K", "A^K*B-A^K*C",
    "N*A^K+N*A^K*B", "A/B+C/B", "A/B+C", "A/B-C/A", "A/B/C", "A/(B/C)", "(A/B)/(C/A)", "(A*B)/(A*C)", "(A*B)/A", "A/(A*B)", "A/A", "(A+B)/(A+B)", "(A-B)/(B-A)", "-A/-B", "A/-B", "-(A-B)",
    "-A*-B", "(A^2-B^2)/(A-B)", "(A^2+2*A*B+B^2)/(A+B)", "(N*A+N*B)/N", "(N*A)/(N*B)", "N/N*A", "A*(B/C)", "(A/B)*(B/C)", "0*A", "0/A", "A/1", "A*1", "A+0", "1/(1/A)", "A*(B+C)", "A*(B+C)-A*B",
    "(A+B)*(A-B)", "(A+B)^2", "(A+B)^2-(A-B)^2", "(A+1)^K/(A+1)", "N*(A+B)+N*(A+B)", "A*A*B/A", "(A*B+A)/(A*C+A)", "(A^2*B)/(A*B^2)", "1/A+1/B", "A/B*C/A", "1-A/B", "(N-A)/(A-N)",
    // exponentials and logs
    "ln(A^K)", "ln(A^R)", "ln(A^B)", "ln(A)+ln(B)", "ln(A)-ln(B)", "K*ln(A)", "exp(ln(A))", "ln(exp(A))", "exp(N*ln(A))", "exp(A*ln(B))", "e^ln(A)", "e^(A*ln(B))", "ln(e^A)", "exp(A)*exp(B)", "exp(A)/exp(B)",
    "exp(A)^K", "log10(A^K)", "log2(A^K)", "log(K,A^K)", "log(A,A)", "log(A,1)", "ln(1)", "ln(e)", "log10(10)", "log2(2)", "log10(1)", "log2(1)", "log10(1000)", "log2(8)", "exp(0)", "exp(1)", "ln(sqrt(A))", "ln(cbrt(A))", "log10(sqrt(A))",
    "ln(A*B)", "ln(A/B)", "exp(-A)", "1/exp(A)", "exp(A)+exp(A)", "exp(A)^R", "ln(abs(A))", "log(K,A)+log(K,B)", "ln(A)/ln(B)", "ln(A^2*B)", "exp(2*A)-1",
    // trigonometric
    "sin(A)^2+cos(A)^2", "N*sin(A)^2+N*cos(A)^2", "1-sin(A)^2", "1-cos(A)^2", "sin(A)^2-1", "cos(A)^2-1", "sec(A)^2-1", "sec(A)^2-tan(A)^2", "csc(A)^2-1", "csc(A)^2-cot(A)^2", "1+tan(A)^2", "1+cot(A)^2", "tan(A)^2+1",
    "cos(A)^2-sin(A)^2", "sin(A)^2-cos(A)^2", "sin(A)^2+cos(B)^2", "sin(A)/cos(A)", "cos(A)/sin(A)", "1/sin(A)", "1/cos(A)", "1/tan(A)", "N/cos(A)", "A/sin(B)", "sin(A)/tan(A)", "sin(A)*cot(A)", "sin(A)*cos(A)", "N*sin(A)*cos(A)", "sin(A)*cos(A)*B", "2*sin(A)*cos(A)",
    "(cos(A)-sin(A))*(cos(A)+sin(A))", "(sin(A)-cos(A))*(cos(A)+sin(A))", "sin(A)*cos(B)+cos(A)*sin(B)", "sin(A)*cos(B)-cos(A)*sin(B)", "N*sin(A)*cos(B)+N*cos(A)*sin(B)", "cos(A)*cos(B)-sin(A)*sin(B)", "cos(A)*cos(B)+sin(A)*sin(B)",
    "3*sin(A)-4*sin(A)^3", "4*cos(A)^3-3*cos(A)", "4*sin(A)^3-3*sin(A)", "3*cos(A)-4*cos(A)^3", "N*sin(A)-N*sin(A)^3", "sin(-A)", "cos(-A)", "tan(-A)", "cot(-A)", "sec(-A)", "csc(-A)", "sin(A+2*pi)", "cos(A-2*pi)", "sin(A+4*pi)", "cos(A+pi)", "sin(pi-A)", "cos(pi-A)", "sin(pi+A)", "tan(A+pi)",
    "sin(3*pi/2-A)", "cos(3*pi/2-A)", "sin(3*pi/2+A)", "sin(pi/2-A)", "cos(pi/2-A)", "tan(pi/2-A)", "cot(pi/2-A)", "sec(pi/2-A)", "csc(pi/2-A)", "sin(pi/2+A)", "sin(0)", "cos(0)", "tan(0)", "sin(pi)", "cos(pi)", "sin(pi/2)", "cos(pi/2)", "sin(pi/6)", "cos(pi/3)", "tan(pi/4)", "sin(pi/4)", "cos(pi/6)", "tan(pi/3)", "sin(pi/3)", "tan(pi/6)", "cos(pi/4)", "sin(2*pi/3)", "cos(5*pi/6)", "sin(3*pi/2)", "tan(3*pi/4)", "sin(K*pi/6)", "cos(K*pi/6)", "tan(K*pi/6)", "sin(K*pi/4)", "cos(K*pi/4)", "cos(K*pi/3)", "sin(A+K*pi)", "cos(A+K*pi/2)",
    "asin(sin(A))", "sin(asin(A))", "cos(acos(A))", "acos(cos(A))", "tan(atan(A))", "atan(tan(A))", "sec(A)*cos(A)", "csc(A)*sin(A)", "tan(A)*cot(A)", "sec(A)^K", "sin(2*A)/sin(A)", "1-2*sin(A)^2", "2*cos(A)^2-1", "sin(A)^4-cos(A)^4", "1/(1-sin(A)^2)",
    // hyperbolic
    "cosh(A)^2-sinh(A)^2", "sinh(A)^2-cosh(A)^2", "1-tanh(A)^2", "tanh(A)^2-1", "coth(A)^2-1", "1-coth(A)^2", "1+sinh(A)^2", "cosh(A)^2-1", "sinh(A)^2+1", "1-cosh(A)^2", "N*cosh(A)^2-N*sinh(A)^2", "sinh(A)^2+cosh(A)^2", "sinh(A)/cosh(A)", "cosh(A)/sinh(A)", "1/cosh(A)", "1/sinh(A)", "1/tanh(A)", "1/coth(A)", "sinh(-A)", "cosh(-A)", "tanh(-A)",
    "sinh(0)", "cosh(0)", "tanh(0)", "sinh(asinh(A))", "cosh(acosh(A))", "tanh(atanh(A))", "asinh(sinh(A))", "acosh(cosh(A))", "atanh(tanh(A))", "(exp(A)-exp(-A))/2", "(exp(A)+exp(-A))/2", "(exp(A)-exp(-A))/(exp(A)+exp(-A))", "(exp(A)+exp(-A))/(exp(A)-exp(-A))", "2/(exp(A)+exp(-A))", "2/(exp(A)-exp(-A))", "(exp(-A)-exp(A))/2", "(exp(2*A)-1)/(exp(2*A)+1)", "(exp(2*A)+1)/(exp(2*A)-1)", "(1-exp(-2*A))/(1+exp(-2*A))",
    "(exp(A)-1/exp(A))/2", "(exp(A)+1/exp(A))/2", "(e^A-e^(-A))/2", "(e^A+e^(-A))/2", "N/(e^A+e^(-A))", "N*(e^A-e^(-A))", "(e^A+e^(-B))/2", "(e^A-e^(-A))/(e^A-e^(-A))", "(exp(A)^2-1)/(exp(A)^2+1)", "(exp(2*A)-1)/exp(2*A)", "2*exp(A)/(exp(2*A)+1)", "2*exp(A)/(exp(2*A)-1)",
    "4*sinh(A)^3+3*sinh(A)", "4*cosh(A)^3-3*cosh(A)", "3*sinh(A)+4*sinh(A)^3", "3*sinh(A)-4*sinh(A)^3", "cosh(A)*sech(A)", "sech(A)^2+tanh(A)^2", "cosh(A)+sinh(A)", "(cosh(A)-sinh(A))*(cosh(A)+sinh(A))",
    // abs, sign, rounding
    "abs(-A)", "abs(abs(A))", "abs(A^2)", "abs(A^K)", "abs(A)^2", "abs(A)^K", "abs(A)*signum(A)", "signum(signum(A))", "signum(abs(A))", "signum(A)*A", "abs(A)/A", "abs(A)*abs(B)", "abs(A*B)", "abs(-N)", "signum(-N)", "floor(N)", "ceil(N)", "round(N)", "abs(sqrt(A))", "abs(exp(A))", "floor(floor(A))", "signum(-A)", "signum(A^2)",
    // numeric folding
    "N+N", "N*N", "N/N", "N^K", "N^R", "N-N", "N/N/N", "sqrt(N)", "cbrt(N)", "sqrt(K)*sqrt(K)", "sqrt(K)/K", "exp(N)", "ln(N)", "sin(N)", "N*A/N", "A*N*N", "(N*A)^K", "(N/A)^K", "atan(1)", "asin(1)", "acos(0)", "cbrt(-8)", "sqrt(4)", "sqrt(8)", "(-8)^(1/3)", "(-N)^K", "N^(-K)", "2^K*2^K", "K/K+K/K",
];

fn hole(s: &mut Src, out: &mut String, t: &T) {
    let bare = matches!(t, Var(_) | Pi | E) || matches!(t, Num(n) if *n >= 0.0);
    let f = print_formula(t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false });
    if bare && !f.starts_with('-') {
        out.push_str(&f);
    } else {
        out.push('(');
        out.push_str(&f);
        out.push(')');
    }
}
/// One shape with its holes filled.
pub fn shape(s: &mut Src, funs: FunSet) -> String {
    let sh = *s.pick(SHAPES);
    let mut c = Cfg::new(4, 3, funs);
    c.consts = s.chance(1, 4);
    let terms: Vec<T> = (0..3)
        .map(|_| match s.weighted(&[12, 4, 2, 1]) {
            0 => gen::var(s, &c),
            1 => gen::term(s, &c),
            2 => Mul(b(Num(s.range(2, 6) as f64)), b(gen::var(s, &c))),
            _ => Num(s.range(0, 9) as f64),
        })
        .collect();
    let same = s.chance(1, 10);
    // A near miss: one hole, number, sign or function of the shape is not what a rule asks for.
    let near = s.chance(1, 3);
    let sh = if near && s.chance(1, 3) { near_miss(s, sh) } else { sh.to_string() };
    let chars: Vec<char> = sh.chars().collect();
    let holes = chars.iter().filter(|c| "ABC".contains(**c)).count();
    let odd = if near && holes > 1 { s.us(holes) } else { usize::MAX };
    let mut seen = 0;
    let mut out = String::new();
    for ch in &chars {
        match ch {
            'A' | 'B' | 'C' => {
                let k = match ch {
                    'A' => 0,
                    'B' => usize::from(!same),
                    _ => 2,
                };
                let k = if seen == odd { (k + 1 + s.us(2)) % 3 } else { k };
                seen += 1;
                hole(s, &mut out, &terms[k]);
            }
            'N' => out.push_str(&fmt_num(gen::number(s))),
            'K' => out.push_str(&s.range(1, 7).to_string()),
            'R' => {
                let r = *s.pick(&["0.5", "(1/2)", "(1/3)", "1.5", "(3/2)", "(2/3)", "0.25", "(1/4)", "2.5", "(1/6)"]);
                out.push_str(r)
            }
            _ => out.push(*ch),
        }
    }
    out
}
/// The shape with one number, operator or function replaced by another.
fn near_miss(s: &mut Src, sh: &str) -> String {
    let c: Vec<char> = sh.chars().collect();
    let mut words: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < c.len() {
        let j = i;
        let kind = |x: char| if x.is_ascii_lowercase() { 0 } else if x.is_ascii_digit() { 1 } else if "+-*/".contains(x) { 2 } else { 3 };
        let k = kind(c[i]);
        i += 1;
        // a word like log10 keeps its digits
        while i < c.len() && (k < 2 && kind(c[i]) == k || k == 0 && kind(c[i]) == 1) {
            i += 1;
        }
        if k < 3 && !(k == 2 && j == 0) {
            words.push((j, i));
        }
    }
    if words.is_empty() {
        return sh.to_string();
    }
    let (a, z) = *s.pick(&words);
    let w: String = c[a..z].iter().collect();
    let new = match c[a] {
        x if x.is_ascii_digit() => s.range(1, 7).to_string(),
        '*' | '/' => (*s.pick(&["*", "/"])).to_string(),
        '+' | '-' if a > 0 && !"(,^*/".contains(c[a - 1]) => (*s.pick(&["+", "-", "*"])).to_string(),
        '+' | '-' => w.clone(),
        _ => match w.as_str() {
            "pi" | "e" => (*s.pick(&["pi", "e", "1", "2"])).to_string(),
            _ => match fun(&w) {
                Some(f) if f.arity == 1 => (*s.pick(&["sin", "cos", "tan", "cot", "sec", "csc", "sinh", "cosh", "tanh", "exp", "ln", "sqrt", "cbrt", "abs", "signum", "atan", "asinh"])).to_string(),
                _ => w.clone(),
            },
        },
    };
    c[..a].iter().collect::<String>() + &new + &c[z..].iter().collect::<String>()
}
pub fn fmt_num(x: f64) -> String {
    format!("{x}")
}
/// A formula: a shape, shapes combined, or a shape inside a function.
pub fn shape_formula(s: &mut Src, funs: FunSet) -> String {
    let a = shape(s, funs);
    match s.below(10) {
        0..=3 => a,
        4 => format!("({a})+({})", shape(s, funs)),
        5 => format!("({a})*({})", shape(s, funs)),
        6 => format!("({a})/({})", shape(s, funs)),
        7 => format!("({a})-({})", shape(s, funs)),
        8 => {
            let f = &ELEM[s.us(ELEM.len())];
            if f.arity == 1 { format!("{}({a})", f.name) } else { a }
        }
        _ => format!("({a})^{}", s.range(2, 4)),
    }
}
/// Random original expression: Ok(expr, how it was made).
pub fn original(s: &mut Src, kind: u64) -> Option<(sa::Expr, String)> {
    match kind {
        0 => {
            let f = shape_formula(s, FunSet::Basic);
            let e = parse(&f).ok()?;
            Some((e, f))
        }
        1 => {
            let f = shape_formula(s, FunSet::Elem);
            let e = parse(&f).ok()?;
            Some((e, f))
        }
        _ => {
            let n = if s.chance(1, 4) { 20 } else { 9 };
            let mut c = Cfg::new(n, 3, FunSet::Elem);
            c.neg_lits = s.chance(1, 4);
            let t = gen::term(s, &c);
            if !gen::tame(&t) {
                return None;
            }
            let show = format!("{t}");
            Some((to_expr(&t, s), show))
        }
    }
}
