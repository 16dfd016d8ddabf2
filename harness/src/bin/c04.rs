//! C04: the LaTeX and Unicode renderings, read back by an independent reader, denote the same function.
use vchk::*;

fn rd(cx: &mut Cx, e: &sa::Expr, pts: &[Vec<f64>]) -> Out {
    let want = from_expr(e);
    if opaque_in(&want).is_some() {
        return Out::Discard;
    }
    let (l, u) = (e.to_latex(), e.to_unicode());
    cx.show(format!("{e}  latex {l}  unicode {u}"));
    let mut n = 0;
    for (kind, txt, back) in [("latex", &l, reader::latex(&l)), ("unicode", &u, reader::unicode(&u))] {
        let got = match back {
            Ok(t) => t,
            Err(m) => return Out::fail(format!("{kind} unreadable"), format!("{m}: {kind} {txt:?} of {want}")),
        };
        match same_function(&want, &got, pts, 1e-9) {
            Err(m) => return Out::fail(format!("{kind} value"), format!("{m}; {kind} {txt:?} reads as {got}, expression is {want}")),
            Ok(k) => n += k,
        }
    }
    cx.pass(n > 0 && want.size() >= 3)
}
fn cfg(s: &mut Src, size: usize, funs: FunSet) -> Cfg {
    let mut c = Cfg::new(size, 3, funs);
    c.neg_lits = true;
    c.long_vars = s.chance(1, 4);
    c
}
fn built(s: &mut Src, cx: &mut Cx) -> Out {
    let funs = if s.chance(1, 2) { FunSet::All } else { FunSet::Elem };
    let c = cfg(s, 14, funs);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 4);
    rd(cx, &e, &pts)
}
fn lists(s: &mut Src, cx: &mut Cx) -> Out {
    let c = cfg(s, 4, FunSet::Basic);
    let n = 2 + s.us(4);
    let v: Vec<T> = (0..n)
        .map(|_| {
            let x = if s.chance(1, 3) { gen::poly(s, &c, 2) } else { gen::term(s, &c) };
            if s.chance(1, 3) { Neg(b(x)) } else { x }
        })
        .collect();
    let t = if s.chance(2, 3) { Prod(v) } else { Sum(v) };
    let t = match s.below(5) {
        0 => Neg(b(t)),
        1 => Pow(b(t), b(Num(2.0))),
        2 => Div(b(t), b(gen::term(s, &c))),
        _ => t,
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 4);
    rd(cx, &e, &pts)
}
/// Polynomials (packed forms) in one base: many terms, high degrees, any base, in any surrounding.
fn polys(s: &mut Src, cx: &mut Cx) -> Out {
    let c = cfg(s, 3, FunSet::Elem);
    let base = if s.chance(1, 2) { gen::var(s, &c) } else { gen::term(s, &c) };
    let n = 2 + s.us(3);
    let mut v: Vec<T> = (0..n)
        .map(|_| {
            let k = *s.pick(&[0, 1, 1, 2, 2, 3, 4, 9, 10, 12, 25, 100]);
            let m = match k {
                0 => Num(1.0),
                1 => base.clone(),
                k => Pow(b(base.clone()), b(Num(k as f64))),
            };
            let q = *s.pick(&[1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 10.0]);
            if k == 0 { Num(q) } else if q == 1.0 { m } else { Mul(b(Num(q)), b(m)) }
        })
        .collect();
    if s.chance(1, 4) {
        v.push(gen::term(s, &c));
    }
    let p = Sum(v);
    let t = match s.below(8) {
        0 => Neg(b(p)),
        1 => Pow(b(p), b(gen::term(s, &c))),
        2 => Div(b(p), b(gen::term(s, &c))),
        3 => Div(b(gen::term(s, &c)), b(p)),
        4 => Mul(b(p), b(gen::term(s, &c))),
        5 => F(fun(*s.pick(&["sin", "exp", "abs", "floor", "sqrt", "gamma"])).unwrap(), vec![p]),
        6 => Sub(b(gen::term(s, &c)), b(p)),
        _ => p,
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 4);
    rd(cx, &e, &pts)
}
fn processed(s: &mut Src, cx: &mut Cx) -> Out {
    let c = cfg(s, 9, FunSet::Smooth);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = pos_points(s, 4);
    let e = match s.below(3) {
        0 => sa::Diff::new().skip_simplification(true).differentiate(&e, &sa::symb("x")),
        1 => sa::Simplify::new().simplify(&e),
        _ => sa::Diff::new().differentiate(&e, &sa::symb("x")),
    };
    match e {
        Ok(e) => rd(cx, &e, &pts),
        Err(_) => Out::Discard,
    }
}
/// name, Unicode letters that stand for it
const GREEK: &[(&str, &[char])] = &[
    ("pi", &['π']), ("alpha", &['α']), ("beta", &['β']), ("gamma", &['γ']), ("delta", &['δ']), ("epsilon", &['ε', 'ϵ']), ("zeta", &['ζ']), ("eta", &['η']),
    ("theta", &['θ']), ("iota", &['ι']), ("kappa", &['κ']), ("lambda", &['λ']), ("mu", &['μ']), ("nu", &['ν']), ("xi", &['ξ']), ("omicron", &['ο']), ("rho", &['ρ']),
    ("sigma", &['σ']), ("tau", &['τ']), ("upsilon", &['υ']), ("phi", &['φ', 'ϕ']), ("chi", &['χ']), ("psi", &['ψ']), ("omega", &['ω']), ("varepsilon", &['ε', 'ϵ']),
    ("vartheta", &['ϑ']), ("varphi", &['φ', 'ϕ']), ("varrho", &['ϱ', 'ρ']), ("varsigma", &['ς']),
];
/// Names of Greek letters become these letters, other names stay what they are.
fn names(s: &mut Src, cx: &mut Cx) -> Out {
    let mut all: Vec<usize> = (0..GREEK.len()).collect();
    s.shuffle(&mut all);
    let k = 1 + s.us(4);
    let plain = ["mass", "x", "pie", "alphabet", "t2", "q_mu", "Pi0", "nux"];
    let mut e: Option<sa::Expr> = None;
    let mut used = Vec::new();
    for &i in &all[..k] {
        let g = sa::symb(GREEK[i].0).to_expr();
        let g = match s.below(5) {
            0 => g.sin(),
            1 => g.pow(2.0 + s.below(3) as f64),
            2 => g / sa::symb("x").to_expr(),
            _ => g,
        };
        let g = if s.chance(1, 3) { sa::symb(*s.pick(&plain)).to_expr() * g } else { g };
        e = Some(match e {
            None => g,
            Some(x) => match s.below(4) {
                0 => x * g,
                1 => x - g,
                2 => sa::Expr::func_multi("atan2", vec![x, g]),
                _ => x + g,
            },
        });
        used.push(GREEK[i]);
    }
    let e = e.unwrap();
    let (l, u) = (e.to_latex(), e.to_unicode());
    cx.show(format!("{e}  latex {l}  unicode {u}"));
    // words of LaTeX: \\letters; words of Unicode text: runs of identifier characters
    let commands: Vec<String> = l.split('\\').skip(1).map(|t| t.chars().take_while(|c| c.is_ascii_alphabetic()).collect()).collect();
    let words: Vec<&str> = u.split(|c: char| !(c.is_alphanumeric() || c == '_') || "²³⁰¹⁴⁵⁶⁷⁸⁹".contains(c)).filter(|w| !w.is_empty()).collect();
    for (n, letters) in &used {
        if !commands.iter().any(|c| c == n) {
            return Out::fail(format!("latex {n}"), format!("the variable {n} is not the letter \\{n} in LaTeX {l:?} of {e}"));
        }
        if !words.iter().any(|w| w.chars().count() == 1 && letters.contains(&w.chars().next().unwrap())) {
            return Out::fail(format!("unicode {n}"), format!("the variable {n} is not the letter {} in {u:?}, rendering of {e}", letters[0]));
        }
    }
    let standard = e.to_string();
    for (n, letters) in GREEK {
        // a letter that no name asks for
        if !used.iter().any(|(m, ls)| m == n || ls.iter().any(|c| letters.contains(c))) && (commands.iter().any(|c| c == n) || u.contains(letters[0])) {
            return Out::fail(format!("stray {n}"), format!("{l:?} and {u:?} have the letter {n}, which {standard} does not"));
        }
    }
    for p in plain {
        let word = |t: &str| t.split(|c: char| !(c.is_alphanumeric() || c == '_') || "²³⁰¹⁴⁵⁶⁷⁸⁹".contains(c)).filter(|w| *w == p).count();
        if p != "x" && p != "q_mu" && word(&standard) != word(&u) {
            return Out::fail(format!("name {p}"), format!("{p} occurs {} times in {standard} but {} times in {u}", word(&standard), word(&u)));
        }
    }
    cx.pass(k > 1)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C04", "an expression (built by operators, a packed polynomial, differentiated, or simplified) rendered as LaTeX and as Unicode, both read by an independent reader and compared with the expression at points; non-trivial: at least 3 nodes and at least one point where the values are well-conditioned")
        .stage("built", 150_000, 3_000_000, built)
        .stage("lists", 100_000, 2_000_000, lists)
        .stage("polys", 100_000, 2_000_000, polys)
        .stage("processed", 40_000, 1_500_000, processed)
        .stage("names", 20_000, 400_000, names)
}
fn main() {
    main_with(spec)
}
