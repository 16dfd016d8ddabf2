//! C13: compiled evaluation agrees with symbolic evaluation.
use sa::CompiledEvaluator as CE;
use vchk::comp::{big, fill};
use vchk::*;

fn compile(e: &sa::Expr, order: &[usize], how: u64) -> Result<CE, sa::DiffError> {
    let names: Vec<&str> = order.iter().map(|i| VARS[*i]).collect();
    match how {
        0 => CE::compile(e, &names, None),
        1 => {
            let syms: Vec<sa::Symbol> = names.iter().map(|n| sa::symb(n)).collect();
            let refs: Vec<&sa::Symbol> = syms.iter().collect();
            CE::compile(e, &refs, None)
        }
        _ => CE::compile(e, &names, Some(&sa::Context::new())),
    }
}
fn run(s: &mut Src, cx: &mut Cx, t: &T, e: &sa::Expr, special: bool) -> Out {
    let view = from_expr(e);
    // an exponent that is an integer only up to rounding decides whether a value exists at all
    let shaky = |u: &T| match u {
        Pow(_, c) if const_like(c) => c.any(&|w| matches!(w, F(..))) || matches!(ev(c, &[]), Ev::Val(v) if v.v != v.v.round() && (v.v - v.v.round()).abs() < 1e-9),
        _ => false,
    };
    if view.any(&shaky) {
        return Out::Discard;
    }
    let mut order = view.varset();
    let (ce, order) = match s.below(4) {
        3 => {
            let names = {
                let mut v: Vec<&str> = order.iter().map(|i| VARS[*i]).collect();
                v.sort();
                v
            };
            let ce = match CE::compile_auto(e, None) {
                Ok(c) => c,
                Err(er) => return Out::fail("compile", format!("compile_auto failed: {er:?}")),
            };
            let got: Vec<&str> = ce.param_names().iter().map(String::as_str).collect();
            if got != names {
                return Out::fail("names", format!("compile_auto parameters {got:?}, variables {names:?}"));
            }
            (ce, names.iter().map(|n| var_index(n).unwrap()).collect::<Vec<_>>())
        }
        k => {
            for i in 0..VARS.len() {
                if !order.contains(&i) && s.chance(1, 4) {
                    order.push(i);
                }
            }
            s.shuffle(&mut order);
            match compile(e, &order, k) {
                Ok(c) => (c, order),
                Err(er) => return Out::fail("compile", format!("compile failed: {er:?}")),
            }
        }
    };
    if ce.param_count() != order.len() {
        return Out::fail("names", format!("param_count is {}, {} given", ce.param_count(), order.len()));
    }
    let mut good = 0;
    for _ in 0..4 {
        let p = gen::point(s);
        let args: Vec<f64> = order.iter().map(|i| p[*i]).collect();
        let got = ce.evaluate(&args);
        let again = ce.clone().evaluate(&args);
        if got.to_bits() != again.to_bits() && !(got.is_nan() && again.is_nan()) {
            return Out::fail("repeat", format!("two evaluations at {} differ: {got:e} {again:e}", gen::show_point(&p, &order)));
        }
        let at = gen::show_point(&p, &view.varset());
        match (ev(t, &p), ev(&view, &p)) {
            (Ev::Val(w), Ev::Val(v)) => {
                let w = Ball { v: w.v, e: w.e.max(v.e) };
                if !matches!(close(w, w, 1e-9), Cmp::Same) {
                    continue;
                }
                good += 1;
                if !got.is_finite() {
                    return Out::fail("value", format!("at {at}: expected {:e}, compiled gives {got}", w.v));
                }
                if let Cmp::Differ(m) = close(w, Ball { v: got, e: w.e }, 1e-9) {
                    return Out::fail("value", format!("at {at}: {m}"));
                }
            }
            _ => {
                // polynomials of degree zero are constants whatever the argument
                let degree0 = view.any(&|u| matches!(u, F(f, a) if a.len() >= 2 && matches!(f.name, "hermite" | "assoc_legendre" | "ynm" | "spherical_harmonic") && matches!(a[0], T::Num(n) if n == 0.0)));
                if !degree0 && got.is_finite() && undef_count(&view, &p) == 1 && hard_undef(&view, &p) {
                    let tree = lib_eval(e, &p);
                    if !tree.as_number().map(f64::is_finite).unwrap_or(false) {
                        cx.count("undefined");
                        return Out::fail("undefined", format!("at {at}: no value exists, compiled gives {got:e} (symbolic: {tree})"));
                    }
                }
            }
        }
    }
    if special {
        // differential against the symbolic evaluator at infinities, signed zeros, extremes
        let sp = [f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300, 1e-300, 1.0, -1.0, 2.0];
        let mut p = vec![1.0; VARS.len()];
        for x in p.iter_mut() {
            *x = *s.pick(&sp);
        }
        let args: Vec<f64> = order.iter().map(|i| p[*i]).collect();
        let got = ce.evaluate(&args);
        let tree = lib_eval(e, &p).as_number();
        if let Some(w) = tree {
            if w.is_finite() && w != 0.0 && (w.abs() < 1e150 && w.abs() > 1e-150) {
                cx.count("special value");
                if !((got - w).abs() <= 1e-9 * w.abs()) {
                    return Out::fail("special", format!("at {}: symbolic {w:e}, compiled {got:e}", gen::show_point(&p, &view.varset())));
                }
            }
        }
    }
    cx.pass(good > 0 && view.size() >= 3)
}
fn make(s: &mut Src, cx: &mut Cx, t: T, special: bool) -> Out {
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    run(s, cx, &t, &e, special)
}
fn shapes(s: &mut Src, cx: &mut Cx) -> Out {
    let mut t = fill(s);
    if s.chance(1, 3) {
        let u = fill(s);
        t = match s.below(5) {
            0 => Add(b(t), b(u)),
            1 => Mul(b(t), b(u)),
            2 => Sub(b(t), b(u)),
            3 => Div(b(t), b(u)),
            _ => Add(b(Mul(b(t.clone()), b(u))), b(t)),
        };
    }
    make(s, cx, t, false)
}
fn random(s: &mut Src, cx: &mut Cx) -> Out {
    let n = if s.chance(1, 4) { 30 } else { 10 };
    let mut c = Cfg::new(n, 4, FunSet::All);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    make(s, cx, t, false)
}
fn large(s: &mut Src, cx: &mut Cx) -> Out {
    let t = big(s);
    make(s, cx, t, false)
}
fn specials(s: &mut Src, cx: &mut Cx) -> Out {
    let f = gen::pick_fun(s, FunSet::Elem).unwrap();
    if f.name == "signum" {
        return Out::Discard; // the sign of zero is a convention that neither side documents
    }
    let c = Cfg::new(1, 2, FunSet::None);
    let t = if f.arity == 1 {
        let a = if s.chance(1, 3) {
            let k = T::Num(s.range(1, 4) as f64);
            match s.below(4) {
                0 => Div(b(k), b(gen::var(s, &c))),
                1 => Neg(b(gen::var(s, &c))),
                2 => Mul(b(k), b(gen::var(s, &c))),
                _ => Pow(b(gen::var(s, &c)), b(T::Num(s.range(-3, 4) as f64))),
            }
        } else {
            gen::var(s, &c)
        };
        F(f, vec![a])
    } else {
        F(f, vec![gen::var(s, &c), gen::var(s, &c)])
    };
    make(s, cx, t, true)
}
fn processed(s: &mut Src, cx: &mut Cx) -> Out {
    // derivatives and simplified forms are what users compile
    let mut c = Cfg::new(9, 3, FunSet::Smooth);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let e = match s.below(2) {
        0 => sa::Diff::new().skip_simplification(s.chance(1, 2)).differentiate(&e, &sa::symb("x")),
        _ => sa::Simplify::new().simplify(&e),
    };
    let Ok(e) = e else { return Out::Discard };
    let view = from_expr(&e);
    if opaque_in(&view).is_some() {
        return Out::Discard;
    }
    if !gen::tame(&view) || view.size() > 3000 {
        return Out::Discard;
    }
    run(s, cx, &view, &e, false)
}
fn errors(s: &mut Src, cx: &mut Cx) -> Out {
    let c = Cfg::new(10, 4, FunSet::Elem);
    let t = gen::term(s, &c);
    let vs = t.varset();
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let mut names: Vec<&str> = VARS.to_vec();
    s.shuffle(&mut names);
    match s.below(3) {
        0 => {
            let left = from_expr(&e).varset();
            if left.is_empty() {
                return Out::Discard;
            }
            let drop = VARS[left[s.us(left.len())]];
            names.retain(|n| *n != drop);
            match CE::compile(&e, &names, None) {
                // constant folding may remove a variable (0*x)
                Ok(ce) => {
                    let p1 = gen::point(s);
                    let mut p2 = p1.clone();
                    p2[var_index(drop).unwrap()] += 0.37;
                    if lib_num(&e, &p1).to_bits() == lib_num(&e, &p2).to_bits() {
                        return Out::Discard;
                    }
                    let args: Vec<f64> = names.iter().map(|n| p1[var_index(n).unwrap()]).collect();
                    Out::fail("unbound", format!("compiled without a parameter for {drop}; gives {}", ce.evaluate(&args)))
                }
                Err(sa::DiffError::UnboundVariable(n)) if n == drop => cx.pass(true),
                Err(er) => Out::fail("unbound", format!("missing {drop}: unexpected error {er:?}")),
            }
        }
        1 => {
            let f = sa::Expr::func("no_such_function", e.clone());
            let h = match s.below(4) {
                0 => f + e,
                1 => f * sa::symb("x"),
                2 => f.sin(),
                _ => f,
            };
            let _ = vs;
            match CE::compile(&h, &names, None) {
                Ok(_) => Out::fail("unsupported", format!("compiled an unknown function: {h}")),
                Err(_) => cx.pass(true),
            }
        }
        _ => {
            let d = sa::Expr::derivative(sa::Expr::func("no_such_function", sa::Expr::symbol("x")), "x", 1);
            let h = match s.below(3) {
                0 => d + e,
                1 => d * 2.0,
                _ => d,
            };
            match CE::compile(&h, &names, None) {
                Ok(_) => Out::fail("unsupported", format!("compiled a formal derivative: {h}")),
                Err(_) => cx.pass(true),
            }
        }
    }
}
fn spec() -> Spec {
    init_special();
    Spec::new("C13", "random terms, shapes the compiler special-cases, deep and wide programs around the stack and cache thresholds, derivatives and simplified forms; compiled with permuted and unused parameters and compared with the reference evaluator (and, at infinities and extremes, with the symbolic evaluator); non-trivial: at least 3 nodes and a well-conditioned value")
        .stage("shapes", 800_000, 8_000_000, shapes)
        .stage("random", 800_000, 8_000_000, random)
        .stage("large", 120_000, 1_000_000, large)
        .stage("specials", 200_000, 1_000_000, specials)
        .stage("processed", 300_000, 3_000_000, processed)
        .stage("errors", 60_000, 1_000_000, errors)
}
fn main() {
    main_with(spec)
}
