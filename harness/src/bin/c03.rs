//! C03: printing and parsing back preserves the function.
use vchk::*;

fn rt(cx: &mut Cx, e: &sa::Expr, pts: &[Vec<f64>]) -> Out {
    let txt = e.to_string();
    cx.show(format!("text: {txt}"));
    let want = from_expr(e);
    let back = match parse(&txt) {
        Ok(x) => x,
        Err(er) => return Out::fail("reparse", format!("own text does not parse: {er:?}: {txt}")),
    };
    let got = from_expr(&back);
    match same_function(&want, &got, pts, 1e-9) {
        Err(m) => Out::fail("value", format!("{m}; text {txt:?} reads as {got}, expression is {want}")),
        Ok(n) => cx.pass(n > 0 && want.size() >= 3),
    }
}
fn built(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(14, 3, FunSet::All);
    c.neg_lits = true;
    c.long_vars = s.chance(1, 4);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 4);
    rt(cx, &e, &pts)
}
fn lists(s: &mut Src, cx: &mut Cx) -> Out {
    // n-ary products and sums with signs in every position
    let mut c = Cfg::new(4, 3, FunSet::Basic);
    c.neg_lits = true;
    let n = 2 + s.us(4);
    let v: Vec<T> = (0..n)
        .map(|_| {
            let x = if s.chance(1, 3) { gen::poly(s, &c, 2) } else { gen::term(s, &c) };
            if s.chance(1, 3) { Neg(b(x)) } else { x }
        })
        .collect();
    let t = if s.chance(2, 3) { Prod(v) } else { Sum(v) };
    let t = match s.below(5) {
        0 => Neg(b(t)),
        1 => Pow(b(t), b(Num(2.0))),
        2 => Div(b(t), b(gen::term(s, &c))),
        _ => t,
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 4);
    rt(cx, &e, &pts)
}
fn processed(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(9, 3, FunSet::Smooth);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = pos_points(s, 4);
    let e = match s.below(3) {
        0 => {
            cx.count("derivative");
            sa::Diff::new().skip_simplification(true).differentiate(&e, &sa::symb("x"))
        }
        1 => {
            cx.count("simplified");
            sa::Simplify::new().simplify(&e)
        }
        _ => {
            cx.count("simplified derivative");
            sa::Diff::new().differentiate(&e, &sa::symb("x"))
        }
    };
    match e {
        Ok(e) => rt(cx, &e, &pts),
        Err(_) => Out::Discard,
    }
}
/// A value of an expression in which user functions and formal derivatives stand for fixed
/// smooth functions of their name, their arguments and the order
fn digest(e: &sa::Expr, env: &[f64], lim: f64) -> Option<f64> {
    use sa::visitor::ExprView as V;
    let bounded = |v: f64| (v.is_finite() && v.abs() < lim && (v == 0.0 || v.abs() > 1.0 / lim)).then_some(v);
    let mixed = |h: u64, a: &[f64]| {
        let c = (h % 1000) as f64 / 100.0;
        let w: f64 = a.iter().enumerate().map(|(i, v)| (i as f64 + 1.3) * v).sum();
        2.0 + (c + w).sin()
    };
    let v = match e.view() {
        V::Number(n) => n,
        V::Symbol(n) => match n.as_ref() {
            "pi" => std::f64::consts::PI,
            "e" => std::f64::consts::E,
            n => env[var_index(n)?],
        },
        V::Sum(v) => v.iter().map(|x| digest(x, env, lim)).sum::<Option<f64>>()?,
        V::Product(v) => v.iter().map(|x| digest(x, env, lim)).product::<Option<f64>>()?,
        V::Div(a, c) => digest(&a, env, lim)? / digest(&c, env, lim)?,
        V::Pow(a, c) => {
            let (x, y) = (digest(&a, env, lim)?, digest(&c, env, lim)?);
            if x < 0.0 && y.fract() != 0.0 { return None }
            x.powf(y)
        }
        V::Function { name, args } => {
            let a: Vec<f64> = args.iter().map(|x| digest(x, env, lim)).collect::<Option<_>>()?;
            match fun(name.as_ref()) {
                Some(f) => (f.eval)(&a),
                None => mixed(hash_str(name.as_ref()), &a),
            }
        }
        V::Derivative { inner, var, order } => mixed(hash_str(&format!("{var}^{order}")), &[digest(&inner, env, lim)?]),
    };
    bounded(v)
}
fn formal_term(s: &mut Src, depth: usize) -> sa::Expr {
    let leaf = |s: &mut Src| -> sa::Expr {
        match s.below(4) {
            0 => sa::Expr::number(*s.pick(&[2.0, 3.0, 0.5, -1.0, -2.5])),
            _ => sa::symb(VARS[s.us(3)]).to_expr(),
        }
    };
    if depth == 0 {
        return leaf(s);
    }
    let d = depth - 1;
    match s.weighted(&[2, 3, 3, 2, 3, 2, 6, 4, 3]) {
        0 => leaf(s),
        1 => formal_term(s, d) + formal_term(s, d),
        2 => formal_term(s, d) * formal_term(s, d),
        3 => formal_term(s, d) / formal_term(s, d),
        4 => {
            let x = formal_term(s, d);
            if s.chance(1, 3) {
                x.pow(formal_term(s, d.min(1)))
            } else {
                x.pow(*s.pick(&[2.0, 3.0, -1.0, 0.5]))
            }
        }
        5 => {
            let x = formal_term(s, d);
            if s.chance(1, 2) { -x } else { x.sin() }
        }
        6 => {
            let n = *s.pick(&["f", "g2", "my_fn", "W"]);
            let k = 1 + s.us(3);
            let a: Vec<sa::Expr> = (0..k).map(|_| formal_term(s, d)).collect();
            sa::Expr::func_multi(n, a)
        }
        7 => {
            let x = formal_term(s, d);
            let v = *s.pick(&["x", "y", "z", "arg0", "long_name"]);
            sa::Expr::derivative(x, v, 1 + s.us(3) as u32)
        }
        _ => {
            let x = formal_term(s, d);
            let v = *s.pick(&["x", "y"]);
            x.diff(v).unwrap_or(x)
        }
    }
}
/// user functions and formal derivatives
fn formal(s: &mut Src, cx: &mut Cx) -> Out {
    let d = 1 + s.us(4);
    let e = formal_term(s, d);
    let txt = e.to_string();
    cx.show(format!("text: {txt}"));
    if txt.len() > 4000 || e.max_depth() > 60 {
        return Out::Discard;
    }
    let funs: std::collections::HashSet<String> = ["f", "g2", "my_fn", "W"].iter().map(|x| x.to_string()).collect();
    let mut k = known();
    k.insert("arg0".into());
    let back = match sa::parse(&txt, &k, &funs, None) {
        Ok(x) => x,
        Err(er) => return Out::fail("reparse", format!("own text does not parse: {er:?}: {txt}")),
    };
    let mut good = 0;
    for p in pos_points(s, 2).into_iter().chain(points(s, 2)) {
        if let Some(want) = digest(&e, &p, 1e4) {
            // a value that hangs on the last digits is no witness
            let q: Vec<f64> = p.iter().map(|v| v * (1.0 + 1e-10)).collect();
            if !digest(&e, &q, 1e5).is_some_and(|v| (v - want).abs() <= 1e-7 * (1.0 + want.abs())) {
                continue;
            }
            match digest(&back, &p, 1e30) {
                Some(g) if (g - want).abs() <= 1e-6 * (1.0 + want.abs()) => good += 1,
                Some(g) => return Out::fail("value", format!("text {txt:?} reads as {back}, with another meaning ({g} instead of {want})")),
                None => return Out::fail("value", format!("text {txt:?} reads as {back}, which has no value where the expression is {want}")),
            }
        }
    }
    if txt.contains('∂') {
        cx.count("formal derivatives");
    }
    cx.pass(good > 0 && txt.len() > 3)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C03", "an expression (built by operators, differentiated, or simplified) printed, parsed and compared at points; non-trivial: at least 3 nodes and at least one point where both values are well-conditioned")
        .stage("built", 200_000, 4_000_000, built)
        .stage("lists", 200_000, 2_000_000, lists)
        .stage("processed", 50_000, 2_000_000, processed)
        .stage("formal", 100_000, 2_000_000, formal)
}
fn main() {
    main_with(spec)
}
