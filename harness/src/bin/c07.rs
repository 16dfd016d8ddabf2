//! C07: evaluation substitutes exactly, fully or in stages.
use std::collections::HashMap;
use vchk::*;

fn term(s: &mut Src) -> T {
    let n = if s.chance(1, 5) { 24 } else { 10 };
    let mut c = Cfg::new(n, 4, if s.chance(1, 2) { FunSet::Elem } else { FunSet::Basic });
    c.neg_lits = true;
    if s.chance(1, 6) {
        // many variables in a wide sum or product, polynomials in several bases
        let k = 3 + s.us(10);
        let v: Vec<T> = (0..k).map(|_| if s.chance(1, 2) { gen::poly(s, &c, 2) } else { gen::term_sized(s, &c, 2) }).collect();
        return if s.chance(1, 3) { Prod(v) } else { Sum(v) };
    }
    gen::term(s, &c)
}
fn ids(env: &[(usize, f64)]) -> HashMap<u64, f64> {
    env.iter().map(|(i, v)| (sa::symb(VARS[*i]).id(), *v)).collect()
}
fn names(env: &[(usize, f64)]) -> HashMap<&'static str, f64> {
    env.iter().map(|(i, v)| (VARS[*i], *v)).collect()
}
fn bind(e: &sa::Expr, env: &[(usize, f64)], how: u64) -> sa::Expr {
    match how {
        0 => e.evaluate(&names(env), &HashMap::new()),
        _ => e.evaluate(&ids(env), &HashMap::new()),
    }
}
/// `view`: the expression as it was built; its order of operations decides the rounding
fn judge(want: Ev, view: Ev, got: &sa::Expr, what: &str) -> Result<bool, Out> {
    let want = match (want, view) {
        (Ev::Val(a), Ev::Val(c)) => Ev::Val(Ball { v: a.v, e: a.e.max(c.e) }),
        (w, Ev::Undef) => w,
        _ => Ev::Ill,
    };
    match want {
        Ev::Val(w) => {
            if !matches!(close(w, w, 1e-9), Cmp::Same) {
                return Ok(false);
            }
            let Some(g) = got.as_number() else {
                return Err(Out::fail("not a number", format!("{what}: expected {:e}, result is not a number: {got}", w.v)));
            };
            if let Cmp::Differ(m) = close(w, Ball { v: g, e: w.e }, 1e-9) {
                return Err(Out::fail("value", format!("{what}: {m}")));
            }
            if !g.is_finite() {
                return Err(Out::fail("value", format!("{what}: expected {:e}, got {g}", w.v)));
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(o) => return o,
        }
    };
}
fn full(s: &mut Src, cx: &mut Cx) -> Out {
    let t = term(s);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let view = from_expr(&e);
    let mut good = 0;
    for _ in 0..4 {
        let p = gen::point(s);
        let mut env: Vec<(usize, f64)> = t.varset().into_iter().map(|i| (i, p[i])).collect();
        if s.chance(1, 3) {
            // bindings the expression does not use change nothing
            for i in 0..VARS.len() {
                if !env.iter().any(|(j, _)| *j == i) {
                    env.push((i, p[i]));
                }
            }
        }
        let how = s.below(2);
        let got = bind(&e, &env, how);
        let what = format!("at {}", gen::show_point(&p, &t.varset()));
        if tri!(judge(ev(&t, &p), ev(&view, &p), &got, &what)) {
            good += 1;
        }
        if let Some(g) = got.as_number() {
            if g.is_finite() && undef_count(&view, &p) == 1 && hard_undef(&t, &p) && hard_undef(&view, &p) {
                return Out::fail("undefined", format!("{what}: no value exists there, got {g:e}"));
            }
        }
    }
    cx.pass(good > 0 && t.size() >= 3)
}
fn staged(s: &mut Src, cx: &mut Cx) -> Out {
    let t = term(s);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let view = from_expr(&e);
    let p = gen::point(s);
    let mut order = t.varset();
    s.shuffle(&mut order);
    let mut cur = e.clone();
    let mut i = 0;
    let mut rt = t.clone();
    let mut stages = 0;
    let mut shown = String::new();
    while i < order.len() {
        let k = 1 + s.us(order.len() - i);
        let env: Vec<(usize, f64)> = order[i..i + k].iter().map(|v| (*v, p[*v])).collect();
        i += k;
        let how = s.below(2);
        shown.push_str(&format!(" [{}]", env.iter().map(|(v, x)| format!("{}={x}", VARS[*v])).collect::<Vec<_>>().join(",")));
        cur = bind(&cur, &env, how);
        stages += 1;
        for (v, x) in &env {
            rt = rt.subst(*v, &Num(*x));
        }
        let left: Vec<&str> = order[i..].iter().map(|v| VARS[*v]).collect();
        for n in cur.variables() {
            if !left.contains(&n.as_str()) {
                return Out::fail("variable", format!("after binding{shown} the result mentions {n}: {cur}"));
            }
        }
        if i < order.len() {
            // the partial result is the same function of what is left
            let q = gen::point(s);
            let mut m = p.clone();
            for v in &order[i..] {
                m[*v] = q[*v];
            }
            let env: Vec<(usize, f64)> = order[i..].iter().map(|v| (*v, m[*v])).collect();
            let got = bind(&cur, &env, 0);
            tri!(judge(ev(&t, &m), ev(&view, &m), &got, &format!("after{shown} then {}", gen::show_point(&m, &order[i..]))));
        }
    }
    cx.note(shown.clone());
    if order.is_empty() {
        cur = bind(&cur, &[], 0);
    }
    let good = tri!(judge(ev(&t, &p), ev(&view, &p), &cur, &format!("bound in stages{shown}")));
    cx.pass(good && stages > 1)
}
/// A variable bound to NaN first: where binding everything at once gives NaN, the stages may not give a number.
fn nan(s: &mut Src, cx: &mut Cx) -> Out {
    let t = term(s);
    let vars = t.varset();
    if !gen::tame(&t) || vars.len() < 2 {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let p = gen::point(s);
    let mut env: Vec<(usize, f64)> = vars.iter().map(|v| (*v, p[*v])).collect();
    s.shuffle(&mut env);
    env[0].1 = f64::NAN;
    let k = 1 + s.us(env.len() - 1);
    let once = bind(&e, &env, s.below(2));
    let first = bind(&e, &env[..k], s.below(2));
    let last = bind(&first, &env[k..], s.below(2));
    // 0/y and 0*y are 0 for every y: the value has to depend on the variable
    let mut at = |v: f64| {
        env[0].1 = v;
        bind(&e, &env, 0).as_number()
    };
    let live = matches!((at(1.37), at(2.11)), (Some(a), Some(c)) if a.is_finite() && c.is_finite() && (a - c).abs() > 1e-9 * a.abs().max(c.abs()));
    env[0].1 = f64::NAN;
    if !live {
        return cx.pass(false);
    }
    if once.as_number().is_some_and(f64::is_nan) && last.as_number().is_some_and(f64::is_finite) {
        let show: Vec<String> = env.iter().map(|(v, x)| format!("{}={x}", VARS[*v])).collect();
        return Out::fail("nan", format!("{}: at once NaN; the first {k} first gives {first}, then {last}", show.join(", ")));
    }
    cx.pass(once.as_number().is_some_and(f64::is_nan))
}
fn text(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(8, 4, FunSet::Elem);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let f = print_formula(&t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false });
    cx.show(f.clone());
    let p = gen::point(s);
    let vs = t.varset();
    let mut env: Vec<(&str, f64)> = vs.iter().map(|i| (VARS[*i], p[*i])).collect();
    s.shuffle(&mut env);
    let out = match sa::evaluate_str(&f, &env) {
        Ok(o) => o,
        Err(er) => return Out::fail("error", format!("evaluate_str failed: {er:?}")),
    };
    // pi and e stay symbols only if nothing evaluates them; a numeric text is expected
    let want = ev(&t, &p);
    let what = format!("evaluate_str at {}", gen::show_point(&p, &vs));
    if let Ev::Val(w) = want {
        if !matches!(close(w, w, 1e-9), Cmp::Same) {
            return cx.pass(false);
        }
        return match out.trim().parse::<f64>() {
            Ok(g) => match close(w, Ball { v: g, e: w.e }, 1e-9) {
                Cmp::Differ(m) => Out::fail("value", format!("{what}: {m} (text {out:?})")),
                _ => cx.pass(t.size() >= 3),
            },
            Err(_) => Out::fail("not a number", format!("{what}: expected {:e}, text is {out:?}", w.v)),
        };
    }
    cx.pass(false)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C07", "a random term built through the API or as text, evaluated at random points by name map, by id map, with unused bindings, through evaluate_str, and in random stages; compared with the reference evaluator (an undefined value must not come out as a finite number); non-trivial: a well-conditioned value exists at a point and (staged) more than one stage")
        .stage("full", 1_600_000, 20_000_000, full)
        .stage("staged", 1_600_000, 20_000_000, staged)
        .stage("nan", 200_000, 4_000_000, nan)
        .stage("text", 600_000, 8_000_000, text)
}
fn main() {
    main_with(spec)
}
