//! C08: symbolic derivatives equal the true derivative.
use std::collections::HashMap;
use vchk::*;

fn lib_diff(e: &sa::Expr, v: usize, how: u64) -> Result<sa::Expr, sa::DiffError> {
    let d = sa::Diff::new().skip_simplification(how % 2 == 0);
    d.differentiate(e, &sa::symb(VARS[v]))
}
/// Bessel derivatives differ neighbouring orders of 1e-8-accurate values: keep the values small
fn small_values(t: &T, p: &[f64]) -> bool {
    let ok = match t {
        F(f, _) if f.name.starts_with("bessel") => matches!(ev(t, p), Ev::Val(x) if x.v.abs() < 1e3 && x.v.abs() > 1e-3),
        _ => true,
    };
    ok && t.kids().iter().all(|k| small_values(k, p))
}
fn compare(s: &mut Src, cx: &mut Cx, t: &T, floor: f64) -> Out {
    let vars = t.varset();
    let v = if vars.is_empty() || s.chance(1, 20) { s.us(4) } else { vars[s.us(vars.len())] };
    let Some(want) = ad::d(t, v) else { return Out::Discard };
    if want.size() > 4000 {
        return Out::Discard;
    }
    cx.show(format!("d/d{} {t}", VARS[v]));
    let how = s.below(6);
    // default simplification is only claimed on the positive domain (C11)
    let simplified = how % 2 == 1 || how == 4;
    let pts = if simplified { pos_points(s, 4) } else { points(s, 4) };
    // stay inside the domain of the original expression
    let pts: Vec<Vec<f64>> = pts.into_iter().filter(|p| matches!(ev(t, p), Ev::Val(_)) && small_values(t, p)).collect();
    if simplified && !(positive_inside(t, &pts) && positive_inside(&want, &pts)) {
        return Out::Discard;
    }
    let got = match how {
        0..=3 => match lib_diff(&to_expr(t, s), v, how) {
            Ok(e) => from_expr(&e),
            Err(er) => return Out::fail("error", format!("differentiation failed: {er:?}")),
        },
        4 => {
            cx.count("text form");
            let f = print_formula(t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false });
            let names: Vec<&str> = VARS.iter().copied().filter(|n| *n != VARS[v]).collect();
            match sa::diff(&f, VARS[v], &names, None) {
                Ok(txt) => match parse(&txt) {
                    Ok(e) => from_expr(&e),
                    Err(er) => return Out::fail("text", format!("derivative text {txt:?} does not parse: {er:?}")),
                },
                Err(er) => return Out::fail("error", format!("diff({f:?}) failed: {er:?}")),
            }
        }
        _ => {
            cx.count("domain-safe");
            let e = to_expr(t, s);
            match sa::Diff::new().domain_safe(true).differentiate(&e, &sa::symb(VARS[v])) {
                Ok(e) => from_expr(&e),
                Err(er) => return Out::fail("error", format!("differentiation failed: {er:?}")),
            }
        }
    };
    match same_function(&want, &got, &pts, floor) {
        Err(m) => Out::fail("value", format!("{m}; derivative given as {got}")),
        Ok(n) => cx.pass(n > 0 && t.varset().contains(&v)),
    }
}
fn elementary(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(11, 3, FunSet::Elem);
    c.long_vars = s.chance(1, 6);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    compare(s, cx, &t, 1e-8)
}
/// known finding: the derivative of ynm(l, +-l, ...) refers to an undefined Legendre function
fn ynm_edge(t: &T) -> bool {
    matches!(t, F(f, v) if matches!(f.name, "ynm" | "spherical_harmonic") && matches!((&v[0], &v[1]), (Num(l), Num(m)) if m.abs() >= *l && *l > 0.0)) || t.kids().iter().any(|k| ynm_edge(k))
}
fn pin_ynm() -> Result<(), String> {
    let d = sa::diff("ynm(1, 1, theta, 0.5)", "theta", &[], None).map_err(|e| format!("{e:?}"))?;
    let v = parse(&d).map_err(|e| format!("{e:?}"))?.evaluate(&HashMap::from([("theta", 1.0)]), &HashMap::new());
    let want = -(3.0f64 / (8.0 * std::f64::consts::PI)).sqrt() * 1.0f64.cos() * 0.5f64.cos();
    match v.as_number() {
        Some(x) if (x - want).abs() < 1e-9 => Ok(()),
        o => Err(format!("d/dtheta ynm(1,1,theta,0.5) at theta=1 is {want}, got {o:?}")),
    }
}
fn pin_large_coefficient() -> Result<(), String> {
    let d = sa::simplify("100356890980507.48*x/(-4 + 100356890980507.48*x)", &[], None).map_err(|e| format!("{e:?}"))?;
    let v = parse(&d).map_err(|e| format!("{e:?}"))?.evaluate(&HashMap::from([("x", 1.0)]), &HashMap::new());
    match v.as_number() {
        Some(x) if (x - 1.0).abs() < 1e-9 => Ok(()),
        o => Err(format!("at x=1 the value is 1, got {o:?} from {d}")),
    }
}
/// one (special) function of a small inner expression, perhaps scaled or combined
fn special(s: &mut Src, cx: &mut Cx) -> Out {
    let all = vcore::term::special();
    let f = &all[s.us(all.len())];
    let mut c = Cfg::new(4, 2, FunSet::Basic);
    c.consts = false;
    let mut args = gen::fun_args(f, s, &c, 4);
    if s.chance(1, 2) {
        let k = args.len() - 1;
        args[k] = gen::var(s, &c);
    }
    cx.count(f.name);
    let mut t = F(f, args);
    match s.below(4) {
        0 => t = Mul(b(gen::var(s, &c)), b(t)),
        1 => t = Pow(b(t), b(Num(2.0))),
        _ => {}
    }
    if !gen::tame(&t) || ynm_edge(&t) {
        return Out::Discard;
    }
    let bessel = f.name.starts_with("bessel");
    compare(s, cx, &t, if bessel { 3e-5 } else { 1e-7 })
}
/// long products and sums (logarithmic differentiation, n-ary forms)
fn wide(s: &mut Src, cx: &mut Cx) -> Out {
    let c = Cfg::new(3, 3, FunSet::Basic);
    let n = 3 + s.us(14);
    let v: Vec<T> = (0..n).map(|_| gen::term(s, &c)).collect();
    let t = if s.chance(2, 3) { Prod(v) } else { Sum(v) };
    let t = match s.below(4) {
        0 => Div(b(t), b(gen::term(s, &c))),
        1 => F(fun("sin").unwrap(), vec![t]),
        _ => t,
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    compare(s, cx, &t, 1e-8)
}
fn polys(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(8, 2, FunSet::Basic);
    c.neg_lits = true;
    let p = gen::poly(s, &c, 6);
    let q = gen::poly(s, &c, 3);
    let t = match s.below(6) {
        0 => Mul(b(p), b(q)),
        1 => Div(b(p), b(q)),
        2 => Pow(b(p), b(Num(s.range(2, 5) as f64))),
        3 => F(gen::pick_fun(s, FunSet::Smooth).filter(|f| f.arity == 1).unwrap_or(fun("exp").unwrap()), vec![p]),
        4 => Add(b(p), b(q)),
        _ => p,
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    compare(s, cx, &t, 1e-8)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C08", "a random expression (elementary nests, special functions, long products, packed polynomials) and a variable; the library's derivative (raw, simplified, domain-safe or text form) is compared at random points with textbook differentiation of the reference term; non-trivial: the variable occurs and at least one point is well-conditioned on both sides")
        .stage("elementary", 900_000, 12_000_000, elementary)
        .stage("special", 400_000, 8_000_000, special)
        .stage("wide", 150_000, 2_000_000, wide)
        .pin("ynm-equal-degree-order", pin_ynm)
        .pin("large-coefficient", pin_large_coefficient)
        .stage("polys", 150_000, 3_000_000, polys)
}
fn main() {
    main_with(spec)
}
