//! C05: building expressions with operators computes the right function.
use vchk::*;

fn build(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(14, 3, FunSet::Smooth);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 5);
    check(cx, &t, &e, &pts)
}
fn check(cx: &mut Cx, t: &T, e: &sa::Expr, pts: &[Vec<f64>]) -> Out {
    let r = from_expr(e);
    match same_function(t, &r, pts, 1e-8) {
        Err(m) => Out::fail("value", format!("{m}; built expression: {e}")),
        Ok(n) => cx.pass(n > 0 && t.size() >= 3),
    }
}
fn polys(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(6, 2, FunSet::Basic);
    c.neg_lits = true;
    // history of additions/multiplications of polynomial pieces in one or two bases
    let mut t = gen::poly(s, &c, 4);
    for _ in 0..1 + s.us(3) {
        let u = if s.chance(1, 3) { gen::term(s, &c) } else { gen::poly(s, &c, 4) };
        t = match s.below(5) {
            0 => Add(b(t), b(u)),
            1 => Sub(b(t), b(u)),
            2 => Mul(b(t), b(u)),
            3 => Pow(b(t), b(Num(s.range(2, 3) as f64))),
            _ => Add(b(u), b(t)),
        };
    }
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 5);
    check(cx, &t, &e, &pts)
}
fn lists(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(4, 3, FunSet::Basic);
    c.neg_lits = true;
    let n = s.us(9);
    let v: Vec<T> = (0..n).map(|_| if s.chance(1, 3) { gen::poly(s, &c, 2) } else { gen::term(s, &c) }).collect();
    let t = if s.chance(1, 2) { Prod(v) } else { Sum(v) };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    let pts = points(s, 5);
    check(cx, &t, &e, &pts)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C05", "random programs over the operator API")
        .stage("build", 200_000, 4_000_000, build)
        .stage("polynomials", 100_000, 2_000_000, polys)
        .stage("lists", 100_000, 2_000_000, lists)
}
fn main() {
    main_with(spec)
}
