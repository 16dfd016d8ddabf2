//! C10: domain-safe simplification preserves the value wherever the original is defined.
use vchk::*;

/// Some power with a varying exponent is 0^0 there: not a point where the original is defined
/// (the evaluators say 1, by the convention of floating point).
fn zero_to_zero(t: &T, p: &[f64]) -> bool {
    let zero = |t: &T| matches!(ev(t, p), Ev::Val(v) if v.v.abs() <= v.e.max(1e-300));
    t.any(&mut |t| matches!(t, Pow(a, c) if !c.varset().is_empty() && zero(c) && zero(a)))
}
fn check(s: &mut Src, cx: &mut Cx, kind: u64) -> Out {
    let Some((e, show)) = simp::original(s, kind) else { return Out::Discard };
    cx.show(show);
    let want = from_expr(&e);
    if !gen::tame(&want) || want.size() > 3000 {
        return Out::Discard;
    }
    let pts: Vec<Vec<f64>> = points(s, 6).into_iter().filter(|p| !zero_to_zero(&want, p)).collect();
    if pts.is_empty() {
        return Out::Discard;
    }
    let got = match s.below(4) {
        0..=2 => match sa::Simplify::new().domain_safe(true).simplify(&e) {
            Ok(g) => from_expr(&g),
            Err(er) => return Out::fail("error", format!("simplify failed: {er:?}")),
        },
        _ => {
            cx.count("text form");
            match sa::Simplify::new().domain_safe(true).simplify_str(&format!("{e}"), VARS) {
                Ok(txt) => match parse(&txt) {
                    Ok(g) => from_expr(&g),
                    Err(er) => return Out::fail("text", format!("result {txt:?} does not parse: {er:?}")),
                },
                Err(er) => return Out::fail("error", format!("simplify_str failed: {er:?}")),
            }
        }
    };
    match same_function(&want, &got, &pts, 1e-8) {
        Err(m) => Out::fail("value", format!("{m}; simplified to {got}")),
        Ok(n) => {
            if got != want {
                cx.count("changed");
            }
            cx.pass(n > 0 && got != want)
        }
    }
}
fn shapes(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.below(2);
    check(s, cx, k)
}
fn random(s: &mut Src, cx: &mut Cx) -> Out {
    check(s, cx, 2)
}
fn spec() -> Spec {
    Spec::new("C10", "a random expression or a filled rewrite-rule shape; domain-safe simplification is compared with the original at six random real points (negative values and zeros included) by the error-bound evaluator; non-trivial: the result differs in form from the original and at least one point is well-conditioned on both sides")
        .stage("shapes", 900_000, 12_000_000, shapes)
        .stage("random", 900_000, 12_000_000, random)
}
fn main() {
    main_with(spec)
}
