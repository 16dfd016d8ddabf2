//! C11: default simplification preserves the value on the positive domain.
use vchk::*;

fn check(s: &mut Src, cx: &mut Cx, kind: u64) -> Out {
    let Some((e, show)) = simp::original(s, kind) else { return Out::Discard };
    cx.show(show);
    let want = from_expr(&e);
    if !gen::tame(&want) || want.size() > 3000 {
        return Out::Discard;
    }
    let pts: Vec<Vec<f64>> = pos_points(s, 6).into_iter().filter(|p| positive_at(&want, p)).collect();
    if pts.is_empty() {
        return Out::Discard;
    }
    let text = |cx: &mut Cx, r: Result<String, sa::DiffError>| -> Result<T, Out> {
        cx.count("text form");
        match r {
            Ok(txt) => match parse(&txt) {
                Ok(g) => Ok(from_expr(&g)),
                Err(er) => Err(Out::fail("text", format!("result {txt:?} does not parse: {er:?}"))),
            },
            Err(er) => Err(Out::fail("error", format!("simplification failed: {er:?}"))),
        }
    };
    let got = match s.below(6) {
        0 | 1 => Ok(from_expr(&match sa::Simplify::new().simplify(&e) {
            Ok(g) => g,
            Err(er) => return Out::fail("error", format!("simplify failed: {er:?}")),
        })),
        2 | 3 => Ok(from_expr(&match e.simplified() {
            Ok(g) => g,
            Err(er) => return Out::fail("error", format!("simplified failed: {er:?}")),
        })),
        4 => text(cx, sa::simplify(&format!("{e}"), VARS, None)),
        _ => text(cx, sa::Simplify::new().simplify_str(&format!("{e}"), VARS)),
    };
    let got = match got {
        Ok(g) => g,
        Err(o) => return o,
    };
    match same_function(&want, &got, &pts, 1e-8) {
        Err(m) => Out::fail("value", format!("{m}; simplified to {got}")),
        Ok(n) => {
            if got != want {
                cx.count("changed");
            }
            cx.pass(n > 0 && got != want)
        }
    }
}
fn shapes(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.below(2);
    check(s, cx, k)
}
fn random(s: &mut Src, cx: &mut Cx) -> Out {
    check(s, cx, 2)
}
fn spec() -> Spec {
    Spec::new("C11", "a random expression or a filled rewrite-rule shape; default simplification (four entry points) is compared with the original at up to six positive points inside the stated domain by the error-bound evaluator; non-trivial: the result differs in form from the original and at least one point is well-conditioned on both sides")
        .stage("shapes", 900_000, 12_000_000, shapes)
        .stage("random", 900_000, 12_000_000, random)
}
fn main() {
    main_with(spec)
}
