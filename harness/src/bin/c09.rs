//! C09: gradient, Jacobian, Hessian and repeated derivatives agree with each other and with calculus.
use sa::{DiffError, Expr, Symbol};
use vchk::*;

fn term(s: &mut Src, n: usize) -> T {
    let mut c = Cfg::new(n, 4, if s.chance(1, 3) { FunSet::Basic } else { FunSet::Elem });
    c.neg_lits = s.chance(1, 3);
    match s.below(5) {
        0 => gen::poly(s, &c, 4),
        1 => {
            let v: Vec<T> = (0..2 + s.us(3)).map(|_| gen::term_sized(s, &c, 3)).collect();
            if s.chance(1, 2) { Prod(v) } else { Sum(v) }
        }
        _ => gen::term(s, &c),
    }
}
/// Differentiate a parsed form of a matrix of texts.
fn read(rows: Vec<Vec<String>>) -> Result<Vec<Vec<T>>, String> {
    rows.iter().map(|r| r.iter().map(|f| parse(f).map(|e| from_expr(&e)).map_err(|e| format!("{f:?} does not parse: {e:?}"))).collect()).collect()
}
fn show_err(e: DiffError) -> String {
    format!("{e:?}")
}
fn view(m: Vec<Vec<Expr>>) -> Vec<Vec<T>> {
    m.iter().map(|r| r.iter().map(from_expr).collect()).collect()
}
fn usable(t: &T, wants: &[&T], pts: &[Vec<f64>]) -> Vec<Vec<f64>> {
    pts.iter().filter(|p| matches!(ev(t, p), Ev::Val(_)) && positive_at(t, p) && wants.iter().all(|w| positive_at(w, p))).cloned().collect()
}
fn matrix(s: &mut Src, cx: &mut Cx) -> Out {
    // 0 gradient, 1 jacobian, 2 hessian; text forms take single-letter names
    let what = s.below(3);
    let text = s.chance(1, 2);
    let k = if what == 1 { s.us(5) } else { 1 };
    let mut ts = vec![];
    for _ in 0..k {
        let t = term(s, if what == 2 { 6 } else { 8 });
        if !gen::tame(&t) {
            return Out::Discard;
        }
        ts.push(t);
    }
    let mut vars: Vec<usize> = (0..if text { 4 } else { 6 }).collect();
    s.shuffle(&mut vars);
    vars.truncate(s.us(5));
    if !vars.is_empty() && s.chance(1, 8) {
        let i = vars[s.us(vars.len())];
        vars.push(i); // the same variable twice: the same column twice
    }
    let forms: Vec<String> = ts.iter().map(|t| print_formula(t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false })).collect();
    let none = std::collections::HashSet::<String>::new();
    let fname = ["gradient", "jacobian", "hessian"][what as usize];
    cx.show(format!("{fname} of {} by {:?}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; "), vars.iter().map(|i| VARS[*i]).collect::<Vec<_>>()));
    cx.count(if text { ["gradient_str", "jacobian_str", "hessian_str"][what as usize] } else { fname });
    let got: Result<Vec<Vec<T>>, String> = if text {
        // text is read without declarations: only unambiguous formulas are judged
        for (f, t) in forms.iter().zip(&mut ts) {
            let Ok(e) = sa::parse(f, &none, &none, None) else { return Out::Discard };
            *t = from_expr(&e);
            if opaque_in(t).is_some() {
                return Out::Discard;
            }
        }
        let nm: Vec<&str> = vars.iter().map(|i| VARS[*i]).collect();
        let fs: Vec<&str> = forms.iter().map(|f| &f[..]).collect();
        match what {
            0 => sa::gradient_str(fs[0], &nm).map(|r| vec![r]),
            1 => sa::jacobian_str(&fs, &nm),
            _ => sa::hessian_str(fs[0], &nm),
        }
        .map_err(show_err)
        .and_then(read)
    } else {
        let es: Vec<Expr> = ts.iter().map(|t| to_expr(t, s)).collect();
        let sy: Vec<Symbol> = vars.iter().map(|i| sa::symb(VARS[*i])).collect();
        let sr: Vec<&Symbol> = sy.iter().collect();
        match what {
            0 => sa::gradient(&es[0], &sr).map(|r| vec![r]),
            1 => sa::jacobian(&es, &sr),
            _ => sa::hessian(&es[0], &sr),
        }
        .map_err(show_err)
        .map(view)
    };
    let got = match got {
        Ok(g) => g,
        Err(m) => return Out::fail("error", format!("{fname} failed: {m}")),
    };
    let rows = if what == 2 { vars.len() } else { k };
    if got.len() != rows || got.iter().any(|r| r.len() != vars.len()) {
        return Out::fail("shape", format!("expected {rows} x {}, got rows of {:?}", vars.len(), got.iter().map(|r| r.len()).collect::<Vec<_>>()));
    }
    let mut good = 0;
    let base = pos_points(s, 4);
    for (i, row) in got.iter().enumerate() {
        for (j, g) in row.iter().enumerate() {
            let t = if what == 2 { &ts[0] } else { &ts[i] };
            let first = if what == 2 { ad::d(t, vars[i]) } else { Some(t.clone()) };
            let Some(first) = first else { continue };
            let Some(want) = ad::d(&first, vars[j]) else { continue };
            if want.size() > 5000 {
                continue;
            }
            let pts = usable(t, &[&first, &want], &base);
            match same_function(&want, g, &pts, 1e-8) {
                Ok(n) => good += n,
                Err(m) => return Out::fail("value", format!("{fname} entry [{i}][{j}] (by {}): {m}; given as {g}", VARS[vars[j]])),
            }
        }
    }
    if what == 2 {
        for i in 0..rows {
            for j in 0..i {
                let pts = usable(&ts[0], &[&got[i][j], &got[j][i]], &base);
                if let Err(m) = same_function(&got[i][j], &got[j][i], &pts, 1e-7) {
                    return Out::fail("symmetry", format!("entries [{i}][{j}] and [{j}][{i}] differ: {m}"));
                }
            }
        }
    }
    cx.pass(good > 0)
}
/// n successive derivatives, in any order of the variables and through any entry point
fn repeated(s: &mut Src, cx: &mut Cx) -> Out {
    let t = term(s, 5);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let n = 2 + s.us(3);
    let mut seq: Vec<usize> = vec![];
    let vs = t.varset();
    for _ in 0..n {
        seq.push(if vs.is_empty() || s.chance(1, 12) { s.us(4) } else { vs[s.us(vs.len())] });
    }
    if s.chance(1, 2) {
        seq = vec![seq[0]; n];
    }
    let mut want = t.clone();
    let mut all = vec![t.clone()];
    for v in &seq {
        match ad::d(&want, *v) {
            Some(w) if w.size() < 4000 => want = w,
            _ => return Out::Discard,
        }
        all.push(want.clone());
    }
    let names: Vec<&str> = seq.iter().map(|i| VARS[*i]).collect();
    let how = s.below(5);
    cx.show(format!("{t} differentiated by {names:?}"));
    cx.count(["Diff", "Diff without simplification", "text", "Expr::diff", "mixed"][how as usize]);
    let mut order = seq.clone();
    if s.chance(1, 2) {
        s.shuffle(&mut order); // mixed partial derivatives commute
    }
    let step = |e: &Expr, v: usize, h: u64| -> Result<Expr, String> {
        match h {
            0 => sa::Diff::new().differentiate(e, &sa::symb(VARS[v])).map_err(show_err),
            1 => sa::Diff::new().skip_simplification(true).differentiate(e, &sa::symb(VARS[v])).map_err(show_err),
            2 => {
                let names: Vec<&str> = VARS.iter().copied().filter(|n| *n != VARS[v]).collect();
                let r = sa::diff(&e.to_string(), VARS[v], &names, None).map_err(show_err)?;
                parse(&r).map_err(show_err)
            }
            _ => e.diff(VARS[v]).map_err(show_err),
        }
    };
    let mut e = to_expr(&t, s);
    for v in &order {
        let h = if how == 4 { s.below(4) } else { how };
        e = match step(&e, *v, h) {
            Ok(e) => e,
            Err(m) => return Out::fail("error", format!("d/d{} failed: {m}", VARS[*v])),
        };
        if e.node_count() > 20000 {
            return Out::Discard;
        }
    }
    let got = from_expr(&e);
    let ws: Vec<&T> = all.iter().collect();
    let pts = usable(&t, &ws, &pos_points(s, 4));
    match same_function(&want, &got, &pts, 1e-7) {
        Ok(n) => cx.pass(n > 0 && vs.iter().any(|v| seq.contains(v))),
        Err(m) => Out::fail("value", format!("{m}; given as {got}")),
    }
}
/// a formal derivative of order k differentiated n times is the one of order k+n
fn formal(s: &mut Src, cx: &mut Cx) -> Out {
    let two = s.chance(1, 2);
    let f = if two { "foo(x,y)" } else { "foo(x)" };
    let e = match sa::parse(f, &known(), &hs(&["foo"]), None) {
        Ok(e) => e,
        Err(m) => return Out::fail("parse", format!("{m:?}")),
    };
    let n = 1 + s.us(5);
    let v = if two { *s.pick(&["x", "y"]) } else { "x" };
    let h = s.below(3);
    cx.show(format!("{f} differentiated {n} times by {v} ({h})"));
    let k = 1 + s.us(4);
    let mut d = Expr::derivative(e.clone(), v, k as u32);
    match d.diff("z") {
        Ok(z) if z == Expr::number(0.0) => {}
        z => return Out::fail("formal", format!("the derivative of {d} by z is {z:?}")),
    }
    for _ in 0..n {
        let r = match h {
            0 => sa::Diff::new().differentiate(&d, &sa::symb(v)),
            1 => d.diff(v),
            _ => sa::Diff::new().skip_simplification(true).differentiate(&d, &sa::symb(v)),
        };
        d = match r {
            Ok(d) => d,
            Err(m) => return Out::fail("error", format!("{m:?}")),
        };
    }
    let want = Expr::derivative(e, v, (k + n) as u32);
    if d != want || d.to_string() != want.to_string() {
        return Out::fail("formal", format!("expected {want}, got {d}"));
    }
    cx.pass(n > 1)
}
/// Formal partial derivatives by several variables: whatever the order of the steps, the total
/// order in each variable (or argument, which is that variable here) counts the steps by it.
fn mixed(s: &mut Src, cx: &mut Cx) -> Out {
    use symb_anafis::visitor::ExprView as V;
    let names = ["x", "y", "z", "t"];
    let k = 2 + s.us(2);
    let f = format!("foo({})", names[..k].join(","));
    let call = match sa::parse(&f, &known(), &hs(&["foo"]), None) {
        Ok(e) => e,
        Err(m) => return Out::fail("parse", format!("{m:?}")),
    };
    let mut e = call.clone();
    let mut total = [0u32; 4];
    let mut hist = vec![];
    for _ in 0..2 + s.us(5) {
        let v = s.us(k);
        let how = s.below(5);
        // a formal node is put around the expression as it is; only as the first step, and
        // by one variable, is its order more than one
        if how == 0 && hist.is_empty() {
            let o = 1 + s.us(5) as u32;
            e = Expr::derivative(e, names[v], o);
            total[v] += o;
            hist.push(format!("formal {}^{o}", names[v]));
            continue;
        }
        hist.push(format!("{} ({how})", names[v]));
        total[v] += 1;
        let r = match how {
            0 | 1 => e.diff(names[v]),
            2 => sa::Diff::new().differentiate(&e, &sa::symb(names[v])),
            3 => sa::gradient(&e, &[&sa::symb(names[v])]).map(|mut g| g.remove(0)),
            _ => sa::Diff::new().skip_simplification(true).differentiate(&e, &sa::symb(names[v])),
        };
        e = match r {
            Ok(d) => d,
            Err(m) => return Out::fail("error", format!("{m:?} after {hist:?}")),
        };
    }
    cx.show(format!("{f} by {hist:?}: {e}"));
    let mut got = [0u32; 4];
    let mut at = e.clone();
    loop {
        let inner = match at.view() {
            V::Derivative { inner, var, order } => {
                match names.iter().position(|n| *n == &*var).or_else(|| var.strip_prefix("arg").and_then(|i| i.parse().ok()).filter(|i| *i < k)) {
                    Some(i) => got[i] += order,
                    None => return Out::fail("mixed", format!("{e} has a derivative by {var}")),
                }
                inner.clone()
            }
            _ => break,
        };
        at = Expr::clone(&inner);
    }
    if at != call || got != total {
        return Out::fail("mixed", format!("{hist:?} of {f} gives {e}: orders {got:?} by {names:?} instead of {total:?}"));
    }
    match e.diff("rate") {
        Ok(z) if z == Expr::number(0.0) => {}
        z => return Out::fail("mixed", format!("the derivative of {e} by another variable is {z:?}")),
    }
    cx.pass(total.iter().filter(|n| **n > 0).count() > 1)
}
fn spec() -> Spec {
    Spec::new("C09", "gradients, Jacobians and Hessians (expression and text forms) of random terms by up to 5 variables in random order, also absent and repeated ones, against derivatives of the reference term; 2 to 4 successive derivatives by random variables through five entry points, permuted; formal derivatives of undeclared functions; non-trivial: at least one well-conditioned point and a variable that occurs")
        .stage("matrices", 200_000, 5_000_000, matrix)
        .stage("repeated", 150_000, 4_000_000, repeated)
        .stage("formal", 2_000, 20_000, formal)
        .stage("mixed", 20_000, 400_000, mixed)
}
fn main() {
    main_with(spec)
}
