//! C25: uncertainty propagation is the square root of the quadratic form.
use sa::{relative_uncertainty, uncertainty_propagation, CovEntry, CovarianceMatrix, Expr};
use vchk::*;

fn sq(t: T) -> T {
    Pow(b(t), b(Num(2.0)))
}
/// one entry: the reference and what the library is given
#[derive(Clone)]
struct Entry {
    t: T,
    numeric: Option<f64>,
}
fn num(v: f64) -> Entry {
    Entry { t: Num(v), numeric: Some(v) }
}
fn give(e: &Entry, s: &mut Src) -> CovEntry {
    match e.numeric {
        Some(v) => match s.below(4) {
            0 => CovEntry::Symbolic(Expr::number(v)),
            1 => v.into(),
            _ => CovEntry::Num(v),
        },
        None => {
            let x = to_expr(&e.t, s);
            if s.chance(1, 2) { x.into() } else { CovEntry::Symbolic(x) }
        }
    }
}
fn magnitude(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => 1.0,
        1 => 0.25 * (1 + s.us(20)) as f64,
        2 => 10f64.powi(s.range(-24, 12) as i32) * (1.0 + s.unit()),
        3 => 10f64.powi(s.range(-12, 3) as i32),
        _ => s.unit(),
    }
}
/// A positive semi-definite matrix as reference terms.
fn covariance(s: &mut Src, n: usize, sig: &[usize]) -> (Vec<Vec<Entry>>, &'static str) {
    match s.below(6) {
        0 => {
            // numeric variances
            let m = (0..n).map(|i| (0..n).map(|j| if i == j && !s.chance(1, 8) { num(magnitude(s)) } else { num(0.0) }).collect()).collect();
            (m, "diagonal")
        }
        1 | 2 => {
            // L Lᵀ with a scale of its own for each variable
            let scale: Vec<f64> = (0..n).map(|_| if s.chance(1, 3) { magnitude(s).sqrt() } else { 1.0 }).collect();
            let l: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if j <= i { (s.range(-8, 8) as f64) * 0.25 * scale[i] } else { 0.0 }).collect()).collect();
            let mut m = vec![vec![num(0.0); n]; n];
            for i in 0..n {
                for j in 0..=i {
                    let v: f64 = (0..n).map(|k| l[i][k] * l[j][k]).sum();
                    m[i][j] = num(v);
                    m[j][i] = num(v);
                }
            }
            (m, "full numeric")
        }
        3 => {
            // sigma_i sigma_j rho
            let rho: f64 = [0.0, 0.5, -0.5, 0.25, -0.3][s.us(5)];
            let rho = if n > 2 { rho.max(-0.3) } else { rho };
            let m = (0..n)
                .map(|i| {
                    (0..n)
                        .map(|j| {
                            if i == j {
                                Entry { t: sq(Var(sig[i])), numeric: None }
                            } else {
                                let (p, q) = (sig[i.min(j)], sig[i.max(j)]);
                                Entry { t: Mul(b(Num(rho)), b(Mul(b(Var(p)), b(Var(q))))), numeric: None }
                            }
                        })
                        .collect()
                })
                .collect();
            (m, "symbolic")
        }
        4 => {
            // symbols and numbers side by side
            let m = (0..n)
                .map(|i| (0..n).map(|j| if i != j { num(0.0) } else if i % 2 == 0 { Entry { t: sq(Var(sig[i])), numeric: None } } else { num(magnitude(s)) }).collect())
                .collect();
            (m, "mixed")
        }
        _ => {
            // a variance that depends on the quantities themselves (a relative error)
            let m = (0..n)
                .map(|i| (0..n).map(|j| if i != j { num(0.0) } else { Entry { t: sq(Mul(b(Num(0.01 * (1 + i) as f64)), b(Var(i)))), numeric: None } }).collect())
                .collect();
            (m, "relative")
        }
    }
}
/// sums, products, quotients and integer powers of smooth functions: any real point will do
fn smooth(t: &T) -> bool {
    !t.any(&|u| match u {
        Pow(_, e) => !matches!(**e, Num(n) if n.fract() == 0.0),
        F(f, _) => !matches!(f.name, "sin" | "cos" | "exp" | "tanh" | "sinh" | "cosh" | "tan" | "atan"),
        _ => false,
    })
}
fn values(s: &mut Src, cx: &mut Cx) -> Out {
    let n = 1 + s.us(4);
    let set = if s.chance(1, 2) { FunSet::None } else { FunSet::Smooth };
    let mut c = Cfg::new([2, 5, 9, 14][s.us(4)], n, set);
    c.neg_lits = true;
    let t = match s.below(6) {
        0 => gen::poly(s, &c, 3),
        1 => {
            // sum of the variables with coefficients
            (0..n).map(|i| Mul(b(Num(s.range(-6, 6) as f64 * 0.5)), b(Var(i)))).reduce(|p, q| Add(b(p), b(q))).unwrap()
        }
        2 => {
            // product of powers
            (0..n).map(|i| Pow(b(Var(i)), b(Num(s.range(-3, 3) as f64)))).reduce(|p, q| Mul(b(p), b(q))).unwrap()
        }
        _ => gen::term(s, &c),
    };
    if !gen::tame(&t) || t.size() > 60 {
        return Out::Discard;
    }
    // the variables, in any order, now and then one too many or one too few
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    if n > 1 && s.chance(1, 5) {
        order.pop();
    }
    if s.chance(1, 8) {
        order.push(4);
    }
    let m = order.len();
    let sig = [5, 6, 7, 8, 9];
    let e = to_expr(&t, s);
    let view = from_expr(&e);
    let names: Vec<&str> = order.iter().map(|i| VARS[*i]).collect();
    let none = s.chance(1, 4);
    let (cov, how) = if none {
        ((0..m).map(|i| (0..m).map(|j| if i == j { Entry { t: sq(Var(sig[i])), numeric: None } } else { num(0.0) }).collect()).collect(), "default")
    } else {
        covariance(s, m, &sig)
    };
    cx.count(how);
    let given: Option<CovarianceMatrix> = if none {
        if s.chance(1, 3) { Some(CovarianceMatrix::diagonal_symbolic(&names)) } else { None }
    } else if matches!(how, "diagonal" | "mixed" | "relative") && s.chance(1, 2) {
        Some(CovarianceMatrix::diagonal((0..m).map(|i| give(&cov[i][i], s)).collect()))
    } else {
        let rows: Vec<Vec<CovEntry>> = cov.iter().map(|r| r.iter().map(|x| give(x, s)).collect()).collect();
        match CovarianceMatrix::new(rows) {
            Ok(x) => Some(x),
            Err(er) => return Out::fail("rejected matrix", format!("{how} matrix {:?}: {er:?}", cov.iter().map(|r| r.iter().map(|x| x.t.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>())),
        }
    };
    let relative = s.chance(1, 4);
    let show = format!("{e} by {names:?}, {how} {:?}{}", cov.iter().map(|r| r.iter().map(|x| x.t.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(), if relative { ", relative" } else { "" });
    cx.show(show.clone());
    let got = if relative { relative_uncertainty(&e, &names, given.as_ref()) } else { uncertainty_propagation(&e, &names, given.as_ref()) };
    let mut got = match got {
        Ok(g) => g,
        Err(er) => return Out::fail("error", format!("{show}: {er:?}")),
    };
    // the independent symbols of the default
    if none {
        for (k, nm) in names.iter().enumerate() {
            let to: Expr = sa::symb(VARS[sig[k]]).into();
            got = got.substitute(&format!("sigma_{nm}"), &to);
        }
    }
    let gt = from_expr(&got);
    // reference
    let mut d = vec![];
    for i in &order {
        match ad::d(&view, *i) {
            Some(x) => d.push(x),
            None => return Out::Discard,
        }
    }
    let mut terms = vec![];
    for i in 0..m {
        for j in 0..m {
            terms.push(Mul(b(Mul(b(d[i].clone()), b(d[j].clone()))), b(cov[i][j].t.clone())));
        }
    }
    let var = terms.into_iter().reduce(|p, q| Add(b(p), b(q))).unwrap();
    let root = Pow(b(var.clone()), b(Num(0.5)));
    let want = if relative { Div(b(root.clone()), b(F(fun("abs").unwrap(), vec![view.clone()]))) } else { root };
    let any = smooth(&view);
    let mut pts = if any { points(s, 6) } else { pos_points(s, 6) };
    pts.retain(|p| {
        let v = match ev(&var, p) {
            Ev::Val(v) => v,
            _ => return false,
        };
        ev(&view, p).val().is_some() && (v.v > 4.0 * v.e || (v.v == 0.0 && v.e == 0.0)) && (any || (positive_at(&view, p) && d.iter().all(|x| positive_at(x, p))))
    });
    cx.count(if any { "any point" } else { "positive points" });
    match same_function(&want, &gt, &pts, 1e-8) {
        Err(m) => Out::fail("value", format!("{show}: {got}: {m}")),
        Ok(k) => {
            if d.iter().any(|x| pts.iter().any(|p| matches!(ev(x, p), Ev::Val(v) if v.v < 0.0))) {
                cx.count("with a negative derivative");
            }
            cx.pass(k > 0)
        }
    }
}
/// The shapes that are refused, and the ones that are not.
fn shapes(s: &mut Src, cx: &mut Cx) -> Out {
    let n = s.us(5);
    let mut rows: Vec<Vec<CovEntry>> = (0..n).map(|i| (0..n).map(|j| CovEntry::Num(if i == j { 1.0 + i as f64 } else { 0.25 })).collect()).collect();
    let what = s.below(5);
    let mut bad = false;
    match what {
        0 if n > 0 => {
            let k = s.us(n);
            if s.chance(1, 2) {
                rows[k].pop();
            } else {
                rows[k].push(CovEntry::Num(0.0));
            }
            bad = true;
        }
        1 if n > 1 => {
            let (i, j) = (s.us(n), s.us(n));
            if i != j {
                rows[i][j] = CovEntry::Num([0.5, -0.25, 0.2525, 0.0, 1e9][s.us(5)]);
                bad = true;
            }
        }
        2 if n > 1 => {
            // a symbolic entry is not compared with a number
            rows[0][n - 1] = CovEntry::Symbolic(sa::symb("alpha").into());
            rows[n - 1][0] = CovEntry::Symbolic(sa::symb("alpha").into());
        }
        _ => {}
    }
    let show = format!("{rows:?}");
    cx.show(show.chars().take(200).collect::<String>());
    let m = match (CovarianceMatrix::new(rows.clone()), bad) {
        (Ok(_), true) => return Out::fail("accepted", format!("matrix accepted: {show}")),
        (Err(e), false) => return Out::fail("rejected", format!("matrix {show} rejected: {e:?}")),
        (Err(_), true) => {
            cx.count("bad matrix");
            return cx.pass(true);
        }
        (Ok(m), false) => m,
    };
    if m.dim() != n || (n > 0 && m.get(n - 1, n - 1).is_none()) || m.get(n, 0).is_some() || m.get(0, n).is_some() {
        return Out::fail("accessors", format!("dim {} of a {n}x{n} matrix, or get() out of step", m.dim()));
    }
    for i in 0..n {
        for j in 0..n {
            if format!("{:?}", m.get(i, j)) != format!("{:?}", Some(&rows[i][j])) {
                return Out::fail("accessors", format!("get({i},{j}) = {:?}", m.get(i, j)));
            }
        }
    }
    let c = Cfg::new(6, 3, FunSet::Basic);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let e = to_expr(&t, s);
    let k = s.us(6);
    let names: Vec<&str> = VARS[..k].to_vec();
    for (f, r) in [("uncertainty", uncertainty_propagation(&e, &names, Some(&m))), ("relative", relative_uncertainty(&e, &names, Some(&m)))] {
        match (r, k != n && k > 0) {
            (Ok(g), true) => return Out::fail("accepted", format!("{f}: {n}x{n} matrix for {k} variables gave {g}")),
            (Err(er), false) => return Out::fail("rejected", format!("{f}: {n}x{n} matrix for {k} variables: {er:?}")),
            _ => {}
        }
    }
    cx.count(if k != n { "wrong size" } else { "right size" });
    // no variable: no uncertainty
    match uncertainty_propagation(&e, &[], None) {
        Ok(g) if g.as_number() == Some(0.0) => {}
        r => return Out::fail("no variable", format!("{r:?}")),
    }
    cx.pass(true)
}
fn spec() -> Spec {
    VARS.iter().for_each(|v| {
        let _ = sa::symb(v);
    });
    Spec::new("C25", "a random expression, variable list (any order, some variables left out, one it does not mention) and positive semi-definite covariance (numeric over 36 decades, full, symbolic, mixed, default); the answer is compared with the square root of the quadratic form of the reference derivatives; non-trivial: a comparison at a well-conditioned point")
        .stage("values", 300_000, 4_000_000, values)
        .stage("shapes", 30_000, 300_000, shapes)
}
fn main() {
    main_with(spec)
}
