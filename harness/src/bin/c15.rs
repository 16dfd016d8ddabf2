//! C15: parallel evaluation of many expressions equals individual evaluation.
use sa::parallel::{evaluate_parallel, EvalResult, ExprInput, Value, VarInput};
use sa::Expr;
use vchk::*;

#[derive(Clone)]
enum V {
    Num(f64),
    Ex(T),
    Skip,
}
struct Job {
    /// as the library sees it
    view: T,
    input: ExprInput,
    text: bool,
    names: Vec<usize>,
    vars_sym: bool,
    cols: Vec<Vec<V>>,
    rows: usize,
}
fn rows(s: &mut Src) -> usize {
    match s.weighted(&[8, 3, 2, 1]) {
        0 => s.us(9),
        1 => s.us(60),
        2 => *s.pick(&[255usize, 256, 257, 258, 300, 511, 512, 513]),
        _ => 200 + s.us(500),
    }
}
fn num(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => s.below(7) as f64 - 3.0,
        1 => *s.pick(&[1e15, 1e16, -1e15, 123456789012.0, 0.1, 1e-7, -0.0, 1e300, 2.5e-10]),
        _ => gen::point(s)[0],
    }
}
fn job(s: &mut Src) -> Option<(Job, String)> {
    let mut c = Cfg::new(if s.chance(1, 4) { 16 } else { 6 }, 4, if s.chance(1, 6) { FunSet::All } else { FunSet::Elem });
    c.neg_lits = true;
    let mut t = if s.chance(1, 5) { gen::poly(s, &c, 3) } else { gen::term(s, &c) };
    if s.chance(1, 10) {
        t = Num(num(s));
    }
    if !gen::tame(&t) {
        return None;
    }
    let text = s.chance(1, 2);
    let f = print_formula(&t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false });
    let (input, view, shown) = if text {
        let e = parse(&f).ok()?;
        (ExprInput::from(f.clone()), from_expr(&e), format!("{f:?}"))
    } else {
        let mut e = to_expr(&t, s);
        let mut undeclared = false;
        if s.chance(1, 10) {
            // an expression that cannot be compiled is evaluated as far as possible
            e = e + Expr::func("foo", Expr::symbol("x1"));
            undeclared = true;
        }
        let v = from_expr(&e);
        if undeclared && v.varset().is_empty() {
            return None;
        }
        (ExprInput::from(&e), v, e.to_string())
    };
    let mut names = view.varset();
    if s.chance(1, 4) {
        // not every variable is given
        names.retain(|_| true);
        if !names.is_empty() {
            let k = s.us(names.len());
            names.remove(k);
        }
    }
    if s.chance(1, 4) {
        let i = s.us(VARS.len());
        if !names.contains(&i) {
            names.push(i);
        }
    }
    s.shuffle(&mut names);
    let n = rows(s);
    let mode = s.below(4);
    let others: Vec<usize> = (0..VARS.len()).filter(|i| !names.contains(i)).collect();
    let mut inner = Cfg::new(3, 2, FunSet::Basic);
    inner.neg_lits = true;
    let cols: Vec<Vec<V>> = names
        .iter()
        .map(|_| {
            let m = if n > 1 && s.chance(1, 4) { 1 + s.us(n) } else { n };
            (0..m)
                .map(|_| match (mode, s.below(12)) {
                    (1, 0) | (3, 0..=2) => V::Skip,
                    (2, 0) | (3, 3..=5) => {
                        let u = gen::term(s, &inner);
                        // substituted expressions stay clear of the row's own variables
                        let u = u.map_leaves(&|l| match l {
                            Var(i) => others.get(*i % others.len().max(1)).map_or(Num(2.0), |k| Var(*k)),
                            x => x.clone(),
                        });
                        if gen::tame(&u) { V::Ex(u) } else { V::Skip }
                    }
                    _ => V::Num(num(s)),
                })
                .collect()
        })
        .collect();
    let top = cols.iter().map(|c| c.len()).max().unwrap_or(0);
    let rows = if names.is_empty() { 1 } else { top };
    let sh = format!("{shown} over {:?}, {rows} rows", names.iter().map(|i| VARS[*i]).collect::<Vec<_>>());
    Some((Job { view, input, text, names, vars_sym: s.chance(1, 3), cols, rows }, sh))
}
fn at(c: &[V], r: usize) -> V {
    c.get(r).or(c.last()).unwrap().clone()
}
fn show(v: &V) -> String {
    match v {
        V::Num(x) => format!("{x:?}"),
        V::Ex(t) => t.to_string(),
        V::Skip => "SKIP".into(),
    }
}
/// The answer as a reference term.
fn answer(r: &EvalResult) -> Result<T, String> {
    match r {
        EvalResult::Expr(e) => Ok(from_expr(e)),
        EvalResult::String(f) => match f.parse::<f64>() {
            Ok(v) => Ok(Num(v)),
            Err(_) => {
                let k = known();
                let e = sa::parse(f, &k, &hs(&["foo"]), None).map_err(|e| format!("the text {f:?} does not parse: {e:?}"))?;
                Ok(from_expr(&e))
            }
        },
    }
}
fn run(s: &mut Src, cx: &mut Cx) -> Out {
    let k = if s.chance(1, 2) { 1 } else { s.us(6) };
    let mut jobs = vec![];
    let mut txt = vec![];
    for _ in 0..k {
        let Some((j, t)) = job(s) else { return Out::Discard };
        jobs.push(j);
        txt.push(t);
    }
    cx.show(txt.join("; "));
    let mk = |v: &V, s: &mut Src| match v {
        V::Num(x) if x.fract() == 0.0 && x.abs() < 100.0 && s.chance(1, 3) => Value::from(*x as i32),
        V::Num(x) => Value::from(*x),
        V::Ex(t) => Value::from(to_expr(t, s)),
        V::Skip => Value::Skip,
    };
    let inputs: Vec<ExprInput> = jobs.iter().map(|j| j.input.clone()).collect();
    let names: Vec<Vec<VarInput>> = jobs
        .iter()
        .map(|j| j.names.iter().map(|i| if j.vars_sym { VarInput::from(sa::symb(VARS[*i])) } else { VarInput::from(VARS[*i]) }).collect())
        .collect();
    let values: Vec<Vec<Vec<Value>>> = jobs.iter().map(|j| j.cols.iter().map(|c| c.iter().map(|v| mk(v, s)).collect()).collect()).collect();
    let got = match guard(|| evaluate_parallel(inputs, names, values.clone())) {
        Err(p) => return Out::fail("panic", format!("panicked: {p}")),
        Ok(Err(e)) => return Out::fail("error", format!("failed: {e:?}")),
        Ok(Ok(g)) => g,
    };
    if got.len() != k {
        return Out::fail("count", format!("{k} expressions, {} results", got.len()));
    }
    let mut good = 0;
    for (n, j) in jobs.iter().enumerate() {
        let g = &got[n];
        if g.len() != j.rows {
            return Out::fail("rows", format!("expression {n}: {} rows, {} results", j.rows, g.len()));
        }
        for r in g {
            if r.is_string() != j.text {
                return Out::fail("type", format!("expression {n}: text input {}, result {r:?}", j.text));
            }
        }
        let mut which: Vec<usize> = (0..j.rows).collect();
        if which.len() > 24 {
            s.shuffle(&mut which);
            which.truncate(16);
            which.extend([0, j.rows - 1]);
        }
        for r in which {
            let row: Vec<V> = j.cols.iter().map(|c| at(c, r)).collect();
            let mut want = j.view.clone();
            // the substituted terms do not mention the row's variables: the order does not matter
            for (i, v) in j.names.iter().zip(&row) {
                match v {
                    V::Num(x) => want = want.subst(*i, &Num(*x)),
                    V::Ex(t) => want = want.subst(*i, t),
                    V::Skip => {}
                }
            }
            let what = || {
                format!(
                    "expression {n}, row {r} of {} ({})",
                    j.rows,
                    j.names.iter().zip(&row).map(|(i, v)| format!("{}={}", VARS[*i], show(v))).collect::<Vec<_>>().join(", ")
                )
            };
            let have = match answer(&g[r]) {
                Ok(t) => t,
                Err(m) => return Out::fail("text", format!("{}: {m}", what())),
            };
            for i in have.varset() {
                if !want.varset().contains(&i) {
                    return Out::fail("variable", format!("{}: the result mentions {}: {}", what(), VARS[i], g[r]));
                }
            }
            let pts = if want.varset().is_empty() { vec![gen::point(s)] } else { points(s, 2) };
            match same_function(&want, &have, &pts, 1e-8) {
                Ok(m) => good += m,
                Err(m) => return Out::fail("value", format!("{}: gives {}: {m}", what(), g[r])),
            }
            // alone
            if s.chance(1, 6) {
                let one = guard(|| {
                    evaluate_parallel(
                        vec![j.input.clone()],
                        vec![j.names.iter().map(|i| VarInput::from(VARS[*i])).collect()],
                        vec![values[n].iter().map(|c| vec![c.get(r).or(c.last()).unwrap().clone()]).collect()],
                    )
                });
                let Ok(Ok(one)) = one else { return Out::fail("alone", format!("{}: fails when evaluated alone: {one:?}", what())) };
                let Ok(Ok(o)) = one.first().and_then(|v| v.first()).map(answer).ok_or(()) else {
                    return Out::fail("alone", format!("{}: no single result when evaluated alone", what()));
                };
                match (&o, &have) {
                    (Num(a), Num(c)) => {
                        if !(a == c || a.is_nan() && c.is_nan() || (a - c).abs() <= 1e-9 * a.abs().max(1e-9)) {
                            if let Err(m) = same_function(&want, &have, &pts, 1e-8).and(same_function(&want, &o, &pts, 1e-8)) {
                                return Out::fail("alone", format!("{}: {c} in the request, {a} alone: {m}", what()));
                            }
                        }
                    }
                    _ => {
                        if let Err(m) = same_function(&o, &have, &pts, 1e-8) {
                            return Out::fail("alone", format!("{}: {have} in the request, {o} alone: {m}", what()));
                        }
                    }
                }
            }
        }
    }
    cx.count(if k == 1 { "one expression" } else { "several expressions" });
    cx.pass(good > 0)
}
fn spec() -> Spec {
    Spec::new("C15", "requests of 0 to 5 random expressions (text or expression, some uncompilable or with unlisted variables) over 0 to 700 rows of numbers, substituted expressions and skips, with columns shortened; the expected function of every checked row comes from substitution in a reference term and is compared by value at random points, a sixth of the rows are also requested alone; non-trivial: at least one well-conditioned row")
        .stage("requests", 250_000, 5_000_000, run)
}
fn main() {
    main_with(spec)
}
