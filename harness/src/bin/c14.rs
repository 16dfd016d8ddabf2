//! C14: batch evaluation equals point-by-point evaluation.
use sa::CompiledEvaluator as CE;
use vchk::comp::{big, fill};
use vchk::*;

#[global_allocator]
static GUARDED: redzone::Redzone = redzone::Redzone;

const SPECIAL: [f64; 22] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, -1e300, 1e-300, 1e8, -1e8, 700.0, -745.0, 1e-9, 100.0,
];
fn values(s: &mut Src, mode: u64) -> f64 {
    match mode {
        0 => gen::point(s)[0],
        1 => {
            if s.chance(1, 3) { *s.pick(&SPECIAL) } else { gen::point(s)[0] }
        }
        2 => *s.pick(&SPECIAL),
        _ => (s.unit() - 0.5) * 20.0,
    }
}
fn length(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.us(13),
        1 => s.us(70),
        2 => *s.pick(&[255usize, 256, 257, 258, 259, 260, 261, 511, 512, 513, 514, 515]),
        _ => 240 + s.us(600),
    }
}
/// What the batch form may give where scalar evaluation gives `want`.
fn same(want: f64, got: f64, tol: f64) -> bool {
    if want.is_nan() || got.is_nan() {
        return want.is_nan() && got.is_nan();
    }
    if want.is_infinite() || got.is_infinite() {
        return want == got;
    }
    (want - got).abs() <= tol.max(1e-10 * want.abs()) + 1e-300
}
/// A power whose computed exponent has to be exactly whole (its base is not positive there): rounding decides.
fn delicate(t: &T, p: &[f64]) -> bool {
    t.any(&|u| matches!(u, Pow(a, c) if c.size() > 2 && !c.varset().is_empty() && !matches!(ev(a, p), Ev::Val(w) if w.v > 1e-9)))
}
thread_local! { static SHARED: std::cell::RefCell<Vec<wide::f64x4>> = const { std::cell::RefCell::new(Vec::new()) }; }

fn check(s: &mut Src, cx: &mut Cx, e: &sa::Expr) -> Out {
    let view = from_expr(e);
    let mut order = view.varset();
    if s.chance(1, 3) {
        for i in 0..VARS.len() {
            if !order.contains(&i) && s.chance(1, 5) {
                order.push(i);
            }
        }
    }
    s.shuffle(&mut order);
    let names: Vec<&str> = order.iter().map(|i| VARS[*i]).collect();
    let ce = match CE::compile(e, &names, None) {
        Ok(c) => c,
        Err(er) => return Out::fail("compile", format!("compile failed: {er:?}")),
    };
    let n = if order.is_empty() { 1 } else { length(s) };
    let mode = s.below(4);
    let cols: Vec<Vec<f64>> = order.iter().map(|_| (0..n).map(|_| values(s, mode)).collect()).collect();
    let refs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
    let extra = if s.chance(1, 4) { s.us(5) } else { 0 };
    const MARK: f64 = 12345.678;
    let mut out = vec![MARK; n + extra];
    let form = s.below(6);
    let before = redzone::smashed();
    let run = guard(|| match form {
        0 | 1 => ce.eval_batch(&refs, &mut out, None).map(|_| None),
        2 => SHARED.with(|b| ce.eval_batch(&refs, &mut out, Some(&mut b.borrow_mut())).map(|_| None)),
        3 => {
            let mut b: Vec<wide::f64x4> = Vec::with_capacity(s.us(90));
            ce.eval_batch(&refs, &mut out, Some(&mut b)).map(|_| None)
        }
        4 => ce.eval_batch_parallel(&refs).map(Some),
        _ => sa::eval_f64(&[e], &[&names[..]], &[&refs[..]]).map(|mut v| Some(v.remove(0))),
    });
    let fname = ["eval_batch", "eval_batch", "eval_batch with a shared buffer", "eval_batch with a small buffer", "eval_batch_parallel", "eval_f64"][form as usize];
    if redzone::smashed() != before {
        return Out::fail("memory", format!("{fname} over {n} rows wrote outside its buffers"));
    }
    let got = match run {
        Err(p) => return Out::fail("panic", format!("{fname} over {n} rows panicked: {p}")),
        Ok(Err(er)) => return Out::fail("error", format!("{fname} over {n} rows failed: {er:?}")),
        Ok(Ok(None)) => {
            for (k, v) in out[n..].iter().enumerate() {
                if v.to_bits() != MARK.to_bits() {
                    return Out::fail("extra", format!("{fname} over {n} rows wrote {v} to output {}", n + k));
                }
            }
            out[..n].to_vec()
        }
        Ok(Ok(Some(v))) => v,
    };
    if got.len() != n {
        return Out::fail("length", format!("{fname} over {n} rows gave {} results", got.len()));
    }
    cx.count(fname);
    let mut good = 0;
    let mut p = vec![f64::NAN; VARS.len()];
    for r in 0..n {
        let args: Vec<f64> = cols.iter().map(|c| c[r]).collect();
        let want = ce.evaluate(&args);
        for (k, i) in order.iter().enumerate() {
            p[*i] = args[k];
        }
        if same(want, got[r], 0.0) {
            if want.is_finite() {
                good += 1;
            }
            continue;
        }
        if delicate(&view, &p) {
            continue;
        }
        // the bound of the reference evaluator tells rounding from error
        match ev(&view, &p) {
            Ev::Val(w) => {
                if same(want, got[r], 64.0 * w.e + 1e-9 * w.v.abs()) || w.e > 1e-6 * w.v.abs() {
                    continue;
                }
                // no number on one side: only where the value is known sharply (no pole within the error bound)
                if want.is_finite() != got[r].is_finite() && w.e > 1e-10 * w.v.abs() {
                    continue;
                }
            }
            Ev::Ill => continue,
            Ev::Undef => {
                if same(want, got[r], 1e-9) || !want.is_finite() && !got[r].is_finite() {
                    continue; // NaN or infinity: both say that there is no value
                }
                // undefined to the reference: without an error bound only small expressions are judged,
                // and tiny ones only at extreme arguments
                if view.size() > 8 || view.size() > 3 && args.iter().any(|a| !a.is_finite() || a.abs() > 600.0 || (*a != 0.0 && a.abs() < 1e-7)) {
                    continue;
                }
            }
        }
        return Out::fail(
            "row",
            format!("{fname}, row {r} of {n}, at {}: alone {want:e}, in the batch {:e}", gen::show_point(&p, &view.varset()), got[r]),
        );
    }
    cx.pass(good > 0 && n >= 4 && view.size() >= 3)
}
fn make(s: &mut Src, cx: &mut Cx, t: T) -> Out {
    if !gen::tame(&t) {
        return Out::Discard;
    }
    cx.show(t.to_string());
    let e = to_expr(&t, s);
    check(s, cx, &e)
}
fn functions(s: &mut Src, cx: &mut Cx) -> Out {
    let set = if s.chance(2, 3) { FunSet::Elem } else { FunSet::All };
    let f = gen::pick_fun(s, set).unwrap();
    let c = Cfg::new(2, 2, FunSet::None);
    let t = if s.chance(1, 2) {
        F(f, gen::fun_args(f, s, &c, 1))
    } else {
        F(f, gen::fun_args(f, s, &c, 4))
    };
    make(s, cx, t)
}
fn shapes(s: &mut Src, cx: &mut Cx) -> Out {
    let mut t = fill(s);
    if s.chance(1, 3) {
        let u = fill(s);
        t = match s.below(4) {
            0 => Add(b(t), b(u)),
            1 => Mul(b(t), b(u)),
            2 => Sub(b(t), b(u)),
            _ => Div(b(t), b(u)),
        };
    }
    make(s, cx, t)
}
fn random(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(if s.chance(1, 4) { 30 } else { 10 }, 4, FunSet::All);
    c.neg_lits = true;
    let t = gen::term(s, &c);
    make(s, cx, t)
}
fn large(s: &mut Src, cx: &mut Cx) -> Out {
    let t = big(s);
    make(s, cx, t)
}
/// several expressions at once
fn many(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.us(6);
    let mut es = vec![];
    let mut names: Vec<Vec<&str>> = vec![];
    let mut data: Vec<Vec<Vec<f64>>> = vec![];
    let mut txt = vec![];
    for _ in 0..k {
        let c = Cfg::new(8, 3, FunSet::Basic);
        let t = gen::term(s, &c);
        if !gen::tame(&t) {
            return Out::Discard;
        }
        txt.push(t.to_string());
        let e = to_expr(&t, s);
        let mut vs = from_expr(&e).varset();
        if s.chance(1, 4) && !vs.contains(&7) {
            vs.push(7);
        }
        s.shuffle(&mut vs);
        let n = if vs.is_empty() { 1 } else { length(s) };
        data.push(vs.iter().map(|_| (0..n).map(|_| values(s, 0)).collect()).collect());
        names.push(vs.iter().map(|i| VARS[*i]).collect());
        es.push(e);
    }
    cx.show(txt.join("; "));
    let er: Vec<&sa::Expr> = es.iter().collect();
    let nr: Vec<&[&str]> = names.iter().map(|v| &v[..]).collect();
    let cr: Vec<Vec<&[f64]>> = data.iter().map(|d| d.iter().map(|c| &c[..]).collect()).collect();
    let dr: Vec<&[&[f64]]> = cr.iter().map(|c| &c[..]).collect();
    let got = match guard(|| sa::eval_f64(&er, &nr, &dr)) {
        Err(p) => return Out::fail("panic", p),
        Ok(Err(x)) => return Out::fail("error", format!("{x:?}")),
        Ok(Ok(g)) => g,
    };
    if got.len() != k {
        return Out::fail("length", format!("{k} expressions, {} results", got.len()));
    }
    for i in 0..k {
        let ce = match CE::compile(&es[i], &names[i], None) {
            Ok(c) => c,
            Err(x) => return Out::fail("compile", format!("{x:?}")),
        };
        let n = if names[i].is_empty() { 1 } else { data[i][0].len() };
        if got[i].len() != n {
            return Out::fail("length", format!("expression {i}: {n} rows, {} results", got[i].len()));
        }
        for r in 0..n {
            let args: Vec<f64> = data[i].iter().map(|c| c[r]).collect();
            let want = ce.evaluate(&args);
            if !same(want, got[i][r], 1e-7 * (1.0 + want.abs())) && (want.is_finite() || got[i][r].is_finite()) {
                let mut p = vec![f64::NAN; VARS.len()];
                for (q, nm) in names[i].iter().enumerate() {
                    p[var_index(nm).unwrap()] = args[q];
                }
                if matches!(ev(&from_expr(&es[i]), &p), Ev::Val(w) if matches!(close(w, w, 1e-9), Cmp::Same)) {
                    return Out::fail("row", format!("expression {i}, row {r} of {n}: alone {want:e}, in the batch {:e}", got[i][r]));
                }
            }
        }
    }
    cx.pass(k >= 2)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C14", "expressions compiled and run over generated columns (lengths 0 to 840, special values in any lane) by eval_batch (own, shared and undersized buffers), eval_batch_parallel and eval_f64, every row compared with scalar evaluation; guard bytes behind every allocation; non-trivial: at least 4 rows, 3 nodes and a finite value")
        .stage("functions", 120_000, 2_000_000, functions)
        .stage("shapes", 120_000, 2_000_000, shapes)
        .stage("random", 120_000, 2_000_000, random)
        .stage("large", 40_000, 400_000, large)
        .stage("many", 30_000, 400_000, many)
}
fn main() {
    main_with(spec)
}
