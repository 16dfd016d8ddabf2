//! C16: malformed evaluation requests give errors, well-formed ones exactly the requested outputs.
use sa::parallel::{evaluate_parallel, EvalResult, ExprInput, Value, VarInput};
use sa::{CompiledEvaluator as CE, DiffError, Expr};
use vchk::*;

#[global_allocator]
static GUARDED: redzone::Redzone = redzone::Redzone;

const MARK: f64 = 12345.678;

/// An expression and whether something in it cannot be evaluated.
struct Ex {
    e: Expr,
    vars: Vec<usize>,
    bad: Option<&'static str>,
}
fn var(s: &mut Src, c: &Cfg) -> usize {
    match gen::var(s, c) {
        Var(i) => i,
        _ => 0,
    }
}
fn make(s: &mut Src, bad_chance: u64) -> Option<Ex> {
    let mut c = Cfg::new(if s.chance(1, 4) { 14 } else { 5 }, 4, FunSet::Elem);
    c.long_vars = s.chance(1, 4);
    let t = if s.chance(1, 8) { Num(3.0) } else { gen::term(s, &c) };
    if !gen::tame(&t) {
        return None;
    }
    let mut e = to_expr(&t, s);
    let mut vars = from_expr(&e).varset();
    let mut bad = None;
    if s.chance(bad_chance, 12) {
        let v = var(s, &c);
        let x = Expr::symbol(VARS[v]);
        let (item, kind) = match s.below(7) {
            0 => (Expr::func("foo", x), "UnsupportedFunction"),
            1 => (Expr::func_multi("foo", vec![x, Expr::number(2.0)]), "UnsupportedFunction"),
            2 => (Expr::func_multi("sin", vec![x.clone(), x]), "UnsupportedFunction"),
            3 => (Expr::func("besselj", x), "UnsupportedFunction"),
            4 => (Expr::derivative(Expr::func("foo", x), VARS[v], 1), "UnsupportedExpression"),
            5 => (Expr::derivative(Expr::func("sin", x), VARS[v], 2), "UnsupportedExpression"),
            _ => (Expr::func_multi("gamma_like", vec![x.clone(), x.clone(), x]), "UnsupportedFunction"),
        };
        let y = Expr::symbol(VARS[var(s, &c)]);
        e = match s.below(6) {
            0 => e + item,
            1 => item,
            2 => Expr::func("sin", item) + e,
            3 => Expr::func("exp", e) * (item + 1.5),
            4 => y * item,
            _ => Expr::func("sqrt", item + 2.0) / (Expr::number(3.0) + e.pow(2.0)),
        };
        bad = Some(kind);
        vars = from_expr(&e).varset();
        if !vars.contains(&v) {
            vars.push(v); // inside the opaque part
        }
        for i in e.variables() {
            if let Some(k) = VARS.iter().position(|n| *n == i) {
                if !vars.contains(&k) {
                    vars.push(k);
                }
            }
        }
    }
    Some(Ex { e, vars, bad })
}
fn kind(e: &DiffError) -> String {
    let d = format!("{e:?}");
    d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn length(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => s.us(10),
        1 => s.us(70),
        2 => *s.pick(&[255usize, 256, 257, 260, 511, 512, 513]),
        _ => 240 + s.us(600),
    }
}
/// Names for an expression: all its variables in some order, sometimes more, sometimes with one missing.
fn names(s: &mut Src, x: &Ex) -> (Vec<usize>, Vec<usize>) {
    let mut order = x.vars.clone();
    for i in 0..VARS.len() {
        if !order.contains(&i) && s.chance(1, 12) {
            order.push(i);
        }
    }
    s.shuffle(&mut order);
    let mut missing = vec![];
    if s.chance(1, 5) && !order.is_empty() {
        let k = s.us(order.len());
        let i = order.remove(k);
        if x.vars.contains(&i) {
            missing.push(i);
        }
    }
    (order, missing)
}
/// The columns of a request and what is wrong with them.
fn columns(s: &mut Src, k: usize) -> (Vec<Vec<f64>>, usize, Vec<&'static str>) {
    let n = length(s);
    let mut k2 = k;
    if s.chance(1, 5) {
        k2 = match s.below(3) {
            0 => k + 1 + s.us(2),
            1 => k.saturating_sub(1 + s.us(2)),
            _ => s.us(4),
        };
    }
    let mut cols: Vec<Vec<f64>> = (0..k2).map(|_| (0..n).map(|_| gen::point(s)[0]).collect()).collect();
    let mut wrong = vec![];
    if k2 != k {
        wrong.push("EvalColumnMismatch");
    }
    if k2 > 0 && s.chance(1, 5) {
        let i = s.us(k2);
        let m = match s.below(5) {
            0 => 0,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => n + s.us(300),
            _ => length(s),
        };
        cols[i] = (0..m).map(|_| gen::point(s)[0]).collect();
        if k2 > 1 && m != n {
            wrong.push("EvalColumnLengthMismatch");
        }
    }
    let n = cols.first().map_or(1, |c| c.len());
    (cols, n, wrong)
}
fn value_ok(ce: &CE, view: &T, order: &[usize], args: &[f64], got: f64) -> bool {
    let want = ce.evaluate(args);
    if want.is_nan() && got.is_nan() || want == got || (want - got).abs() <= 1e-9 * want.abs().max(1.0) {
        return true;
    }
    let mut p = vec![f64::NAN; VARS.len()];
    for (k, i) in order.iter().enumerate() {
        p[*i] = args[k];
    }
    !matches!(ev(view, &p), Ev::Val(w) if w.e <= 1e-9 * w.v.abs().max(1e-3) && (w.v - got).abs() > 1e-6 * w.v.abs().max(1e-3))
}
fn judge(what: &str, wrong: &[&str], err: &DiffError) -> Option<Out> {
    let k = kind(err);
    if wrong.is_empty() {
        return Some(Out::fail("error", format!("{what}: a well-formed request failed with {err:?}")));
    }
    if !wrong.contains(&&k[..]) {
        return Some(Out::fail("kind", format!("{what}: expected one of {wrong:?}, got {err:?}")));
    }
    None
}
fn single(s: &mut Src, cx: &mut Cx) -> Out {
    let Some(x) = make(s, 2) else { return Out::Discard };
    let (order, missing) = names(s, &x);
    let nm: Vec<&str> = order.iter().map(|i| VARS[*i]).collect();
    cx.show(format!("{} over {nm:?}", x.e));
    let mut wrong: Vec<&str> = vec![];
    if let Some(b) = x.bad {
        wrong.push(b);
    }
    if !missing.is_empty() {
        wrong.push("UnboundVariable");
    }
    let how = s.below(4);
    let auto = how == 0 && missing.is_empty() && order.len() == x.vars.len();
    let r = guard(|| match how {
        0 if auto => x.e.compile(),
        1 => {
            let sy: Vec<sa::Symbol> = nm.iter().map(|n| sa::symb(n)).collect();
            CE::compile(&x.e, &sy.iter().collect::<Vec<_>>(), None)
        }
        2 => x.e.compile_with_params(&nm),
        _ => CE::compile(&x.e, &nm, None),
    });
    let ce = match r {
        Err(p) => return Out::fail("panic", format!("compile panicked: {p}")),
        Ok(Err(er)) => {
            if let Some(o) = judge("compile", &wrong, &er) {
                return o;
            }
            if let DiffError::UnboundVariable(v) = &er {
                if !missing.iter().any(|i| VARS[*i] == v) {
                    return Out::fail("variable", format!("compile reports {v} unbound"));
                }
            }
            cx.count("compile error");
            return cx.pass(true);
        }
        Ok(Ok(c)) => c,
    };
    if !wrong.is_empty() {
        return Out::fail("accepted", format!("compile succeeded; expected {wrong:?}"));
    }
    let pn: Vec<String> = ce.param_names().iter().map(|v| v.to_string()).collect();
    let order: Vec<usize> = if auto {
        let mut o = order.clone();
        o.sort_by_key(|i| VARS[*i]);
        o
    } else {
        order
    };
    if pn != order.iter().map(|i| VARS[*i]).collect::<Vec<_>>() || ce.param_count() != order.len() {
        return Out::fail("params", format!("parameters reported as {pn:?}, {}", ce.param_count()));
    }
    let view = from_expr(&x.e);
    // point by point, with too few or too many values
    if s.chance(1, 4) {
        let m = s.us(order.len() + 4);
        let args: Vec<f64> = (0..m).map(|_| gen::point(s)[0]).collect();
        let mut full = args.clone();
        full.resize(order.len(), 0.0);
        let (a, c) = match guard(|| (ce.evaluate(&args), ce.evaluate(&full))) {
            Err(p) => return Out::fail("panic", format!("evaluate with {m} values panicked: {p}")),
            Ok(r) => r,
        };
        if a.to_bits() != c.to_bits() && !(a.is_nan() && c.is_nan()) {
            return Out::fail("missing", format!("evaluate({args:?}) = {a}, evaluate({full:?}) = {c}"));
        }
        cx.count("evaluate");
        return cx.pass(m != order.len());
    }
    let (cols, n, mut wrong) = columns(s, order.len());
    let refs: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
    let form = s.below(5);
    let fname = ["eval_batch", "eval_batch with a buffer", "eval_batch with a used buffer", "eval_batch_parallel", "eval_f64"][form as usize];
    let mut room = n;
    if form < 3 {
        if s.chance(1, 5) {
            room = match s.below(3) {
                0 => n.saturating_sub(1 + s.us(5)),
                1 => s.us(n + 1),
                _ => n + 1 + s.us(6),
            };
        }
        if room < n {
            wrong.push("EvalOutputTooSmall");
        }
    }
    let lens: Vec<usize> = cols.iter().map(|c| c.len()).collect();
    let what = format!("{fname} with columns {lens:?} and room for {room}");
    let mut out = vec![MARK; room];
    let before = redzone::smashed();
    let r = guard(|| match form {
        0 => ce.eval_batch(&refs, &mut out, None).map(|_| None),
        1 => ce.eval_batch(&refs, &mut out, Some(&mut Vec::new())).map(|_| None),
        2 => {
            let mut v: Vec<wide::f64x4> = vec![wide::f64x4::ZERO; s.us(100)];
            ce.eval_batch(&refs, &mut out, Some(&mut v)).map(|_| None)
        }
        3 => ce.eval_batch_parallel(&refs).map(Some),
        _ => sa::eval_f64(&[&x.e], &[&order.iter().map(|i| VARS[*i]).collect::<Vec<_>>()[..]], &[&refs[..]]).map(|mut v| Some(v.remove(0))),
    });
    if redzone::smashed() != before {
        return Out::fail("memory", format!("{what} wrote outside its buffers"));
    }
    cx.count(fname);
    let got = match r {
        Err(p) => return Out::fail("panic", format!("{what} panicked: {p}")),
        Ok(Err(er)) => {
            if let Some(o) = judge(&what, &wrong, &er) {
                return o;
            }
            if form < 3 && out.iter().any(|v| v.to_bits() != MARK.to_bits()) {
                return Out::fail("written", format!("{what}: error {er:?}, yet outputs were written"));
            }
            let told = match &er {
                DiffError::EvalColumnMismatch { expected, got } => *expected == order.len() && *got == cols.len(),
                DiffError::EvalOutputTooSmall { needed, got } => *needed == n && *got == room,
                _ => true,
            };
            if !told {
                return Out::fail("numbers", format!("{what}: wrong numbers in {er:?}"));
            }
            cx.count("batch error");
            return cx.pass(true);
        }
        Ok(Ok(g)) => g,
    };
    if !wrong.is_empty() {
        return Out::fail("accepted", format!("{what} succeeded; expected {wrong:?}"));
    }
    let got = match got {
        Some(v) => {
            if v.len() != n {
                return Out::fail("length", format!("{what} gave {} results", v.len()));
            }
            v
        }
        None => {
            if out[n..].iter().any(|v| v.to_bits() != MARK.to_bits()) {
                return Out::fail("extra", format!("{what} wrote beyond the {n} requested outputs"));
            }
            out
        }
    };
    for r in 0..n {
        let args: Vec<f64> = cols.iter().map(|c| c[r]).collect();
        if !value_ok(&ce, &view, &order, &args, got[r]) {
            return Out::fail("value", format!("{what}: row {r} at {args:?} gives {}, alone {}", got[r], ce.evaluate(&args)));
        }
    }
    cx.pass(n > 0)
}
/// several expressions in one request
fn several(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.us(5);
    let mut xs = vec![];
    for _ in 0..k {
        let Some(x) = make(s, 1) else { return Out::Discard };
        xs.push(x);
    }
    let mut wrong: Vec<&str> = vec![];
    let mut nms: Vec<Vec<&str>> = vec![];
    let mut orders = vec![];
    let mut data: Vec<Vec<Vec<f64>>> = vec![];
    let mut ns = vec![];
    let mut uncompilable = false;
    for x in &xs {
        let (o, missing) = names(s, x);
        uncompilable |= x.bad.is_some() || !missing.is_empty();
        let (c, n, w) = columns(s, o.len());
        nms.push(o.iter().map(|i| VARS[*i]).collect());
        orders.push(o);
        data.push(c);
        ns.push(n);
        wrong.extend(w);
    }
    if uncompilable {
        wrong.push("InvalidSyntax");
    }
    if s.chance(1, 6) {
        match s.below(4) {
            0 => nms.push(vec!["x"]),
            1 => data.push(vec![vec![1.0]]),
            2 if k > 0 => {
                nms.pop();
            }
            _ if k > 0 => {
                data.pop();
            }
            _ => nms.push(vec![]),
        }
        wrong = vec!["InvalidSyntax"];
    }
    let lens: Vec<Vec<usize>> = data.iter().map(|d| d.iter().map(|c| c.len()).collect()).collect();
    cx.show(format!("{} over {nms:?}, columns {lens:?}", xs.iter().map(|x| x.e.to_string()).collect::<Vec<_>>().join("; ")));
    let er: Vec<&Expr> = xs.iter().map(|x| &x.e).collect();
    let nr: Vec<&[&str]> = nms.iter().map(|v| &v[..]).collect();
    let cr: Vec<Vec<&[f64]>> = data.iter().map(|d| d.iter().map(|c| &c[..]).collect()).collect();
    let dr: Vec<&[&[f64]]> = cr.iter().map(|c| &c[..]).collect();
    let before = redzone::smashed();
    let r = guard(|| sa::eval_f64(&er, &nr, &dr));
    if redzone::smashed() != before {
        return Out::fail("memory", "eval_f64 wrote outside its buffers");
    }
    let got = match r {
        Err(p) => return Out::fail("panic", format!("eval_f64 panicked: {p}")),
        Ok(Err(e)) => {
            if let Some(o) = judge("eval_f64", &wrong, &e) {
                return o;
            }
            cx.count("eval_f64 error");
            return cx.pass(true);
        }
        Ok(Ok(g)) => g,
    };
    if !wrong.is_empty() {
        return Out::fail("accepted", format!("eval_f64 succeeded; expected {wrong:?}"));
    }
    if got.iter().map(|g| g.len()).collect::<Vec<_>>() != ns {
        return Out::fail("length", format!("eval_f64: expected {ns:?} results, got {:?}", got.iter().map(|g| g.len()).collect::<Vec<_>>()));
    }
    for i in 0..k {
        let Ok(ce) = CE::compile(&xs[i].e, &nms[i], None) else { return Out::fail("compile", "cannot compile alone") };
        let view = from_expr(&xs[i].e);
        for r in 0..ns[i] {
            let args: Vec<f64> = data[i].iter().map(|c| c[r]).collect();
            if !value_ok(&ce, &view, &orders[i], &args, got[i][r]) {
                return Out::fail("value", format!("eval_f64: expression {i} row {r} gives {}, alone {}", got[i][r], ce.evaluate(&args)));
            }
        }
    }
    cx.pass(k > 1)
}
/// shapes of symbolic parallel evaluation
fn symbolic(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.us(4);
    let mut inputs = vec![];
    let mut nms: Vec<Vec<VarInput>> = vec![];
    let mut vals: Vec<Vec<Vec<Value>>> = vec![];
    let mut want: Vec<usize> = vec![];
    let mut text = vec![];
    let mut wrong: Vec<&str> = vec![];
    let mut txt = String::new();
    for _ in 0..k {
        let Some(x) = make(s, 1) else { return Out::Discard };
        let (o, _) = names(s, &x);
        let mut cols = o.len();
        if s.chance(1, 8) {
            cols = s.us(4);
        }
        if cols != o.len() {
            wrong.push("EvalColumnMismatch");
        }
        let n = length(s).min(300);
        let c: Vec<Vec<Value>> = (0..cols)
            .map(|_| {
                let m = if s.chance(1, 4) { s.us(n + 1) } else { n };
                (0..m)
                    .map(|_| match s.below(12) {
                        0 => Value::Skip,
                        1 => Value::Expr(Expr::symbol("w") + 1.0),
                        _ => Value::Num(gen::point(s)[0]),
                    })
                    .collect()
            })
            .collect();
        let top = c.iter().map(|v| v.len()).max().unwrap_or(0);
        if cols == o.len() && top > 0 && c.iter().any(|v| v.is_empty()) {
            wrong.push("EvalColumnLengthMismatch");
        }
        want.push(if o.is_empty() { 1 } else { top });
        txt.push_str(&format!("{} over {:?} with columns {:?}; ", x.e, o.iter().map(|i| VARS[*i]).collect::<Vec<_>>(), c.iter().map(|v| v.len()).collect::<Vec<_>>()));
        nms.push(o.iter().map(|i| VarInput::from(VARS[*i])).collect());
        vals.push(c);
        let as_text = x.bad.is_none() && s.chance(1, 2);
        text.push(as_text);
        inputs.push(if as_text { ExprInput::from(x.e.to_string()) } else { ExprInput::from(&x.e) });
    }
    if s.chance(1, 8) {
        match s.below(4) {
            0 => nms.push(vec![]),
            1 => vals.push(vec![]),
            2 if k > 0 => {
                nms.pop();
            }
            _ if k > 0 => {
                vals.pop();
            }
            _ => vals.push(vec![]),
        }
        wrong = vec!["UnsupportedOperation"];
        txt.push_str("one list too short or too long");
    }
    cx.show(txt);
    let got = match guard(|| evaluate_parallel(inputs, nms, vals)) {
        Err(p) => return Out::fail("panic", format!("evaluate_parallel panicked: {p}")),
        Ok(Err(e)) => {
            if let Some(o) = judge("evaluate_parallel", &wrong, &e) {
                return o;
            }
            return cx.pass(true);
        }
        Ok(Ok(g)) => g,
    };
    if !wrong.is_empty() {
        return Out::fail("accepted", format!("evaluate_parallel succeeded; expected {wrong:?}"));
    }
    let have: Vec<usize> = got.iter().map(|g| g.len()).collect();
    if have != want {
        return Out::fail("length", format!("evaluate_parallel: expected {want:?} results, got {have:?}"));
    }
    for (g, t) in got.iter().zip(&text) {
        if g.iter().any(|r| matches!(r, EvalResult::String(_)) != *t) {
            return Out::fail("type", format!("evaluate_parallel: text input {t} gave {g:?}"));
        }
    }
    cx.pass(want.iter().any(|n| *n > 0))
}
fn spec() -> Spec {
    Spec::new("C16", "requests with random expressions (a sixth with an undeclared function, a wrong argument count or a formal derivative), parameter lists (some with a variable missing), column lists (wrong count, one column of another length), output sizes and scratch buffers, of 0 to 850 rows; a model says which errors are due; non-trivial: an error was due and given, or at least one row was evaluated")
        .stage("one expression", 600_000, 10_000_000, single)
        .stage("several expressions", 150_000, 3_000_000, several)
        .stage("symbolic", 60_000, 1_500_000, symbolic)
}
fn main() {
    main_with(spec)
}
