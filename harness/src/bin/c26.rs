//! C26: views, visitors, variable sets, mapping and substitution report the expression faithfully.
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;
use sa::visitor::{walk_expr, ExprView, ExprVisitor, NodeCounter, VariableCollector};
use sa::{Diff, Expr};
use vchk::*;

// ------------------------------------------------------------------ what the view shows
fn names(e: &Expr, out: &mut BTreeSet<String>) {
    match e.view() {
        ExprView::Number(_) => {}
        ExprView::Symbol(s) => {
            out.insert(s.to_string());
        }
        ExprView::Function { args, .. } => args.iter().for_each(|a| names(a, out)),
        ExprView::Sum(v) | ExprView::Product(v) => v.iter().for_each(|a| names(a, out)),
        ExprView::Div(a, c) | ExprView::Pow(a, c) => {
            names(a, out);
            names(c, out);
        }
        ExprView::Derivative { inner, var, .. } => {
            out.insert(var.to_string());
            names(inner, out);
        }
    }
}
fn functions(e: &Expr, out: &mut BTreeSet<String>) {
    match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => {}
        ExprView::Function { args, name } => {
            out.insert(format!("{name}/{}", args.len()));
            args.iter().for_each(|a| functions(a, out));
        }
        ExprView::Sum(v) | ExprView::Product(v) => v.iter().for_each(|a| functions(a, out)),
        ExprView::Div(a, c) | ExprView::Pow(a, c) => {
            functions(a, out);
            functions(c, out);
        }
        ExprView::Derivative { inner, .. } => functions(inner, out),
    }
}
/// one word for each node, parents first
fn preorder(e: &Expr, out: &mut Vec<String>) {
    let all = |v: &[Arc<Expr>], out: &mut Vec<String>| v.iter().for_each(|a| preorder(a, out));
    match e.view() {
        ExprView::Number(n) => out.push(format!("{n:?}")),
        ExprView::Symbol(s) => out.push(s.to_string()),
        ExprView::Function { name, args } => {
            out.push(format!("{name}()"));
            all(args, out);
        }
        ExprView::Sum(v) => {
            out.push(format!("sum of {}", v.len()));
            all(&v, out);
        }
        ExprView::Product(v) => {
            out.push(format!("product of {}", v.len()));
            all(&v, out);
        }
        ExprView::Div(a, c) => {
            out.push("/".into());
            preorder(a, out);
            preorder(c, out);
        }
        ExprView::Pow(a, c) => {
            out.push("^".into());
            preorder(a, out);
            preorder(c, out);
        }
        ExprView::Derivative { inner, var, order } => {
            out.push(format!("d{order}/d{var}"));
            preorder(inner, out);
        }
    }
}
fn word(e: &Expr) -> String {
    match e.view() {
        ExprView::Number(n) => format!("{n:?}"),
        ExprView::Symbol(s) => s.to_string(),
        ExprView::Function { name, .. } => format!("{name}()"),
        ExprView::Sum(v) => format!("sum of {}", v.len()),
        ExprView::Product(v) => format!("product of {}", v.len()),
        ExprView::Div(..) => "/".into(),
        ExprView::Pow(..) => "^".into(),
        ExprView::Derivative { var, order, .. } => format!("d{order}/d{var}"),
    }
}
#[derive(Default)]
struct Walk {
    words: Vec<String>,
    symbols: BTreeSet<String>,
    functions: BTreeSet<String>,
    stop: Option<String>,
}
impl Walk {
    fn go(&mut self, w: String) -> bool {
        let stop = self.stop.as_deref() == Some(w.as_str());
        self.words.push(w);
        !stop
    }
}
impl ExprVisitor for Walk {
    fn visit_number(&mut self, n: f64) -> bool {
        self.go(format!("{n:?}"))
    }
    fn visit_symbol(&mut self, name: &str) -> bool {
        self.symbols.insert(name.to_string());
        self.go(name.to_string())
    }
    fn visit_function(&mut self, name: &str, args: &[Arc<Expr>]) -> bool {
        self.functions.insert(format!("{name}/{}", args.len()));
        self.go(format!("{name}()"))
    }
    fn visit_binary(&mut self, op: &str, _: &Expr, _: &Expr) -> bool {
        self.go(op.to_string())
    }
    fn visit_sum(&mut self, t: &[Arc<Expr>]) -> bool {
        self.go(format!("sum of {}", t.len()))
    }
    fn visit_product(&mut self, t: &[Arc<Expr>]) -> bool {
        self.go(format!("product of {}", t.len()))
    }
    fn visit_derivative(&mut self, _: &Expr, var: &str, order: u32) -> bool {
        self.symbols.insert(var.to_string());
        self.go(format!("d{order}/d{var}"))
    }
}
// ------------------------------------------------------------------ subjects
/// A term and an expression for it in one of many internal forms.
fn subject(s: &mut Src) -> Option<(T, Expr, &'static str)> {
    let mut c = Cfg::new([2, 5, 10, 18, 30][s.us(5)], 4, if s.chance(1, 3) { FunSet::Basic } else { FunSet::Elem });
    c.long_vars = s.chance(1, 2);
    c.neg_lits = true;
    let t = if s.chance(1, 3) { gen::poly(s, &c, 4) } else { gen::term(s, &c) };
    if !gen::tame(&t) {
        return None;
    }
    Some(match s.below(8) {
        0 => {
            let st = Style { implicit: false, spaces: false, redundant: s.chance(1, 2), starstar: false };
            let f = print_formula(&t, s, st);
            let none = HashSet::<String>::new();
            let kn: HashSet<String> = VARS.iter().map(|v| v.to_string()).collect();
            (t, sa::parse(&f, &kn, &none, None).ok()?, "read")
        }
        1 => {
            let e = to_expr(&t, s);
            let g = e.deep_clone();
            (t, g, "cloned")
        }
        2 => {
            let e = to_expr(&t, s);
            let v = s.us(3);
            let w = ad::d(&from_expr(&e), v)?;
            let g = Diff::new().skip_simplification(true).domain_safe(true).differentiate(&e, &sa::symb(VARS[v])).ok()?;
            // (where the expression itself is defined)
            (Add(b(w), b(Mul(b(Num(0.0)), b(from_expr(&e))))), g, "derivative")
        }
        3 => {
            let e = to_expr(&t, s);
            let g = sa::Simplify::new().domain_safe(true).simplify(&e).ok()?;
            (t, g, "simplified")
        }
        _ => {
            let e = to_expr(&t, s);
            (t, e, "built")
        }
    })
}
fn defined(t: &T, pts: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    pts.into_iter().filter(|p| ev(t, p).val().is_some()).collect()
}
/// rebuild through the public constructors
fn rebuild(e: &Expr, s: &mut Src) -> Expr {
    match e.view() {
        ExprView::Number(n) => Expr::number(n),
        ExprView::Symbol(n) => if s.chance(1, 2) { Expr::symbol(n.as_ref()) } else { sa::symb(n.as_ref()).into() },
        ExprView::Function { name, args } => {
            let v: Vec<Expr> = args.iter().map(|a| rebuild(a, s)).collect();
            if v.len() == 1 && s.chance(1, 2) { Expr::func(name, v[0].clone()) } else { Expr::func_multi(name, v) }
        }
        ExprView::Sum(v) => {
            let mut v: Vec<Expr> = v.iter().map(|a| rebuild(a, s)).collect();
            match s.below(3) {
                0 => Expr::sum(v),
                1 => Expr::sum_from_arcs(v.into_iter().map(Arc::new).collect()),
                _ => {
                    s.shuffle(&mut v);
                    v.into_iter().reduce(|a, c| a + c).unwrap_or_else(|| Expr::number(0.0))
                }
            }
        }
        ExprView::Product(v) => {
            let mut v: Vec<Expr> = v.iter().map(|a| rebuild(a, s)).collect();
            match s.below(3) {
                0 => Expr::product(v),
                1 => Expr::product_from_arcs(v.into_iter().map(Arc::new).collect()),
                _ => {
                    s.shuffle(&mut v);
                    v.into_iter().reduce(|a, c| a * c).unwrap_or_else(|| Expr::number(1.0))
                }
            }
        }
        ExprView::Div(a, c) => Expr::div_expr(rebuild(a, s), rebuild(c, s)),
        ExprView::Pow(a, c) => Expr::pow_static(rebuild(a, s), rebuild(c, s)),
        ExprView::Derivative { inner, var, order } => Expr::derivative(rebuild(inner, s), var, order),
    }
}
fn report(e: &Expr, s: &mut Src) -> Result<(), Out> {
    let mut want = BTreeSet::new();
    names(e, &mut want);
    // variables()
    let got: BTreeSet<String> = e.variables().into_iter().collect();
    if got != want {
        return Err(Out::fail("variables", format!("variables of {e}: {got:?}, its view mentions {want:?}")));
    }
    // and the printed text mentions the same names
    let text = e.to_string();
    for v in VARS.iter().filter(|_| !text.contains('∂')) {
        let m = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == *v);
        if m != want.contains(*v) {
            return Err(Out::fail("text", format!("{text}: variables {want:?}")));
        }
    }
    for v in VARS.iter().chain(&["pi", "e", "never_used", "sin", ""]) {
        let w = want.contains(*v);
        if e.contains_var(v) != w {
            return Err(Out::fail("contains_var", format!("contains_var({v:?}) of {e} is {}", !w)));
        }
        if VARS.contains(v) && e.contains_var_id(sa::symb(v).id()) != w {
            return Err(Out::fail("contains_var_id", format!("contains_var_id({v:?}) of {e} is {}", !w)));
        }
    }
    // free variables
    let ex: HashSet<String> = want.iter().filter(|_| s.chance(4, 5)).cloned().chain(["other".to_string()]).collect();
    let w = want.iter().any(|n| !ex.contains(n));
    if e.has_free_variables(&ex) != w {
        return Err(Out::fail("free variables", format!("has_free_variables({ex:?}) of {e} is {}", !w)));
    }
    // helpers of the view
    let v = e.view();
    let (n, sy, su, pr) = (v.is_number(), v.is_symbol(), v.is_sum(), v.is_product());
    let same = match &v {
        ExprView::Number(x) => n && v.as_number() == Some(*x) && v.as_symbol().is_none() && !sy && !su && !pr,
        ExprView::Symbol(x) => sy && v.as_symbol() == Some(x.as_ref()) && v.as_number().is_none() && !n && !su && !pr,
        ExprView::Sum(_) => su && !n && !sy && !pr && v.as_number().is_none() && v.as_symbol().is_none(),
        ExprView::Product(_) => pr && !n && !sy && !su && v.as_number().is_none() && v.as_symbol().is_none(),
        _ => !n && !sy && !su && !pr && v.as_number().is_none() && v.as_symbol().is_none(),
    };
    if !same {
        return Err(Out::fail("view helpers", format!("{e}: {v:?}")));
    }
    // fold visits what the view shows, parents first
    let mut pre = vec![];
    preorder(e, &mut pre);
    let folded: Vec<String> = e.fold(vec![], |mut a: Vec<String>, x: &Expr| {
        a.push(word(x));
        a
    });
    if folded != pre {
        return Err(Out::fail("fold", format!("{e}: fold saw {folded:?}, view {pre:?}")));
    }
    // the visitor too (of a packed polynomial it may see the base only)
    let mut w = Walk::default();
    walk_expr(e, &mut w);
    let mut fs = BTreeSet::new();
    functions(e, &mut fs);
    if w.symbols != want || w.functions != fs {
        return Err(Out::fail("visitor", format!("{e}: visitor saw {:?} and {:?}, view {want:?} and {fs:?}", w.symbols, w.functions)));
    }
    let mut count = NodeCounter::default();
    walk_expr(e, &mut count);
    if count.count != w.words.len() {
        return Err(Out::fail("node counter", format!("{e}: {} nodes, {} visited", count.count, w.words.len())));
    }
    if !measure::may_pack(e) && w.words != pre {
        return Err(Out::fail("visitor", format!("{e}: visitor saw {:?}, view {pre:?}", w.words)));
    }
    if w.words.len() > pre.len() || w.words.is_empty() {
        return Err(Out::fail("visitor", format!("{e}: visitor saw {} nodes, view shows {}", w.words.len(), pre.len())));
    }
    let mut vc = VariableCollector::default();
    walk_expr(e, &mut vc);
    let vn: BTreeSet<String> = vc.variable_names().into_iter().collect();
    if vn != want {
        return Err(Out::fail("variable collector", format!("{e}: {vn:?}, view {want:?}")));
    }
    // a visitor that says stop sees nothing below
    let stop = pre[s.us(pre.len())].clone();
    let mut st = Walk { stop: Some(stop.clone()), ..Walk::default() };
    walk_expr(e, &mut st);
    if !measure::may_pack(e) {
        fn pruned(e: &Expr, stop: &str, out: &mut Vec<String>) {
            out.push(word(e));
            if word(e) == stop {
                return;
            }
            match e.view() {
                ExprView::Number(_) | ExprView::Symbol(_) => {}
                ExprView::Function { args, .. } => args.iter().for_each(|a| pruned(a, stop, out)),
                ExprView::Sum(v) | ExprView::Product(v) => v.iter().for_each(|a| pruned(a, stop, out)),
                ExprView::Div(a, c) | ExprView::Pow(a, c) => {
                    pruned(a, stop, out);
                    pruned(c, stop, out);
                }
                ExprView::Derivative { inner, .. } => pruned(inner, stop, out),
            }
        }
        let mut want = vec![];
        pruned(e, &stop, &mut want);
        if st.words != want {
            return Err(Out::fail("visitor stop", format!("{e}: stopping at {stop} saw {:?}, expected {want:?}", st.words)));
        }
    }
    // size
    let ((dl, dh), (nl, nh)) = measure::size(e);
    let (d, n) = (e.max_depth(), e.node_count());
    if d < dl || d > dh || n < nl || n > nh || d == 0 || n == 0 {
        return Err(Out::fail("size", format!("{e}: depth {d} (counted {dl}..{dh}), {n} nodes (counted {nl}..{nh})")));
    }
    Ok(())
}
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return m,
        }
    };
}
fn inspect(s: &mut Src, cx: &mut Cx) -> Out {
    let Some((t, mut e, how)) = subject(s) else { return Out::Discard };
    cx.count(how);
    cx.show(format!("{how} {e}"));
    if s.chance(1, 10) {
        // a formal derivative inside
        let d = Expr::derivative(Expr::func("unknown_f", e.clone()), VARS[s.us(6)], 1 + s.us(3) as u32);
        tri!(report(&d, s));
        let x: Expr = sa::symb("z").into();
        e = d * x + e;
        tri!(report(&e, s));
        return cx.pass(true);
    }
    tri!(report(&e, s));
    // the view denotes the expression
    let view = from_expr(&e);
    let pts = defined(&t, points(s, 4));
    let mut k = 0;
    match same_function(&t, &view, &pts, 1e-9) {
        Ok(n) => k += n,
        Err(m) => return Out::fail("view value", format!("{how} {e}: {m}")),
    }
    for p in &pts {
        let v = lib_num(&e, p);
        if let Ev::Val(w) = ev(&view, p) {
            if matches!(close(Ball { v, e: 0.0 }, w, 1e-9), Cmp::Differ(_)) {
                return Out::fail("view value", format!("{e} at {}: evaluates to {v}, its view to {:?}", gen::show_point(p, &view.varset()), w));
            }
        }
    }
    // rebuilt from the view
    let r = rebuild(&e, s);
    match same_function(&view, &from_expr(&r), &pts, 1e-9) {
        Ok(n) => k += n,
        Err(m) => return Out::fail("rebuilt", format!("{e} rebuilt as {r}: {m}")),
    }
    tri!(report(&r, s));
    // sizes grow with structure
    let g = Expr::func("sin", e.clone());
    if g.node_count() != 1 + e.node_count() || g.max_depth() != 1 + e.max_depth() {
        return Out::fail("growth", format!("sin({e}): {} nodes from {}, depth {} from {}", g.node_count(), e.node_count(), g.max_depth(), e.max_depth()));
    }
    let h = Expr::func_multi("atan2", vec![e.clone(), r.clone()]);
    if h.node_count() != 1 + e.node_count() + r.node_count() || h.max_depth() != 1 + e.max_depth().max(r.max_depth()) {
        return Out::fail("growth", format!("atan2({e}, {r}): {} nodes, depth {}", h.node_count(), h.max_depth()));
    }
    let c = e.deep_clone();
    if from_expr(&c).to_string() != view.to_string() && c != e {
        match same_function(&view, &from_expr(&c), &pts, 1e-9) {
            Ok(_) => {}
            Err(m) => return Out::fail("deep clone", format!("{e}: {m}")),
        }
    }
    tri!(report(&c, s));
    cx.pass(k > 0)
}
fn rename(t: &T, f: &dyn Fn(&str) -> &'static str) -> T {
    match t {
        F(g, v) => F(fun(f(g.name)).unwrap_or(g), v.iter().map(|k| rename(k, f)).collect()),
        Neg(a) => Neg(b(rename(a, f))),
        Add(a, c) => Add(b(rename(a, f)), b(rename(c, f))),
        Sub(a, c) => Sub(b(rename(a, f)), b(rename(c, f))),
        Mul(a, c) => Mul(b(rename(a, f)), b(rename(c, f))),
        Div(a, c) => Div(b(rename(a, f)), b(rename(c, f))),
        Pow(a, c) => Pow(b(rename(a, f)), b(rename(c, f))),
        Sum(v) => Sum(v.iter().map(|k| rename(k, f)).collect()),
        Prod(v) => Prod(v.iter().map(|k| rename(k, f)).collect()),
        _ => t.clone(),
    }
}
fn turn(n: &str) -> &'static str {
    match n {
        "sin" => "cos",
        "cos" => "sin",
        "exp" => "tanh",
        "tanh" => "atan",
        "ln" => "sqrt",
        "sqrt" => "cbrt",
        _ => "?",
    }
}
fn transform(s: &mut Src, cx: &mut Cx) -> Out {
    let Some((_, e, how)) = subject(s) else { return Out::Discard };
    let view = from_expr(&e);
    let what = s.below(5);
    let (want, got, say): (T, Expr, String) = match what {
        0 => (view.clone(), e.map(|x| x.clone()), "map identity".into()),
        1 => {
            // exchange two variables at once
            let (i, j) = (s.us(4), s.us(4));
            let (a, c): (Expr, Expr) = (sa::symb(VARS[i]).into(), sa::symb(VARS[j]).into());
            let g = e.map(|x| match x.view() {
                ExprView::Symbol(n) if n == VARS[i] => c.clone(),
                ExprView::Symbol(n) if n == VARS[j] => a.clone(),
                _ => x.clone(),
            });
            let w = view.map_leaves(&|t| if *t == Var(i) { Var(j) } else if *t == Var(j) { Var(i) } else { t.clone() });
            (w, g, format!("exchange {} and {}", VARS[i], VARS[j]))
        }
        2 => {
            let g = e.map(|x| match x.view() {
                ExprView::Function { name, args } if args.len() == 1 && turn(name) != "?" => Expr::func(turn(name), (*args[0]).clone()),
                _ => x.clone(),
            });
            (rename(&view, &|n| if turn(n) == "?" { "?" } else { turn(n) }), g, "exchange functions".into())
        }
        _ => {
            // substitute, perhaps several times
            let (mut g, mut w, mut say) = (e.clone(), view.clone(), String::from("substitute"));
            for _ in 0..1 + s.us(3) {
                let i = s.us(5);
                let mut c = Cfg::new([1, 3, 6][s.us(3)], 4, FunSet::Basic);
                c.neg_lits = true;
                let r = match s.below(6) {
                    0 => Num([0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 1e-9, 1e9][s.us(8)]),
                    1 => Var(s.us(4)),
                    2 => gen::poly(s, &c, 3),
                    3 => Mul(b(Num(-2.0)), b(Pow(b(Var(i)), b(Num(2.0))))),
                    _ => gen::term(s, &c),
                };
                let re = to_expr(&r, s);
                g = g.substitute(VARS[i], &re);
                w = w.subst(i, &from_expr(&re));
                if w.size() > 400 {
                    return Out::Discard;
                }
                say += &format!(" {} := {re}", VARS[i]);
                // the replaced variable is gone unless the replacement mentions it
                if !re.contains_var(VARS[i]) && g.contains_var(VARS[i]) {
                    return Out::fail("left behind", format!("{e}: {say}: {g}"));
                }
            }
            (w, g, say)
        }
    };
    cx.count(if what > 2 { "substitute" } else { "map" });
    cx.show(format!("{how} {e}; {say}"));
    tri!(report(&got, s));
    let pts = defined(&want, points(s, 5));
    match same_function(&want, &from_expr(&got), &pts, 1e-9) {
        Err(m) => Out::fail("value", format!("{how} {e}; {say}: {got}: {m}")),
        Ok(k) => {
            for p in &pts {
                let v = lib_num(&got, p);
                if let Ev::Val(w) = ev(&want, p) {
                    if v.is_finite() && w.e < 1e-9 * w.v.abs() && matches!(close(Ball { v, e: 0.0 }, w, 1e-6), Cmp::Differ(_)) {
                        return Out::fail("evaluated", format!("{how} {e}; {say}: {got} at {}: {v} instead of {:?}", gen::show_point(p, &want.varset()), w));
                    }
                }
            }
            cx.pass(k > 0)
        }
    }
}
fn spec() -> Spec {
    VARS.iter().for_each(|v| {
        let _ = sa::symb(v);
    });
    Spec::new("C26", "an expression in one of many internal forms (built, read, cloned, differentiated, simplified, packed or not); variable set, containment, free variables, view, fold, visitor, counters, rebuilding, mapping and substitution are compared with the view and with the reference term; non-trivial: a value was compared at a well-conditioned point")
        .stage("inspect", 400_000, 8_000_000, inspect)
        .stage("transform", 600_000, 8_000_000, transform)
}
fn main() {
    main_with(spec)
}
