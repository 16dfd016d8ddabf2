//! C24: builder options and limits do what they say.
use std::collections::HashSet;
use sa::{Diff, DiffError, Expr, Simplify, UserFunction};
use vchk::*;

// ------------------------------------------------------------------ size measures
fn measure(e: &Expr) -> Result<(usize, usize), Out> {
    let (d, n) = (e.max_depth(), e.node_count());
    let ((dl, dh), (nl, nh)) = measure::size(e);
    if d < dl || d > dh {
        return Err(Out::fail("depth", format!("max_depth({e}) = {d}, counted {dl}..{dh}")));
    }
    if n < nl || n > nh {
        return Err(Out::fail("nodes", format!("node_count({e}) = {n}, counted {nl}..{nh}")));
    }
    Ok((d, n))
}
// ------------------------------------------------------------------ options
#[derive(Clone, Debug, Default)]
struct Opt {
    safe: bool,
    skip: bool,
    depth: Option<usize>,
    nodes: Option<usize>,
    fixed: Vec<usize>,
    funs: Vec<&'static str>,
    order: Vec<usize>,
}
const FUNS: &[&str] = &["fu", "gw", "y", "rate"];
fn near(s: &mut Src, k: usize) -> Option<usize> {
    match s.below(6) {
        0 => None,
        1 => Some(k),
        2 => Some(k.saturating_sub(1)),
        3 => Some(k + 1),
        4 => Some(k + s.us(200)),
        _ => Some(s.us(k + 2)),
    }
}
fn options(s: &mut Src, d: usize, n: usize, funs: bool) -> Opt {
    let mut o = Opt { safe: s.chance(1, 2), skip: s.chance(1, 3), depth: near(s, d), nodes: near(s, n), ..Opt::default() };
    for i in 0..VARS.len() {
        if s.chance(1, 8) {
            o.fixed.push(i);
        }
    }
    if funs {
        for f in FUNS {
            if s.chance(1, 8) {
                o.funs.push(f);
            }
        }
    }
    o.order = (0..6).collect();
    s.shuffle(&mut o.order);
    o
}
/// the same options in any order, given one by one or together
fn diff_of(o: &Opt, s: &mut Src) -> Diff {
    let mut b = Diff::new();
    for k in &o.order {
        b = match k {
            0 => b.domain_safe(o.safe),
            1 => b.skip_simplification(o.skip),
            2 => o.depth.map_or(b.clone(), |d| b.clone().max_depth(d)),
            3 => o.nodes.map_or(b.clone(), |d| b.clone().max_nodes(d)),
            4 => {
                let names: Vec<&str> = o.fixed.iter().map(|i| VARS[*i]).collect();
                match s.below(3) {
                    0 => b.fixed_vars(&names),
                    1 => names.iter().fold(b, |b, n| b.fixed_var(n)),
                    _ => {
                        let syms: Vec<sa::Symbol> = names.iter().map(|n| sa::symb(n)).collect();
                        let refs: Vec<&sa::Symbol> = syms.iter().collect();
                        b.fixed_vars(&refs)
                    }
                }
            }
            _ => o.funs.iter().fold(b, |b, f| b.user_fn(*f, UserFunction::any_arity())),
        };
    }
    if s.chance(1, 4) {
        // an option given twice: the last one counts
        b = b.domain_safe(!o.safe).domain_safe(o.safe).skip_simplification(!o.skip).skip_simplification(o.skip);
    }
    b
}
fn simp_of(o: &Opt, s: &mut Src) -> Simplify {
    let mut b = Simplify::new();
    for k in &o.order {
        b = match k {
            0 => b.domain_safe(o.safe),
            2 => o.depth.map_or(b.clone(), |d| b.clone().max_depth(d)),
            3 => o.nodes.map_or(b.clone(), |d| b.clone().max_nodes(d)),
            4 => {
                let names: Vec<&str> = o.fixed.iter().map(|i| VARS[*i]).collect();
                if s.chance(1, 2) { b.fixed_vars(&names) } else { names.iter().fold(b, |b, n| b.fixed_var(n)) }
            }
            5 => o.funs.iter().fold(b, |b, f| b.user_fn(*f, UserFunction::any_arity())),
            _ => b,
        };
    }
    b
}
fn kind(e: &DiffError) -> String {
    let t = format!("{e:?}");
    t.split([' ', '(', '{']).next().unwrap_or("").to_string()
}
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return m,
        }
    };
}
fn expect(what: &str, got: &Result<Expr, DiffError>, want: Option<&str>, info: &str) -> Result<bool, Out> {
    match (got, want) {
        (Ok(_), None) => Ok(true),
        (Ok(g), Some(w)) => Err(Out::fail("accepted", format!("{what} {info}: expected {w}, got {g}"))),
        (Err(e), None) => Err(Out::fail("rejected", format!("{what} {info}: rejected with {e:?}"))),
        (Err(e), Some(w)) if kind(e) == w => Ok(false),
        (Err(e), Some(w)) => Err(Out::fail("other error", format!("{what} {info}: expected {w}, got {e:?}"))),
    }
}
fn limits(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new([3, 8, 16, 30][s.us(4)], 3, FunSet::Smooth);
    c.neg_lits = true;
    let t = match s.below(5) {
        0 => gen::poly(s, &c, 4),
        1 => {
            // a tower
            let mut t = gen::term_sized(s, &c, 3);
            for _ in 0..s.us(14) {
                t = match s.below(5) {
                    0 => ad::call1("sin", t),
                    1 => Div(b(t), b(Num(2.5))),
                    2 => Pow(b(Var(1)), b(t)),
                    3 => Add(b(Pow(b(t.clone()), b(Num(2.0)))), b(Mul(b(Num(3.0)), b(t)))),
                    _ => Mul(b(Var(0)), b(Add(b(t), b(Num(1.0))))),
                };
                if t.size() > 200 {
                    break;
                }
            }
            t
        }
        _ => gen::term(s, &c),
    };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let e = to_expr(&t, s);
    let (d, n) = tri!(measure(&e));
    let o = options(s, d, n, false);
    let v = s.us(3);
    let info = format!("depth {d}, {n} nodes, {o:?}, by {}", VARS[v]);
    cx.show(format!("{e}; {info}"));
    // differentiation
    let fixed = o.fixed.contains(&v);
    let over = |o: &Opt| -> Option<&str> {
        if o.depth.is_some_and(|m| d > m) {
            Some("MaxDepthExceeded")
        } else if o.nodes.is_some_and(|m| n > m) {
            Some("MaxNodesExceeded")
        } else {
            None
        }
    };
    let want = if fixed { Some("VariableInBothFixedAndDiff") } else { over(&o) };
    cx.count(want.unwrap_or("accepted"));
    let got = diff_of(&o, s).differentiate(&e, &sa::symb(VARS[v]));
    let ok = tri!(expect("diff", &got, want, &info));
    let mut checked = !ok;
    let view = from_expr(&e);
    if ok {
        let g = got.unwrap();
        let gt = from_expr(&g);
        // the same request without the limits
        let free = Opt { depth: None, nodes: None, ..o.clone() };
        let u = match diff_of(&free, s).differentiate(&e, &sa::symb(VARS[v])) {
            Ok(u) => u,
            Err(er) => return Out::fail("rejected", format!("without limits: {er:?} {info}")),
        };
        if (o.skip || o.depth.map_or(true, |m| m == 50)) && u.to_string() != g.to_string() {
            return Out::fail("altered", format!("limits change the derivative from {u} to {g}; {info}"));
        }
        // without simplification
        let raw = match Diff::new().skip_simplification(true).differentiate(&e, &sa::symb(VARS[v])) {
            Ok(r) => from_expr(&r),
            Err(er) => return Out::fail("rejected", format!("without simplification: {er:?}")),
        };
        let Some(w) = ad::d(&view, v) else { return Out::Discard };
        let pts: Vec<Vec<f64>> = if o.safe || o.skip { points(s, 4) } else { pos_points(s, 5).into_iter().filter(|p| positive_at(&w, p) && positive_at(&view, p)).collect() };
        let pts: Vec<Vec<f64>> = pts.into_iter().filter(|p| ev(&view, p).val().is_some()).collect();
        for (name, x) in [("raw", &raw), ("result", &gt), ("unlimited", &from_expr(&u))] {
            match same_function(&w, x, &pts, 1e-8) {
                Err(m) => return Out::fail("value", format!("{name} derivative {x}: {m}; {info}")),
                Ok(k) => checked |= k > 0,
            }
        }
    }
    // simplification
    let want = over(&o);
    let got = simp_of(&o, s).simplify(&e);
    let ok = tri!(expect("simplify", &got, want, &info));
    if ok {
        let g = got.unwrap();
        let plain = Simplify::new().domain_safe(o.safe);
        let u = match plain.simplify(&e) {
            Ok(u) => u,
            Err(er) => return Out::fail("rejected", format!("simplify without limits: {er:?}")),
        };
        if o.depth.map_or(true, |m| m == 50) && u.to_string() != g.to_string() {
            return Out::fail("altered", format!("options change the simplified form from {u} to {g}; {info}"));
        }
        let pts: Vec<Vec<f64>> = if o.safe { points(s, 4) } else { pos_points(s, 5).into_iter().filter(|p| positive_at(&view, p)).collect() };
        match same_function(&view, &from_expr(&g), &pts, 1e-8) {
            Err(m) => return Out::fail("value", format!("simplified {g}: {m}; {info}")),
            Ok(k) => checked |= k > 0,
        }
    }
    cx.pass(checked)
}
/// Text entry points: the same answers and the same errors as reading the text first.
fn text(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new([3, 8, 14][s.us(3)], 3, FunSet::Basic);
    c.neg_lits = true;
    c.long_vars = true;
    let t = if s.chance(1, 4) { gen::poly(s, &c, 3) } else { gen::term(s, &c) };
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let st = Style { implicit: false, spaces: s.chance(1, 3), redundant: s.chance(1, 3), starstar: s.chance(1, 3) };
    let mut f = print_formula(&t, s, st);
    let o0 = options(s, 1, 1, true);
    // calls of the custom functions
    for n in &o0.funs {
        if s.chance(1, 2) {
            f = format!("{f}+{n}(x)");
        }
    }
    // now and then the text is damaged
    if s.chance(1, 6) {
        let mut v: Vec<char> = f.chars().collect();
        let k = s.us(v.len());
        match s.below(3) {
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, *s.pick(&['+', ')', '(', '*', '#', ',', '2', 'x'])),
            _ => v.truncate(k),
        }
        f = v.into_iter().collect();
    }
    let mut known: Vec<usize> = (0..VARS.len()).filter(|_| s.chance(3, 4)).collect();
    let v = s.us(4);
    if s.chance(5, 6) {
        known.retain(|k| *k != v);
    }
    let var = VARS[v];
    let names: Vec<&str> = known.iter().map(|i| VARS[*i]).collect();
    // what the text reads as
    let read = |o: &Opt, with_var: bool| -> Result<Expr, DiffError> {
        let mut k: HashSet<String> = names.iter().map(|n| n.to_string()).collect();
        k.extend(o.fixed.iter().map(|i| VARS[*i].to_string()));
        if with_var {
            k.insert(var.to_string());
        }
        let fs: HashSet<String> = o.funs.iter().map(|n| n.to_string()).collect();
        sa::parse(&f, &k, &fs, None)
    };
    let (d, n) = match read(&o0, true) {
        Ok(e) => tri!(measure(&e)),
        Err(_) => (3, 3),
    };
    let mut o = options(s, d, n, false);
    o.funs = o0.funs;
    o.fixed = o0.fixed;
    cx.show(format!("{f}; by {var}; known {names:?}; {o:?}"));
    let clash = |with_var: bool| o.funs.iter().find(|f| names.contains(f) || o.fixed.iter().any(|i| VARS[*i] == **f) || (with_var && **f == var));
    let over = |e: &Expr| -> Option<&str> {
        if o.depth.is_some_and(|m| e.max_depth() > m) {
            Some("MaxDepthExceeded")
        } else if o.nodes.is_some_and(|m| e.node_count() > m) {
            Some("MaxNodesExceeded")
        } else {
            None
        }
    };
    // differentiation
    let got = diff_of(&o, s).diff_str(&f, var, &names);
    let both = names.contains(&var) || o.fixed.contains(&v);
    let mut seen = 0;
    let want: Result<String, String> = if both {
        Err("VariableInBothFixedAndDiff".into())
    } else if clash(true).is_some() {
        Err("NameCollision".into())
    } else {
        match read(&o, true) {
            Err(e) => Err(format!("{e:?}")),
            Ok(e) => match over(&e) {
                Some(w) => Err(w.into()),
                None => {
                    let fixed: Vec<usize> = o.fixed.clone();
                    let plain = Opt { fixed, ..o.clone() };
                    diff_of(&plain, s).differentiate(&e, &sa::symb(var)).map(|d| d.to_string()).map_err(|e| format!("{e:?}"))
                }
            },
        }
    };
    let agree = |what: &str, got: &Result<String, DiffError>, want: &Result<String, String>| -> Result<(), Out> {
        match (got, want) {
            (Ok(a), Ok(b)) if a == b => Ok(()),
            // (of several colliding names any may be named)
            (Err(a), Err(b)) if kind(a) == *b || format!("{a:?}") == *b || (kind(a) == "NameCollision" && b.starts_with("NameCollision")) => Ok(()),
            _ => Err(Out::fail(what, format!("{what}: text gives {got:?}, expected {want:?}"))),
        }
    };
    tri!(agree("diff_str", &got, &want));
    cx.count(&match &want {
        Ok(_) => "diff ok".to_string(),
        Err(e) => format!("diff {}", e.split([' ', '(', '{']).next().unwrap_or("")),
    });
    seen += want.is_ok() as u32;
    // simplification
    let got = simp_of(&o, s).simplify_str(&f, &names);
    let want: Result<String, String> = if clash(false).is_some() {
        Err("NameCollision".into())
    } else {
        match read(&o, false) {
            Err(e) => Err(format!("{e:?}")),
            Ok(e) => match over(&e) {
                Some(w) => Err(w.into()),
                None => simp_of(&o, s).simplify(&e).map(|d| d.to_string()).map_err(|e| format!("{e:?}")),
            },
        }
    };
    tri!(agree("simplify_str", &got, &want));
    seen += want.is_ok() as u32;
    // the plain functions have the documented limits
    let funs = if o.funs.is_empty() && s.chance(1, 2) { None } else { Some(o.funs.as_slice()) };
    let lim = Opt { depth: Some(100), nodes: Some(10_000), funs: o.funs.clone(), order: (0..6).collect(), ..Opt::default() };
    let got = sa::diff(&f, var, &names, funs);
    let want = diff_of(&lim, s).diff_str(&f, var, &names).map_err(|e| format!("{e:?}"));
    tri!(agree("diff()", &got, &want));
    let got = sa::simplify(&f, &names, funs);
    let want = simp_of(&lim, s).simplify_str(&f, &names).map_err(|e| format!("{e:?}"));
    tri!(agree("simplify()", &got, &want));
    cx.pass(seen > 0)
}
/// diff() and simplify() at their documented limits: depth 100, 10 000 nodes.
fn documented(s: &mut Src, cx: &mut Cx) -> Out {
    let (f, what) = match s.below(3) {
        0 => {
            let k = 90 + s.us(20);
            (format!("{}x{}", "sin(".repeat(k), ")".repeat(k)), "depth")
        }
        1 => {
            let k = 40 + s.us(70);
            (format!("{}x{}", "sin(1/".repeat(k / 2), ")".repeat(k / 2)), "depth")
        }
        _ => {
            let k = 2480 + s.us(40);
            ((0..k).map(|i| format!("x^{}*y", i as f64 + 0.5)).collect::<Vec<_>>().join("+"), "nodes")
        }
    };
    let none = HashSet::<String>::new();
    let e = match sa::parse(&f, &none, &none, None) {
        Ok(e) => e,
        Err(er) => return Out::fail("parse", format!("{er:?}")),
    };
    let (d, n) = tri!(measure(&e));
    cx.show(format!("{what}: depth {d}, {n} nodes"));
    let want = if d > 100 {
        Some("MaxDepthExceeded")
    } else if n > 10_000 {
        Some("MaxNodesExceeded")
    } else {
        None
    };
    cx.count(want.unwrap_or("accepted"));
    if what == "nodes" && want.is_none() {
        // accepted: the work on it is another property's business
        return cx.pass(true);
    }
    for (name, r) in [("diff", sa::diff(&f, "t", &[], None)), ("simplify", if want.is_some() || s.chance(1, 20) { sa::simplify(&f, &[], None) } else { Ok(String::new()) })] {
        match (&r, want) {
            (Ok(_), None) => {}
            (Err(e), Some(w)) if kind(e) == w => {}
            _ => return Out::fail("documented limits", format!("{name} of an input of depth {d} with {n} nodes: {r:?}")),
        }
    }
    cx.pass(true)
}
fn spec() -> Spec {
    VARS.iter().for_each(|v| {
        let _ = sa::symb(v);
    });
    Spec::new("C24", "a random expression or formula and a random combination of options (limits drawn around its true size, fixed names, custom functions, domain safety, skipping simplification, in any order); every error expected and every acceptance is predicted from an independent count and name sets, and values are compared with the reference derivative; non-trivial: a rejection was predicted and seen, or a value was compared at a well-conditioned point")
        .stage("limits", 300_000, 6_000_000, limits)
        .stage("text", 200_000, 4_000_000, text)
        .stage("documented", 400, 4_000, documented)
}
fn main() {
    main_with(spec)
}
