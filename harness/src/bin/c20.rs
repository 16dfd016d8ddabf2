//! C20: user-defined functions behave like their definitions.
use std::collections::HashMap;
use std::sync::Arc;
use sa::visitor::ExprView;
use sa::{CompiledEvaluator as CE, Context, DiffError, Expr, UserFunction};
use vchk::*;

const NAMES: &[&str] = &["fa", "gb", "hc", "kd"];
const P0: usize = 4; // parameters of a definition are Var(4..8)
const H0: usize = 8; // calls stand at Var(8) and Var(9)

/// A term with calls of user functions in it.
#[derive(Clone, Debug)]
struct U {
    sk: T,
    calls: Vec<(usize, Vec<U>)>,
}
#[derive(Clone, Debug)]
enum Body {
    Tpl(U),
    /// sum of the squares of however many arguments
    Squares,
}
#[derive(Clone, Debug)]
struct Def {
    lo: usize,
    hi: usize,
    body: Option<Body>,
    partial: Vec<Option<U>>,
}
type World = Vec<Option<Def>>;

fn inst(t: &T, args: &[T]) -> T {
    t.map_leaves(&|l| match l {
        Var(i) if *i >= P0 && *i < H0 && i - P0 < args.len() => args[i - P0].clone(),
        _ => l.clone(),
    })
}
fn place(t: &T, vals: &[T]) -> T {
    t.map_leaves(&|l| match l {
        Var(i) if *i >= H0 => vals[i - H0].clone(),
        _ => l.clone(),
    })
}
/// the meaning of a function that the library is not told
fn hidden(id: usize, n: usize) -> T {
    let p = |i: usize| Var(P0 + i);
    if n == 0 {
        return Num(id as f64 + 0.5);
    }
    let mut lin: Vec<T> = (0..n).map(|i| ad::mul(Num(0.3 + 0.2 * i as f64), p(i))).collect();
    lin.push(Num(id as f64 * 0.25));
    ad::add(ad::call1("sin", Sum(lin)), ad::mul(Num(0.25), ad::mul(p(0), p(n - 1))))
}
fn def<'a>(w: &'a World, id: usize, n: usize) -> Option<&'a Def> {
    w[id].as_ref().filter(|d| d.lo <= n && n <= d.hi)
}
fn body_of(w: &World, id: usize, n: usize) -> T {
    match def(w, id, n).and_then(|d| d.body.as_ref()) {
        Some(Body::Tpl(u)) => reference(u, w),
        Some(Body::Squares) => Sum((0..n).map(|i| Pow(b(Var(P0 + i)), b(Num(2.0)))).collect()),
        None => hidden(id, n),
    }
}
fn occ(t: &T, i: usize) -> f64 {
    match t {
        Var(j) if *j == i => 1.0,
        _ => t.kids().into_iter().map(|k| occ(k, i)).sum(),
    }
}
/// size of the reference term, before it is built
fn rsize(u: &U, w: &World) -> f64 {
    let mut n = u.sk.size() as f64;
    for (k, (id, args)) in u.calls.iter().enumerate() {
        let body = body_of(w, *id, args.len());
        n += occ(&u.sk, H0 + k) * (body.size() as f64 + args.iter().enumerate().map(|(i, a)| occ(&body, P0 + i) * rsize(a, w)).sum::<f64>());
    }
    n
}
fn partial_of(w: &World, id: usize, n: usize, i: usize) -> Option<T> {
    match def(w, id, n).and_then(|d| d.partial.get(i)).and_then(|p| p.as_ref()) {
        Some(u) => Some(reference(u, w)),
        None => ad::d(&body_of(w, id, n), P0 + i),
    }
}
fn reference(u: &U, w: &World) -> T {
    let vals: Vec<T> = u
        .calls
        .iter()
        .map(|(id, args)| {
            let a: Vec<T> = args.iter().map(|x| reference(x, w)).collect();
            inst(&body_of(w, *id, a.len()), &a)
        })
        .collect();
    place(&u.sk, &vals)
}
/// the chain rule over every argument
fn derivative(u: &U, v: usize, w: &World) -> Option<T> {
    let vals: Vec<T> = u
        .calls
        .iter()
        .map(|(id, args)| {
            let a: Vec<T> = args.iter().map(|x| reference(x, w)).collect();
            inst(&body_of(w, *id, a.len()), &a)
        })
        .collect();
    let mut sum = place(&ad::d(&u.sk, v)?, &vals);
    for (k, (id, args)) in u.calls.iter().enumerate() {
        let outer = place(&ad::d(&u.sk, H0 + k)?, &vals);
        let a: Vec<T> = args.iter().map(|x| reference(x, w)).collect();
        for (i, x) in args.iter().enumerate() {
            let dx = derivative(x, v, w)?;
            if dx == Num(0.0) {
                continue;
            }
            let p = inst(&partial_of(w, *id, a.len(), i)?, &a);
            // nothing is dropped: where a factor has no value, neither has the derivative
            sum = Add(b(sum), b(Mul(b(outer.clone()), b(Mul(b(p), b(dx))))));
        }
    }
    Some(sum)
}
/// every argument of every call (and its slope) has a value
fn args_ok(u: &U, w: &World, v: Option<usize>, p: &[f64]) -> bool {
    u.calls.iter().all(|(_, args)| {
        args.iter().all(|x| {
            args_ok(x, w, v, p)
                && ev(&reference(x, w), p).val().is_some()
                && match v {
                    Some(v) => derivative(x, v, w).is_some_and(|d| ev(&d, p).val().is_some()),
                    None => true,
                }
        })
    })
}
// ------------------------------------------------------------------ generation
fn rename(t: &T, n: usize, base: usize) -> T {
    t.map_leaves(&|l| match l {
        Var(i) if *i < n => Var(base + i),
        Var(i) => Var(H0 + i - n),
        _ => l.clone(),
    })
}
/// `n` variables starting at `base`; may call the functions `< funs`
fn gen_u(s: &mut Src, w: &World, funs: usize, n: usize, base: usize, max: usize, depth: usize, set: FunSet) -> U {
    let size = 1 + s.us(max);
    let ncalls = if funs == 0 || depth == 0 { 0 } else { s.weighted(&[1, 4, 3]) };
    let ncalls = if base == 0 && depth == 3 { ncalls.max(1) } else { ncalls };
    let mut c = Cfg::new(size, n + ncalls, set);
    c.neg_lits = true;
    let mut sk = if s.chance(1, 5) { gen::poly(s, &c, size.min(3)) } else { gen::term(s, &c) };
    for k in 0..ncalls {
        if !sk.varset().contains(&(n + k)) {
            let h = Var(n + k);
            sk = match s.below(4) {
                0 => Mul(b(sk), b(h)),
                1 => Sub(b(h), b(sk)),
                2 => Add(b(Pow(b(h), b(Num(2.0)))), b(sk)),
                _ => Add(b(sk), b(h)),
            };
        }
    }
    let sk = rename(&sk, n, base);
    let calls = (0..ncalls)
        .map(|_| {
            let id = s.us(funs);
            let k = match &w[id] {
                Some(d) if s.chance(7, 8) => d.lo + s.us(d.hi.min(4) + 1 - d.lo),
                _ => 1 + s.us(4),
            };
            (id, (0..k).map(|_| gen_u(s, w, funs, n, base, 4, depth - 1, set)).collect())
        })
        .collect();
    U { sk, calls }
}
fn world(s: &mut Src, set: FunSet, consistent: bool, bodies: bool) -> World {
    let mut w: World = vec![None; NAMES.len()];
    for id in 0..NAMES.len() {
        if s.chance(1, 6) {
            continue;
        }
        let lo = if s.chance(1, 4) { 4 } else { 1 + s.us(3) };
        let hi = if s.chance(1, 6) { (lo + s.us(2)).min(4) } else { lo };
        let mut d = Def { lo, hi, body: None, partial: vec![None; 4] };
        if bodies || s.chance(3, 4) {
            let deep = s.us(2);
            d.body = Some(if s.chance(1, 10) {
                d.hi = 4;
                Body::Squares
            } else {
                let u = gen_u(s, &w, id, lo, P0, 5, deep, set);
                Body::Tpl(if rsize(&u, &w) > 150.0 { U { sk: Pow(b(Var(P0)), b(Num(2.0))), calls: vec![] } } else { u })
            });
        }
        w[id] = Some(d);
        for i in 0..lo {
            if !s.chance(2, 3) {
                continue;
            }
            let deep = if s.chance(1, 4) { 1 } else { 0 };
            let p = if consistent {
                let d = w[id].as_ref().unwrap();
                // one template must serve every accepted count
                if d.lo != d.hi {
                    continue;
                }
                match ad::d(&body_of(&w, id, lo), P0 + i) {
                    Some(t) => U { sk: t, calls: vec![] },
                    None => continue,
                }
            } else {
                gen_u(s, &w, id, lo, P0, 4, deep, set)
            };
            if rsize(&p, &w) > 150.0 {
                continue;
            }
            w[id].as_mut().unwrap().partial[i] = Some(p);
        }
    }
    w
}
// ------------------------------------------------------------------ library objects
fn build(t: &T, leaf: &dyn Fn(usize) -> Expr) -> Expr {
    let g = |t: &T| build(t, leaf);
    match t {
        Num(n) => Expr::number(*n),
        Var(i) => leaf(*i),
        Pi => Expr::symbol("pi"),
        E => Expr::symbol("e"),
        Opaque(n) => Expr::symbol(n),
        Neg(a) => g(a).negate(),
        Add(a, c) => Expr::add_expr(g(a), g(c)),
        Sub(a, c) => Expr::sub_expr(g(a), g(c)),
        Mul(a, c) => Expr::mul_expr(g(a), g(c)),
        Div(a, c) => Expr::div_expr(g(a), g(c)),
        Pow(a, c) => Expr::pow_static(g(a), g(c)),
        Sum(v) => Expr::sum(v.iter().map(g).collect()),
        Prod(v) => Expr::product(v.iter().map(g).collect()),
        F(f, v) => Expr::func_multi(f.name, v.iter().map(g).collect()),
    }
}
fn build_u(u: &U, args: &[Arc<Expr>]) -> Expr {
    build(&u.sk, &|i| {
        if i >= H0 {
            let (id, a) = &u.calls[i - H0];
            let xs: Vec<Expr> = a.iter().map(|x| build_u(x, args)).collect();
            if xs.len() == 1 {
                Expr::func(NAMES[*id], xs.into_iter().next().unwrap())
            } else {
                Expr::func_multi(NAMES[*id], xs)
            }
        } else if i >= P0 && !args.is_empty() {
            (*args[i - P0]).clone()
        } else {
            Expr::symbol(VARS[i])
        }
    })
}
fn text_u(u: &U, s: &mut Src) -> String {
    let st = Style { implicit: false, spaces: s.chance(1, 4), redundant: s.chance(1, 4), starstar: s.chance(1, 4) };
    let mut t = print_formula(&u.sk, s, st);
    for (k, (id, args)) in u.calls.iter().enumerate() {
        let a: Vec<String> = args.iter().map(|x| text_u(x, s)).collect();
        t = t.replace(VARS[H0 + k], &format!("@{k}@({})", a.join(if s.chance(1, 3) { ", " } else { "," })));
        t = t.replace(&format!("@{k}@"), NAMES[*id]);
    }
    t
}
fn user_fn(d: &Def) -> UserFunction {
    let mut f = if matches!(d.body, Some(Body::Squares)) && d.lo == 1 && d.hi == 4 { UserFunction::new(1..=4) } else { UserFunction::new(d.lo..=d.hi) };
    match &d.body {
        Some(Body::Tpl(u)) => {
            let u = u.clone();
            f = f.body(move |a| build_u(&u, a));
        }
        Some(Body::Squares) => f = f.body(|a| Expr::sum(a.iter().map(|x| (**x).clone().pow(2.0)).collect())),
        None => {}
    }
    for (i, p) in d.partial.iter().enumerate() {
        if let Some(u) = p {
            let u = u.clone();
            f = f.partial(i, move |a| build_u(&u, a)).expect("partial within the arity");
        }
    }
    f
}
/// The context of the world, with definitions that are replaced or removed on the way.
fn context(w: &World, s: &mut Src) -> Context {
    let mut c = Context::new();
    if s.chance(1, 2) {
        c = c.with_symbols(VARS.iter().copied());
    }
    let mut order: Vec<usize> = (0..NAMES.len()).collect();
    s.shuffle(&mut order);
    for id in order {
        if s.chance(1, 6) {
            c = c.with_function(NAMES[id], UserFunction::new(1..=2).body(|a| Expr::number(77.0) * (*a[0]).clone()));
            if w[id].is_none() || s.chance(1, 2) {
                c.remove_function(NAMES[id]);
            }
        }
        if let Some(d) = &w[id] {
            c = c.with_function(NAMES[id], user_fn(d));
        }
    }
    c
}
fn expr(u: &U, w: &World, c: &Context, s: &mut Src, cx: &mut Cx) -> Result<Expr, Out> {
    let declared = |u: &U| -> bool {
        fn go(u: &U, w: &World) -> bool {
            u.calls.iter().all(|(id, a)| w[*id].is_some() && a.iter().all(|x| go(x, w)))
        }
        go(u, w)
    };
    if s.chance(1, 2) {
        let t = text_u(u, s);
        cx.show(format!("text: {t}"));
        // names that the context does not declare are given to the parser
        let fs: std::collections::HashSet<String> = NAMES.iter().map(|n| n.to_string()).collect();
        let none = std::collections::HashSet::new();
        let r = if declared(u) && s.chance(2, 3) { sa::parse(&t, &known(), &none, Some(c)) } else { sa::parse(&t, &known(), &fs, Some(c)) };
        r.map_err(|e| Out::fail("parse", format!("{t} does not parse: {e:?}")))
    } else {
        let e = build_u(u, &[]);
        cx.show(format!("built: {e}"));
        Ok(e)
    }
}
// ------------------------------------------------------------------ reading results
fn arg_index(n: &str) -> Option<usize> {
    n.strip_prefix("arg").and_then(|k| k.parse().ok())
}
/// f(args) or a formal derivative of it by its arguments: template and arguments
fn template(e: &Expr, w: &World) -> Option<(T, Vec<T>, Option<(usize, usize)>)> {
    match e.view() {
        ExprView::Function { name, args } => {
            let id = NAMES.iter().position(|n| *n == &*name)?;
            let a: Option<Vec<T>> = args.iter().map(|x| interp(x, w)).collect();
            Some((body_of(w, id, args.len()), a?, Some((id, args.len()))))
        }
        ExprView::Derivative { inner, var, order } => {
            let k = arg_index(&var)?;
            let (mut t, a, plain) = template(&inner, w)?;
            let mut o = order;
            if let Some((id, n)) = plain {
                t = partial_of(w, id, n, k)?;
                o -= 1;
            }
            for _ in 0..o {
                t = ad::d(&t, P0 + k)?;
            }
            Some((t, a, None))
        }
        _ => None,
    }
}
fn interp(e: &Expr, w: &World) -> Option<T> {
    let all = |v: &[Arc<Expr>]| -> Option<Vec<T>> { v.iter().map(|x| interp(x, w)).collect() };
    Some(match e.view() {
        ExprView::Number(n) => Num(n),
        ExprView::Symbol(_) => from_expr(e),
        ExprView::Function { name, args } => {
            let a = all(&args)?;
            match (fun(&name), NAMES.iter().position(|n| *n == &*name)) {
                (Some(f), _) if f.arity == a.len() => F(f, a),
                (None, Some(id)) => inst(&body_of(w, id, a.len()), &a),
                _ => Opaque(format!("{e}")),
            }
        }
        ExprView::Sum(v) => Sum(all(&v)?),
        ExprView::Product(v) => Prod(all(&v)?),
        ExprView::Div(a, c) => Div(b(interp(&a, w)?), b(interp(&c, w)?)),
        ExprView::Pow(a, c) => Pow(b(interp(&a, w)?), b(interp(&c, w)?)),
        ExprView::Derivative { inner, var, order } => match arg_index(&var) {
            Some(_) => match template(e, w) {
                Some((t, a, _)) => inst(&t, &a),
                None => Opaque(format!("{e}")),
            },
            None => {
                let mut t = interp(&inner, w)?;
                for _ in 0..order {
                    t = ad::d(&t, var_index(&var)?)?;
                }
                t
            }
        },
    })
}
#[derive(Default, Debug)]
struct Left {
    /// a formal call or derivative stands where compiling must reach it
    formal: bool,
    body: bool,
    /// everything reachable has a body
    pure: bool,
}
fn pure(u: &U, w: &World) -> bool {
    u.calls.iter().all(|(id, a)| {
        def(w, *id, a.len()).is_some_and(|d| match &d.body {
            Some(Body::Tpl(t)) => pure(t, w),
            Some(Body::Squares) => true,
            None => false,
        }) && a.iter().all(|x| pure(x, w))
    })
}
fn left(e: &Expr, w: &World, l: &mut Left) {
    match e.view() {
        ExprView::Function { name, args } => {
            if let Some(id) = NAMES.iter().position(|n| *n == &*name) {
                match def(w, id, args.len()) {
                    Some(d) if d.body.is_some() => l.body = true,
                    _ => l.formal = true,
                }
            }
            args.iter().for_each(|a| left(a, w, l));
        }
        ExprView::Derivative { .. } => l.formal = true,
        ExprView::Sum(v) | ExprView::Product(v) => v.iter().for_each(|a| left(a, w, l)),
        ExprView::Div(a, c) | ExprView::Pow(a, c) => {
            left(&a, w, l);
            left(&c, w, l);
        }
        _ => {}
    }
}
/// meaning of an expression of the library; a formal function left over where none may be is an error
fn meaning(e: &Expr, w: &World, what: &str) -> Result<Option<T>, Out> {
    match interp(e, w) {
        None => Ok(None),
        Some(t) => match opaque_in(&t) {
            Some(o) => Err(Out::fail("meaningless", format!("{what} contains {o}, which denotes nothing: {e}"))),
            None => Ok(Some(t)),
        },
    }
}
fn fits(t: &T) -> bool {
    gen::tame(t) && t.size() < 6000
}
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return m,
        }
    };
}
fn show(w: &World, s: &U) -> String {
    let mut o = String::new();
    for (id, d) in w.iter().enumerate() {
        if let Some(d) = d {
            let body = match &d.body {
                Some(Body::Tpl(u)) => line(u),
                Some(Body::Squares) => "squares".into(),
                None => "none".into(),
            };
            let p: Vec<String> = d.partial.iter().enumerate().filter_map(|(i, p)| p.as_ref().map(|p| format!("d{i}={}", line(p)))).collect();
            o.push_str(&format!("{}[{}..{}]: {body} {}; ", NAMES[id], d.lo, d.hi, p.join(" ")));
        }
    }
    format!("{o}| {}", line(s))
}
fn line(u: &U) -> String {
    let mut t = u.sk.to_string();
    for (k, (id, a)) in u.calls.iter().enumerate() {
        let x: Vec<String> = a.iter().map(line).collect();
        t = t.replace(VARS[H0 + k], &format!("{}({})", NAMES[*id], x.join(", ")));
    }
    t
}
fn values(s: &mut Src, cx: &mut Cx) -> Out {
    let set = *s.pick(&[FunSet::None, FunSet::Basic, FunSet::Elem]);
    let bodies = s.chance(2, 3);
    let w = world(s, set, false, bodies);
    let u = gen_u(s, &w, NAMES.len(), 4, 0, 6, 3, set);
    if rsize(&u, &w) > 3000.0 {
        return Out::Discard;
    }
    let r = reference(&u, &w);
    if !fits(&r) {
        return Out::Discard;
    }
    cx.show(show(&w, &u));
    let c = context(&w, s);
    let e = tri!(expr(&u, &w, &c, s, cx));
    let pts = points(s, 4);
    // built expression
    let m = match tri!(meaning(&e, &w, "the expression")) {
        Some(t) => t,
        None => return Out::Discard,
    };
    if let Err(x) = same_function(&r, &m, &pts, 1e-9) {
        return Out::fail("expression", x);
    }
    let mut n = 0;
    // compiled
    let mut l = Left::default();
    left(&e, &w, &mut l);
    l.pure = pure(&u, &w);
    match CE::compile(&e, &VARS[..4], Some(&c)) {
        Ok(ce) => {
            if l.formal && !l.body {
                return Out::fail("compiled formal", format!("{e} has a function without a value, but compiles"));
            }
            cx.count("compiled");
            for p in &pts {
                let got = ce.evaluate(&p[..4]);
                if let Ev::Val(x) = ev(&r, p) {
                    if !matches!(close(x, x, 1e-9), Cmp::Same) {
                        continue;
                    }
                    n += 1;
                    if !got.is_finite() {
                        return Out::fail("compiled value", format!("at {}: expected {:e}, compiled {got}", gen::show_point(p, &r.varset()), x.v));
                    }
                    if let Cmp::Differ(m) = close(x, Ball { v: got, e: x.e }, 1e-9) {
                        return Out::fail("compiled value", format!("at {}: {m}", gen::show_point(p, &r.varset())));
                    }
                }
            }
        }
        Err(DiffError::UnsupportedFunction(_)) if !l.pure => cx.count("compile error"),
        Err(er) => return Out::fail("compile", format!("{e} does not compile: {er:?}")),
    }
    // simplified
    let safe = s.chance(3, 4);
    let b1 = sa::Simplify::new().domain_safe(safe);
    let b2 = if s.chance(2, 3) {
        b1.with_context(&c)
    } else {
        w.iter().enumerate().fold(b1, |a, (id, d)| match d {
            Some(d) => a.user_fn(NAMES[id], user_fn(d)),
            None => a,
        })
    };
    let g = match b2.simplify(&e) {
        Ok(g) => g,
        Err(er) => return Out::fail("simplify", format!("simplify failed: {er:?}")),
    };
    let mut lg = Left::default();
    left(&g, &w, &mut lg);
    if lg.body {
        return Out::fail("not expanded", format!("simplified to {g}, where a function with a body is left"));
    }
    if let Some(t) = tri!(meaning(&g, &w, "the simplified expression")) {
        let pts: Vec<Vec<f64>> = if safe { points(s, 5) } else { pos_points(s, 6).into_iter().filter(|p| positive_at(&r, p)).collect() };
        match same_function(&r, &t, &pts, 1e-8) {
            Err(x) => return Out::fail("simplified", format!("{x}; simplified (safe: {safe}) to {g}")),
            Ok(k) => n += k,
        }
    }
    // evaluated with the functions as closures, all or some variables bound
    type Eval = Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>;
    let mut ce: HashMap<String, Eval> = HashMap::new();
    for id in 0..NAMES.len() {
        if let Some(d) = &w[id] {
            if d.body.is_some() && d.lo == d.hi {
                let (t, k) = (body_of(&w, id, d.lo), d.lo);
                ce.insert(
                    NAMES[id].to_string(),
                    Arc::new(move |a: &[f64]| {
                        if a.len() != k {
                            return None;
                        }
                        let mut env = vec![f64::NAN; VARS.len()];
                        env[P0..P0 + k].copy_from_slice(a);
                        ev(&t, &env).val().map(|x| x.v)
                    }),
                );
            }
        }
    }
    let p = &pts[0];
    let bound: Vec<usize> = (0..4).filter(|_| s.chance(5, 6)).collect();
    let map: HashMap<&str, f64> = bound.iter().map(|i| (VARS[*i], p[*i])).collect();
    let g = e.evaluate(&map, &ce);
    if let Some(t) = tri!(meaning(&g, &w, "the evaluated expression")) {
        let pts: Vec<Vec<f64>> = pts
            .iter()
            .map(|q| {
                let mut q = q.clone();
                bound.iter().for_each(|i| q[*i] = p[*i]);
                q
            })
            .collect();
        // the closures round on their own: a looser floor
        if let Err(x) = same_function(&r, &t, &pts, 1e-7) {
            return Out::fail("evaluated", format!("{x}; evaluated to {g}"));
        }
    }
    cx.pass(n > 0)
}
fn diff_with(e: &Expr, v: usize, w: &World, c: &Context, s: &mut Src) -> Result<(Expr, bool), Out> {
    let skip = s.chance(1, 2);
    let safe = s.chance(3, 4);
    let d = sa::Diff::new().skip_simplification(skip).domain_safe(safe);
    let d = if s.chance(2, 3) {
        d.with_context(c)
    } else {
        w.iter().enumerate().fold(d, |a, (id, d)| match d {
            Some(d) => a.user_fn(NAMES[id], user_fn(d)),
            None => a,
        })
    };
    match d.differentiate(e, &sa::symb(VARS[v])) {
        Ok(g) => Ok((g, safe || skip)),
        Err(er) => Err(Out::fail("diff", format!("differentiation failed: {er:?}"))),
    }
}
fn chain(s: &mut Src, cx: &mut Cx) -> Out {
    let set = *s.pick(&[FunSet::None, FunSet::Basic, FunSet::Smooth]);
    let w = world(s, set, false, false);
    let u = gen_u(s, &w, NAMES.len(), 4, 0, 5, 3, set);
    let v = s.us(4);
    if rsize(&u, &w) > 400.0 {
        return Out::Discard;
    }
    let Some(r) = derivative(&u, v, &w) else { return Out::Discard };
    if !fits(&r) || !gen::tame(&reference(&u, &w)) {
        return Out::Discard;
    }
    cx.show(format!("{}; by {}", show(&w, &u), VARS[v]));
    let c = context(&w, s);
    let e = tri!(expr(&u, &w, &c, s, cx));
    let (g, safe) = tri!(diff_with(&e, v, &w, &c, s));
    let t = match tri!(meaning(&g, &w, "the derivative")) {
        Some(t) => t,
        None => return Out::Discard,
    };
    let f = reference(&u, &w);
    let pts: Vec<Vec<f64>> = if safe { points(s, 6) } else { pos_points(s, 6) };
    // only where the function itself has a value (and, for default simplification, positive bases)
    let pts: Vec<Vec<f64>> = pts.into_iter().filter(|p| ev(&f, p).val().is_some() && args_ok(&u, &w, Some(v), p) && (safe || (positive_at(&r, p) && positive_at(&f, p)))).collect();
    match same_function(&r, &t, &pts, 1e-8) {
        Err(x) => Out::fail("derivative", format!("{x}; derivative {g}")),
        Ok(n) => cx.pass(n > 0 && u.calls.len() > 0 && !matches!(r, Num(_))),
    }
}
fn second(s: &mut Src, cx: &mut Cx) -> Out {
    let set = *s.pick(&[FunSet::None, FunSet::Smooth]);
    let w = world(s, set, true, false);
    let u = gen_u(s, &w, NAMES.len(), 3, 0, 3, 2, set);
    let (v1, v2) = (s.us(3), s.us(3));
    if rsize(&u, &w) > 150.0 {
        return Out::Discard;
    }
    let f = reference(&u, &w);
    if !fits(&f) {
        return Out::Discard;
    }
    let Some(r) = ad::d(&f, v1).and_then(|t| ad::d(&t, v2)) else { return Out::Discard };
    if !fits(&r) {
        return Out::Discard;
    }
    cx.show(format!("{}; by {} and {}", show(&w, &u), VARS[v1], VARS[v2]));
    let c = context(&w, s);
    let e = tri!(expr(&u, &w, &c, s, cx));
    let (g1, s1) = tri!(diff_with(&e, v1, &w, &c, s));
    let (g, s2) = tri!(diff_with(&g1, v2, &w, &c, s));
    let safe = s1 && s2;
    let t = match tri!(meaning(&g, &w, "the second derivative")) {
        Some(t) => t,
        None => return Out::Discard,
    };
    let pts: Vec<Vec<f64>> = if safe { points(s, 6) } else { pos_points(s, 6) };
    let pts: Vec<Vec<f64>> = pts.into_iter().filter(|p| ev(&f, p).val().is_some() && args_ok(&u, &w, Some(v1), p) && args_ok(&u, &w, Some(v2), p) && (safe || (positive_at(&r, p) && positive_at(&f, p)))).collect();
    // a formal slope that is zero may multiply something without a value
    let pts: Vec<Vec<f64>> = pts.into_iter().filter(|p| !matches!(ev(&t, p), Ev::Undef)).collect();
    match same_function(&r, &t, &pts, 1e-7) {
        Err(x) => Out::fail("second derivative", format!("{x}; first {g1}; second {g}")),
        Ok(n) => cx.pass(n > 0 && r != Num(0.0)),
    }
}
/// Definitions that call themselves or one another: every operation returns; compiling is an error.
fn recursive(s: &mut Src, cx: &mut Cx) -> Out {
    let kind = s.below(3);
    let k = 1.0 + s.us(3) as f64;
    let c = Context::new();
    let c = match kind {
        0 => c.with_function("fa", UserFunction::new(1..=1).body(move |a| Expr::func("fa", (*a[0]).clone() - 1.0) * k)),
        1 => c
            .with_function("fa", UserFunction::new(1..=1).body(move |a| Expr::func("gb", (*a[0]).clone() * k) + 1.0))
            .with_function("gb", UserFunction::new(1..=1).body(|a| Expr::func("fa", (*a[0]).clone()) * 2.0)),
        _ => c.with_function("fa", UserFunction::new(1..=1).body(move |a| Expr::func("fa", (*a[0]).clone()) + k)),
    };
    let e = Expr::func("fa", gen_u(s, &vec![None; 4], 0, 2, 0, 3, 0, FunSet::Basic).sk.clone().pipe(|t| to_expr_plain(&t)));
    cx.show(format!("{kind} {e}"));
    if CE::compile(&e, &VARS[..4], Some(&c)).is_ok() {
        return Out::fail("recursive", "a function defined by itself compiles");
    }
    match sa::Diff::new().with_context(&c).skip_simplification(true).differentiate(&e, &sa::symb("x")) {
        Ok(_) => cx.pass(true),
        Err(er) => Out::fail("recursive", format!("differentiation failed: {er:?}")),
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for T {}
fn spec() -> Spec {
    VARS.iter().for_each(|v| {
        let _ = sa::symb(v);
    });
    Spec::new("C20", "up to four definitions (random bodies over 1-4 parameters that call earlier ones, variadic ones, some without a body or without partials, some undeclared, some declared twice or removed) and a random expression with nested calls of them (some with a wrong number of arguments); non-trivial: at least one well-conditioned point was compared and, for derivatives, the derivative is not zero")
        .stage("values", 150_000, 6_000_000, values)
        .stage("chain", 150_000, 6_000_000, chain)
        .stage("second", 50_000, 2_000_000, second)
        .stage("recursive", 2_000, 20_000, recursive)
}
fn main() {
    main_with(spec)
}
