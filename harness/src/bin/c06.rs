//! C06: equality, hashing and canonical order are consistent.
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vchk::*;

fn h(e: &sa::Expr) -> u64 {
    let mut d = DefaultHasher::new();
    e.hash(&mut d);
    d.finish()
}
macro_rules! tri {
    ($e:expr) => {
        if let Err(m) = $e {
            return m;
        }
    };
}
/// laws for one pair; Ok(equal)
fn pair(a: &sa::Expr, c: &sa::Expr, pts: &[Vec<f64>]) -> Result<bool, Out> {
    let (ab, ba) = (a == c, c == a);
    if ab != ba {
        return Err(Out::fail("symmetry", format!("a == b is {ab} but b == a is {ba}; a = {a}, b = {c}")));
    }
    if ab == (a != c) {
        return Err(Out::fail("ne", format!("== and != agree for {a} and {c}")));
    }
    let mut set = HashSet::new();
    set.insert(a.clone());
    if ab {
        if h(a) != h(c) {
            return Err(Out::fail("hash", format!("equal expressions hash differently: {a} and {c}")));
        }
        if a.structural_hash() != c.structural_hash() {
            return Err(Out::fail("structural hash", format!("equal expressions have different structural hashes: {a} and {c}")));
        }
        let (x, y) = (from_expr(a), from_expr(c));
        if let Err(m) = same_function(&x, &y, pts, 1e-10).and_then(|_| same_function(&y, &x, pts, 1e-10)) {
            return Err(Out::fail("equal but different", format!("{a} == {c}, but {m}")));
        }
        if !set.contains(c) {
            return Err(Out::fail("set", format!("a set holding {a} does not contain the equal {c}")));
        }
        let mut m: HashMap<sa::Expr, u8> = HashMap::new();
        m.insert(a.clone(), 1);
        m.insert(c.clone(), 2);
        if m.len() != 1 || m.get(a) != Some(&2) {
            return Err(Out::fail("map", format!("equal keys {a} and {c} give {} entries", m.len())));
        }
    } else if set.contains(c) {
        return Err(Out::fail("set", format!("a set holding {a} contains the unequal {c}")));
    }
    Ok(ab)
}
fn small(s: &mut Src, c: &Cfg) -> T {
    match s.below(4) {
        0 => gen::poly(s, c, 2),
        _ => gen::term(s, c),
    }
}
fn mutate(t: &T, s: &mut Src) -> T {
    // same or nearly the same expression in another spelling
    match t {
        Add(a, c) if s.chance(1, 2) => Add(b(mutate(c, s)), b(mutate(a, s))),
        Mul(a, c) if s.chance(1, 2) => Mul(b(mutate(c, s)), b(mutate(a, s))),
        Sub(a, c) if s.chance(1, 2) => Add(b(mutate(a, s)), b(Neg(b(mutate(c, s))))),
        Pow(a, c) if **c == Num(2.0) && s.chance(1, 2) => Mul(a.clone(), a.clone()),
        Neg(a) if s.chance(1, 2) => Mul(b(Num(-1.0)), b(mutate(a, s))),
        Num(n) if s.chance(1, 8) => match s.below(4) {
            0 => Num(n + 1.0),
            1 => Num(-n),
            2 => Num(n + 1e-12),
            _ => Add(b(Num(n - 1.0)), b(Num(1.0))),
        },
        Var(i) if s.chance(1, 16) => Var((i + 1) % 3),
        Add(a, c) => Add(b(mutate(a, s)), b(mutate(c, s))),
        Sub(a, c) => Sub(b(mutate(a, s)), b(mutate(c, s))),
        Mul(a, c) => Mul(b(mutate(a, s)), b(mutate(c, s))),
        Div(a, c) => Div(b(mutate(a, s)), b(mutate(c, s))),
        Pow(a, c) => Pow(b(mutate(a, s)), b(mutate(c, s))),
        Neg(a) => Neg(b(mutate(a, s))),
        F(f, v) => {
            if s.chance(1, 16) {
                let g = gen::pick_fun(s, FunSet::Basic).unwrap();
                if g.arity == f.arity {
                    return F(g, v.clone());
                }
            }
            F(f, v.iter().map(|x| mutate(x, s)).collect())
        }
        _ => t.clone(),
    }
}
fn laws(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new([3, 6, 10][s.us(3)], 3, FunSet::Basic);
    c.neg_lits = true;
    let t1 = small(s, &c);
    let t2 = if s.chance(1, 5) { small(s, &c) } else { mutate(&t1, s) };
    let t3 = if s.chance(1, 5) { small(s, &c) } else { mutate(&t2, s) };
    if ![&t1, &t2, &t3].iter().all(|t| gen::tame(t)) {
        return Out::Discard;
    }
    cx.show(format!("{t1} ; {t2} ; {t3}"));
    let via = |t: &T, s: &mut Src| -> Option<sa::Expr> {
        Some(match s.below(4) {
            0 => parse(&print_formula(t, s, Style { implicit: false, spaces: false, redundant: false, starstar: false })).ok()?,
            1 => {
                let e = to_expr(t, s);
                e.deep_clone()
            }
            _ => to_expr(t, s),
        })
    };
    let es: Option<Vec<sa::Expr>> = [&t1, &t2, &t3].iter().map(|t| via(t, s)).collect();
    let Some(es) = es else { return Out::Discard };
    let nan = |e: &sa::Expr| format!("{e}").contains("NaN");
    if es.iter().any(nan) {
        return Out::Discard;
    }
    let pts = points(s, 4);
    for e in &es {
        for d in [e.clone(), e.deep_clone()] {
            match pair(e, &d, &pts) {
                Err(o) => return o,
                Ok(false) => return Out::fail("clone", format!("an expression differs from its own copy: {e}")),
                Ok(true) => {}
            }
            if d.to_string() != e.to_string() {
                return Out::fail("clone", format!("a copy prints differently: {e} and {d}"));
            }
        }
    }
    let mut eq = [[true; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            match pair(&es[i], &es[j], &pts) {
                Err(o) => return o,
                Ok(v) => eq[i][j] = v,
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                if eq[i][j] && eq[j][k] && !eq[i][k] {
                    return Out::fail("transitivity", format!("{} == {} == {} but the ends differ", es[i], es[j], es[k]));
                }
            }
        }
    }
    let some = eq[0][1] || eq[1][2] || eq[0][2];
    if some {
        cx.count("equal pair");
    }
    cx.pass(some && es[0].node_count() >= 3)
}
/// combine the operands in random order
fn combine(mut v: Vec<sa::Expr>, prod: bool, s: &mut Src) -> sa::Expr {
    s.shuffle(&mut v);
    match s.below(2) {
        0 if prod => sa::Expr::product(v),
        0 => sa::Expr::sum(v),
        _ if prod => sa::Expr::product_from_arcs(v.into_iter().map(std::sync::Arc::new).collect()),
        _ => sa::Expr::sum_from_arcs(v.into_iter().map(std::sync::Arc::new).collect()),
    }
}
fn operand(s: &mut Src, c: &Cfg) -> T {
    match s.below(8) {
        0 => Num(s.range(-4, 9) as f64),
        1 | 2 => gen::var(s, c),
        3 => Pow(b(gen::var(s, c)), b(Num(s.range(2, 4) as f64))),
        4 => Mul(b(Num(s.range(-3, 5) as f64)), b(gen::var(s, c))),
        5 => F(gen::pick_fun(s, FunSet::Basic).unwrap(), vec![gen::var(s, c)]),
        6 => Mul(b(Num(s.range(2, 5) as f64)), b(Pow(b(gen::var(s, c)), b(Num(s.range(2, 3) as f64))))),
        _ => {
            let d = Cfg { size: 4, ..*c };
            gen::term(s, &d)
        }
    }
}
/// the same term but for one leaf, or for the order of some function's arguments
fn twin(t: &T, s: &mut Src) -> T {
    if let F(f, v) = t {
        if f.name == "atan2" && s.chance(1, 4) {
            return F(f, vec![v[1].clone(), v[0].clone()]);
        }
    }
    let (k, d, up) = (s.us(12), 1 + s.us(2), s.chance(1, 2));
    t.with_leaf(k, &|l| match l {
        Var(i) => Var((i + d) % 3),
        Num(n) if *n > 2.0 && !up => Num(n - 1.0),
        Num(n) => Num(n + 1.0),
        o => o.clone(),
    })
}
fn function(s: &mut Src, c: &Cfg) -> T {
    let f = gen::pick_fun(s, FunSet::All).unwrap();
    F(f, gen::fun_args(f, s, &Cfg { size: 1, ..*c }, 1))
}
/// wrap some operands into functions without a definition and formal derivatives
fn formal(es: &mut [sa::Expr], s: &mut Src) {
    if !s.chance(1, 4) {
        return;
    }
    for i in 0..es.len() {
        if s.chance(1, 2) {
            let (a, c) = (es[i].clone(), es[s.us(es.len())].clone());
            let name = *s.pick(&["uf", "ug"]);
            es[i] = match s.below(3) {
                0 => sa::Expr::func_multi(name, vec![a]),
                1 => sa::Expr::func_multi(name, vec![a, c]),
                _ => sa::Expr::derivative(sa::Expr::func_multi(name, vec![a, c]), ["x", "y"][s.us(2)], 1 + s.us(2) as u32),
            };
        }
    }
}
fn perm(s: &mut Src, cx: &mut Cx) -> Out {
    let c = Cfg::new(4, 3, FunSet::Basic);
    let n = 2 + s.us(6);
    let prod = s.chance(1, 2);
    let mut ts: Vec<T> = vec![];
    for _ in 0..n {
        let t = match s.below(8) {
            0..=3 => operand(s, &c),
            4 => function(s, &c),
            _ if ts.is_empty() => function(s, &c),
            _ => {
                let k = s.us(ts.len());
                twin(&ts[k].clone(), s)
            }
        };
        ts.push(t);
    }
    // exact arithmetic only: coefficients that merge must not round
    if ts.iter().any(|t| t.any(&|u| matches!(u, Num(x) if x.fract() != 0.0 || x.abs() > 1e4)) || const_like(t) && !matches!(t, Num(_))) || !ts.iter().all(gen::tame) {
        return Out::Discard;
    }
    cx.show(format!("{} of {}", if prod { "product" } else { "sum" }, ts.iter().map(T::to_string).collect::<Vec<_>>().join(" , ")));
    let mut es: Vec<sa::Expr> = ts.iter().map(|t| to_expr(t, s)).collect();
    formal(&mut es, s);
    let a = combine(es.clone(), prod, s);
    let z = combine(es, prod, s);
    let pts = points(s, 3);
    match pair(&a, &z, &pts) {
        Err(o) => o,
        Ok(false) => Out::fail("order", format!("two orders give unequal expressions: {a} and {z}")),
        Ok(true) if a.to_string() != z.to_string() => Out::fail("text", format!("two orders give different text: {a} and {z}")),
        Ok(true) => cx.pass(a.node_count() >= 3),
    }
}
fn lists(s: &mut Src, cx: &mut Cx) -> Out {
    perm(s, cx)
}
fn commute(s: &mut Src, cx: &mut Cx) -> Out {
    // a op b and b op a, for operands with any history
    let mut c = Cfg::new(7, 3, FunSet::Basic);
    c.neg_lits = true;
    let t = if s.chance(1, 6) { function(s, &c) } else { small(s, &c) };
    let u = match s.below(3) {
        0 => small(s, &c),
        1 => twin(&t, s),
        _ => {
            let v = twin(&t, s);
            twin(&v, s)
        }
    };
    // merged coefficients may differ in the last digit where they round
    let exact = |t: &T| !t.any(&|u| matches!(u, Num(x) if (x * 8.0).fract() != 0.0 || x.abs() > 1e3));
    if !gen::tame(&t) || !gen::tame(&u) || !exact(&t) || !exact(&u) {
        return Out::Discard;
    }
    let prod = s.chance(1, 2);
    cx.show(format!("{t} {} {u}", if prod { '*' } else { '+' }));
    let (x, y) = (to_expr(&t, s), to_expr(&u, s));
    let (a, z) = if prod { (&x * &y, &y * &x) } else { (&x + &y, &y + &x) };
    if a.to_string().contains("NaN") {
        return Out::Discard;
    }
    let pts = points(s, 3);
    match pair(&a, &z, &pts) {
        Err(o) => o,
        Ok(false) => Out::fail("commute", format!("the two orders give unequal expressions: {a} and {z}")),
        Ok(true) if a.to_string() != z.to_string() => Out::fail("text", format!("the two orders give different text: {a} and {z}")),
        Ok(true) => cx.pass(a.node_count() >= 3),
    }
}
fn spec() -> Spec {
    init_special();
    Spec::new("C06", "laws: triples of equal, nearly equal and unrelated expressions from several construction routes; non-trivial: some pair is equal and has 3 nodes. lists: the same operands summed or multiplied in two random orders; commute: a op b against b op a; non-trivial: the result has 3 nodes")
        .stage("laws", 900_000, 12_000_000, laws)
        .stage("lists", 900_000, 12_000_000, lists)
        .stage("commute", 900_000, 12_000_000, commute)
}
fn main() {
    main_with(spec)
}
