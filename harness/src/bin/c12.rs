//! C12: simplification terminates, stays small and gives a reproducible answer.
use vchk::*;

/// How the simplifier is called: with or without domain-safe mode, on text or on an expression.
fn simp(f: &str, how: u64) -> Result<String, String> {
    let r = match how {
        0 => sa::simplify(f, VARS, None),
        1 => sa::Simplify::new().simplify_str(f, VARS),
        2 => sa::Simplify::new().domain_safe(true).simplify_str(f, VARS),
        3 => parse(f).and_then(|e| sa::Simplify::new().simplify(&e)).map(|e| e.to_string()),
        4 => parse(f).and_then(|e| sa::Simplify::new().domain_safe(true).simplify(&e)).map(|e| e.to_string()),
        _ => sa::diff(f, "x", &VARS[1..], None),
    };
    r.map_err(|e| format!("{e:?}"))
}
const HOW: [&str; 6] = ["simplify", "simplify_str", "domain-safe simplify_str", "Simplify::simplify", "domain-safe Simplify::simplify", "diff"];

/// A long name; all of these begin alike.
fn long(name: &str) -> String {
    format!("quantity_number_{name}")
}
/// The formula with long names for all its variables but x.
fn long_names(f: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in f.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        out.push_str(&if word != "x" && VARS.contains(&word.as_str()) { long(&word) } else { word.clone() });
        word.clear();
        out.push(c);
    }
    out.trim_end().to_string()
}
/// Something else happens in the process.
fn disturb(s: &mut Src, log: &mut String) {
    match s.below(7) {
        0 => {
            let f = simp::shape_formula(s, FunSet::Elem);
            log.push_str(&format!(" simplify {f};"));
            let h = s.below(5);
            let _ = simp(&f, h);
        }
        1 => {
            let f = simp::shape_formula(s, FunSet::Basic);
            log.push_str(&format!(" diff {f};"));
            let _ = simp(&f, 5);
        }
        2 | 3 => {
            // the variables are made anew, in another order
            let mut v: Vec<&str> = VARS.to_vec();
            s.shuffle(&mut v);
            let keep = s.below(4);
            log.push_str(&format!(" remove and recreate {v:?};"));
            for n in VARS {
                if keep != 0 || s.chance(1, 2) {
                    sa::remove_symbol(n);
                }
            }
            for n in v {
                let _ = sa::symb(n);
                sa::remove_symbol(&long(n));
                let _ = sa::symb(&long(n));
            }
        }
        4 => {
            let n = format!("n{}", s.below(1000));
            log.push_str(&format!(" create {n};"));
            let _ = sa::symb(&n);
        }
        5 => {
            let c = Cfg::new(8, 4, FunSet::Elem);
            let t = gen::term(s, &c);
            log.push_str(&format!(" build {t};"));
            let e = to_expr(&t, s);
            let _ = e.evaluate(&env_map(&gen::point(s)), &std::collections::HashMap::new());
        }
        _ => {
            log.push_str(" clear_symbols;");
            sa::clear_symbols();
        }
    }
}
/// nested fractions, powers and products that invite repeated expansion
fn nest(s: &mut Src) -> String {
    let base = |s: &mut Src| s.pick(&["x", "y", "z", "t", "2", "alpha", "sin(x)", "x^2", "sqrt(y)", "exp(z)", "3"]).to_string();
    let mut f = base(s);
    let fixed = s.chance(1, 2);
    let mut kinds = vec![];
    for _ in 0..(1 + s.us(3)) {
        kinds.push((s.below(14), base(s), base(s)));
    }
    for i in 0..(2 + s.us(30)) {
        let (k, a, c) = if fixed { kinds[i % kinds.len()].clone() } else { (s.below(14), base(s), base(s)) };
        f = match k {
            0 => format!("1/({a}+{f})"),
            1 => format!("{a}/({c}+{f})"),
            2 => format!("{a}+{c}/({f})"),
            3 => format!("({f})*({a}+{c})"),
            4 => format!("({a}-{f})^2"),
            5 => format!("sqrt({a}+{f})"),
            6 => format!("({f})/({a})+{c}"),
            7 => format!("({f}+{a})*({f})"),
            8 => format!("{a}-({c}-({f}))"),
            9 => format!("({f})/({a}/{c})"),
            10 => format!("exp({f})*exp({a})"),
            11 => format!("ln({a}*({f}))"),
            12 => format!("({f})^{}", 2 + i % 2),
            _ => format!("({f})*{a}+{c}"),
        };
        if f.len() > 1500 {
            break;
        }
    }
    f
}
fn formula(s: &mut Src, kind: u64) -> Option<String> {
    let f = match kind {
        0 => simp::shape_formula(s, FunSet::Basic),
        1 => simp::shape_formula(s, FunSet::Elem),
        2 => {
            let mut c = Cfg::new(if s.chance(1, 3) { 20 } else { 9 }, 4, FunSet::Elem);
            c.neg_lits = true;
            let t = gen::term(s, &c);
            if !gen::tame(&t) {
                return None;
            }
            print_formula(&t, s, Style { implicit: false, spaces: true, redundant: false, starstar: false })
        }
        3 => {
            // many terms over several bases: order of collection matters
            let mut c = Cfg::new(4, 6, FunSet::Basic);
            c.long_vars = s.chance(1, 2);
            let k = 2 + s.us(8);
            let op = *s.pick(&["+", "*", "-"]);
            let v: Vec<String> = (0..k)
                .map(|_| {
                    let t = if s.chance(1, 2) { gen::poly(s, &c, 2) } else { gen::term(s, &c) };
                    format!("({})", print_formula(&t, s, Style { implicit: false, spaces: false, redundant: false, starstar: false }))
                })
                .collect();
            v.join(op)
        }
        _ => nest(s),
    };
    Some(f)
}
fn repro(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.below(4);
    let Some(mut f) = formula(s, k) else { return Out::Discard };
    if s.chance(1, 5) {
        f = long_names(&f);
    }
    cx.show(f.clone());
    let how = s.below(6);
    let first = simp(&f, how);
    cx.count(HOW[how as usize]);
    let mut log = String::new();
    let rounds = 1 + s.us(3);
    for _ in 0..rounds {
        for _ in 0..s.us(4) {
            disturb(s, &mut log);
        }
        let again = if s.chance(1, 12) {
            let g = f.clone();
            log.push_str(" on another thread:");
            std::thread::spawn(move || simp(&g, how)).join().unwrap_or_else(|_| Err("panic".into()))
        } else {
            simp(&f, how)
        };
        if again != first {
            return Out::fail("text", format!("{} gave first {first:?}, then{log} {again:?}", HOW[how as usize]));
        }
        log.push_str(" again;");
    }
    cx.note(log);
    cx.pass(first.as_ref().map(|r| r != &f).unwrap_or(false))
}
/// Size, without the factors (1+exp(n)) that exp(2^k n)-1 splits into.
fn effective(t: &T) -> usize {
    let k = std::cell::Cell::new(0usize);
    t.any(&|u| {
        if matches!(u, F(_, a) if a.len() == 1 && matches!(a[0], Num(_))) {
            k.set(k.get() + 1);
        }
        false
    });
    t.size() - (9 * k.get()).min(t.size())
}
fn bounded(s: &mut Src, cx: &mut Cx) -> Out {
    let k = s.weighted(&[2, 2, 2, 2, 6]) as u64;
    let Some(f) = formula(s, k) else { return Out::Discard };
    cx.show(f.clone());
    let Ok(e) = parse(&f) else { return Out::Discard };
    let safe = s.chance(1, 2);
    let how = sa::Simplify::new().domain_safe(safe);
    let g = match how.simplify(&e) {
        Ok(g) => g,
        Err(er) => return Out::fail("error", format!("simplification failed: {er:?}")),
    };
    let (n, m) = (from_expr(&e).size(), effective(&from_expr(&g)));
    if m > 25 * n + 400 {
        return Out::fail("size", format!("{n} nodes became {m}: {g}"));
    }
    if std::env::var("SHOW_RATIO").is_ok() && m > n + n / 2 + 10 {
        eprintln!("RATIO {:.2} {n} {m} {f}", m as f64 / n as f64);
    }
    let orig = e.variables();
    for v in g.variables() {
        if !orig.contains(&v) && v != "e" && v != "pi" {
            return Out::fail("variable", format!("the result mentions {v}: {g}"));
        }
    }
    let h = match how.simplify(&g) {
        Ok(h) => h,
        Err(er) => return Out::fail("error", format!("simplifying the result {g} failed: {er:?}")),
    };
    let (a, c) = (from_expr(&g), from_expr(&h));
    if effective(&c) > 5 * m + 400 {
        return Out::fail("size", format!("simplified {g} ({m} nodes) became {} when simplified again: {h}", c.size()));
    }
    if !gen::tame(&a) || a.size() > 3000 {
        return cx.pass(false);
    }
    let pts: Vec<Vec<f64>> = if safe { points(s, 4) } else { pos_points(s, 4).into_iter().filter(|p| positive_at(&a, p)).collect() };
    match same_function(&a, &c, &pts, 1e-8) {
        Err(m) => Out::fail("second", format!("{m}; simplified {g}, again {h}")),
        Ok(k) => {
            if a != c {
                cx.count("changed again");
            }
            cx.pass(k > 0)
        }
    }
}
fn spec() -> Spec {
    let mut sp = Spec::new("C12", "a rule shape, random term, many-term sum or product, or nested fraction/power; the same text is simplified (or differentiated) again after random other work, after its variables were removed and recreated in another order, and on another thread; the size, the variables and the value of a second simplification are compared; non-trivial: the result differs from the formula (reproduction), at least one well-conditioned point (second simplification)")
        .stage("reproducible", 250_000, 4_000_000, repro)
        .stage("bounded", 300_000, 5_000_000, bounded);
    sp.cpu_limit = 20;
    sp
}
fn main() {
    main_with(spec)
}
