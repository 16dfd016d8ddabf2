//! C22: several contexts and the global registry, driven by random histories, against plain sets and maps.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use symb_anafis::{Context, Expr, UserFunction};
use vchk::*;

// no name is a prefix of another one; none contains e, i or pi
const SYMS: &[&str] = &["ab", "cd", "xy", "uvw", "zk", "Tmax", "s_0", "x", "y", "a"];
const FUNS: &[&str] = &["fn", "gh", "Hf"];

#[derive(Clone, PartialEq)]
enum Def {
    Name,
    /// body a*arg + b
    Body(f64, f64),
}
struct Model {
    ctx: Option<Context>,
    syms: BTreeMap<String, u64>,
    funs: BTreeMap<String, Def>,
}
fn val(name: &str) -> f64 {
    1.25 + (hash_str(name) % 64) as f64 / 32.0
}
/// values for every name the expression uses (and some more)
fn env(e: &Expr) -> HashMap<String, f64> {
    let mut m: HashMap<String, f64> = SYMS.iter().map(|n| (n.to_string(), val(n))).collect();
    for n in e.variables() {
        let v = val(&n);
        m.insert(n, v);
    }
    m
}
/// The names a run of letters stands for: a declared name is kept whole, also at the front of a
/// longer run; None if two declared names could be taken.
fn words(m: &Model, n: &str) -> Option<Vec<String>> {
    if m.syms.contains_key(n) {
        return Some(vec![n.to_string()]);
    }
    let pre: Vec<&String> = m.syms.keys().filter(|p| n.starts_with(p.as_str())).collect();
    match pre.len() {
        0 => Some(vec![n.to_string()]),
        1 => {
            let mut v = vec![pre[0].clone()];
            v.extend(words(m, &n[pre[0].len()..])?);
            Some(v)
        }
        _ => None,
    }
}
fn word(m: &Model, n: &str) -> f64 {
    words(m, n).unwrap().iter().map(|w| val(w)).product()
}
/// What reading `formula` through the context must give: value and derivative by x, or None if a
/// formal function is left.
fn expected(m: &Model, terms: &[Term]) -> Option<f64> {
    let mut sum = 0.0;
    for t in terms {
        let arg = word(m, &t.arg);
        sum += match t.fun {
            None => t.k * arg * word(m, &t.other),
            Some(f) => match m.funs.get(f) {
                Some(Def::Body(a, b)) => t.k * (a * arg + b),
                Some(Def::Name) => return None,
                None => t.k * val(f) * arg,
            },
        };
    }
    Some(sum)
}
struct Term {
    k: f64,
    fun: Option<&'static str>,
    arg: String,
    other: String,
}
fn text(ts: &[Term]) -> String {
    ts.iter()
        .map(|t| match t.fun {
            None => format!("{}*{}*{}", t.k, t.arg, t.other),
            Some(f) => format!("{}*{f}({})", t.k, t.arg),
        })
        .collect::<Vec<_>>()
        .join("+")
}
fn terms(s: &mut Src, m: &Model) -> Vec<Term> {
    let pick = |s: &mut Src| loop {
        let mut n = s.pick(SYMS).to_string();
        if s.chance(1, 4) {
            n.push('q');
        }
        // an underscore or digit is a letter only inside a declared name
        if words(m, &n).is_some_and(|w| !n.contains('_') || w[0] == "s_0") {
            return n;
        }
    };
    (0..(1 + s.us(3)))
        .map(|_| Term { k: s.range(1, 9) as f64, fun: if s.chance(1, 3) { Some(*s.pick(FUNS)) } else { None }, arg: pick(s), other: pick(s) })
        .collect()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn eval(e: &Expr) -> Expr {
    let en = env(e);
    let m: HashMap<&str, f64> = en.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    e.evaluate(&m, &HashMap::new())
}
struct World {
    ms: Vec<Model>,
    global: BTreeMap<String, u64>,
}
fn check(w: &World) -> Result<(), String> {
    for (i, m) in w.ms.iter().enumerate() {
        let c = m.ctx.as_ref().unwrap();
        let want: BTreeSet<String> = m.syms.keys().cloned().collect();
        let got: BTreeSet<String> = c.symbol_names().into_iter().collect();
        let set: BTreeSet<String> = c.symbol_names_set().into_iter().collect();
        if got != want || set != want || c.symbol_count() != want.len() {
            return Err(format!("context {i} holds the symbols {got:?} (set {set:?}, count {}), expected {want:?}", c.symbol_count()));
        }
        let wantf: BTreeSet<String> = m.funs.keys().cloned().collect();
        let gotf: BTreeSet<String> = c.function_names().into_iter().collect();
        if gotf != wantf {
            return Err(format!("context {i} holds the functions {gotf:?}, expected {wantf:?}"));
        }
        if c.is_empty() != (want.is_empty() && wantf.is_empty()) {
            return Err(format!("context {i}: is_empty() = {}", c.is_empty()));
        }
        for n in SYMS {
            let has = m.syms.get(*n).copied();
            if c.contains_symbol(n) != has.is_some() {
                return Err(format!("context {i}: contains_symbol({n}) = {}", !has.is_some()));
            }
            if c.get_symbol(n).map(|s| s.id()) != has {
                return Err(format!("context {i}: get_symbol({n}) = {:?}, expected {has:?}", c.get_symbol(n).map(|s| s.id())));
            }
        }
        for f in FUNS {
            let has = m.funs.get(*f);
            if c.has_function(f) != has.is_some() || c.get_user_fn(f).is_some() != has.is_some() {
                return Err(format!("context {i}: has_function({f}) = {}", c.has_function(f)));
            }
            let body = matches!(has, Some(Def::Body(..)));
            if c.get_user_fn(f).is_some_and(|u| u.has_body()) != body || c.get_body(f).is_some() != body {
                return Err(format!("context {i}: the body of {f} is wrong"));
            }
        }
    }
    for n in SYMS {
        let g = sa::symb_get(n).ok().map(|s| s.id());
        if g != w.global.get(*n).copied() {
            return Err(format!("the global symbol {n} is {g:?}, expected {:?}", w.global.get(*n)));
        }
    }
    // a symbol made in one context and not known globally belongs to it alone
    for (i, m) in w.ms.iter().enumerate() {
        for (j, o) in w.ms.iter().enumerate() {
            for (n, a) in &m.syms {
                for (k, c) in &o.syms {
                    if a == c && n != k {
                        return Err(format!("{n} of context {i} and {k} of context {j} are one symbol"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn learn(m: &mut Model, formula: &str) -> Result<(), String> {
    // parsing may declare what it read; nothing else
    let c = m.ctx.as_ref().unwrap();
    for n in c.symbol_names() {
        if !m.syms.contains_key(&n) {
            if !formula.contains(&n) {
                return Err(format!("{n} was declared by parsing {formula}"));
            }
            m.syms.insert(n.clone(), c.get_symbol(&n).map(|s| s.id()).unwrap_or(0));
        }
    }
    Ok(())
}
/// Read and evaluate a formula through the context in several ways.
fn probe(s: &mut Src, m: &mut Model, log: &mut String, global: &mut BTreeMap<String, u64>) -> Result<(), String> {
    let c = m.ctx.clone().unwrap();
    let ts = terms(s, m);
    let f = text(&ts);
    let want = expected(m, &ts);
    let e = sa::parse(&f, &HashSet::new(), &HashSet::new(), Some(&c)).map_err(|e| format!("{f} does not parse: {e:?}"))?;
    let how = s.below(4);
    log.push_str(&format!("{how} "));
    match how {
        0 => {
            // a value by name
            let v = eval(&e);
            match want {
                Some(x) if m.funs.is_empty() || ts.iter().all(|t| t.fun.is_none() || !m.funs.contains_key(t.fun.unwrap())) => {
                    if !v.as_number().is_some_and(|y| near(x, y)) {
                        return Err(format!("{f} evaluates to {v}, expected {x}"));
                    }
                }
                _ => {
                    if v.as_number().is_some() {
                        return Err(format!("{f} with a function evaluates to {v}"));
                    }
                }
            }
        }
        1 => {
            // compiled with the functions of the context; parameters by name
            let en = env(&e);
            let names: Vec<&str> = en.keys().map(String::as_str).collect();
            let vals: Vec<f64> = names.iter().map(|n| en[*n]).collect();
            let r = if s.chance(1, 2) {
                // a name given as text is looked up, and thereby made, globally
                log.push_str("by name ");
                let r = sa::CompiledEvaluator::compile(&e, &names, Some(&c));
                for n in &names {
                    global.insert(n.to_string(), sa::symb_get(n).map(|s| s.id()).unwrap_or(0));
                }
                r
            } else {
                let syms: Vec<sa::Symbol> = names.iter().map(|n| c.get_symbol(n).unwrap_or_else(sa::Symbol::anon)).collect();
                sa::CompiledEvaluator::compile(&e, &syms, Some(&c))
            };
            match (want, r) {
                (Some(x), Ok(ev)) => {
                    let y = ev.evaluate(&vals);
                    if !near(x, y) {
                        return Err(format!("{f} compiles to {y}, expected {x}"));
                    }
                }
                (Some(_), Err(er)) => return Err(format!("{f} does not compile: {er:?}")),
                (None, Ok(_)) => return Err(format!("{f} compiles although a function has no body")),
                (None, Err(_)) => {}
            }
        }
        2 => {
            // differentiate by a symbol of the context
            let by = ts[0].arg.as_str();
            // how often it occurs in a run of letters
            let times = |n: &str| words(m, n).unwrap().iter().filter(|w| *w == by).count() as f64;
            if let Some(sym) = c.get_symbol(by).filter(|_| m.syms.contains_key(by)) {
                let d = sa::Diff::new().with_context(&c).differentiate(&e, &sym).map_err(|e| format!("d {f} / d {by}: {e:?}"))?;
                // a bodiless function leaves a formal derivative
                let slope: Option<f64> = ts.iter().try_fold(0.0, |acc, t| {
                    let da = |n: &str| times(n) * word(m, n) / val(by);
                    Some(
                        acc + match t.fun {
                            None => t.k * (da(&t.arg) * word(m, &t.other) + word(m, &t.arg) * da(&t.other)),
                            Some(g) => match m.funs.get(g) {
                                Some(Def::Body(a, _)) => t.k * a * da(&t.arg),
                                Some(Def::Name) if times(&t.arg) > 0.0 => return None,
                                Some(Def::Name) => 0.0,
                                None => t.k * val(g) * da(&t.arg),
                            },
                        },
                    )
                });
                if let Some(x) = slope {
                    let v = eval(&d);
                    if !v.as_number().is_some_and(|y| near(x, y)) {
                        return Err(format!("d {f} / d {by} = {d}, value {v}, expected {x}"));
                    }
                }
                // the text entry point reads with what is declared now and answers the same
                learn(m, &f)?;
                let again = sa::parse(&f, &HashSet::new(), &HashSet::new(), Some(&c)).map_err(|e| format!("{f} no longer parses: {e:?}"))?;
                let b = sa::Diff::new().with_context(&c).differentiate(&again, &sym).map_err(|e| format!("d {f} / d {by}: {e:?}"))?;
                let t = sa::Diff::new().with_context(&c).diff_str(&f, by, &[]).map_err(|e| format!("d {f} / d {by}: {e:?}"))?;
                if t != b.to_string() {
                    return Err(format!("d {f} / d {by} is {t} as text and {b} as an expression"));
                }
            }
        }
        _ => {
            // expressions made of the symbols of the context
            if let Some((n, _)) = m.syms.iter().next() {
                let a = c.symb(n);
                let e = a.pow(3.0) + 2.0 * a;
                let d = sa::Diff::new().with_context(&c).differentiate(&e, &a).map_err(|e| format!("{e:?}"))?;
                let en: HashMap<&str, f64> = [(n.as_str(), 2.0)].into_iter().collect();
                let v = d.evaluate(&en, &HashMap::new());
                if v.as_number() != Some(14.0) {
                    return Err(format!("d({n}^3+2*{n}) at 2 = {v}"));
                }
                if !e.to_string().contains(n.as_str()) {
                    return Err(format!("{e} does not print the name {n}"));
                }
                let par = sa::parse(&format!("{n}^3+2*{n}"), &HashSet::new(), &HashSet::new(), Some(&c)).map_err(|e| format!("{e:?}"))?;
                if par != e {
                    return Err(format!("the symbol {n} of the context is not the one read through it: {par} and {e}"));
                }
            }
        }
    }
    learn(m, &f)
}

fn history(s: &mut Src, cx: &mut Cx) -> Out {
    sa::clear_symbols();
    let k = 2 + s.us(2);
    let mut w = World { ms: (0..k).map(|_| Model { ctx: Some(Context::new()), syms: BTreeMap::new(), funs: BTreeMap::new() }).collect(), global: BTreeMap::new() };
    let mut log = String::new();
    let mut touched: HashSet<usize> = HashSet::new();
    let mut probes = 0;
    // contexts share what exists globally: removing that from under them is left to C21
    let global_removals = s.chance(1, 4);
    for _ in 0..(3 + s.us(25)) {
        let i = s.us(k);
        let n = *s.pick(SYMS);
        let f = *s.pick(FUNS);
        let op = s.weighted(&[6, 3, 3, 4, 2, 3, 2, 1, 1, 1, 8, 3, if global_removals { 2 } else { 0 }]);
        let declare = |m: &mut Model, n: &str, id: u64, global: &BTreeMap<String, u64>, others: &HashSet<u64>| -> Result<(), String> {
            if let Some(old) = m.syms.get(n) {
                return if *old == id { Ok(()) } else { Err(format!("{n} was {old} and is now {id}")) };
            }
            if !global.contains_key(n) && others.contains(&id) {
                return Err(format!("the new symbol {n} is the symbol {id} of another context"));
            }
            m.syms.insert(n.to_string(), id);
            Ok(())
        };
        let others: HashSet<u64> = w.ms.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, m)| m.syms.values().copied()).collect();
        let m = &mut w.ms[i];
        let r: Result<(), String> = match op {
            0 => {
                log.push_str(&format!("{i}.symb({n}) "));
                let id = m.ctx.as_ref().unwrap().symb(n).id();
                declare(m, n, id, &w.global, &others)
            }
            1 => {
                log.push_str(&format!("{i}.with_symbol({n}) "));
                let c = m.ctx.take().unwrap().with_symbol(n);
                let id = c.get_symbol(n).map(|s| s.id());
                m.ctx = Some(c);
                match id {
                    Some(id) => declare(m, n, id, &w.global, &others),
                    None => Err(format!("{n} is absent after with_symbol")),
                }
            }
            2 => {
                let l: Vec<&str> = (0..(1 + s.us(4))).map(|_| *s.pick(SYMS)).collect();
                log.push_str(&format!("{i}.with_symbols({l:?}) "));
                let c = m.ctx.take().unwrap().with_symbols(l.clone());
                let mut r = Ok(());
                for n in l {
                    match c.get_symbol(n).map(|s| s.id()) {
                        Some(id) => {
                            m.ctx = Some(c.clone());
                            r = r.and(declare(m, n, id, &w.global, &others));
                        }
                        None => r = Err(format!("{n} is absent after with_symbols")),
                    }
                }
                m.ctx = Some(c);
                r
            }
            3 => {
                let (a, b) = (s.range(2, 9) as f64, s.range(1, 9) as f64);
                log.push_str(&format!("{i}.with_function({f}, {a}*arg+{b}) "));
                let u = UserFunction::new(1..=1).body(move |x: &[Arc<Expr>]| a * (*x[0]).clone() + b).partial(0, move |_| Expr::number(a)).unwrap();
                m.ctx = Some(m.ctx.take().unwrap().with_function(f, u));
                m.funs.insert(f.to_string(), Def::Body(a, b));
                Ok(())
            }
            4 => {
                log.push_str(&format!("{i}.with_function_name({f}) "));
                let c = m.ctx.take().unwrap();
                m.ctx = Some(if s.chance(1, 2) { c.with_function_name(f) } else { c.with_function_names([f]) });
                m.funs.entry(f.to_string()).or_insert(Def::Name);
                Ok(())
            }
            5 => {
                log.push_str(&format!("{i}.remove_symbol({n}) "));
                let had = m.syms.remove(n).is_some();
                let got = m.ctx.as_mut().unwrap().remove_symbol(n);
                if got == had { Ok(()) } else { Err(format!("remove_symbol({n}) = {got}")) }
            }
            6 => {
                log.push_str(&format!("{i}.remove_function({f}) "));
                let had = m.funs.remove(f).is_some();
                let got = m.ctx.as_mut().unwrap().remove_function(f);
                if got == had { Ok(()) } else { Err(format!("remove_function({f}) = {got}")) }
            }
            7 => {
                log.push_str(&format!("{i}.clear_symbols "));
                m.ctx.as_mut().unwrap().clear_symbols();
                m.syms.clear();
                Ok(())
            }
            8 => {
                log.push_str(&format!("{i}.clear_functions "));
                m.ctx.as_mut().unwrap().clear_functions();
                m.funs.clear();
                Ok(())
            }
            9 => {
                log.push_str(&format!("{i}.clear_all "));
                m.ctx.as_mut().unwrap().clear_all();
                m.syms.clear();
                m.funs.clear();
                Ok(())
            }
            10 => {
                log.push_str(&format!("{i}.probe "));
                probes += 1;
                probe(s, m, &mut log, &mut w.global)
            }
            11 => {
                log.push_str(&format!("symb({n}) "));
                let id = sa::symb(n).id();
                match w.global.get(n) {
                    Some(k) if *k != id => Err(format!("global {n} changed from {k} to {id}")),
                    _ => {
                        w.global.insert(n.to_string(), id);
                        Ok(())
                    }
                }
            }
            _ => {
                log.push_str(&format!("remove_symbol({n}) "));
                let had = w.global.remove(n).is_some();
                let got = sa::remove_symbol(n);
                if got == had { Ok(()) } else { Err(format!("global remove_symbol({n}) = {got}")) }
            }
        };
        touched.insert(i);
        cx.repr.clear();
        cx.show(log.clone());
        if let Err(e) = r {
            return Out::fail("context", format!("{e}; after {log}"));
        }
        if let Err(e) = check(&w) {
            return Out::fail("context", format!("{e}; after {log}"));
        }
    }
    // finally every context is read through
    for i in 0..k {
        for _ in 0..2 {
            if let Err(e) = probe(s, &mut w.ms[i], &mut log, &mut w.global) {
                return Out::fail("probe", format!("context {i}: {e}; after {log}"));
            }
        }
    }
    if let Err(e) = check(&w) {
        return Out::fail("context", format!("{e}; after {log} and probes"));
    }
    cx.pass(touched.len() >= 2 && probes >= 1)
}
/// What a program that has done nothing before gets from a few operations through contexts and
/// through none. `ch` are the choices; the result is text.
fn first_steps(ch: Vec<u64>) -> String {
    let mut s = Src::replay(ch);
    let mut out = String::new();
    let names = ["x", "y", "e", "pi", "E", "PI", "sin", "ab"];
    for _ in 0..(1 + s.us(3)) {
        let mut cfg = Cfg::new(5, 2, FunSet::Basic);
        cfg.neg_lits = true;
        let t = gen::term(&mut s, &cfg);
        // built-in constants matter most here
        let t = match s.below(3) {
            0 => Add(b(t), b(Mul(b(E), b(Pi)))),
            1 => Pow(b(E), b(t)),
            _ => t,
        };
        let f = print_formula(&t, &mut s, Style { implicit: false, spaces: false, redundant: false, starstar: false });
        let none = HashSet::new();
        let ctx = Context::new();
        let v = [0.75, 1.5];
        let m: HashMap<&str, f64> = [("x", v[0]), ("y", v[1])].into_iter().collect();
        let show = |e: &Expr, c: Option<&Context>| {
            let ce = sa::CompiledEvaluator::compile(e, &["x", "y"], c).map(|c| c.evaluate(&v));
            format!("{e} | {} | {ce:?}", e.evaluate(&m, &HashMap::new()))
        };
        out.push_str(&f);
        out.push_str(" -> ");
        match s.below(7) {
            0 => match sa::parse(&f, &none, &none, Some(&ctx)) {
                Ok(e) => out.push_str(&show(&e, Some(&ctx))),
                Err(e) => out.push_str(&format!("{e:?}")),
            },
            1 => match sa::parse(&f, &none, &none, None) {
                Ok(e) => out.push_str(&show(&e, None)),
                Err(e) => out.push_str(&format!("{e:?}")),
            },
            2 => {
                let n = names[s.us(names.len())];
                let e = ctx.symb(n).to_expr() + 1.0;
                out.push_str(&format!("{n}: {}", show(&e, Some(&ctx))));
            }
            3 => {
                let c = Context::new().with_symbols(["x", "pi", "e"]).with_function("gh", UserFunction::new(1..=1).body(|a| (*a[0]).clone().pow(2.0)));
                match sa::parse(&format!("gh({f})+pi"), &none, &none, Some(&c)) {
                    Ok(e) => match sa::Diff::new().with_context(&c).differentiate(&e, &c.symb("x")) {
                        Ok(d) => out.push_str(&format!("{} ; {d}", show(&e, Some(&c)))),
                        Err(e) => out.push_str(&format!("{e:?}")),
                    },
                    Err(e) => out.push_str(&format!("{e:?}")),
                }
            }
            4 => out.push_str(&format!("{:?}", sa::simplify(&f, &[], None))),
            5 => out.push_str(&format!("{:?}", sa::diff(&f, "x", &[], None))),
            _ => match sa::parse(&f, &none, &none, Some(&ctx)) {
                Ok(e) => out.push_str(&format!("{:?}", sa::Simplify::new().with_context(&ctx).simplify(&e).map(|e| show(&e, Some(&ctx))))),
                Err(e) => out.push_str(&format!("{e:?}")),
            },
        }
        out.push('\n');
    }
    out
}
/// The first operations of a program give what they give later.
fn fresh(s: &mut Src, cx: &mut Cx) -> Out {
    let ch: Vec<u64> = (0..60).map(|_| s.below(1 << 20)).collect();
    let want = first_steps(ch.clone());
    cx.show(want.clone());
    let arg: Vec<String> = ch.iter().map(u64::to_string).collect();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("--fresh").arg(arg.join(",")).output().unwrap();
    let got = String::from_utf8_lossy(&o.stdout).to_string();
    if !o.status.success() {
        return Out::fail("fresh process", format!("a new process dies: {}", String::from_utf8_lossy(&o.stderr)));
    }
    if got != want {
        return Out::fail("fresh process", format!("as first operations of a process: {got}; later: {want}"));
    }
    cx.pass(true)
}
fn spec() -> Spec {
    Spec::new("C22", "a history of declarations, removals, parses and global symbol operations over 2-3 contexts, compared after every step with plain sets and maps, with formulas read, evaluated, compiled and differentiated through each context; non-trivial: at least two contexts touched and one formula read in between")
        .stage("history", 60_000, 2_000_000, history)
        .stage("fresh", 4_000, 100_000, fresh)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--fresh" {
        print!("{}", first_steps(a[2].split(',').map(|x| x.parse().unwrap()).collect()));
        return;
    }
    main_with(spec)
}
