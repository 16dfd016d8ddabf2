//! C23: concurrent use gives the same answers as sequential use.
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};
use sa::parallel::{ExprInput, Value, VarInput};
use sa::{CompiledEvaluator, Context, Diff, Expr, Simplify, UserFunction};
use vchk::thr::pool;
use vchk::*;

struct Shared {
    id: u64,
    texts: Vec<String>,
    exprs: Vec<Expr>,
    evals: Vec<Arc<CompiledEvaluator>>,
    ctx: Context,
    /// (name, symbol id) seen by the threads
    ids: Mutex<Vec<(String, u64)>>,
}
#[derive(Clone, Debug)]
struct Op {
    kind: u64,
    i: usize,
    v: usize,
    n: usize,
    pts: Vec<f64>,
    who: usize,
}
const KINDS: u64 = 20;
const XYZ: [&str; 3] = ["x", "y", "z"];
fn bits(v: f64) -> String {
    if v.is_nan() { "nan".into() } else { format!("{:016x}", v.to_bits()) }
}
fn short<T: std::fmt::Display, E: std::fmt::Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(t) => t.to_string(),
        Err(e) => format!("{e:?}"),
    }
}
fn column(op: &Op, k: usize) -> Vec<f64> {
    (0..op.n).map(|j| op.pts[(j + k) % op.pts.len()] + j as f64 * 0.001).collect()
}
fn run(op: &Op, sh: &Shared) -> String {
    let none = HashSet::<String>::new();
    let i = op.i % sh.texts.len();
    let (f, e, ce) = (&sh.texts[i], &sh.exprs[i], &sh.evals[i]);
    let v = XYZ[op.v % 3];
    let map: HashMap<&str, f64> = XYZ.iter().enumerate().map(|(k, n)| (*n, op.pts[k % op.pts.len()])).collect();
    let arr = [map["x"], map["y"], map["z"]];
    match op.kind {
        0 => match sa::parse(f, &none, &none, None) {
            Ok(p) => format!("{p} {} {}", p == *e, p.structural_hash() == e.structural_hash()),
            Err(er) => format!("{er:?}"),
        },
        1 => short(sa::diff(f, v, &[], None)),
        2 => short(sa::simplify(f, &[], None)),
        3 => short(Diff::new().domain_safe(true).differentiate(e, &sa::symb(v))),
        4 => short(Simplify::new().domain_safe(op.n % 2 == 0).simplify(e)),
        5 => format!("{}", e.evaluate(&map, &HashMap::new())),
        6 => match CompiledEvaluator::compile(e, &XYZ, None) {
            Ok(c) => format!("{} {} {}", c.instruction_count(), c.param_count(), bits(c.evaluate(&arr))),
            Err(er) => format!("{er:?}"),
        },
        7 => {
            let cols: Vec<Vec<f64>> = (0..3).map(|k| column(op, k)).collect();
            let refs: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            let mut out = vec![0.0; op.n];
            let r = ce.eval_batch(&refs, &mut out, None).map(|_| ());
            let mut t = format!("{r:?} {}", out.iter().map(|v| bits(*v)).collect::<Vec<_>>().join(","));
            t += &bits(ce.evaluate(&arr));
            t
        }
        8 => {
            let cols: Vec<Vec<f64>> = (0..3).map(|k| column(op, k)).collect();
            let refs: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            ce.eval_batch_parallel(&refs).map_or_else(|er| format!("{er:?}"), |o| o.iter().map(|v| bits(*v)).collect::<Vec<_>>().join(","))
        }
        9 => format!("{} {}", e.to_latex(), e.to_unicode()),
        10 => match sa::gradient(e, &[&sa::symb("x"), &sa::symb("y")]) {
            Ok(g) => g.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ; "),
            Err(er) => format!("{er:?}"),
        },
        11 => {
            let ex = vec![ExprInput::from(f.as_str()), ExprInput::from(e.clone())];
            let vars = vec![vec![VarInput::from("x"), VarInput::from("y")]; 2];
            let vals: Vec<Vec<Value>> = (0..2).map(|k| column(op, k).into_iter().take(6).map(Value::Num).collect()).collect();
            match sa::parallel::evaluate_parallel(ex, vars, vec![vals.clone(), vals]) {
                Ok(r) => r.iter().map(|row| row.iter().map(|x| match x { sa::parallel::EvalResult::Expr(e) => format!("={e}"), sa::parallel::EvalResult::String(t) => t.clone() }).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
                Err(er) => format!("{er:?}"),
            }
        }
        12 => {
            // the shared context and its functions
            let t = format!("sq({f})+half(x)");
            match sa::parse(&t, &none, &none, Some(&sh.ctx)) {
                Ok(p) => {
                    let d = Diff::new().with_context(&sh.ctx).differentiate(&p, &sh.ctx.symb("x"));
                    let c = CompiledEvaluator::compile(&p, &[&sh.ctx.symb("x"), &sh.ctx.symb("y"), &sh.ctx.symb("z")], Some(&sh.ctx)).map(|c| bits(c.evaluate(&arr)));
                    format!("{p} {} {c:?}", short(d))
                }
                Err(er) => format!("{er:?}"),
            }
        }
        13 => {
            // a symbol of one's own from creation to removal
            let n = format!("own_{}_{}_{}", sh.id, op.who, op.n);
            let a = sa::symb_new(&n);
            let again = sa::symb_new(&n).is_err();
            let b = sa::symb(&n);
            let g = sa::symb_get(&n);
            let same = match (&a, &g) {
                (Ok(a), Ok(g)) => a.id() == b.id() && b.id() == g.id() && a.name().as_deref() == Some(n.as_str()),
                _ => false,
            };
            let ex = sa::symbol_exists(&n);
            let listed = sa::symbol_names().contains(&n);
            let rm = sa::remove_symbol(&n);
            format!("{} {again} {same} {ex} {listed} {rm} {}", a.is_ok(), sa::symbol_exists(&n))
        }
        14 => {
            // a name all threads want
            let n = format!("all_{}_{}", sh.id, op.n % 3);
            let a = sa::symb(&n);
            sh.ids.lock().unwrap().push((n.clone(), a.id()));
            let e2 = a.to_expr() * 2.0 + e.clone();
            format!("{} {} {e2}", sa::symbol_exists(&n), sa::symb_get(&n).map(|g| g.id()) == Ok(a.id()))
        }
        15 => {
            let n = format!("in_{}_{}", sh.id, op.n % 3);
            let a = sh.ctx.symb(&n);
            sh.ids.lock().unwrap().push((format!("ctx {n}"), a.id()));
            let p = sa::parse(&format!("2*{n}+x"), &none, &none, Some(&sh.ctx));
            let c = p.as_ref().map(|p| p.contains_var_id(a.id()));
            format!("{} {} {c:?}", sh.ctx.contains_symbol(&n), sh.ctx.get_symbol(&n).map(|g| g.id()) == Some(a.id()))
        }
        16 => {
            // a formula with names not met before
            let (n, m) = (format!("nw_{}_{}", sh.id, op.n % 4), format!("nw_{}_{}", sh.id, 4 + op.n % 3));
            let kn: HashSet<String> = [n.clone(), m.clone()].into_iter().collect();
            match sa::parse(&format!("{n}^2*sin({m})+{f}+{m}"), &kn, &none, None) {
                Ok(p) => {
                    let mut vs: Vec<String> = p.variables().into_iter().collect();
                    vs.sort();
                    let mut m2 = map.clone();
                    m2.insert(&n, 0.5);
                    m2.insert(&m, 0.25);
                    format!("{p} {vs:?} {} {}", p.evaluate(&m2, &HashMap::new()), short(Diff::new().differentiate(&p, &sa::symb(&n))))
                }
                Err(er) => format!("{er:?}"),
            }
        }
        17 => {
            let r = &sh.exprs[(i + 1) % sh.exprs.len()];
            let g = e.substitute(v, r);
            let h = g.map(|x| x.clone());
            format!("{g} {} {}", h.node_count() > 0, g.deep_clone() == g)
        }
        18 => short(sa::uncertainty_propagation(e, &["x", "y"], None)),
        _ => {
            let (a, b) = (sa::Symbol::anon(), sa::Symbol::anon());
            sh.ids.lock().unwrap().push((format!("anon {}", a.id()), a.id()));
            let d = (a.to_expr() * b.to_expr()).evaluate(&map, &HashMap::new());
            let fname = format!("fn_{}_{}", sh.id, op.n % 3);
            format!("{} {} {}", a.id() == b.id(), d.as_number().is_some(), short(sa::diff(&format!("{fname}(x)*x"), "x", &[], Some(&[&fname]))))
        }
    }
}
fn formulas(s: &mut Src) -> Vec<String> {
    let k = 1 + s.us(3);
    (0..k)
        .map(|_| {
            let mut c = Cfg::new([4, 8, 14][s.us(3)], 3, FunSet::Elem);
            c.neg_lits = true;
            let mut t = if s.chance(1, 3) { gen::poly(s, &c, 4) } else { gen::term(s, &c) };
            for _ in 0..20 {
                if gen::tame(&t) {
                    break;
                }
                t = gen::term(s, &c);
            }
            let t = if gen::tame(&t) { t } else { Var(0) };
            let t = Add(b(t), b(Add(b(Var(0)), b(Mul(b(Var(1)), b(Var(2)))))));
            print_formula(&t, s, Style { implicit: false, spaces: false, redundant: false, starstar: false })
        })
        .collect()
}
fn ops(s: &mut Src, threads: usize) -> Vec<Vec<Op>> {
    // a case leans on few kinds of work, so that the same code overlaps with itself
    let few: Vec<u64> = (0..1 + s.us(4)).map(|_| s.below(KINDS)).collect();
    let same = s.chance(1, 3);
    let mut all: Vec<Vec<Op>> = (0..threads)
        .map(|who| {
            (0..1 + s.us(6))
                .map(|k| {
                    let kind = if s.chance(2, 3) { *s.pick(&few) } else { s.below(KINDS) };
                    let n = match kind {
                        7 => [0, 1, 3, 4, 7, 33, 257][s.us(7)],
                        8 => [1, 5, 255, 256, 300, 513, 1000][s.us(7)],
                        11 => 1 + s.us(6),
                        13 => k,
                        _ => s.us(6),
                    };
                    Op { kind, i: s.us(3), v: s.us(3), n, pts: (0..3 + s.us(3)).map(|_| s.range(-12, 12) as f64 * 0.25 + 0.03).collect(), who }
                })
                .collect()
        })
        .collect();
    if same {
        // everybody does the same
        let first = all[0].clone();
        for (who, l) in all.iter_mut().enumerate() {
            *l = first.clone();
            l.iter_mut().for_each(|o| o.who = who);
        }
    }
    all
}
fn shared(id: u64, texts: Vec<String>) -> Result<Shared, String> {
    let none = HashSet::<String>::new();
    let mut exprs = vec![];
    let mut evals = vec![];
    for t in &texts {
        let e = sa::parse(t, &none, &none, None).map_err(|e| format!("{t}: {e:?}"))?;
        evals.push(Arc::new(CompiledEvaluator::compile(&e, &XYZ, None).map_err(|e| format!("{t}: {e:?}"))?));
        exprs.push(e);
    }
    let ctx = Context::new()
        .with_symbols(["x", "y", "z"])
        .with_function("sq", UserFunction::new(1..=1).body(|a| (*a[0]).clone().pow(2.0)))
        .with_function("half", UserFunction::new(1..=1).body(|a| (*a[0]).clone() * 0.5).partial(0, |_| Expr::number(0.5)).unwrap());
    Ok(Shared { id, texts, exprs, evals, ctx, ids: Mutex::new(vec![]) })
}
fn one_id_a_name(sh: &Shared) -> Result<(), String> {
    let mut seen: HashMap<String, u64> = HashMap::new();
    let mut owner: HashMap<u64, String> = HashMap::new();
    for (n, id) in sh.ids.lock().unwrap().iter() {
        if *seen.entry(n.clone()).or_insert(*id) != *id {
            return Err(format!("the name {n} stands for the symbols {} and {id}", seen[n]));
        }
        if owner.entry(*id).or_insert_with(|| n.clone()) != n {
            return Err(format!("the symbol {id} stands for {} and {n}", owner[id]));
        }
    }
    Ok(())
}
static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn mixed(s: &mut Src, cx: &mut Cx) -> Out {
    let threads = 2 + s.us(6);
    let texts = formulas(s);
    let lists = ops(s, threads);
    let id = CASE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let sh = match shared(id, texts) {
        Ok(x) => Arc::new(x),
        Err(_) => return Out::Discard,
    };
    let kinds: Vec<Vec<u64>> = lists.iter().map(|l| l.iter().map(|o| o.kind).collect()).collect();
    cx.show(format!("{:?}; kinds {kinds:?}", sh.texts));
    cx.count(&format!("{threads} threads"));
    let before = s.chance(1, 2);
    cx.count(if before { "alone first" } else { "together first" });
    let alone = |sh: &Shared| -> Vec<Vec<String>> { lists.iter().map(|l| l.iter().map(|o| run(o, sh)).collect()).collect() };
    let first = if before { Some(alone(&sh)) } else { None };
    let fs: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = lists
        .iter()
        .cloned()
        .map(|l| {
            let sh = sh.clone();
            Box::new(move || l.iter().map(|o| run(o, &sh)).collect()) as Box<dyn FnOnce() -> Vec<String> + Send>
        })
        .collect();
    let together = pool().all(fs);
    let want = first.unwrap_or_else(|| alone(&sh));
    for (k, r) in together.iter().enumerate() {
        match r {
            Err(p) => return Out::fail("panic", format!("thread {k} doing {:?} panics: {p}; others {kinds:?} on {:?}", lists[k], sh.texts)),
            Ok(got) => {
                for (j, (g, w)) in got.iter().zip(&want[k]).enumerate() {
                    if g != w {
                        return Out::fail("differs", format!("{:?} on {:?}: together {g}, alone {w}; all {kinds:?}", lists[k][j], sh.texts));
                    }
                }
            }
        }
    }
    if let Err(m) = one_id_a_name(&sh) {
        return Out::fail("identity", m);
    }
    // nothing was lost
    for (n, id) in sh.ids.lock().unwrap().iter() {
        if n.starts_with("all_") {
            if sa::symb_get(n).map(|g| g.id()) != Ok(*id) {
                return Out::fail("lost", format!("{n}"));
            }
            sa::remove_symbol(n);
            break;
        }
    }
    let total: usize = lists.iter().map(|l| l.len()).sum();
    cx.pass(threads >= 2 && total >= 4)
}
/// Declarations and removals in one context from several threads (its clones share the symbols).
fn contexts(s: &mut Src, cx: &mut Cx) -> Out {
    let threads = 2 + s.us(5);
    let ctx = Context::new();
    let names: Vec<String> = (0..1 + s.us(3)).map(|k| format!("c{k}")).collect();
    // names from keep on are never removed
    let keep = s.us(names.len() + 1);
    let plans: Vec<Vec<(u64, usize)>> = (0..threads).map(|_| (0..2 + s.us(10)).map(|_| (s.below(7), s.us(names.len()))).collect()).collect();
    cx.show(format!("{names:?} kept from {keep}: {plans:?}"));
    let fs: Vec<Box<dyn FnOnce() -> Vec<(usize, u64)> + Send>> = plans
        .iter()
        .cloned()
        .map(|p| {
            let (mut c, names) = (ctx.clone(), names.clone());
            Box::new(move || {
                let none = HashSet::<String>::new();
                let mut ids = vec![];
                for (k, n) in p {
                    let name = names[n].as_str();
                    match k {
                        0 | 1 => ids.push((n, c.symb(name).id())),
                        2 if n < keep => {
                            c.remove_symbol(name);
                        }
                        3 => {
                            let _ = c.contains_symbol(name);
                            if let Some(g) = c.get_symbol(name) {
                                ids.push((n, g.id()));
                            }
                        }
                        4 => {
                            let e = sa::parse(&format!("{name}^2+3*{name}"), &none, &none, Some(&c)).expect("formula");
                            let v: Vec<String> = e.variables().into_iter().collect();
                            assert_eq!(v, [name.to_string()]);
                        }
                        5 => {
                            let l = c.symbol_names();
                            assert!(l.iter().all(|x| names.contains(x)), "names {l:?}");
                            assert!(l.iter().collect::<HashSet<_>>().len() == l.len(), "names twice: {l:?}");
                            assert!(c.symbol_count() <= names.len());
                        }
                        _ => {
                            c = std::mem::take(&mut c).with_symbol(name);
                        }
                    }
                }
                ids
            }) as Box<dyn FnOnce() -> Vec<(usize, u64)> + Send>
        })
        .collect();
    let mut seen: HashMap<usize, u64> = HashMap::new();
    for (k, r) in pool().all(fs).into_iter().enumerate() {
        match r {
            Err(p) => return Out::fail("panic", format!("thread {k} of {plans:?}: {p}")),
            Ok(ids) => {
                for (n, id) in ids {
                    if n >= keep && *seen.entry(n).or_insert(id) != id {
                        return Out::fail("identity", format!("{} stands for two symbols; {plans:?}", names[n]));
                    }
                }
            }
        }
    }
    for (n, id) in &seen {
        if ctx.get_symbol(&names[*n]).map(|g| g.id()) != Some(*id) {
            return Out::fail("lost", format!("{} is lost or changed; {plans:?}", names[*n]));
        }
    }
    let mut l = ctx.symbol_names();
    l.sort();
    let have: Vec<String> = names.iter().filter(|n| ctx.contains_symbol(n)).cloned().collect();
    if l != have || ctx.symbol_count() != have.len() || ctx.is_empty() != have.is_empty() {
        return Out::fail("listing", format!("names {l:?}, contained {have:?}, count {}", ctx.symbol_count()));
    }
    cx.pass(plans.iter().map(|p| p.len()).sum::<usize>() >= 6)
}
/// the first operations of a process, all at once
fn first(ch: Vec<u64>, together: bool) -> String {
    let mut s = Src::replay(ch);
    let threads = 2 + s.us(6);
    let texts = formulas(&mut s);
    let lists = ops(&mut s, threads);
    let mut out = String::new();
    // each thread reads the formulas itself
    let work = move |l: Vec<Op>, texts: Vec<String>, sh: Option<Arc<Shared>>| -> Vec<String> {
        let sh = sh.map_or_else(|| shared(0, texts).map(Arc::new), Ok);
        match sh {
            Ok(sh) => l.iter().map(|o| run(o, &sh)).chain(one_id_a_name(&sh).err()).collect(),
            Err(m) => vec![m],
        }
    };
    let res: Vec<Vec<String>> = if together {
        let bar = Arc::new(std::sync::Barrier::new(threads));
        let h: Vec<_> = lists
            .into_iter()
            .map(|l| {
                let (bar, texts) = (bar.clone(), texts.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    work(l, texts, None)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["panic".into()])).collect()
    } else {
        lists.into_iter().map(|l| work(l, texts.clone(), None)).collect()
    };
    for (k, r) in res.iter().enumerate() {
        out += &format!("{k}: {}\n", r.join(" | "));
    }
    out
}
fn fresh(s: &mut Src, cx: &mut Cx) -> Out {
    let ch: Vec<u64> = (0..500).map(|_| s.below(1 << 40)).collect();
    let arg: Vec<String> = ch.iter().map(u64::to_string).collect();
    let mut texts = vec![];
    for how in ["together", "alone"] {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("--fresh").arg(how).arg(arg.join(",")).output().unwrap();
        if !o.status.success() {
            return Out::fail("fresh process", format!("a new process dies ({how}): {}", String::from_utf8_lossy(&o.stderr)));
        }
        texts.push(String::from_utf8_lossy(&o.stdout).to_string());
    }
    cx.show(texts[1].chars().take(300).collect::<String>());
    if texts[0] != texts[1] {
        return Out::fail("fresh process", format!("first operations of a process on several threads: {}\none after another: {}", texts[0], texts[1]));
    }
    cx.pass(true)
}
fn spec() -> Spec {
    VARS.iter().for_each(|v| {
        let _ = sa::symb(v);
    });
    let mut p = Spec::new("C23", "2-7 threads each with a random list of parses, symbol creations, derivatives, simplifications, printing, evaluations, batch evaluations and context operations over shared expressions, evaluators and names, started together and compared word for word with the same lists run alone (before or after); declarations and removals in one context; and the same as first operations of a new process; non-trivial: at least two threads and four (six) operations")
        .stage("mixed", 60_000, 2_000_000, mixed)
        .stage("contexts", 100_000, 3_000_000, contexts)
        .stage("fresh", 1_500, 40_000, fresh);
    p.concurrent = true;
    p.cpu_limit = 8;
    p.threads = 1;
    p
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "--fresh" {
        print!("{}", first(a[3].split(',').map(|x| x.parse().unwrap()).collect(), a[2] == "together"));
        return;
    }
    main_with(spec)
}
