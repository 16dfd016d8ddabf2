//! C21: the global symbol registry against a model, from several threads, and under concurrency.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use symb_anafis::Expr;
use vchk::thr::pool;
use vchk::*;

const POOL: &[&str] = &["x", "y", "z", "a1", "alpha", "q_0", "sin", "exp", "pi", "e", "besselj", "sqrt", "ψ", "name with space", "X", "xy", "long_symbol_name_of_many_letters"];
const BUILTIN: &[&str] = &["sin", "exp", "pi", "e", "besselj", "sqrt"];

#[derive(Clone, Debug)]
enum Op {
    Symb(usize),
    New(usize),
    Get(usize),
    Exists(usize),
    Remove(usize),
    Clear,
    Count,
    Names,
    Anon,
    Expr(usize),
    Parse(usize, usize),
    Diff(usize),
}
#[derive(Debug, Clone)]
enum Res {
    Id(u64, Option<String>),
    Err(String),
    Bool(bool),
    N(usize),
    Names(Vec<String>),
    Unit,
    Ids(Vec<u64>),
    Text(String),
}
fn sym_res(s: sa::Symbol) -> Res {
    Res::Id(s.id(), s.name())
}
fn run(op: &Op, names: &[String]) -> Res {
    let r = |r: Result<sa::Symbol, sa::SymbolError>| match r {
        Ok(s) => sym_res(s),
        Err(e) => Res::Err(format!("{e:?}")),
    };
    match op {
        Op::Symb(i) => sym_res(sa::symb(&names[*i])),
        Op::New(i) => r(sa::symb_new(&names[*i])),
        Op::Get(i) => r(sa::symb_get(&names[*i])),
        Op::Exists(i) => Res::Bool(sa::symbol_exists(&names[*i])),
        Op::Remove(i) => Res::Bool(sa::remove_symbol(&names[*i])),
        Op::Clear => {
            sa::clear_symbols();
            Res::Unit
        }
        Op::Count => Res::N(sa::symbol_count()),
        Op::Names => Res::Names(sa::symbol_names()),
        Op::Anon => sym_res(sa::Symbol::anon()),
        Op::Expr(i) => {
            let e = Expr::symbol(&names[*i]);
            match e.view() {
                sa::visitor::ExprView::Symbol(_) => Res::Ids(e.variables_ids()),
                _ => Res::Text(format!("{e}")),
            }
        }
        Op::Parse(i, j) => {
            let f = format!("{}+2*{}", names[*i], names[*j]);
            let k: HashSet<String> = [names[*i].clone(), names[*j].clone()].into_iter().collect();
            match sa::parse(&f, &k, &HashSet::new(), None) {
                Ok(e) => Res::Ids(e.variables_ids()),
                Err(e) => Res::Err(format!("{e:?}")),
            }
        }
        Op::Diff(i) => {
            // an expression made from the name, differentiated by the symbol asked for again
            let e = Expr::symbol(&names[*i]).pow(2.0);
            let s = sa::symb(&names[*i]);
            match sa::Diff::new().differentiate(&e, &s) {
                Ok(d) => {
                    let m: HashMap<&str, f64> = [(names[*i].as_str(), 3.0)].into_iter().collect();
                    Res::Text(format!("{:?}", d.evaluate(&m, &HashMap::new()).as_number()))
                }
                Err(e) => Res::Err(format!("{e:?}")),
            }
        }
    }
}
trait Ids {
    fn variables_ids(&self) -> Vec<u64>;
}
impl Ids for Expr {
    fn variables_ids(&self) -> Vec<u64> {
        fn go(e: &Expr, out: &mut Vec<u64>) {
            for n in POOL {
                if let Ok(s) = sa::symb_get(n) {
                    if e.contains_var_id(s.id()) && !out.contains(&s.id()) {
                        out.push(s.id());
                    }
                }
            }
        }
        let mut v = vec![];
        go(self, &mut v);
        v.sort_unstable();
        v
    }
}
#[derive(Default)]
struct Model {
    names: BTreeMap<String, u64>,
    /// every id ever given out, with its name
    owner: HashMap<u64, Option<String>>,
    count: Option<usize>,
}
impl Model {
    fn give(&mut self, n: &str, id: u64) -> Result<(), String> {
        match self.owner.get(&id) {
            Some(o) if o.as_deref() != Some(n) => return Err(format!("the symbol {id} of {o:?} was given for {n:?}")),
            _ => {}
        }
        if let Some(old) = self.names.get(n) {
            if *old != id {
                return Err(format!("{n:?} exists as {old} but now is {id}"));
            }
        } else {
            for (m, k) in &self.names {
                if *k == id {
                    return Err(format!("{n:?} and {m:?} are one symbol {id}"));
                }
            }
            self.names.insert(n.to_string(), id);
            self.count = self.count.map(|c| c + 1);
        }
        self.owner.insert(id, Some(n.to_string()));
        Ok(())
    }
    fn step(&mut self, op: &Op, res: &Res, names: &[String]) -> Result<(), String> {
        let name = |i: &usize| names[*i].clone();
        match (op, res) {
            (Op::Symb(i), Res::Id(id, n)) => {
                if n.as_deref() != Some(&name(i)) {
                    return Err(format!("symb({:?}) is named {n:?}", name(i)));
                }
                self.give(&name(i), *id)
            }
            (Op::New(i), Res::Id(id, n)) => {
                if self.names.contains_key(&name(i)) {
                    return Err(format!("symb_new({:?}) succeeded although it exists", name(i)));
                }
                if n.as_deref() != Some(&name(i)) {
                    return Err(format!("symb_new({:?}) is named {n:?}", name(i)));
                }
                self.give(&name(i), *id)
            }
            (Op::New(i), Res::Err(e)) => {
                if self.names.contains_key(&name(i)) && e.contains("DuplicateName") {
                    Ok(())
                } else {
                    Err(format!("symb_new({:?}) failed with {e} although it is absent", name(i)))
                }
            }
            (Op::Get(i), Res::Id(id, _)) => match self.names.get(&name(i)) {
                Some(k) if k == id => Ok(()),
                k => Err(format!("symb_get({:?}) gives {id}, expected {k:?}", name(i))),
            },
            (Op::Get(i), Res::Err(e)) => {
                if self.names.contains_key(&name(i)) || !e.contains("NotFound") {
                    Err(format!("symb_get({:?}) failed with {e}", name(i)))
                } else {
                    Ok(())
                }
            }
            (Op::Exists(i), Res::Bool(x)) => {
                if *x == self.names.contains_key(&name(i)) {
                    Ok(())
                } else {
                    Err(format!("symbol_exists({:?}) = {x}", name(i)))
                }
            }
            (Op::Remove(i), Res::Bool(x)) => {
                let had = self.names.remove(&name(i)).is_some();
                if had {
                    self.count = self.count.map(|c| c - 1);
                }
                if *x == had {
                    Ok(())
                } else {
                    Err(format!("remove_symbol({:?}) = {x}", name(i)))
                }
            }
            (Op::Clear, _) => {
                self.names.clear();
                self.count = None;
                Ok(())
            }
            (Op::Count, Res::N(n)) => {
                match self.count {
                    Some(c) if c != *n => return Err(format!("symbol_count() = {n}, expected {c}")),
                    None if *n < self.names.len() => return Err(format!("symbol_count() = {n} with {} names", self.names.len())),
                    _ => {}
                }
                self.count = Some(*n);
                Ok(())
            }
            (Op::Names, Res::Names(v)) => {
                let mut v = v.clone();
                v.sort();
                let want: Vec<String> = self.names.keys().cloned().collect();
                if v == want {
                    Ok(())
                } else {
                    Err(format!("symbol_names() = {v:?}, expected {want:?}"))
                }
            }
            (Op::Anon, Res::Id(id, n)) => {
                if self.owner.insert(*id, None).is_some() || n.is_some() {
                    return Err(format!("anonymous symbol {id} named {n:?} is not new"));
                }
                self.count = None; // counting anonymous symbols or not are both fine
                Ok(())
            }
            (Op::Expr(i), Res::Ids(v)) => {
                // Expr::symbol interns the name
                if v.len() != 1 {
                    return Err(format!("Expr::symbol({:?}) contains the symbols {v:?}", name(i)));
                }
                self.give(&name(i), v[0])
            }
            (Op::Diff(i), Res::Text(t)) => {
                if t == "Some(6.0)" {
                    Ok(())
                } else {
                    Err(format!("derivative of {:?}^2 at 3 is {t}", name(i)))
                }
            }
            (Op::Parse(i, j), Res::Ids(v)) => {
                let want: HashSet<&String> = [&names[*i], &names[*j]].into_iter().collect();
                if v.len() != want.len() {
                    return Err(format!("parsing {:?}+2*{:?} gives the symbols {v:?}", name(i), name(j)));
                }
                Ok(())
            }
            (o, r) => Err(format!("{o:?} gave {r:?}")),
        }
    }
}
fn warm() {
    // the library's own tables of built-ins exist before anything is checked
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let e = parse("sin(x)+exp(y)*pi").unwrap();
        let _ = sa::Simplify::new().simplify(&e);
        let _ = sa::Diff::new().differentiate(&e, &sa::symb("x"));
    });
}
fn history(s: &mut Src, cx: &mut Cx) -> Out {
    warm();
    sa::clear_symbols();
    let k = 2 + s.us(POOL.len() - 1);
    let names: Arc<Vec<String>> = Arc::new((0..k).map(|_| s.pick(POOL).to_string()).collect());
    let threads = 1 + s.us(4);
    let deep = s.chance(1, 3);
    let mut m = Model::default();
    let len = 3 + s.us(30);
    let mut log = String::new();
    let mut creations = 0;
    let mut hits = 0;
    for _ in 0..len {
        let i = s.us(names.len());
        let op = match s.weighted(&[6, 3, 3, 3, 4, 1, 2, 1, 1, if deep { 3 } else { 0 }, if deep { 2 } else { 0 }, if deep { 2 } else { 0 }]) {
            0 => Op::Symb(i),
            1 => Op::New(i),
            2 => Op::Get(i),
            3 => Op::Exists(i),
            4 => Op::Remove(i),
            5 => Op::Clear,
            6 => Op::Count,
            7 => Op::Names,
            8 => Op::Anon,
            9 if !BUILTIN.contains(&names[i].as_str()) => Op::Expr(i),
            11 if !BUILTIN.contains(&names[i].as_str()) => Op::Diff(i),
            _ => {
                let j = s.us(names.len());
                let ok = |n: &str| !BUILTIN.contains(&n) && n.is_ascii() && !n.contains(' ');
                if ok(&names[i]) && ok(&names[j]) { Op::Parse(i, j) } else { Op::Symb(i) }
            }
        };
        let t = s.us(threads);
        log.push_str(&format!("{t}:{op:?} "));
        let (o2, n2) = (op.clone(), names.clone());
        // thread 0 is this one
        let r = if t == 0 { Ok(run(&op, &names)) } else { pool().on(t - 1, move || run(&o2, &n2)) };
        cx.repr.clear();
        cx.show(format!("names {names:?}: {log}"));
        let r = match r {
            Ok(r) => r,
            Err(p) => return Out::fail("panic", format!("{op:?} panicked: {p}")),
        };
        if matches!(op, Op::Symb(_) | Op::New(_)) {
            creations += 1;
        }
        if matches!(r, Res::Err(_) | Res::Bool(true)) {
            hits += 1;
        }
        let before = m.names.len();
        if let Err(e) = m.step(&op, &r, &names) {
            return Out::fail("model", format!("{e}; after {log}"));
        }
        // operations of the deep kind intern names on the way: learn them, everything else must stay
        if matches!(op, Op::Expr(_) | Op::Parse(..) | Op::Diff(_)) {
            let touched: Vec<&String> = match op {
                Op::Expr(i) | Op::Diff(i) => vec![&names[i]],
                Op::Parse(i, j) => vec![&names[i], &names[j]],
                _ => vec![],
            };
            for n in touched {
                match sa::symb_get(n) {
                    Ok(s) => {
                        if let Err(e) = m.give(n, s.id()) {
                            return Out::fail("model", format!("{e}; after {log}"));
                        }
                    }
                    Err(e) => return Out::fail("model", format!("{n:?} is absent after {op:?}: {e:?}; {log}")),
                }
            }
            // functions used by the operation may be interned again
            for n in sa::symbol_names() {
                if !m.names.contains_key(&n) {
                    if POOL.contains(&n.as_str()) && !BUILTIN.contains(&n.as_str()) {
                        return Out::fail("model", format!("{n:?} appeared from nowhere; after {log}"));
                    }
                    let id = sa::symb(&n).id();
                    let _ = m.give(&n, id);
                }
            }
            m.count = None;
        }
        let _ = before;
    }
    // at the end every thread sees the same map
    for t in 0..threads {
        for i in 0..names.len() {
            let op = Op::Get(i);
            let (o2, n2) = (op.clone(), names.clone());
            let r = if t == 0 { Ok(run(&op, &names)) } else { pool().on(t - 1, move || run(&o2, &n2)) };
            let r = match r {
                Ok(r) => r,
                Err(p) => return Out::fail("panic", format!("{op:?} panicked: {p}")),
            };
            if let Err(e) = m.step(&op, &r, &names) {
                return Out::fail("model", format!("on thread {t}: {e}; after {log}"));
            }
        }
    }
    cx.pass(creations >= 2 && hits >= 1)
}

// ------------------------------------------------------------------ concurrency
static CLOCK: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    op: Op,
    res: Res,
    start: u64,
    end: u64,
}
/// Is there an order of the calls, compatible with their overlap, in which a plain map gives these results?
fn linearizable(calls: &[Call]) -> bool {
    // state: None or Some(id); ids once removed never come back (`fresh` names only)
    fn go(calls: &[Call], done: u64, st: Option<u64>, seen: &mut HashSet<(u64, Option<u64>)>) -> bool {
        if done.count_ones() as usize == calls.len() {
            return true;
        }
        if !seen.insert((done, st)) {
            return false;
        }
        let horizon = calls.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, c)| c.end).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            if done >> i & 1 == 1 || c.start > horizon {
                continue;
            }
            let next = match (&c.op, &c.res, st) {
                (Op::Symb(_), Res::Id(id, _), None) => Some(Some(*id)),
                (Op::Symb(_), Res::Id(id, _), Some(k)) if *id == k => Some(st),
                (Op::New(_), Res::Id(id, _), None) => Some(Some(*id)),
                (Op::New(_), Res::Err(_), Some(_)) => Some(st),
                (Op::Get(_), Res::Id(id, _), Some(k)) if *id == k => Some(st),
                (Op::Get(_), Res::Err(_), None) => Some(None),
                (Op::Exists(_), Res::Bool(b), _) if *b == st.is_some() => Some(st),
                (Op::Remove(_), Res::Bool(b), _) if *b == st.is_some() => Some(None),
                (Op::Clear, _, _) => Some(None),
                _ => None,
            };
            if let Some(n) = next {
                if go(calls, done | 1 << i, n, seen) {
                    return true;
                }
            }
        }
        false
    }
    go(calls, 0, None, &mut HashSet::new())
}
static SERIAL: AtomicU64 = AtomicU64::new(0);
fn racing(s: &mut Src, cx: &mut Cx) -> Out {
    warm();
    let nn = 1 + s.us(2);
    let threads = 2 + s.us(6);
    let per = 1 + s.us(6);
    let clears = s.chance(1, 6);
    let removes = s.chance(3, 4);
    let plans: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let i = s.us(nn);
                    match s.weighted(&[5, 4, 3, 2, if removes { 4 } else { 0 }, clears as u32]) {
                        0 => Op::Symb(i),
                        1 => Op::New(i),
                        2 => Op::Get(i),
                        3 => Op::Exists(i),
                        4 => Op::Remove(i),
                        _ => Op::Clear,
                    }
                })
                .collect()
        })
        .collect();
    cx.show(format!("{nn} names, threads {plans:?}"));
    for _ in 0..4 {
        let k = SERIAL.fetch_add(1, Ordering::Relaxed);
        let names: Arc<Vec<String>> = Arc::new((0..nn).map(|i| format!("race{k}_{i}")).collect());
        let all: Arc<Mutex<Vec<Call>>> = Arc::default();
        let fs: Vec<Box<dyn FnOnce() + Send>> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (plan, names, all) = (plan.clone(), names.clone(), all.clone());
                Box::new(move || {
                    let mut mine = vec![];
                    for op in plan {
                        let start = CLOCK.fetch_add(1, Ordering::SeqCst);
                        let res = run(&op, &names);
                        let end = CLOCK.fetch_add(1, Ordering::SeqCst);
                        mine.push(Call { thread: t, op, res, start, end });
                    }
                    all.lock().unwrap().extend(mine);
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        for r in pool().all(fs) {
            if let Err(p) = r {
                return Out::fail("race panic", p);
            }
        }
        let mut all = all.lock().unwrap().clone();
        // afterwards, from one thread: the final state belongs to the history
        for i in 0..nn {
            for op in [Op::Exists(i), Op::Get(i), Op::Symb(i)] {
                let start = CLOCK.fetch_add(1, Ordering::SeqCst);
                let res = run(&op, &names);
                let end = CLOCK.fetch_add(1, Ordering::SeqCst);
                all.push(Call { thread: 99, op, res, start, end });
            }
        }
        for i in 0..nn {
            let mine: Vec<Call> = all
                .iter()
                .filter(|c| match c.op {
                    Op::Symb(j) | Op::New(j) | Op::Get(j) | Op::Exists(j) | Op::Remove(j) => i == j,
                    _ => true,
                })
                .cloned()
                .collect();
            if mine.len() <= 60 && !linearizable(&mine) {
                return Out::fail("race", format!("no order of these overlapping calls explains the results for {:?}: {mine:?}", names[i]));
            }
        }
        for n in names.iter() {
            sa::remove_symbol(n);
        }
    }
    cx.pass(threads >= 2 && per >= 2)
}
fn spec() -> Spec {
    let mut p = Spec::new("C21", "a history of registry operations (on the calling thread and helper threads, one after another) compared with a map, or overlapping calls on 2-7 threads explained by some order of them; non-trivial: at least two creations and one refused, found or removed name / at least two threads with two calls each")
        .stage("history", 250_000, 3_000_000, history)
        .stage("racing", 40_000, 1_000_000, racing);
    p.concurrent = true;
    p.cpu_limit = 8;
    p.threads = 1;
    p
}
fn main() {
    main_with(spec)
}
