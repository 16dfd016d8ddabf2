//! C01: parsing reads a formula the way ordinary mathematics does.
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vchk::*;

fn formula(s: &mut Src, cx: &mut Cx) -> Out {
    let mut c = Cfg::new(14, 4, FunSet::All);
    c.long_vars = s.chance(1, 3);
    let t = gen::term(s, &c);
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let st = Style { implicit: s.chance(2, 3), spaces: s.chance(1, 2), redundant: s.chance(1, 3), starstar: s.chance(1, 3) };
    let f = print_formula(&t, s, st);
    cx.show(format!("{f:?} meaning {t}"));
    let pts = points(s, 4);
    let e = match parse(&f) {
        Ok(e) => e,
        Err(er) => return Out::fail("reject", format!("well-formed formula rejected: {er:?}")),
    };
    let got = from_expr(&e);
    match same_function(&t, &got, &pts, 1e-9) {
        Err(m) => Out::fail("value", format!("{m}; parsed as {got}")),
        Ok(n) => cx.pass(n > 0 && t.size() >= 3),
    }
}

// ---------------------------------------------------------------- numeric literals
fn digits(s: &mut Src, n: usize) -> String {
    let mut o = String::new();
    for i in 0..n {
        if i > 0 && s.chance(1, 20) {
            o.push('_');
        }
        o.push((b'0' + s.us(10) as u8) as char);
    }
    o
}
/// text and value of a literal of moderate or any size
fn literal(s: &mut Src, small: bool) -> (String, f64) {
    let long = if small { 3 } else { 1 + s.us(24) };
    let int = if s.chance(1, 6) { String::new() } else { let n = 1 + s.us(long); digits(s, n) };
    let n = if int.is_empty() { 1 + s.us(long) } else { s.us(long + 1) };
    let mut o = int.clone();
    if int.is_empty() || s.chance(1, 2) {
        o.push('.');
        o.push_str(&digits(s, n));
    }
    if s.chance(1, 3) {
        o.push(if s.chance(1, 2) { 'e' } else { 'E' });
        let k = s.us(3);
        o.push_str(["", "+", "-"][k]);
        let m = if small { 2 } else if k == 2 { 330 } else { 280 };
        let x = s.us(m).to_string();
        o.push_str(&if s.chance(1, 5) { format!("0{x}") } else { x });
    }
    let v: f64 = o.replace('_', "").parse().expect("a literal");
    (o, v)
}
fn literals(s: &mut Src, cx: &mut Cx) -> Out {
    let (t, v) = literal(s, false);
    let padded = match s.below(4) {
        0 => format!(" {t}\t"),
        1 => format!("({t})"),
        2 => format!("+{t}"),
        _ => t.clone(),
    };
    cx.show(format!("{padded:?}"));
    if !v.is_finite() {
        return Out::Discard;
    }
    let e = match parse(&padded) {
        Ok(e) => e,
        Err(er) => return Out::fail("reject", format!("literal {padded:?} rejected: {er:?}")),
    };
    match e.as_number() {
        Some(g) if g == v => {}
        g => return Out::fail("literal", format!("literal {padded:?} reads as {g:?}, nearest double {v:e}")),
    }
    // in a product with a name, and negative
    let w = match parse(&format!("-{t}")) {
        Ok(e) => e.as_number(),
        Err(er) => return Out::fail("reject", format!("literal -{t} rejected: {er:?}")),
    };
    if w != Some(-v) {
        return Out::fail("literal", format!("-{t} reads as {w:?}, expected {:e}", -v));
    }
    cx.pass(t.len() >= 3)
}

// ---------------------------------------------------------------- runs of words
static NAMES: &[&str] = &["x", "y", "alpha", "x1", "rate", "long_name", "Vmax", "q_0", "beta", "gamma", "sinx", "expo", "E0", "ln2", "θ", "αβ", "e1", "p", "i", "s", "in", "pie"];
static CUSTOM: &[(&str, usize)] = &[("f", 1), ("g2", 2), ("my_fn", 1), ("sinus", 1), ("xsin", 1), ("W", 1), ("logb", 2)];
fn custom_term(i: usize, a: Vec<T>) -> T {
    let n = |v: f64| b(Num(v));
    let mut it = a.into_iter().map(b);
    let mut x = || it.next().unwrap();
    match i {
        0 => Add(b(Mul(n(0.5), x())), n(1.0)),
        1 => { let (p, q) = (x(), x()); Sub(p, b(Mul(n(2.0), q))) }
        2 => Pow(x(), n(2.0)),
        3 => Add(x(), n(3.0)),
        4 => Mul(x(), n(-3.0)),
        5 => Sub(x(), n(0.25)),
        _ => { let (p, q) = (x(), x()); Sub(b(Mul(n(3.0), p)), q) }
    }
}
type Evals = HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>;
fn evals() -> Evals {
    let fs: [fn(&[f64]) -> f64; 7] = [|a| 0.5 * a[0] + 1.0, |a| a[0] - 2.0 * a[1], |a| a[0] * a[0], |a| a[0] + 3.0, |a| a[0] * -3.0, |a| a[0] - 0.25, |a| 3.0 * a[0] - a[1]];
    CUSTOM
        .iter()
        .zip(fs)
        .map(|((n, k), f)| {
            let k = *k;
            let g: Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync> = Arc::new(move |a: &[f64]| if a.len() == k { Some(f(a)) } else { None });
            (n.to_string(), g)
        })
        .collect()
}
/// What is declared, and the text written so far
struct W {
    vars: HashSet<String>,
    funs: HashSet<String>,
    builtins: Vec<&'static str>,
    o: String,
    /// words at the end of the text that are written together
    run: Vec<String>,
    /// the text ends with a number and then the constant e, written together
    e_touch: bool,
    juxta: usize,
    spaces: bool,
}
/// the documented order of preference for a run of letters
fn resolve(w: &W, q: &str, paren: bool, out: &mut Vec<String>) {
    let constant = |q: &str| ["pi", "e", "PI", "Pi", "E"].contains(&q);
    if w.vars.contains(q) || constant(q) || paren && (w.builtins.contains(&q) || w.funs.contains(q)) {
        out.push(q.to_string());
        return;
    }
    if q == "π" {
        out.push(q.to_string());
        return;
    }
    if paren {
        let mut best = "";
        for f in &w.builtins {
            if q.ends_with(f) && q.len() > f.len() && f.len() > best.len() {
                best = f;
            }
        }
        if !best.is_empty() {
            resolve(w, &q[..q.len() - best.len()], false, out);
            out.push(best.to_string());
            return;
        }
    }
    let mut rest = q;
    loop {
        let cut = rest.char_indices().map(|(i, c)| i + c.len_utf8()).find(|&i| w.vars.contains(&rest[..i]));
        match cut {
            None => return out.push(rest.to_string()),
            Some(i) if i == rest.len() => return out.push(rest.to_string()),
            Some(i) => {
                out.push(rest[..i].to_string());
                rest = &rest[i..];
                if w.vars.contains(rest) || constant(rest) || rest == "π" {
                    return out.push(rest.to_string());
                }
            }
        }
    }
}
impl W {
    fn reads(&self, words: &[String], paren: bool) -> bool {
        let mut out = vec![];
        resolve(self, &words.concat(), paren, &mut out);
        out == words
    }
    fn space(&mut self, s: &mut Src) {
        self.o.push_str(s.pick(&[" ", " ", "  ", "\t", "\n"]));
        self.run.clear();
        self.e_touch = false;
    }
    fn maybe_space(&mut self, s: &mut Src) {
        if self.e_touch || self.spaces && s.chance(1, 4) {
            self.space(s);
        }
    }
    fn op(&mut self, s: &mut Src, op: &str) {
        self.maybe_space(s);
        self.o.push_str(op);
        self.run.clear();
        self.e_touch = false;
        self.maybe_space(s);
    }
    fn open(&mut self) {
        self.o.push('(');
        self.run.clear();
        self.e_touch = false;
    }
    fn last(&self) -> char {
        self.o.trim_end().chars().last().unwrap_or('(')
    }
    fn number_before(&self) -> bool {
        // the text ends with a literal: the last word starts with a digit or a point
        let w: String = self.o.chars().rev().take_while(|c| c.is_alphanumeric() || "._".contains(*c)).collect::<Vec<_>>().into_iter().rev().collect();
        self.run.is_empty() && w.starts_with(|c: char| c.is_ascii_digit() || c == '.')
    }
    /// write a word, directly after the text or not; `call`: it is the name of a function and ( follows
    fn word(&mut self, s: &mut Src, word: &str, call: bool) {
        let mut words = self.run.clone();
        words.push(word.to_string());
        let prev = self.o.chars().last().unwrap_or('(');
        let touch = if self.number_before() {
            let exp = word.starts_with(['e', 'E']) && word[1..].starts_with(|c: char| c.is_ascii_digit());
            !exp && !word.starts_with('_')
        } else if prev == 'π' && self.run.is_empty() {
            self.reads(&[word.to_string()], call)
        } else if prev.is_alphanumeric() || prev == '_' {
            !self.run.is_empty() && self.reads(&words, call)
        } else {
            true
        };
        let e_after_number = self.number_before();
        if !touch || s.chance(1, 4) && self.spaces {
            self.space(s);
        }
        if prev.is_alphanumeric() && touch {
            self.juxta += 1;
        }
        let touched = !self.o.ends_with(|c: char| c.is_whitespace());
        self.e_touch = touched && e_after_number && word == "e";
        if self.run.is_empty() || !touched { self.run.clear(); }
        self.run.push(word.to_string());
        self.o.push_str(word);
    }
    /// put what is needed between two factors that multiply without a sign; false: it needs one
    fn join_number(&mut self, s: &mut Src) -> bool {
        if self.number_before() || self.o.trim_end().len() != self.o.len() && self.last_is_number() {
            return false;
        }
        let l = self.last();
        if l.is_alphanumeric() || l == '_' {
            self.space(s);
        }
        true
    }
    fn last_is_number(&self) -> bool {
        let w: String = self.o.trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || "._".contains(*c)).collect::<Vec<_>>().into_iter().rev().collect();
        w.starts_with(|c: char| c.is_ascii_digit() || c == '.')
    }
}
fn arguments(s: &mut Src, w: &mut W, n: usize, depth: usize) -> Vec<T> {
    // between the name of a function and its arguments there may be space
    if w.spaces && s.chance(1, 8) {
        w.o.push(' ');
    }
    w.open();
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            w.op(s, ",");
        }
        v.push(sum(s, w, depth.saturating_sub(1)));
    }
    w.op(s, ")");
    v
}
/// `first`: nothing multiplies it without a sign from the left
fn base(s: &mut Src, w: &mut W, depth: usize, first: bool) -> Option<T> {
    let k = s.weighted(&[4, 6, 2, if depth > 0 { 4 } else { 0 }, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]);
    match k {
        0 => {
            if !first && !w.join_number(s) {
                return None;
            }
            let (t, v) = literal(s, true);
            w.run.clear();
            w.e_touch = false;
            w.o.push_str(&t);
            Some(Num(v))
        }
        1 => {
            let i = s.us(NAMES.len());
            let n = NAMES[i];
            // an undeclared name must stand for itself
            if !w.reads(&[n.to_string()], false) {
                return None;
            }
            w.word(s, n, false);
            Some(Var(i))
        }
        2 => {
            let (n, t) = s.pick(&[("pi", Pi), ("e", E), ("π", Pi)]).clone();
            if n == "π" && w.run.is_empty() {
                // at the front of a word it is a token of its own
                if w.o.ends_with(|c: char| c.is_alphanumeric() && c != 'π' || c == '_') && !w.number_before() {
                    w.space(s);
                }
                w.o.push_str(n);
                w.e_touch = false;
            } else {
                w.word(s, n, false);
            }
            Some(t)
        }
        3 => {
            let f = gen::pick_fun(s, FunSet::Elem)?;
            let mut n = f.name;
            if s.chance(1, 2) {
                n = if n == "sin" { "sen" } else { n };
            }
            if !w.reads(&[n.to_string()], true) || w.vars.contains(n) {
                return None;
            }
            w.word(s, n, true);
            let a = arguments(s, w, f.arity, depth);
            Some(F(f, a))
        }
        4 => {
            let i = s.us(CUSTOM.len());
            let (n, k) = CUSTOM[i];
            if !w.funs.contains(n) || w.vars.contains(n) {
                return None;
            }
            w.word(s, n, true);
            Some(custom_term(i, arguments(s, w, k, depth)))
        }
        _ => {
            // ( after a word: the word must not become a function
            if !w.run.is_empty() || w.last().is_alphabetic() || w.last() == '_' || w.last().is_ascii_digit() && !w.last_is_number() {
                let run = w.run.clone();
                let l = run.last()?.clone();
                if run.is_empty() || !w.reads(&run, true) || w.funs.contains(&l) || w.builtins.contains(&l.as_str()) && (run.len() > 1 || !w.vars.contains(&l)) {
                    return None;
                }
                w.juxta += 1;
            }
            w.open();
            w.maybe_space(s);
            let t = sum(s, w, depth - 1);
            w.op(s, ")");
            Some(t)
        }
    }
}
fn base_some(s: &mut Src, w: &mut W, depth: usize, first: bool) -> T {
    for _ in 0..20 {
        let d = if w.o.len() > 150 { 0 } else { depth };
        if let Some(t) = base(s, w, d, first) {
            return t;
        }
    }
    if !first {
        w.op(s, "*");
    }
    w.word(s, "pi", false);
    Pi
}
fn factor(s: &mut Src, w: &mut W, depth: usize, first: bool) -> T {
    let x = base_some(s, w, depth, first);
    if s.chance(1, 4) {
        let op = if s.chance(1, 4) { "**" } else { "^" };
        w.op(s, op);
        return Pow(b(x), b(exponent(s, w, depth)));
    }
    x
}
fn exponent(s: &mut Src, w: &mut W, depth: usize) -> T {
    match s.below(5) {
        0 => {
            w.op(s, "-");
            let k = 1 + s.us(3);
            w.o.push_str(&k.to_string());
            Neg(b(Num(k as f64)))
        }
        1 => factor(s, w, depth.saturating_sub(1), true),
        _ => {
            let k = 1 + s.us(3);
            w.o.push_str(&k.to_string());
            Num(k as f64)
        }
    }
}
fn product(s: &mut Src, w: &mut W, depth: usize) -> T {
    let mut t = factor(s, w, depth, true);
    for _ in 0..s.weighted(&[3, 4, 3, 1]) {
        match s.weighted(&[2, 1, 5]) {
            0 => {
                w.op(s, "*");
                // a sign directly after the operator belongs to the factor
                if s.chance(1, 8) {
                    w.op(s, "-");
                    let r = factor(s, w, depth, true);
                    t = Mul(b(t), b(Neg(b(r))));
                } else {
                    let r = factor(s, w, depth, true);
                    t = Mul(b(t), b(r));
                }
            }
            1 => {
                w.op(s, "/");
                let r = factor(s, w, depth, true);
                t = Div(b(t), b(r));
            }
            _ => {
                let r = factor(s, w, depth, false);
                t = Mul(b(t), b(r));
            }
        }
    }
    t
}
fn sum(s: &mut Src, w: &mut W, depth: usize) -> T {
    let neg = s.weighted(&[8, 2, 1]);
    if neg > 0 {
        w.op(s, if neg == 1 { "-" } else { "+" });
    }
    let mut t = product(s, w, depth);
    if neg == 1 {
        t = Neg(b(t));
    }
    for _ in 0..s.weighted(&[5, 4, 2]) {
        let minus = s.chance(1, 2);
        w.op(s, if minus { "-" } else { "+" });
        let r = product(s, w, depth);
        t = if minus { Sub(b(t), b(r)) } else { Add(b(t), b(r)) };
    }
    t
}
fn words(s: &mut Src, cx: &mut Cx) -> Out {
    let vars: HashSet<String> = NAMES.iter().filter(|_| s.chance(1, 2)).map(|n| n.to_string()).collect();
    let funs: HashSet<String> = CUSTOM.iter().filter(|_| s.chance(1, 2)).map(|n| n.0.to_string()).collect();
    let mut builtins: Vec<&'static str> = known_functions();
    builtins.extend(["sen", "spherical_harmonic"]);
    let mut w = W { vars, funs, builtins, o: String::new(), run: vec![], e_touch: false, juxta: 0, spaces: s.chance(1, 2) };
    let t = sum(s, &mut w, 2);
    let mut dv: Vec<&String> = w.vars.iter().collect();
    dv.sort();
    let mut df: Vec<&String> = w.funs.iter().collect();
    df.sort();
    cx.show(format!("{:?} with variables {dv:?} and functions {df:?}", w.o));
    cx.show(format!("meaning {t}"));
    if !gen::tame(&t) {
        return Out::Discard;
    }
    let e = match sa::parse(&w.o, &w.vars, &w.funs, None) {
        Ok(e) => e,
        Err(er) => return Out::fail("reject", format!("well-formed formula {:?} rejected: {er:?}", w.o)),
    };
    let ce = evals();
    let mut good = 0;
    for _ in 0..4 {
        let env: Vec<f64> = NAMES.iter().map(|_| if s.chance(3, 4) { 0.2 + 2.3 * s.unit() } else { 4.0 * s.unit() - 2.0 }).collect();
        let Ev::Val(want) = ev(&t, &env) else { continue };
        if want.e > 1e-4 * want.v.abs().max(1e-3) || !(want.v.abs() < 1e100) {
            continue;
        }
        let m: HashMap<&str, f64> = NAMES.iter().copied().zip(env.iter().copied()).collect();
        let got = e.evaluate(&m, &ce).as_number();
        let ok = got.is_some_and(|g| (g - want.v).abs() <= 50.0 * want.e + 1e-9 * want.v.abs() + 1e-9);
        if !ok {
            return Out::fail("value", format!("{:?} is {got:?}, read correctly {}; expression {e}, meaning {t}", w.o, want.v));
        }
        good += 1;
    }
    if w.juxta > 0 {
        cx.count("words or numbers written together");
    }
    cx.pass(good > 0 && t.size() >= 3)
}
/// every function the parser knows as a call
fn known_functions() -> Vec<&'static str> {
    vec![
        "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "acot", "asec", "acsc", "ln", "exp", "log", "log10", "log2", "exp_polar", "sinh", "cosh", "tanh", "coth", "sech", "csch", "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "sqrt", "cbrt", "sinc", "abs",
        "signum", "floor", "ceil", "round", "erf", "erfc", "gamma", "digamma", "trigamma", "tetragamma", "polygamma", "beta", "zeta", "besselj", "bessely", "besseli", "besselk", "lambertw", "ynm", "assoc_legendre", "hermite", "elliptic_e", "elliptic_k", "zeta_deriv", "atan2",
    ]
}
fn spec() -> Spec {
    init_special();
    Spec::new("C01", "random formula text with its reading (formulas of all functions; numeric literals; runs of declared names, functions and numbers written together); non-trivial: at least three nodes and a point where the value is well-conditioned, or a literal of three characters")
        .stage("formula", 400_000, 8_000_000, formula)
        .stage("literals", 100_000, 2_000_000, literals)
        .stage("words", 400_000, 8_000_000, words)
}
fn main() {
    main_with(spec)
}
