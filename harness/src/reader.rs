//! Independent readers of the LaTeX and Unicode renderings (C04): both give a reference term.
use crate::*;

type R<A> = Result<A, String>;
const GREEK: &[(&str, char)] = &[
    ("pi", 'π'), ("alpha", 'α'), ("beta", 'β'), ("gamma", 'γ'), ("delta", 'δ'), ("theta", 'θ'), ("lambda", 'λ'),
    ("mu", 'μ'), ("omega", 'ω'), ("sigma", 'σ'), ("rho", 'ρ'), ("tau", 'τ'), ("zeta", 'ζ'), ("eta", 'η'), ("iota", 'ι'),
    ("kappa", 'κ'), ("nu", 'ν'), ("xi", 'ξ'), ("chi", 'χ'), ("psi", 'ψ'), ("upsilon", 'υ'), ("epsilon", 'ε'), ("phi", 'φ'),
];

fn name(n: &str) -> T {
    match n {
        "pi" => Pi,
        "e" => E,
        _ => var_index(n).map(Var).unwrap_or_else(|| Opaque(n.to_string())),
    }
}
fn call(n: &str, a: Vec<T>) -> R<T> {
    match fun(n) {
        Some(f) if f.arity == a.len() => Ok(F(f, a)),
        _ => Err(format!("no function {n} of {} arguments", a.len())),
    }
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    /// names a reader knows (longest first)
    names: Vec<Vec<char>>,
    latex: bool,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn at(&self, t: &str) -> bool {
        let v: Vec<char> = t.chars().collect();
        if !self.s[self.i..].starts_with(&v) {
            return false;
        }
        // a TeX control word ends where its letters end
        !(t.starts_with('\\') && v.last().unwrap().is_ascii_alphabetic() && self.s.get(self.i + v.len()).is_some_and(|c| c.is_ascii_alphabetic()))
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.at(t) {
            self.i += t.chars().count();
            return true;
        }
        false
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {t:?} at {:?}", self.rest()))
        }
    }
    fn rest(&self) -> String {
        self.s[self.i.min(self.s.len())..].iter().take(30).collect()
    }
    fn number(&mut self) -> R<f64> {
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && (self.s[j].is_ascii_digit() || self.s[j] == '.') {
            j += 1;
        }
        if !self.latex && j < self.s.len() && self.s[j] == 'e' && self.s.get(j + 1).is_some_and(|c| c.is_ascii_digit() || *c == '-') {
            j += 2;
            while j < self.s.len() && self.s[j].is_ascii_digit() {
                j += 1;
            }
        }
        self.i = j;
        let t: String = self.s[st..j].iter().collect();
        t.parse().map_err(|_| format!("bad number {t:?}"))
    }
    fn sum(&mut self) -> R<T> {
        let mut v = vec![];
        loop {
            self.ws();
            let signed = self.at("-") || self.at("−");
            if self.eat("+") {
                if v.is_empty() {
                    return Err("leading plus".into());
                }
            } else if !signed && !v.is_empty() {
                break;
            }
            let neg = self.minus();
            let t = self.product()?;
            v.push(if neg { Neg(b(t)) } else { t });
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Sum(v) })
    }
    /// a run of minus signs: is their product negative?
    fn minus(&mut self) -> bool {
        let mut neg = false;
        while self.eat("-") || self.eat("−") {
            neg = !neg;
        }
        neg
    }
    fn signed_power(&mut self) -> R<T> {
        if self.minus() {
            return Ok(Neg(b(self.power()?)));
        }
        self.power()
    }
    fn product(&mut self) -> R<T> {
        let mut acc = self.power()?;
        loop {
            let dot = if self.latex { self.eat(r"\cdot") || self.eat("*") || self.eat(r"\times") } else { self.eat("·") || self.eat("*") };
            if dot {
                acc = Mul(b(acc), b(self.signed_power()?));
            } else if !self.latex && self.eat("/") {
                acc = Div(b(acc), b(self.signed_power()?));
            } else {
                self.ws();
                // juxtaposed operands multiply
                let c = self.s.get(self.i).copied().unwrap_or('\0');
                let starts = c.is_alphanumeric() || c == '(' || c == '\\' && !self.at(r"\right") && !self.at(r"\rfloor") && !self.at(r"\rceil");
                if !starts {
                    return Ok(acc);
                }
                acc = Mul(b(acc), b(self.power()?));
            }
        }
    }
    fn power(&mut self) -> R<T> {
        let base = self.primary()?;
        self.ws();
        if self.latex {
            if self.eat("^") {
                let e = self.script()?;
                if self.eat("^") {
                    return Err("double superscript".into());
                }
                return Ok(Pow(b(base), b(e)));
            }
            return Ok(base);
        }
        if self.eat("^") {
            let neg = self.minus();
            let e = self.power()?;
            return Ok(Pow(b(base), b(if neg { Neg(b(e)) } else { e })));
        }
        const SUP: &str = "⁰¹²³⁴⁵⁶⁷⁸⁹⁻";
        let mut t = String::new();
        while self.i < self.s.len() {
            match SUP.chars().position(|c| c == self.s[self.i]) {
                Some(10) => t.push('-'),
                Some(d) => t.push((b'0' + d as u8) as char),
                None => break,
            }
            self.i += 1;
        }
        if t.is_empty() {
            return Ok(base);
        }
        Ok(Pow(b(base), b(Num(t.parse().map_err(|_| format!("bad superscript {t}"))?))))
    }
    /// what a TeX `^`, `_` or macro argument takes: a braced group or one token
    fn script(&mut self) -> R<T> {
        self.ws();
        if self.eat("{") {
            let t = self.sum()?;
            self.need("}")?;
            return Ok(t);
        }
        match self.s.get(self.i) {
            Some(c) if c.is_ascii_digit() => {
                let d = c.to_digit(10).unwrap();
                self.i += 1;
                Ok(Num(d as f64))
            }
            Some(c) if c.is_alphabetic() => {
                let t = name(&c.to_string());
                self.i += 1;
                Ok(t)
            }
            Some('\\') => self.primary(),
            _ => Err(format!("no script at {:?}", self.rest())),
        }
    }
    fn group(&mut self) -> R<T> {
        self.need("{")?;
        let t = self.sum()?;
        self.need("}")?;
        Ok(t)
    }
    fn paren(&mut self) -> R<Vec<T>> {
        let (o, c) = if self.latex && self.eat(r"\left") {
            self.need("(")?;
            (true, ")")
        } else {
            self.need("(")?;
            (false, ")")
        };
        let mut v = vec![self.sum()?];
        while self.eat(",") {
            v.push(self.sum()?);
        }
        if o {
            self.need(r"\right")?;
        }
        self.need(c)?;
        Ok(v)
    }
    fn one(&mut self) -> R<T> {
        let mut v = self.paren()?;
        if v.len() != 1 {
            return Err("several values in a parenthesis".into());
        }
        Ok(v.pop().unwrap())
    }
    fn called(&mut self, f: &str) -> R<T> {
        let a = self.paren()?;
        call(f, a)
    }
    fn primary(&mut self) -> R<T> {
        self.ws();
        let Some(&c) = self.s.get(self.i) else { return Err("operand missing at the end".into()) };
        if c.is_ascii_digit() || c == '.' {
            return self.number().map(Num);
        }
        if c == '(' {
            return self.one();
        }
        if c == '∞' {
            self.i += 1;
            return Ok(Num(f64::INFINITY));
        }
        if c == '\\' {
            return self.command();
        }
        if self.latex && (c == '{') {
            return self.group();
        }
        if self.latex {
            for (pre, f) in [("J_", "besselj"), ("I_", "besseli"), ("H_", "hermite")] {
                if self.at(pre) && self.eat(pre) {
                    let n = self.script()?;
                    let x = self.one()?;
                    return call(f, vec![n, x]);
                }
            }
            if self.at("K_") && self.eat("K_") {
                let n = self.script()?;
                let x = self.one()?;
                return call("besselk", vec![n, x]);
            }
            if self.at("Y_") && self.eat("Y_") {
                let n = self.script()?;
                if self.eat("^") {
                    let m = self.script()?;
                    let mut a = self.paren()?;
                    a.insert(0, m);
                    a.insert(0, n);
                    return call("ynm", a);
                }
                let x = self.one()?;
                return call("bessely", vec![n, x]);
            }
            if self.at("P_") && self.eat("P_") {
                let n = self.script()?;
                self.need("^")?;
                let m = self.script()?;
                let x = self.one()?;
                return call("assoc_legendre", vec![n, m, x]);
            }
            for (pre, f) in [("K\\left(", "elliptic_k"), ("E\\left(", "elliptic_e"), ("W\\left(", "lambertw")] {
                if self.at(pre) {
                    self.i += 1;
                    return self.called(f);
                }
            }
        }
        // names: declared ones are one token; in plain text so are functions
        if !self.latex && (c.is_alphabetic() || c == '_') {
            if let Some((n, _)) = GREEK.iter().find(|g| g.1 == c) {
                self.i += 1;
                return Ok(name(n));
            }
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == '_') {
                self.i += 1;
            }
            let n: String = self.s[st..self.i].iter().collect();
            if self.s.get(self.i) == Some(&'(') && fun(&n).is_some() {
                return self.called(&n);
            }
            if n == "Infinity" {
                return Ok(Num(f64::INFINITY));
            }
            return Ok(name(&n));
        }
        for n in self.names.clone() {
            if self.s[self.i..].starts_with(&n) {
                self.i += n.len();
                return Ok(name(&n.iter().collect::<String>()));
            }
        }
        if c.is_alphabetic() {
            self.i += 1;
            return Ok(name(&c.to_string()));
        }
        Err(format!("operand missing at {:?}", self.rest()))
    }
    fn command(&mut self) -> R<T> {
        let mut j = self.i + 1;
        while j < self.s.len() && self.s[j].is_ascii_alphabetic() {
            j += 1;
        }
        let n: String = self.s[self.i + 1..j].iter().collect();
        self.i = j;
        match n.as_str() {
            "frac" => {
                let a = self.group()?;
                let c = self.group()?;
                Ok(Div(b(a), b(c)))
            }
            "sqrt" => {
                if self.eat("[") {
                    self.need("3")?;
                    self.need("]")?;
                    return call("cbrt", vec![self.group()?]);
                }
                call("sqrt", vec![self.group()?])
            }
            "left" => {
                if self.eat("|") {
                    let t = self.sum()?;
                    self.need(r"\right")?;
                    self.need("|")?;
                    return call("abs", vec![t]);
                }
                for (o, c, f) in [(r"\lfloor", r"\rfloor", "floor"), (r"\lceil", r"\rceil", "ceil")] {
                    if self.eat(o) {
                        let t = self.sum()?;
                        self.need(r"\right")?;
                        self.need(c)?;
                        return call(f, vec![t]);
                    }
                }
                self.i = j - 5;
                self.one()
            }
            "lfloor" | "lceil" => {
                let t = self.sum()?;
                self.need(if n == "lfloor" { r"\rfloor" } else { r"\rceil" })?;
                call(if n == "lfloor" { "floor" } else { "ceil" }, vec![t])
            }
            "infty" => Ok(Num(f64::INFINITY)),
            "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "sinh" | "cosh" | "tanh" | "coth" | "ln" | "exp" => self.called(&n),
            "Gamma" => self.called("gamma"),
            "log" => {
                if self.eat("_") {
                    let base = self.script()?;
                    let x = self.one()?;
                    return if base == Num(2.0) { call("log2", vec![x]) } else { call("log", vec![base, x]) };
                }
                self.called("log10")
            }
            "psi" | "zeta" if self.at(r"\left(") => self.called(if n == "psi" { "digamma" } else { "zeta" }),
            "psi" if self.at("_") => {
                self.i += 1;
                match self.script()? {
                    Num(1.0) => self.called("trigamma"),
                    Num(2.0) => self.called("tetragamma"),
                    o => Err(format!("psi_{o}")),
                }
            }
            "psi" | "zeta" if self.at("^{(") => {
                self.i += 3;
                let k = self.sum()?;
                self.need(")")?;
                self.need("}")?;
                let x = self.one()?;
                call(if n == "psi" { "polygamma" } else { "zeta_deriv" }, vec![k, x])
            }
            "mathrm" => {
                self.need("{")?;
                self.need("B")?;
                self.need("}")?;
                self.called("beta")
            }
            "operatorname" | "text" => {
                self.need("{")?;
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i] != '}' {
                    self.i += 1;
                }
                let f: String = self.s[st..self.i].iter().collect();
                self.need("}")?;
                let f = match f.as_str() {
                    "arsinh" => "asinh",
                    "arcosh" => "acosh",
                    "artanh" => "atanh",
                    "arcoth" => "acoth",
                    "arsech" => "asech",
                    "arcsch" => "acsch",
                    "sgn" => "signum",
                    r"exp\_polar" => "exp_polar",
                    o => o,
                };
                self.called(f)
            }
            o if GREEK.iter().any(|g| g.0 == o) => Ok(name(o)),
            o => Err(format!("unknown control sequence \\{o}")),
        }
    }
}

fn read(s: &str, latex: bool) -> R<T> {
    let v: Vec<char> = s.chars().collect();
    let mut names: Vec<Vec<char>> = VARS.iter().map(|n| n.chars().collect()).collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    let mut p = P { s: &v, i: 0, names, latex };
    let t = p.sum()?;
    p.ws();
    if p.i < v.len() {
        return Err(format!("left over: {:?}", p.rest()));
    }
    Ok(t)
}
pub fn latex(s: &str) -> R<T> {
    let mut d = 0i64;
    let (mut l, mut prev) = (0i64, ' ');
    for c in s.chars() {
        if prev != '\\' {
            match c {
                '{' => d += 1,
                '}' => d -= 1,
                _ => {}
            }
        }
        if d < 0 {
            return Err("braces do not balance".into());
        }
        prev = c;
    }
    l += s.matches(r"\left").count() as i64 - s.matches(r"\right").count() as i64;
    if d != 0 || l != 0 {
        return Err("braces or delimiters do not balance".into());
    }
    read(s, true)
}
pub fn unicode(s: &str) -> R<T> {
    read(s, false)
}
