//! C02: any input string gives a result or an error, never a crash.
use sa::DiffError as D;
use std::collections::HashSet;
use vchk::*;

const PIECES: &[&str] = &[
    "x", "y", "z", "alpha", "x1", "e", "pi", "π", "θ₁", "αβ", "1", "2", "0", "10", "3.5", ".5", "5.", "1e3", "2e", "2e-", "1e400", "1e-400", "1_000", "0x1", "99999999999999999999", "∞", "NaN", "inf", "+", "-", "*", "/", "^", "**", "***", "(", ")", "(", ")", "((", "))", "()", ",", ",,", " ", "\t", "\n",
    "\u{a0}", "\u{200b}", "\0", "é", "e\u{301}", "🦀", "字", "²", "½", "Ⅷ", "\u{202e}", "sin", "sin(", "cos(", "tan(x)", "exp(", "ln(", "log(", "sqrt(", "abs(", "atan2(", "besselj(", "polygamma(", "ynm(", "hermite(", "f(", "g(", "user(", "f", "sinx", "xsin(", "sinsin(", "sin^2(x)", "sin (x)", "∂", "∂_f(x)/∂_x",
    "∂^2_f(x)/∂_x^2", "∂_", "∂^", "/∂_x", "∂^1_∂^1_f(x)/∂_arg0^1/∂_x^1", "∂_f(∂_g(x)/∂_x)/∂_x", "_", "__", "a_b", "#", "$", "@", "!", "%", "&", "=", "<", ";", ":", "'", "\"", "\\", "[", "]", "{", "}", "|", "~", "`", "?",
];
const NAMES: &[&str] = &["x", "y", "z", "alpha", "x1", "e", "pi", "f", "sin", "a_b", "_", "", " ", "(", "θ₁", "αβ", "é", "2x", "x y", "∂", "🦀", "user", "xsin", "αβγ", "l", "si"];

fn sets(s: &mut Src) -> (HashSet<String>, HashSet<String>) {
    let mut a = HashSet::new();
    let mut c = HashSet::new();
    for _ in 0..s.us(5) {
        a.insert(s.pick(NAMES).to_string());
    }
    for _ in 0..s.us(4) {
        c.insert(s.pick(NAMES).to_string());
    }
    (a, c)
}
fn span_of(e: &D) -> Option<(usize, usize, Option<&str>)> {
    match e {
        D::InvalidSyntax { span, .. } | D::UnexpectedToken { span, .. } | D::AmbiguousSequence { span, .. } => span.as_ref().map(|p| (p.start(), p.end(), None)),
        D::InvalidNumber { value: t, span } | D::InvalidToken { token: t, span } => span.as_ref().map(|p| (p.start(), p.end(), Some(t.as_str()))),
        _ => None,
    }
}
fn error_ok(e: &D, text: &str) -> Result<(), Out> {
    let _ = format!("{e} {e:?}");
    if let Some((a, z, tok)) = span_of(e) {
        if a > z || z > text.len() {
            return Err(Out::fail("span", format!("error {e:?} points at {a}..{z} of an input of {} bytes", text.len())));
        }
        if let (Some(t), Some(here)) = (tok, text.get(a..z)) {
            if here.is_ascii() && here != t {
                return Err(Out::fail("span text", format!("error {e:?} points at {here:?}")));
            }
        }
    }
    Ok(())
}
/// everything a caller does with a string; Ok(parsed?)
fn drive(s: &mut Src, text: &str, known: &HashSet<String>, funs: &HashSet<String>) -> Result<bool, Out> {
    let r = match guard(|| sa::parse(text, known, funs, None)) {
        Err(p) => return Err(Out::fail("panic", format!("parse panicked: {p}"))),
        Ok(r) => r,
    };
    let names: Vec<&str> = known.iter().map(String::as_str).collect();
    let v = *s.pick(&["x", "y", "alpha", "", "q", "é", "f", "pi"]);
    let strings = guard(|| {
        let a = sa::diff(text, v, &names, None);
        let c = sa::simplify(text, &names, None);
        let d = sa::evaluate_str(text, &[("x", 1.5), ("y", -0.5)]);
        vec![a, c, d]
    });
    match strings {
        Err(p) => return Err(Out::fail("panic", format!("diff/simplify/evaluate of the text panicked: {p}"))),
        Ok(v) => {
            for x in v {
                if let Err(e) = x {
                    error_ok(&e, text)?;
                }
            }
        }
    }
    match r {
        Err(e) => {
            error_ok(&e, text)?;
            Ok(false)
        }
        Ok(e) => {
            let done = guard(|| {
                let _ = (e.to_string(), e.to_latex(), e.to_unicode(), format!("{e:?}").len());
                let _ = (e.node_count(), e.max_depth(), e.variables());
                let d = sa::Diff::new().domain_safe(true).differentiate(&e, &sa::symb("x"));
                if let Ok(d) = d {
                    let _ = d.to_string();
                }
                let _ = e.evaluate(&env_map(&[1.5, -0.5, 2.0]), &Default::default()).to_string();
                let vars = e.variables();
                let vs: Vec<&str> = vars.iter().map(String::as_str).collect();
                if let Ok(c) = sa::CompiledEvaluator::compile(&e, &vs, None) {
                    let a = vec![0.75; vs.len()];
                    let _ = c.evaluate(&a);
                }
            });
            done.map_err(|p| Out::fail("panic", format!("using the parsed expression panicked: {p}")))?;
            Ok(true)
        }
    }
}
fn soup(s: &mut Src, cx: &mut Cx) -> Out {
    let mut t = String::new();
    for _ in 0..1 + s.us(14) {
        if s.chance(1, 25) {
            t.push(char::from_u32(s.below(0x3000) as u32).unwrap_or('?'));
        } else {
            t.push_str(s.pick(PIECES));
        }
    }
    let (k, f) = sets(s);
    cx.show(format!("{t:?} known {:?} functions {:?}", sorted(&k), sorted(&f)));
    match drive(s, &t, &k, &f) {
        Err(o) => o,
        Ok(p) => {
            cx.count(if p { "accepted" } else { "rejected" });
            cx.pass(t.len() >= 3)
        }
    }
}
fn sorted(h: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<&String> = h.iter().collect();
    v.sort();
    v
}
fn valid(s: &mut Src, size: usize) -> (T, String) {
    let mut c = Cfg::new(size, 4, FunSet::All);
    c.long_vars = s.chance(1, 4);
    let t = gen::term(s, &c);
    let st = Style { implicit: s.chance(1, 2), spaces: s.chance(1, 2), redundant: s.chance(1, 3), starstar: s.chance(1, 4) };
    let f = print_formula(&t, s, st);
    (t, f)
}
fn mutate(s: &mut Src, cx: &mut Cx) -> Out {
    let (_, f) = valid(s, 12);
    let mut cs: Vec<char> = f.chars().collect();
    for _ in 0..1 + s.us(3) {
        let n = cs.len();
        if n == 0 {
            break;
        }
        match s.below(5) {
            0 => {
                cs.remove(s.us(n));
            }
            1 => {
                let c = cs[s.us(n)];
                cs.insert(s.us(n + 1), c);
            }
            2 => {
                let (a, c) = (s.us(n), s.us(n));
                cs.swap(a, c);
            }
            3 => {
                let at = s.us(n + 1);
                for (k, c) in s.pick(PIECES).chars().enumerate() {
                    cs.insert(at + k, c);
                }
            }
            _ => {
                let (a, c) = (s.us(n), s.us(n));
                let (a, c) = (a.min(c), a.max(c));
                let part: Vec<char> = cs[a..c].to_vec();
                if s.chance(1, 2) {
                    cs.drain(a..c);
                } else {
                    cs.extend(part);
                }
            }
        }
    }
    let t: String = cs.into_iter().collect();
    cx.show(format!("{t:?}"));
    let k = known();
    match drive(s, &t, &k, &HashSet::new()) {
        Err(o) => o,
        Ok(p) => {
            cx.count(if p { "accepted" } else { "rejected" });
            cx.pass(t.len() >= 3)
        }
    }
}
/// A text that is certainly malformed must be rejected.
fn malformed(s: &mut Src, cx: &mut Cx) -> Out {
    let (t, a) = valid(s, 8);
    let (_, c) = valid(s, 4);
    let sp = *s.pick(&["", " "]);
    let bad = *s.pick(&["#", "$", "@", "!", "%", "&", "=", "<", ">", ";", ":", "'", "\"", "\\", "[", "]", "{", "}", "|", "~", "`", "?", "🦀", "\0", "√", "×", "÷", "·", "−", "∞"]);
    let op = *s.pick(&["+", "-", "*", "/", "^"]);
    let bop = *s.pick(&["*", "/", "^"]);
    let f = gen::pick_fun(s, FunSet::All).unwrap();
    let arg = |s: &mut Src| -> String { s.pick(&["x", "2", "x+1", "sin(y)"]).to_string() };
    let kind = s.below(16);
    let (what, text) = match kind {
        0 => ("unknown character", format!("{a}{sp}{bad}{sp}{c}")),
        1 => ("unknown character", format!("({a}{sp}{bad})*{c}")),
        2 => ("unknown character", if s.chance(1, 2) { format!("{bad}{sp}{a}") } else { format!("{a}{sp}{bad}") }),
        3 => ("missing right operand", format!("{a}{sp}{op}{sp}")),
        4 => ("missing right operand", format!("({a}{sp}{op}){sp}*{c}")),
        5 => ("missing left operand", format!("{bop}{sp}{a}")),
        6 => ("missing operand", format!("{a} {op} {bop} {c}")),
        7 => ("missing operand", format!("{a} {op} ({bop}{c})")),
        8 => ("empty parentheses", format!("{a} {op} ()")),
        9 => ("no arguments", format!("{a} {op} {}()", f.name)),
        10 if f.arity > 1 => {
            let v: Vec<String> = (0..f.arity - 1).map(|_| arg(s)).collect();
            ("too few arguments", format!("{a} {op} {}({})", f.name, v.join(", ")))
        }
        10 | 11 => {
            let v: Vec<String> = (0..f.arity + 1 + s.us(2)).map(|_| arg(s)).collect();
            ("too many arguments", format!("{a} {op} {}({})", f.name, v.join(", ")))
        }
        12 => ("missing argument", if s.chance(1, 2) { format!("atan2({a},)") } else { format!("atan2(,{a})") }),
        13 => ("leftover tokens", format!("{a}{sp},{sp}{c}")),
        14 => ("leftover tokens", match s.below(3) {
            0 => format!("({a}),"),
            1 => format!("({a}, {c})*2"),
            _ => format!("sin({a}) , , {c}"),
        }),
        _ => ("function without arguments", format!("2 {op} {}", s.pick(&["sin)", "cos+1)", "(2, 3)", "(x y,)"]))),
    };
    // log takes one or two arguments
    if f.name == "log" && what.contains("few") || f.name == "log10" && false {
        return Out::Discard;
    }
    if kind == 15 && text.contains("sin)") || kind == 15 && text.contains("cos+") {
        return Out::Discard; // reads as a symbol called sin
    }
    let _ = t;
    cx.show(format!("{what}: {text:?}"));
    let k = known();
    match drive(s, &text, &k, &HashSet::new()) {
        Err(o) => o,
        Ok(true) => Out::fail("accepted", format!("malformed text ({what}) was accepted as {}", sa::parse(&text, &k, &HashSet::new(), None).map(|e| e.to_string()).unwrap_or_default())),
        Ok(false) => {
            cx.count(what);
            cx.pass(true)
        }
    }
}
/// long and deeply nested inputs
fn deep(s: &mut Src, cx: &mut Cx) -> Out {
    let n = match s.below(4) {
        0 => 20 + s.us(100),
        1 => 100 + s.us(900),
        2 => 1000 + s.us(9000),
        _ => 10_000 + s.us(90_000),
    };
    let kinds: &[(&str, &str, &str)] = &[
        ("(", "x", ")"),
        ("(", "x", ""),
        ("", "x", ")"),
        ("-", "x", ""),
        ("+", "x", ""),
        ("sin(", "x", ")"),
        ("sin(", "", ""),
        ("x^", "x", ""),
        ("2^-", "x", ""),
        ("x/", "x", ""),
        ("x*", "y", ""),
        ("x-", "y", ""),
        ("x+y*", "z", ""),
        ("(x+", "1", ")"),
        ("(x*", "1", "+y)"),
        ("1/(1+", "x", ")"),
        ("x(", "x", ")"),
        ("atan2(x,", "y", ")"),
        ("f(", "x", ")"),
        ("sqrt(1+", "x", ")"),
        ("exp(-", "x", ")"),
        ("∂_f(", "x", ")/∂_x"),
        ("∂^1_", "f(x)/∂_x", "/∂_x"),
        ("xsin(", "x", ")"),
        ("x,", "x", ""),
        ("9", "9", ""),
        ("x", "y", "z"),
        ("2x", "", ""),
        (" ", "x", " "),
        ("(-x)^", "2", ""),
    ];
    let (l, m, r) = *s.pick(kinds);
    let text = format!("{}{m}{}", l.repeat(n), r.repeat(n));
    cx.show(format!("{l:?} x {n}, {m:?}, {r:?} x {n}"));
    let funs: HashSet<String> = ["f".to_string()].into();
    let k = known();
    let r = match guard(|| sa::parse(&text, &k, &funs, None).map(drop)) {
        Err(p) => return Out::fail("panic", format!("parse panicked: {p}")),
        Ok(r) => r,
    };
    if let Err(e) = &r {
        if let Err(o) = error_ok(e, &text) {
            return o;
        }
    }
    cx.count(if r.is_ok() { "accepted" } else { "rejected" });
    if r.is_ok() && s.chance(1, 2) {
        let (a, c) = match guard(|| (sa::diff(&text, "x", &["y"], None).is_ok(), if n <= 300 { sa::simplify(&text, &["y"], None).is_ok() } else { true })) {
            Err(p) => return Out::fail("panic", p),
            Ok(v) => v,
        };
        cx.count(if a && c { "differentiated" } else { "not differentiated" });
    }
    cx.pass(true)
}
fn spec() -> Spec {
    init_special();
    Spec::new("C02", "strings of random pieces, broken valid formulas, certainly malformed texts and deep nests, with random declared names, through parse, diff, simplify, evaluate, printing and compiling; non-trivial: at least 3 bytes")
        .stage("soup", 150_000, 3_000_000, soup)
        .stage("mutate", 80_000, 1_500_000, mutate)
        .stage("malformed", 80_000, 1_500_000, malformed)
        .stage("deep", 800, 10_000, deep)
}
fn main() {
    main_with(spec)
}
