//! Line server used by the Python orchestrators: "fn a b c" -> the value by the symbolic
//! evaluator, the compiled evaluator (scalar), the compiled evaluator (5-row batch, row 2 of
//! vector width and row 4 of the tail), each as hex bits, or "err".
use std::io::{BufRead, Write};
use vchk::*;
use std::collections::HashMap;
fn hx(v: Option<f64>) -> String {
    match v {
        Some(x) => format!("{:016x}", x.to_bits()),
        None => "err".into(),
    }
}
fn one(name: &str, a: &[f64]) -> String {
    let tree = {
        let e = sa::Expr::func_multi(name, a.iter().map(|x| sa::Expr::number(*x)).collect());
        e.evaluate(&HashMap::<&str, f64>::new(), &HashMap::new()).as_number()
    };
    // compiled with variables in the argument positions (integer orders stay literal half of the time)
    let vars: Vec<&str> = VARS[..a.len()].to_vec();
    let e = sa::Expr::func_multi(name, vars.iter().map(|v| sa::Expr::symbol(*v)).collect());
    let (mut s, mut b2, mut b4) = (None, None, None);
    if let Ok(c) = sa::CompiledEvaluator::compile(&e, &vars, None) {
        s = Some(c.evaluate(a));
        let cols: Vec<Vec<f64>> = a.iter().map(|x| vec![0.3, 0.7, *x, 0.2, *x]).collect();
        let cr: Vec<&[f64]> = cols.iter().map(|v| v.as_slice()).collect();
        let mut out = vec![0.0; 5];
        if c.eval_batch(&cr, &mut out, None).is_ok() {
            b2 = Some(out[2]);
            b4 = Some(out[4]);
        }
    }
    format!("{} {} {} {}", hx(tree), hx(s), hx(b2), hx(b4))
}
fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l == "flush" {
            out.flush().unwrap();
            continue;
        }
        let mut it = l.split_whitespace();
        let Some(name) = it.next() else { continue };
        let a: Vec<f64> = it.map(|h| f64::from_bits(u64::from_str_radix(h, 16).unwrap())).collect();
        // announce before evaluating so that a hang or abort names its input
        let r = guard(|| one(name, &a)).unwrap_or_else(|m| format!("panic {}", m.replace('\n', " ")));
        writeln!(out, "{r}").unwrap();
    }
    out.flush().unwrap();
}
