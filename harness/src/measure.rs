//! Depth and node count of an expression counted through its public view.
use symb_anafis::visitor::ExprView;
use symb_anafis::Expr;

/// base of a term c * base^n (None: the term is a number, which fits any base)
fn strip(e: &Expr) -> Option<Expr> {
    match e.view() {
        ExprView::Number(_) => None,
        ExprView::Product(v) if v.len() == 2 && matches!(v[0].view(), ExprView::Number(_)) => strip(&v[1]),
        ExprView::Product(v) if v.len() == 2 && matches!(v[1].view(), ExprView::Number(_)) => strip(&v[0]),
        ExprView::Pow(a, c) if matches!(c.view(), ExprView::Number(n) if n >= 2.0 && n.fract() == 0.0) => Some((*a).clone()),
        _ => Some(e.clone()),
    }
}
/// could these terms be held as a polynomial of one base? (inner None: any base)
fn packable(v: &[std::sync::Arc<Expr>]) -> Option<Option<Expr>> {
    let mut b: Option<Expr> = None;
    for t in v {
        if let Some(x) = strip(t) {
            match &b {
                None => b = Some(x),
                Some(y) if *y == x => {}
                _ => return None,
            }
        }
    }
    Some(b)
}
/// (depth, nodes), each between two bounds: exact unless a sum, product or power may be packed as a
/// polynomial (then: one node a term and the base below it)
pub type Size = ((usize, usize), (usize, usize));
pub fn size(e: &Expr) -> Size {
    let all = |v: &[std::sync::Arc<Expr>]| {
        v.iter().map(|x| size(x)).fold(((1, 1), (1, 1)), |(d, n), (xd, xn)| ((d.0.max(1 + xd.0), d.1.max(1 + xd.1)), (n.0 + xn.0, n.1 + xn.1)))
    };
    let pack = |terms: usize, base: Option<Expr>, (d, n): Size| -> Size {
        let (bd, bn) = base.map_or(((1, 1), (1, 1)), |b| size(&b));
        ((d.0.min(1 + bd.0), d.1), (n.0.min(terms + bn.0), n.1))
    };
    match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => ((1, 1), (1, 1)),
        ExprView::Function { args, .. } => all(&args),
        ExprView::Sum(v) => match packable(&v) {
            Some(b) => pack(v.len(), b, all(&v)),
            None => all(&v),
        },
        ExprView::Product(v) if v.len() == 2 && matches!(v[0].view(), ExprView::Number(_)) => pack(1, strip(&v[1]), all(&v)),
        ExprView::Product(v) if v.len() == 2 && matches!(v[1].view(), ExprView::Number(_)) => pack(1, strip(&v[0]), all(&v)),
        ExprView::Product(v) => all(&v),
        ExprView::Pow(a, c) => pack(1, Some((*a).clone()), all(&[std::sync::Arc::new((*a).clone()), std::sync::Arc::new((*c).clone())])),
        ExprView::Div(a, c) => all(&[std::sync::Arc::new((*a).clone()), std::sync::Arc::new((*c).clone())]),
        ExprView::Derivative { inner, .. } => all(&[std::sync::Arc::new((*inner).clone())]),
    }
}

/// May any part of it be a packed polynomial?
pub fn may_pack(e: &Expr) -> bool {
    match e.view() {
        ExprView::Number(_) | ExprView::Symbol(_) => false,
        ExprView::Function { args, .. } => args.iter().any(|a| may_pack(a)),
        ExprView::Sum(v) => packable(&v).is_some() || v.iter().any(|a| may_pack(a)),
        ExprView::Product(v) => v.len() == 2 && v.iter().any(|f| matches!(f.view(), ExprView::Number(_))) || v.iter().any(|a| may_pack(a)),
        ExprView::Pow(a, c) => matches!(c.view(), ExprView::Number(n) if n.fract() == 0.0) || may_pack(a) || may_pack(c),
        ExprView::Div(a, c) => may_pack(a) || may_pack(c),
        ExprView::Derivative { inner, .. } => may_pack(inner),
    }
}
