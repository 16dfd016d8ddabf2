"""C27: the Python package against mathematics, models of its registries, and its own exceptions.

A case is a kind and a list of choices (recorded, so that a failure can be shrunk and replayed).
Workers are forked processes; the choices of the running case are in shared memory, so a crash of
the interpreter or a run away computation is attributed to its case."""
import json, math, mmap, os, random, resource, shutil, signal, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pcommon import *
import mpmath as mp
import numpy as np
mp.mp.dps = 30
PKG = None
S = None  # the package

def build():
    """The extension of /repo's working tree, laid out as a package outside /repo."""
    root = os.environ.get("C27_REPO", "/repo")
    # the library's file name does not depend on its source path: one target folder per source tree
    tgt = os.path.join(VERIF, "harness", "target", "pyext" + ("" if root == "/repo" else root.replace("/", "-")))
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", PYO3_PYTHON=sys.executable)
    if os.path.exists("/opt/veriftools/pyvenv/bin/python"): env["PYO3_PYTHON"] = "/opt/veriftools/pyvenv/bin/python"
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--lib", "--features", "python,parallel", "--manifest-path",
                        root + "/Cargo.toml", "--target-dir", tgt], env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("check error: the Python extension does not build from /repo")
        sys.exit(2)
    stage = os.path.join(tgt, "stage-%d" % os.getpid())
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(root + "/python/symb_anafis", stage + "/symb_anafis")
    shutil.copy(tgt + "/release/libsymb_anafis.so", stage + "/symb_anafis/symb_anafis.so")
    return stage

# ------------------------------------------------------------------ choices
LIMIT = 6000
class Src:
    def __init__(self, rng=None, values=None, shared=None):
        self.rng, self.values, self.out, self.shared, self.pos = rng, values, [], shared, 0
    def below(self, n):
        if n <= 1: return 0
        if self.values is not None:
            v = self.values[self.pos] % n if self.pos < len(self.values) else 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        if self.pos > LIMIT: raise Discard()
        self.out.append(v)
        if self.shared is not None: self.shared.put(v)
        return v
    def chance(self, a, b): return self.below(b) < a
    def pick(self, xs): return xs[self.below(len(xs))]
    def unit(self): return self.below(1 << 24) / float(1 << 24)
    def range(self, a, b): return a + (b - a) * self.unit()
    def weighted(self, ws):
        k = self.below(sum(ws))
        for i, w in enumerate(ws):
            if k < w: return i
            k -= w
class Discard(Exception): pass
class Fail(Exception): pass
class Undef(Exception): pass
def need(c, msg):
    if not c: raise Fail(msg() if callable(msg) else msg)
def is_panic(e): return type(e).__name__ == "PanicException" or not isinstance(e, Exception)

# ------------------------------------------------------------------ terms
VARS = ["x", "y", "z", "t", "alpha", "rate", "long_name", "Vmax"]
LETTERS = VARS[:4]
NUMS = [1, 2, 3, 5, 0.5, 1.5, 0.25, 7, 10, 2.75]
def pos_(c):
    if not c: raise Undef()
FN1 = {  # method name: (formula name, function)
    "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh,
    "exp": mp.exp, "erf": mp.erf, "abs": abs, "acot": lambda x: mp.pi / 2 - mp.atan(x), "sech": mp.sech,
    "sqrt": lambda x: (pos_(x >= 0), mp.sqrt(x))[1], "ln": lambda x: (pos_(x > 0), mp.log(x))[1], "log10": lambda x: (pos_(x > 0), mp.log10(x))[1],
    "log2": lambda x: (pos_(x > 0), mp.log(x, 2))[1], "cbrt": lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x),
    "cot": lambda x: (pos_(x != 0), mp.cot(x))[1], "sec": mp.sec, "csc": lambda x: (pos_(x != 0), mp.csc(x))[1],
    "asin": lambda x: (pos_(abs(x) <= 1), mp.asin(x))[1], "acos": lambda x: (pos_(abs(x) <= 1), mp.acos(x))[1],
    "coth": lambda x: (pos_(x != 0), mp.coth(x))[1], "csch": lambda x: (pos_(x != 0), mp.csch(x))[1],
    "sinc": lambda x: mp.mpf(1) if x == 0 else mp.sin(x) / x,
}
STEPS = {"floor": mp.floor, "ceil": mp.ceil, "signum": lambda x: (pos_(x != 0), mp.sign(x))[1]}
POSFN = ["exp", "sqrt", "sinh", "cosh", "atan", "tanh", "asinh", "cbrt", "erf", "sech"]
def gen_term(s, depth, pos, names):
    k = s.weighted([3, 2, 0 if depth <= 0 else 14])
    if k == 0: return ("var", s.pick(names))
    if k == 1: return ("num", s.pick(NUMS))
    d = depth - 1
    if pos: op = s.weighted([4, 0, 4, 3, 0, 3, 4, 0])
    else: op = s.weighted([4, 4, 4, 3, 2, 3, 6, 1])
    if op in (0, 1, 2, 3): return (("add", "sub", "mul", "div")[op], gen_term(s, d, pos, names), gen_term(s, d, pos, names))
    if op == 4: return ("neg", gen_term(s, d, pos, names))
    if op == 5:
        b = gen_term(s, d, pos, names)
        if not pos and s.chance(1, 5): return ("pow", b, gen_term(s, d, pos, names))
        return ("pow", b, ("num", s.pick([2, 3, 2, 0.5, -1, -2, 4])))
    if op == 6: return ("fn", s.pick(POSFN if pos else sorted(FN1) + sorted(STEPS)), gen_term(s, d, pos, names))
    return ("fn2", s.pick(["atan2", "log"]), gen_term(s, d, pos, names), gen_term(s, d, pos, names))
def kids(t): return [a for a in t[1:] if isinstance(a, tuple)]
def tvars(t): return {t[1]} if t[0] == "var" else set().union(*[tvars(k) for k in kids(t)]) if kids(t) else set()
def size(t): return 1 + sum(size(k) for k in kids(t))
def smooth(t): return t[1] not in STEPS and t[1] != "abs" and all(smooth(k) for k in kids(t)) if t[0] != "var" and t[0] != "num" else True
def powm(a, b):
    if a == 0:
        pos_(b > 0); return mp.mpf(0)
    if a < 0:
        pos_(b == mp.floor(b)); return mp.power(a, int(b))
    return mp.power(a, b)
def op_fn(t):
    k = t[0]
    if k == "add": return lambda a, b: a + b
    if k == "sub": return lambda a, b: a - b
    if k == "mul": return lambda a, b: a * b
    if k == "div": return lambda a, b: (pos_(b != 0), a / b)[1]
    if k == "neg": return lambda a: -a
    if k == "pow": return powm
    if k == "fn": return FN1.get(t[1]) or STEPS[t[1]]
    if t[1] == "atan2": return lambda a, b: (pos_(not (a == 0 and b <= 0)), mp.atan2(a, b))[1]
    # method x.log(base)
    return lambda x, b: (pos_(x > 0 and b > 0 and b != 1), mp.log(x) / mp.log(b))[1]
def real(v):
    if isinstance(v, mp.mpc): raise Undef()
    v = mp.mpf(v)
    if not mp.isfinite(v): raise Undef()
    return v
class Ill(Exception): pass
REL = mp.mpf("2e-14")
def ball(t, env):
    """(value, error bound for any reasonable floating-point evaluation); Undef, or Ill if the value is not determined"""
    if t[0] == "num": return mp.mpf(t[1]), mp.mpf(0)
    if t[0] == "var": return mp.mpf(env[t[1]]), mp.mpf(0)
    args = [ball(k, env) for k in kids(t)]
    f = op_fn(t)
    vs = [a[0] for a in args]
    try: v = real(f(*vs))
    except (ZeroDivisionError, OverflowError, ValueError): raise Undef()
    err = abs(v) * REL
    for i, (a, e) in enumerate(args):
        e = e + abs(a) * mp.mpf(2) ** -51
        if e == 0: continue
        for sg in (1, -1):
            w = list(vs); w[i] = a + sg * 4 * e
            try: err += abs(real(f(*w)) - v)
            except (Undef, ZeroDivisionError, OverflowError, ValueError): raise Ill()
    if abs(v) > 1e60 or err > 1e-3 * (1 + abs(v)): raise Ill()
    return v, err
def valm(t, env):
    """the value with mp arguments, for numerical differentiation"""
    if t[0] == "num": return mp.mpf(t[1])
    if t[0] == "var": return env[t[1]]
    return op_fn(t)(*[valm(k, env) for k in kids(t)])
def ntext(v): return repr(v) if v >= 0 else "(%r)" % v
def text(t):
    k = t[0]
    if k == "num": return ntext(t[1])
    if k == "var": return t[1]
    a = [text(x) for x in kids(t)]
    if k in ("add", "sub", "mul", "div"): return "(%s)%s(%s)" % (a[0], {"add": "+", "sub": "-", "mul": "*", "div": "/"}[k], a[1])
    if k == "neg": return "(-(%s))" % a[0]
    if k == "pow": return "((%s)^(%s))" % tuple(a)
    if k == "fn": return "%s(%s)" % (t[1], a[0])
    if t[1] == "atan2": return "atan2(%s,%s)" % tuple(a)
    return "log(%s,%s)" % (a[1], a[0])
def prog(t, s, env=None):
    """Python source that builds the term with operators and methods"""
    k = t[0]
    if k == "num":
        v = t[1]
        i = s.below(6)
        if i == 0: return "E(%r)" % v
        if i == 1: return "np.float64(%r)" % v
        if i == 2 and v == int(v): return "np.int64(%d)" % v
        if i == 3: return "float(%r)" % v
        return "(%r)" % v
    if k == "var":
        n = t[1]
        return s.pick(["S.symb('%s')", "S.Symbol('%s')", "E('%s')", "S.symb('%s').to_expr()", "E(S.symb('%s'))", "S.parse('%s', ['%s'])"]).replace("%s", n)
    a = [prog(x, s) for x in kids(t)]
    plain = [x[0] in "(nf" and x0[0] == "num" for x, x0 in zip(a, kids(t))]
    if all(plain): a[0] = "E(%s)" % a[0]
    if k in ("add", "sub", "mul", "div"): return "(%s %s %s)" % (a[0], {"add": "+", "sub": "-", "mul": "*", "div": "/"}[k], a[1])
    if k == "neg": return "(-%s)" % a[0]
    if k == "pow":
        if not plain[0] and s.chance(1, 3): return "E(%s).pow(%s)" % tuple(a)
        return "(%s ** %s)" % tuple(a)
    if plain[0] and not a[0].startswith("E("): a[0] = "E(%s)" % a[0]
    if k == "fn": return "%s.%s()" % (a[0], t[1])
    return "%s.%s(%s)" % (a[0], t[1], a[1])
def make(src):
    try: return eval(src, {"S": S, "E": S.Expr, "np": np})
    except Exception as e:
        raise Fail("%s raises %s: %s" % (src, type(e).__name__, e))
def point(s, names, positive):
    if positive: return {n: round(s.range(0.3, 2.5), 3) for n in names}
    return {n: s.pick([round(s.range(-3, 3), 3), float(s.below(7) - 3), round(s.range(0.1, 2), 3)]) for n in names}
def tol(b): return 40 * b[1] + abs(b[0]) * mp.mpf("1e-11") + mp.mpf("1e-13")
def same(x, b):
    try: x = float(x)
    except Exception: return False
    return math.isfinite(x) and abs(mp.mpf(x) - b[0]) <= tol(b)
def number(e):
    try: return float(e)
    except TypeError: return None

# ------------------------------------------------------------------ kinds of cases
def k_values(s, cx):
    """one term at one to many points by every route"""
    names = [VARS[(s.below(len(VARS)) + i * 3) % len(VARS)] for i in range(1 + s.below(3))]
    if s.chance(1, 2): names = [LETTERS[i % 4] for i in range(len(names))]
    t = gen_term(s, 1 + s.below(4), False, names)
    src = prog(t, s)
    cx.show("program", src)
    def build():
        try: return make(src)
        except Fail as e:
            # methods on constants raise ValueError outside the domain
            try: ball(t, {n: 1.0 for n in names})
            except (Undef, Ill): raise Discard()
            if "raises ValueError" in str(e) and not tvars(t): raise e
            if "raises ValueError" in str(e): raise Discard() if const_undef(t) else e
            raise
    e = build()
    if not isinstance(e, S.Expr): e = S.Expr(e)
    tx = text(t)
    p = call(lambda: S.parse(tx, names), "parse(%r)" % tx)
    n = s.pick([1, 1, 2, 3, 5, 8, 33])
    envs = [point(s, names, s.chance(1, 2)) for _ in range(n)]
    want = []
    for env in envs:
        try: want.append(ball(t, env))
        except (Undef, Ill): want.append(None)
    good = [i for i in range(n) if want[i] is not None]
    if not good: raise Discard()
    cx.show("point", envs[good[0]])
    order = list(names)
    if s.chance(1, 2): order.reverse()
    order = list(dict.fromkeys(order))
    def check(i, got, route):
        if want[i] is not None and not (got is not None and same(got, want[i])):
            raise Fail("%s gives %r at %r, true value %s (program %s)" % (route, got, envs[i], mp.nstr(want[i][0], 15), src))
    g0 = good[0]; env = envs[g0]
    routes = s.below(64)
    for obj, nm in ((e, "operators"), (p, "parse")):
        r = call(lambda: obj.evaluate(env), nm + ".evaluate"); check(g0, number(r), nm + ": Expr.evaluate")
        if routes & 1: check(g0, number(call(lambda: S.evaluate(obj, list(env.items())), "evaluate")), nm + ": evaluate")
        if routes & 2:
            q = obj
            for v in order:
                val = env[v]
                q = call(lambda: q.substitute(v, s.pick([val, S.Expr(val), np.float64(val)])), "substitute")
            check(g0, number(q.evaluate({})), nm + ": substitute")
        ce = call(lambda: S.CompiledEvaluator(obj, order), "CompiledEvaluator")
        need(ce.param_names() == order and ce.param_count() == len(order), lambda: "param_names %r, given %r" % (ce.param_names(), order))
        row = [env[v] for v in order]
        check(g0, ce.evaluate(s.pick([row, np.array(row), tuple(row), [np.float64(v) for v in row]])), nm + ": CompiledEvaluator.evaluate")
        if routes & 4:
            ca = call(lambda: S.CompiledEvaluator(obj), "CompiledEvaluator auto")
            need(set(ca.param_names()) <= tvars(t), lambda: "automatic parameters %r of %s" % (ca.param_names(), src))
            check(g0, ca.evaluate([env[v] for v in ca.param_names()]), nm + ": automatic parameters")
        cols = [[en[v] for en in envs] for v in order]
        forms = [s.below(3) for _ in cols]
        data = [np.array(c) if f == 0 else (tuple(c) if f == 1 else c) for c, f in zip(cols, forms)]
        if routes & 8:
            out = call(lambda: ce.eval_batch(data), "eval_batch")
            need(len(out) == n and isinstance(out, np.ndarray) == (0 in forms), lambda: "eval_batch returns %r for %d points" % (out, n))
            for i in range(n): check(i, out[i], nm + ": eval_batch")
        if routes & 16:
            out = call(lambda: S.eval_f64([obj, p], [order, names[:1] and order], [data, data]), "eval_f64")
            need(len(out) == 2 and all(len(r) == n for r in out), "eval_f64 shape")
            for i in range(n): check(i, out[0][i], nm + ": eval_f64"); check(i, out[1][i], "eval_f64, second expression")
        if routes & 32:
            inp = s.pick([obj, obj])
            out = call(lambda: S.evaluate_parallel([inp], [order], [data]), "evaluate_parallel")
            need(len(out) == 1 and len(out[0]) == n, lambda: "evaluate_parallel returns %r" % (out,))
            for i in range(n): check(i, number(out[0][i]), nm + ": evaluate_parallel")
    if set(names) <= set(LETTERS):
        r = call(lambda: S.evaluate_str(tx, list(env.items())), "evaluate_str")
        try: check(g0, float(r), "evaluate_str")
        except ValueError: raise Fail("evaluate_str(%r, %r) gives %r" % (tx, env, r))
        out = call(lambda: S.evaluate_parallel([tx], [order], [[[en[v] for en in envs] for v in order]]), "evaluate_parallel")
        for i in range(n): check(i, out[0][i] if isinstance(out[0][i], float) else None, "evaluate_parallel of text")
        # a variable left open by None
        if len(order) > 1:
            out = call(lambda: S.evaluate_parallel([tx, e], [order, order], [[[env[order[0]]]] + [[None]] * (len(order) - 1)] * 2), "evaluate_parallel with None")
            for r in (out[0][0], out[1][0]):
                if isinstance(r, str): r = S.parse(r)
                if not isinstance(r, float): r = r.evaluate(env)
                check(g0, number(r), "evaluate_parallel with None, completed")
    # display and back
    back = call(lambda: S.parse(str(e), names), "parse(str)")
    check(g0, number(back.evaluate(env)), "parse(str(expr)) (%s)" % e)
    need(repr(e) == "Expr(%s)" % e, "repr")
    need(len(e.to_latex()) > 0 and len(e.to_unicode()) > 0, "empty display")
    cx.nontrivial = size(t) > 2
    cx.note("values", n)
def const_undef(t):
    """some constant subterm lies outside (or at the edge of) a domain"""
    if not tvars(t):
        try: ball(t, {})
        except (Undef, Ill): return True
    return any(const_undef(k) for k in kids(t))
def call(f, what):
    try: return f()
    except BaseException as e:
        if isinstance(e, (Discard, Fail)): raise
        if is_panic(e) and not isinstance(e, (KeyboardInterrupt, SystemExit)): raise Fail("%s panics: %s" % (what, e))
        raise Fail("%s raises %s: %s" % (what, type(e).__name__, e))
def k_calculus(s, cx):
    names = LETTERS[:1 + s.below(3)]
    t = gen_term(s, 1 + s.below(3), True, names)
    src = prog(t, s)
    cx.show("program", src)
    e = make(src)
    if not isinstance(e, S.Expr): e = S.Expr(e)
    env = point(s, names, True)
    cx.show("point", env)
    try: v = ball(t, env)
    except (Undef, Ill): raise Discard()
    if abs(v[0]) > 1e12 or not all_moderate(t, env): raise Discard()
    M = {k: mp.mpf(x) for k, x in env.items()}
    def part(*order):
        def f(*xs):
            m = dict(M); m.update(zip(names, xs)); return valm(t, m)
        n = tuple(order.count(v) for v in names)
        if len(names) == 1: return mp.diff(f, M[names[0]], n[0])
        return mp.diff(f, tuple(M[v] for v in names), n)
    def close(x, want, scale, route):
        x = number(x)
        if x is None or not math.isfinite(x) or abs(mp.mpf(x) - want) > mp.mpf("1e-6") * (abs(want) + scale):
            raise Fail("%s gives %r at %r, true value %s (%s)" % (route, x, env, mp.nstr(want, 12), src))
    # work at a smaller precision margin: mp.diff loses digits at order two
    a = s.pick(names); b = s.pick(names)
    sc1 = abs(v[0]) * mp.mpf("1e-6"); sc2 = abs(v[0]) * mp.mpf("1e-4")
    try:
        d1 = {n: part(n) for n in names}
        dab = part(a, b)
    except (Undef, ZeroDivisionError): raise Discard()
    if max(abs(x) for x in list(d1.values()) + [dab]) > 1e15: raise Discard()
    ev = lambda q: call(lambda: q.evaluate(env), "evaluate")
    et = lambda q: call(lambda: S.parse(q).evaluate(env), "parse(%r)" % q)
    tx = text(t)
    close(ev(call(lambda: e.diff(a), "Expr.diff")), d1[a], sc1, "Expr.diff(%r)" % a)
    close(et(call(lambda: S.diff(tx, a), "diff")), d1[a], sc1, "diff(text, %r)" % a)
    close(ev(call(lambda: e.diff(a).diff(b), "diff twice")), dab, sc2, "second derivative %s %s" % (a, b))
    var = s.pick([a, S.symb(a)])
    db = s.pick([S.Diff(), S.Diff().domain_safe(True), S.Diff().domain_safe(False), S.Diff().max_depth(500).max_nodes(100000)])
    obj = s.pick([e, S.parse(tx)])
    close(ev(call(lambda: db.differentiate(obj, var), "Diff.differentiate")), d1[a], sc1, "Diff.differentiate(%r)" % a)
    close(et(call(lambda: db.diff_str(tx, a), "diff_str")), d1[a], sc1, "Diff.diff_str")
    others = [n for n in names if n != a]
    if others:
        fx = S.Diff().fixed_vars([s.pick([n, S.symb(n)]) for n in others]) if s.chance(1, 2) else S.Diff().fixed_var(others[0])
        close(et(call(lambda: fx.diff_str(tx, a), "diff_str with fixed")), d1[a], sc1, "diff_str with fixed variables")
        try:
            fx.diff_str(tx, others[0])
            raise Fail("differentiation by the fixed variable %r accepted" % others[0])
        except ValueError: pass
    order = list(names)
    if s.chance(1, 2): order.reverse()
    for route, g in (("gradient", [ev(q) for q in call(lambda: S.gradient(e, order), "gradient")]), ("gradient_str", [et(q) for q in call(lambda: S.gradient_str(tx, order), "gradient_str")])):
        need(len(g) == len(order), route + ": length")
        for n, q in zip(order, g): close(q, d1[n], sc1, "%s, entry %s" % (route, n))
    i, j = order.index(a), order.index(b)
    for route, h, f in (("hessian", call(lambda: S.hessian(e, order), "hessian"), ev), ("hessian_str", call(lambda: S.hessian_str(tx, order), "hessian_str"), et)):
        need(len(h) == len(order) and all(len(r) == len(order) for r in h), route + ": shape")
        close(f(h[i][j]), dab, sc2, "%s[%d][%d]" % (route, i, j))
        if i != j: close(f(h[j][i]), dab, sc2, "%s[%d][%d]" % (route, j, i))
    other = ("mul", ("num", 3), ("var", b))
    for route, jm, f in (("jacobian", call(lambda: S.jacobian([e, S.parse(text(other))], order), "jacobian"), ev), ("jacobian_str", call(lambda: S.jacobian_str([tx, text(other)], order), "jacobian_str"), et)):
        need(len(jm) == 2 and all(len(r) == len(order) for r in jm), route + ": shape")
        close(f(jm[0][i]), d1[a], sc1, "%s[0][%d]" % (route, i))
        for n, q in zip(order, jm[1]): close(f(q), mp.mpf(3 if n == b else 0), 0, "%s second row" % route)
    sm = s.pick([S.Simplify(), S.Simplify().domain_safe(True), S.Simplify().max_nodes(10 ** 6)])
    for route, q in (("Expr.simplify", e.simplify()), ("Simplify.simplify", call(lambda: sm.simplify(e), "Simplify")), ("simplify(text)", S.parse(call(lambda: S.simplify(tx), "simplify"))), ("simplify_str", S.parse(call(lambda: sm.simplify_str(tx), "simplify_str")))):
        q = number(ev(q))
        need(q is not None and math.isfinite(q) and abs(mp.mpf(q) - v[0]) <= tol(v) + abs(v[0]) * mp.mpf("1e-9"), lambda: "%s gives %r at %r, true value %s (%s)" % (route, q, env, mp.nstr(v[0], 12), src))
    # uncertainty
    var_ = [s.pick([0.25, 1.0, 0.01, 2.0, 0.0]) for _ in order]
    sig = mp.sqrt(sum(mp.mpf(w) * d1[n] ** 2 for n, w in zip(order, var_)))
    form = s.pick([e, tx])
    u = call(lambda: S.uncertainty_propagation(form, order, var_), "uncertainty_propagation")
    close(et(u), sig, sc1, "uncertainty_propagation(%r)" % (var_,))
    if v[0] != 0:
        u = call(lambda: S.relative_uncertainty(form, order, var_), "relative_uncertainty")
        close(et(u), sig / abs(v[0]), mp.mpf("1e-6"), "relative_uncertainty(%r)" % (var_,))
    if s.chance(1, 3):
        u = call(lambda: S.uncertainty_propagation(form, order), "uncertainty_propagation without variances")
        sg = {"sigma_" + n: math.sqrt(w) for n, w in zip(order, var_)}
        r = call(lambda: S.parse(u, order + list(sg)).evaluate(dict(env, **sg)), "evaluate")
        close(r, sig, sc1, "uncertainty_propagation with symbols %r" % u)
    cx.nontrivial = any(abs(d1[n]) > 0 for n in names)
def all_moderate(t, env):
    try: b = ball(t, env)
    except (Undef, Ill): return False
    return (abs(b[0]) < 1e8 and abs(b[0]) > 1e-6 or t[0] in ("num",)) and all(all_moderate(k, env) for k in kids(t))

import c17
# method: (built-in, arguments of the method in the order they are given after the receiver), receiver position
METHODS = {n: (n, None) for n in "sin cos tan cot sec csc asin acos atan acot asec acsc sinh cosh tanh coth sech csch asinh acosh atanh acoth asech acsch exp ln log10 log2 sqrt cbrt abs floor ceil round erf erfc gamma digamma trigamma tetragamma signum sinc lambertw zeta elliptic_k elliptic_e exp_polar".split()}
METHODS.update({"log": ("log", (1, 0)), "polygamma": ("polygamma", (1, 0)), "beta": ("beta", (0, 1)), "besselj": ("besselj", (1, 0)), "bessely": ("bessely", (1, 0)),
                "besseli": ("besseli", (1, 0)), "besselk": ("besselk", (1, 0)), "atan2": ("atan2", (0, 1)), "hermite": ("hermite", (1, 0)), "zeta_deriv": ("zeta_deriv", (1, 0)),
                "assoc_legendre": ("assoc_legendre", (2, 0, 1)), "spherical_harmonic": ("spherical_harmonic", (2, 0, 1, 3)), "ynm": ("ynm", (2, 0, 1, 3))})
class SrcRandom(random.Random):
    """random.Random over a Src, so that the generators of C17 record their choices"""
    def __init__(self, s): self.s = s; super().__init__(0)
    def random(self): return self.s.unit() if hasattr(self, "s") else 0.5
    def getrandbits(self, k):
        v = 0
        for i in range(0, k, 24): v |= self.s.below(1 << min(24, k - i)) << i
        return v
    def seed(self, *a, **k): pass
def k_methods(s, cx):
    m = s.pick(sorted(METHODS))
    fn, perm = METHODS[m]
    args = tuple(round(a, 6) if abs(a) > 1e-5 and abs(a) < 1e6 else a for a in c17.D[fn][3](SrcRandom(s)))
    if m in ("log", "bessely", "besselk") and s.chance(1, 6): args = args[:-1] + (s.pick([1e-11, 3e-13, 1e-15]),)
    if perm is None: recv, rest = args[0], []
    else: recv, rest = args[perm[0]], [args[i] for i in perm[1:]]
    cx.show("call", "%r.%s(%s)" % (recv, m, ", ".join(map(repr, rest))))
    st = c17.truth(fn, args)
    def given(a): return s.pick([lambda: a, lambda: S.Expr(a), lambda: int(a) if a == int(a) else a, lambda: np.float64(a)])()
    names = ["x", "y", "z", "t"]
    def judged(x, route):
        msg = c17.judge(fn, args, [x], st)
        # a Python domain error is judged by the caller; c17 labels the single path "symbolic"
        if msg: raise Fail("%s: %s.%s(%r): %s" % (route, recv, m, rest, msg))
    # on a symbol, with symbolic or numeric further arguments
    env = {"x": recv}
    a2 = []
    for i, a in enumerate(rest):
        if s.chance(1, 2): env[names[i + 1]] = a; a2.append(S.symb(names[i + 1]) if s.chance(1, 2) else S.Expr(names[i + 1]))
        else: a2.append(given(a))
    for r, nm in ((S.symb("x"), "Symbol"), (S.Expr("x"), "Expr")):
        try:
            q = getattr(r, m)(*a2)
        except ValueError as err:
            if nm == "Expr" and st[0] == "undef": continue
            raise Fail("%s.%s(%r) raises ValueError: %s, true value %s" % (nm, m, rest, err, st[1]))
        judged(number(q.evaluate(env)), nm)
        judged(S.CompiledEvaluator(q, sorted(env)).evaluate([env[k] for k in sorted(env)]), nm + " compiled")
        text_ = "%s(%s)" % (fn, ",".join({None: ["x"]}.get(perm) or [None] * len(args))) if perm is None else None
    # on a number
    try:
        q = getattr(S.Expr(recv), m)(*[given(a) for a in rest])
    except ValueError as err:
        if st[0] != "undef": 
            # values within rounding of a pole may be refused
            if not near_edge(fn, args): raise Fail("Expr(%r).%s(%r) raises ValueError: %s, true value %s" % (recv, m, rest, err, mp.nstr(st[1], 12)))
    else:
        judged(number(q.evaluate({})), "Expr(number)")
    cx.nontrivial = st[0] == "val"
    cx.note(m, 1)
def near_edge(fn, args):
    x = args[-1] if fn not in ("beta",) else None
    if fn == "beta": return any(abs(a - round(a)) < 1e-13 for a in args)
    if fn in ("assoc_legendre",): return False
    near = lambda a: abs(x - a) < 1e-13
    if fn in ("gamma", "digamma", "trigamma", "tetragamma", "polygamma"): return abs(x - round(x)) < 1e-13
    if fn in ("zeta", "zeta_deriv"): return near(1)
    if fn in ("elliptic_k", "elliptic_e"): return abs(abs(x) - 1) < 1e-13
    if fn == "lambertw": return abs(x + math.exp(-1)) < 1e-13
    if fn == "log": return abs(args[0] - 1) < 1e-13
    return False

DUAL1 = {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin, "acos": mp.acos, "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh,
         "exp": mp.exp, "exp2": lambda x: mp.power(2, x), "ln": mp.log, "log2": lambda x: mp.log(x, 2), "log10": mp.log10, "sqrt": mp.sqrt, "cbrt": lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x), "abs": abs, "recip": lambda x: 1 / x,
         "exp_m1": mp.expm1, "ln_1p": mp.log1p, "erf": mp.erf, "erfc": mp.erfc, "gamma": mp.gamma, "digamma": lambda x: mp.psi(0, x), "trigamma": lambda x: mp.psi(1, x), "zeta": mp.zeta, "lambert_w": mp.lambertw,
         "sinc": lambda x: mp.sin(x) / x if x else mp.mpf(1), "elliptic_k": lambda k: mp.ellipk(k * k), "elliptic_e": lambda k: mp.ellipe(k * k), "fract": lambda x: x - (mp.floor(x) if x >= 0 else mp.ceil(x))}
DUALSTEP = {"floor": mp.floor, "ceil": mp.ceil, "trunc": lambda x: mp.floor(x) if x >= 0 else mp.ceil(x), "signum": lambda x: mp.sign(x), "round": lambda x: mp.sign(x) * mp.floor(abs(x) + mp.mpf(1) / 2)}
DUALDOM = {"asin": (-0.95, 0.95), "acos": (-0.95, 0.95), "acosh": (1.05, 5), "atanh": (-0.95, 0.95), "ln": (0.05, 9), "log2": (0.05, 9), "log10": (0.05, 9), "sqrt": (0.05, 9), "gamma": (0.3, 8), "digamma": (0.3, 8), "trigamma": (0.3, 8),
           "zeta": (1.3, 8), "lambert_w": (0.1, 8), "elliptic_k": (-0.9, 0.9), "elliptic_e": (-0.9, 0.9), "ln_1p": (-0.9, 5), "recip": (0.1, 4), "cbrt": (0.1, 5)}
def k_dual(s, cx):
    """value and derivative of a chain of operations and methods"""
    x0 = round(s.range(0.2, 3), 3) * (1 if s.chance(2, 3) else -1)
    eps = s.pick([1.0, 1.0, 2.0, -0.5, 0.0])
    d = S.Dual(x0, eps)
    fs, desc = [], "Dual(%r, %r)" % (x0, eps)
    def f(x):
        for g in fs: x = g(x)
        return x
    def test():
        x = mp.mpf(x0)
        try:
            v = f(x); dv = mp.diff(f, x) * eps
            v, dv = real(v), real(dv)
        except (Undef, ZeroDivisionError, ValueError): raise Discard()
        if abs(v) > 1e12 or abs(dv) > 1e12: raise Discard()
        if not (abs(mp.mpf(d.val) - v) <= mp.mpf("1e-7") * (1 + abs(v))) or not (abs(mp.mpf(d.eps) - dv) <= mp.mpf("1e-5") * (1 + abs(dv) + abs(v))):
            raise Fail("%s is (%r, %r), true value %s and slope %s" % (desc, d.val, d.eps, mp.nstr(v, 12), mp.nstr(dv, 12)))
    for step in range(1 + s.below(4)):
        cur = f(mp.mpf(x0))
        if isinstance(cur, mp.mpc) or abs(cur) > 1e4 or abs(cur) < 1e-4: break
        k = s.below(4)
        if k == 0:
            c = s.pick([2, 3.0, 0.5, -1.5, 7, 1, np.float64(2.5)])
            op = s.below(11); C = mp.mpf(float(c)); old = desc
            if op == 0: d = d + c; fs.append(lambda x, C=C: x + C); desc = "(%s + %r)" % (desc, c)
            elif op == 1: d = c + d; fs.append(lambda x, C=C: x + C); desc = "(%r + %s)" % (c, desc)
            elif op == 2: d = d - c; fs.append(lambda x, C=C: x - C); desc = "(%s - %r)" % (desc, c)
            elif op == 3: d = c - d; fs.append(lambda x, C=C: C - x); desc = "(%r - %s)" % (c, desc)
            elif op == 4: d = d * c; fs.append(lambda x, C=C: x * C); desc = "(%s * %r)" % (desc, c)
            elif op == 5: d = c * d; fs.append(lambda x, C=C: x * C); desc = "(%r * %s)" % (c, desc)
            elif op == 6: d = d / c; fs.append(lambda x, C=C: x / C); desc = "(%s / %r)" % (desc, c)
            elif op == 7: d = c / d; fs.append(lambda x, C=C: C / x); desc = "(%r / %s)" % (c, desc)
            elif op == 8:
                if cur <= 0 and C != mp.floor(C): continue
                how = s.below(3)
                if how == 0 or C != mp.floor(C): d = d ** c
                elif how == 1: d = d.powi(int(c))
                else: d = d.powf(float(c))
                fs.append(lambda x, C=C: powm(x, C)); desc = "(%s ** %r)" % (desc, c)
            elif op == 9:
                if C <= 0 or abs(cur) > 8: continue
                d = c ** d; fs.append(lambda x, C=C: mp.power(C, x)); desc = "(%r ** %s)" % (c, desc)
            else: d = -d; fs.append(lambda x: -x); desc = "(-%s)" % desc
        elif k == 1:
            # a second dual: (same point, slope eps)
            y = S.Dual(x0, eps); g = list(fs); op = s.below(8)
            if op == 0: d = d + y; h = lambda a, b: a + b
            elif op == 1: d = d - y; h = lambda a, b: a - b
            elif op == 2: d = d * y; h = lambda a, b: a * b
            elif op == 3: d = d / y; h = lambda a, b: a / b
            elif op == 4: d = d.hypot(y); h = lambda a, b: mp.sqrt(a * a + b * b)
            elif op == 5: d = d.atan2(y); h = mp.atan2
            elif op == 6:
                if cur <= 0 or x0 <= 0 or abs(x0 - 1) < 0.05: continue
                d = d.log(y); h = lambda a, b: mp.log(a) / mp.log(b)
            else:
                if cur <= 0.05 or abs(x0 * mp.log(cur)) > 12: continue
                d = d ** y; h = lambda a, b: mp.power(a, b)
            def whole(x, g=g, h=h):
                a = x
                for q in g: a = q(a)
                return h(a, x)
            fs = [whole]; desc = "op%d(%s, %r)" % (op, desc, y)
        else:
            m = s.pick(sorted(DUAL1) + sorted(DUALSTEP))
            lo, hi = DUALDOM.get(m, (-6, 6))
            if not lo < cur < hi: continue
            if m == "sinc" and abs(cur) < 0.1 or m == "abs" and abs(cur) < 0.05: continue
            if (m in DUALSTEP or m == "fract") and (abs(cur * 2 - mp.nint(cur * 2)) < 0.05): continue
            if m == "tan" and abs(mp.cos(cur)) < 0.05: continue
            d = getattr(d, m)(); fs.append(DUAL1.get(m) or DUALSTEP[m]); desc += "." + m + "()"
        cx.show("program", desc)
        test()
        cx.note("dual steps", 1)
        cx.nontrivial = True
    need(S.Dual.constant(2.5).eps == 0 and S.Dual.constant(2.5).val == 2.5, "Dual.constant")
    if s.chance(1, 6):
        n = s.below(5); a = round(s.range(0.4, 6), 3)
        q = S.Dual(a, eps).polygamma(n)
        need(abs(mp.mpf(q.val) - mp.psi(n, a)) < 1e-8 * (1 + abs(mp.psi(n, a))) and abs(mp.mpf(q.eps) - eps * mp.psi(n + 1, a)) < 1e-7 * (1 + abs(mp.psi(n + 1, a))), lambda: "Dual(%r, %r).polygamma(%d) = (%r, %r)" % (a, eps, n, q.val, q.eps))
        q = S.Dual(a, eps).bessel_j(n); w = mp.besselj(n, a, 1)
        need(abs(q.val - mp.besselj(n, a)) < 1e-6 and abs(q.eps - eps * w) < 3e-6, lambda: "Dual(%r, %r).bessel_j(%d) = (%r, %r)" % (a, eps, n, q.val, q.eps))
        b = round(s.range(0.4, 4), 3)
        q = S.Dual(a, eps).beta(S.Dual(b, 0.5)); B = mp.beta(a, b)
        w = B * (eps * (mp.psi(0, a) - mp.psi(0, a + b)) + 0.5 * (mp.psi(0, b) - mp.psi(0, a + b)))
        need(abs(q.val - B) < 1e-8 * (1 + B) and abs(q.eps - w) < 1e-7 * (1 + abs(w)), lambda: "Dual(%r, %r).beta(Dual(%r, 0.5)) = (%r, %r)" % (a, eps, b, q.val, q.eps))

def k_registry(s, cx):
    """symbol registries against a model: the global one and a few contexts"""
    names = ["g_a", "g_b", "g_c", "beta1"]
    ctxs = [S.Context() for _ in range(1 + s.below(2))]
    model = [dict() for _ in ctxs]          # name -> Symbol
    base = set(S.symbol_names())
    glob = {n: S.symb_get(n) for n in names if n in base}
    log = []
    def step(txt): log.append(txt)
    for _ in range(2 + s.below(14)):
        n = s.pick(names); i = s.below(len(ctxs)); c, m = ctxs[i], model[i]
        op = s.below(14)
        try:
            if op in (0, 1):
                step("c%d.symb(%r)" % (i, n)); q = c.symb(n)
                need(q.name() == n and str(q) == n, "name of %r" % q)
                if n in m: need(q == m[n] and hash(q) == hash(m[n]) and q.id == m[n].id, "symb returns another symbol of the context")
                elif n in glob: need(q == glob[n], "a context does not adopt the global symbol %r" % n)
                else:
                    for j, o in enumerate(model):
                        if j != i and n in o: need(q != o[n], "symbols of the name %r in two contexts are equal" % n)
                m[n] = q
            elif op == 2:
                step("c%d.symb_new(%r)" % (i, n))
                try: q = c.symb_new(n); ok = True
                except ValueError: ok = False
                need(ok == (n not in m), "symb_new accepts: %r, known: %r" % (ok, n in m))
                if ok: m[n] = q
            elif op == 3:
                step("c%d.get_symbol(%r)" % (i, n)); q = c.get_symbol(n)
                need((q is not None) == (n in m) and (q is None or q == m[n]), "get_symbol gives %r" % (q,))
            elif op == 4:
                step("c%d.remove_symbol(%r)" % (i, n)); r = c.remove_symbol(n)
                need(r == (n in m), "remove_symbol gives %r" % r); m.pop(n, None)
            elif op == 5:
                step("c%d.clear_all()" % i); c.clear_all(); m.clear()
            elif op == 6:
                step("S.symb(%r)" % n); q = s.pick([S.symb, S.Symbol])(n)
                need(q.name() == n, "name")
                if n in glob: need(q == glob[n] and hash(q) == hash(glob[n]), "symb returns another global symbol")
                else:
                    for o in model:
                        if n in o: need(q != o[n], "new global symbol equals that of a context")
                glob[n] = q
            elif op == 7:
                step("S.symb_new(%r)" % n)
                try: q = S.symb_new(n); ok = True
                except ValueError: ok = False
                need(ok == (n not in glob), "symb_new accepts: %r, known: %r" % (ok, n in glob))
                if ok: glob[n] = q
            elif op == 8:
                step("S.symb_get(%r)" % n)
                try: q = S.symb_get(n); ok = True
                except ValueError: ok = False
                need(ok == (n in glob) and (not ok or q == glob[n]), "symb_get: %r" % ok)
            elif op == 9:
                step("S.remove_symbol(%r)" % n); r = S.remove_symbol(n)
                for c2, o in zip(ctxs, model):
                    if n in o and n in glob and o[n] == glob[n]: c2.remove_symbol(n); o.pop(n)      # the context shared it
                need(r == (n in glob), "remove_symbol gives %r" % r); glob.pop(n, None)
            elif op == 10 and s.chance(1, 3):
                step("S.clear_symbols()"); S.clear_symbols(); glob.clear(); base = set(S.symbol_names())
                for c2, o in zip(ctxs, model): c2.clear_all(); o.clear()        # their symbols are gone, too
                need(not base & set(names), "clear_symbols leaves %r" % (base & set(names)))
            elif op == 11:
                step("parse through evaluate"); e = S.parse("%s + 1" % n, [n])
                glob.setdefault(n, S.symb_get(n))
                need(float(e.evaluate({n: 2.0})) == 3.0, "parse(%r)" % n)
            elif op == 12 and n in m:
                # an expression over a symbol of a context, by name
                e = m[n] * 2 + m[n] ** 2; step("c%d expression over %r" % (i, n))
                need(float(e.evaluate({n: 3.0})) == 15.0, "evaluate by name gives %s" % e.evaluate({n: 3.0}))
                d = s.pick([lambda: e.diff(n), lambda: S.Diff().differentiate(e, n), lambda: S.Diff().with_context(c).differentiate(e, m[n]), lambda: S.gradient(e, [n])[0], lambda: S.jacobian([e], [n])[0][0], lambda: S.Diff().differentiate(e, m[n])])()
                need(number(d.evaluate({n: 3.0})) == 8.0, "derivative by %r of %s is %s" % (n, e, d))
                need(number(e.substitute(n, 3.0).evaluate({})) == 15.0, "substitute by name")
                need(S.CompiledEvaluator(e, [n], s.pick([c, None])).evaluate([3.0]) == 15.0, "compiled by name")
                need(S.collect_variables(e) == {n}, "collect_variables")
                # substitute, evaluate and the rest by name never create a global symbol here
                if n not in glob and S.symbol_exists(n): glob[n] = S.symb_get(n)
            else:
                a = S.Symbol.anon(); step("anon"); b = S.Symbol.anon()
                need(a != b and a.name() is None and a == a, "anonymous symbols")
        except Fail as e: raise Fail("%s after %s" % (e, "; ".join(log)))
        for j, (c, m) in enumerate(zip(ctxs, model)):
            ok = set(c.symbol_names()) == set(m) and c.symbol_count() == len(m) and c.is_empty() == (not m) and all(c.contains_symbol(x) == (x in m) for x in names)
            need(ok, lambda: "context %d holds %r, expected %r after %s" % (j, sorted(c.symbol_names()), sorted(m), "; ".join(log)))
        now = set(S.symbol_names())
        need(now & set(names) == set(glob) and S.symbol_count() >= len(now) and all(S.symbol_exists(x) == (x in glob) for x in names), lambda: "global registry holds %r, expected %r after %s" % (sorted(now & set(names)), sorted(glob), "; ".join(log)))
    need(len({c.id() for c in ctxs}) == len(ctxs), "context ids")
    cx.show("operations", "; ".join(log))
    cx.nontrivial = len(log) > 2
    cx.note("registry operations", len(log))
def k_userfn(s, cx):
    """user functions by Python callbacks"""
    ar = 1 + s.below(2)
    formal = LETTERS[2:2 + ar]          # body over z, t
    body = gen_term(s, 1 + s.below(2), True, formal)
    env = point(s, ["x", "y"], True)
    fname = s.pick(["f", "g2", "my_fn", "W"])
    src = prog(body, s)
    def as_callback(t_src):
        def cb(args):
            assert isinstance(args, list) and len(args) == ar
            r = eval(t_src, {"S": S, "E": S.Expr, "np": np, **{}})
            for n, a in zip(formal, args):
                if isinstance(r, S.Symbol): r = S.Expr(r)
                if isinstance(r, S.Expr): r = r.substitute("@" + n, a) if False else r.substitute(n, a)
            return r
        return cb
    inner = [gen_term(s, 1, True, ["x", "y"]) for _ in range(ar)]
    used = ("fnuser", inner)
    def sub(t):
        if t[0] == "var" and t[1] in formal: return inner[formal.index(t[1])]
        return tuple(sub(k) if isinstance(k, tuple) else k for k in t)
    full = ("add", sub(body), ("var", "x"))
    try: v = ball(full, env)
    except (Undef, Ill): raise Discard()
    if abs(v[0]) > 1e8 or not all_moderate(full, env): raise Discard()
    M = {k: mp.mpf(x) for k, x in env.items()}
    try: d = mp.diff(lambda q: valm(full, dict(M, x=q)), M["x"])
    except (Undef, ZeroDivisionError): raise Discard()
    if abs(d) > 1e10: raise Discard()
    call_ = "%s(%s)" % (fname, ",".join(text(t) for t in inner))
    formula = "%s + x" % call_
    cx.show("definition", "%s(%s) = %s; %s" % (fname, ",".join(formal), src, formula)); cx.show("point", env)
    # exact partials as callbacks, from the symbolic derivative of the body
    be = make(src)
    const = not isinstance(be, (S.Expr, S.Symbol))
    partials = []
    for n in formal:
        p = S.Expr(be).diff(n)
        num = number(p)
        def cb(args, p=p, num=num):
            if num is not None: return s_const(num)
            r = p
            for m, a in zip(formal, args): r = r.substitute(m, a)
            return r
        k = s.below(3)
        def s_const(x, k=k): return [x, S.Expr(x), int(x) if x == int(x) else x][k]
        partials.append(cb)
    cb = as_callback(src)
    def close(x, want, route):
        x = number(x)
        need(x is not None and math.isfinite(x) and abs(mp.mpf(x) - want) <= mp.mpf("1e-6") * (abs(want) + abs(v[0]) * mp.mpf("1e-6")), lambda: "%s gives %r at %r, true value %s (%s(%s) = %s in %s)" % (route, x, env, mp.nstr(want, 12), fname, formal, src, formula))
    ctx = call(lambda: S.Context().with_function(fname, ar, cb, partials), "with_function")
    e = S.parse(formula, [], [fname])
    names = s.pick([["x", "y"], ["y", "x"]])
    ce = call(lambda: S.CompiledEvaluator(e, names, ctx), "CompiledEvaluator with a context")
    close(ce.evaluate([env[n] for n in names]), v[0], "compiled with the context")
    # derivatives, closed by expanding the calls through the compiled evaluator
    db = S.Diff().with_context(ctx) if s.chance(1, 2) else call(lambda: S.Diff().user_fn(fname, ar, cb, partials), "user_fn")
    q = s.pick([lambda: db.differentiate(e, "x"), lambda: S.parse(db.diff_str(formula, "x"), [], [fname])])
    dq = call(q, "differentiate")
    ce = call(lambda: S.CompiledEvaluator(dq, names, ctx), "CompiledEvaluator of the derivative %s" % dq)
    close(ce.evaluate([env[n] for n in names]), d, "derivative %s" % dq)
    # a callback that fails is no zero
    if s.chance(1, 4):
        def bad(args): raise KeyError("bad")
        def nothing(args): return None
        fn = s.pick([bad, nothing])
        try: r = S.Diff().user_fn(fname, ar, None, [fn] * ar).diff_str("%s(%s)" % (fname, ",".join(["x"] * ar)), "x")
        except Exception: r = None
        need(r is None or r not in ("0", "1") , "a failing callback counts as %r" % r)
    try:
        S.Diff().user_fn(fname, ar, None, [cb] * (ar + 1))
        raise Fail("more partials than arguments accepted")
    except ValueError: pass
    cx.nontrivial = not const
def k_arrays(s, cx):
    """array layouts and malformed data: right values or an exception"""
    names = LETTERS[:1 + s.below(3)]
    coef = [s.pick([1.0, 2.0, -3.0, 0.5]) for _ in names]
    e = S.parse(" + ".join("(%r)*%s^%d" % (c, n, 1 + i) for i, (c, n) in enumerate(zip(coef, names))) + " + 0.5")
    n = s.pick([0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 65, 257, 300])
    good = [[float(s.below(9) - 4) for _ in range(min(n, 40))] for _ in names]
    good = [(c * (n // max(len(c), 1) + 1))[:n] for c in good]
    lens = [n] * len(names); okdata = True
    data = []; kinds = []
    for i, c in enumerate(good):
        k = s.below(13); kinds.append(k)
        if k == 0: d = np.array(c)
        elif k == 1: d = np.array(c, dtype=np.int64)
        elif k == 2: d = np.array(c, dtype=np.float32)
        elif k == 3: d = np.repeat(np.array(c), 2)[::2]
        elif k == 4: d = np.array(c)[::-1][::-1]
        elif k == 5: d = np.array(list(reversed(c)))[::-1]
        elif k == 6: d = np.array([c, c]).T[:, 0]
        elif k == 7: d = tuple(c)
        elif k == 8: d = c
        elif k == 9: d = [np.float64(v) for v in c]
        elif k == 10: d = [int(v) for v in c]
        elif k == 11: d = np.array(c, dtype=">f8")
        else:
            j = s.below(8); okdata = False
            d = [None, "12", 5.0, np.array([c, c]), ["a"] * max(n, 1), {1: 2}, object(), [c]][j]
        data.append(d)
    want = [sum(mp.mpf(cf) * mp.mpf(good[i][k]) ** (1 + i) for i, cf in enumerate(coef)) + mp.mpf("0.5") for k in range(n)]
    short = None
    if okdata and len(names) > 1 and n > 0 and s.chance(1, 4):
        short = s.below(len(names)); data[short] = list(good[short][:-1])
    if s.chance(1, 8): short = -1; data = data + [[1.0] * n] if s.chance(1, 2) else data[:-1]
    routes = [("eval_batch", lambda: S.CompiledEvaluator(e, names).eval_batch(data)), ("eval_f64", lambda: S.eval_f64([e], [names], [data])[0]), ("evaluate_parallel", lambda: S.evaluate_parallel([e], [names], [data])[0])]
    nm, f = s.pick(routes)
    cx.show("call", "%s of %s, %d points, layouts %r, short %r" % (nm, names, n, kinds, short))
    try: r = f()
    except (TypeError, ValueError, RuntimeError) as err:
        # exceptions are for malformed data and for layouts that are no contiguous float64
        if okdata and short is None and all(k in (0, 4, 7, 8, 9, 10) for k in kinds) and n > 0: raise Fail("%s raises %s: %s for well-formed data" % (nm, type(err).__name__, err))
        cx.nontrivial = True
        return
    if short is not None and nm == "evaluate_parallel": return      # documented separately: C16
    need(short is None, lambda: "%s accepts columns %r for %d variables, one short or missing" % (nm, [len(d) for d in data if hasattr(d, "__len__")], len(names)))
    need(okdata or nm == "x", lambda: "%s accepts %r" % (nm, data))
    need(len(r) == n or n == 0, lambda: "%s gives %d values for %d points" % (nm, len(r), n))
    for k in range(min(n, len(r))):
        need(same(r[k], (want[k], mp.mpf("1e-9"))), lambda: "%s gives %r at row %d, true value %s (layouts %r)" % (nm, r[k], k, want[k], kinds))
    if n and s.chance(1, 3):
        # several expressions with data of different lengths
        m = s.pick([1, 2, n, n + 1, max(n - 1, 1), 2 * n])
        w = S.parse("2*x"); col2 = [0.25 * i for i in range(m)]
        arr = s.chance(1, 2)
        cols1 = [np.array(c) if arr else c for c in good]
        cfg = [([e, w, w], [names, ["x"], ["x"]], [cols1, [np.array(col2) if arr else col2], [np.array(col2[:1])if arr else col2[:1]]])]
        try: r = S.eval_f64(*cfg[0])
        except ValueError: r = None
        if r is not None:
            need(len(r) == 3, "eval_f64: number of rows")
            need([len(q) for q in r] == [n, m, 1], lambda: "eval_f64 gives rows of %r points for %r" % ([len(q) for q in r], [n, m, 1]))
            for k in range(n): need(same(r[0][k], (want[k], mp.mpf("1e-9"))), "eval_f64, several expressions, row %d" % k)
            for k in range(m): need(float(r[1][k]) == 0.5 * k, "eval_f64, second expression, row %d" % k)
            need(float(r[2][0]) == 0.0, "eval_f64, third expression")
        else: need(arr, "eval_f64 refuses lists of different lengths")
    cx.nontrivial = n > 0
def k_structure(s, cx):
    """equality, hashing, views, counting"""
    names = [s.pick(VARS) for _ in range(1 + s.below(3))]
    t = gen_term(s, 1 + s.below(4), False, names)
    src = prog(t, s)
    try: e = make(src)
    except Fail: raise Discard()
    e = S.Expr(e)
    src2 = prog(t, s)
    try: e2 = S.Expr(make(src2))
    except Fail: raise Discard()
    cx.show("program", src)
    objs = [e, e2, S.parse(text(t), names), S.Expr(e), S.symb(names[0]), S.Expr(names[0]), S.Expr(2), S.parse("2.0")]
    try: objs.append(e.simplify()); objs.append(S.parse(str(e), names))
    except Exception: pass
    for a in objs:
        for b in objs:
            q, r = a == b, b == a
            need(q == r, lambda: "%r == %r is %r, the other way %r" % (a, b, q, r))
            need(not q or hash(a) == hash(b), lambda: "%r == %r but their hashes differ" % (a, b))
            need((a != b) == (not q), "!= is not the negation of ==")
    need(e == e2 or "nan" in str(e).lower(), lambda: "equal programs %s and %s give unequal expressions %s and %s" % (src, src2, e, e2))
    need(len({S.symb(names[0]), S.symb(names[0]), S.Expr(names[0])}) == 1, "a symbol is several dictionary keys")
    # the view describes the expression
    env = point(s, names, True)
    def val(q, depth=0):
        v = q.view()
        need(len(v) == len(v.children) and all(v[i] == c and v[i - len(v)] == c for i, c in enumerate(v.children)), "children of a view by index")
        try: v[len(v)]; raise Fail("view index out of range accepted")
        except IndexError: pass
        flags = {"Number": v.is_number, "Symbol": v.is_symbol, "Sum": v.is_sum, "Product": v.is_product, "Div": v.is_div, "Pow": v.is_pow, "Function": v.is_function, "Derivative": v.is_derivative}
        need([k for k, x in flags.items() if x] == [v.kind], lambda: "flags %r of a %s view" % (flags, v.kind))
        c = v.children
        if v.kind == "Number": return mp.mpf(v.value)
        if v.kind == "Symbol": return mp.mpf({"pi": math.pi, "e": math.e}.get(v.name) or env[v.name])
        a = [val(x, depth + 1) for x in c]
        if v.kind == "Sum": return mp.fsum(a)
        if v.kind == "Product": return mp.fprod(a)
        if v.kind == "Div": pos_(a[1] != 0); return a[0] / a[1]
        if v.kind == "Pow": return powm(*a)
        if v.kind == "Function":
            f = FN1.get(v.name) or STEPS.get(v.name)
            if v.name == "log": return (pos_(a[0] > 0 and a[0] != 1 and a[1] > 0), mp.log(a[1]) / mp.log(a[0]))[1]
            if v.name == "atan2": return (pos_(a[0] != 0 or a[1] > 0), mp.atan2(*a))[1]
            if f is None: raise Discard()
            return f(*a)
        raise Discard()
    need(S.collect_variables(e) <= tvars(t), lambda: "collect_variables %r of %s" % (S.collect_variables(e), src))
    need(S.count_nodes(e) >= 1 and e.node_count() >= 1 and 1 <= e.max_depth() <= e.node_count(), lambda: "node_count %d, depth %d" % (e.node_count(), e.max_depth()))
    try:
        w = ball(t, env)
    except (Undef, Ill): raise Discard()
    got = call(lambda: val(e), "view")
    need(abs(real(got) - w[0]) <= tol(w), lambda: "the views of %s evaluate to %s, true value %s" % (src, mp.nstr(got, 15), mp.nstr(w[0], 15)))
    cx.nontrivial = size(t) > 2
POOL = None
def pool(s, depth=0):
    k = s.below(24 if depth < 2 else 18)
    if k == 0: return s.pick(["x", "y", "", "x+1", "sin(x)", "2*", ")(", "x^2+y", "f(x,y)", "@", "é", "x" * 50, "1e999", "nan", "∂^1_f(x)/∂_x^1", "sin(x,y)", "\0", "pi", "e"])
    if k == 1: return s.pick([0, 1, -1, 2, 7, -100, 1000, 2 ** 31, 2 ** 63, 2 ** 64, -2 ** 63 - 1, 10 ** 400])
    if k == 2: return s.pick([0.0, -0.0, 1.5, -2.5, math.nan, math.inf, -math.inf, 1e300, 1e-300, 3.7e7])
    if k == 3: return None
    if k == 4: return s.pick([True, b"x", 1j, object(), int, "x".join])
    if k == 5: return s.pick([np.array([1.0, 2.0]), np.array([]), np.zeros((2, 2)), np.float64(2), np.array(["a"]), np.array([1, 2])])
    if k in (6, 7): return S.symb(s.pick(LETTERS))
    if k in (8, 9, 10): return S.parse(s.pick(["x", "x+y", "x^2*y", "sin(x)/y", "ln(x-1)", "x^2+3*x+1", "exp(x)^y", "2", "0", "1/0", "sqrt(-1)", "hermite(3,x)", "besselj(2,x)", "foo(x)", "abs(x)"]))
    if k == 11: return S.Dual(s.pick([0.0, 1.0, -2.5, math.nan]), 1.0)
    if k == 12: return S.Context()
    if k == 13: return s.pick([S.Diff, S.Simplify])()
    if k == 14: return s.pick([lambda a: a[0], lambda *a: 1 / 0, lambda: 3, lambda a: "q", lambda a: a])
    if k == 15: return S.CompiledEvaluator(S.parse("x+2*y"), ["x", "y"])
    if k == 16: return S.Symbol.anon()
    if k == 17: return S.parse("x+y").view()
    if k < 22: return [pool(s, depth + 1) for _ in range(s.below(4))]
    if k == 22: return tuple(pool(s, depth + 1) for _ in range(s.below(3)))
    return {"x": 1.0, "y": 2.0}
def k_garbage(s, cx):
    """any call with any arguments: a result or a Python exception"""
    for _ in range(1 + s.below(3)):
        if s.chance(1, 3):
            names = [n for n in dir(S) if not n.startswith("_")]
            n = s.pick(names); f = getattr(S, n); what = n
        else:
            obj = pool(s)
            ms = [m for m in dir(obj) if type(obj).__module__ not in ("numpy", "builtins") or isinstance(obj, (S.Expr, S.Symbol, S.Dual, S.Context, S.Diff, S.Simplify, S.CompiledEvaluator))]
            ms = [m for m in ms if m not in ("__class__", "__init_subclass__", "__subclasshook__", "__reduce__", "__reduce_ex__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__dir__", "__sizeof__", "__format__", "__getstate__")]
            if not ms or isinstance(obj, np.ndarray): continue
            m = s.pick(ms); f = getattr(obj, m, None); what = "%s.%s" % (type(obj).__name__, m)
        if not callable(f): continue
        args = [pool(s) for _ in range(s.weighted([3, 5, 4, 2, 1]))]
        cx.show("call", "%s%r" % (what, tuple(args)))
        try: r = f(*args)
        except Exception: r = None
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt): raise
            raise Fail("%s%r panics: %s" % (what, tuple(args), e))
        # whatever came out can be displayed and used
        for g in (str, repr, lambda q: q.evaluate({"x": 1.5, "y": 0.5}) if isinstance(q, S.Expr) else None, lambda q: q.simplify() if isinstance(q, S.Expr) else None, lambda q: q.diff("x") if isinstance(q, S.Expr) else None):
            try: g(r)
            except Exception: pass
            except BaseException as e: raise Fail("using the result of %s%r panics: %s" % (what, tuple(args), e))
        cx.note("garbage calls", 1)
        cx.nontrivial = True
KINDS = [("values", k_values, 6), ("calculus", k_calculus, 2), ("methods", k_methods, 6), ("dual", k_dual, 3), ("registry", k_registry, 4), ("user functions", k_userfn, 2), ("arrays", k_arrays, 5), ("structure", k_structure, 3), ("garbage", k_garbage, 8)]

# ------------------------------------------------------------------ running
class Cx:
    def __init__(self): self.shown, self.notes, self.nontrivial = {}, {}, False
    def show(self, k, v): self.shown[k] = v
    def note(self, k, n): self.notes[k] = self.notes.get(k, 0) + n
class Shared:
    """kind, number and choices of the running case, for the parent"""
    def __init__(self): self.m = mmap.mmap(-1, 16 + 8 * (LIMIT + 8)); self.n = 0
    def begin(self, kind): self.n = 0; struct.pack_into("<QQ", self.m, 0, kind + 1, 0)
    def put(self, v):
        struct.pack_into("<q", self.m, 16 + 8 * self.n, v); self.n += 1; struct.pack_into("<Q", self.m, 8, self.n)
    def end(self): struct.pack_into("<Q", self.m, 0, 0)
    def read(self):
        k, n = struct.unpack_from("<QQ", self.m, 0)
        return (k - 1, list(struct.unpack_from("<%dq" % n, self.m, 16))) if k else None
CPU = 40
def run_case(kind, src, cx):
    """None, or what fails. Discard is passed on."""
    signal.setitimer(signal.ITIMER_PROF, CPU)
    try:
        KINDS[kind][1](src, cx)
    except Fail as e: return str(e)
    finally: signal.setitimer(signal.ITIMER_PROF, 0)
    return None
def guarded(kind, src, cx):
    try: return run_case(kind, src, cx)
    except Discard: raise
    except (Undef, Ill): raise Discard()
    except BaseException as e:
        if is_panic(e) and not isinstance(e, (KeyboardInterrupt, SystemExit)): return "panic: %s" % e
        # an unexpected exception of the package in a case that only makes valid calls
        import traceback
        return "raises %s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip())
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    sys.unraisablehook = lambda *a: None
    n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 2)
def attempt(kind, values):
    """Run one case in a fresh process: (message or None, choices used, shown)"""
    sh = Shared(); r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(r); limits(); cx = Cx(); src = Src(values=values, shared=sh); sh.begin(kind)
        try: m = guarded(kind, src, cx)
        except Discard: m = None
        with os.fdopen(w, "w") as f: json.dump([m, src.out, cx.shown], f, default=str)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: out = f.read()
    _, st = os.waitpid(pid, 0)
    if out:
        return tuple(json.loads(out))
    used = sh.read(); sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    why = "does not return within %d s of CPU time" % CPU if sig == signal.SIGPROF else "crashes the interpreter (status %d)" % st
    return why, used[1] if used else values, {}
def shrink(kind, values, msg):
    t0 = time.time(); best, shown = list(values), {}
    m, used, sh = attempt(kind, best)
    if not m: return best, msg, {}
    best, msg, shown = used, m, sh
    slow = "does not return" in msg
    improved = True
    while improved and time.time() - t0 < (60 if not slow else 150):
        improved = False
        n = len(best); step = max(1, n // 2)
        cands = []
        while step >= 1:
            for i in range(0, n, step): cands.append(best[:i] + best[i + step:])
            step //= 2
        for i, v in enumerate(best):
            if v: cands.append(best[:i] + [0] + best[i + 1:]); cands.append(best[:i] + [v // 2] + best[i + 1:]); cands.append(best[:i] + [v - 1] + best[i + 1:])
        for c in cands:
            if time.time() - t0 > (60 if not slow else 150): break
            m, used, sh = attempt(kind, c)
            if m and ("does not return" in m or not slow) and (len(used), used) < (len(best), best):
                best, msg, shown, improved = used, m, sh, True
                break
    return best, msg, shown
def worker(wid, count, deadline, w, sh):
    limits()
    rng = random.Random("C27-%d-%d" % (SEED, wid))
    total = sum(k[2] for k in KINDS); done = 0; fails = []; nont = {}; notes = {}; samples = {}; disc = 0; hashes = []
    if os.environ.get("C27_KIND"): only = [i for i, k in enumerate(KINDS) if k[0] == os.environ["C27_KIND"]]
    else: only = None
    with os.fdopen(w, "w") as f:
        while done < count and time.time() < deadline:
            r = rng.randrange(total); kind = 0
            while r >= KINDS[kind][2]: r -= KINDS[kind][2]; kind += 1
            if only: kind = only[0]
            src = Src(rng=rng, shared=sh); cx = Cx(); sh.begin(kind)
            try: m = guarded(kind, src, cx)
            except Discard: disc += 1; done += 1; sh.end(); continue
            sh.end(); done += 1
            nm = KINDS[kind][0]; notes["cases: " + nm] = notes.get("cases: " + nm, 0) + 1
            for k, v in cx.notes.items(): notes[k] = notes.get(k, 0) + v
            if m:
                fails.append((kind, src.out, m))
                if len(fails) >= (40 if only or os.environ.get("C27_EXPLORE") else 3): break
            elif cx.nontrivial:
                hashes.append(hash((kind, tuple(src.out))))
                if nm not in samples: samples[nm] = "; ".join("%s: %s" % q for q in cx.shown.items())[:300]
        json.dump({"done": done, "fails": fails, "hashes": hashes, "notes": notes, "samples": samples, "discarded": disc}, f)
    os._exit(0)
def main():
    global S
    stage = build()
    sys.path.insert(0, stage); sys.dont_write_bytecode = True
    import symb_anafis
    S = symb_anafis
    import symb_anafis as _p
    shutil.rmtree(stage, ignore_errors=True)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        c = json.load(open(sys.argv[2]))["case"]
        m, used, shown = attempt([k[0] for k in KINDS].index(c["kind"]), c["choices"])
        for k, v in shown.items(): print("# %s: %s" % (k, v))
        print(m or "passes")
        if m: print("VIOLATION property=C27 replay=%s" % sys.argv[2])
        sys.exit(1 if m else 0)
    rep = Report("C27", "a Python program over the package (a formula built by operators and methods and evaluated by every route, derivatives, a method with arguments, a chain of dual operations, a history of registry operations, a user function by callbacks, arrays of some layout, a call with arbitrary arguments); non-trivial: the formula has an operation, the value is defined, the history has three operations, or a call was made",
                 ["mpmath is correct", "arrays that are not contiguous float64 may be refused with an exception", "derivatives and simplification compared where all subexpressions are positive (C06, C08, C11 cover the rest)"])
    per = int(os.environ.get("C27_N", 60000 if THOROUGH else 10000))
    deadline = time.time() + (700 if THOROUGH else 240)
    jobs = []
    for wid in range(JOBS):
        sh = Shared(); r, w = os.pipe(); sys.stdout.flush(); pid = os.fork()
        if pid == 0:
            os.close(r); worker(wid, per, deadline, w, sh)
        os.close(w); jobs.append((pid, r, sh))
    fails = []; crashed = 0
    for pid, r, sh in jobs:
        with os.fdopen(r) as f: out = f.read()
        _, st = os.waitpid(pid, 0)
        if out:
            d = json.loads(out)
            rep.evals += d["done"]; rep.nontrivial.update(d["hashes"]); fails += d["fails"]; rep.count("discarded", d["discarded"])
            for k, v in d["notes"].items(): rep.count(k, v)
            for k, v in d["samples"].items():
                if not any(x.startswith(k) for x in rep.samples): rep.samples.append("%s: %s" % (k, v))
        else:
            c = sh.read(); crashed += 1
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            if c: fails.append((c[0], c[1], "the process dies (signal %d)" % sig))
            else: print("check error: a worker died outside a case (status %d)" % st); sys.exit(2)
    if os.environ.get("C27_EXPLORE"):
        for k, c, m in fails: print("##", KINDS[k][0], m[:600], "CHOICES", c if len(c) < 30 else "")
        print(rep.evals, rep.counts); sys.exit(1 if fails else 0)
    seen = set()
    for k, c, m in fails:
        if k in seen: continue
        seen.add(k)
        best, msg, shown = shrink(k, c, m)
        rep.violation("%s: %s" % (KINDS[k][0], msg), {"kind": KINDS[k][0], "choices": best, "shown": shown})
        if len(seen) >= 4: break
    rep.finish()
if __name__ == "__main__": main()
