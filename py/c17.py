"""C17: values of every built-in function against mpmath (30+ digits).

Each case is a function and arguments; the value by the symbolic evaluator, the compiled scalar
evaluator, a vector lane and the batch tail must each be within the tolerance of the true value,
and must not be a finite number where the function is undefined."""
import math, os, random, struct, subprocess, sys, json
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pcommon import *
import mpmath as mp
mp.mp.dps = 40
EPS = 2.0 ** -52
I = mp.inf
# ---------------------------------------------------------------- definitions (exact arguments)
class Undef(Exception): pass
def dom(c):
    if not c: raise Undef()
def re(z):
    if isinstance(z, mp.mpc):
        dom(z.imag == 0)
        return z.real
    return z
def f_log(b, x): dom(b > 0 and b != 1 and x > 0); return mp.log(x) / mp.log(b)
def pole0(x): dom(not (x <= 0 and x == mp.floor(x)))
def f_gamma(x): pole0(x); return mp.gamma(x)
def f_beta(a, b): pole0(a); pole0(b); pole0(a + b); return mp.gamma(a) * mp.gamma(b) / mp.gamma(a + b)
def f_psi(n):
    def f(x): pole0(x); return mp.psi(n, x)
    return f
def f_polygamma(n, x): pole0(x); return mp.psi(int(n), x)
def f_zeta(s): dom(s != 1); return mp.zeta(s)
def f_zeta_d(n, s): dom(s != 1); return mp.zeta(s, 1, int(n)) if s >= 0 else mp.diff(mp.zeta, s, int(n))
def legendre(l, m, x):
    # Condon-Shortley phase included, from the Rodrigues-type definition by recurrence in mp
    dom(-1 <= x <= 1)
    l, m = int(l), int(m)
    a = abs(m)
    dom(a <= l)
    p = mp.mpf(-1) ** a * mp.fac2(2 * a - 1) * mp.sqrt(1 - x * x) ** a if a else mp.mpf(1)
    q = mp.mpf(0)
    for k in range(a, l):
        p, q = ((2 * k + 1) * x * p - (k + a) * q) / (k - a + 1), p
    if m < 0:
        p = (-1) ** a * mp.fac(l - a) / mp.fac(l + a) * p
    return p
def sph(l, m, t, p):
    l, m = int(l), int(m)
    return mp.sqrt((2 * l + 1) / (4 * mp.pi) * mp.fac(l - m) / mp.fac(l + m)) * legendre(l, m, mp.cos(t)) * mp.cos(m * p)
def sgn(x): return mp.mpf(0) if x == 0 else mp.sign(x)
def rnd(x): f = mp.floor(abs(x) + mp.mpf(1) / 2); return f if x >= 0 else -f
def f_tan(x): return mp.tan(x)
def rec(f):
    def g(x):
        d = f(x); dom(d != 0); return 1 / d
    return g
def cot(x): dom(x != 0); return mp.cot(x)
def acot(x): return mp.pi / 2 - mp.atan(x)
def coth(x): dom(x != 0); return mp.coth(x)
D = {  # name: (fn, relative accuracy, absolute accuracy relative to 1, generator)
}
def reg(name, fn, gen, rel=4e-15, ab=0.0, prec=None): D[name] = (fn, rel, ab, gen)
# ---------------------------------------------------------------- argument generators
def lin(a, b): return lambda r: r.uniform(a, b)
def logu(lo, hi, signed=True):
    def g(r):
        v = math.exp(r.uniform(math.log(lo), math.log(hi)))
        return -v if signed and r.random() < 0.5 else v
    return g
def pick(*v): return lambda r: r.choice(v)
def mixg(*gs): return lambda r: r.choice(gs)(r)
SPECIAL = pick(0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1e-9, -1e-9, 1e-300, 10.0, 0.25, 1 / 3, math.pi, math.pi / 2, math.e)
general = mixg(lin(-3, 3), lin(-3, 3), lin(-12, 12), logu(1e-12, 1e4), SPECIAL)
unit = mixg(lin(-1, 1), lin(-1, 1), lin(-1.5, 1.5), logu(1e-9, 1), pick(1.0, -1.0, 0.0, 0.5, 1.0000001, 0.9999999, 2.0, -3.0))
posg = mixg(lin(0, 3), lin(0, 40), logu(1e-9, 1e4, False), lin(-3, 0), pick(0.0, 1.0, 2.0, -1.0))
def one(g): return lambda r: (g(r),)
def ints(a, b): return lambda r: float(r.randint(a, b))
def two(g, h): return lambda r: (g(r), h(r))
for n in ("sin", "cos", "tan", "sec", "csc"): pass
reg("sin", mp.sin, one(general)); reg("cos", mp.cos, one(general)); reg("tan", f_tan, one(general))
reg("cot", cot, one(general)); reg("sec", rec(mp.cos), one(general)); reg("csc", rec(mp.sin), one(general))
reg("asin", lambda x: (dom(abs(x) <= 1), mp.asin(x))[1], one(unit)); reg("acos", lambda x: (dom(abs(x) <= 1), mp.acos(x))[1], one(unit))
reg("atan", mp.atan, one(general)); reg("acot", acot, one(general), 4e-15, 2e-16)
outer = mixg(general, logu(1, 1e6), lin(-1, 1), pick(1.0, -1.0, 0.0))
reg("asec", lambda x: (dom(abs(x) >= 1), mp.acos(1 / x))[1], one(outer)); reg("acsc", lambda x: (dom(abs(x) >= 1), mp.asin(1 / x))[1], one(outer))
hyp = mixg(lin(-3, 3), lin(-40, 40), logu(1e-12, 300), SPECIAL)
reg("sinh", mp.sinh, one(hyp)); reg("cosh", mp.cosh, one(hyp)); reg("tanh", mp.tanh, one(hyp))
reg("coth", coth, one(hyp)); reg("sech", mp.sech, one(hyp)); reg("csch", rec(mp.sinh), one(hyp))
reg("asinh", mp.asinh, one(mixg(general, lin(-1e3, 1e3))), 4e-15, 4e-16); reg("acosh", lambda x: (dom(x >= 1), mp.acosh(x))[1], one(mixg(lin(0.5, 5), logu(1, 1e8, False), SPECIAL)))
reg("atanh", lambda x: (dom(abs(x) < 1), mp.atanh(x))[1], one(unit), 8e-15, 4e-16)
reg("acoth", lambda x: (dom(abs(x) > 1), mp.acoth(x))[1], one(outer), 8e-15)
reg("asech", lambda x: (dom(0 < x <= 1), mp.acosh(1 / x))[1], one(unit), 4e-15, 4e-16)
reg("acsch", lambda x: (dom(x != 0), mp.asinh(1 / x))[1], one(lambda r: (lambda v: v if v == 0 or abs(v) > 1e-300 else 0.3)(general(r))), 4e-15, 4e-16)
reg("exp", mp.exp, one(mixg(general, lin(-700, 700)))); reg("ln", lambda x: (dom(x > 0), mp.log(x))[1], one(posg))
reg("log", f_log, two(mixg(lin(0.1, 12), pick(2.0, 10.0, 0.5, -2.0, 1.0, 0.0)), posg), 8e-15)
reg("log10", lambda x: (dom(x > 0), mp.log10(x))[1], one(posg)); reg("log2", lambda x: (dom(x > 0), mp.log(x, 2))[1], one(posg))
reg("sqrt", lambda x: (dom(x >= 0), mp.sqrt(x))[1], one(posg)); reg("cbrt", lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x), one(general))
whole = mixg(general, lambda r: r.randint(-9, 9) + r.choice((0.0, 0.5, 0.25, -0.5, 1e-9)), logu(1, 1e17))
reg("floor", mp.floor, one(whole), 0); reg("ceil", mp.ceil, one(whole), 0); reg("round", rnd, one(whole), 0)
reg("abs", abs, one(general), 0); reg("sinc", lambda x: mp.mpf(1) if x == 0 else mp.sin(x) / x, one(general), 4e-15)
reg("signum", sgn, one(lambda r: (lambda v: v or 0.5)(mixg(general, logu(1e-300, 1e300))(r))), 0)
reg("exp_polar", mp.exp, one(hyp))
reg("atan2", lambda y, x: (dom(not (x == 0 and y == 0)), mp.atan2(y, x))[1], two(mixg(lin(-3, 3), logu(1e-6, 1e6)), mixg(lin(-3, 3), logu(1e-6, 1e6), pick(0.0, 1.0, -1.0))), 4e-15)
reg("erf", mp.erf, one(mixg(lin(-7, 7), lin(-3, 3), logu(1e-10, 1e3), SPECIAL)), 4e-15)
reg("erfc", mp.erfc, one(mixg(lin(-7, 7), lin(0, 26), lin(-1, 3))), 4e-14)
gam = mixg(lin(-5, 8), lin(0, 171.5), lin(-170, 0), ints(-8, 60), logu(1e-8, 1), lambda r: r.randint(-20, 20) + r.uniform(-1e-3, 1e-3), lambda r: r.randint(-20, 20) + 0.5)
reg("gamma", f_gamma, one(gam), 4e-13)
reg("beta", f_beta, two(mixg(lin(0, 8), lin(-4, 4), lin(0, 60), lin(0, 85)), mixg(lin(0, 8), lin(-4, 4), lin(0, 60), lin(0, 85))), 2e-12)
psi = mixg(lin(-5, 8), lin(0, 40), lin(-60, 0), logu(1e-3, 1e8, False), logu(1, 1e6), ints(-6, 40), lambda r: r.randint(-20, 20) + 0.5, lambda r: r.choice((6.0, 15.0, 10.0, 0.5)) + r.uniform(-0.01, 0.01))
reg("digamma", f_psi(0), one(psi), 1e-12, 4e-14); reg("trigamma", f_psi(1), one(psi), 1e-12); reg("tetragamma", f_psi(2), one(psi), 1e-12, 1e-14)
reg("polygamma", f_polygamma, two(ints(0, 12), psi), 2e-11, 0)
zs = mixg(lin(-12, 12), lin(0, 1), lin(1, 1.6), lin(1.4, 1.6), lin(-0.2, 0.2), lin(2, 60), lin(-100, 0), ints(-12, 30), lambda r: 1 + r.choice((1, -1)) * math.exp(r.uniform(-15, 0)))
reg("zeta", f_zeta, one(zs), 2e-13)
reg("zeta_deriv", f_zeta_d, two(ints(0, 5), mixg(lin(-12, 12), lin(0, 3), lin(1, 2), lin(-2, 1), lin(2, 30))), 1e-10)
lw = mixg(lin(-0.37, 0.5), lin(-1, 5), logu(1e-6, 1e12, False), lin(0, 4), lambda r: -math.exp(-1) + math.exp(r.uniform(-25, -2)), pick(0.0, 1.0, math.e, 3.0, -0.3))
reg("lambertw", lambda x: (dom(x >= -1 / mp.e), re(mp.lambertw(x)))[1], one(lw), 1e-13, 4e-15)
ell = mixg(lin(-1, 1), lin(-1.2, 1.2), lambda r: 1 - math.exp(r.uniform(-25, -1)), pick(0.0, 0.5, -0.5, 1.0, -1.0))
reg("elliptic_k", lambda k: (dom(abs(k) < 1), mp.ellipk(k * k))[1], one(ell), 1e-14)
reg("elliptic_e", lambda k: (dom(abs(k) <= 1), mp.ellipe(k * k))[1], one(ell), 1e-13)
reg("hermite", lambda n, x: mp.hermite(int(n), x), two(ints(0, 25), mixg(lin(-4, 4), lin(-30, 30))), 1e-13, 0)
# Bessel functions: rational approximations, stated to 8 digits or so (absolute for oscillating, relative to the amplitude)
bx = mixg(lin(-12, 12), lin(-60, 60), lin(7.5, 8.5), lin(-1, 1), lin(3, 4), lin(1.9, 2.1))
bxp = mixg(lin(0, 12), lin(0, 60), lin(7.5, 8.5), lin(0, 1), lin(1.9, 2.1), lin(-2, 0))
reg("besselj", lambda n, x: mp.besselj(int(n), x), two(mixg(ints(-3, 6), ints(0, 40)), bx), 8e-8, 1e-8)
def by(n, x): dom(x > 0); return mp.bessely(int(n), x)
reg("bessely", by, two(mixg(ints(-3, 6), ints(0, 12)), bxp), 1.2e-7, 2e-9)
reg("besseli", lambda n, x: mp.besseli(abs(int(n)), x), two(mixg(ints(-3, 6), ints(0, 40)), mixg(bx, lin(-600, 600))), 7e-7)
def bk(n, x): dom(x > 0); return mp.besselk(int(n), x)
reg("besselk", bk, two(mixg(ints(-3, 6), ints(0, 15)), mixg(bxp, lin(0, 600))), 2.4e-7)
def lm(r):
    l = r.randint(0, 12); m = r.randint(-l, l) if r.random() < 0.5 else r.randint(0, l)
    return float(l), float(m)
reg("assoc_legendre", legendre, lambda r: lm(r) + (unit(r),), 1e-12)
reg("spherical_harmonic", sph, lambda r: lm(r) + (r.uniform(-7, 7), r.uniform(-7, 7)), 1e-12)
reg("ynm", sph, lambda r: lm(r) + (r.uniform(-7, 7), r.uniform(-7, 7)), 1e-12)
SLOW = {"zeta_deriv", "beta", "besselj", "bessely", "besseli", "besselk", "polygamma", "zeta"}
INT_ARGS = {"polygamma": 1, "zeta_deriv": 1, "hermite": 1, "besselj": 1, "bessely": 1, "besseli": 1, "besselk": 1, "assoc_legendre": 2, "spherical_harmonic": 2, "ynm": 2}
# absolute scale for functions with zeros where the working magnitude is larger than the value
def scale_of(name, args):
    x = args[-1]
    try:
        if name == "hermite":
            n = int(args[0]); return abs(mp.hermite(n, mp.mpc(0, abs(x)))) if n else mp.mpf(1)
        if name in ("assoc_legendre",):
            l, m = int(args[0]), abs(int(args[1])); s = mp.fac(l + m) / mp.fac(l - m)
            s = mp.sqrt(s)
            return s * (mp.fac(l - m) / mp.fac(l + m) if args[1] < 0 else 1)
        if name in ("spherical_harmonic", "ynm"):
            return mp.sqrt((2 * int(args[0]) + 1) / (4 * mp.pi))
        if name == "polygamma":
            n = int(args[0]); d = min(abs(x - mp.nint(x)) if x < 1 else x, mp.mpf(1)) if x < 1 else x
            return mp.fac(n) * d ** (-n - 1) if n else abs(mp.log(abs(x) + 1)) + 1
        if name in ("bessely", "besselj"):
            n = abs(int(args[0]))
            if name == "bessely" or n <= abs(x):
                # forward recurrence amplifies the starting error like Y_n does
                if not x: return mp.mpf(0)
                y = abs(mp.bessely(n, abs(x)))
                return max(y, abs(mp.besselj(n, abs(x)))) if name == "bessely" else y
        if name == "zeta_deriv":
            n = int(args[0]); s = mp.mpf(x)
            base = mp.fac(n) / abs(s - 1) ** (n + 1) + 1
            if s < 0: base += abs(2 * (2 * mp.pi) ** (s - 1) * mp.gamma(1 - s)) * (mp.log(2 * mp.pi) + abs(mp.psi(0, 1 - s)) + 2) ** n
            return base * mp.mpf(10) ** -3
        if name == "trigamma" or name == "tetragamma":
            return 0
    except Exception:
        pass
    return 0
def truth(name, args):
    """(status, value, slack): slack = conditioning with respect to 2 ulp of each real argument"""
    fn, rel, ab, _ = D[name]
    A = [mp.mpf(a) for a in args]
    try:
        v = fn(*A)
        v = re(v) if isinstance(v, mp.mpc) else mp.mpf(v)
    except (Undef, ZeroDivisionError, ValueError):
        return ("undef", None, None)
    if not mp.isfinite(v): return ("undef", None, None)
    slack = mp.mpf(0)
    k = INT_ARGS.get(name, 0)
    if name not in ("floor", "ceil", "round", "signum", "abs"):
        for i in range(k, len(A)):
            h = abs(A[i]) * EPS * 2
            if h == 0: continue
            worst = mp.mpf(0)
            for sg in (1, -1):
                B = list(A); B[i] = A[i] + sg * h
                try:
                    w = fn(*B)
                    w = re(w) if isinstance(w, mp.mpc) else mp.mpf(w)
                    worst = max(worst, abs(w - v))
                except (Undef, ZeroDivisionError, ValueError):
                    pass
            slack += worst
    return ("val", v, slack)
def judge(name, args, res, t):
    """None if fine, else a message. res: list of 4 floats or None"""
    st, v, slack = t
    fn, rel, ab, _ = D[name]
    if name == "besseli" and abs(args[0]) >= 2: rel = 1e-11  # a recurrence on series values, no fitted polynomial
    labels = ("symbolic", "compiled", "vector lane", "batch tail")
    for lab, x in zip(labels, res):
        if st == "undef":
            if x is not None and math.isfinite(x):
                # a pole approached by rounding: compare with the neighbourhood instead
                return "%s value %r where the function is undefined" % (lab, x)
            continue
        if x is None:
            return "%s gives no number, true value %s" % (lab, mp.nstr(v, 17))
        tol = rel * max(abs(v), scale_of(name, args)) + ab + 6 * slack + mp.mpf(10) ** -300
        if abs(v) > mp.mpf(10) ** 290:
            if math.isinf(x) and (x > 0) == (v > 0): continue
        if math.isnan(x) or math.isinf(x) or abs(mp.mpf(x) - v) > tol:
            return "%s value %r, true value %s (allowed error %s)" % (lab, x, mp.nstr(v, 17), mp.nstr(tol, 3))
    return None
# ---------------------------------------------------------------- running
def hexd(x): return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
def unhex(s): return None if s == "err" else struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
def ask(server, cases, timeout):
    inp = "".join("%s %s\n" % (n, " ".join(hexd(a) for a in args)) for n, args in cases)
    try:
        p = subprocess.run([server], input=inp, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "does not return within %d s" % timeout
    lines = p.stdout.splitlines()
    if p.returncode != 0 or len(lines) != len(cases):
        return None, "evaluation process died with status %d" % p.returncode
    return lines, None
def parse_line(l):
    if l.startswith("panic"): return l
    return [unhex(x) for x in l.split()]
def check_one(server, name, args):
    lines, err = ask(server, [(name, args)], 30)
    if err: return err
    r = parse_line(lines[0])
    if isinstance(r, str): return r
    return judge(name, args, r, truth(name, args))
def shrink(server, name, args):
    msg = check_one(server, name, args)
    best = list(args)
    k = INT_ARGS.get(name, 0)
    for _ in range(3):
        changed = False
        for i in range(len(best)):
            cands = [0.0, 1.0, 2.0, -1.0, float(round(best[i]))] + [round(best[i], d) for d in (1, 2, 3, 5)] + [float(int(best[i]))]
            if i < k: cands = [float(c) for c in range(0, int(abs(best[i])))]
            for c in cands:
                if c == best[i] or abs(c) > abs(best[i]): continue
                t = list(best); t[i] = c
                if name in ("assoc_legendre", "spherical_harmonic", "ynm") and abs(t[1]) > t[0]: continue
                m = check_one(server, name, t)
                if m:
                    best, msg, changed = t, m, True
                    break
        if not changed: break
    return best, msg
def gen_case(rng, names):
    n = rng.choice(names)
    return n, tuple(D[n][3](rng))
def worker(job):
    server, wid, n, names = job
    rng = random.Random("C17-%d-%d" % (SEED, wid))
    cases = []
    while len(cases) < n:
        nm, a = gen_case(rng, names)
        if nm in SLOW and rng.random() < 0.4: continue
        cases.append((nm, a))
    fails, nontriv, counts = [], [], {}
    lines, err = ask(server, cases, 200)
    if err:
        # isolate: run in halves, alone at the end
        def bis(lo, hi):
            if hi - lo == 1:
                e = ask(server, cases[lo:hi], 30)[1]
                return [(lo, e)] if e else []
            e = ask(server, cases[lo:hi], 60)[1]
            if not e: return []
            m = (lo + hi) // 2
            return bis(lo, m) or bis(m, hi)
        bad = bis(0, len(cases))
        if not bad: return ("error", "evaluation server failed but not on any single input: " + err)
        return ("ok", [(cases[i][0], cases[i][1], e) for i, e in bad], n, [], {}, [])
    samples = []
    for (nm, a), l in zip(cases, lines):
        r = parse_line(l)
        counts[nm] = counts.get(nm, 0) + 1
        if isinstance(r, str):
            fails.append((nm, a, r)); continue
        t = truth(nm, a)
        m = judge(nm, a, r, t)
        if m: fails.append((nm, a, m))
        if t[0] == "val": nontriv.append(hash((nm, a)))
        if len(samples) < 1: samples.append("%s%r -> %r, true %s" % (nm, a, r, mp.nstr(t[1], 17) if t[0] == "val" else "undefined"))
    return ("ok", fails, n, nontriv, counts, samples)
def main():
    server = build_harness("evalsrv")
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        c = json.load(open(sys.argv[2]))["case"]
        m = check_one(server, c["function"], c["args"])
        print(m or "passes")
        if m: print("VIOLATION property=C17 replay=%s" % sys.argv[2])
        sys.exit(1 if m else 0)
    rep = Report("C17", "a built-in function name and arguments drawn from its regions (domain edges, branch points, poles, integers, tails); non-trivial: the function is defined there, so a 40-digit reference value was compared with four evaluation paths",
                 ["mpmath's values at 40 digits are correct", "stated accuracies: elementary 4e-15, gamma family 1e-12, Bessel J 8e-8 and Y 1.2e-7 of the amplitude, I 7e-7 and K 2.4e-7 relative (the published accuracy of their rational approximations), zeta 2e-13, zeta derivatives 1e-10 of their working magnitude; plus the conditioning of the argument"])
    names = sorted(D)
    if os.environ.get("C17_ONLY"): names = os.environ["C17_ONLY"].split(",")
    per = 40000 if THOROUGH else 2500
    rounds = JOBS * (4 if THOROUGH else 1)
    jobs = [(server, w, per if not THOROUGH else per // 4, names) for w in range(rounds)]
    fails = []
    with ProcessPoolExecutor(JOBS) as ex:
        for r in ex.map(worker, jobs):
            if r[0] == "error":
                print("check error: " + r[1]); sys.exit(2)
            fails += r[1]; rep.evals += r[2]; rep.nontrivial.update(r[3]); rep.samples += r[5]
            for k, v in r[4].items(): rep.count(k, v)
    # recorded defect: orders that are not integers are rounded to one (a value, but of another function)
    nonint = [("besselj", (1.5, 2.0)), ("bessely", (0.5, 2.0)), ("besseli", (2.5, 1.0)), ("besselk", (0.5, 1.0)), ("hermite", (1.5, 0.5)), ("polygamma", (1.5, 2.0)), ("assoc_legendre", (1.5, 0.0, 0.3)), ("zeta_deriv", (0.5, 3.0))]
    wrong = []
    for nm, a in nonint:
        x = parse_line(ask(server, [(nm, a)], 30)[0][0])
        if isinstance(x, str): rep.violation("%s%r: %s" % (nm, a, x), {"function": nm, "args": a})
        elif any(v is not None and math.isfinite(v) for v in x):
            T = {"besselj": mp.besselj, "bessely": mp.bessely, "besseli": mp.besseli, "besselk": mp.besselk}.get(nm)
            if T is None or any(v is not None and abs(v - T(*a)) > 1e-6 for v in x): wrong.append("%s%r = %r" % (nm, a, x[0]))
    if wrong and not rep.finding("noninteger-order", ""):
        rep.violation("an order that is not an integer is rounded to one: " + "; ".join(wrong), {"function": "besselj", "args": [1.5, 2.0]})
    seen = {}
    for nm, a, m in fails: seen.setdefault(nm, []).append((a, m))
    if os.environ.get("C17_VERBOSE"):
        for nm, l in seen.items():
            print("##", nm, len(l))
            for a, m in l[:8]: print("   ", a, m)
        sys.exit(1)
    for nm, l in sorted(seen.items())[:6]:
        a, m = l[0]
        best, msg = shrink(server, nm, list(a))
        rep.violation("%s(%s): %s" % (nm, ", ".join(repr(x) for x in best), msg or m), {"function": nm, "args": best if msg else list(a), "found_at": list(a)})
    rep.finish()
if __name__ == "__main__": main()
