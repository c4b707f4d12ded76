"""Rate expressions: a strategy for syntax trees, their KPP/MCM text, and a reference value with an error bound.

The reference value is computed from the tree, never from text.  Every number is a pair (value, e): e bounds, to
first order, how far an implementation may be off in units of its own relative rounding error u (u = 2^-24 where
literals are kept in single precision, as PyBox's Fortran has them; 2^-53 for Python).
"""
import functools
import math
import re

from hypothesis import strategies as st


class N:
    __slots__ = ("v", "e")

    def __init__(self, v, e=None):
        self.v = float(v)
        self.e = abs(self.v) if e is None else float(e)

    @staticmethod
    def of(x):
        return x if isinstance(x, N) else N(x)

    def __add__(a, b):
        b = N.of(b)
        return N(a.v + b.v, a.e + b.e + abs(a.v + b.v))
    __radd__ = __add__

    def __neg__(a):
        return N(-a.v, a.e)

    def __sub__(a, b):
        b = N.of(b)
        return N(a.v - b.v, a.e + b.e + abs(a.v - b.v))

    def __rsub__(a, b):
        return N.of(b) - a

    def __mul__(a, b):
        b = N.of(b)
        return N(a.v * b.v, abs(a.v) * b.e + abs(b.v) * a.e + abs(a.v * b.v))
    __rmul__ = __mul__

    def __truediv__(a, b):
        b = N.of(b)
        q = a.v / b.v
        return N(q, abs(q) * (a.e / abs(a.v) if a.v else 0.0) + abs(q) * b.e / abs(b.v) + abs(q))

    def __rtruediv__(a, b):
        return N.of(b) / a

    def __pow__(a, b):
        b = N.of(b)
        if a.v == 0:
            return N(0.0, 0.0)
        v = a.v ** b.v
        ln = abs(math.log(a.v))
        return N(v, abs(v) * (abs(b.v) * a.e / a.v + ln * b.e + abs(b.v) * ln + 4))

    def __rpow__(a, b):
        return N.of(b) ** a


def exp(x):
    x = N.of(x)
    v = math.exp(x.v)
    return N(v, v * (x.e + 4))


def log(x):
    x = N.of(x)
    v = math.log(x.v)
    return N(v, x.e / x.v + abs(v) * 4)


def log10(x):
    x = N.of(x)
    v = math.log10(x.v)
    return N(v, x.e / x.v / math.log(10) + abs(v) * 4)


def sqrt(x):
    x = N.of(x)
    v = math.sqrt(x.v)
    return N(v, (x.e / (2 * v) if v else 0.0) + v * 4)


def fabs(x):
    return N(abs(x.v), x.e)


def cos(x):
    return N(math.cos(x.v), x.e * abs(math.sin(x.v)) + x.e * x.e * 1e-7 + 2)


def sin(x):
    return N(math.sin(x.v), x.e * abs(math.cos(x.v)) + x.e * x.e * 1e-7 + 2)


# ---------------------------------------------------------------- generic rate coefficients (MCM v3.2 / IUPAC)
CONSTANTS = ["KRONO2", "KRO2NO", "KRO2HO2", "KAPHO2", "KAPNO", "KRO2NO3", "KNO3AL", "KDEC", "KROSEC", "KALKOXY", "KALKPXY",
             "KROPRIM", "KCH3O2", "K298CH3O2", "K14ISOM1", "KFPAN", "KBPAN", "KBPPN"] + ["KMT%02d" % i for i in range(1, 19)]


def _troe(k0, ki, fc):
    fc = N.of(fc)
    nc = 0.75 - 1.27 * log10(fc)
    x = log10(k0 / ki) / nc
    f = N(10.0) ** (log10(fc) / (1.0 + x * x))
    return (k0 * ki) * f / (k0 + ki)


def constants(temp, h2o):
    t = N(temp)
    h = N(h2o)
    m = N(2.55e19)
    n2 = 0.79 * m
    o2 = 0.2095 * m

    def w(a, b=0.0):
        return N(a) * (t / 300.0) ** N(b)

    c = {"M": m, "N2": n2, "O2": o2, "TEMP": t, "H2O": h}
    c["KRONO2"] = c["KRO2NO"] = 2.7e-12 * exp(360.0 / t)
    c["KRO2HO2"] = 2.91e-13 * exp(1300.0 / t)
    c["KAPHO2"] = 5.2e-13 * exp(980.0 / t)
    c["KAPNO"] = 7.5e-12 * exp(290.0 / t)
    c["KRO2NO3"] = N(2.3e-12)
    c["KNO3AL"] = 1.4e-12 * exp(-1860.0 / t)
    c["KDEC"] = N(1e6)
    c["KROSEC"] = 2.5e-14 * exp(-300.0 / t)
    c["KALKOXY"] = 3.7e-14 * exp(-460.0 / t) * o2
    c["KALKPXY"] = 1.8e-14 * exp(-260.0 / t) * o2
    c["KROPRIM"] = 2.5e-14 * exp(-300.0 / t)
    c["KCH3O2"] = 1.03e-13 * exp(365.0 / t)
    c["K298CH3O2"] = N(3.5e-13)
    c["K14ISOM1"] = 3e7 * exp(-5300.0 / t)
    c["KFPAN"] = _troe(w(3.28e-28, -6.87) * m, w(1.125e-11, -1.105), 0.30)
    c["KBPAN"] = _troe(1.10e-5 * m * exp(-10100.0 / t), 1.9e17 * exp(-14100.0 / t), 0.30)
    a, b = 1.7e-3 * m * exp(-11280.0 / t), 8.3e16 * exp(-13940.0 / t)
    c["KBPPN"] = (a * b) * 0.36 / (a + b)
    c["KMT01"] = _troe(w(1e-31, -1.6) * m, w(5e-11, 0.3), 0.85)
    c["KMT02"] = _troe(w(1.3e-31, -1.5) * m, w(2.3e-11, 0.24), 0.6)
    c["KMT03"] = _troe(w(3.6e-30, -4.1) * m, w(1.9e-12, 0.2), 0.35)
    c["KMT04"] = _troe(w(1.3e-3, -3.5) * m * exp(-11000.0 / t), w(9.7e14, 0.1) * exp(-11080.0 / t), 0.35)
    c["KMT05"] = 1.44e-13 * (1.0 + m / 4.2e19)
    c["KMT06"] = 1.0 + 1.4e-21 * exp(2200.0 / t) * h
    c["KMT07"] = _troe(w(7.4e-31, -2.4) * m, w(3.3e-11, -0.3), 0.81)
    c["KMT08"] = _troe(w(3.2e-30, -4.5) * m, N(3e-11), 0.41)
    c["KMT09"] = _troe(w(1.4e-31, -3.1) * m, N(4e-12), 0.4)
    c["KMT10"] = _troe(4.1e-5 * m * exp(-10650.0 / t), 6e15 * exp(-11170.0 / t), 0.4)
    k3, k4 = 6.5e-34 * exp(1335.0 / t), 2.7e-17 * exp(2199.0 / t)
    c["KMT11"] = 2.4e-14 * exp(460.0 / t) + (k3 * m) / (1.0 + k3 * m / k4)
    c["KMT12"] = _troe(w(2.5e-31, -2.6) * m, N(2e-12), 0.53)
    c["KMT13"] = _troe(w(2.5e-30, -5.5) * m, N(1.8e-11), 0.36)
    c["KMT14"] = _troe(9e-5 * exp(-9690.0 / t) * m, 1.1e16 * exp(-10560.0 / t), 0.36)
    c["KMT15"] = _troe(w(8.6e-29, -3.1) * m, w(9e-12, -0.85), 0.48)
    c["KMT16"] = _troe(w(8e-27, -3.5) * m, w(3e-11, -1.0), 0.5)
    c["KMT17"] = _troe(w(5e-30, -1.5) * m, N(1e-12), 0.17 * exp(-51.0 / t) + exp(-1.0 * t / 204.0))
    # 9.5e-39 is below what single precision holds exactly (2^-149 steps): 1e-6 relative, so 8 times the unit bound.
    k18 = 9.5e-39 * o2 * exp(5270.0 / t) / (1.0 + 7.5e-29 * o2 * exp(5610.0 / t))
    c["KMT18"] = N(k18.v, k18.e + 16 * k18.v)
    return c


# ---------------------------------------------------------------- photolysis (MCM parameterisation)
J_PARAM = {1: (6.073e-05, 1.743, 0.474), 2: (4.775e-04, 0.298, 0.080), 3: (1.041e-05, 0.723, 0.279),
           4: (1.165e-02, 0.244, 0.267), 5: (2.485e-02, 0.168, 0.108), 6: (1.747e-01, 0.155, 0.125),
           7: (2.644e-03, 0.261, 0.288), 8: (9.312e-07, 1.230, 0.307), 11: (4.642e-05, 0.762, 0.353),
           12: (6.853e-05, 0.477, 0.323), 13: (7.344e-06, 1.202, 0.417), 14: (2.879e-05, 1.067, 0.358),
           15: (2.792e-05, 0.805, 0.338), 16: (1.675e-05, 0.805, 0.338), 17: (7.914e-05, 0.764, 0.364),
           18: (1.482e-06, 0.396, 0.298), 19: (1.482e-05, 0.396, 0.298), 20: (7.600e-04, 0.396, 0.298),
           21: (7.992e-07, 1.578, 0.271), 22: (5.804e-06, 1.092, 0.377), 23: (2.4246e-06, 0.395, 0.296),
           24: (2.424e-06, 0.395, 0.296), 31: (6.845e-05, 0.130, 0.201), 32: (1.032e-05, 0.130, 0.201),
           33: (3.802e-05, 0.644, 0.312), 34: (1.537e-04, 0.170, 0.208), 35: (3.326e-04, 0.148, 0.215),
           41: (7.649e-06, 0.682, 0.279), 51: (1.588e-06, 1.154, 0.318), 52: (1.907e-06, 1.244, 0.335),
           53: (2.485e-06, 1.196, 0.328), 54: (4.095e-06, 1.111, 0.316), 55: (1.135e-05, 0.974, 0.309),
           56: (4.365e-05, 1.089, 0.323), 57: (3.363e-06, 1.296, 0.322), 61: (7.537e-04, 0.499, 0.266)}
J_DEFINED = sorted(J_PARAM)


def cosx_mcm(ttime, single=False):
    """Cosine of the solar zenith angle, 30 May (day 150), 51.51 N, 0.13 E, at ttime seconds after midnight UTC."""
    pi = math.pi
    theta = N(2.0 * pi * 149.0 / 365.0)
    dec = (0.006918 - 0.399912 * cos(theta) + 0.070257 * sin(theta) - 0.006758 * cos(2 * theta) + 0.000907 * sin(2 * theta)
           - 0.002697 * cos(3 * theta) + 0.001480 * sin(3 * theta))
    eqt = (0.000075 + 0.001868 * cos(theta) - 0.032077 * sin(theta) - 0.014615 * cos(2 * theta) - 0.040849 * sin(2 * theta))
    hour = (ttime / 86400.0) % 1.0 * 24.0
    # The implementations form the fractional day from 149 + t/86400 in double precision: the error of that sum is 150
    # double-precision units, times 24 * pi/12.
    lha = N(pi * (hour / 12.0 - (1.0 + 0.13 / 180.0)) + eqt.v, eqt.e + 2 * pi * 1.5 * (1.0 if single else 150.0))
    lat = N(51.51 / (180.0 / pi))
    return cos(lha) * cos(lat) * cos(dec) + sin(lat) * sin(dec)


def photolysis_mcm(ttime, single=False):
    cx = cosx_mcm(ttime, single)
    out = {}
    if cx.v <= 1e-30:
        for k in J_PARAM:
            out[k] = N(0.0, 0.0)
        return out, cx
    sx = 1.0 / cx
    for k, (l, m, n) in J_PARAM.items():
        out[k] = N(l) * cx ** N(m) * exp(-N(n) * sx)
    return out, cx


def cosx_derwent(ttime):
    """The older scheme that write_rate_file (plain numpy) uses: declination 23.79, latitude 50, no night cut-off."""
    pi = math.pi
    lha = N((1.0 + ttime / 4.32e4) * pi)
    lat, dec = N(50.0 / (180.0 / pi)), N(23.79 / (180.0 / pi))
    return cos(lha) * cos(dec) * cos(lat) + sin(dec) * sin(lat)


# ---------------------------------------------------------------- syntax trees
# ["num", text] ["var", name] ["J", n] ["mul", a, b, ...] ["div", a, b] ["add", a, b] ["sub", a, b]
# ["pow", base, exponent text] ["fn", name, arg] ["neg", a] ["paren", a]
FN = {"EXP": exp, "LOG": log, "dlog": log, "dsqrt": sqrt, "dabs": fabs}


_TOKEN = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[DEde][-+]?\d+)?|[A-Za-z_]\w*|\*\*|[-+*/()]")


@functools.lru_cache(100000)
def _parse(s):
    toks = _TOKEN.findall(s)
    if "".join(toks) != s:
        raise ValueError("rate text %r" % s)
    toks.append("")
    pos = 0

    def take():
        nonlocal pos
        pos += 1
        return toks[pos - 1]

    def total():
        neg = toks[pos] == "-"
        if toks[pos] in ("-", "+"):
            take()
        a = product()
        if neg:
            a = ["neg", a]
        while toks[pos] in ("+", "-"):
            a = ["add" if take() == "+" else "sub", a, product()]
        return a

    def product():
        a = power()
        while toks[pos] in ("*", "/"):
            a = ["mul" if take() == "*" else "div", a, power()]
        return a

    def power():
        a = atom()
        if toks[pos] == "**":
            take()
            t = take()
            if t == "(":
                t += take()
                while not t.endswith(")"):
                    t += take()
            elif t == "-":
                t += take()
            literal(t)
            a = ["pow", a, t]
        return a

    def atom():
        t = take()
        if t == "(":
            a = ["paren", total()]
            if take() != ")":
                raise ValueError("rate text %r" % s)
            return a
        if t == "J":
            if take() != "(":
                raise ValueError("rate text %r" % s)
            n = int(take())
            if take() != ")":
                raise ValueError("rate text %r" % s)
            return ["J", n]
        if t in FN:
            if take() != "(":
                raise ValueError("rate text %r" % s)
            a = ["fn", t, total()]
            if take() != ")":
                raise ValueError("rate text %r" % s)
            return a
        if t[:1].isdigit() or t[:1] == ".":
            return ["num", t]
        if re.match(r"[A-Za-z]", t):
            return ["var", t]
        raise ValueError("rate text %r" % s)

    a = total()
    if toks[pos] != "":
        raise ValueError("rate text %r" % s)
    return a


def parse(s):
    """Syntax tree of a rate text without white space, by the usual precedence (for texts that were not drawn as trees)."""
    return _parse(s)


def text(a):
    """KPP text.  Parentheses are written only where the tree says so ("paren") or an operator needs them."""
    if isinstance(a, str):
        return a
    k = a[0]
    if k == "num":
        return a[1]
    if k == "var":
        return a[1]
    if k == "J":
        return "J(%d)" % a[1]
    if k == "mul":
        return "*".join(_wrap(x, "mul") for x in a[1:])
    if k == "div":
        return _wrap(a[1], "mul") + "/" + (text(a[2]) if a[2][0] == "pow" else _wrap(a[2], "atom"))
    if k == "add":
        return text(a[1]) + "+" + text(a[2])
    if k == "sub":
        return text(a[1]) + "-" + _wrap(a[2], "mul")
    if k == "pow":
        return _wrap(a[1], "atom") + "**" + a[2]
    if k == "fn":
        return a[1] + "(" + text(a[2]) + ")"
    if k == "neg":  # -a/b and -a*b have the value of -(a/b) and -(a*b)
        return "-" + _wrap(a[1], "mul")
    if k == "paren":
        return "(" + text(a[1]) + ")"
    raise ValueError(a)


def _wrap(a, ctx):
    k = a[0]
    plain = {"num", "var", "J", "fn", "paren"}
    if k in plain or (ctx == "mul" and k in ("mul", "pow", "div")):
        return text(a)
    if ctx == "mul" and k == "neg":
        return "(" + text(a) + ")"
    return "(" + text(a) + ")"


def literal(t):
    return float(t.upper().replace("D", "E").strip("()"))


def value(a, env):
    """env: name -> N, and ("J", n) -> N."""
    if isinstance(a, str):
        a = parse(a)
    k = a[0]
    if k == "num":
        return N(literal(a[1]))
    if k == "var":
        return env[a[1]]
    if k == "J":
        return env[("J", a[1])]
    if k == "mul":
        r = value(a[1], env)
        for x in a[2:]:
            r = r * value(x, env)
        return r
    if k == "div":
        return value(a[1], env) / value(a[2], env)
    if k == "add":
        return value(a[1], env) + value(a[2], env)
    if k == "sub":
        return value(a[1], env) - value(a[2], env)
    if k == "pow":
        return value(a[1], env) ** N(literal(a[2]))
    if k == "fn":
        return FN[a[1]](value(a[2], env))
    if k == "neg":
        return -value(a[1], env)
    if k == "paren":
        return value(a[1], env)
    raise ValueError(a)


def uses(a, acc=None):
    acc = set() if acc is None else acc
    if isinstance(a, str):
        a = parse(a)
    if a[0] == "var":
        acc.add(a[1])
    elif a[0] == "J":
        acc.add("J")
    elif a[0] == "fn":
        acc.add(a[1])
        uses(a[2], acc)
    elif a[0] == "pow":
        acc.add("**-" if a[2].startswith("-") else "**")
        uses(a[1], acc)
    else:
        for x in a[1:]:
            if isinstance(x, list):
                uses(x, acc)
        acc.add(a[0])
    return acc


def env_values(temp, ro2, h2o, ttime, single=False):
    env = dict(constants(temp, h2o))
    env["RO2"] = N(ro2)
    js, cx = photolysis_mcm(ttime, single)
    for k, v in js.items():
        env[("J", k)] = v
    return env, cx


# ---- strategies
_mant = st.one_of(st.sampled_from(["1", "2", "3", "1.2", "3.5", "8.14", "6.0", "2.20", "1.00", "4.44", "9.9", "1.85", ".5", "5.", "0.75", "12.5"]),
                  st.integers(1, 9).map(str), st.tuples(st.integers(1, 9), st.integers(0, 999)).map(lambda t: "%d.%d" % t),
                  st.tuples(st.integers(0, 30), st.integers(1, 9)).map(lambda t: "%d.0%d" % t))


@st.composite
def _dnum(draw, lo, hi):
    e = draw(st.integers(lo, hi))
    m = draw(_mant)
    if e < 0:
        s = draw(st.sampled_from(["-%d", "-%02d"])) % -e
    else:
        s = draw(st.sampled_from(["+%d", "+%02d", "%d", "%02d"])) % e
    return ["num", m + draw(st.sampled_from(["D", "D", "D", "E"])) + s]


small = _dnum(-16, -3)
tiny = _dnum(-7, -3)  # products of literals stay inside single precision range
big = _dnum(0, 12)
_digits = st.one_of(st.integers(1, 99).map(lambda i: "0.%02d" % i), st.integers(1, 999).map(lambda i: "0.%03d" % i), st.integers(1, 40).map(str),
                    st.tuples(st.integers(0, 20), st.integers(1, 99)).map(lambda t: "%d.%d" % t))
plain = st.one_of(st.sampled_from(["0.5", "0.65", "2", "0.2", "3.2", "1.0", "0.333", "10", "0.941", ".25", "4."]), _digits).map(lambda t: ["num", t])
_kelvin = st.one_of(st.sampled_from(["600", "2591", "550.0", "12.5", "1.0D3", "1.85D+3", "2400", "1.0E2", "1.D3", "9.D2"]), st.integers(10, 4000).map(str),
                    st.integers(10, 4000).map(lambda i: "%d.%d" % (i, i % 7)), st.integers(10, 399).map(lambda i: "%d.%02dD1" % (i, i % 90)))


@st.composite
def exp_arg(draw):
    k = draw(st.integers(0, 5))
    n = ["num", draw(_kelvin)]
    t = ["var", "TEMP"]
    if k <= 1:
        return ["div", n, t]
    if k <= 3:
        return ["neg", ["div", n, t]]
    if k == 4:
        return ["div", ["num", "1.00D8"], ["pow", t, "3"]]
    return ["mul", ["num", "0.01"], ["paren", ["sub", t, ["num", "298.0"]]]]


@st.composite
def factor(draw, depth, fns):
    k = draw(st.integers(0, 13))
    t = ["var", "TEMP"]
    if k == 0:
        return draw(plain)
    if k == 1:
        return draw(tiny)
    if k == 2:
        return ["var", draw(st.sampled_from(["RO2", "M", "O2", "N2", "H2O"]))]
    if k == 3:
        return ["fn", "EXP", draw(exp_arg())]
    if k in (4, 5):
        return ["var", draw(st.sampled_from(CONSTANTS))]
    if k == 6:
        return ["J", draw(st.sampled_from(J_DEFINED))]
    if k == 7:
        return ["pow", ["paren", ["div", t, ["num", draw(st.sampled_from(["300", "300.0", "298"]))]]],
                draw(st.one_of(st.sampled_from(["2", "0.5", "1.7", "4.57", "-2.6", "-0.9", "-2", "-1.5", "(-2.6)", "(-.5)"]),
                               st.integers(1, 699).map(lambda i: "%d.%02d" % divmod(i, 100)), st.integers(1, 699).map(lambda i: "(-%d.%02d)" % divmod(i, 100))))]
    if k == 8:
        return ["pow", t, draw(st.sampled_from(["2", "0.5", "1.5", "3"]))]
    if k == 9 and depth > 0:
        return ["pow", ["paren", ["mul", draw(pos(depth - 1)), draw(tiny)]], "0.5"]
    if k == 10 and depth > 0:
        return ["paren", ["sub", ["num", "1"], draw(st.sampled_from([["fn", "EXP", ["neg", ["div", ["num", "550"], t]]],
                                                                     ["num", "0.35"], ["div", ["num", "20.5"], t]]))]]
    if k == 11 and depth > 0 and fns:
        f = draw(st.sampled_from(fns))
        if f in ("LOG", "dlog"):
            return ["fn", f, draw(st.sampled_from([t, ["div", t, ["num", "100.0"]], ["num", "25.5"],
                                                    ["add", ["num", "2.5"], t]]))]
        if f == "dabs":
            return ["fn", f, draw(st.sampled_from([["sub", t, ["num", "500.0"]], ["neg", t]]))]
        return ["fn", f, draw(st.sampled_from([t, ["mul", t, ["num", "2.5"]], ["div", t, ["num", "300"]], ["num", "2.5"]]))]
    if k == 12 and depth > 0:
        return ["paren", ["add", draw(plain), draw(pos(depth - 1))]]
    return draw(plain)


@st.composite
def pos(draw, depth):
    return ["var", draw(st.sampled_from(["K298CH3O2", "KCH3O2", "KRO2NO", "KAPNO", "KMT06"]))]


@st.composite
def term(draw, fns):
    first = draw(st.one_of(small, plain, big, factor(1, fns)))
    rest = draw(st.lists(factor(1, fns), min_size=0, max_size=3))
    # One division at most, by something that is not an integer literal.
    t = ["mul", first] + rest if rest else first
    if draw(st.integers(0, 7)) == 0:
        t = ["div", t, ["var", "TEMP"]]
    return t


DEFAULT_FNS = ("LOG", "dlog", "dsqrt", "dabs")


@st.composite
def rate(draw, fns=DEFAULT_FNS):
    t = draw(term(fns))
    if draw(st.integers(0, 3)) == 0:
        t = ["add", t, draw(term(fns))]
    elif draw(st.integers(0, 9)) == 0:
        t = ["mul", ["paren", ["add", t, draw(term(fns))]], draw(factor(1, fns))]
    elif draw(st.integers(0, 14)) == 0:  # a sum of more terms than mechanisms write; the drawn ones come round again
        more = draw(st.lists(term(fns), min_size=1, max_size=5))
        for i in range(draw(st.integers(3, 11))):
            t = ["add", t, more[i % len(more)]]
    return t


ENV = st.fixed_dictionaries({
    "temp": st.one_of(st.sampled_from([298.15, 300.0, 288.15]), st.floats(250, 330), st.floats(190, 345)),
    "ro2": st.one_of(st.sampled_from([0.0, 1e9]), st.floats(0, 1e12)),
    "h2o": st.one_of(st.sampled_from([0.0, 4e17]), st.floats(0, 1e18), st.floats(0, 4e18)),
    "ttime": st.one_of(st.sampled_from([0.0, 43200.0, 86400.0]), st.floats(0, 86400), st.floats(86400, 259200)),
})


U_SINGLE, U_DOUBLE = 2.0 ** -24, 2.0 ** -53


def dusk(cx, u):
    """The sun is so close to the horizon that rounding decides between day and night."""
    return abs(cx.v) <= 8 * u * cx.e


def agrees(got, ref, u, k=4):
    return abs(got - ref.v) <= k * u * ref.e + 1e-290
