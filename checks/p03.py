"""P03: rates in the generated Python."""
from hypothesis import strategies as st

from pbx import gen, rates as R, shipped
from pbx.core import Part, fail

RULE = ("lists of rate expressions are drawn as syntax trees, written as KPP text with one reaction each, parsed, converted and generated; each rate is "
        "evaluated at drawn temperatures, RO2 totals, humidities and times and compared with the tree's value within a propagated rounding bound; "
        "one part draws the rate texts of the shipped mechanisms, every form as often as any other; non-trivial: some expression has a function, a power, a photolysis rate, a sum or a named coefficient")
ASSUMPTIONS = ["rate expressions are the forms of the shipped mechanisms and of the converter's own tables",
               "times at which rounding alone decides whether the sun is up are skipped"]


@st.composite
def case_(draw, n_rates=12, n_env=3, rate=None, many=False):
    return {"rates": draw(st.lists(rate or R.rate(), min_size=1, max_size=n_rates)),
            "envs": draw(st.lists(R.ENV, min_size=1, max_size=n_env)), "sp": draw(st.sampled_from(["", " ", "\t"])),
            "twice": draw(st.booleans()), "many": draw(st.integers(100, 1200)) if many else 0}


def all_rates(case):
    """As many rates as the case asks for, going round the drawn ones."""
    rs = case["rates"]
    return [rs[i % len(rs)] for i in range(max(len(rs), case.get("many", 0)))]


def text_of(case):
    out = []
    for i, a in enumerate(all_rates(case)):
        t = R.text(a)
        if case["sp"]:
            t = t.replace("*", case["sp"] + "*").replace("*" + case["sp"] + "*", "**")
        out.append("{%d.} \t A + B = C : \t%s \t;\n" % (i + 1, t))
    return "".join(out)


def compare(case, ctx, f, u, what, single):
    for env in case["envs"]:
        vals, cx = R.env_values(env["temp"], env["ro2"], env["h2o"], env["ttime"], single)
        if R.dusk(cx, u):
            ctx.label("dusk skipped")
            continue
        ctx.label("night", cx.v <= 0)
        got = f(env["ttime"], env["ro2"], env["h2o"], env["temp"])
        rates = all_rates(case)
        if len(got) != len(rates):
            fail("%s: %d rates for %d equations", what, len(got), len(rates))
        refs = [R.value(a, vals) for a in case["rates"]]
        for i, a in enumerate(rates):
            ref = refs[i % len(refs)]
            if not R.agrees(float(got[i]), ref, u):
                fail("%s of equation %d, %s, at %s: got %r, expected %r +- %.2g", what, i + 1, R.text(a), env, float(got[i]), ref.v, 4 * u * ref.e)
    used = set()
    for a in case["rates"]:
        used |= R.uses(a)
    for k in sorted(used):
        if k in ("EXP", "LOG", "dlog", "dsqrt", "dabs", "**", "**-", "J", "add", "sub", "RO2", "H2O"):
            ctx.label("uses " + k)
    ctx.label("longer than a Fortran line", any(len(R.text(a)) > 110 for a in case["rates"]))
    ctx.nontrivial = bool(used & {"EXP", "LOG", "dlog", "dsqrt", "dabs", "**", "**-", "J", "add", "sub"} or used & set(R.CONSTANTS))


def run(case, ctx, jit=False):
    text = text_of(case)
    with ctx.scratch():
        p = gen.Parsed(text)
        f = gen.numba_rates(p, jit, convert=2 if case["twice"] else 1)
        compare(case, ctx, f, R.U_DOUBLE, "Python rate", False)


def shipped_(n_rates=12, n_env=4):
    return case_(n_rates, n_env, shipped.rate_text())


PARTS = [Part("shipped", shipped_, run, quick=1500, thorough=40000, budget=(40, 300)),
         Part("python", lambda: case_(), run, quick=4000, thorough=150000, budget=(70, 700)),
         Part("large", lambda: case_(30, 2, many=True), run, quick=120, thorough=4000, budget=(40, 200)),
         Part("jit", lambda: case_(6), lambda c, x: run(c, x, True), quick=40, thorough=300, budget=(60, 200))]
