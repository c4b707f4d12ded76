"""P04: rates in the generated Fortran."""
from checks import p03
from pbx import gen, rates as R
from pbx.core import Part

RULE = p03.RULE
ASSUMPTIONS = p03.ASSUMPTIONS + ["literals and products of literals fit single precision",
                                 "integer literals are not divided by one another"]


def run(case, ctx):
    text = p03.text_of(case)
    with ctx.scratch():
        p = gen.Parsed(text)
        f = gen.fortran_rates(p, convert=2 if case["twice"] else 1)
        p03.compare(case, ctx, f, R.U_SINGLE, "Fortran rate", True)


PARTS = [Part("large", lambda: p03.case_(30, 2, many=True), run, quick=40, thorough=1000, budget=(40, 200)),
         Part("fortran", lambda: p03.case_(40, 6), run, quick=1600, thorough=15000, budget=(70, 600)),
         Part("shipped", lambda: p03.shipped_(40, 6), run, quick=600, thorough=8000, budget=(40, 250))]
