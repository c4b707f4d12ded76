PBT = "property-based testing (Hypothesis), "
TECH.update({
 "P01": PBT + "parser against an independent mechanism model built from the same AST",
 "P02": PBT + "metamorphic: reordered / respelled equation files give the same chemistry",
 "P03": PBT + "generated rate expressions, differential against an error-propagating AST evaluator",
 "P04": PBT + "generated rate expressions compiled with gfortran, differential against the AST evaluator",
 "P05": PBT + "generated environments, both languages against an independent statement of the formulas",
 "P06": PBT + "generated times of day, both languages against an independent solar-zenith model",
 "P07": PBT + "generated mechanisms and states against a mass-action reference, both languages",
 "P08": PBT + "generated mechanisms and rates against a stoichiometric reference, both languages and sparse matrix",
 "P09": PBT + "generated mechanisms and states against an analytically differentiated reference, both languages",
 "P10": PBT + "invariants (conservation, non-negativity) over generated balanced mechanisms and integrated histories",
 "P11": PBT + "differential: OpenMP builds and thread counts against the serial build",
})
G = ("Generated-input search with shrinking; no guarantee beyond the cases explored. Trusts numpy, numba (run with NUMBA_OPT=0), "
     "gfortran -O1 -ffast-math and the harness's own reference. ")
NOTE.update({
 "P01": G + "Mechanisms are drawn in the documented KPP/MCM layout only.",
 "P02": G + "Layout changes are those the documented format allows.",
 "P03": G + "Expressions are drawn in the grammar of the shipped mechanisms; tolerance is propagated rounding error.",
 "P04": G + "Expressions are drawn in the grammar of the shipped mechanisms; tolerance is propagated single-precision rounding error where the code is single precision.",
 "P05": G + "The reference restates the MCM v3.2/IUPAC generic rate formulas used by the repository.",
 "P06": G + "The reference restates the MCM photolysis parameterisation; cases at the sunrise/sunset discontinuity are set aside.",
 "P07": G + "Fortran is compared to the precision of its single-precision literals.",
 "P08": G + "Fortran is compared to the precision of its single-precision literals.",
 "P09": G + "Fortran is compared to the precision of its single-precision literals.",
 "P10": G + "Conservation is relative to the magnitude of the terms summed.",
 "P11": G + "Thread schedules are those the OpenMP runtime happens to take.",
})
TECH.update({
 "P12": PBT + "recorded callbacks of both gas-phase drivers against a mass-action reference, model-based",
 "P13": PBT + "generated runs with a scripted integrator, start values and saved output against the script",
 "P14": PBT + "generated durations, steps and start times, invariants over the recorded history of integrator calls",
 "P15": PBT + "generated mechanisms against an independent copy of the peroxy-radical list",
 "P16": PBT + "generated size distributions against the lognormal density and its invariants",
 "P17": PBT + "generated molecules and methods against the stand-in property package evaluated per molecule",
 "P18": PBT + "generated molar masses and temperatures against kinetic theory and its invariants",
 "P19": PBT + "generated species tables against a reference mapping",
 "P20": PBT + "conservation invariant over generated aerosol states, on the compiled generated Fortran",
 "P21": PBT + "generated aerosol states against a droplet-growth reference, on the compiled generated Fortran",
 "P22": PBT + "recorded callbacks of the aerosol driver against chemistry plus droplet-growth references",
 "P23": PBT + "generated snapshot files against a reference reading",
 "P24": PBT + "recorded callbacks and saved files of the fixed-composition driver against the droplet-growth reference",
 "P25": PBT + "stateful: sequences of script runs with generated settings and stale files, against the mass-action reference",
 "P26": PBT + "stateful: sequences of aerosol script runs with generated settings, against chemistry, property and droplet-growth references",
 "P27": PBT + "recorded figures of generated runs against the integrator's answers",
})
DRV = G + "Assimulo is absent; a stand-in with its interface calls the driver's functions at generated states and answers with generated states, so the integrator's own accuracy is not examined. "
NOTE.update({
 "P12": DRV, "P13": DRV, "P14": DRV,
 "P15": G + "The reference list is the MCM list as shipped, with misspelt names corrected.",
 "P16": G + "At least two bins.",
 "P17": G + "UManSysProp is absent; a stand-in gives every molecule, temperature and method its own values.",
 "P18": G, "P19": G + "Molecules are compared by canonical SMILES (Open Babel).",
 "P20": G + "Relative to the largest term exchanged.", "P21": G + "Relative to the terms of the flux; states without condensed material are set aside.",
 "P22": DRV, "P23": G, "P24": DRV,
 "P25": DRV + "The f2py program is replaced by one that compiles the same source with gfortran through ctypes. Water vapour is compared within 1.5 %.",
 "P26": DRV + "UManSysProp and f2py are stand-ins. Water vapour is compared within 1.5 %.",
 "P27": DRV + "A chart is what the figure holds when it is shown.",
})
NOT = {}
TECH["P28"] = PBT + "generated whole runs with a working integrator, differential against an independent precise solution of the drawn reactions"
NOTE["P28"] = G + "Assimulo is absent; SciPy's BDF method stands behind its interface and honours the options the driver sets. Tolerances follow how far the solution moves when rates and initial values move a little; runaway mechanisms are set aside."
