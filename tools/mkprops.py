"""Writes properties.jsonl (kept readable here)."""
import json, os
PE = "Parse_eqn_file.py"
T = ("The existing tests parse one shipped mechanism, write files and discard the result of their comparisons; "
     "they sample no other input: ")
props = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": T + why,
                  "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": observe,
                              "hook_needed": None}})


p("P01", "A parsed mechanism says exactly what the equation file says",
  "For every well-formed KPP equation file, parsing reports the number of equations, one dense index per species that occurs and no other "
  "species, and for every equation the summed stoichiometric coefficient of each reactant and each product and the rate text without white "
  "space. Coefficients may be integers or decimals written before a name that itself holds digits, a species may occur several times on a "
  "side and on both sides, hv is a flag and not a species, a side of products may be empty, and an equation may span several lines.",
  ["inputs"], "all equation files in the subset of KPP that the shipped mechanisms and the source comments describe",
  "the space of names, coefficients, repetitions and layouts is unbounded, and one misread name silently drops a reaction from the chemistry.",
  [PE], [("extract_mechanism", PE + ":extract_mechanism")], ["the dictionaries extract_mechanism returns"],
  [("loss_dict/gain_dict", "coefficient of a species in an equation", PE + ":extract_mechanism")])
p("P02", "Equation order, spelling and layout do not change the chemistry",
  "Two equation files that state the same set of reactions, with the equations reordered, the terms of a side reordered, equal coefficients "
  "written differently, an integer coefficient written as repetition, or other white space and line breaks, give the same rate of change for every species, by name, at "
  "every state, temperature, time of day, RO2 total and humidity.",
  ["inputs", "configurations"], "all mechanisms, all such rewritings of them and all physical states",
  "they hold no pair of equivalent files.",
  [PE, "rate_coeff_conversion.py"], [("extract_mechanism to the generated files", PE)], ["named tendencies from the generated files"])
p("P03", "Generated Python rates equal the meaning of the KPP rate text",
  "For every rate expression in the mechanism's language (Fortran D or E literals, + - * / **, EXP, LOG, dlog, dsqrt, dabs, TEMP, RO2, M, O2, "
  "N2, H2O, J(n), named generic coefficients), the generated compiled-Python rate evaluates, at every temperature, RO2 total, humidity and "
  "time, to the value the expression denotes with the usual precedence, in double precision. Each equation gets its own rate and no other's.",
  ["inputs", "configurations"], "all rate expressions of the language, 250-330 K, RO2 0-1e12, H2O 0-1e18 molecules cm-3, any time",
  "the text substitutions act on every expression form, and the tests evaluate one mechanism without comparing.",
  ["rate_coeff_conversion.py", PE], [("convert_rate_mcm_numba", "rate_coeff_conversion.py"), ("write_rate_file_numba", PE)],
  ["evaluate_rates in Rate_coefficients_numba.py"])
p("P04", "Generated Fortran rates equal the meaning of the KPP rate text",
  "For every rate expression of the mechanism's language the generated Fortran compiles and evaluates, at every temperature, RO2 total, humidity and "
  "time, to the value the expression denotes, within the single precision its literals are written in. Converting the rate texts a second "
  "time, as the simulation scripts do, changes no value.",
  ["inputs", "configurations"], "all rate expressions of the language whose literals fit single precision, 250-330 K, any time",
  "only a compiler decides what the generated text means, and the tests evaluate one mechanism without comparing.",
  ["rate_coeff_conversion.py", PE], [("convert_rate_mcm_fortran", "rate_coeff_conversion.py"), ("write_rate_file_fortran", PE)],
  ["evaluate_rates in Rate_coefficients.f90, compiled"])
p("P05", "Generic rate coefficients follow the MCM/IUPAC formulas in both languages",
  "At every temperature and humidity each named generic coefficient (the simple ones such as KRO2NO and KAPHO2, the Troe fall-off ones KFPAN, "
  "KBPAN and KMT01-KMT17, KMT18 and the water-dependent KMT06) equals its published MCM v3 formula in the generated Python and in the generated Fortran.",
  ["inputs", "configurations"], "all 36 coefficients, 200-340 K, H2O 0-1e18 molecules cm-3",
  "a wrong coefficient or exponent gives a plausible number at 298 K; no test looks at any.",
  [PE], [("constants written by write_rate_file_numba and write_rate_file_fortran", PE)], ["rates of a mechanism that uses each coefficient alone"])
p("P06", "Photolysis rates follow the MCM solar zenith parameterisation over the day",
  "At every time each photolysis rate J(n) equals l*cos(z)**m*exp(-n*sec(z)) with its tabulated l, m, n and the solar zenith angle z of the model day, "
  "latitude and longitude, in both generated languages. It is exactly zero while the sun is below the horizon, never negative or undefined, and "
  "repeats every 24 hours for runs of any length.",
  ["inputs", "histories"], "all 36 photolysis channels and all times from 0 to 10 days",
  "they evaluate at one time of day.",
  [PE], [("photolysis section of write_rate_file_numba and write_rate_file_fortran", PE)], ["rates of a mechanism that uses each J(n) alone"])
p("P07", "Reactant products are the mass-action products of every reaction",
  "For every mechanism and every non-negative state, the factor computed for each reaction is the product over its distinct reactants of concentration to the power "
  "of its total stoichiometric coefficient, with light contributing no factor. The compiled-Python and the Fortran code and the sparse index matrix saved beside it agree.",
  ["inputs", "programs"], "all mechanisms, including repeated reactants, integer and fractional coefficients, and states from 0 to 1e13",
  "the tests compare nothing, and no test mechanism holds a non-unit reactant coefficient.",
  [PE], [("write_reactants_indices", PE), ("write_reactants_indices_fortran", PE)], ["reactants() of the generated files"])
p("P08", "Tendencies are stoichiometry times reaction rates, for every species",
  "For every mechanism and every vector of reaction rates, the generated Python and Fortran code gives each species the sum over reactions of (product coefficient "
  "minus reactant coefficient) times rate, and the saved sparse loss/gain matrix is that same operator. The bath gases AIR, H2O and O2 are held constant.",
  ["inputs", "programs"], "all mechanisms, including species that are reactant and product of one reaction, and fractional yields",
  "no test mechanism has non-unit coefficients and the results are not compared with anything.",
  [PE], [("write_loss_gain_matrix", PE), ("write_loss_gain_fortran", PE)], ["dydt() and loss_gain() of the generated files, loss_gain_<file>.npz"])
p("P09", "The analytical Jacobian is the derivative of the tendencies",
  "For every mechanism, state and rate-coefficient vector, entry (i,j) of the generated Python and Fortran Jacobian is the partial derivative of the tendency of species i with respect to species j "
  "at fixed rate coefficients. Rows of the bath gases AIR, H2O and O2 are zero.",
  ["inputs", "programs"], "all mechanisms, including repeated reactants, non-unit coefficients and species on both sides, positive states",
  "no test evaluates a Jacobian against derivatives; a wrong entry only slows or destabilises the solver on some mechanisms.",
  [PE], [("write_gas_jacobian_numba", PE), ("write_gas_jacobian_fortran", PE)], ["jacobian() of the generated files"])
p("P10", "Generated chemistry conserves what the reactions conserve and stays non-negative",
  "For every mechanism whose reactions each conserve a weighted sum of species (an element, a mass), the tendencies from the generated code conserve that sum, in both languages. "
  "A species at zero concentration never has a negative tendency.",
  ["inputs", "programs"], "all element-balanced mechanisms, all states including ones with absent species",
  "no test looks at a conservation law.",
  [PE], [("all writers together", PE)], ["rates, reactants and tendencies of the generated files, composed"])
p("P11", "OpenMP partitioning changes no result",
  "For every mechanism, number of processor cores at generation time and number of threads at run time, the Fortran generated with OpenMP sections compiles and gives the same rates, reactant "
  "products, tendencies and Jacobian as the serial code. Small mechanisms with fewer equations or species than cores are included. The partitioning code, whose size bins run in parallel, gives the "
  "same fluxes, sizes and mass for every number of bins and threads, every time it is evaluated.",
  ["inputs", "configurations", "schedules"], "all mechanisms, bins, 1-32 cores, 1-8 threads",
  "the tests generate serial code only.",
  [PE], [("OpenMP section break lists in the four Fortran writers", PE)], ["generated .f90 files compiled with -fopenmp"])
p("P12", "The gas-phase solver integrates the mechanism's own ODE system",
  "For every mechanism, both gas-phase drivers hand the integrator a right-hand side equal to stoichiometry times rate coefficient times reactant product at the given state, temperature and humidity, "
  "with the RO2 total taken from that state and the time of day advanced by solver time, and a Jacobian that is its derivative at fixed rate coefficients. The Python and the Fortran driver agree.",
  ["inputs", "configurations", "histories"], "all mechanisms, states, start times and settings",
  "the integrator is absent here and the tests never run a driver.",
  ["ODE_solver.py", "f2py/ODE_solver.py"], [("run_simulation", "ODE_solver.py"), ("run_simulation", "f2py/ODE_solver.py")], ["the callbacks given to the integrator"])
p("P13", "Gas-phase runs start as stated and report what was integrated",
  "For every set of initial mixing ratios the integration starts with each named species at ppb times 2.55e10 molecules cm-3 and every other species at zero. The returned and saved trajectories hold the "
  "integrator's solution at the end of every output step, with each column under the name of its species.",
  ["inputs", "configurations"], "all mechanisms, initial conditions and step counts",
  "the tests never run a driver.",
  ["ODE_solver.py", "f2py/ODE_solver.py"], [("run_simulation", "ODE_solver.py")], ["initial value given to the integrator, returned arrays, saved .npy and .csv files"])
p("P14", "Splitting a run into output steps changes neither its clock nor its length",
  "For every start time, duration and output step, a driver advances through the whole duration in consecutive output steps, each starting from the previous step's final state, and the time of day seen by the "
  "chemistry is start time plus elapsed time throughout the run. Durations that are not a whole number of steps complete without error.",
  ["histories", "configurations"], "all start times, durations and output steps, gas and aerosol drivers",
  "the tests never run a driver, let alone several batches.",
  ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py"], [("batch loop of run_simulation", "ODE_solver.py")], ["times at which the callbacks evaluate rates; sequence of integrator calls"])
p("P15", "The RO2 pool is exactly the mechanism's listed peroxy radicals",
  "For every mechanism the saved RO2 index list holds the index of each species of the mechanism that is in the MCM peroxy-radical list, once, and no other. Mechanisms with none of them give an empty list that still works as an index.",
  ["inputs"], "all sets of species drawn from the MCM list and from names close to it",
  "the tests build the list for one mechanism and do not check it.",
  [PE], [("write_RO2_indices", PE)], ["<file>_RO2_indices.npy"])
p("P16", "The lognormal size distribution is a proper discretised lognormal",
  "For every number of bins, total concentration, mean size, spread and size limits, the generated bins have geometrically spaced sizes from the lower to the upper limit, non-negative numbers that follow the lognormal density, "
  "and numbers that sum to the requested total.",
  ["inputs"], "2-200 bins, any valid parameters",
  "the tests use one parameter set.",
  ["Aerosol/Size_distributions.py"], [("lognormal", "Aerosol/Size_distributions.py")], ["arrays returned by lognormal"])
p("P17", "Each condensing species gets its own properties, aligned by index",
  "For every mechanism and SMILES table, the density, molar mass, vapour pressure and condensing index returned for a species are those computed for that species' own molecule with the chosen method at the given temperature, in the mechanism's numbering. "
  "Exactly the species that lack a molecule or, when the limit is in force, whose vapour pressure exceeds it are ignored, and every other species is listed to condense, once.",
  ["inputs", "configurations"], "all mechanisms, SMILES tables, vapour-pressure methods and limits",
  "the property package is absent here and the tests never call this code.",
  ["Aerosol/Property_calculation.py"], [("Pure_component1", "Aerosol/Property_calculation.py"), ("Pure_component2", "Aerosol/Property_calculation.py")], ["values returned by the two functions"])
p("P18", "Gas transport properties follow kinetic theory",
  "For every species with valid molar mass and temperature, the accommodation coefficient is the same constant (0.1), the mean speed, diffusivity and mean free path follow the documented formulas of molar mass and temperature, and all are positive.",
  ["inputs"], "all molar masses 10-1000 g/mol, 240-330 K",
  "the tests never call this code.",
  ["Aerosol/Property_calculation.py"], [("Pure_component2", "Aerosol/Property_calculation.py")], ["values returned by Pure_component2"])
p("P19", "Every species is mapped to its own molecule and to no other",
  "For every species table the SMILES recorded for a species of the mechanism is the one the table gives for that name, and the molecule object stored under a SMILES is that molecule. Species without an entry, species outside the mechanism and the oxidants OH, HO2 and O3 get none.",
  ["inputs"], "all species tables, including entries without SMILES and any order of entries",
  "the table is absent here and the tests never call this code.",
  [PE], [("extract_smiles_species", PE)], ["SMILES_dict and Pybel_object_dict"])
p("P20", "Gas-particle partitioning conserves every species",
  "For every state, what the generated partitioning code removes from the gas phase of each condensing species equals what it adds to the particles summed over all size bins. Species that do not condense and the involatile core are not changed.",
  ["inputs", "programs"], "all numbers of bins and species, all index lists, all states",
  "the tests write the code and do not check what it computes.",
  [PE], [("write_partitioning_section_fortran_ignore", PE)], ["dydt_partition of Partitioning.f90, compiled"])
p("P21", "Partitioning fluxes follow droplet-growth theory in every size bin",
  "For every state the flux to each bin is the Fuchs-Sutugin corrected diffusive flux towards the Kelvin and Raoult corrected equilibrium concentration of that bin's own composition and size, so it is positive, zero or negative as the gas is above, at or below equilibrium. "
  "The reported wet sizes, water activities and total organic mass are those of the same state.",
  ["inputs", "programs"], "all numbers of bins and species, states away from dry empty bins, all physical parameters",
  "the tests write the code and do not check what it computes.",
  [PE], [("write_partitioning_section_fortran_ignore", PE)], ["outputs of dydt_partition of Partitioning.f90, compiled"])
p("P22", "The aerosol solver couples chemistry and partitioning without losing either",
  "For every mechanism and aerosol, the right-hand side given to the integrator is the gas-phase chemical tendency of every gas species plus the partitioning tendency of gas and particle species, with water vapour's tendency coming from partitioning alone. "
  "Integration starts from the stated mixing ratios, the stated water vapour concentration and the supplied particle composition, and the reported organic mass and wet sizes are those of the state last evaluated.",
  ["inputs", "configurations"], "all mechanisms, bin counts, index lists and states",
  "the integrator and the property package are absent here and the tests never run this driver.",
  ["Aerosol/f2py/ODE_solver.py"], [("run_simulation", "Aerosol/f2py/ODE_solver.py")], ["the callback and initial value given to the integrator, saved output"])
p("P23", "A fixed-composition snapshot keeps every compound with its own amount",
  "For every snapshot file, each distinct SMILES line becomes one compound, in order, with the concentration of its first line and its own molecule, and repeated lines add nothing. All arrays and dictionaries returned agree with one another.",
  ["inputs"], "all snapshot files of valid SMILES with concentrations",
  "the tests never call this code.",
  [PE], [("extract_species", PE)], ["values returned by extract_species"])
p("P24", "The fixed-composition solver moves given material between gas and particle",
  "For every composition of gas and particles, the right-hand side given to the integrator is the partitioning tendency alone, of every gas species and every bin, at the given state and temperature, and integration starts from exactly that composition. "
  "The saved trajectories (pickles and CSV files) are the integrator's answers at the end of every output step, with the times, organic mass and wet sizes that belong to them.",
  ["inputs", "configurations", "histories"], "all compositions, bin counts, lists of condensing species, durations and output steps",
  "the integrator is absent here and the tests never run this driver.",
  ["Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"], [("run_simulation", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py")], ["the callback and initial value given to the integrator, saved output"])
p("P25", "A gas-phase script runs the chosen mechanism under the chosen conditions",
  "For every mechanism and every choice of temperature, humidity, time of day, duration, output step and initial mixing ratios made in a gas-phase script, what reaches the integrator is that mechanism's chemistry under those conditions, with water vapour equal to humidity times saturation. "
  "This holds for both scripts, on a first run whatever older generated files lie in the folder, and on later runs that reuse the stored files of the same mechanism under other conditions.",
  ["inputs", "configurations", "histories"], "all mechanisms, settings and sequences of first and repeated runs of the Python and the Fortran script",
  "the tests never run the scripts, and a stale file or a mixed-up argument shows only in numbers.",
  ["Gas_simulation.py", "f2py/Gas_simulation_f2py.py"], [("main part", "Gas_simulation.py"), ("main part", "f2py/Gas_simulation_f2py.py")], ["what the integrator receives when the script is run in a scratch folder"])
p("P26", "An aerosol script starts the stated aerosol in the stated gas",
  "For every mechanism or yield file and every choice of conditions, size distribution, property methods and vapour pressure limit made in an aerosol script, the core in each bin is ammonium sulphate of that bin's size and number, the particles hold the water in equilibrium with the humidity and nothing else, and gas species start at the stated amounts with water vapour at the stated humidity. "
  "What reaches the integrator is the chemistry (if any) and the partitioning of exactly the species that condense, each with its own density, molar mass, vapour pressure and transport properties. This holds on a first run and on later runs that reuse the stored files.",
  ["inputs", "configurations", "histories"], "all mechanisms, species tables, yield files and settings, and sequences of first and repeated runs of both aerosol scripts",
  "the tests never run the scripts; the property package is absent here.",
  ["Aerosol/f2py/Aerosol_simulation_f2py.py", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"],
  [("main part", "Aerosol/f2py/Aerosol_simulation_f2py.py"), ("main part", "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py")], ["what the integrator receives when the script is run in a scratch folder"])
p("P27", "Charts show what was integrated",
  "For every run, the bar chart of a fixed-composition run shows in each size bin each organic species' share of the bin's organic mass (negative amounts taken as zero), stacked without gaps, under a title that gives the total organic mass, once per output step. "
  "The curves a gas-phase or aerosol run ends with are the plotted species' concentrations, or the organic mass, at the ends of the output steps.",
  ["inputs", "histories"], "all compositions, bin counts and lists of condensing species",
  "the tests draw nothing.",
  ["Aerosol/f2py/Fixed_yield/Plotting.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", "Aerosol/f2py/ODE_solver.py", "f2py/ODE_solver.py"],
  [("stacked_bar", "Aerosol/f2py/Fixed_yield/Plotting.py")], ["the figure shown when a run ends"])
p("P28", "A finished run is the solution of its mechanism, within solver accuracy",
  "For every mechanism of ordinary speed, initial composition, temperature, humidity, start time, duration and output step, the concentrations a complete run reports at its output times equal, within the accuracy of a stiff solver, the "
  "solution of the reactions in the equation file at the file's rate coefficients, with photolysis following the time of day and the RO2 pool following its members. The same holds for runs with particles, where gas-particle transfer is part of "
  "the equations. The solver options a driver sets are good enough for this.",
  ["inputs", "configurations", "histories"], "all mechanisms of moderate stiffness, initial states, conditions, durations and output steps, in the four drivers",
  "the tests integrate nothing; parsing, generated code, unit conversion, time keeping and solver settings have to be right together.",
  ["ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py", PE, "rate_coeff_conversion.py"],
  [("run_simulation", "ODE_solver.py"), ("run_simulation", "f2py/ODE_solver.py"), ("run_simulation", "Aerosol/f2py/ODE_solver.py"), ("run_simulation", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py")],
  ["the concentrations a run saves"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
