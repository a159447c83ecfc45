#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/mk.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "source/himalaya/"
I = "include/himalaya/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mech),
                  _t=technique, _n=note, _c=claimed and os.path.exists(f"{V}/checks/{id.lower()}.py"), _l=level))


prop("P01", "Concurrent calculators are race free and bitwise equal to serial runs",
     "Calculators that live in different threads never perform conflicting unsynchronised accesses, whatever the interleaving. "
     "Every result obtained while other threads calculate is bit for bit the result a single-threaded process obtains for the same input. "
     "This covers the shared Fortran routines, lazily initialised tables and the once-only banner.",
     ["schedules", "inputs"], "all interleavings of any number of threads that construct calculators and calculate, for arbitrary inputs (same and different)",
     "The test suite is single threaded; nothing ever runs two calculators at once, so no schedule is sampled at all.",
     [S + "HierarchyCalculator.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2l/dszhiggs.f", S + "mh2_eft/ThresholdCalculator.cpp"],
     ["mutex around the Fortran two-loop routines", "atomic banner flag", "no mutable static state in the calculators"],
     "ThreadSanitizer build (C++ and Fortran) under stress + online bitwise comparison with serial runs",
     "TSan sees every access of instrumented code on the executed schedules; start barriers, random yields and many seeds vary the schedule. Schedules not executed and races inside libgfortran/libm are not covered.")

prop("P02", "Results depend only on the input, never on the history of calls",
     "For a given parameter set every calculation returns bitwise the same result, no matter which other calculations, failures, queries or object copies happened before in the process or on the same calculator. "
     "Calls do not modify their input, copies of results are independent, and a call that throws leaves the calculator usable with unchanged subsequent results.",
     ["histories", "inputs"], "all sequences of public calls (with both sectors, all depths of loop order, failing calls in between) on shared and fresh objects",
     "Tests build a fresh calculator per point and read it in one fixed order; sequences on one object and after a failure are not sampled.",
     [S + "HierarchyCalculator.cpp", S + "HierarchyObject.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp"],
     ["expansion-depth flags switched and restored while estimating uncertainties", "correction flags", "threshold mass limit is set and restored"],
     "trace recorder over random call histories, oracle: bitwise equality with a fresh object in a fresh process",
     "Every step of random histories is compared bitwise with the same call made first in a fresh process. Histories are sampled.")

prop("P03", "No input causes memory errors or undefined behaviour; only results or exceptions",
     "For every parameter set that can be represented, including NaN, infinities, zeros, denormals, huge and degenerate values, every public entry point either returns or throws a standard exception. "
     "It never crashes, hangs, aborts, reads uninitialised or out-of-bounds memory, or executes undefined behaviour.",
     ["inputs"], "all values of all fields of the parameter set, flags and loop orders, for all public entry points",
     "Tests use about twenty physical points without instrumentation; hostile values and uninitialised reads are invisible to them.",
     [I + "Himalaya_interface.hpp", S + "HierarchyCalculator.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2_eft/ThresholdCalculator.cpp"],
     ["bounds-checked accessors", "tables indexed by enumerators", "Fortran interface by reference"],
     "AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++/Eigen assertions under hostile workloads, valgrind memcheck on a sample",
     "Instrumented real code; the monitors are the sanitizers. Inputs are sampled from boundary-value mixtures.")

prop("P04", "Input validation accepts, rejects and normalises exactly as documented",
     "A parameter set with a negative soft-breaking mass square, a negative gluino mass, a missing or non-positive vacuum expectation value or a tachyonic sfermion is rejected with an exception that names the culprit, and every other finite one is accepted. "
     "An accepted set is normalised deterministically: third-generation Yukawa matrices become their ordered singular values, missing gauge-boson and fermion masses follow from couplings and VEVs, masses and angles are filled in consistently, degenerate stops and sbottoms are split minimally, and all other values are kept. "
     "Validating an accepted set again changes nothing beyond rounding.",
     ["inputs"], "all parameter sets, with any subset of the optional values given",
     "Tests validate physically sensible inputs only; rejected sets, near-degenerate spectra, mixed given/missing masses and non-diagonal Yukawa matrices are not enumerated.",
     [S + "Himalaya_interface.cpp", I + "Himalaya_interface.hpp"], ["validate", "SLHA sorting of Yukawas", "mass ordering and splitting"],
     "reference-model monitor (independent numpy model of the documented contract) over recorded validation events",
     "Each recorded validation is compared with an independently written model; inputs are sampled.")

prop("P05", "Sfermion masses and mixing angles reproduce the tree-level mass matrices",
     "For every accepted parameter set, the third-generation sfermion masses are ordered and together with the mixing angle reproduce the tree-level mass matrix built from soft masses, trilinear couplings, Yukawas, D-terms and VEVs. "
     "The angle and its double-angle sine agree whenever at most one of them is given, and supplying the computed masses and mixing explicitly gives the same physical spectrum and results as letting the library compute them.",
     ["inputs"], "all soft masses, trilinear couplings, couplings and VEVs, incl. vanishing, maximal and negative mixing, degenerate and hierarchical spectra",
     "Tests compare a few masses at a handful of points; the orientation of the angle for every sign and ordering cannot be enumerated by examples.",
     [S + "Himalaya_interface.cpp"], ["diagonalisation of 2x2 sfermion mass matrices", "angle/double-angle synchronisation", "ordering of masses"],
     "invariant monitor: reconstruction of the mass matrix from recorded masses and angles, round-trip differential",
     "Sampled inputs; tolerance 1e-9 of the matrix norm.")

prop("P06", "The best suitable mass hierarchy is selected for every spectrum",
     "Among the mass hierarchies whose documented mass ordering the spectrum satisfies, the selected one has the smallest total error (comparison with the exact two-loop result combined with the expansion uncertainty), and reported differences and uncertainties belong to it. "
     "If no hierarchy is applicable the calculation fails with an exception, and a hierarchy whose error cannot be evaluated never wins against one whose error can.",
     ["inputs"], "all spectra, in particular on and next to the boundaries of the mass orderings, in both sectors",
     "Tests fix the expected hierarchy for a few benchmark points; boundaries and the minimisation over up to 14 candidates are not covered.",
     [S + "HierarchyCalculator.cpp", S + "hierarchies/EnumHierarchies.hpp"], ["compareHierarchies", "isHierarchySuitable"],
     "online checker: reference selection model evaluated on recorded per-hierarchy quantities",
     "Per-hierarchy values are recorded from the real code through its public interface; suitability, error and arg-min are recomputed independently.")

prop("P07", "All parts of a reported result are mutually consistent",
     "In every result the loop contributions, their projections on the lightest Higgs mass, the fixed-order and effective-theory numbers, the quartic-coupling shifts and the stated uncertainties satisfy the documented relations between them. "
     "In particular each Higgs-mass shift follows from the corresponding self-energy matrices by perturbative diagonalisation, shared entries agree, and the three-loop coupling uncertainty is the sum of its documented non-negative parts.",
     ["inputs"], "all accepted parameter sets, both sectors, all selected hierarchies",
     "Tests compare selected entries with stored numbers; relations between entries for arbitrary input are never checked.",
     [S + "HierarchyCalculator.cpp", S + "HierarchyObject.cpp", I + "HierarchyObject.hpp"], ["result assembly in the main calculation"],
     "relation monitor over recorded results, cross-checked with separately recorded sub-calculators",
     "Relations recomputed outside the library with independent diagonalisation; sampled inputs.")

prop("P08", "The result container enforces its contract for every index and value",
     "Reading or writing a quantity with an index outside its documented range throws and changes nothing; with a valid index a value written is exactly the value read and no other quantity changes. "
     "Stored mass pairs are returned in ascending order, copies are independent, and the printed form shows the stored values.",
     ["inputs", "histories"], "all sequences of reads and writes with arbitrary indices and values",
     "Tests hardly touch the setters and never out-of-range indices.",
     [S + "HierarchyObject.cpp", I + "HierarchyObject.hpp"], ["range-checked accessors"],
     "shadow-state monitor: random operation histories against a model of the container, under ASan/UBSan",
     "All accessors with all indices in [-3,6] plus extremes in random histories; values are sampled.")

prop("P09", "Renormalisation-scheme conversions are consistent",
     "Three-loop results and threshold corrections in different renormalisation schemes differ exactly by the documented conversion terms: adding the reported shifts converts between the schemes, converting there and back is the identity, and results expressed through masses of the other scheme agree up to the next order in the strong coupling. "
     "The lower-order contributions do not depend on the three-loop scheme choice.",
     ["inputs", "configurations"], "all parameter sets, all schemes, threshold mass limits and truncation orders",
     "Tests compare one scheme per quantity at single points.",
     [S + "HierarchyCalculator.cpp", S + "mh2_eft/ThresholdCalculator.cpp", S + "HierarchyObject.cpp"], ["shift terms between DR', H3m, MDR' and MSbar", "scheme-dependent threshold terms"],
     "algebraic relation monitor on recorded events, order counting by varying the strong coupling",
     "Relations evaluated on recorded values; order counting uses a geometric series of couplings. Inputs are sampled.")

prop("P10", "Higgs-mass predictions are independent of the renormalisation scale",
     "When the running parameters are evolved with their renormalisation-group equations, the sum of the loop contributions to the light Higgs mass is independent of the renormalisation scale at each order in the couplings, up to the next uncomputed order. "
     "This holds for the fixed-order result, the effective-theory result and the mass-hierarchy results through three loops, and for the quartic-coupling threshold corrections.",
     ["inputs"], "all parameter sets and scales, each loop order and coupling combination",
     "Tests compare numbers at one scale per point; the cancellation of scale dependence between orders is not tested.",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp", S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2l/DSZHiggs.cpp", S + "hierarchies/"],
     ["logarithms of the renormalisation scale in all correction terms"],
     "metamorphic monitor: order-by-order Callan-Symanzik residuals from recorded evaluations at displaced scales",
     "Independent RGEs written in the checker; numerical differentiation; sampled inputs.")

prop("P11", "Results are continuous across degenerate and limiting mass configurations",
     "Where different formulas are used for degenerate, nearly degenerate or otherwise special masses, they agree with the general formula in the limit: crossing the switch changes the result by no more than the stated accuracy. "
     "Equal, nearly equal or vanishing parameters never produce infinities, NaN or jumps.",
     ["inputs"], "all approaches to coinciding stop, gluino, squark and Higgs masses or vanishing mixing",
     "Tests evaluate a few exact limits; neighbourhoods of the switching points with catastrophic cancellation are not sampled.",
     [S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2_eft/ThresholdLoopFunctions.cpp", S + "mh2_fo/PV.cpp"],
     ["mass-limit dispatch in threshold corrections", "degenerate branches of two-loop formulas"],
     "metamorphic monitor: limit formulas against extrapolation of the general formula, one-sided scans across switches",
     "Sampled directions and distances; tolerance from the documented switching accuracy.")

prop("P12", "Results respect dimensional scaling and the exact symmetries of the model",
     "Multiplying all dimensionful parameters by a common factor multiplies masses squared by its square and leaves dimensionless results unchanged. "
     "Results are invariant under the sign and relabelling symmetries of the model: simultaneous sign flips of gaugino, Higgsino and trilinear parameters, permutation of the first two generations, and exchange of up- and down-type sectors where the formulas are mapped onto each other.",
     ["inputs"], "all parameter sets and scale factors",
     "Each test point is isolated; no test relates two evaluations.",
     [S + "HierarchyCalculator.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2_eft/", S + "mh2l/DSZHiggs.cpp", S + "hierarchies/"],
     ["every correction formula"],
     "metamorphic monitor on recorded pairs of evaluations",
     "Exact symmetries of the implemented formulas; powers of two as scale factors make the comparison nearly exact. Sampled inputs.")

prop("P13", "Fixed-order and effective-theory results agree for heavy superpartners",
     "When all superpartner masses become large compared to the electroweak scale, the fixed-order and the effective-theory results for the lightest Higgs mass agree at tree level, one and two loops for each combination of couplings: apart from the known, spectrum-independent differences of renormalisation convention, their difference vanishes with the squared ratio of electroweak and superpartner scale. This also holds for the corresponding numbers of the results object (only-alpha_t fixed-order against effective-theory values).",
     ["inputs"], "all heavy spectra: arbitrary mass ratios, mixings, couplings and renormalisation scales, each loop order and coupling combination",
     "The existing comparison covers a few mass patterns with fixed tolerances; sign and ratio space is not explored.",
     [S + "mh2_eft/Mh2EFTCalculator.cpp", S + "mh2_eft/ThresholdCalculator.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2l/DSZHiggs.cpp"],
     ["log resummation formulas", "threshold corrections", "fixed-order two-loop formulas"],
     "differential monitor between two independent calculations in the library, scaling exponent of the residual",
     "Both sides are recorded from the real code at geometric sequences of scales. Sampled inputs.")

prop("P14", "Loop functions agree with their mathematical definitions everywhere",
     "The dilogarithms, Clausen, one- and two-loop integrals and threshold loop functions return the value of their defining expressions to the accuracy at which the library uses them, for all arguments, including those close to or at branch points, limits and zeros where special expansions take over. "
     "No argument in their domain yields NaN or infinity.",
     ["inputs"], "all real (complex) arguments in the physical domain, in particular all neighbourhoods of removable singularities",
     "Tests check a few dozen arguments; errors of switched expansions appear only in small neighbourhoods.",
     [S + "misc/Li2.cpp", S + "mh2_fo/PV.cpp", S + "mh2_eft/ThresholdLoopFunctions.cpp", S + "mh2l/DSZHiggs.cpp", S + "mh2l/Li2.f90"],
     ["series expansions around special arguments"],
     "differential monitor: recorded calls against 50-digit mpmath references in two builds",
     "Independent references from the defining integrals/closed forms at high precision; boundary-focused sampling of arguments.")

prop("P15", "Diagonalisation routines return correct, ordered, proper decompositions",
     "For every finite input matrix the symmetric, complex-symmetric (Takagi), Hermitian and singular-value decompositions return ordered non-negative (or ascending) values and unitary rotations that reconstruct the input to rounding accuracy. "
     "Perturbative eigenvalue shifts agree with exact diagonalisation to the order to which they are computed, also close to degeneracy where they apply.",
     ["inputs"], "all real and complex matrices of the used sizes incl. singular, degenerate, graded and zero matrices",
     "The linear algebra has no direct tests; mass matrices of benchmark points exercise only generic cases.",
     [S + "mh2_fo/Linalg.hpp", S + "mh2_fo/Linalg.cpp", S + "mh2_fo/MSSM_spectrum.cpp", S + "misc/Numerics.hpp"],
     ["svd, Takagi and eigen decompositions", "perturbative diagonalisation"],
     "contract monitor on every decomposition over hostile matrices",
     "Residuals checked on each executed call; matrices are sampled from structured families.")

prop("P16", "One- and two-loop corrections equal the derivatives of the effective potential",
     "The zero-momentum Higgs self-energies and tadpoles implemented for the fixed-order calculation are the first and second field derivatives of the effective potential of the same model at the same order. "
     "This fixes every coupling and loop function in them for arbitrary parameters.",
     ["inputs"], "all parameter sets, each coupling combination",
     "Tests compare against stored numbers at few points; an error common to code and stored number, or elsewhere in parameter space, is invisible.",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2l/DSZHiggs.cpp", S + "HierarchyCalculator.cpp"],
     ["one-loop self-energies and tadpoles", "two-loop zero-momentum self-energies"],
     "differential monitor: recorded self-energies against an independent effective-potential evaluation in high precision",
     "The effective potential is coded independently in the checker and differentiated numerically in high precision. Sampled inputs.")

prop("P17", "The Mathematica interface returns exactly what the C++ interface computes",
     "Every well-formed request through the Mathematica link yields, in the documented order and shape, exactly the numbers the C++ interface returns for the same input and loop order. "
     "Requests with a malformed list of numbers and failing calculations produce an error message and the result $Failed (a wrong number of arguments the type error of the link), intermediate messages are forwarded as text, and in all cases the process output streams are left as they were and the link remains usable.",
     ["inputs", "histories", "fault_sequences"], "all requests (argument lists of any length and value), all sequences of requests, failures of the link at any call",
     "The interface is not built or tested in this environment at all.",
     [S + "LibraryLink/Himalaya_LibraryLink.cpp"], ["argument decoding", "result encoding", "stream redirection"],
     "protocol monitor: the real link code driven over a recording stand-in for MathLink with injected failures",
     "The stand-in implements the link calls the code uses and checks the protocol; the real Wolfram kernel is not available.")

prop("P18", "Output goes only where and when documented",
     "With verbose output disabled, calculations write nothing except warnings, errors and notes on unsupported requests to the error stream, and nothing to the standard output. "
     "With verbose output enabled the banner appears exactly once per process, with the first hierarchy calculation, and verbosity never changes a numerical result.",
     ["inputs", "histories"], "all inputs and call sequences, verbose on and off, in one process",
     "Tests never capture the output streams.",
     [S + "HierarchyCalculator.cpp", S + "misc/Logger.hpp", S + "Himalaya_interface.cpp"], ["verbose switches", "once-only banner"],
     "stream monitor: output of the real code captured per call in random histories",
     "Sampled histories in single processes.")

prop("P19", "The tree-level spectrum obeys the exact relations of the model",
     "For every accepted parameter set the tree-level masses and mixings used in the fixed-order calculation diagonalise their mass matrices and satisfy the sum rules, traces, determinants and Goldstone conditions of the model. "
     "The tree-level light Higgs mass agrees between all calculators.",
     ["inputs"], "all accepted parameter sets",
     "Tests do not look at the tree-level spectrum beyond single points.",
     [S + "mh2_fo/MSSM_spectrum.cpp", S + "mh2_fo/MSSM_mass_eigenstates.cpp"], ["mass matrices and their diagonalisation"],
     "sum-rule monitor on recorded spectra against independently built mass matrices",
     "Independent mass matrices in numpy; sampled inputs.")

prop("P20", "Correction switches and momentum iteration compose as documented",
     "Switching individual corrections on or off adds or removes exactly their contribution: the sum of individual contributions is the full result for every subset. "
     "The numerical momentum iteration converges to a solution of the pole-mass equation, the perturbative one agrees with it up to higher orders, and switching it off evaluates at zero momentum.",
     ["configurations", "inputs"], "all subsets of correction flags, all diagonalisation and iteration modes, all inputs",
     "Tests use the default configuration and a few single flags.",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2_eft/Mh2EFTCalculator.cpp", S + "misc/CouplingOrders.hpp"], ["correction flags", "momentum iteration modes"],
     "configuration-subset monitor on recorded results, fixed-point residual monitor",
     "All single flags and random subsets; sampled inputs.")

prop("P21", "Mass-hierarchy expansions approach the exact results",
     "In each mass hierarchy the expanded one- and two-loop contributions approach the exact ones as the hierarchy becomes more pronounced, with an error that falls like the first omitted power, and different hierarchies valid for the same spectrum agree at three loops within their uncertainties. "
     "Truncating an expansion variable by one order changes the result, and only by terms of that order (the flag of the average squark mass also switches the terms growing with its square).",
     ["inputs"], "all spectra inside the validity region of each of the 14 hierarchies, both sectors",
     "Tests compare one point per hierarchy with stored numbers.",
     [S + "hierarchies/", S + "HierarchyCalculator.cpp"], ["series coefficients of each hierarchy at one, two and three loops"],
     "convergence monitor: order of the residual against exact results along shrinking hierarchies; cross-hierarchy agreement",
     "Sampled directions; convergence orders measured on recorded sequences.")

prop("P22", "Every correction reproduces the published result, in every parameter region",
     "The numerical value of every contribution (self-energies at one, two and three loops in all hierarchies and both sectors, fixed-order and effective-theory corrections, threshold corrections in all mass limits and schemes) is the value of the published analytic expression. "
     "Internal restructuring or compiler optimisation changes it by no more than the rounding error of the evaluation.",
     ["inputs", "configurations"], "all parameter points in all hierarchies, limits, schemes and flags",
     "The stored numbers in the tests cover some 20 points and not all hierarchies, limits and flags.",
     [S + "hierarchies/", S + "mh2_eft/", S + "mh2_fo/", S + "mh2l/"], ["the coefficient tables of all expressions"],
     "recorded-trace differential monitor: current tree against recorded reference events, tolerance from measured conditioning",
     "Reference events were recorded from the tree on which the other properties' independent oracles hold; tolerances scale with the measured conditioning of each number.")

prop("P23", "The one-loop self-energies have the momentum dependence of the model",
     "At every external momentum, below, at and above all thresholds, the one-loop corrections to the CP-even Higgs mass matrix differ from those at zero momentum exactly by the two-point loop functions of all pairs of particles of the model with the couplings of the model. "
     "Every pair enters with the same external momentum and with its own masses.",
     ["inputs"], "all parameter points and external momenta",
     "The tests evaluate the self-energies at one external momentum, the small tree-level Higgs mass, at a handful of points where heavy pairs contribute next to nothing.",
     [S + "mh2_fo/MSSM_mass_eigenstates.cpp", S + "mh2_fo/MSSM_spectrum.cpp", S + "mh2_fo/PV.cpp"], ["delta_mh2_1loop", "b0"],
     "differential monitor: observed self-energies at random, large and threshold momenta against an independent calculation from field-dependent masses",
     "Couplings are derivatives of independently written field-dependent mass matrices; loop functions from quadrature or closed form.")

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"python3-vt run.py {p['id']} quick",
                   thorough_cmd=f"python3-vt run.py {p['id']} thorough",
                   technique=p["_t"], level=p["_l"], level_note=p["_n"]) for p in P if p["_c"]]
    na = [dict(property=p["id"], reason=sys.argv[1] if len(sys.argv) > 1 else "check under construction") for p in P if not p["_c"]]
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
                       hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged", source_commits=[]),
                       notes="All checks compile the library from /repo's working tree (C++ and Fortran) with their own harnesses."), f, indent=1)
        f.write("\n")
    print([c["property"] for c in checks])
