#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

S = "source/himalaya/"
prop("C01", "Parameter points are accepted or rejected exactly as documented",
 "A parameter point made of finite numbers (optional masses and angles may be left open) is accepted if and only if all entries of the soft-breaking squared mass matrices and the gluino mass are non-negative, both vacuum expectation values are positive numbers, and no squared mass of a third-generation sfermion pair that the library has to compute is tachyonic; otherwise an exception is thrown and no numbers are returned. The decision is the same through every entry point that validates a parameter point (the point's own validation and the hierarchy, effective-theory and threshold calculators), and an accepted point never contains a not-a-number among its masses and mixing angles.",
 ["inputs"], "all parameter points, including points on and next to each rejection boundary and points with negative, zero or not-a-number entries",
 "The tests use about 20 valid points and one tachyonic one; the boundary of the accepted set is a surface in a ~100-dimensional space.",
 [S+"Himalaya_interface.cpp", S+"HierarchyCalculator.cpp", S+"mh2_eft/ThresholdCalculator.cpp", "include/himalaya/Himalaya_interface.hpp"],
 [("Parameters::validate", S+"Himalaya_interface.cpp"), ("HierarchyCalculator constructor", S+"HierarchyCalculator.cpp"), ("ThresholdCalculator / Mh2EFTCalculator constructors", S+"mh2_eft")])

prop("C02", "Missing masses and mixings are completed by the tree-level relations",
 "After acceptance every mass or mixing angle the user left open has the value implied by the tree-level relations among couplings, vacuum expectation values, soft-breaking terms and superpotential parameters, and every value the user did give is kept. A sfermion pair counts as given if both masses and the angle or its sine are given. Third-generation sfermion masses are sorted in ascending order (the angle being rotated along), a completed mixing angle diagonalises the tree-level mass matrix to exactly these masses, the sine of twice the angle always belongs to the angle, and the average light-squark mass is the geometric mean of the ten squark masses other than stops, the sbottoms taken with their tree-level diagonal mass-matrix elements.",
 ["inputs"], "all accepted parameter points and all subsets of optional masses and mixing angles a user can leave open",
 "There are 2^11 patterns of given/missing values times a continuous parameter space; the tests use one pattern per point and compare only final Higgs masses.",
 [S+"Himalaya_interface.cpp", "include/himalaya/Himalaya_interface.hpp"],
 [("completion of W, Z, t, b, tau and sfermion masses and mixings", S+"Himalaya_interface.cpp: Parameters::validate"), ("calculateMsq2", S+"Himalaya_interface.cpp")])

prop("C03", "Equivalent specifications of one physical point give the same results",
 "Two descriptions of the same physical point give the same results up to rounding: leaving masses open or supplying the values the library itself derives, supplying the angle or the sine of twice the angle, supplying the sfermion masses in the opposite order together with the correspondingly rotated angle, rotating the flavour basis of the Yukawa matrices, or permuting the two light generations (whose Yukawa couplings are neglected). Completing an already completed point changes nothing. Excepted are points where a discrete choice, the hierarchy or the special-case threshold formula, is tied to within rounding.",
 ["inputs", "configurations"], "all accepted points and all chains of these re-descriptions",
 "A relation between two runs at arbitrary points; no test runs the same point in two descriptions.",
 [S+"Himalaya_interface.cpp", S+"HierarchyCalculator.cpp"],
 [("Parameters::validate (sorting, angle conversion, Yukawa diagonalisation)", S+"Himalaya_interface.cpp"), ("calculateDMh3L", S+"HierarchyCalculator.cpp")])

prop("C04", "Results depend only on the inputs, not on the call history",
 "For a given parameter point every call of the calculation returns bit-identical results, whatever was computed before in the same process: other points, the bottom variant, failed or rejected points, direct calls of the individual public functions, copies of the calculator, verbose or quiet mode. A calculation never alters the parameter object passed to it, and a failed call leaves the calculator usable.",
 ["histories"], "all sequences of calculator constructions, copies, destructions and public calls with arbitrary arguments, including calls that throw",
 "The tests call each function once or twice on fresh objects; leakage through object state, temporarily modified flags or static storage needs a particular call sequence.",
 [S+"HierarchyCalculator.cpp", S+"misc/RAII.hpp", S+"mh2l/DSZHiggs.cpp", S+"mh2_eft/Mh2EFTCalculator.cpp"],
 [("temporarily modified expansion depth", S+"HierarchyCalculator.cpp: getExpansionUncertainty, compareHierarchies"), ("SAVE/COMMON storage of the Fortran code", S+"mh2l/DSZHiggs.f"), ("correction flags", S+"mh2_eft/Mh2EFTCalculator.cpp")],
 state=[("expansionDepth", "truncation flags, altered temporarily during comparisons", S+"HierarchyCalculator.hpp"), ("isInfoPrinted", "banner printed once per process", S+"HierarchyCalculator.cpp")])

prop("C05", "Concurrent calculations give the sequential results",
 "Any number of calculators may be constructed and evaluated concurrently in different threads of one process; each returns bit-identically what it returns when run alone. No data race occurs on the library's own static storage.",
 ["schedules"], "all interleavings of calculations at different points (including points that take the mass-degenerate code paths and points that throw) on several threads",
 "The test-suite is single-threaded.",
 [S+"mh2l/DSZHiggs.cpp", S+"mh2l/DSZHiggs.f", S+"HierarchyCalculator.cpp"],
 [("mutex around the Fortran routines with common blocks", S+"mh2l/DSZHiggs.cpp"), ("static hierarchy map and banner flag", S+"HierarchyCalculator.cpp")])

prop("C06", "The best suitable mass hierarchy is chosen",
 "Among all mass hierarchies compatible with the spectrum, the chosen one minimises the documented two-loop error measure, i.e. the relative deviation of the expanded from the exact two-loop Higgs mass combined in quadrature with the relative expansion uncertainty, and the reported absolute and relative deviations and two-loop expansion uncertainty are those of the chosen hierarchy. A hierarchy is compatible only if its ordering of gluino, stop (sbottom) and light-squark masses matches the spectrum and no such mass exceeds the light squarks by more than 30%; if none is compatible the calculation throws an exception instead of returning numbers.",
 ["inputs"], "all accepted parameter points, in all orderings of the relevant masses, for the top and the bottom variant",
 "Stable tests sample a handful of spectra (mostly degenerate) which reach a minority of the 14 hierarchies; selection is a piecewise function with dozens of inequality boundaries.",
 [S+"HierarchyCalculator.cpp", S+"hierarchies/Hierarchies.hpp"],
 [("compareHierarchies", S+"HierarchyCalculator.cpp"), ("isHierarchySuitable", S+"HierarchyCalculator.cpp"), ("getMotherHierarchy", S+"HierarchyCalculator.cpp")])

prop("C07", "The parts of a result object are mutually consistent",
 "In every returned result the loop corrections to the squared Higgs mass are the perturbative eigenvalues of the returned loop-by-loop mass matrices, which are symmetric and start from the tree-level matrix; the three-loop entries of the fixed-order, strong-coupling-only and matrix-based results agree; the effective-field-theory three-loop entry contains exactly the returned three-loop quartic coupling correction. The quartic coupling corrections reported per loop order are those of the strong-coupling orders at the mass-eigenstate point, their scheme-conversion shifts turn them into the result of the other scheme, and for the bottom variant all three-loop quartic coupling entries vanish.",
 ["inputs"], "all accepted points for which a hierarchy exists, for the top and bottom variants",
 "The tests compare single entries at single points with stored numbers, never relations between entries.",
 [S+"HierarchyCalculator.cpp", S+"HierarchyObject.cpp", S+"mh2_fo/Linalg.cpp"],
 [("calculateDMh3L", S+"HierarchyCalculator.cpp"), ("calcDeltaLambda3L", S+"HierarchyCalculator.cpp"), ("fs_diagonalize_hermitian_perturbatively", S+"mh2_fo/Linalg.cpp")])

prop("C08", "Mass expansions converge to the exact one- and two-loop results",
 "For every mass hierarchy the expanded one- and two-loop corrections approach the exact ones when the spectrum approaches the point of expansion, in every mass-matrix element, for either sign of the mixing and of the Higgsino parameter and at any renormalisation scale (h4: with mixing and Higgsino parameter small as well). The expanded result for several loop orders together is the sum of the results for each loop order alone, and hierarchies whose regions of validity overlap agree there at three loops within the size of their neglected terms.",
 ["inputs", "configurations"], "all 14 hierarchies, all spectra in their region of validity, all combinations of loop-order flags, both variants",
 "The expansions are ~50000 lines of generated coefficients, mostly for non-degenerate spectra; the tests evaluate only few of the hierarchies and compare the sum at single points.",
 [S+"hierarchies", S+"HierarchyCalculator.cpp"],
 [("calculateHierarchy", S+"HierarchyCalculator.cpp"), ("getS1/getS2/getS12 of each hierarchy", S+"hierarchies/*.cpp"), ("exact 1- and 2-loop: getMt41L, getMt42L", S+"HierarchyCalculator.cpp")])

prop("C09", "Reported uncertainties measure the omitted terms",
 "Every reported expansion uncertainty of the squared-mass corrections equals the quadratic sum of the changes of the lightest Higgs mass when the highest term of each expansion variable of the hierarchy is dropped, at precisely the requested loop orders; it is non-negative and undefined only if that mass is tachyonic. It vanishes when no loop order is requested, and at three loops it shrinks as the spectrum approaches the degenerate point of expansion. The reported uncertainty of the three-loop quartic coupling is non-negative, no smaller than the difference to the effective-theory value, and zero for all other loop orders.",
 ["inputs", "configurations"], "all accepted points, all hierarchies, all loop-flag combinations and mass matrices passed by the user",
 "No stable test looks at uncertainties other than through hierarchy choice.",
 [S+"HierarchyCalculator.cpp", S+"HierarchyObject.cpp"],
 [("getExpansionUncertainty", S+"HierarchyCalculator.cpp"), ("expansion truncation flags", S+"hierarchies/*.cpp"), ("getDLambdaUncertainty", S+"HierarchyObject.cpp")])

prop("C10", "Fixed-order corrections have the scale dependence required by the RGEs",
 "The sum of the one-, two- and three-loop corrections of the strong-coupling orders is independent of the renormalisation scale up to higher orders when all running parameters are evolved with their renormalisation group equations. Equivalently, the explicit logarithms of the scale in the two- and three-loop corrections (fixed order and effective theory) are those fixed by the lower-order result. The one-loop correction to the CP-even Higgs mass matrix with all gauge and Yukawa couplings has, at any external momentum, the dependence on the scale fixed by the complete one-loop renormalisation group equations of the MSSM.",
 ["inputs"], "all spectra, in every hierarchy and mass-matrix element, all scales",
 "All tests use one fixed scale per point.",
 [S+"HierarchyCalculator.cpp", S+"hierarchies", S+"mh2l/DSZHiggs.cpp"],
 [("logarithms lmMt, lmMst1, lmMsq, ... in the expansions", S+"hierarchies/*.cpp"), ("getMt41L, getMt42L", S+"HierarchyCalculator.cpp"), ("getDeltaMh2EFT1Loop, 2Loop, 3Loop", S+"mh2_eft/Mh2EFTCalculator.cpp")])

prop("C11", "Scheme shifts connect the schemes they name",
 "The shift from the minimal to the modified minimal scheme equals the difference of the complete results computed in the two schemes, the modified masses reported are the ones used there, and re-expressing the result in the other scheme changes the physical prediction only by higher orders in the strong coupling. The modification vanishes when the strong coupling does, and a shifted and unshifted evaluation agree when all shift flags are off.",
 ["inputs", "configurations"], "all accepted points, hierarchies, flag combinations, strong couplings",
 "Scheme differences are not tested at all except indirectly through two stored numbers.",
 [S+"HierarchyCalculator.cpp"],
 [("calcDRbarToMDRbarShift, shiftMst1ToMDR, shiftMst2ToMDR, shiftH3mToDRbarPrime", S+"HierarchyCalculator.cpp"), ("MDR branches of the hierarchies", S+"hierarchies/*.cpp")])

prop("C12", "Results are dimensionally covariant and respect parameter symmetries",
 "Multiplying every dimensionful input by a common factor multiplies every squared-mass result by the square of that factor and leaves dimensionless results and the chosen hierarchy unchanged (as long as no mass comes close to the absolute regulators of a few GeV or below). Simultaneously flipping the signs of all trilinear couplings, the electroweak gaugino masses and the Higgsino parameter changes nothing at the orders without the strong coupling. Results of strong-coupling order do not depend on parameters that do not enter that order, and the two- and three-loop corrections of this order scale with the second and fourth power of the strong coupling.",
 ["inputs"], "all accepted points and all positive rescaling factors",
 "Relations between two evaluations at arbitrary points.",
 [S+"HierarchyCalculator.cpp", S+"mh2_eft", S+"mh2_fo", S+"hierarchies", S+"mh2l"],
 [("whole numerical pipeline through calculateDMh3L", S+"HierarchyCalculator.cpp")])

prop("C13", "Fixed-order and effective-field-theory results agree for heavy SUSY",
 "When all superpartner and heavy Higgs masses are much larger than the electroweak scale, the fixed-order and the effective-field-theory corrections to the lightest squared Higgs mass agree up to terms suppressed by the squared ratio of the scales, order by order. This holds for the one-loop Yukawa and gauge-times-Yukawa orders, the one-loop pure gauge order (at tan(beta)=1, and for any tan(beta) in its dependence on the superpartner masses once the field renormalisation of the light Higgs boson by the superpartners is taken into account) and the two-loop top-strong and top-Yukawa orders (the latter within the effect of the 2 % mass shift of the library's expression), for any mixing, mass pattern and renormalisation scale; where the effective theory has a massless bottom quark or tau, the known logarithm of its mass is added.",
 ["inputs"], "all heavy spectra (degenerate and not), all tan(beta), mixings, scales and correction-order selections",
 "The comparison test uses a few points with one mass pattern and a single scale ratio.",
 [S+"mh2_fo/MSSM_mass_eigenstates.cpp", S+"mh2_eft/Mh2EFTCalculator.cpp", S+"mh2_eft/ThresholdCalculator.cpp"],
 [("calculate_Mh2 / delta_mh2_1loop / delta_mh2_2loop", S+"mh2_fo/MSSM_mass_eigenstates.cpp"), ("getDeltaMh2EFT1Loop/2Loop", S+"mh2_eft/Mh2EFTCalculator.cpp"), ("getThresholdCorrection", S+"mh2_eft/ThresholdCalculator.cpp")])

prop("C14", "One-loop momentum dependence and gaugeless limit are consistent",
 "The one-loop correction to the Higgs mass matrix is symmetric, reduces to the gaugeless expression when the electroweak gauge couplings vanish, its reported momentum derivative is the derivative of the reported correction, and the iterated solutions satisfy the pole condition they claim to solve to the requested precision. Switching corrections off leaves exactly the remaining ones, so the strong-coupling-only result is the full result with only these orders switched on.",
 ["inputs", "configurations"], "all accepted points, external momenta, precision goals, iteration limits and correction selections",
 "Tests compare two stored numbers at fixed points; relations between functions of momentum are not tested.",
 [S+"mh2_fo/MSSM_mass_eigenstates.cpp"],
 [("delta_mh2_1loop, delta_mh2_1loop_gaugeless, ..._deriv", S+"mh2_fo/MSSM_mass_eigenstates.cpp"), ("calculate_Mh2, momentum iteration", S+"mh2_fo/MSSM_mass_eigenstates.cpp")])

prop("C15", "The tree-level spectrum satisfies the supersymmetric relations",
 "For every accepted point the tree-level masses are sorted and, together with the reported mixing matrices, diagonalise the corresponding mass matrices by unitary or orthogonal transformations. The would-be Goldstone masses equal the gauge boson masses of the Landau or Feynman-type relations the model prescribes, the neutral and charged Higgs mass sum rules hold, and the trace identities of the sfermion, neutralino and chargino sectors hold.",
 ["inputs"], "all accepted points including nearly degenerate and strongly mixed spectra",
 "No test examines the spectrum; it enters only through summed corrections at few points.",
 [S+"mh2_fo/MSSM_spectrum.cpp", S+"mh2_fo/MSSM_spectrum.hpp", S+"mh2_fo/Linalg.hpp"],
 [("MSSM_spectrum::calculate_*", S+"mh2_fo/MSSM_spectrum.cpp")])

prop("C16", "Matrix decompositions are exact, ordered and unitary",
 "Diagonalisations, Takagi factorisations and singular value decompositions return real ordered values with unitary (orthogonal) transformations that reproduce the input matrix to rounding accuracy, also for singular and degenerate matrices and over a wide range of magnitudes. The perturbative eigenvalue expansion returns, order by order, the Taylor coefficients of the exact eigenvalues.",
 ["inputs"], "all real and complex matrices of the supported dimensions and structure, including degenerate and rank-deficient ones",
 "No existing test calls the linear algebra.",
 [S+"mh2_fo/Linalg.hpp", S+"mh2_fo/Linalg.cpp"],
 [("fs_diagonalize_hermitian, fs_diagonalize_symmetric, fs_svd", S+"mh2_fo/Linalg.hpp"), ("fs_diagonalize_hermitian_perturbatively", S+"mh2_fo/Linalg.cpp")])

prop("C17", "One-loop integrals agree with their definitions for all arguments",
 "The one- and two-point one-loop functions and the momentum derivative equal the real parts of their defining finite integrals to at least six significant digits (nine away from thresholds) for all non-negative squared masses, all real momenta and all positive scales, including zero momentum, zero or equal masses and thresholds. They are symmetric in the masses, scale covariant and never return a not-a-number where the integral is finite.",
 ["inputs"], "all (momentum squared, mass squared, mass squared, scale squared) arguments, including special and nearly special ones",
 "Tests compare a few stored values; one of the test cases is effectively skipped.",
 [S+"mh2_fo/PV.cpp", S+"mh2_fo/PV.hpp"],
 [("a0, b0, d1_b0", S+"mh2_fo/PV.cpp")])

prop("C18", "Polylogarithms are accurate over the whole real line and complex plane",
 "The real and complex dilogarithm and the Clausen function agree with their defining series to near machine precision for every argument whose squared distances from zero and one are representable, on the documented side of the branch cut, including arguments next to 0, 1, -1, on the unit circle, and very large or tiny arguments. The implementation used by the two-loop routines agrees with the other one.",
 ["inputs"], "all finite real and complex arguments",
 "The tests use tabulated values and a few identities at chosen arguments.",
 [S+"misc/Li2.cpp", S+"mh2l/Li2.f90", S+"mh2l/Li2f.cpp"],
 [("dilog, clausen_2", S+"misc/Li2.cpp"), ("li2c", S+"mh2l/Li2.f90")])

prop("C19", "Threshold loop functions are accurate and continuous everywhere",
 "All threshold loop functions equal their closed-form definitions to at least eight significant digits (five where one argument is below 0.01 and the other within 1% of one) for all admissible arguments of either sign, including equal, unit, minus-unit and vanishing arguments. Near these removable singularities they approach the limits smoothly, so neighbouring arguments on both sides of any internal switch-over give neighbouring values. They have the exchange and reflection symmetries of their definitions.",
 ["inputs"], "all positive (or signed, where admissible) arguments and pairs/triples, concentrated at the removable singularities at all distances",
 "Tests use stored values and a few limits; one test case is effectively skipped.",
 [S+"mh2_eft/ThresholdLoopFunctions.cpp", S+"mh2_eft/ThresholdLoopFunctions.hpp"],
 [("F1..F9, f, g, f1..f8, delta_xyz, phi_xyz", S+"mh2_eft/ThresholdLoopFunctions.cpp")])

prop("C20", "Threshold corrections are continuous across all mass-limit formulas",
 "The threshold corrections to the strong, Yukawa and quartic couplings do not jump when the spectrum passes from one special-case formula (equal stops, gluino, light squarks, or combinations) to the general one: at and near a degenerate spectrum all applicable formulas agree within the error of the limit. This includes mass thresholds (MA equal to a sum or difference of sfermion masses), and limit formulas are not used further than about 1 % away from the limit. Omitting the logarithms of the couplings' strong-interaction corrections equals choosing the lightest stop mass as the scale, and truncations in the stop mixing remove exactly the powers of Xt above the stated order.",
 ["inputs", "configurations"], "all spectra in the neighbourhood of any degeneracy pattern, all coupling orders, both schemes, log options and mixing-order truncations",
 "Tests evaluate the special formulas exactly at a few degenerate points.",
 [S+"mh2_eft/ThresholdCalculator.cpp", S+"mh2_eft/ThresholdCalculator.hpp"],
 [("getThresholdCorrection and the per-limit formulas", S+"mh2_eft/ThresholdCalculator.cpp"), ("limit selection in the constructor", S+"mh2_eft/ThresholdCalculator.cpp")])

prop("C21", "Effective-theory corrections satisfy the SM renormalisation group",
 "The logarithms in the effective-theory Higgs mass corrections and in the quartic-coupling threshold corrections are exactly those required by the Standard Model renormalisation group and by scheme conversion, so the corrections at two scales differ only by known logarithms, and every sfermion enters the one-loop correction with the logarithm of its own mass and the coefficient given by its couplings to the Higgs boson. Results in the two renormalisation schemes are related order by order by the conversion of the couplings, and every switched-off coupling order contributes exactly nothing while the orders add up to the full result.",
 ["inputs", "configurations"], "all accepted points, scales, scheme choices, log options and on/off selections of coupling orders",
 "Tests compare stored numbers at fixed scale.",
 [S+"mh2_eft/Mh2EFTCalculator.cpp", S+"mh2_eft/ThresholdCalculator.cpp"],
 [("getDeltaMh2EFT0/1/2/3Loop, setCorrectionFlag", S+"mh2_eft/Mh2EFTCalculator.cpp"), ("scheme conversion", S+"mh2_eft/ThresholdCalculator.cpp")])

prop("C22", "Two-loop fixed-order corrections obey exchange symmetries and limits",
 "The two-loop corrections are symmetric matrices that do not change when the two mass eigenstates are relabelled together with the mixing angle, that join smoothly onto the degenerate-mass case, that depend on couplings with the power of their order, and whose bottom-quark version is the top-quark version with the two Higgs doublets exchanged. Their dependence on the renormalisation scale is the one fixed by the one-loop correction.",
 ["inputs"], "all positive masses, mixing angles, couplings, scales and tan(beta), including degenerate and unmixed spectra",
 "Tests evaluate the routines at a couple of points.",
 [S+"mh2l/DSZHiggs.cpp", S+"mh2l/DSZHiggs.hpp", S+"mh2l/DSZHiggs.f"],
 [("delta_mh2_2loop_at_as, _ab_as, _at_at, _atau_atau, _ab_atau", S+"mh2l/DSZHiggs.cpp")])

prop("C23", "The result object stores and returns exactly what was put in",
 "A result object behaves as a record: after any sequence of assignments every getter returns the value last assigned to it (per loop order where applicable) and all other entries are unaffected, copies are independent, derived entries are the documented combination, mass pairs are returned in ascending order as documented, and invalid loop orders, schemes or flags raise an exception and leave the object unchanged. The name of each hierarchy is unique and fixed.",
 ["histories"], "all sequences of setter, getter, copy and invalid calls with arbitrary values and integer arguments",
 "Tests only read a few getters of freshly computed objects.",
 [S+"HierarchyObject.cpp", "include/himalaya/HierarchyObject.hpp"],
 [("setters and getters", S+"HierarchyObject.cpp")],
 state=[("per-loop arrays", "values by loop order 0..3", "include/himalaya/HierarchyObject.hpp")])

prop("C24", "Text output shows the values it claims to show",
 "The textual form of a parameter point and of a result object contains all its labelled lines, each carrying the value of exactly that quantity in the object printed, for every state of the object. Printing does not alter the object or the stream's later output in a way that changes repeated prints.",
 ["inputs", "histories"], "all parameter points and all states of result objects, including the bottom variant and unset entries",
 "No test examines printed text.",
 [S+"HierarchyObject.cpp", S+"Himalaya_interface.cpp"],
 [("operator<< for parameter points and result objects", S+"HierarchyObject.cpp, Himalaya_interface.cpp")])

prop("C25", "Arbitrary input never crashes, hangs or corrupts memory",
 "For arbitrary floating point input, including zeros, huge, tiny, negative, infinite and not-a-number entries, every public entry point terminates promptly and either returns or throws an exception derived from the standard exception class; it never crashes, reads uninitialised or out-of-bounds memory or executes undefined behaviour. Functions with an iteration return within their iteration limit.",
 ["inputs"], "all bit patterns of all input fields and arguments of public functions",
 "Tests use physically sensible points without sanitizers.",
 [S+"HierarchyCalculator.cpp", S+"Himalaya_interface.cpp", S+"mh2_fo", S+"mh2_eft", S+"mh2l", S+"misc"],
 [("public entry points", "include/himalaya/*.hpp"), ("iterations", S+"mh2_fo/MSSM_mass_eigenstates.cpp")])

prop("C26", "The Mathematica interface transfers every value unchanged",
 "A parameter list sent through the Mathematica interface yields the same results as the same parameter point given to the C++ interface, with every input assigned to its own slot, every output under its documented name, optional values used only when valid, results limited to the requested loop order, and exactly one well-formed reply per request. Invalid input leads to an error message and a failure symbol, never to a partial reply.",
 ["inputs", "histories"], "all parameter lists, loop orders, variants and sequences of requests, including malformed and rejected ones",
 "The interface is not built and its test needs a Mathematica kernel.",
 [S+"LibraryLink/Himalaya_LibraryLink.cpp", S+"LibraryLink/Himalaya_LibraryLink.m"],
 [("HimalayaCalculateDMh3L", S+"LibraryLink/Himalaya_LibraryLink.cpp")])

prop("C27", "The three-loop expansion coefficients keep their published values",
 "For every mass hierarchy the one-, two- and three-loop coefficients of each mass-matrix element, the logarithmic and non-logarithmic coefficients of the quartic coupling and their truncations are the published expressions, for every spectrum, mixing, scale, loop selection, truncation and scheme. Evaluating them in a different floating-point precision or with algebraically rearranged code changes them by rounding errors only.",
 ["inputs", "configurations"], "all arguments of all 14 hierarchies, all loop flags, truncation flags and both schemes",
 "Generated expressions with about 10^5 coefficients; the tests reach few of the hierarchies and only sums of all terms at degenerate spectra.",
 [S+"hierarchies"],
 [("getS1, getS2, getS12, calc_coef_at_as2_no_sm_logs_log0..3", S+"hierarchies/*.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
