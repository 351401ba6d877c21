#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Linear spectrum lookup interpolates the table and extends it by power laws",
  "For any tabulated linear spectrum (at least three strictly increasing wavenumbers) and any list of requested wavenumbers in any order, each value inside the table range is the polynomial through the (at most five) table points nearest the bracketing interval, or the straight line across it, so that table points are reproduced; outside the range it is the power law whose exponent is the mean logarithmic slope of the edge of the table. Each value depends only on its own wavenumber and the table, never on the other requested wavenumbers, and the polynomial interpolation is exact for data lying on a polynomial of lower degree than the number of nodes.",
  ["inputs"], "all tables, all query lists (sorted or not, on or off the nodes, in or out of range), both interpolation modes",
  "Tests compare against a handful of sorted inputs; bracketing, boundary nodes, unsorted queries and short tables are never all reached.",
  ["src/common.c"], [("bracketing search","src/common.c:get_dichotomy_index"),("Neville recursion","src/common.c:interpol_poly"),("lookup","src/common.c:find_pk"),("edges","src/common.c:extrapol_pk_lowk, extrapol_pk_highk")],
  [("pk_lin","linear spectrum table","src/regpt.c")], ["find_pk_lin in the shared library"])
p("C02", "Running displacement dispersion is the trapezoid integral up to the cutoff",
  "For every requested wavenumber the running dispersion equals the trapezoidal integral of the piecewise-linear tabulated linear spectrum from its first wavenumber up to (cutoff x wavenumber), divided by six pi squared. It is zero below the table, stays at the full-table value above it, and each value depends only on its own wavenumber, the cutoff and the table, whatever else was requested and in whatever order.",
  ["inputs"], "all tables, cutoffs and query lists in any order",
  "The one test compares sorted inputs against a Python loop at fixed cutoff; order dependence, repeated or out-of-range wavenumbers are not sampled.",
  ["src/common.c"], [("running sum with partial last trapezoid","src/common.c:calc_running_sigmad2")])
p("C03", "Quadrature nodes and weights form the Gauss-Legendre rule of the interval",
  "For every interval and every number of nodes the returned nodes are the affine image of the roots of the Legendre polynomial in increasing order, mirror-symmetric about the midpoint with equal weights in each pair, and the weights are those of the Gauss-Legendre rule, so they add up to the interval length. Re-ranging an angular rule to a new interval maps nodes and weights by the same affine map, and the logarithmic wavenumber rule carries the wavenumbers, their ratio to the current mode and the linear spectrum at each node consistently.",
  ["inputs"], "all intervals, all node counts >= 1, all re-rangings",
  "Tests check one node count and a fixed interval numerically.",
  ["src/common.c"], [("Newton iteration on the Legendre recurrence","src/common.c:nodes_weights_gauss_legendre"),("re-ranging","src/common.c:update_gauss_legendre_mu, update_gauss_legendre_q"),("tables","src/common.c:init_gauss_legendre_q, init_gauss_legendre_mu")])
p("C04", "Precision and cutoff settings reach exactly the calculations they name",
  "Setting a node count, an integration range or an interpolation mode changes exactly that field of exactly the calculations named (a group name reaching every member of its group), and leaves every other setting alone; a quadrature-setting call that provides no valid field restores that rule's defaults (an unknown interpolation name for the linear spectrum changes nothing). Clearing the settings from Python restores every calculation to its start-up configuration.",
  ["inputs","histories","configurations"], "all setting names, values and sequences of setting calls",
  "Tests set two or three precision values and never look at which calculation was reached or at resets.",
  ["src/common.c","pyregpt/pyregpt.py","src/gamma1_1loop.c","src/gamma1_2loop.c","src/calc_pkcorr_from_gamma2.c","src/gamma2d_1loop.c","src/gamma2t_1loop.c","src/calc_pkcorr_from_gamma3.c","src/calc_pkcorr_from_bias_1loop.c","src/calc_pkcorr_from_A_1loop.c","src/calc_pkcorr_from_A_2loop_I.c","src/calc_pkcorr_from_A_2loop_II_III.c","src/calc_pkcorr_from_B.c"],
  [("field-wise setter with default reset","src/common.c:set_precision"),("dispatch of names","pyregpt/pyregpt.py:PyRegPT.set_precision, set_running_uvcutoff, clear")])
p("C05", "Perturbation-theory kernels satisfy their recursion and symmetries",
  "The second-order density and velocity kernels are the standard ones, symmetric in their two modes, equal in all the parametrisations offered, and vanish for opposite modes; the tidal kernels have their standard form. The third-order kernel is the standard recursion built from the second-order ones, is symmetric under any permutation of its three modes, homogeneous of degree zero, and is zero where an intermediate sum of modes vanishes.",
  ["inputs"], "all mode configurations, both fields",
  "No test calls the kernels directly; integrated outputs hide local errors.",
  ["src/kernels.c"], [("second-order kernels","src/kernels.c:F2_sym, F2_sym_fast, F2_sym_full, S2, D2"),("third order","src/kernels.c:F3, F3_sym, sigmaab")])
p("C06", "One-loop propagator is the published kernel integrated over the linear spectrum",
  "The one-loop correction to the density and velocity propagators equals k^3/(2 pi^2) times the quadrature sum, over the configured wavenumber range, of the linear spectrum times the published kernel of q/k. The closed form, the expansion around q=k and the large-q expansion used for that kernel agree with one function to better than one part in ten thousand wherever each is used.",
  ["inputs"], "all k>0, all q/k>0, both fields, all node counts",
  "Tests compare integrated values to reference tables at loose tolerance; a wrong coefficient in one expansion branch is invisible there.",
  ["src/gamma1_1loop.c"], [("kernels","src/gamma1_1loop.c:kernel_ff, kernel_gg"),("quadrature","src/gamma1_1loop.c:gamma1_1loop")])
p("C07", "Two-loop propagator: symmetric kernel, consistent expansions, right combination",
  "The two-loop kernel is symmetric in the two loop wavenumbers, its expansions (equal wavenumbers, very different wavenumbers) agree with the closed form to the stated order, and the two-loop propagator is the double quadrature sum of kernel times both linear spectra with the factor 1/(4 pi^4). The reported two-loop correction adds half the square of the one-loop one, and for auto-spectra both legs receive identical values.",
  ["inputs"], "all pairs of loop wavenumbers, both fields and all field pairs",
  "No stable test reaches the two-loop code.",
  ["src/gamma1_2loop.c","src/calc_pkcorr_from_gamma1.c"], [("kernel","src/gamma1_2loop.c:beta, alpha, integ_gamma1_2loop"),("combination","src/calc_pkcorr_from_gamma1.c:calc_pk_gamma1_2loop")])
p("C08", "All regimes of the one-loop two-point propagator kernel describe one function",
  "The kernel of the one-loop correction to the two-point propagator (density and velocity) is evaluated by different expressions in different regimes of the three wavenumbers and the loop wavenumber: a general closed form, a form regular at coincident wavenumbers, and expansions for very large, very small, elongated and collapsed configurations. The closed and the regular form are the same function for every triangle, each expansion is the truncation of that function at its stated order in its small ratio, the regime chosen for any configuration is one where its expression applies, and the function is symmetric in its first two wavenumbers.",
  ["inputs"], "all triangles (k1,k2,k3) and loop wavenumbers, both fields",
  "Thousands of literal coefficients; no stable test reaches this code, and an integral over it averages local errors away.",
  ["src/gamma2d_1loop.c","src/gamma2t_1loop.c","src/kernels.c"], [("regime selection","src/gamma2d_1loop.c:kernel_gamma2d; src/gamma2t_1loop.c:kernel_gamma2t"),("special functions","src/kernels.c:LFunc, WFunc, betafunc, small_beta, big_beta")])
p("C09", "Mode-coupling spectra are symmetric in the fields and integrate each pair once",
  "The tree and one-loop mode-coupling contributions equal k^3/(2 pi^2) times the quadrature sum of twice the product of the two propagators and of the linear spectra of both modes, over the loop range with each unordered pair of modes counted once. They do not change when the two fields are exchanged, the tree part is the same whether computed alone or with the loop corrections, and both modes of every sampled pair lie within the configured wavenumber range.",
  ["inputs"], "all k, all spectra, all precision settings, all field pairs",
  "Tests compare one cosmology to a reference table; the velocity and cross spectra, and the 2-loop variants, are not covered.",
  ["src/calc_pkcorr_from_gamma2.c"], [("integrands","src/calc_pkcorr_from_gamma2.c:kernel_pk_gamma2_tree, kernel_pk_gamma2_1loop"),("angular range","src/calc_pkcorr_from_gamma2.c:set_mu_range"),("sums","src/calc_pkcorr_from_gamma2.c:calc_pk_gamma2_tree, calc_pk_gamma2_1loop")])
p("C10", "Third-order contribution integrates the right function once per triplet",
  "The function handed to the external integrator for the third-order contribution equals, at every point of the unit hypercube, the product of both fields' third-order kernels for three modes summing to k, of the three linear spectra and of the full Jacobian of the map, restricted to modes within the configured range and to one half of the exchange-symmetric region (compensated by a factor two); it is symmetric in the two fields. The integrator's result is multiplied by 6/(2 pi)^6.",
  ["inputs"], "all points of the unit hypercube, all k, ranges, spectra and field pairs",
  "The integrator library is absent here, so no test executes this code.",
  ["src/calc_pkcorr_from_gamma3.c"], [("integrand","src/calc_pkcorr_from_gamma3.c:kernel_pk_gamma3_tree"),("driver","src/calc_pkcorr_from_gamma3.c:calc_pk_gamma3_tree, init_gamma3_tree")])
p("C11", "Bispectra are built from all permutations of regularised propagators",
  "Every one of the resummed bispectra is twice the sum over the three choices of the coupled pair of (two-point propagator) x (two one-point propagators) x (two linear spectra), with the field labels attached to the same modes in every term, times one damping factor exp(-(sum of k_i^2 sigma_i^2)/2), and all are zero when that exponent exceeds 100. The one-loop bispectrum integrands contain each permutation of (222) and (321) diagrams exactly once, so they are invariant under relabelling the legs together with their fields.",
  ["inputs"], "all triangles, all loop modes, all field triples",
  "No stable test reaches the one-loop bispectra.",
  ["src/bispectrum_1loop.c"], [("resummed bispectrum","src/bispectrum_1loop.c:bispectrum_1loop_I, gamma1_reg_1loop, gamma2_reg_1loop"),("loop integrand","src/bispectrum_1loop.c:bispectrum_1loop_II_III")])
p("C12", "One-loop A correction follows from the tree bispectrum and the projection",
  "The five one-loop A components equal k^3/(4 pi^2) times the quadrature sum of the published kernels: those multiplying P(k)P(|k-q|) and P(q)P(|k-q|) are the line-of-sight projection of the tree-level density-velocity bispectrum, and those multiplying P(k)P(q) are the angular integral of the remaining term. The closed form and both expansions used for the latter agree wherever each is used, and every sampled pair of modes lies in the configured range.",
  ["inputs"], "all k, loop wavenumbers and angles, all spectra",
  "One reference table at loose tolerance; a single wrong coefficient in one component or branch passes.",
  ["src/calc_pkcorr_from_A_1loop.c","src/spectrum_A_1loop.c"], [("kernels","src/calc_pkcorr_from_A_1loop.c:kernel_A_tA_1loop, kernel_a_1loop"),("sum","src/calc_pkcorr_from_A_1loop.c:calc_pk_A_1loop")])
p("C13", "A-type correction at two loops projects and collects every component once",
  "The line-of-sight projection kernels are the azimuthal average of the defining angular factor, each component multiplies the bispectrum with its own field labels, and the stored five coefficients collect the twelve components by their powers of the growth rate and of the line-of-sight cosine. The Monte-Carlo part adds to the deterministic part with the same collection, normalisation and damping.",
  ["inputs"], "all k, loop configurations and spectra",
  "The two-loop A term is not executed by any stable test.",
  ["src/calc_pkcorr_from_A_2loop_I.c","src/calc_pkcorr_from_A_2loop_II_III.c","src/spectrum_A_2loop.c"], [("projection","src/calc_pkcorr_from_A_2loop_I.c:kernel_projection_A_tA"),("integrands","src/calc_pkcorr_from_A_2loop_I.c:kernel_A_tA_2loop_I; src/calc_pkcorr_from_A_2loop_II_III.c:kernel_A_tA_2loop_II_III"),("collection","src/spectrum_A_2loop.c:run_terms_A_2loop")])
p("C14", "B-type correction is the line-of-sight average of the product of two couplings",
  "Each of the twelve B kernels is the coefficient of its power of the line-of-sight cosine in the azimuthal average of the product of the two density-velocity couplings, with the cross spectrum wherever a density enters and the velocity spectrum elsewhere. The nine stored coefficients collect them by powers of the growth rate and cosine with their signs, integrate each unordered pair of modes once, and use the spectra supplied for each field pair.",
  ["inputs"], "all k, loop configurations, all supplied spectra",
  "One reference table for one cosmology at loose tolerance.",
  ["src/calc_pkcorr_from_B.c","src/spectrum_B.c"], [("kernels","src/calc_pkcorr_from_B.c:kernel_B"),("collection","src/spectrum_B.c:run_terms_B"),("spectra","src/spectrum_B.c:set_spectra_B")])
p("C15", "Bias terms integrate their published kernels with the right symmetry factor",
  "Each bias term equals k^3/(4 pi^2) times the quadrature sum of its published kernel of the linear spectra, the second-order kernel and the tidal factors; terms symmetric in the two modes are integrated over half the range and doubled, the others over the full range. The constant-subtracted terms vanish identically for a scale-free subtraction point and each term is stored in its own column.",
  ["inputs"], "all k, all spectra, all precision settings",
  "One reference table; a swap of two small terms or a factor in one kernel is hidden by tolerance.",
  ["src/calc_pkcorr_from_bias_1loop.c","src/spectrum_bias_1loop.c"], [("kernels","src/spectrum_bias_1loop.c:kernel_b2, kernel_bs2, kernel_b22, kernel_b2s2, kernel_bs22, kernel_sigma3sq"),("sum","src/calc_pkcorr_from_bias_1loop.c:calc_pk_bias_1loop")])
p("C16", "Results do not depend on the thread count, the schedule or the other wavenumbers",
  "Running any of the calculations on a list of wavenumbers fills, for every element, exactly the outputs of that element with values determined by that wavenumber, the linear spectrum and the settings only. The same values are obtained for any number of threads and any interleaving (no two iterations write the same location or read what another writes), for any subset or order of the list, and for an empty list.",
  ["inputs","schedules"], "all wavenumber lists, thread counts and schedules",
  "Tests use one list and default threads; data races and cross-element leakage are schedule dependent.",
  ["src/spectrum_1loop.c","src/spectrum_2loop.c","src/spectrum_bias_1loop.c","src/spectrum_A_1loop.c","src/spectrum_A_2loop.c","src/spectrum_B.c"], [("parallel loops over wavenumbers","run_terms_* in src/spectrum_*.c"),("thread-private quadrature state","src/*.c threadprivate")])
p("C17", "Every run stays inside its buffers and returns the memory it takes",
  "For every valid configuration (spectrum of at least three points, any number of nodes, any list of wavenumbers) no calculation reads or writes outside the arrays it was given or allocated, uses memory after releasing it, or releases it twice. Every block allocated during a run is released by the end of it on every thread, whatever sequence of calculations is run.",
  ["inputs","histories"], "all table sizes, node counts, wavenumber lists, verbosity levels and call sequences",
  "Tests run without memory checkers on a few sizes.",
  ["src/common.c","src/regpt.c","src/spectrum_B.c","src/spectrum_1loop.c"], [("allocation and release of quadrature tables","src/common.c:init_gauss_legendre_*, free_gauss_legendre_*"),("edge indices","src/common.c:find_pk; src/regpt.c:print_k")])
p("C18", "Resummed spectra follow the regularised expansion, identically in C and Python",
  "The one- and two-loop power spectra are assembled from the stored terms as the published regularised multi-point-propagator expansion: regularised one-point propagators times the linear spectrum plus the damped mode-coupling contributions. The library's own assembly and the Python assembly at unit growth are the same function of the terms, the result is symmetric under exchanging the two legs, and expanding the damping recovers standard perturbation theory through the order computed.",
  ["inputs"], "all term values and wavenumbers",
  "Tests compare one cosmology; two-loop assembly is never executed by a stable test.",
  ["pyregpt/pyregpt.py","src/spectrum_1loop.c","src/spectrum_2loop.c"], [("Python assembly","pyregpt/pyregpt.py:Spectrum1Loop.pk, Spectrum2Loop.pk"),("C assembly","src/spectrum_1loop.c:spectrum_1loop; src/spectrum_2loop.c:spectrum_2loop")])
p("C19", "Evaluating at a growth factor equals rescaling the terms by it",
  "For every calculation, evaluating a spectrum at growth factor D gives the same result as first rescaling all stored terms by D and then evaluating at unit growth, and rescaling by D1 then D2 equals rescaling by D1 D2. Each stored term is rescaled by D to twice its order in the linear spectrum, i.e. what recomputing it from the linear spectrum times D squared would give.",
  ["inputs"], "all growth factors and all term values, for every calculation class",
  "Tests evaluate at the default growth only.",
  ["pyregpt/pyregpt.py"], [("orders","pyregpt/pyregpt.py:SCALE tables, Terms.rescale"),("growth factors","pyregpt/pyregpt.py:scale_factor, damping_factor, pk methods")])
p("C20", "Python hands the library the arguments its functions expect",
  "Every call from Python into the compiled library passes the number, order and types of arguments that the library function declares, and every array passed is at least as long as the library will access, so each named column receives its own quantity. Returned values are read with the declared return type, and inputs of any numeric type or shape are converted before being passed.",
  ["inputs","programs"], "all Python entry points and all input arrays",
  "Untyped foreign calls: a mismatch is undefined behaviour which a test may survive by luck.",
  ["pyregpt/pyregpt.py","src/common.h"], [("argtypes and calls","pyregpt/pyregpt.py: every self.regpt.* use"),("term order","pyregpt/pyregpt.py:FIELDS")])
p("C21", "Term collections index, copy, pad and rescale column by column",
  "Indexing or assigning a collection by position acts on every column alike, by name on that column only; a deep copy shares no storage with the original while a copy has the same contents. Padding to a longer wavenumber list keeps every existing row, inserts rows with the requested fill value only at the ends (for columns of any number of components), and sets the new wavenumbers; removing invalid numbers changes only those.",
  ["inputs","histories"], "all columns, shapes, index expressions and pad amounts including zero on either side",
  "Tests cover copying of one class; padding is never tested.",
  ["pyregpt/pyregpt.py"], [("container","pyregpt/pyregpt.py:Terms")])
p("C22", "Redshift-space corrections interpolate every coefficient with its own powers",
  "At any wavenumber, line-of-sight cosine, growth-rate ratio and growth factor, the A and B corrections equal the sum over stored coefficients, each linearly interpolated in wavenumber (with the caller's fill values outside the range), times its own power of the squared cosine and of the ratio, times the growth factor to the fourth.",
  ["inputs"], "all wavenumbers, cosines, ratios, growth factors, fill values and coefficient tables",
  "Tests evaluate neither the interpolation nor unusual arguments.",
  ["pyregpt/pyregpt.py"], [("angular sums","pyregpt/pyregpt.py:A1Loop.pk_interp, B1Loop.pk_interp")])
p("C23", "No-wiggle spectrum and rms amplitudes follow their published definitions",
  "The smooth spectrum is the published no-wiggle fitting formula for any cosmological parameters (physical or fractional densities alike), normalised to the given amplitude or to the first value of the given spectrum. The displacement and top-hat rms amplitudes are the trapezoidal integrals of the spectrum at the requested growth and radius, and scale linearly with the growth factor.",
  ["inputs"], "all parameters, wavenumber lists, spectra, radii",
  "The smooth spectrum has no test.",
  ["pyregpt/pyregpt.py"], [("fitting formula","pyregpt/pyregpt.py:SpectrumNoWiggle.transfer, run_terms"),("amplitudes","pyregpt/pyregpt.py:Terms.sigmav, sigmar, sigma8")])
p("C24", "A calculation depends only on its own inputs, not on what ran before",
  "Running a calculation gives values determined by the linear spectrum, settings and wavenumbers in force at that call, regardless of which other calculations, spectra, field names or term collections were set up or run before; field names select density or velocity exactly as given. Setting up, copying or running one object neither writes into another object's arrays nor changes library-wide settings such as verbosity.",
  ["histories","inputs"], "all sequences of set-up, copy and run calls on any number of objects",
  "Tests run each calculation once in a fresh state.",
  ["src/regpt.c","src/spectrum_B.c","src/calc_pkcorr_from_gamma3.c","src/calc_pkcorr_from_A_2loop_II_III.c","pyregpt/pyregpt.py"], [("global tables and field selection","src/regpt.c:set_pk_lin, set_flag; src/spectrum_B.c:set_spectra_B"),("integration ranges","src/calc_pkcorr_from_gamma3.c:init_gamma3_tree; src/calc_pkcorr_from_A_2loop_II_III.c:init_A_2loop_II_III"),("binding of objects","pyregpt/pyregpt.py:PyRegPT.__init__, set_terms, run_terms")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
