#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (they suppress nothing)."""
import json, os
F = [
("C01","6320b7c","find_pk looked a wavenumber up from the position of the previous one: a list not in increasing order got values extrapolated from the wrong interval"),
("C01","e864366","linear interpolation exactly at the last tabulated wavenumber used the entry after the table"),
("C02","2a98afb","calc_running_sigmad2 accumulated over the requested list: wavenumbers not in increasing order, or repeated, got a wrong dispersion"),
("C14","a7c9503","set_spectra_B('delta','delta',...) stored the spectrum as the delta-theta one"),
("C17","8df9a69","run_terms_B released the spectra it had computed but kept them set: the next run read released memory"),
("C11","38ab35f","a fully damped bispectrum set the outputs to zero and then overwrote them"),
("C17","9a5dff4","setting or running the terms for an empty list of wavenumbers read k[0] and k[-1]"),
("C17","e4dae64","debug output of the B term read past the shorter of the two spectra"),
("C07","95a5bc2","sign of the third-order term of the velocity two-loop kernel expanded about equal wavenumbers"),
("C24","bf651a6","init_gamma3_tree and init_A_2loop_II_III wrote the range of the current spectrum into the settings, which later spectra then used"),
("C16","d77b4e7","the spectra of the B term were copied in one thread's private storage only: other threads read unset pointers"),
("C19","76ae24b","sigma3sq, linear in the spectrum, was rescaled as quadratic"),
("C21","32f9f92","padding columns of several components failed or padded the components; padding where nothing is added emptied the terms"),
("C21","27cf150","zeros() failed for spectra that do not use the library"),
("C21","a17081e","a copy shared its dictionary of columns: assigning a column to the copy changed the original"),
("C21","54be076","deep copy of terms to which no linear spectrum was given failed"),
("C21","db98838","PyRegPT.pad_k overwrote the linear spectrum and dispersion of the existing rows"),
("C21","669356d","padding with a mode other than constant failed"),
("C22","1955926","outside of the tabulated range the B correction took zero, whatever was requested"),
("C04","e4a36ac","names of precision settings: groups missed members or named functions that do not exist"),
("C04","8c23dfb","running cutoffs of the A and B terms could not be set"),
("C04","c5dab68","clear() left the interpolation of the linear spectrum as it was"),
("C04","2987d61","set_precision('spectrum_1loop_q') raised after doing its work"),
("C24","c5062a1","creating or copying an object changed the verbosity of the library"),
("C24","fe500b4","a calculation used the linear spectrum, and filled the arrays, of whichever object had been set up last"),
("C20","2124cdd","tables handed to interpol_poly were not converted to double"),
("C08","68d2299","the elongated regime was chosen for k1 small but not for k2 small: the kernel was not symmetric and lost all digits there"),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [dict(property=p, status="fixed", id="%s-%s" % (p, c), contract="$^", obligation="$^", what="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in F]
json.dump(out, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(out))
