#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the harness map in check and the notes here"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = open(V + '/check').read()
H = {}
for m in re.finditer(r"'(h_\w+)': '([A-Z0-9 ]+)'", src):
    for p in m.group(2).split(): H[p] = m.group(1)
NOTE = {
 'h_lu': 'bounded exhaustive enumeration of systems x configurations on the real library, exact rational reference',
 'h_hist': 'exhaustive exploration of call sequences on the real library, differential against fresh sessions',
 'h_copy': 'bounded exhaustive enumeration of forms x patterns x values on the real library, exact reference',
 'h_mat': 'bounded exhaustive enumeration of matrix states and defects on the real library, reference predicate',
 'h_oom': 'exhaustive enumeration of allocation-failure points (single, persistent, pairs) on the real library',
 'h_session': 'exhaustive exploration of session histories and argument defects on the real library, reference state machine',
 'h_gmp': 'exhaustive enumeration of operand alphabets, aliasing and failure points on the real wrappers, against direct GMP/MPFR calls',
 'h_amd': 'exhaustive enumeration of all patterns up to a dimension x controls on the real code, graph-theoretic reference',
 'h_f77': 'exhaustive enumeration of all symmetric patterns x workspace sizes on the real Fortran code, reference predicate',
 'h_colamd': 'exhaustive enumeration of all patterns up to a size x knobs x workspace on the real code, reference predicate',
 'h_conf': 'exhaustive enumeration of all histories of configuration calls and library calls to a depth, on the real code, with a model of the configuration compared after every step; a grid of clock readings under a controlled clock',
 'h_cfg': 'exhaustive enumeration of an operand lattice, of report arrays and of printed matrices on the real code, exact reference and reference parser',
 'h_mex': 'exhaustive enumeration of systems, options and call histories on the real gateways against a stand-in for the MATLAB API, exact reference',
 'h_demo': 'exhaustive enumeration of file histories (all truncations, all small files) on the real readers, reference parser',
}
LEVEL = ('Every execution of the stated finite spaces runs on the real code built from the working tree with AddressSanitizer and is '
         'compared with an independent reference; nothing is sampled and nothing outside the bounds is claimed. The spaces and their sizes are in the evidence file. '
         'Trusted: GMP/MPFR, the compiler, the reference code in mc/ref.h.')
NA = {}
try: NA.update(json.load(open(V + '/tools/na.json')))
except FileNotFoundError: pass
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    if i not in H or not os.path.exists('%s/mc/%s.cpp' % (V, H[i])):
        NA[i] = 'check not built yet'; continue
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'technique': 'explicit-state/stateless model checking of the implementation: ' + NOTE[H[i]],
                   'level': 'model_checking', 'level_note': LEVEL})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
           'notes': 'No hooks in /repo: every check compiles the sources of the working tree as they are and drives them through their public interface.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', 'not claimed:', ' '.join(sorted(NA)))
