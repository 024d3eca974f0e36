#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYC = 'symbolic execution of the Python source and of the LLVM IR of the C sources, SMT (z3 QF_LRA)'
PYS = 'symbolic execution of the Python source, SMT (z3)'
TECH = {
    'E02': 'bounded model checking of the C sources (CBMC, SAT)',
    'E03': 'symbolic execution of the LLVM IR of the bundled FFT, SMT (z3 QF_LRA); CBMC for the integer routines',
    'E01': PYC, 'S01': PYC, 'S02': PYC, 'S03': PYC, 'V01': PYC, 'V02': PYC, 'V03': PYC, 'H01': PYC, 'O01': PYS + ' (QF_LRA)',
    'K01': PYC, 'X01': 'symbolic execution of the Python source with symbolic sizes, SMT (z3 integer arithmetic)',
    'C01': 'symbolic execution of the Python source with symbolic sizes and indices, SMT (z3 integers and arrays)',
    'C02': 'symbolic execution of the Python source with symbolic sizes and indices, SMT (z3 integers and arrays)',
    'F01': PYS + ': floating-point theory over symbolic text tokens', 'F02': PYS + ': floating-point theory over symbolic text tokens',
    'D01': PYS + ': floating-point theory and linear arithmetic', 'D02': PYS + ': nonlinear real arithmetic',
    'B01': PYS + ': nonlinear real arithmetic over x, sin x, cos x', 'B02': PYS + ': nonlinear real arithmetic',
}
NOTE = {}
TECH['G01'] = PYS + ': every array handed to matplotlib as terms, nonlinear real arithmetic'
TECH['T01'] = PYS + ': printed numbers as text tokens bound to terms'
DEF = ('Holds for every value of the symbolic inputs within the bounds stated in the evidence file. Floating-point rounding is '
       'not modelled (real arithmetic with a tolerance) except where the FP theory is named; trusted: z3, the symbolic numpy '
       'semantics in eng/ (every counterexample is replayed on the real build before it is reported).')
NOTE['E02'] = 'CBMC verdict for all contents and sizes within the stated bounds; trusted: CBMC and its C semantics.'
checks, na = [], []
for ln in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, PYS), 'level': 'other',
                       'level_note': NOTE.get(p, DEF)})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. bin/check <ID> [quick|thorough]; counterexamples are written to /verif/replays and re-run with bin/replay <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not yet')
