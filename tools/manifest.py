#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'P01': 'lengths 1..3 per operand (5 thorough), every double / int in +-30000, all 10x10 operand forms per operator; pow as an uninterpreted function',
 'P02': 'lengths 1..3 (5), every double including NaN, all operand forms and the six comparisons',
 'P03': 'lengths 1..3, all argument forms; libm functions uninterpreted (argument and identity exact)',
 'P04': 'matrices up to 3x3, shape histories of bounded length',
 'P05': 'histories of 2 (3 thorough) statements from 22 kinds over 3 variables and over borrowed vectors, lengths 1..3',
 'P06': 'histories of memory operations of bounded length; every byte access is bounds checked, leaks counted',
 'P07': 'borrowed lengths 0..4 (6), all contents, guard cells on both sides, histories of writes from 21 kinds',
 'P08': 'vectors up to 3 (5), index vectors up to 3 (4), all 17 index kinds, indices in and out of range',
 'P09': 'as P08, with scalar, vector, expression and overlapping right hand sides',
 'P10': 'matrices up to 3x3, all row/column index kinds (7x7 and value forms), in and out of range',
 'P11': 'as P10 for writes',
 'P12': 'vectors up to 3 (5), matrices up to 3x3, all int / double indices near and far out of range; variables, temporaries, expressions and subsets for two indices',
 'P13': 'endpoints any int with distance up to 4 (8), doubles whole or with fraction, all pairs of endpoint forms (scalar, vector, temporary, subset, expression, borrowed)',
 'P14': 'lengths 1..3, counts -2..4, all argument and count forms',
 'P15': 'up to 4 arguments of every form and type, lengths 1..3',
 'P16': 'sizes -2..5, all size and dimension types and forms, matrices up to 3x3',
 'P17': 'every double bit pattern, lengths 1..3, matrices up to 3x3',
 'P18': 'tables of 4..5 points, exact real arithmetic for the spline value, every t',
 'P19': 'tables of 1..5 points, every t',
 'P20': 'programs of up to 3 assignments over buffered and borrowed variables (memory and R objects), also over variables that already carry derivatives, expression depth 2-3, lengths 1..4; values compared modulo rounding',
 'P21': 'lengths 1..3, matrices up to 3x3; operator<< is the boundary (tokens recorded)',
 'P22': 'nesting depth 3-4 over all operations, lengths 1..3, element types of every pair of operand types',
 'P23': 'lengths 1..3 (5), index vectors up to 3, histories of sizes',
 'P24': 'every failing operation of the histories, lengths 1..3, also for shortened borrowed targets; heap balance checked',
 'P25': 'against a model of the R API: numeric, integer and logical vectors of length 0..3 and matrices up to 2x3, two imports in a row, histories of 2 (3 thorough) statements on a borrowing vector, Rcpp and Armadillo objects',
 'P26': 'against a model of the R math library (functions uninterpreted): 16 distribution functions, argument lengths 1..3, flags of length 1..3, up to 4 random numbers, two calls in a row',
 'P27': 'slots empty or with 1..4 older constants, sizes -3..4 of every type, endpoints any int at most 2 apart (fractional: any doubles less than 3 apart), coca of up to 4 arguments, 2 uses of a slot in a row',
}
NA = {}
checks, na = [], []
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)['id']
    if glob.glob(f'{V}/harness/{p}*.cpp'):
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} thorough',
            technique='symbolic execution of the LLVM IR of the real headers, SMT (z3) verdict per path and assertion, counterexamples replayed natively',
            level='model_checking', level_note='bounded: ' + NOTE[p] + '; every path within the bounds decided by the solver', evidence_file=f'evidence/{p}.json'))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
m = dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=na,
  notes='No hooks in /repo. The engine (engine/) executes the LLVM IR compiled from the headers in /repo/include on every run; see DESIGN.md.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
