"""Writes /verif/MANIFEST.json: one check per property that has a rule module."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C29': 'Rounding error grows with run-time magnitudes and operation counts; no static bound on them is in reach, and an unconditional claim would be false.',
    'C30': 'Coverage of confidence intervals is a statistical statement about data distributions; source analysis decides the formulas used (C21), not their coverage.',
    'C31': 'Peak memory depends on run-time data sizes and on the caching and laziness of third-party libraries (zarr, dask, beam).',
}
T = {
    'C01': 'value-graph (global value numbering) comparison of the accumulator algebra with its definition',
    'C02': 'value-graph comparison of the masked, weighted, binned reduction with its definition, case-split over options',
    'C03': 'missing-value propagation lattice over the value graph of every statistic',
    'C04': 'dtype lattice over the value graph of every statistic',
    'C05': 'information-flow (parameter dependence) of computed values versus identity',
    'C06': 'declared versus read statistics: key-set dataflow over every metric',
    'C07': 'interprocedural effect and alias analysis of mutations',
    'C08': 'value-graph comparison of chunk arithmetic with its definition',
    'C09': 'typestate and exception-path effect analysis of file writes',
    'C10': 'stage-order and value-graph analysis of pipeline construction',
    'C11': 'value-graph comparison of the loading pipeline with its definition',
    'C12': 'value-graph comparison of issue-time arithmetic with its definition',
    'C13': 'value-graph comparison of valid-time matching with its definition',
    'C14': 'value-graph comparison of bin membership with its definition',
    'C15': 'value-graph comparison of metric formulas with their definitions',
    'C16': 'value-graph comparison of metric formulas with their definitions',
    'C17': 'value-graph comparison of metric formulas with their definitions',
    'C18': 'raise-condition analysis and exception-handler effect lints',
    'C19': 'writer/reader agreement by value-graph composition',
    'C20': 'side (main/baseline) information flow over the value graph',
    'C21': 'value-graph comparison of inference formulas with their definitions',
    'C22': 'value-graph comparison of area weights with their definition',
    'C23': 'option-use dataflow: every constructor parameter reaches behaviour',
    'C24': 'non-determinism source and escaping-state effect analysis',
    'C25': 'value-graph comparison of observation selection with its definition',
    'C26': 'value-graph comparison of wrappers and transforms with their definitions',
    'C27': 'value-graph comparison of interpolation with its definition',
    'C28': 'constant-table extraction and cross-reference queries',
    'C32': 'value-graph comparison of the programs with their definition',
}
NOTE = ('Decided from the source by our own analysis (wbxsa): each function is turned into a value graph and '
        'compared or classified; xarray/numpy/beam calls are trusted to do what their documentation says; '
        'constructs outside the modelled Python subset are reported as undecided in the evidence, not as held.')
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
  i = json.loads(l)['id']
  if os.path.exists(os.path.join(HERE, 'wbxsa', 'rules', i.lower() + '.py')):
    checks.append({'property': i,
                   'quick_cmd': f'python3 check.py --property {i} --tier quick',
                   'thorough_cmd': f'python3 check.py --property {i} --tier thorough',
                   'technique': 'static analysis: ' + T[i], 'level': 'other',
                   'level_note': NOTE})
  else:
    na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 10))"',
     'checks': checks, 'not_applicable': na,
     'notes': 'Analyses parse /repo with the standard library ast module on every run; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
