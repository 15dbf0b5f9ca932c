"""writes MANIFEST.json from the checks present and the property list"""
import json, os, importlib, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
NA = {
 'C27': "quantifies over floating-point results of scipy's compiled interpolation; real arithmetic is the abstract domain and "
        "the numeric behaviour of the library is assumed, not analysed (the call site, its data and kind are covered by C07/C15/C18)",
 'C28': "accumulated floating-point rounding of run-time values is not bounded by any static argument in reach; the algebraic "
        "identity is decided by C01/C02",
 'C29': "depends on the run-time data and on the numerics of scipy's splines; which spline is evaluated, on which knots and where "
        "is decided by C11",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        mod = importlib.import_module('checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py %s' % i,
                       'thorough_cmd': 'python3-vt run.py %s --thorough' % i,
                       'technique': TECH.get(i, TECH['default']), 'level': 'other',
                       'level_note': mod.EXPLAIN + ". Sound for the analysed entry contexts relative to the library models in "
                                     "absint/; constructs outside the models are reported as undecided, never as violations."})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', [n['property'] for n in na])
