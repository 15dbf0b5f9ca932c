#!/usr/bin/env python3-vt
"""run.py <property id> : decide one property for the sources in /repo/src"""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
OUT = os.environ.get('ABSINT_OUT', ROOT)   # where reports go; only tools/ sets it
import threading
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(60000)


def findings():
    p = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                pid, _, rest = line[len('known: property='):].partition(' ')
                sig, _, what = rest.partition(' | ')
                out.append((pid, sig.strip(), what.strip()))
    return out


def main(pid):
    from checks import base
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    chk = base.Check(pid, tier, seed)
    mod.check(chk)
    viol = [o for o in chk.obs if o[1] == 'violated']
    und = [o for o in chk.obs if o[1] == 'undecided']
    good = [o for o in chk.obs if o[1] == 'ok']
    known = [f for f in findings() if f[0] == pid]
    new, seen_known = [], []
    for o in viol:
        k = [f for f in known if f[1] == o[4]]
        if k:
            seen_known.append(k[0])
        else:
            new.append(o)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN,
            'rules': chk.rules,
            'obligations': len(chk.obs),
            'discharged': len(good),
            'undecided': [{'obligation': o[0], 'why': o[2]} for o in und][:200],
            'entry_contexts': chk.scenarios,
            'functions_analysed': sorted(chk.functions),
            'n_functions_analysed': len(chk.functions),
            'samples': [o[0] for o in (good[:3] + good[len(good) // 2:len(good) // 2 + 3] + good[-3:])],
            'notes': chk.notes,
        },
        'assumptions': getattr(mod, 'ASSUMES', []) + [
            'models of Python builtins, numpy, scipy, pandas, PyYAML and the file system (absint/) describe those libraries',
            'real arithmetic: floating-point rounding is not modelled'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for f in {x[1]: x for x in seen_known}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f[2]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d entry contexts, %d functions, %.1fs" % (
        pid, len(chk.obs), len(good), len(und), len(viol), chk.scenarios, len(chk.functions), time.time() - t0))
    if '-v' in sys.argv or os.environ.get('ABSINT_DEBUG'):
        for o in und:
            print("  UNDECIDED", o[0], '--', o[2])
    if new:
        os.makedirs(os.path.join(OUT, 'out'), exist_ok=True)
        path = os.path.join(OUT, 'out', pid + '.violations.txt')
        with open(path, 'w', encoding='utf-8') as f:
            for o in new:
                f.write("obligation: %s\n  site: %s\n  found: %s\n\n" % (o[0], o[3], o[2]))
            f.write("rules applied:\n" + "\n".join("  %s: %s" % kv for kv in chk.rules.items()) +
                    "\nre-run: cd /verif && python3-vt run.py %s\n" % pid)
        for o in new[:12]:
            print("  violated: %s\n     %s%s" % (o[0], o[2], "\n     at %s" % o[3] if o[3] else ''))
        if len(new) > 12:
            print("  ... and %d more" % (len(new) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not good:
        print("no obligation could be decided")
        return 2
    return 0


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main(sys.argv[1]))
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
