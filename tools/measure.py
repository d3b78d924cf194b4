#!/usr/bin/env python3
"""measure.py [units]: time of every entry by box and by slice on the current tree -> tools/boxes.json, from which spec.plan() chooses the capacities of a check"""
import sys, os, json, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec, check
LIM = 3.0
F = os.path.join(check.V, 'tools', 'boxes.json')
def main():
    sc = tempfile.mkdtemp(prefix='cbsa_measure_'); eng = check.engine(sc); data = json.load(open(F))
    units = sys.argv[1:] or [u for u in spec.UNITS if not re_fixed(u)]
    try:
        for u in units:
            _, bc, err = check.compile_unit(u, sc)
            if not bc: print(u, err); continue
            sv = check.Server(eng, bc)
            def ladder(n, steps):
                res = []; last = 0
                for b in steps:
                    o = '%s/%s.%s.%d.json' % (sc, u, n, b); s = time.time(); sv.ask(n, b, 20, o); e = round(time.time() - s, 2)
                    try: d = json.load(open(o))
                    except (OSError, ValueError): break
                    if d['violations'] and not n.startswith('alias'): print('VIOLATION', u, n, b, d['violations'][0]['msg'], flush=True)
                    if d['undecided']: break
                    res.append([abs(b), e])
                    if e > LIM or e * max(2, e / max(last, 0.05)) > 3 * LIM: break
                    last = e
                return res
            def one(n): return n, dict(box=ladder(n, (2, 3, 4, 5, 6, 7, 8, 10, 12, 14)), slice=ladder(n, (-7, -9, -11, -13, -16, -20)))
            with ThreadPoolExecutor(check.CPUS) as ex:
                for n, r in ex.map(one, sv.names): data[u + '/' + n] = r
            sv.close(); print(u, len(sv.names), flush=True)
            with open(F, 'w') as f: f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v, separators=(',', ':'))) for k, v in sorted(data.items())) + '\n}\n')
    finally: shutil.rmtree(sc, ignore_errors=True)
def re_fixed(u): return u[:2] in ('p6', 'p7')
main()
