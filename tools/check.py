#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough - decide one property of /repo's current source by static analysis.
exit 0: holds on everything analysed; 1: violated (VIOLATION line); 2: no answer (source does not compile with the drivers, ...)"""
import sys, os, re, json, time, threading, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import spec
REPO = os.environ.get('CBSA_REPO', '/repo')
CPUS = os.cpu_count() or 4

def die(msg): print('ERROR: ' + msg); sys.exit(2)
def run(cmd, timeout=None):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired: return None

# ------------------------------------------------------------------ analyser binary
ENGINE_SRC = ['cbsa.cpp', 'poly.cpp', 'poly.h', 'loops.inc', 'intrin.inc', 'main.inc', 'Makefile']
def engine_hash():
    h = hashlib.sha256()
    for f in ENGINE_SRC: h.update(open(os.path.join(V, 'engine', f), 'rb').read())
    return h.hexdigest()
def engine(scratch):
    """the analyser built by setup_cmd when its sources are unchanged, else the committed build of the same sources, else a build now"""
    hh = engine_hash()
    for d in (os.path.join(V, 'build'), os.path.join(V, 'engine', 'prebuilt')):
        b, s = os.path.join(d, 'cbsa'), os.path.join(d, 'cbsa.sha256')
        if os.path.exists(b) and os.path.exists(s) and open(s).read().strip() == hh:
            t = os.path.join(scratch, 'cbsa'); shutil.copy(b, t); os.chmod(t, 0o755)
            r = run([t, '--version'], 20)
            if r is not None and r.returncode == 0: return t
    d = os.path.join(scratch, 'engine'); os.makedirs(d)
    r = run(['make', '-s', '-j4', '-C', os.path.join(V, 'engine'), 'OUT=' + d], 600)
    if r is None or r.returncode: die('cannot build the analyser\n' + (r.stdout[-3000:] if r else 'timeout'))
    return os.path.join(d, 'cbsa')

# ------------------------------------------------------------------ compiling the units against the current tree
# the data members the drivers name, by the order in which each class declares them
FIELDS = [(r'class boost::circular_buffer<int>', ['m_buff', 'm_end', 'm_first', 'm_last', 'm_size']),
          (r'class boost::circular_buffer_space_optimized<int>', ['m_capacity_ctrl']),
          (r'class boost::cb_details::capacity_control<[^>]*>', ['m_capacity', 'm_min_capacity']),
          (r'class boost::cb_details::debug_iterator_registry', ['m_iterators']),
          (r'class boost::cb_details::debug_iterator_base', ['m_registry', 'm_next']),
          (r'struct boost::cb_details::iterator<class boost::circular_buffer<int>, struct boost::cb_details::nonconst_traits<.*', ['m_buff', 'm_it'])]
def renamed(scratch):
    """-D flags that let the drivers name renamed data members: each class's own members, in declaration order"""
    src = os.path.join(scratch, 'probe.cpp')
    with open(src, 'w') as f: f.write('#include <boost/circular_buffer.hpp>\nboost::circular_buffer<int> a; boost::circular_buffer_space_optimized<int> b; boost::circular_buffer<int>::iterator i;\n')
    r = run(['clang++', '-std=c++17', '-I' + os.path.join(REPO, 'include'), '-DBOOST_CB_ENABLE_DEBUG=1', '-w', '-S', '-o', os.devnull, '-Xclang', '-fdump-record-layouts', src], 120)
    out = {}
    if r is None or r.returncode: return []
    for block in r.stdout.split('*** Dumping AST Record Layout')[1:]:
        lines = [re.match(r'\s*[\d:-]+ \| ( *)(.*)', l) for l in block.split('\n')]; lines = [m for m in lines if m]
        if not lines: continue
        for pat, names in FIELDS:
            if not re.fullmatch(pat, lines[0].group(2).strip()): continue
            own = [m.group(2).split()[-1] for m in lines[1:] if len(m.group(1)) == 2 and not re.search(r'\((?:primary )?base\)', m.group(2))]
            if len(own) != len(names): continue
            out.update({a: b for a, b in zip(names, own) if a != b and re.fullmatch(r'[A-Za-z_]\w*', b)})
    return ['-D%s=%s' % kv for kv in sorted(out.items())]

def compile_unit(unit, scratch):
    u = spec.UNITS[unit]; bc = os.path.join(scratch, unit + '.bc')
    cmd = ['clang++', '-std=' + u.get('std', 'c++17'), '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-gcolumn-info', '-fno-access-control', '-w', '-emit-llvm', '-c',
           '-I' + os.path.join(V, 'drivers', 'stub'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'drivers')] + u['flags'] + [os.path.join(V, 'drivers', u['src']), '-o', bc]
    r = run(cmd, 300)
    if r is None: return unit, None, 'timeout'
    if r.returncode:
        d = renamed(os.path.dirname(bc))
        if d:
            r = run(cmd + d, 300)
            if r is None: return unit, None, 'timeout'
            cmd += d if r.returncode == 0 else []
    if r.returncode:   # do only the element types that cannot be copied fail? then the others are analysed
        q = run(cmd + ['-DSA_NO_MO'], 300)
        if q is not None and q.returncode == 0: return unit, bc, 'MOVE-ONLY\n' + r.stdout
    return unit, (bc if r.returncode == 0 else None), r.stdout

def uncompilable(unit, out, msg):
    m = re.search(r'(/[^\n:]*/include/boost/circular_buffer[^\n:]*:\d+:\d+): error: ([^\n]*)', out) or re.search(r'(\S+:\d+:\d+): error: ([^\n]*)', out)
    return dict(tag='compile', unit=unit, entry='-', function='-', where=(m.group(1).replace(REPO + '/', '') if m else '-'), msg=msg + (' (' + m.group(2) + ')' if m else ''), example='', box=0)

class Server:
    """one analyser process per unit: it reads the unit once and forks for each request"""
    def __init__(self, eng, bc):
        self.p = subprocess.Popen([eng, bc, '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.consts = {}; self.names, self.waiting, self.lock, self.n, self.dead = [], {}, threading.Lock(), 0, False
        for l in self.p.stdout:
            if l.strip() == 'ready': break
            f = l.split(); self.names.append(f[0]); self.consts[f[0]] = [int(x) for x in f[1:]]
        else: self.dead = True
        threading.Thread(target=self.read, daemon=True).start()
    def read(self):
        for l in self.p.stdout:
            with self.lock: ev = self.waiting.pop(l.split()[0], None)
            if ev: ev.set()
        with self.lock:
            self.dead = True
            for ev in self.waiting.values(): ev.set()
    def ask(self, entry, box, seconds, out):
        ev = threading.Event()
        with self.lock:
            if self.dead: return
            self.n += 1; self.waiting[str(self.n)] = ev
            try: self.p.stdin.write('%d %s %d %d %s\n' % (self.n, entry, box, seconds, out)); self.p.stdin.flush()
            except OSError: return
        ev.wait(seconds + 40)
    def close(self):
        try: self.p.stdin.close(); self.p.kill(); self.p.wait()
        except OSError: pass

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = spec.PROPS[pid]; t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='cbsa_' + pid + '_')
    try: rc = decide(pid, P, tier, scratch, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, tier, scratch, t0):
    deadline = t0 + (780 if tier == 'quick' else 3600 * 3)
    eng = engine(scratch) if P.get('entries') or P.get('irpasses') or P.get('passes') else None
    units = sorted({u for u, _ in P.get('entries', [])} | set(P.get('irunits', [])))
    bcs, errors, viol, reduced = {}, [], [], set()
    with ThreadPoolExecutor(CPUS) as ex:
        for u, bc, out in ex.map(lambda u: compile_unit(u, scratch), units):
            if bc: bcs[u] = bc
            if bc and out.startswith('MOVE-ONLY'):
                reduced.add(u)
                if pid == 'C19': viol.append(uncompilable(u, out, 'an operation documented for elements that can only be moved does not compile for them'))
            elif not bc and pid == 'C22' and u.endswith('ac') and compile_unit(u[:-2], scratch)[1]:
                viol.append(uncompilable(u, out, 'an operation does not compile for an allocator and element that insist on construct and destroy of the allocator'))
            elif not bc: errors.append('unit %s does not compile against the current tree:\n%s' % (u, out[-2500:]))
    servers = {}
    with ThreadPoolExecutor(CPUS) as ex:
        for u, sv in ex.map(lambda u: (u, Server(eng, bcs[u])), [u for u in units if u in bcs]): servers[u] = sv
    jobs = []   # (cost, unit, entry, mode)
    selected = {}
    for u, pat in P.get('entries', []):
        if u not in bcs: continue
        sel = [n for n in servers[u].names if re.fullmatch(pat, n)]
        if not sel and u not in reduced: errors.append('no entry of unit %s matches %s' % (u, pat))
        selected.setdefault(u, set()).update(sel)

    plan = spec.plan(P, [(u, n) for u in selected for n in sorted(selected[u])], tier)
    for (u, n), (bx, sl) in plan.items():
            cost = spec.cost(u, n)
            jobs.append((cost, u, n, bx))
            if sl: jobs.append((cost, u, n, -sl))   # negative: a slice
            for pat, b in P.get('extra_box', {}).get(tier, []):
                if re.fullmatch(pat, u + '/' + n): jobs.append((cost + 2, u, n, b))
            if tier == 'thorough' or (u + '/' + n) in spec.FAST: jobs.append((cost + 1, u, n, 0))
    jobs.sort(key=lambda j: -j[0])
    limit = 240 if tier == 'quick' else 900
    def one(job):
        _, u, n, b = job; o = os.path.join(scratch, '%s.%s.%d.json' % (u, n, b))
        left = deadline - time.time()
        if left < 5: return job, None
        tl = min(left, limit if b else (20 if tier == 'quick' else 300))
        servers[u].ask(n, b, int(tl), o)
        if not os.path.exists(o): return job, None
        try: return job, json.load(open(o))
        except ValueError: return job, None
    results = []
    with ThreadPoolExecutor(CPUS) as ex: results = list(ex.map(one, jobs))
    # an integer constant in the library's code that lies beyond the capacities analysed may change what it does there: states next to it as well
    far = []
    for (u, n), (bx, sl) in plan.items():
        work = bool(P.get('at_bound')); covered = bx if work else max(bx, sl)
        for c in [c for c in servers[u].consts.get(n, ()) if 8 < c <= 400 and 2 * c > covered][:3]:
            for N in ((8 * c + 8,) if work else (c + 2, 4 * c + 8)): far.append((('nitcmx'.find(n[-1]) % 9, N, spec.cost(u, n)), u, n, N if work else -1000000 - N))
    far.sort(key=lambda j: j[0]); stop = min(deadline, time.time() + (300 if tier == 'quick' else 2400)); nfar = len(far)
    def more(job):
        _, u, n, b = job; o = os.path.join(scratch, '%s.%s.%d.json' % (u, n, b)); left = stop - time.time()
        if left < 5: return job, None
        servers[u].ask(n, b, int(min(left, 60 if tier == 'quick' else 600)), o)
        try: return job, json.load(open(o))
        except (OSError, ValueError): return job, None
    with ThreadPoolExecutor(CPUS) as ex: far = [(j, d) for j, d in ex.map(more, far) if d is not None]
    results += [((c, u, n, b if b > 0 else b + 1000000), d) for (c, u, n, b), d in far]
    for sv in servers.values(): sv.close()
    st = dict(obligations=0, paths=0, entries=set(), bounded=set(), sliced=set(), caps={}, unbounded=set(), undecided={}, noanswer=[], sites=set(), functions=0, by_tag={}, loops=0)
    for (c, u, n, b), d in results:
        key = u + '/' + n
        if d is None: st['noanswer'].append('%s box %d' % (key, b)); continue
        st['entries'].add(key); st['caps'][b] = st['caps'].get(b, 0) + 1; st['obligations'] += d['obligations']; st['paths'] += d['paths']; st['sites'].update(d['sites']); st['functions'] = max(st['functions'], d['library_functions']); st['loops'] += d['loops']
        for t, k in d['obligations_by_tag'].items():
            if spec.prop_tag(P, u, n, t): st['by_tag'][t] = st['by_tag'].get(t, 0) + k
        und = {k: v for k, v in d['undecided'].items()}
        if not und: (st['bounded'] if b > 0 else st['sliced'] if b < 0 else st['unbounded']).add(key)
        elif b:
            for k in und: st['undecided'][k] = st['undecided'].get(k, 0) + 1
        for v in d['violations']:
            if spec.prop_tag(P, u, n, v['tag']): viol.append(dict(v, unit=u, box=b))
    extra_cov = {}
    for f in P.get('passes', []):
        r = f(dict(repo=REPO, verif=V, scratch=scratch, engine=eng, bcs=bcs, tier=tier, cpus=CPUS, deadline=deadline))
        viol += r.get('violations', []); errors += r.get('errors', []); extra_cov.update(r.get('coverage', {}))
    # ------------------------------------------------------------------ known findings
    known = load_known(); seen, new = {}, []
    for v in viol:
        k = next((k for k in known if k['property'] == pid and match(k, v)), None)
        if k: seen[k['text']] = 1
        else: new.append(v)
    for k in sorted(seen): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    replay = os.path.join('evidence', pid + '.violations.json'); rp = os.path.join(V, replay)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if os.path.exists(rp): os.remove(rp)
    uniq = {}
    for v in new: uniq.setdefault((v['tag'], v['msg'], v.get('function', ''), v['where']), []).append(v)
    for (tag, msg, fn, where), vs in list(uniq.items())[:12]:
        v = vs[0]; print('%s: %s' % (v['where'], v['msg'])); print('   function %s; entry %s/%s; for example %s' % (fn, v.get('unit'), v.get('entry'), v.get('example', '')))
        if v.get('stack'): print('   through ' + v['stack'])
    cov = dict(explanation=P.get('explain', spec.EXPLAIN['*']), rule=P['rule'])
    if jobs:
        cov.update(entries_analysed=len(st['entries']), analyses=len([1 for _, d in results if d is not None]), obligations_checked=st['obligations'], obligations_of_property=st['by_tag'], abstract_paths=st['paths'], library_source_lines_with_obligations=len(st['sites']),
            decided_for_all_capacities=sorted(st['unbounded']), decided_up_to_capacity=dict(entries=len(st['bounded']), entries_by_capacity={str(b): k for b, k in sorted(st['caps'].items()) if b > 0}), decided_on_slices=dict(entries=len(st['sliced']), entries_by_capacity={str(-b): k for b, k in sorted(st['caps'].items()) if b < 0}), undecided=dict(list(st['undecided'].items())[:40]), no_answer=st['noanswer'], widened_loops=st['loops'], units=units)
    cov.update(extra_cov)
    if nfar: cov['next_to_constants'] = dict(planned=nfar, answered=len(far), capacities=sorted({abs(b) % 1000000 for (_, _, _, b), _ in far}))
    cov['known_findings_seen'] = len(seen)
    if errors: cov['errors'] = errors
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P['level'], coverage=cov, assumptions=spec.ASSUME + P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=len(uniq))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        json.dump(new, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, replay)); return 1
    if errors:
        for e in errors: print('ERROR: ' + e)
        return 2
    if jobs and len(st['noanswer']) > len(jobs) // 2: die('most analyses gave no result: ' + ', '.join(st['noanswer'][:5]))
    print('%s holds: %d entries, %d obligations, %d decided for all capacities%s, %.1f s' % (pid, len(st['entries']), st['obligations'], len(st['unbounded']), ''.join('; ' + k for k in extra_cov), time.time() - t0))
    return 0

def load_known():
    out = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        if not l.startswith('known: '): continue
        head, text = l[7:].rstrip('\n').split(' :: ', 1)
        k = dict(x.split('=', 1) for x in head.split(' ') if x); k['text'] = text; out.append(k)
    return out
def match(k, v):
    if 'unit' in k and k['unit'] != v.get('unit'): return False
    if 'entry' in k and not re.fullmatch(k['entry'], v.get('entry', '')): return False
    if 'tag' in k and k['tag'] != v['tag']: return False
    if 'function' in k and k['function'] != (v.get('function') or '-'): return False
    return True
if __name__ == '__main__': main()
