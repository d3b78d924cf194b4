"""Analyses that need no entry: type-level witnesses decided by the compiler's type checker, and queries over the IR of the whole library."""
import os, re, json, subprocess
from concurrent.futures import ThreadPoolExecutor

def run(cmd, timeout=300):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired: return None
def short(p):
    i = p.find('boost/circular_buffer'); return p[i:] if i >= 0 else os.path.basename(p)
def cc(c, src, defs, std, comp='clang++', out=None):
    d = os.path.join(c['verif'], 'drivers', 'types')
    cmd = [comp, '-std=c++' + std, '-w', '-I' + os.path.join(c['repo'], 'include'), '-I' + d] + ['-D' + x for x in defs]
    return run(cmd + (['-fsyntax-only'] if not out else ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c', '-o', out]) + [os.path.join(d, src)])
def baseline(c, defs, std, comp):
    """the header alone: if that does not compile nothing can be decided"""
    r = run([comp, '-std=c++' + std, '-w', '-fsyntax-only', '-I' + os.path.join(c['repo'], 'include')] + ['-D' + x for x in defs] + ['-x', 'c++', '-include', 'boost/circular_buffer.hpp', '/dev/null'])
    return r is not None and r.returncode == 0
def broken(out, tag, what, entry):
    """one violation per distinct error of the type checker"""
    vs, ls = {}, out.splitlines()
    for i, l in enumerate(ls):
        m = re.match(r'(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)', l)
        if not m: continue
        msg = m.group(3); sa = re.search(r"static assertion failed[^:]*(?: due to requirement '.*')?: (.*)", msg)
        near = next((re.sub(r'^(.*?):(\d+):\d+: note: ', lambda k: short(k.group(1)) + ':' + k.group(2) + ' ', x) for x in ls[i + 1:i + 40] if 'in instantiation' in x), '')
        text = sa.group(1) if sa else 'does not compile: ' + msg
        vs.setdefault((short(m.group(1)), m.group(2), text), dict(tag=tag, msg=text[:300], where=short(m.group(1)) + ':' + m.group(2), function=near[:300], entry=entry, unit=what, example=what, count=1))
    return list(vs.values())[:6] or [dict(tag=tag, msg='does not compile', where='', function='', entry=entry, unit=what, example=out[-300:], count=1)]

def witness(src, tag, configs, extra=()):
    """a translation unit of static assertions and of calls of every operation must be well formed in every configuration"""
    def f(c):
        todo = configs['thorough'] if c['tier'] == 'thorough' else configs['quick']
        def one(k):
            std, comp, defs = k; defs = list(defs) + list(extra)
            r = cc(c, src, defs, std, comp); what = '%s %s c++%s %s' % (src, comp, std, ' '.join(defs))
            if r is None: return [], ['timeout compiling ' + what]
            if r.returncode == 0: return [], []
            if not baseline(c, defs, std, comp): return [], ['the header alone does not compile: ' + what]
            return broken(r.stdout, tag, what, src), []
        with ThreadPoolExecutor(c['cpus']) as ex: rs = list(ex.map(one, todo))
        t = open(os.path.join(c['verif'], 'drivers', 'types', src)).read()
        return dict(violations=[v for a, _ in rs for v in a], errors=[e for _, b in rs for e in b],
            coverage={'type_witness_' + src: dict(configurations=['%s c++%s %s' % (comp, std, ' '.join(d)) for std, comp, d in todo], static_assertions_in_source=t.count('static_assert') + t.count('RES(') + t.count('NOCONST('), explicit_instantiations=t.count('template void') + t.count('template class'))})
    return f
QUICK = [('11', 'clang++', ()), ('17', 'clang++', ()), ('17', 'clang++', ('BOOST_CB_ENABLE_DEBUG=1',)), ('20', 'clang++', ()), ('17', 'g++', ())]
FULL = [(s, p, d) for s in ('11', '14', '17', '20', '23') for p in ('clang++', 'g++') for d in ((), ('BOOST_CB_ENABLE_DEBUG=1',))]
CONF = dict(quick=QUICK, thorough=FULL)

def compile_fail(c):
    """programs that violate a rule of the interface must be rejected; a twin without the violation must be accepted"""
    src = open(os.path.join(c['verif'], 'drivers', 'types', 'cf.cpp')).read(); n = max(int(x) for x in re.findall(r'CASE == (\d+)', src))
    stds = ['17'] if c['tier'] == 'quick' else ['11', '17', '20']
    jobs = [(s, w, i, g) for s in stds for w in ('plain', 'space') for i in range(1, n + 1) for g in (0, 1)]
    if not baseline(c, [], '17', 'clang++'): return dict(errors=['the header alone does not compile'])
    def one(j):
        s, w, i, g = j; r = cc(c, 'cf.cpp', ['WHICH=' + w, 'CASE=%d' % i] + (['GOOD'] if g else []), s); return j, r
    with ThreadPoolExecutor(c['cpus']) as ex: rs = list(ex.map(one, jobs))
    vs, es = [], []
    for (s, w, i, g), r in rs:
        text = re.search(r'CASE == %d\b[^\n]*\n(?:template[^\n]*\n)?([^\n]*)' % i, src).group(1)
        if r is None: es.append('timeout in case %d' % i)
        elif g and r.returncode: vs += [dict(v, msg='a valid program is rejected: %s (%s)' % (text, v['msg'])) for v in broken(r.stdout, 'types', 'cf.cpp case %d %s c++%s' % (i, w, s), 'case_%d' % i)[:1]]
        elif not g and r.returncode == 0: vs.append(dict(tag='types', msg='an invalid program is accepted: ' + text, where='drivers/types/cf.cpp case %d' % i, function=w, entry='case_%d' % i, unit='cf', example='c++' + s, count=1))
    return dict(violations=vs, errors=es, coverage=dict(compile_fail_programs=len(jobs) // 2, twins_that_must_compile=len(jobs) // 2))

def ir_query(tags):
    """every function of the library, as instantiated by drivers/types: uses of mutable static objects, direct uses of the global allocation functions"""
    def f(c):
        vs, es, cov = {}, [], dict(functions=0, instructions=0, global_uses=0, calls=0)
        for k, defs in enumerate(([], ['BOOST_CB_ENABLE_DEBUG=1'])):
            bc = os.path.join(c['scratch'], 'types%d.bc' % k); r = cc(c, 'use_all.cpp', defs, '17', 'clang++', bc)
            if r is None or r.returncode: es.append('use_all.cpp does not compile: ' + (r.stdout[-1500:] if r else 'timeout')); continue
            o = bc + '.json'; r = run([c['engine'], '--globals', bc, '-o', o])
            if r is None or r.returncode: es.append('IR query failed'); continue
            d = json.load(open(o))
            for x in cov: cov[x] += d[x]
            for v in d['violations']:
                if v['tag'] in tags: vs.setdefault((v['tag'], v['where'], re.sub(r'<.*>', '<>', v['msg'])), dict(v, unit='use_all'))
            if d['functions'] < 300: es.append('only %d library functions found' % d['functions'])
        return dict(violations=list(vs.values()), errors=es, coverage=dict(ir_query=cov))
    return f

# ---- C34: what a header promises to every program that includes it
HYG_STD = dict(quick=['98', '11', '14', '17', '20', '23'], thorough=['98', '03', '11', '14', '17', '20', '23'])
HYG_FLAGS = [[], ['-DBOOST_CB_ENABLE_DEBUG=1'], ['-fno-exceptions'], ['-fno-rtti'], ['-DNDEBUG'], ['-DBOOST_ENABLE_ASSERT_HANDLER', '-DBOOST_CB_ENABLE_DEBUG=1'], ['-fno-exceptions', '-fno-rtti', '-DBOOST_CB_ENABLE_DEBUG=1'], ['-DBOOST_DISABLE_ASSERTS', '-DBOOST_CB_ENABLE_DEBUG=1']]
def macros(text):
    """macros a file of the library leaves defined (the last word of the preprocessor on each name), with the place"""
    live, f, n = {}, '', 0
    for l in text.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m: f, n = m.group(2), int(m.group(1)); continue
        m = re.match(r'#define (\w+)', l)
        if m and 'boost/circular_buffer' in f: live[m.group(1)] = '%s:%d' % (short(f), n)
        m = re.match(r'#undef (\w+)', l)
        if m: live.pop(m.group(1), None)
        if m and 'boost/circular_buffer' in f and not re.match('BOOST_CB_|BOOST_CIRCULAR_BUFFER', m.group(1)): live['#undef ' + m.group(1)] = '%s:%d' % (short(f), n)
        n += 1
    return live
def strong(text):
    """functions and objects the library's headers define with external linkage that is neither inline nor a template's: (kind, name, place)"""
    meta = dict(re.findall(r'^(!\d+) = (.*)$', text, re.M)); r = []
    def place(k, depth=0):
        d = meta.get(k, '')
        if 'GlobalVariableExpression' in d:
            v = re.search(r'var: (!\d+)', d); return place(v.group(1)) if v else ('', '', '')
        f = re.search(r'file: (!\d+)', d); fn = re.search(r'filename: "([^"]*)"', meta.get(f.group(1), '')) if f else None; ln = re.search(r'line: (\d+)', d); nm = re.search(r'name: "([^"]*)"', d)
        return (fn.group(1) if fn else '', ln.group(1) if ln else '?', nm.group(1) if nm else '?')
    nf = nv = 0
    for l in text.splitlines():
        if l.startswith('define '):
            nf += 1
            if re.match(r'define (?:dso_local |hidden |protected |noundef |signext |zeroext |nonnull |align \d+ |dereferenceable\(\d+\) )*(linkonce|weak|internal|private|available)', l): continue
            m = re.search(r'!dbg (!\d+)', l); p = place(m.group(1)) if m else ('', '', '')
            if 'boost/circular_buffer' in p[0]: r.append(('function',) + p)
        elif re.match(r'@[^ ]+ = ', l) and not re.match(r'@[^ ]+ = (?:dso_local )?(linkonce|weak|internal|private|available|external|appending|linkonce_odr|weak_odr)', l):
            nv += 1; m = re.search(r'!dbg (!\d+)', l); p = place(m.group(1)) if m else ('', '', '')
            if 'boost/circular_buffer' in p[0]: r.append(('object',) + p)
    return r, nf, nv
def hygiene(c):
    d = os.path.join(c['verif'], 'drivers', 'types', 'hyg'); inc = ['-I' + os.path.join(c['repo'], 'include'), '-I' + d]
    if not baseline(c, [], '17', 'g++'): return dict(errors=['the header alone does not compile'])
    vs, es, names = {}, [], ['every', 'minmax', 'names', 'fwd', 'fwd2']
    def compile1(j):
        n, s, comp, fl = j; r = run([comp, '-std=c++' + s, '-w', '-fsyntax-only'] + fl + inc + (['-DBOTH'] if n == 'fwd2' else []) + [os.path.join(d, n.rstrip('2') + '.cpp')])
        return j, r
    jobs = [('every', s, p, f) for s in HYG_STD[c['tier']] for p in ('g++', 'clang++') for f in HYG_FLAGS if c['tier'] == 'thorough' or s in ('98', '11') or not f or p == 'clang++' and s in ('17', '20')]
    jobs += [(n, s, p, f) for n in names[1:] for s in (['98', '17', '20'] if c['tier'] == 'quick' else HYG_STD['thorough']) for p in ('g++', 'clang++') for f in HYG_FLAGS[:2]]
    with ThreadPoolExecutor(c['cpus']) as ex: rs = list(ex.map(compile1, jobs))
    for (n, s, p, f), r in rs:
        what = '%s.cpp %s c++%s %s' % (n, p, s, ' '.join(f))
        if r is None: es.append('timeout compiling ' + what)
        elif r.returncode:
            for v in broken(r.stdout, 'hygiene', what, n)[:2]:
                o = vs.setdefault(('c', v['where'], v['msg']), dict(v, configurations=[])); o['count'] = o.get('count', 0) + 1; o['configurations'] = (o['configurations'] + [what])[:20]
    nm = 0
    for s in ('98', '17'):
        for f in HYG_FLAGS[:2]:
            for h in ('boost/circular_buffer.hpp', 'boost/circular_buffer_fwd.hpp'):
                r = run(['clang++', '-std=c++' + s, '-w', '-E', '-dD'] + f + inc + ['-x', 'c++', '-include', h, '/dev/null'])
                if r is None or r.returncode: es.append('cannot preprocess ' + h); continue
                live = macros(r.stdout); nm += len(live)
                for k, w in live.items():
                    if re.match('BOOST_CB_|BOOST_CIRCULAR_BUFFER', k): continue
                    vs.setdefault(('m', k), dict(tag='hygiene', msg=('the header removes a macro that is not its own: ' if k[0] == '#' else 'the header leaves a macro defined that is outside its prefixes: ') + k, where=w, function='', entry='macros', unit='hyg', example=h, count=1))
                if not any(re.match('BOOST_CIRCULAR_BUFFER', k) for k in live): es.append('no include guard found in ' + h)
    nf = nv = 0
    for f in HYG_FLAGS[:2]:
        for s in ('11', '17'):
            o = os.path.join(c['scratch'], 'hyg.ll'); r = run(['clang++', '-std=c++' + s, '-w', '-g', '-O0', '-S', '-emit-llvm', '-o', o] + f + inc + [os.path.join(d, 'every.cpp')])
            if r is None or r.returncode:
                if not vs: es.append('every.cpp is not lowered')
                continue
            l, a, b = strong(open(o).read()); nf += a; nv += b
            for kind, fn, line, name in l: vs.setdefault(('s', fn, line), dict(tag='hygiene', msg='the header defines %s "%s" once per translation unit (neither inline nor a template): programs with two do not link' % (kind, name), where=short(fn) + ':' + line, function=name, entry='linkage', unit='hyg', example='c++' + s, count=1))
    return dict(violations=list(vs.values()), errors=es, coverage=dict(hygiene=dict(compilations=len(jobs), headers_preprocessed=8, macros_left_defined=nm, function_definitions_classified=nf, strong_objects=nv)))
