"""Which analyses decide which property: units (driver translation units), entries, reported tags, passes."""
import os, re, json
import passes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNITS = {}
for p in ('p1', 'p2', 'p3'):
    UNITS[p] = dict(src=p + '.cpp', flags=[])
    UNITS[p + 'so'] = dict(src=p + '.cpp', flags=['-DSA_SO'])
    UNITS[p + 'dbg'] = dict(src=p + '.cpp', flags=['-DBOOST_CB_ENABLE_DEBUG=1'])
    UNITS[p + 'sodbg'] = dict(src=p + '.cpp', flags=['-DSA_SO', '-DBOOST_CB_ENABLE_DEBUG=1'])
    UNITS[p + 'ac'] = dict(src=p + '.cpp', flags=['-DSA_AC'])
    UNITS[p + 'soac'] = dict(src=p + '.cpp', flags=['-DSA_AC', '-DSA_SO'])
for p in ('p4', 'p5'):
    UNITS[p] = dict(src=p + '.cpp', flags=['-DBOOST_CB_ENABLE_DEBUG=1'])
    UNITS[p + 'so'] = dict(src=p + '.cpp', flags=['-DSA_SO', '-DBOOST_CB_ENABLE_DEBUG=1'])
UNITS['p6'] = dict(src='p6.cpp', flags=[])
UNITS['p7'] = dict(src='p7.cpp', flags=[])
UNITS['p7so'] = dict(src='p7.cpp', flags=['-DSA_SO'])
FAST = set(open(os.path.join(V, 'tools', 'fast.txt')).read().split())

def cost(u, n):
    c = 1
    if u.startswith('p1so'): c += 3
    if re.match(r'r?insert', n): c += 3
    if re.match(r'r?insert_(n|r)', n): c += 2
    if re.search(r'range|resize|assign_cap', n): c += 1
    return c

# measured (tools/measure.py): seconds per entry by box and by slice
BOXES = json.load(open(os.path.join(V, 'tools', 'boxes.json')))
BUDGET = dict(quick=260, thorough=6000)   # core seconds a check may add to its base analyses
STEPS = (0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1.2, 1.8, 2.5, 3.5, 5, 8)
def best(rows, t):
    ok = [(b, s) for b, s in rows if s <= t]
    return max(ok) if ok else (0, 0)
def plan(P, sel, tier):
    """sel: [(unit, entry)] -> {(unit, entry): (box, slice)}: capacities up to box are analysed exactly; at the larger capacity slice (0: none)
    sizes, offsets, positions and counts are at the ends and the middle of their ranges. The same time limit per entry for all, the largest the budget of the check allows."""
    base = {k: base_box(P, *k, tier) for k in sel}; out = {k: (b, 0) for k, b in base.items()}
    if P.get('fixed_box'): return out
    for t in STEPS:
        cand, cost = {}, 0
        for k in sel:
            m = BOXES.get('%s/%s' % k, {}); (bb, bt), (sb, st) = best(m.get('box', []), t), best(m.get('slice', []), t)
            if bb <= base[k]: bb, bt = base[k], 0
            if sb <= bb: sb, st = 0, 0
            cand[k] = (bb, sb); cost += bt + st
        if cost > BUDGET[tier]: break
        out = cand
    return out
def base_box(P, u, n, tier):
    b = P.get('box', {}).get(tier, 4 if tier == 'quick' else 8)
    b = P.get('unit_box', {}).get(tier, {}).get(u, b)
    for pat, bb in P.get('entry_box', {}).get(tier, []):
        if re.fullmatch(pat, u + '/' + n): return bb
    if u.startswith('p1so') and re.match('r?insert_r1', n) and not P.get('steps'): b = min(b, 3 if tier == 'quick' else 5)
    elif u.startswith('p1so') and re.match('r?insert_(n|r)', n) and tier == 'thorough': b = min(b, 6)
    return b
# tags raised by the analyser itself -> property
BASE = {'lifetime': 'C01', 'lifetime-exc': 'C02', 'leak': 'C01', 'leak-exc': 'C02', 'mem': 'C04', 'bounds': 'C01', 'frozen': 'C15', 'copyrule': 'C19', 'srcmod': 'C19',
        'terminate': 'C06', 'length': 'C26', 'allocator': 'C22', 'assert': 'C23', 'singlepass': 'C20'}
def prop_tag(P, u, n, tag):
    """does a finding with this tag in this entry break the property"""
    if P.get('all_tags'): return tag not in ('C16', 'C32', 'C33')   # complexity is not documented for debug support; C33 has its own check
    if any(tag in t and re.fullmatch(e, n) for e, t in P.get('also', [])): return True
    return tag in P['tags']

ALL = [('p1', '.*'), ('p1so', '.*'), ('p2', '.*'), ('p2so', '.*'), ('p3', '(?!alias).*'), ('p3so', '(?!alias).*')]
def both(u, pat): return [(u, pat), (u + 'so', pat)]
# what makes the result of an operation undefined or the next operation start from a broken state
UB = ['lifetime', 'bounds', 'mem', 'C01', 'C04']
PUSHPOP = '(push|pop)_.*'
INS = 'r?insert.*'
ERA = '(r?erase|clear).*'
CON = '(ctor|assign).*'
CAP = '(r?set_capacity|r?resize).*'
VIEW = '(arrays|linearize|rotate).*'
PROPS = {
 'C01': dict(entries=ALL, tags=['lifetime', 'leak', 'bounds', 'C01'], box=dict(quick=3, thorough=8), rule='typestate of every storage slot and temporary (raw, alive, moved-from) along every path; at every normal return exactly the slots of the sequence are alive'),
 'C02': dict(entries=ALL, tags=['lifetime-exc', 'leak-exc', 'C02'], box=dict(quick=3, thorough=8), rule='every call of an element, iterator or allocator operation that is not noexcept also returns exceptionally; on each such path the invariant, the typestate and the absence of leaks are checked where the exception leaves the operation'),
 'C03': dict(entries=both('p1', 'push_(back|front)_.*') + both('p2', '(r?set_capacity|assign_copy|assign_self|r?resize).*') + both('p3', '(at_range|huge).*'), tags=['C03', 'lifetime-exc', 'C02'], rule='on every exceptional exit of an operation documented as strongly safe each element, its address, the size, the capacity and the storage are the initial ones'),
 'C04': dict(entries=ALL, tags=['mem', 'C04'], box=dict(quick=3, thorough=8), rule='ownership of each block: obtained, released once with its pointer, count and allocator, holding no live element, not used afterwards, not abandoned'),
 'C05': dict(entries=[('p1', '.*'), ('p2', '(arrays|linearize|rotate|assign|r?set_capacity|r?resize).*'), ('p3', '(?!alias).*')], tags=['C05'], rule='no path of an in-place operation calls the allocator; block, capacity unchanged at exit'),
 'C06': dict(entries=ALL, tags=['C06', 'terminate'], box=dict(quick=3, thorough=8), passes=[passes.witness('types.cpp', 'C06', passes.CONF, ('ONLY_NOEXCEPT',))], rule='exceptional edges from every call that may throw: none may reach the exit of an operation documented as no-throw, none may reach std::terminate'),
 'C07': dict(entries=both('p1', PUSHPOP), tags=UB + ['C07', 'C18'], rule='symbolic content of an arbitrary position of the result compared with the documented sequence'),
 'C08': dict(entries=both('p1', INS) + both('p3', 'huge_r?insert.*'), tags=UB + ['C08', 'C18', 'length'], rule='content of an arbitrary position, size and returned position compared with the documented result of inserting n items at p'),
 'C09': dict(entries=both('p1', ERA), tags=UB + ['C09', 'C18'], rule='content of an arbitrary position, size and returned position compared with the documented result of removing [p,q)'),
 'C10': dict(entries=both('p2', CON), tags=UB + ['C10', 'C18'], rule='content of an arbitrary position, size and capacity of the constructed or assigned container, and of the source'),
 'C11': dict(entries=both('p2', CAP), tags=UB + ['C11', 'C18'], rule='content of an arbitrary position, size and capacity after the change'),
 'C12': dict(entries=both('p2', VIEW), tags=UB + ['C12', 'C29', 'C27'], rule='segments returned, contiguity and contents at an arbitrary position; rotation compared index by index'),
 'C13': dict(entries=both('p3', '(access|at_range|sizes).*'), tags=['lifetime', 'bounds', 'mem', 'C13'], rule='the address returned by each access path equals the slot of position i; at() throws exactly outside'),
 'C14': dict(entries=both('p3', '(iter_|access).*'), tags=['lifetime', 'bounds', 'mem', 'C14', 'C13'], rule='each iterator operation from arbitrary positions compared with integer arithmetic on positions'),
 'C15': dict(entries=both('p3', '(const|sizes|compare|access).*') + both('p2', '(ctor_copy|assign_copy|arrays).*'), tags=['frozen', 'C15', 'global'], passes=[passes.ir_query(['global'])], rule='no store reachable from a const operation targets the container, its elements or storage outside the callee; no mutable object of static storage duration is written'),
 'C17': dict(entries=[('p6', 'shrink.*'), ('p1so', '.*'), ('p2so', '.*'), ('p3so', '(sizes|swap|huge).*')], tags=['C17'], entry_box=dict(quick=[('p6/shrinkedge.*', 300)], thorough=[('p6/shrinkedge.*', 1000)]), rule='the bounds between size, internal capacity, minimum and capacity at every exit, normal or exceptional'),
 'C18': dict(entries=[('p1so', '.*'), ('p2so', '.*'), ('p3so', 'huge_r?insert.*')], tags=UB + ['C18'], rule='content of an arbitrary position, size and returned position compared with the result documented for a plain buffer of the full capacity'),
 'C19': dict(entries=both('p1', '.*_[nmtxcyz]') + both('p2', '.*_[nmtxcyz]'), tags=['copyrule', 'srcmod', 'C19'], box=dict(quick=3, thorough=8), rule='for each element operation on an existing element or argument: copied or moved as its type traits require'),
 'C20': dict(entries=both('p1', '.*_r2_.*') + both('p2', '.*_r2_.*'), tags=['singlepass', 'C20', 'C08', 'C10', 'C18'], rule='typestate of the stream behind a single pass iterator: each position read at most once, in order, never after advancing, and the documented elements used'),
 'C21': dict(entries=both('p3', 'alias.*'), all_tags=True, rule='the item argument designates an arbitrary element of the container itself; typestate, block ownership and documented contents'),
 'C25': dict(entries=both('p3', '(compare|swap).*'), tags=UB + ['C25', 'C22', 'C06'], rule='comparison result against the relation of two arbitrary sequences; swap exchanges every field'),
 'C26': dict(entries=both('p3', '(huge|sizes|within).*') + both('p2', '(ctor_cap|assign_cap|set_capacity).*') + both('p1', 'r?insert_(n|r0|r2)_?.*'), tags=['C26', 'length'], also=[('huge_r?insert.*', UB + ['C08', 'C18', 'C01'])], rule='requests over the whole range of the size type: rejected with length_error before memory or state is touched; no allocation smaller than needed'),
 'C27': dict(entries=[('p1', '.*'), ('p2', '(rotate|linearize|r?set_capacity|r?resize).*')], tags=['C27'], rule='address and history (assigned, moved, recreated) of an arbitrary surviving element'),
 'C16': dict(entries=[('p1', '(push|pop)_.*|(clear|erase_begin|erase_end)_i')] + both('p3', '(access|iter_.*|sizes|const|swap)_.*') + both('p2', '(arrays|ctor_move|assign_self)_.*') + [('p2', 'rotate_.*')], tags=['C16'], box=dict(quick=12, thorough=16), steps=True, fixed_box=True, rule='no loop, no allocation and no bulk operation of unbounded length on any path of an operation documented as constant time: a loop is reported when the abstract state still reaches it for more iterations than the constant allows'),
 'C22': dict(entries=[('p1ac', '.*'), ('p1soac', '.*'), ('p2ac', '.*'), ('p2soac', '.*'), ('p3ac', '.*'), ('p3soac', '.*')] + both('p2', '(ctor|assign)_.*') + both('p3', 'swap.*'), tags=['allocator', 'C22', 'bypass'], box=dict(quick=3, thorough=6), passes=[passes.witness('alloc.cpp', 'C22', passes.CONF), passes.ir_query(['bypass'])], rule='elements whose construct and destroy the analyser accepts only from the allocator, for every operation; no use of global allocation functions in the library; every operation well formed for minimal, stateful and fancy-pointer allocators (explicit instantiation)'),
 'C23': dict(entries=[('p4', '.*'), ('p4so', '.*')] + [(u, '(?!alias).*') for u in ('p1dbg', 'p1sodbg', 'p2dbg', 'p2sodbg', 'p3dbg', 'p3sodbg')], all_tags=True, box=dict(quick=2, thorough=4), unit_box=dict(quick=dict(p4=3), thorough=dict(p4=6)), rule='all obligations of the other properties, and that no assertion can fail, on the code as compiled with debug support; for an iterator held across each operation: accepted exactly when it designates a live element or the end, accepted whenever the documentation keeps it valid, registry consistent'),
 'C24': dict(passes=[passes.witness('types.cpp', 'C24', passes.CONF), passes.compile_fail], technique='type-level encoding: static assertions over the interface decided by the type checker, compile-fail programs with positive twins', rule='signatures, conversions, constness, noexcept and instantiability of the interface; each program violating a rule is rejected and its twin accepted', explain='The type checker of clang and gcc decides each obligation; nothing is executed.'),
 'C34': dict(passes=[passes.hygiene], technique='static checks of the headers: type checking of every operation in each language version and configuration, preprocessor state, linkage of every definition in the IR', rule='compiles in each configuration; no macro left defined outside the prefixes; no definition that two translation units would both provide; no name in the global namespace', explain='The compilers, their preprocessor and the IR of the lowered headers decide each obligation; nothing is executed.'),
 'C31': dict(entries=[('p5', '.*'), ('p5so', '.*')], all_tags=True, rule='every call that breaks a documented precondition, from every state, arguments over the whole range of their type: each path ends in an assertion of the library, with no access to dead elements or foreign storage before it'),
 'C28': dict(entries=[('p6', 'am(ort|edge).*')], tags=['C28'], box=dict(quick=7, thorough=12), entry_box=dict(quick=[('p6/amedge.*', 300), ('p6/amort_(push|pop).*_i', 40), ('p6/amort_(push|pop).*', 16)], thorough=[('p6/amedge.*', 1000), ('p6/amort_(push|pop).*_i', 100), ('p6/amort_(push|pop).*', 24)]),
   rule='a potential of the state (never negative, linear in size and internal capacity) pays for every relocation: for each operation from every state, elements relocated + potential after - potential before <= constant; an element neither added nor removed is otherwise not touched'),
 'C32': dict(entries=both('p7', 'work_.*'), tags=['C32'], at_bound=True, box=dict(quick=20, thorough=20), rule='constructions, assignments, destructions, comparisons and loop iterations counted along each path from states of capacity 20 (sizes, item positions and counts at the ends and the middle of their ranges): each at most four times the documented quantity plus eight (iterations: eight times plus 24)'),
 'C33': dict(entries=[(u, '(?!alias).*') for u in ('p1dbg', 'p1sodbg', 'p2dbg', 'p2sodbg', 'p3dbg', 'p3sodbg')], tags=['C33', 'bounds', 'lifetime', 'C01'], box=dict(quick=2, thorough=4), rule='every fill with 0xcc is tracked per slot; at every normal return an arbitrary slot without an element must be filled, and the elements alive'),
 'C29': dict(entries=both('p2', '(linearize|arrays).*'), tags=UB + ['C29', 'C12'], rule='content of an arbitrary position after linearize'),
}
for p in PROPS.values(): p.setdefault('level', 'other')
EXPLAIN = {'*': 'Static analysis of the LLVM IR clang produces from the current headers (nothing is executed): forward abstract interpretation of each public operation from an arbitrary valid container, in a domain of linear inequalities over capacity, size, positions and counts, together with a typestate and content summary of every segment of storage. Entries under decided_for_all_capacities were decided with widened loop invariants for every capacity, size, position and count; every entry was also analysed with loops partitioned by iteration for all states up to the given capacity.'}
ASSUME = ['clang 18 lowers the source to the IR that is analysed', 'element models: copy only, nothrow move, throwing move (also only its constructor, or only its assignment), move only, scalar; the library treats all types of a class alike', 'analyser (engine/) and drivers (drivers/) are trusted', 'destructors and deallocation do not throw']
NOT_APPLICABLE = {
 'C30': 'the bounded buffer is example code whose guarantee depends on thread schedules, condition variable wake-ups and fairness of the scheduler; no static argument in reach bounds them',
}
