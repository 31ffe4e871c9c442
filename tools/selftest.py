#!/usr/bin/env python3
"""Tests of the machinery itself (not a check; its results are quoted in DESIGN.md).

  selftest.py specs    changes the specifications one place at a time; TLC must refute every changed one
  selftest.py traces   falsifies recorded executions one observation at a time; the trace specifications must
                       report every falsified one (and none of the genuine ones)
"""
import json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *
import bulk_scripts, low_scripts, plan, scripts

SPECS = [
    # what goes wrong in the implementation-shaped machine
    ('EcsImpl', 'EcsImplQ', '(@.ver + 1) % VMod', '@.ver', 'a freed slot keeps its version'),
    ('EcsImpl', 'EcsImplQ', "slots' = Repoint(slots, a, i)", "slots' = slots", 'the moved row keeps its old position in the table'),
    ('EcsImpl', 'EcsImplQ', '[Repoint(slots, a, i) EXCEPT', '[slots EXCEPT', 'the same when an entity changes sets'),
    ('EcsImpl', 'EcsImplQ', 'IF archs[m[i].a].ks = ks THEN <<TRUE, i>> ELSE Scan(m, i + 1, ks)', '<<TRUE, i>>',
     'sets are found by identifier alone (repaired defect 330a442)'),
    ('EcsImpl', 'EcsImplB', 'IF free = NIL THEN NIL ELSE Entry(i).row', 'NIL', 'the free list is forgotten'),
    ('EcsImpl', 'EcsImplQ', 'IF free = NIL THEN Append(slots, ent)', 'IF free = NIL \\/ TRUE THEN Append(slots, ent)',
     'a reused slot is appended'),
    ('EcsImpl', 'EcsImplQ', 'IF @ = 0 THEN InitCap ELSE Grown(@)', '@', 'storage is not grown'),
    ('EcsImpl', 'EcsImplQ', 'Grown(cap) == cap + MinOf(cap, MaxEnt - cap)', 'Grown(cap) == 2 * cap + 1', 'storage grows beyond the limit'),
    ('EcsImpl', 'EcsImplQ', 'IF n < Len(g) THEN << >>', 'IF n <= Len(g) THEN << >>', 'iteration starts one size too high'),
    ('EcsImpl', 'EcsImplQ', 'Len(g) /= Cardinality(archs[a].ks) \\/ ~(Range(g) \\subseteq archs[a].ks)', '~(Range(g) \\subseteq archs[a].ks)',
     'entities are taken out with a part of their components (repaired defect 8378476)'),
    ('EcsImpl', 'EcsImplC', 'k \\in A.ks \\/ Cardinality(A.ks) = MaxComp', 'k \\in A.ks', 'the limit of components is not checked'),
    ('EcsImpl', 'EcsImplQ', 'k \\notin A.ks \\/ Cardinality(A.ks) = 1', 'k \\notin A.ks', 'the last component can be taken'),
    ('EcsImpl', 'EcsImplQ', "/\\ Bombs /\\ op.st = \"drop\" /\\ op.todo /= {}\n    /\\ LET p == CHOOSE p \\in op.todo : \\A q \\in op.todo : p[1] <= q[1] IN\n       ev'",
     "/\\ Bombs /\\ op.st \\in {\"free\", \"shrink\"}\n    /\\ LET p == CHOOSE p \\in Pairs(archs[op.a].rows[Len(archs[op.a].rows)]) : TRUE IN\n       ev'",
     'destructors run before the bookkeeping (repaired defect eaedc0c)'),
    ('EcsImpl', 'EcsImplQ', '(free = NIL /\\ Len(slots) >= MaxEnt)', 'Len(slots) >= MaxEnt', 'free slots are not reused at the limit (repaired defect e37adb1)'),
    ('EcsImpl', 'EcsImplQ', 'C!Repeats(g) \\/ ~(Range(g) \\subseteq archs[a].ks) THEN no\n             ELSE /\\ archs', '~(Range(g) \\subseteq archs[a].ks) THEN no\n             ELSE /\\ archs',
     'writing through a group that repeats a kind (repaired defect 6ce982e)', 'EcsImplC'),
    # the contract
    ('EcsCore', 'EcsQ1', 'KindsOf(S.live[h]) = Range(g)', 'Range(g) \\subseteq KindsOf(S.live[h])', 'removal by a part', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', '/\\ h[2] \\notin Range(Issued(S, h[1]))', '', 'handles may repeat'),
    ('EcsCore', 'EcsQ1', '/\\ \\A x \\in DOMAIN S.live : x[1] /= h[1]', '', 'two live entities in a slot'),
    ('EcsCore', 'EcsQ1', 'k \\notin KindsOf(S.live[h]) /\\ Cardinality(S.live[h]) < MaxComp', 'Cardinality(S.live[h]) < MaxComp', 'adding a component twice', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', '/\\ k \\in KindsOf(S.live[h]) /\\ Cardinality(S.live[h]) > 1', '/\\ k \\in KindsOf(S.live[h])', 'taking the last component'),
    ('EcsCore', 'EcsQ1', 'gs \\subseteq ks /\\ Satisfies(ks, p)', 'Satisfies(ks, p)', 'filters beyond matching', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', '[] mode = "exact" -> gs = ks', '[] mode = "exact" -> gs \\subseteq ks', 'exact is matching', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', 'Put(c, k, v) == {p \\in c : p[1] /= k} \\cup {<<k, v>>}', 'Put(c, k, v) == {<<k, v>>}', 'adding replaces', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', 'IF ~ValidGroup(g) THEN {}', 'IF FALSE THEN {}', 'repeated kinds are ignored by queries', 'EcsQ2'),
    ('EcsCore', 'EcsQ1', 'THEN {IF p[1] \\in Range(g) THEN', 'THEN {IF TRUE THEN', 'an iteration changes components outside its group', 'EcsQ3'),
    ('EcsCore', 'EcsQ1', 'IF h \\in hs\n            THEN {IF p[1]', 'IF TRUE\n            THEN {IF p[1]', 'an iteration changes entities it does not reach', 'EcsQ2'),
    # iterators
    ('Iter', 'IterQ', 'lev |-> lev, idx |-> idx + 1, at |-> s]\n         ELSE Seek', 'lev |-> lev, idx |-> idx, at |-> s]\n         ELSE Seek', 'the cursor does not advance past what it yielded'),
    ('Iter', 'IterQ', '[lev |-> Cardinality(g), idx |-> 1', '[lev |-> Cardinality(g) + 1, idx |-> 1', 'the walk starts one size too high'),
    ('Iter', 'IterQ', 'Seek(c, lev + 1, 1)', 'Seek(c, lev + 1, idx)', 'the position is kept when the level changes'),
    ('Iter', 'IterQ', 'ELSE IF s \\in c.p THEN', 'ELSE IF TRUE THEN', 'the predicate is not asked'),
    ('Iter', 'IterQ', 'IF lev > Max THEN [hit |-> FALSE, bang |-> FALSE, lev |-> lev', 'IF lev > Max THEN [hit |-> FALSE, bang |-> FALSE, lev |-> 1', 'an ended iterator starts again'),
    ('Iter', 'IterQ', 'Open(j) => ~mut /\\ ~it[j].mut', 'Open(j) => ~mut', 'reading while another iterator changes'),
    ('Iter', 'IterQ', 'THEN [val EXCEPT ![r.at] = (@ + 1) % 2]', 'THEN [s \\in InUse |-> 1]', 'values of other sets change'),
    # memory
    ('Oom', 'Oom', '![s].rows = << >>, ![s].cap = 0]', '![s].rows = @]', 'the count and the capacity are kept while storage grows'),
    ('Oom', 'Oom', '![s].rows = << >>, ![s].cap = 0]', '![s].rows = << >>]', 'the capacity is kept while storage grows'),
    ('Oom', 'Oom', '/\\ ph\' = [at |-> "panicked"]', '/\\ ph\' = IF ph.col = 0 THEN [at |-> "panicked"] ELSE IF ph.col < Last(ph.s) THEN [ph EXCEPT !.col = @ + 1] ELSE Calm', 'only the first refusal is noticed'),
    ('Oom', 'Oom', "/\\ drops' = Counted(drops, ph.vs)\n", "/\\ drops' = Counted(Counted(drops, ph.vs), {v \\in ph.vs : v[2] = 2})\n", 'a value is dropped by the call and by its caller'),
    ('Mem', 'Mem', 'IF free > 0 THEN', 'IF free > 1 THEN', 'the last free slot is not used'),
    ('Mem', 'Mem', 'IF Find(ix, s) /= {} THEN ix ELSE', 'IF Find(ix, s) /= {} /\\ Rows(s) > 0 THEN ix ELSE', 'a set that has become empty is created again'),
    ('Mem', 'Mem', 'IF @[2] = @[3] THEN Grown(@[3])', 'IF @[2] = @[3] \\/ @[2] = 0 THEN Grown(@[3])', 'storage grows whenever a set is entered anew'),
    ('Mem', 'Mem', 'Grown(cap) == IF cap = 0 THEN First ELSE 2 * cap', 'Grown(cap) == IF cap = 0 THEN First ELSE 4 * cap', 'storage grows fourfold'),
    # several registries
    ('EcsPar', 'EcsParQ', 'Cardinality(Handles(world[r])) < MaxEnt ELSE', 'SumCard(Regs) < MaxEnt ELSE', 'the limit of entities is shared by all registries'),
    ('EcsPar', 'EcsParQ', '(Writes(op) \\/ Writes(busy[u][2]))', 'Writes(op) /\\ Writes(busy[u][2])', 'reading is allowed during a changing call'),
    ('EcsPar', 'EcsParQ', '![c[1]] = Effect(@, c[2], c[3], c[4], c[5], c[6])]\n       /\\ apart', '![CHOOSE r \\in Regs : TRUE] = Effect(@, c[2], c[3], c[4], c[5], c[6])]\n       /\\ apart', 'an effect on another registry'),
    # counting
    ('LimitsCore', 'LimitsQ', 'IF n > 0 /\\ FillOk(S, ks, m) > 0 THEN Use', 'IF n > 0 THEN Use', 'creating nobody puts a set in use'),
    ('LimitsCore', 'LimitsQ', 'm) + 1', 'm)', 'the first member of a family is not counted'),
    ('LimitsCore', 'LimitsQ', '(x - off + stride - 1) \\div stride', '(x - off) \\div stride', 'positions are rounded down'),
    ('LimitsCore', 'LimitsQ', 'MinN(n, MaxEnt - Live(S))', 'n', 'no limit of entities'),
    ('LimitsCore', 'LimitsQ', 'SetCount(S) < MaxSets', 'SetCount(S) <= MaxSets', 'one component set too many'),
    ('LimitsCore', 'LimitsQ', '!.ex = @ \\cup FlipSets(S, k)', '!.ex = @', 'entities changed back leave no set in use'),
    ('LimitsCore', 'LimitsQ', '2 * (FlipCohorts(S) - 1)', '2 * FlipCohorts(S)', 'an entity is paired with itself'),
    ('LimitsCore', 'LimitsQ', '1 + WalkRoom(S)', 'WalkRoom(S)', 'the walk stops one early'),
    # the small machines
    ('Rows', 'Rows', 'IF i = n[s] - 1 THEN <<col[s], ent[s], 0>>', 'IF i = n[s] - 1 THEN <<col[s], ent[s], 1>>', 'relocation is misreported'),
    ('Rows', 'Rows', 'IF k \\in common THEN col[s][k][i] ELSE Val(k, next)]]]\n', 'IF k \\in common THEN col[s][k][n[s] - 1] ELSE Val(k, next)]]]\n', 'another row is moved'),
    ('Rows', 'Rows', 'held\' = held \\cup {col[s][k][i] : k \\in Columns[s] \\ common}', 'UNCHANGED held', 'values left behind by a move vanish', None),
    ('Rows', 'Rows', 'ELSE cap[s] + Min(cap[s], Max - cap[s])', 'ELSE 2 * cap[s]', 'capacity beyond the limit'),
    ('Desc', 'Desc', 'IF a[m] = k THEN <<TRUE, m>> ELSE IF a[m] < k', 'IF a[m] = k THEN <<TRUE, m>> ELSE IF a[m] > k', 'search goes the wrong way'),
    ('Desc', 'Desc', 'IF i < n THEN a[i + 1] ELSE IF i = n THEN Pad', 'IF i < n THEN a[i + 1] ELSE IF FALSE THEN Pad', 'the freed position is not cleared'),
    ('Desc', 'Desc', 'Inc(a, n, b, m, i + 1, 1)', 'Inc(a, n, b, m, i + 1, j + 2)', 'inclusion skips'),
    ('Pack', 'Pack', 'ep + r * ABase - EntryRow(ep) * ABase', 'ep + r * ABase', 'a field is added to, not set'),
    ('PackCore', 'Pack', 'SetVersion(n, v) == UnpackIndex(n) * VBase + v', 'SetVersion(n, v) == n + v', 'the version is added'),
]


def specs():
    bad = 0
    only = sys.argv[2:]
    base = vlib.SPEC
    root = {'EcsCore': 'Ecs', 'LimitsCore': 'Limits', 'PackCore': 'Pack'}
    for row in SPECS:
        mod, cfg, old, new, what = row[:5]
        if only and not any(o in mod + ' ' + what for o in only):
            continue
        cfgs = [cfg] + [x for x in row[5:] if x]
        d = os.path.join(WORK, 'spec')
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, d)
        p = os.path.join(d, mod + '.tla')
        s = open(p).read()
        if old not in s:
            print('STALE   ', mod, what)
            bad += 1
            continue
        open(p, 'w').write(s.replace(old, new, 1))
        vlib.SPEC = d
        got = 'NOT REFUTED'
        for c in cfgs:
            out, ok = tlc(root.get(mod, mod), c, workers=4, heap='6g')
            if not ok:
                m = re.search(r'(Invariant \w+ is violated|Action property .*? is violated|.*property.*violated|Error: .*)', out)
                got = 'refuted (%s: %s)' % (c, m.group(1)[:70] if m else '?')
                break
        vlib.SPEC = base
        bad += got == 'NOT REFUTED'
        print('%-11s %-62s %s' % (mod, what, got), flush=True)
    return bad


def falsify(r, e):
    """Yields (what, falsified event) for one event of an EcsTrace trace."""
    def c(**k):
        x = json.loads(json.dumps(e))
        x.update(k)
        return x
    if e['op'] in ('new', 'endbranch'):
        gone.clear()
    if e.get('oom') == 1:
        gone.add(e['r'])
        yield 'not noticed', c(panic=0)
        yield 'refused: fault', c(faults=['redzone'])
        yield 'refused: drops', c(drops=[[1, 999]])
        return
    if e.get('ok') in (0, 1) and e['op'] in ('create', 'destroy', 'remove', 'add', 'rmc', 'has', 'hasg', 'get', 'getg', 'getm', 'getgm'):
        x = c(ok=1 - e['ok'])
        if e['op'] == 'create' and e['ok'] == 0:
            x['h'] = [9, 9]
        yield 'ok', x
    if e.get('back'):
        yield 'back', c(back=[e['back'][0] + 1] + e['back'][1:])
    if e.get('got'):
        yield 'got', c(got=[e['got'][0] + 1] + e['got'][1:])
    if e.get('drops'):
        if e['r'] not in gone and (e['op'] not in ('bomb', 'bombdrop') or e['drops'][0] == e.get('bomb')):     # (other values may leak when one destructor panics)
            yield 'drops-', c(drops=e['drops'][1:])
        yield 'drops+', c(drops=e['drops'] + [e['drops'][0]])
    if e.get('snap'):
        i = r.randrange(len(e['snap']))
        s = json.loads(json.dumps(e['snap']))
        h, ps = s[i]
        if ps:
            yield 'snap value', c(snap=s[:i] + [[h, [[ps[0][0], ps[0][1] + 1]] + ps[1:]]] + s[i + 1:])
            yield 'snap component missing', c(snap=s[:i] + [[h, ps[1:]]] + s[i + 1:])
        yield 'snap entity missing', c(snap=s[:i] + s[i + 1:])
        yield 'snap entity twice', c(snap=s + [s[i]])
        yield 'snap unknown entity', c(snap=s + [[[999, 3], ps]])
    if e.get('rows'):
        s = e['rows']
        if e['op'] != 'part':
            yield 'row missing', c(rows=s[1:])
        yield 'row twice', c(rows=s + [s[-1]])
        yield 'row value', c(rows=[[s[0][0], [s[0][1][0] + 1] + s[0][1][1:]]] + s[1:])
        if s[0][0]:
            yield 'row handle', c(rows=[[[s[0][0][0] + 1000, 0], s[0][1]]] + s[1:])
    if e['op'] == 'iter':
        yield 'ragged', c(ragged=1)
    if e['op'] == 'part' and e.get('banged') == 0 and e.get('ended') == 1 and e.get('rows'):
        yield 'part: ended without a row', c(rows=e['rows'][1:])
    if e['op'] == 'part' and e['pred'][0] != 'bang':
        yield 'part: panicked', c(banged=1)
    if e.get('es'):
        yield 'enumeration', c(es=e['es'][1:])
    if e['op'] == 'create' and e['ok'] == 1 and e['r'] in last:
        yield 'handle of a live entity', c(h=last[e['r']])
    if 'faults' in e:
        yield 'fault', c(faults=['redzone'])
        yield 'panic', c(panic=1)


last = {}
gone = set()

# What the events of the other trace specifications observed (the rest of an event says what was asked).
SEEN = {
    'LimitsTrace': ('okn', 'okd', 'dup', 'bad', 'alive', 'rows', 'en', 'enbad', 'refused', 'visited', 'drops', 'dr', 'faults', 'panic', 'mem'),
    'PackTrace': ('f', 'raw', 'valid', 'again', 'same', 'some', 'v', 'bytes', 'eq', 'ne', 'b', 'bad', 'panic'),
    'TableTrace': ('can', 'ok', 'e', 'snap', 'en', 'en2', 'panic', 'n', 'bad'),
    'IndexTrace': ('got', 'gotm', 'same', 'panic'),
    'RowsTrace': ('row', 'flag', 'got', 'cols', 'same', 'st', 'drops', 'faults', 'reff', 'live', 'panic', 'old', 'gone'),
    'DescTrace': ('got', 'has', 'some', 'sub', 'exc', 'gvalid', 'glen', 'u2s', 's2u', 'ok', 'src', 'panic'),
    'NamesTrace': ('id', 'did', 'now', 'hid', 'shape', 'life', 'hlife', 'h32', 'h64', 'h16', 'str', 'panic'),
}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from leaves(x[k], path + (k,))
        if x:
            yield path + ('cut',)
    elif isinstance(x, int):
        yield path


def falsify_any(r, e, fields):
    for f in fields:
        if f not in e:
            continue
        for path in r.sample(sorted(leaves(e[f]), key=str), min(3, len(list(leaves(e[f]))))):
            if e['op'] == 'all' and path and path[-1] == 'cut':
                continue
            if f == 'snap' and (len(path) < 2 or path[1] != 1 or path[-1] == 'cut') or f in ('v', 'got') and e.get('some') == 0 or f in ('glen', 'got') and e.get('gvalid') == 0:
                continue        # (which handles were looked up is no observation)
            if f == 'st' and (len(path) < 2 or path[1] in ('r', 'full_seen')) or f == 'live' and e['op'] != 'adrop':
                continue
            x = json.loads(json.dumps(e))
            o, k = x, f
            for q in path:
                if q == 'cut':
                    break
                o, k = o[k], q
            if path and path[-1] == 'cut':
                o[k] = o[k][1:]
            elif f == 'mem':
                o[k] += 1 << 30
            elif e[f] in (0, 1) and f != 'drops':
                o[k] = 1 - o[k]
            else:
                o[k] += 1
            yield f + (' shorter' if path and path[-1] == 'cut' else ''), x
        if f in ('faults', 'reff'):
            yield f, dict(e, **{f: ['redzone']})


def traces_of(spec, ev, gen, r, cfg=None):
    """Falsifies up to two events of each sort in the recorded events; returns those not reported."""
    out, ok = tlc(spec, cfg, env={'TRACE': dump(ev)})
    assert verdict(out) == set(), (spec, verdict(out), out[-2000:])
    kinds, missed, total, jobs = {}, 0, 0, []
    last.clear()
    for i, e in enumerate(ev):
        if e['op'] in ('header', 'reset'):
            continue
        for what, x in gen(r, e):
            kinds.setdefault((e['op'], what), []).append((i, x))
        if 'h' in e and e['op'] == 'create' and e.get('ok') == 1:
            last[e['r']] = e['h']
        elif e['op'] in ('destroy', 'remove', 'bomb', 'drop'):
            last.pop(e['r'], None)

    def one(k, i, x):
        # only the history the event belongs to
        a = max(j for j in range(i + 1) if ev[j]['op'] == 'reset')
        f = dump([ev[0]] + ev[a:i] + [x])
        out, ok = tlc(spec, cfg, env={'TRACE': f})
        v = verdict(out)
        os.unlink(f)
        return k, i, x, v if v is not None else partial_verdict(out)
    with ThreadPoolExecutor(8) as p:
        for k, l in sorted(kinds.items()):
            for i, x in r.sample(l, min(2, len(l))):
                jobs.append(p.submit(one, k, i, x))
    for j in jobs:
        k, i, x, v = j.result()
        total += 1
        if not v:
            missed += 1
            print('NOT REPORTED', spec, k, json.dumps(ev[i])[:300], '->', json.dumps(x)[:300])
    print('%s: %d falsified, %d not reported' % (spec, total, missed), flush=True)
    return total, missed


_dumps = [0]


def dump(ev):
    _dumps[0] += 1
    f = os.path.join(WORK, 'f%d.ndjson' % _dumps[0])
    open(f, 'w').write('\n'.join(json.dumps(y) for y in ev) + '\n')
    return f


def recorded(b, text):
    sf, ef = os.path.join(WORK, 's.txt'), os.path.join(WORK, 'e.ndjson')
    open(sf, 'w').write(text)
    run_harness(b, sf, ef, os.path.join(WORK, 'i'), timeout=600)
    return [json.loads(x) for x in open(ef)]


def traces():
    only = sys.argv[2:]
    r = random.Random(5)
    total = missed = 0
    def add(x):
        nonlocal total, missed
        total, missed = total + x[0], missed + x[1]
    if not only or 'EcsTrace' in only:
        b = build('harness', 'dev')
        for prof in ('oom', 'mix', 'multi', 'bomb', 'iter', 'part'):
            add(traces_of('EcsTrace', recorded(b, scripts.script(prof, 'selftest', 30 if prof == 'oom' else 300)), falsify, r))
    if not only or 'LimitsTrace' in only:
        b = build(*plan.BULK_BIN)
        for name in ('race', 'sets-some', 'populated', 'churn', 'memory'):
            add(traces_of('LimitsTrace', recorded(b, bulk_scripts.one(name, random.Random(5))),
                          lambda r, e: falsify_any(r, e, SEEN['LimitsTrace']), r))
    for c, spec in sorted(plan.LOW_SPEC.items()):
        if only and spec not in only:
            continue
        b = build('crates/' + c, 'dev')
        for name, text in getattr(low_scripts, c + '_scripts')('C00', 5, False)[:2]:
            add(traces_of(spec, recorded(b, text), lambda r, e: falsify_any(r, e, SEEN[spec]), r))
    print('%d falsified traces, %d not reported' % (total, missed))
    return missed


if __name__ == '__main__':
    setup_work()
    try:
        sys.exit(1 if (specs if sys.argv[1] == 'specs' else traces)() else 0)
    finally:
        clean_work()
