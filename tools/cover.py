"""Turns the transitions of EcsImpl (printed by TLC) into scripts that take every one of them in the real code."""
import re, random
from collections import deque
import scripts
EDGE = re.compile(r'<<"EDGE", (-?\d+), "(\w+)", (-?\d+), (TRUE|FALSE), <<([\d, ]*)>>, (TRUE|FALSE), (-?\d+)>>')


def parse(out):
    g, n = {}, 0
    first = None
    seen = set()
    for m in EDGE.finditer(out):
        a, op, slot, live, ks, ok, b = m.groups()
        e = (op, int(slot), live == 'TRUE', tuple(int(x) for x in ks.split(',')) if ks.strip() else (), ok == 'TRUE')
        a, b = int(a), int(b)
        if first is None:
            first = a
        # At the bound of the model's slot table the library does not refuse.
        if op == 'create' and not e[4] and len(set(e[3])) == len(e[3]):
            continue
        if (a, e, b) in seen:
            continue
        seen.add((a, e, b))
        g.setdefault(a, []).append((e, b))
        g.setdefault(b, [])
    return first, g


def orders(kinds):
    """The compiled groups over the given kinds."""
    ks = set(kinds)
    return {x for x in scripts.GROUPS if set(x) <= ks}


def maps(n):
    """Assignments of real component kinds to the model's for which every group of the model is compiled."""
    import itertools
    res = []
    for c in itertools.combinations(range(1, 34), n):
        o = orders(c)
        sets = [frozenset(s) for i in range(1, n + 1) for s in itertools.combinations(c, i)]
        if all(any(set(x) == s and len(x) == len(s) for x in o) for s in sets):
            res += list(itertools.permutations(c))
    return res


def walks(first, g, maxlen):
    """Walks from the initial state that together take every edge."""
    todo = {a: list(range(len(es))) for a, es in g.items() if es}
    left = sum(len(v) for v in todo.values())
    res = []
    while left:
        cur, walk = first, []
        while len(walk) < maxlen:
            if todo.get(cur):
                # self-loops first: they cost nothing
                i = next((i for i in todo[cur] if g[cur][i][1] == cur), None)
                if i is None:
                    i = todo[cur][-1]
                todo[cur].remove(i)
                left -= 1
                e, cur2 = g[cur][i]
                walk.append((cur, e, cur2))
                cur = cur2
                continue
            # nearest state with something to do
            prev = {cur: None}
            dq = deque([cur])
            hit = None
            while dq:
                x = dq.popleft()
                if todo.get(x):
                    hit = x
                    break
                for i, (e, y) in enumerate(g[x]):
                    if y not in prev:
                        prev[y] = (x, i)
                        dq.append(y)
            if hit is None:
                break
            path = []
            x = hit
            while prev[x]:
                p, i = prev[x]
                path.append((p, i))
                x = p
            for p, i in reversed(path):
                e, y = g[p][i]
                walk.append((p, e, y))
            cur = hit
        if not walk:
            break
        res.append(walk)
    return res


def script_of(walk, rng, kmap, nonce):
    """One history.  Labels name entities by creation; slots are only the model's names for them."""
    out = ['reset', 'new 0']
    label, last, toks, groups = {}, {}, {}, {}
    n = 0
    tokc = nonce * 7919 % 1000
    seen = set()

    def tok(k):
        nonlocal tokc
        d = scripts.DOM[k]
        tokc += 1
        return rng.randrange(d) if d <= 2048 else tokc

    def grp(ms):
        ks = tuple(kmap[k - 1] for k in ms)
        if ks in have:
            return ks
        if len(set(ks)) != len(ks):
            return next((x for x in have if len(set(x)) != len(x) and set(x) <= set(kmap)), None)
        return next(x for x in have if set(x) == set(ks) and len(x) == len(ks))
    have = orders(kmap)
    for a, (op, slot, alive, ms, ok), b in walk:
        if op == 'step':
            continue
        if op == 'create':
            g = grp(ms)
            if g is None:
                continue
            t = [tok(k) for k in g]
            n += 1
            l = 'e%d' % n
            out.append('create 0 %s %s %s' % (l, scripts.gs(g), scripts.gs(t)))
            if ok:
                label[slot] = l
                toks[l] = dict(zip(g, t))
        else:
            h = label.get(slot) if alive else last.get(slot)
            if h is None:
                if alive:
                    return out + ['drop 0']     # two states with one fingerprint: stop here
                h = '%s+255' % label[slot] if slot in label else '#%d.255' % slot
            if op == 'destroy':
                out.append('destroy 0 ' + h)
            elif op == 'bomb':
                k = kmap[ms[0] - 1]
                out.append('bomb 0 %s %d %d' % (h, k, toks[h].get(k, 0)))
            elif op == 'remove':
                g = grp(ms)
                if g is None:
                    continue
                out.append('remove 0 %s %s' % (h, scripts.gs(g)))
            elif op == 'add':
                k = kmap[ms[0] - 1]
                t = tok(k)
                out.append('add 0 %s %d %d' % (h, k, t))
                if ok:
                    toks[h][k] = t
            elif op == 'take':
                k = kmap[ms[0] - 1]
                out.append('rmc 0 %s %d' % (h, k))
                if ok:
                    toks[h].pop(k, None)
            if ok and op in ('destroy', 'bomb', 'remove'):
                last[slot] = label.pop(slot, None)
        if b not in seen:
            seen.add(b)
            x = rng.random()
            gg = rng.choice(sorted(have))
            if x < 0.5:
                out.append('iter 0 %s %d %d %s %s' % (rng.choice(['match', 'exact']), rng.randrange(2), 0, scripts.gs(gg), 'none'))
            elif x < 0.6:
                out.append('iter 0 filt 1 0 %s lacks:%d' % (scripts.gs(gg), rng.choice(kmap)))
            elif x < 0.7:
                out.append('ents 0')
    out.append('drop 0')
    return out


def make(out, seed, nscripts, nkinds, maxlen=400, limit=None):
    """Scripts covering the printed transitions; (scripts, states, edges, walks)."""
    first, g = parse(out)
    rng = random.Random('cover/%s' % seed)
    for es in g.values():
        rng.shuffle(es)
    ws = walks(first, g, maxlen)
    edges = sum(len(v) for v in g.values())
    if limit is not None and len(ws) > limit:
        ws = rng.sample(ws, limit)
    ms = maps(nkinds)
    res = [[] for _ in range(nscripts)]
    for i, w in enumerate(ws):
        res[i % nscripts] += script_of(w, rng, rng.choice(ms), i)
    return ['\n'.join(r) + '\n' for r in res if r], len(g), edges, len(ws)


if __name__ == '__main__':
    import sys
    s, a, b, c = make(open(sys.argv[1]).read(), 1, 8, int(sys.argv[2]))
    print(a, b, c, [len(x.split('\n')) for x in s])
    open('/tmp/cov_s.txt', 'w').write(s[0])
