"""Scripts for the small harnesses (crates/): the public low-level modules used directly."""
import random

IB, VB, AB = 1 << 24, 256, 1 << 16


def pick(r, n):
    """A number below n, with a preference for bit patterns that matter."""
    x = r.randrange(6)
    b = n.bit_length() - 1
    if x == 0:
        return r.choice([0, 1, n - 1, n - 2, n // 2, n // 2 - 1])
    if x == 1:
        return (1 << r.randrange(b)) % n
    if x == 2:
        return ((n - 1) ^ (1 << r.randrange(b))) % n
    if x == 3:
        return (0xFF << r.choice([0, 4, 8, 12, 16])) % n
    return r.randrange(n)


def pack(r, n, sweeps):
    L = ['reset']
    for _ in range(n):
        k = r.randrange(8)
        x = r.randrange(14)
        if x == 0:
            L.append('enew %d %d %d' % (k, pick(r, IB), pick(r, VB)))
        elif x == 1:
            L.append('einv %d %d' % (k, r.randrange(3)))
        elif x == 2:
            L.append('eidx %d %d' % (k, pick(r, IB)))
        elif x == 3:
            L.append('ever %d %d' % (k, pick(r, VB)))
        elif x == 4:
            L.append('eraw %d %d %d' % (k, pick(r, AB), pick(r, AB)))
        elif x == 5:
            L.append('eeq %d %d' % (k, r.randrange(8)))
        elif x == 6:
            L.append('tver %d %d' % (k, pick(r, VB)))
        elif x == 7:
            L.append('trow %d %d' % (k, pick(r, IB - 1)))
        elif x == 8:
            L.append('tarch %d %d' % (k, pick(r, AB)))
        elif x == 9:
            L.append('tinv %d %d' % (k, pick(r, IB)))
        elif x == 10:
            L.append('iia %d %d' % (r.choice([0, 1, 127, 128, 254, 255, 255, 255, 256, 257, 511, 65535]), pick(r, AB)))
        elif x == 11:
            L.append('iiab %d %d %d' % (pick(r, VB), pick(r, VB), pick(r, VB)))
        elif x == 12:
            L.append(r.choice(['iiad', 'tnew %d' % k]))
        else:
            L.append('ai %d' % pick(r, AB))
    for k in (0, 1, 2):
        L.append('einv %d %d' % (k, k))
    L += ['enew 3 16777215 255', 'eeq 0 3', 'enew 3 16777215 254', 'eeq 3 0', 'enew 4 16777214 255', 'eeq 4 0', 'enew 5 0 0',
          'enew 6 0 255', 'iia 255 65535', 'iia 255 65534', 'iia 256 0', 'iia 256 7', 'iia 0 0', 'ai 65535', 'ai 65534', 'ai 0']
    for v in sweeps:
        L.append('esweep 0 %d %d' % (IB, v))
    for v in sweeps[:max(2, len(sweeps) // 8)]:
        L.append('tsweep 0 %d %d %d' % (IB - 1, v, pick(r, AB)))
        L.append('asweep %d %d' % (pick(r, IB - 1), v))
    # every version and every bit of index and storage number
    for b in range(24):
        L.append('esweep %d %d %d' % (1 << b, (1 << b) + 1, r.randrange(256)))
        L.append('asweep %d %d' % (1 << b, r.randrange(256)))
    for v in range(256):
        L.append('esweep %d %d %d' % (IB - 300, IB, v))
        L.append('tsweep %d %d %d %d' % (IB - 300, IB - 1, v, pick(r, AB)))
    return '\n'.join(L) + '\n'


def pack_scripts(prop, seed, thorough):
    R = lambda x: random.Random('%s/%s/%s' % (prop, seed, x))
    if not thorough:
        return [('pack', pack(R(0), 3000, [0, 1, 2, 127, 128, 254, 255, R(9).randrange(256)]))]
    vs = list(range(256))
    return [('pack%d' % i, pack(R(i), 8000, vs[i * 32:(i + 1) * 32])) for i in range(8)]


def table(r, n, pop):
    L = ['reset']
    cnt = [0, 0]
    for _ in range(n):
        t = 0 if r.randrange(4) else 1
        x = r.randrange(12)
        h = 'h%d' % r.choice([0, max(0, cnt[t] - 1), max(0, cnt[t] - 1 - r.randrange(pop)), r.randrange(cnt[t] + 1)])
        if r.randrange(10) == 0:
            h += '+'
        elif r.randrange(12) == 0:
            h = '%d.%d' % (r.choice([0, 1, 2, 3, pop, IB - 1, IB - 2, 65536]), r.choice([0, 1, 2, 255, r.randrange(256)]))
        loc = '%d %d' % (pick(r, IB - 1), pick(r, AB - 1))
        if x < 4:
            L.append('create %d %s' % (t, loc))
            cnt[t] += 1
        elif x < 8:
            L.append('destroy %d %s' % (t, h))
        elif x < 10:
            L.append('set %d %s %s %d' % (t, h, loc, r.randrange(1, 4)))
        else:
            L.append('look %d %s' % (t, h))
    # one slot through more than all its versions
    L += ['reset']
    for i in range(270):
        L += ['create 0 %d %d' % (i, 65534 - i), 'destroy 0 h%d' % i]
        if i % 7 == 0 or i in (254, 255, 256):
            L += [r.choice(['destroy 0 h%d+', 'destroy 0 h%d+', 'set 0 h%d+ 3 4 3', 'look 0 h%d+']) % i]
        if i in (255, 256, 257, 269):
            L += ['destroy 0 h%d+' % i, 'set 0 h%d+ 3 4 3' % i, 'destroy 0 h%d' % (i - 255)]
        if i % 40 == 0:
            L += ['destroy 0 h%d' % i, 'create 1 %d %d' % (i, i)]
    return '\n'.join(L) + '\n'


def table_limit():
    return '\n'.join(['reset', 'fill 0 %d' % (IB + 5), 'mdestroy 0 200005 %d 70001' % IB, 'fill 0 100', 'mdestroy 0 1 100000 3',
                      'fill 0 20000', 'fill 0 100000']) + '\n'


def table_scripts(prop, seed, thorough):
    R = lambda x: random.Random('%s/%s/%s' % (prop, seed, x))
    return [('table%d' % i, table(R(i), 4000 if thorough else 1500, r)) for i, r in
            enumerate([2, 6, 15, 40] * (4 if thorough else 1))] + [('table-limit', table_limit())]


IDS = [0, 1, 2, 3, 5, 8, 255, 256, 257, 32767, 32768, 65279, 65280, 65533, 65534]


def setof(r, ids, big):
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 13, 14] if big else [1, 1, 2, 2, 3, 3])
    s = r.sample(ids, min(n, len(ids)))
    return ','.join(map(str, s))


def index(r, n, ids, big, search):
    L = ['search %d %d %d' % s for s in search] + ['reset']
    cnt = 0
    for _ in range(n):
        t = 0 if r.randrange(5) else 1
        x = r.randrange(20)
        s = 'c%d' % r.randrange(12) if search and r.randrange(3) == 0 else setof(r, ids, big)
        if x < 4:
            L.append('find %d %s' % (t, s))
        elif x < 8:
            L.append('foc %d %s' % (t, s))
            cnt += 1
        elif x < 17:
            i = r.choice([0, cnt - 1, cnt, cnt // 2, r.randrange(cnt + 3), 65534, 65535]) if r.randrange(9) == 0 else r.randrange(max(1, cnt))
            L.append('%s %d %d %d' % (r.choice(['addc', 'remc']), t, max(0, i), r.choice(ids)))
            cnt += r.randrange(2)
        else:
            L.append('inv %d' % t)
    return '\n'.join(L) + '\n'


def index_bounds():
    """The number just past the end, and beyond."""
    L = []
    for n in (0, 1, 2, 3, 63, 64, 65, 128, 129):
        L.append('reset')
        for i in range(n):
            L.append('foc 0 %d,%d' % (i, i + 300))
        for i in (n, n + 1, 65535, max(0, n - 1)):
            for k in (7, 0, 300):
                L += ['addc 1 %d %d' % (i, k), 'addc 0 %d %d' % (i if i >= n else i, 9000 + k) if i < n else 'addc 0 %d %d' % (n + 20, k)]
                L += ['remc 1 %d %d' % (i, k)]
        for i in range(n):
            L += ['find 0 %d,%d' % (i + 300, i), 'get 0 %d' % i]
    L.append('reset')
    for i in range(4):
        L.append('foc 0 %d,%d' % (i, i + 300))
    L += ['addc 0 4 9', 'remc 0 4 300', 'addc 0 5 9', 'addc 0 3 303', 'remc 0 3 304', 'foc 0 7', 'remc 0 4 7', 'addc 0 5 1', 'remc 0 5 1']
    return '\n'.join(L) + '\n'


def index_scripts(prop, seed, thorough):
    R = lambda x: random.Random('%s/%s/%s' % (prop, seed, x))
    m = 8 if thorough else 1
    out = [('index-bounds', index_bounds())]
    for i in range(m):
        out += [('index-few%d' % i, index(R(i), 1500, R(90 + i).sample(IDS, 5), False, [])),
                ('index-big%d' % i, index(R(20 + i), 1500, IDS, True, [])),
                ('index-coll%d' % i, index(R(40 + i), 1500, R(60 + i).sample(IDS, 6), False,
                                          [(seed * 100 + i, 2, 300000), (seed * 100 + 50 + i, 3, 300000)]))]
    return out


# ---------------------------------------------------------------------------------------------
# The storage of one component set
import scripts as _s


class Rows:
    """Histories of permitted operations; mirrors only sets and lengths."""

    def __init__(s, r, sets, maxrows, caps, nregs=3, light=False):
        s.r, s.sets, s.maxrows, s.caps, s.nregs, s.light = r, sets, maxrows, caps, nregs, light
        s.L, s.regs, s.tokc = [], {}, 0

    def tok(s, k):
        d = _s.DOM[k]
        s.tokc += 1
        return s.r.randrange(d) if d <= 2048 else (s.tokc % d if s.r.random() < 0.8 else s.r.randrange(d))

    def toks(s, g):
        return ','.join(str(s.tok(k)) for k in g) or '-'

    def order(s, ks):
        return s.r.choice(_s.BYSET[frozenset(ks)])

    def sub(s, ks):
        return s.r.choice([g for g in _s.VALID if set(g) <= set(ks)])

    def h(s):
        return s.r.choice([0, 1, 0x7FFFFFFF, s.r.randrange(1 << 31), s.r.randrange(1 << 31)])

    def row(s, n):
        x = s.r.randrange(5)
        return 0 if x == 0 else n - 1 if x == 1 else max(0, n - 2) if x == 2 else s.r.randrange(n)

    def new(s, r):
        ks = s.r.choice(s.sets)
        s.L.append('anew %d %s %s' % (r, _s.gs(s.order(ks)), s.r.choice(s.caps)))
        s.regs[r] = [ks, 0]

    def begin(s):
        s.L.append('reset light' if s.light else 'reset')
        s.regs = {}
        for r in range(s.nregs):
            s.new(r)

    def end(s):
        for r in sorted(s.regs, key=lambda _: s.r.random()):
            if s.light:
                s.L.append('snap %d' % r)
            s.L.append('adrop %d' % r)

    def step(s):
        r = s.r.randrange(s.nregs)
        ks, n = s.regs[r]
        g = _s.gs
        x = s.r.randrange(100)
        grow = n < s.maxrows
        if s.nregs == 1 and x >= 84:
            x = s.r.randrange(84)
        if n == 0 and x >= 30:
            x = s.r.randrange(30)
        if x < 20 and grow:
            o = s.order(ks)
            s.L.append('%s %d %s %d %s' % ('push' if s.r.randrange(3) else 'pushu', r, g(o), s.h(), s.toks(o)))
            s.regs[r][1] += 1
        elif x < 22 and s.r.randrange(6) == 0:
            s.L.append('adrop %d' % r)
            s.new(r)
        elif x < 24 and s.r.randrange(4) == 0:
            s.L.append('clear %d' % r)
            s.regs[r][1] = 0
        elif n == 0:
            s.L.append('snap %d' % r)
        elif x < 38:
            s.L.append('sdrop %d %d' % (r, s.row(n)))
            s.regs[r][1] -= 1
        elif x < 48:
            s.L.append('srem %d %s %d' % (r, g(s.order(ks)), s.row(n)))
            s.regs[r][1] -= 1
        elif x < 56:
            s.L.append('tolast %d %d' % (r, s.row(n)))
        elif x < 62 and n > 1:
            a = s.row(n)
            b = s.r.choice([i for i in {0, n - 1, n - 2, s.r.randrange(n)} if i != a])
            s.L.append('swap %d %d %d' % (r, a, b))
        elif x < 66:
            o = s.order(ks)
            s.L.append('over %d %s %d %d %s' % (r, g(o), s.row(n), s.h(), s.toks(o)))
        elif x < 70:
            k = s.r.choice(sorted(ks))
            s.L.append('sing %d %d %d %d' % (r, k, s.row(n), s.tok(k)))
        elif x < 74:
            s.L.append('get %d %s %d' % (r, g(s.sub(ks)), s.row(n)))
        elif x < 78:
            o = s.sub(ks)
            s.L.append('getm %d %s %d %s' % (r, g(o), s.row(n), s.toks(o) if s.r.randrange(3) else '-'))
        elif x < 80:
            s.L.append('gets %d %d %d' % (r, s.r.choice(sorted(ks)), s.row(n)))
        elif x < 84:
            s.L.append('%s %d %s' % (s.r.choice(['slices', 'bump']), r, g(s.order(ks) if s.r.randrange(2) else s.sub(ks))))
        else:
            d = s.r.choice([i for i in range(s.nregs) if i != r])
            kd, m = s.regs[d]
            if m < s.maxrows:
                s.L.append('move %d %d %d %d %s' % (r, d, s.row(n), s.h(), s.toks(sorted(kd - ks))))
                s.regs[r][1] -= 1
                s.regs[d][1] += 1


CAPS = ['0', '0', '1', '1', '2', '3', '5', '7', '8', '16', '33', '127', '128', '129', '16777216', '4294967295', 'd']


def rows_scripts(prop, seed, thorough):
    R = lambda x: random.Random('%s/%s/%s' % (prop, seed, x))
    S = [frozenset(x) for x in _s.BYSET]
    small = [x for x in S if len(x) <= 3]
    wide = [x for x in S if len(x) >= 4]
    out = []

    def mk(name, r, sets, maxrows, caps, n, eras, light=False):
        g = Rows(r, sets, maxrows, caps, light=light)
        for _ in range(eras):
            g.begin()
            for _ in range(n):
                g.step()
            g.end()
        out.append((name, '\n'.join(g.L) + '\n'))
    m = 6 if thorough else 1
    for i in range(m):
        mk('rows-small%d' % i, R(i), small, 6, CAPS, 40, 60)
        mk('rows-mid%d' % i, R(10 + i), small, 14, CAPS, 60, 30)
        mk('rows-wide%d' % i, R(20 + i), wide, 6, CAPS, 40, 25)
        mk('rows-caps%d' % i, R(30 + i), small, 40, ['0', '1', '2', '3', '5', '7'], 200, 4)
    # Growth past every doubling up to several hundred rows, for every kind.
    r = R(99)
    L = []
    sizes = [0, 1, 3, 128, 100]
    for c, ks in enumerate([frozenset([k]) for k in range(1, 34)] + (wide if thorough else wide[:6])):
        g = Rows(r, [ks], 10 ** 6, [str(r.choice(sizes))], nregs=1, light=True)
        g.begin()
        o = g.order(ks)
        n = 300 if len(ks) == 1 else 150
        for i in range(n):
            o = g.order(ks)
            g.L.append('push 0 %s %d %s' % (_s.gs(o), i, g.toks(o)))
            g.regs[0][1] += 1
            if i in (1, 2, 3, 5, 9, 127, 128, 129, 257):
                g.L.append('snap 0')
        for _ in range(20):
            g.step()
        g.end()
        L += g.L
    out.append(('rows-grow', '\n'.join(L) + '\n'))
    return out


# ---------------------------------------------------------------------------------------------
# Descriptions
TYPED = [0, 1, 2, 3, 5, 8, 255, 256, 257, 4660, 13330, 32767, 32768, 65279, 65280, 65533, 65534]


def desc_small(ids, r, orders):
    """All subsets of few ids, in all orders, by all ways of adding and removing, and all pairs of them."""
    import itertools
    L = ['reset', 'inv']
    subs = [c for n in range(1, len(ids) + 1) for c in itertools.combinations(ids, n)]
    num = {frozenset(c): i for i, c in enumerate(subs)}
    for c in subs:
        ps = list(itertools.permutations(c))
        if len(ps) > orders:
            ps = r.sample(ps, orders)
        for p in ps:
            L.append('grp %d %s' % (num[frozenset(c)], ','.join(map(str, p))))
    for c in subs:
        d = num[frozenset(c)]
        L.append('has %d' % d)
        for k in list(ids) + [65534 if 65534 not in ids else 7]:
            L += ['add 9999 %d %d' % (d, k), 'rem 9998 %d %d' % (d, k)]
        # a group repeating one of them, at all places
        for k in c:
            for at in range(len(c) + 1):
                L.append('grp 9997 %s' % ','.join(map(str, c[:at] + (k,) + c[at:])))
    for a in subs:
        for b in subs:
            L.append('pair %d %d' % (num[frozenset(a)], num[frozenset(b)]))
    return '\n'.join(L) + '\n'


def desc_random(r, n):
    """Large sets, sets that are nearly the same, refusals at the upper limit."""
    L = ['reset']
    R = 12
    have = {}
    for _ in range(n):
        x = r.randrange(20)
        d, e = r.randrange(R), r.randrange(R)
        pool = TYPED if r.randrange(3) else [r.randrange(65535) for _ in range(20)]
        k = r.choice(sorted(have[e])) if e in have and r.randrange(2) else r.choice(pool)
        if x < 3:
            m = r.choice([0, 1, 1, 2, 3, 5, 8, 12, 13, 14, 14, 15, 16, 17, 20, 28])
            s = [r.choice(TYPED) if r.randrange(2) else r.randrange(65535) for _ in range(m)]
            if r.randrange(5):
                s = list(dict.fromkeys(s))
                if len(s) not in range(18):
                    s = s[:17]
            if d in have and r.randrange(4) == 0 and len(have[d]) in range(1, 15):
                s = sorted(have[d])
                r.shuffle(s)
            L.append('grp %d %s' % (d, ','.join(map(str, s)) or '-'))
            if len(set(s)) == len(s) and 1 <= len(s) <= 14:
                have[d] = set(s)
            else:
                have.pop(d, None)
        elif x == 3:
            L.append('one %d %d' % (d, k))
            have[d] = {k}
        elif x < 10:
            op = r.choice(['add', 'addt']) if k in TYPED else 'add'
            L.append('%s %d %d %d' % (op, d, e, k))
            if e in have and k not in have[e] and len(have[e]) < 14:
                have[d] = have[e] | {k}
            else:
                have.pop(d, None)
        elif x < 13:
            L.append('rem %d %d %d' % (d, e, k))
            if e in have and k in have[e] and len(have[e]) > 1:
                have[d] = have[e] - {k}
            else:
                have.pop(d, None)
        elif x < 18:
            L.append('pair %d %d' % (d, e))
        else:
            L.append('has %d' % d)
    return '\n'.join(L) + '\n'


def desc_full(r):
    """All the way up to the limit and down again, in random orders; what is in the way at every size."""
    L = ['reset']
    for i in range(20):
        ids = r.sample(TYPED, 14) if i % 2 else r.sample(range(65535), 14)
        L.append('one 0 %d' % ids[0])
        for j, k in enumerate(ids[1:]):
            L += ['add 0 0 %d' % k, 'add 1 0 %d' % r.choice(ids[:j + 2]), 'has 0']
        L += ['add 1 0 %d' % [x for x in TYPED if x not in ids][0], 'add 1 0 %d' % ids[3]]
        p = ids[:]
        r.shuffle(p)
        L += ['grp 2 %s' % ','.join(map(str, p)), 'pair 0 2', 'pair 2 0']
        for j, k in enumerate(p):
            L += ['rem 0 0 %d' % k, 'rem 1 2 %d' % k, 'pair 2 1', 'pair 1 2', 'pair 0 2', 'pair 2 0', 'pair 0 1', 'has 0']
            if j == 13:
                break
        L += ['rem 0 0 %d' % p[13]]
        # two halves of a full set, and halves sharing one
        h = r.randrange(1, 13)
        L += ['grp 3 %s' % ','.join(map(str, p[:h])), 'grp 4 %s' % ','.join(map(str, p[h:])), 'pair 3 4', 'pair 4 3',
              'grp 5 %s' % ','.join(map(str, p[:h + 1])), 'pair 5 4', 'pair 4 5', 'pair 5 3', 'pair 3 5']
    return '\n'.join(L) + '\n'


def fnv(ids):
    h = 0x811C9DC5
    for i in sorted(ids):
        h = ((h ^ (i & 255)) * 16777619) & 0xFFFFFFFF
        h = ((h ^ (i >> 8)) * 16777619) & 0xFFFFFFFF
    return h


def desc_alike(r, n):
    """Pairs of different sets that a digest of them does not tell apart: equal hashes, sums, remainders, bytes, limits."""
    pairs = []
    for size, tries in [(2, n), (3, n // 2), (7, n // 4)]:
        seen = {}
        for _ in range(tries):
            s = tuple(sorted(r.sample(range(65535), size)))
            t = seen.setdefault(fnv(s), s)
            if t != s:
                pairs.append((t, s))
    for a, b in list(pairs):
        top = max(max(a), max(b))
        for m in (1, 4, 11):
            if len(a) + m <= 14 and top + m < 65534:
                x = tuple(r.sample(range(top + 1, 65535), m)) if 65535 - top - 1 >= m else ()
                pairs.append((a + x, b + x))
    kinds = ((15209, 44555), (11349, 47037))
    pairs.append(kinds)
    for x in (62464, 65281, 65534):
        pairs.append((kinds[0] + (x,), kinds[1] + (x,)))
    for m in (2, 3, 6, 13, 14):
        for _ in range(3):
            a = r.sample(range(300, 65000), m)
            i, j = r.sample(range(m), 2)
            d = r.randrange(1, 200)
            for b in ([x + d if q == i else x - d if q == j else x for q, x in enumerate(a)],            # equal sums
                      [x ^ d if q in (i, j) else x for q, x in enumerate(a)],                            # equal xors
                      [x ^ 64 if q == i else x for q, x in enumerate(a)],                                # equal modulo 64
                      [x ^ 256 if q == i else x for q, x in enumerate(a)],                               # equal low bytes
                      [x ^ 1 if q == i else x for q, x in enumerate(a)],                                 # equal high bytes
                      [x ^ 0x8000 if q == i and x ^ 0x8000 < 65535 else x for q, x in enumerate(a)],
                      [(x & 0xFF00) | (a[j if q == i else i] & 255) if q in (i, j) else x for q, x in enumerate(a)]):
                if len(set(b)) == m and set(b) != set(a):
                    pairs.append((tuple(a), tuple(b)))
            b = sorted(a)
            k = r.randrange(m)
            if m > 2 and 0 < k < m - 1 and b[k] + 1 < b[k + 1]:
                b[k] += 1                                                                                # equal limits
                pairs.append((tuple(a), tuple(b)))
    L = ['reset']
    for a, b in pairs:
        c = lambda x: ','.join(map(str, r.sample(x, len(x))))
        k, o = r.choice(a), r.choice(b)
        L += ['grp 0 ' + c(a), 'grp 1 ' + c(b), 'pair 0 1', 'pair 1 0', 'grp 4 ' + c(a), 'pair 0 4', 'pair 4 0',
              'add 2 0 %d' % o, 'add 3 1 %d' % k, 'pair 2 1', 'pair 3 0', 'pair 2 3', 'rem 5 0 %d' % o, 'rem 6 0 %d' % k,
              'pair 1 6', 'pair 0 6', 'pair 6 1', 'pair 6 0']
    return '\n'.join(L) + '\n'


def desc_scripts(prop, seed, thorough):
    R = lambda x: random.Random('%s/%s/%s' % (prop, seed, x))
    out = [('desc-small', desc_small(sorted(R(0).sample(TYPED, 5)), R(1), 30)),
           ('desc-bytes', desc_small([0, 1, 255, 256, 65534], R(2), 24)),
           ('desc-full', desc_full(R(3))),
           ('desc-alike', desc_alike(R(4), 1000000 if thorough else 200000))]
    if thorough:
        out.append(('desc-small6', desc_small(sorted(R(7).sample(TYPED, 6)), R(8), 120)))
    for i in range(8 if thorough else 2):
        out.append(('desc-random%d' % i, desc_random(R(10 + i), 2500)))
    return out


# ---------------------------------------------------------------------------------------------
# Names
def names_scripts(prop, seed, thorough):
    r = random.Random('%s/%s' % (prop, seed))
    L = ['reset', 'overridden'] + ['declared %d' % i for i in range(28)] + ['derived %d' % i for i in range(23)]
    words = ['', 'a', 'b', 'foobar', 'Position', 'Velocity', 'crate::Position', 'Größe', '日本語', 'A', 'AA', 'aA']

    def hx(b):
        return b.hex() or '-'

    def limits(n):
        return ['-', '0', str(n), str(n + 1), 'max'] + ([str(n - 1), '1', str(r.randrange(n + 1))] if n else ['1'])
    for w in words:
        b = w.encode()
        L += ['hash %s %s' % (hx(b), l) for l in limits(len(b))]
    # every byte, alone and after another; every length
    for x in range(256):
        L += ['hash %02x -' % x, 'hash %02x%02x %d' % (r.randrange(256), x, r.randrange(4))]
    for n in list(range(70)) + [127, 128, 129, 255, 256, 257, 300, 1000]:
        b = bytes(r.randrange(256) for _ in range(n))
        L += ['hash %s %s' % (hx(b), l) for l in r.sample(limits(n), 2)]
        L.append('hash %s -' % hx(bytes(r.choice(b'abcdefghijklmnopqrstuvwxyzABC_:') for _ in range(n))))
    for n in (4096, 65535, 65536, 65537):
        L.append('hash %s %s' % (hx(bytes(r.randrange(256) for _ in range(n))), r.choice(['-', '0', str(n), str(n - 1)])))
    for _ in range(3000 if thorough else 500):
        n = r.randrange(40)
        b = bytes(r.choice([0, 0xFF, 0x80, 0x7F, r.randrange(256)]) for _ in range(n))
        L.append('hash %s %s' % (hx(b), r.choice(limits(n))))
    return [('names', '\n'.join(L) + '\n')]
