"""Scripts for populations and numbers of component sets up to and beyond the limits."""
import random
HEAD = ['reset', 'table 0', 'fast 1', 'snapauto 0', 'new 1']
MAX = 16777215


def two(r):
    """Two registries, together beyond every limit, in turns."""
    n = r.choice([8400000, 9000000, 12000000])
    L = ['new 2', 'fill 2 3 %d' % n, 'fill 1 3 %d' % n, 'check 1 3', 'check 2 3', 'bdestroy 1 3 1', 'fill 2 3 100', 'fill 1 3 70000',
         'fill 2 3 %d' % (MAX - n - 50), 'fill 1 1,2 10', 'bdestroy 2 5 1', 'fill 2 3 4', 'fill 1 1 1', 'check 1 3', 'check 1 1',
         'drop 2', 'check 1 3', 'new 2', 'fill 2 3 %d' % (MAX - n), 'fill 1 3 4', 'check 1 1']
    return text(L + ['drop 2'])


def two_sets(r):
    """Two registries with many component sets, different ones and the same ones, together more than one may have."""
    rest = FAM[1:]
    r.shuffle(rest)
    rest = rest[:15]
    f = '15,' + ','.join(map(str, rest))
    L = ['new 2', 'fill 1 15 3', 'fill 2 2 5', 'fill 2 15 2', 'fill 1 3 1',
         'walk 2 0 %s 100000' % ','.join(map(str, [2] + [k for k in rest if k != 2][:9])),
         'walk 1 0 %s 100000' % f, 'fill 1 1,2 3', 'check 1 15',
         'fill 2 1 3', 'fill 2 1,2 4', 'walk 2 1 %s 100000' % f, 'fill 2 5,2 5', 'badd 2 2 5', 'check 2 1', 'check 2 2', 'check 1 1',
         'badd 1 2 5', 'check 1 5', 'walk 1 0 %s 100000' % f, 'all 1 1 2', 'all 2 2 1', 'brmc 1 2 1', 'btake 2 4 5,2',
         'check 2 15', 'check 1 15', 'all 1 5 2', 'all 2 15 1']
    return text(L + ['drop 2'])


def fork(r, steps):
    """Two or three registries worked on by a thread each at the same time, and handed on to other threads."""
    k = r.choice([2, 3])
    L = ['new %d' % i for i in range(2, k + 1)]
    coh = {}
    for i in range(1, k + 1):
        coh[i] = []
    groups = ['1', '2', '3', '5', '15', '1,2', '2,1', '2,3', '15,16', '1,2,3', '6,8', '5,2']
    for b in range(4):
        L.append('fork')
        for _ in range(steps):
            for i in range(1, k + 1):
                c = coh[i]
                x = r.randrange(12)
                if x < 4 and len(c) < 12 or not c:
                    g = r.choice(groups)
                    L.append('fill %d %s %d' % (i, g, r.choice([2000, 20000, 66000])))
                    c.append({int(q) for q in g.split(',')})
                elif x < 6:
                    L.append('bdestroy %d %d %d' % (i, r.choice([2, 3, 7]), r.choice([0, 1, 1000])))
                elif x < 9:
                    j = r.randrange(len(c))
                    q = r.choice([1, 2, 3, 5, 15, 16, 17])
                    add = q not in c[j]
                    L.append('%s %d %d %d' % ('badd' if add else 'brmc', i, j, q))
                    if add:
                        c[j].add(q)
                    elif len(c[j]) > 1:
                        c[j].discard(q)
                elif x < 10:
                    L.append('cycle %d %s %d' % (i, r.choice(groups), r.choice([257, 5000])))
                elif r.randrange(2):
                    L.append('all %d %s %d' % (i, r.choice(groups), r.choice([1, 2, 2, 3])))
                else:
                    L.append('check %d %s' % (i, r.choice(groups)))
        L.append('join')
        for i in range(1, k + 1):
            L.append('check %d %s' % (i, r.choice(groups)))
            if r.randrange(2):
                L.append('mv %d' % i)
    L.append('fork')
    for i in range(2, k + 1):
        L += ['check %d 1' % i, 'drop %d' % i]
    L += ['check 1 1', 'fill 1 1 70000', 'check 1 1', 'join']
    return text(L)


def race(r, n):
    """Threads that read one registry at the same time, in between the usual calls."""
    groups = ['1', '2', '3', '4', '5', '15', '1,2', '2,1', '2,3', '3,2', '15,16', '16,15', '15,3,16', '1,2,3', '6,8', '5,2']
    own = r.sample(['15,3,16', '1,2,3', '6,8', '5,2', '2,3', '3', '1'], 6)
    L = []
    for g in own:
        L.append('fill 1 %s %d' % (g, r.choice([1, 2, 40, 3000])))
    for _ in range(5):
        for _ in range(2):
            k = r.choice([2, 3, 4, 6, 8])
            same = r.choice(own)                 # of the same set, its kinds one by one
            gs = [x for x in groups if set(x.split(',')) <= set(same.split(','))]
            L.append('race 1 %d %s' % (n, ';'.join((gs * k)[:k] if len(gs) > 1 and r.randrange(3) else r.sample(groups, k))))
        L += [r.choice(['mv 1', 'bdestroy 1 3 1', 'fill 1 %s 20' % r.choice(groups), 'cycle 1 1 300', 'check 1 2'])]
    return text(L)


def text(lines):
    return '\n'.join(HEAD + lines + ['drop 1']) + '\n'


def concentrated():
    """The limit reached in one set, then with two sets, emptied, and reached again."""
    return text('''fill 1 3 16777220
check 1 3
bdestroy 1 3 1
fill 1 1,2 5592410
check 1 3
check 1 2
bdestroy 1 1 0
check 1 3
fill 1 1 16777216
cycle 1 1 3
fill 1 2,3 1
bdestroy 1 16777215 5
cycle 1 1 1000
fill 1 2,3 2
check 1 1
check 1 3'''.split('\n'))


def spread(r):
    """The limit reached in many sets; movement, refusal and room in between."""
    L = []
    sets = [[1, 2], [2, 3], [15, 16], [15], [17], [18], [2], [6, 8], [20], [5, 2]]
    r.shuffle(sets)
    tot = 0
    for i, s in enumerate(sets):
        n = r.choice([65535, 65536, 65537, 131073, 262143, 500000, 1048577])
        L.append('fill 1 %s %d' % (','.join(map(str, s)), n))
        tot += n
    L += ['badd 1 3 21', 'badd 1 4 1', 'badd 1 6 3', 'brmc 1 3 21', 'check 1 15', 'check 1 3', 'check 1 1']
    L.append('fill 1 3 %d' % MAX)
    L += ['fill 1 22 1', 'fill 1 15,3,16 4', 'check 1 3']
    for _ in range(3):
        L.append('bdestroy 1 %d %d' % (r.choice([2, 3, 7, 1000, 65536]), r.randrange(70000)))
        L.append('fill 1 %s %d' % (r.choice(['3,2', '16,15', '1,2,3', '24']), r.choice([1, 65536, 300000])))
    L += ['check 1 3', 'fill 1 23 %d' % MAX, 'check 1 23']
    return text(L)


def growth(r, kinds, n):
    """Every storage growth up to n rows, for every kind, by creation and by movement."""
    L = []
    for c, k in enumerate(kinds):
        L += ['fill 1 %d %d' % (k, n + r.randrange(3)), 'check 1 %d' % k, 'all 1 %d %d' % (k, r.choice([1, 2]))]
        o = 15 if k != 15 else 16
        L += ['poke 1 %d' % k] if c % 2 == 0 else []
        L += ['badd 1 %d %d' % (c, o), 'check 1 %d' % k] + (['poke 1 %d' % o] if c % 3 == 1 else []) + ['brmc 1 %d %d' % (c, k), 'check 1 %d' % o]
        L += ['badd 1 %d %d' % (c, k), 'brmc 1 %d %d' % (c, o), 'check 1 %d' % k]
        if r.randrange(2):
            L += ['bdestroy 1 3 %d' % r.randrange(3), 'check 1 %d' % k]
        if r.randrange(2):
            L += ['btake 1 %d %d' % (c, k)]
        else:
            L += ['bdestroy 1 1 0']
    return text(L)


def wide_rows(n):
    """Columns of more than 2^32 bytes."""
    return text(['fill 1 7 %d' % n, 'check 1 7', 'bdestroy 1 %d %d' % (n // 5, n // 7), 'check 1 7'])


def reissue(r):
    """Populations that shrink from one end or the other, or to nothing, and grow again, many times."""
    L = []
    for n in (r.choice([300, 1000, 5000]), r.choice([9000, 20000, 66000, 140000])):
        L.append('fill 1 1 %d' % n)
        for _ in range(9):
            m = r.choice([1, 2, 100, n // 2, n])
            x = r.randrange(4)
            if x == 0:
                L += ['bdestroy 1 1 %d' % max(0, n - m), 'fill 1 %s %d' % (r.choice(['1', '3', '1,2']), m)]
            elif x == 1:
                L += ['bdestroy 1 %d 0' % r.choice([1, 2, 3]), 'fill 1 %s %d' % (r.choice(['1', '3', '1,2']), n // 2)]
            elif x == 2:
                L += ['cycle 1 %s %d' % (r.choice(['1', '2', '2,3']), r.choice([3, 255, 256, 600]))]
            else:
                L += ['bdestroy 1 1 0', 'cycle 1 1 %d' % r.choice([2, 300]), 'fill 1 1 %d' % n]
            if r.randrange(4) == 0:
                L += ['waves 1 %s %d %d %d' % (r.choice(['1', '2', '2,3']), r.choice([2, 128, 700]), r.choice([1, 3, 300]), r.randrange(4))]
        L += ['check 1 1', 'check 1 3', 'poke 1 1', 'poke 1 1,2', 'bdestroy 1 1 0']
    # The last ones of a population end, one or a few, with everything else alive, and others come.
    L.append('drop 1')
    for n in (r.choice([300, 4095, 4096]), r.choice([65537, 70000]), r.choice([131073, 140000])):
        L += ['new 1', 'fill 1 1 %d' % n]
        for m in (1, 2, 1, r.choice([3, 10, 130]), 1):
            L += ['bdestroy 1 1 %d' % (n - m), 'fill 1 %s %d' % (r.choice(['1', '1', '3']), m)]
        L += ['cycle 1 1 3', 'check 1 1', 'drop 1']
    return text(L + ['new 1'])


def memory(r, n):
    """Small populations, in which very many entities come and go, change and are asked about."""
    L, coh = [], []
    groups = ['1', '2', '3', '4', '5', '15', '1,2', '2,3', '15,16', '1,2,3', '6,8', '5,2']
    single = r.sample(groups, 7)
    # Alone in a registry, and exactly the same again: that needs nothing more.
    g = r.choice(single)
    L += ['cycle 1 %s %d' % (g, n)] * 2 + ['drop 1', 'new 1']
    L += ['tcycle 1 %s %d' % (r.choice(single), n)] * 2 + ['drop 1', 'new 1']
    L += ['fill 1 1 %d' % r.choice([1, 128, 256, 5000])] + ['spin 1 0 2 %d' % n] * 2 + ['idle 1 1 %d' % (n // 2)] * 2 + ['drop 1', 'new 1']
    for o in r.sample(range(4), 4):
        m = r.choice([2, 3, 7, 64, 130, 1000])
        L += ['waves 1 %s %d %d %d' % (r.choice(single), m, n // m, o)] * 2
        if r.randrange(3):
            L += ['drop 1', 'new 1']
    L += ['drop 1', 'new 1']
    base = 0
    for g in single[:4]:
        m = r.choice([1, 3, 20, 127, 128, 129, 300])
        base += m
        L.append('fill 1 %s %d' % (g, m))
        coh.append({int(k) for k in g.split(',')})
    for x in [0, 3, 6, 9, 10, 11, 12] + [r.randrange(13) for _ in range(10)]:
        if x < 3:
            L.append('cycle 1 %s %d' % (r.choice(single), n))
        elif x < 6:
            L.append('tcycle 1 %s %d' % (r.choice(single), n))
        elif x < 9:
            c = r.randrange(4)
            L.append('spin 1 %d %d %d' % (c, r.choice([k for k in (1, 2, 3, 5, 15, 16) if k not in coh[c]]), n))
        elif x < 10:
            L.append('idle 1 %s %d' % (r.choice(single), n // 2))
        elif x < 11:
            m = r.choice([2, 5, 128, 600])
            L.append('waves 1 %s %d %d %d' % (r.choice(single), m, n // m, r.randrange(4)))
        elif x < 12:
            c = r.randrange(4)
            k = r.choice([1, 2, 3, 5, 15, 16])
            if k not in coh[c]:
                L.append('badd 1 %d %d' % (c, k))
                coh[c].add(k)
            elif len(coh[c]) > 1:
                L.append('brmc 1 %d %d' % (c, k))
                coh[c].discard(k)
        else:
            for _ in range(30):          # waves
                L += ['fill 1 %s %d' % (r.choice(single), r.choice([2, 40, 900])), 'bdestroy 1 1 %d' % base]
    L += ['check 1 1', 'check 1 2']
    return text(L)


def churn(r, steps, cap):
    """Random bulk operations; slots far beyond 65,536 are freed and reused."""
    L, n = [], 0
    sizes = [1, 2, 9, 127, 128, 129, 1000, 4096, 65535, 65536, 65537, 70001, 131072, 131073, 200000]
    groups = ['1', '2', '3', '4', '5', '15', '1,2', '2,1', '2,3', '3,2', '15,16', '16,15', '15,3,16', '1,2,3', '6,8', '5,2']
    coh = []      # kinds of the cohorts, as far as ordinary steps go
    for _ in range(steps):
        x = r.randrange(24)
        if x < 6 and n < cap or not coh:
            g = r.choice(groups)
            L.append('fill 1 %s %d' % (g, r.choice(sizes)))
            coh.append({int(k) for k in g.split(',')})
            n += 1
        elif x < 9:
            L.append('bdestroy 1 %d %d' % (r.choice([2, 2, 3, 10, 65536, 99999]), r.choice([0, 0, 1, 5, 1000, 65536])))
        elif x < 15:
            c = r.randrange(n)
            k = r.choice([1, 2, 3, 5, 15, 16, 17, 6])
            add = k not in coh[c] if r.randrange(8) else bool(r.randrange(2))
            if not add and r.randrange(8) and len(coh[c]) > 1:
                k = r.choice(sorted(coh[c]))
            L.append('%s 1 %d %d' % ('badd' if add else 'brmc', c, k))
            if add:
                coh[c].add(k)
            elif len(coh[c]) > 1:
                coh[c].discard(k)
        elif x < 16:
            c = r.randrange(n)
            L.append('btake 1 %d %s' % (c, r.choice([g for g in groups if {int(k) for k in g.split(',')} == coh[c]] or groups)))
        elif x < 18:
            if r.randrange(2):
                L.append('cycle 1 %s %d' % (r.choice(groups), r.choice([1, 255, 256, 257, 66000])))
            else:
                L.append('waves 1 %s %d %d %d' % (r.choice(groups), r.choice([1, 3, 200, 3000]), r.choice([1, 2, 20]), r.randrange(4)))
        elif x < 19:
            L.append('mv 1')
        elif x == 19 and r.randrange(4) == 0:
            L.append('bdestroy 1 1 %d' % r.choice([0, 70000, 200000]))
        elif r.randrange(2):
            L.append('all 1 %s %d' % (r.choice(groups), r.choice([1, 2, 2, 3])))
        elif r.randrange(2):
            L.append('poke 1 %s' % r.choice(groups) if r.randrange(2) else 'flips 1 %d' % r.choice([1, 2, 3, 5, 15, 16, 17, 6]))
        else:
            L.append('check 1 %s' % r.choice(groups))
    for g in ('1', '2', '3', '15'):
        L.append('check 1 %s' % g)
    L += ['poke 1 %s' % g for g in r.sample(groups, 3)] + ['check 1 %s' % r.choice(groups)]
    return text(L)


FAM = [15, 2, 3, 6] + list(range(16, 25)) + [8, 9, 10, 11]


def sets_limit(r):
    """Every set over 17 kinds, two more families, the limit in the middle of the third, and life beyond it."""
    rest = FAM[1:]
    r.shuffle(rest)
    fam = ','.join(map(str, [15] + rest))
    more = r.sample([3, 6] + list(range(16, 25)), 6)
    third = r.sample([8, 9, 10, 11, 12, 13, 14], 7)
    L = ['fill 1 15 3', 'fill 1 2 2', 'fill 1 3 2', 'fill 1 15,3,16 1', 'walk 1 0 %s 100000' % fam, 'check 1 15',
         'fill 1 1,2 5', 'fill 1 5 4', 'fill 1 4 1', 'fill 1 1 2']                       # cohorts 4..7
    L += ['walk 1 1 %s 100000' % ','.join(map(str, [2] + more)), 'check 1 2',
          'walk 1 6 %s 100000' % ','.join(map(str, [4] + third)), 'check 1 4']
    # at the limit
    L += ['fill 1 5,2 3', 'fill 1 6,8 1', 'fill 1 23 1',
          'badd 1 5 7', 'badd 1 6 6', 'badd 1 7 7', 'brmc 1 4 1', 'check 1 1', 'check 1 5',
          'fill 1 15,16 3', 'fill 1 16,15 2', 'fill 1 15,3,16 2', 'brmc 1 4 2', 'badd 1 4 2', 'fill 1 1 70000', 'check 1 1',
          'walk 1 0 %s 100000' % fam, 'cycle 1 1,2 500', 'cycle 1 5,2 5', 'bdestroy 1 2 1', 'fill 1 2 3', 'check 1 2',
          'all 1 1 2', 'all 1 2 1', 'poke 1 1,2', 'all 1 1,2 2', 'poke 1 15', 'check 1 15', 'all 1 15 2', 'all 1 16,15 3', 'check 1 5', 'check 1 1']
    return text(L)


def populated(r):
    """An entity or two in each of some hundred sets of the same size, and in some of other sizes."""
    ks = [2, 3, 5, 6] + list(range(16, 25)) + [8, 9, 10, 11, 12, 13, 14, 25, 26, 27, 28]
    r.shuffle(ks)                                               # 24: 276 sets of three components
    L, c = [], 0
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            L += ['fill 1 15 %d' % r.choice([1, 1, 1, 2]), 'badd 1 %d %d' % (c, a), 'badd 1 %d %d' % (c, b)]
            c += 1
    L += ['all 1 15 3', 'check 1 15', 'poke 1 15', 'poke 1 %d' % ks[3], 'flips 1 4', 'flips 1 %d' % r.choice(ks), 'check 1 4']
    for _ in range(12):
        L.append('%s 1 %d %d' % (r.choice(['badd', 'brmc']), r.randrange(c), r.choice(ks)))
    for k in ks[:5]:
        L += ['all 1 %d %d' % (k, r.choice([2, 3, 4])), 'check 1 %d' % k]
    L += ['bdestroy 1 2 %d' % r.randrange(2), 'all 1 15 3', 'check 1 15', 'flips 1 1', 'all 1 15 4', 'bdestroy 1 1 0', 'all 1 15 3', 'flips 1 2']
    return text(L)


def sets_some(r, n):
    """A few hundred or thousand sets: indexes beyond 255, and then ordinary life in late sets."""
    rest = r.sample([3, 6] + list(range(16, 25)) + [8, 9, 10, 11], n)
    L = ['fill 1 15 2', 'walk 1 0 %s 100000' % ','.join(map(str, [15] + rest)),
         'fill 1 1 300', 'fill 1 1,2 300', 'badd 1 1 5', 'badd 1 2 5', 'check 1 1', 'poke 1 1', 'poke 1 5,2', 'all 1 1 2', 'check 1 2', 'brmc 1 1 1', 'check 1 5',
         'all 1 5 1', 'all 1 2,3 2', 'all 1 15 1', 'badd 1 2 3', 'check 1 3', 'bdestroy 1 2 0', 'check 1 1', 'walk 1 0 %s 100000' % ','.join(map(str, [15] + rest)),
         'walk 1 0 %s 100000' % ','.join(map(str, [15] + rest)), 'all 1 15 3', 'all 1 15 3',
         'flips 1 3', 'flips 1 2', 'flips 1 15', 'check 1 2',
         'btake 1 1 5', 'check 1 5', 'all 1 1 3', 'all 1 5,2 2', 'check 1 2']
    return text(L)


SMALL = [1, 2, 3, 4, 5, 6, 8, 9, 11, 13, 15, 16, 20, 25, 31]


def one(name, r):
    """The script of one name; a number at its end varies it."""
    base = name.rstrip('0123456789')
    i = int(name[len(base):] or 0)
    if base == 'reissue':
        return reissue(r)
    if base == 'two':
        return two(r)
    if base == 'two-sets':
        return two_sets(r)
    if base == 'race':
        return race(r, 20000)
    if base == 'fork':
        return fork(r, 5 + i // 10)
    if base == 'concentrated':
        return concentrated()
    if base == 'wide-rows':
        return wide_rows(860000)
    if base == 'spread':
        return spread(r)
    if base == 'growth':
        return growth(r, r.sample(SMALL, 6), 66000 + (i // 10) * 66000)
    if base == 'growth-odd':
        return growth(r, [7, 14, 26, 27, 33], 2100 + (i // 10) * 4000)
    if base == 'memory':
        return memory(r, 200000 + 100000 * (i // 10))
    if base == 'churn':
        return churn(r, 45 + 5 * (i // 10), 12 + i // 10)
    if base == 'sets-limit':
        return sets_limit(r)
    if base == 'populated':
        return populated(r)
    if base == 'sets-some':
        return sets_some(r, 9 + i % 5)
    raise KeyError(name)


def limits(prop, seed, thorough, names):
    """(name, script) pairs."""
    names = list(names)
    if thorough:
        for n in list(names):
            b = n.rstrip('0123456789')
            if b not in ('concentrated', 'wide-rows'):
                names += ['%s%d' % (b, i) for i in ((10, 20, 30) if b == 'spread' else (10, 11, 20, 21, 30, 31, 40, 50))]
    return [(n, one(n, random.Random('%s/%s/%s' % (prop, seed, n)))) for n in dict.fromkeys(names)]


if __name__ == '__main__':
    import sys
    print(one(sys.argv[1], random.Random(sys.argv[2])), end='')
