"""Which explorations decide which property."""
import sys
import bulk_scripts
import low_scripts
from vlib import *
ASSUMPTIONS = [
    'TLC evaluates the specification correctly; the harness reports what it observed (its checking allocator and '
    'counted destructors are part of the trusted base)',
    'values of component types are small integers encoded redundantly in each component',
]
BINS = {'debug': ('harness', 'dev'), 'nodebug': ('harness', 'nodebug')}
BULK_BIN = ('harness', 'bulk', 'bulk')
BULK_DEV = ('harness', 'bulkdev', 'bulk')       # nothing optimised, everything checked
LOW = ('pack', 'table', 'index', 'rows', 'desc', 'names')
ALL_BUILDS = [('harness', 'dev'), ('harness', 'nodebug'), BULK_BIN, BULK_DEV] + \
             [('crates/' + c, p) for c in LOW for p in ('dev', 'nodebug')] + [('crates/sync', 'dev')]

# property -> [(profile, ops quick, scripts quick, ops thorough, scripts thorough)]
def q(p, n=6000, c=1):
    return (p, n, c, max(n, 12000), 8 * c)
PROFILES = {
    'C01': [q('life'), q('reuse'), q('mix'), q('bomb', 3000), q('grow', 900), q('aged', 2600)],
    'C02': [q('life'), q('reuse', c=2), q('mix'), q('sets', 3000), q('grow', 900), q('aged', 2600)],
    'C03': [q('move'), q('mix'), q('write'), q('sets', 3000), q('coll', 2000), q('grow', 900), q('wide', 2000), q('aged', 2600)],
    'C04': [q('move', c=2), q('wide', 4000), q('sets', 4000), q('coll', 3000), q('grow', 600), q('aged', 2600)],
    'C05': [q('life'), q('mix'), q('bomb', 3000), q('reuse', 3000), q('grow', 900), q('aged', 2600)],
    'C06': [q('life'), q('mix'), q('coll', 2000), q('perm', 4000), q('wide', 3000), q('dup', 3000), q('grow', 600), q('aged', 2600)],
    'C07': [q('life'), q('mix'), q('coll', 2000), q('perm', 3000), q('wide', 4000), q('dup', 3000), q('grow', 600), q('aged', 2600)],
    'C08': [q('life'), q('mix'), q('move'), q('bomb', 3000), q('wide', 2500), q('grow', 900), q('aged', 2600)],
    'C09': [q('iter', c=2), q('move'), q('coll', 3000), q('sets', 3000), q('wide', 2500), q('grow', 500), q('aged', 2600)],
    'C10': [q('iter', c=2), q('move'), q('coll', 3000), q('sets', 3000), q('wide', 2500), q('grow', 500), q('aged', 2600)],
    'C11': [q('iter', c=2), q('move'), q('coll', 4000), q('perm', 3000), q('wide', 2500), q('grow', 500), q('aged', 2600)],
    'C12': [q('write', c=2), q('iter'), q('perm', 3000), q('dup', 3000), q('wide', 2500), q('grow', 500), q('aged', 2600)],
    'C13': [q('perm', c=3), q('coll', 2000), q('wide', 4000), q('aged', 2600)],
    'C14': [q('dup', c=3), q('wide', 3000)],
    'C15': [q('wide', c=3), q('perm', 3000), q('sets', 4000), q('coll', 2000)],
    'C16': [q('coll', c=2), q('move'), q('wide', 3500), q('sets', 5000)],
    'C17': [q('grow', 1200), q('reuse', 3000), q('mix', 3000)],
    'C18': [q('sets', 5000, 2), q('coll', 2000)],
    'C19': [q('bomb', c=4)],
    'C20': [q('grow', 1500, 2), q('mix'), q('wide', 2500), q('bomb', 2500), q('multi', 3000), q('dup', 2500)],
    'C21': [q('multi', c=4)],
    'C27': [q('part', c=3), q('iter', 4000), q('multi', 3000)],
    'C28': [q('mix', 4000), q('life', 3000), q('move', 3000), q('part', 3000), q('dup', 3000), q('wide', 2500), q('coll', 2000),
            q('sets', 3000), q('perm', 2000), q('write', 2000), q('reuse', 3000), q('bomb', 2000), q('multi', 2500), q('grow', 600),
            q('aged', 2600)],
    'C30': [q('oom', 260, 5)],
}
# Behaviours of the implementation-shaped machine, all of whose transitions are replayed.
COVER_QUICK = {p: [('EcsCoverA', 2)] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11',
                                               'C16', 'C19', 'C28')}
COVER_THOROUGH = {p: [('EcsCoverA', 2), ('EcsCoverB', 3), ('EcsCoverC', 2)] for p in COVER_QUICK}
# Models checked exhaustively: the contract against the properties, and the implementation against the contract.
ECS_PROPS = ['C%02d' % i for i in range(1, 22) if i != 18] + ['C27', 'C28']
MODELS_QUICK = {p: [('Ecs', 'EcsQ1'), ('Ecs', 'EcsQ2'), ('Ecs', 'EcsQ3')] for p in ECS_PROPS}
for p in COVER_QUICK:
    MODELS_QUICK[p] = [('EcsImpl', 'EcsImplQ'), ('EcsImpl', 'EcsImplC')]
MODELS_THOROUGH = {p: [('Ecs', 'EcsA'), ('Ecs', 'EcsB'), ('EcsImpl', 'EcsImplC'), ('EcsImpl', 'EcsImplA')] for p in ECS_PROPS}

# Bulk executions (module bulk_scripts), judged by LimitsTrace.
BULK_QUICK = {
    'C01': ['churn', 'reissue'], 'C02': ['churn', 'churn2', 'reissue'], 'C03': ['churn', 'growth', 'populated', 'sets-some'],
    'C04': ['sets-limit', 'churn', 'growth', 'populated', 'sets-some'], 'C05': ['churn', 'growth', 'sets-some'],
    'C06': ['churn', 'growth', 'sets-some'], 'C07': ['churn', 'sets-limit', 'growth', 'sets-some'], 'C08': ['churn', 'growth', 'sets-some'], 'C09': ['churn', 'sets-some', 'sets-limit', 'populated'],
    'C10': ['churn', 'sets-some', 'sets-limit', 'populated', 'growth'],
    'C11': ['churn', 'sets-some', 'sets-limit', 'populated', 'growth'],
    'C12': ['churn', 'sets-some', 'sets-limit', 'populated', 'growth'],
    'C16': ['sets-limit', 'sets-some', 'populated'], 'C20': ['growth', 'growth-odd', 'wide-rows'],
    'C17': ['concentrated', 'spread', 'wide-rows', 'growth', 'growth-odd', 'churn', 'churn2'],
    'C21': ['two', 'two-sets', 'fork', 'fork1', 'fork2', 'race', 'race1', 'race2'],
    'C18': ['sets-limit', 'sets-limit2', 'sets-some', 'sets-some2'],
    'C27': ['memory', 'sets-some'],
    'C28': ['churn', 'sets-limit', 'concentrated', 'memory'],
    'C29': ['memory', 'memory1', 'memory2', 'memory3', 'churn', 'reissue', 'growth', 'growth-odd', 'populated', 'sets-some'],
}
# Of these, the ones that are also run in the unoptimised build.
BULK_ALSO_DEV = ('sets-limit', 'sets-some', 'populated', 'reissue', 'churn', 'growth', 'growth-odd', 'fork', 'two-sets', 'race') + \
                (('concentrated', 'spread', 'memory') if THOROUGH else ())
MODELS_QUICK['C17'] = MODELS_QUICK['C18'] = [('Limits', 'LimitsQ')]
MODELS_THOROUGH['C17'] = MODELS_THOROUGH['C18'] = [('Limits', 'LimitsQ'), ('Limits', 'LimitsA'), ('Ecs', 'EcsA')]

# The public low-level modules used directly (module low_scripts): crate -> trace specification.
LOW_SPEC = {'pack': 'PackTrace', 'table': 'TableTrace', 'index': 'IndexTrace', 'rows': 'RowsTrace', 'desc': 'DescTrace',
            'names': 'NamesTrace'}
LOW_OF = {'C16': ['index'], 'C22': ['desc'], 'C23': ['names'], 'C24': ['rows'], 'C25': ['table', 'index'], 'C26': ['pack']}
MODELS_QUICK.update({'C22': [('Desc', 'Desc')], 'C24': [('Rows', 'Rows')], 'C25': [('EcsImpl', 'EcsImplQ')],
                     'C26': [('Pack', 'Pack')], 'C21': [('EcsPar', 'EcsParQ')], 'C15': [('EcsImpl', 'EcsImplC')]})
MODELS_THOROUGH.update({'C22': [('Desc', 'Desc')], 'C24': [('Rows', 'Rows'), ('Rows', 'RowsA')],
                        'C25': [('EcsImpl', 'EcsImplQ'), ('EcsImpl', 'EcsImplA')], 'C26': [('Pack', 'Pack')],
                        'C21': [('EcsPar', 'EcsParQ'), ('EcsPar', 'EcsParA'), ('EcsImpl', 'EcsImplA')]})
MODELS_QUICK['C27'] = [('Iter', 'IterQ'), ('Ecs', 'EcsQ3')]
MODELS_THOROUGH['C27'] = [('Iter', 'IterQ'), ('Iter', 'IterA'), ('Iter', 'IterB'), ('Ecs', 'EcsA')]
MODELS_QUICK['C29'] = [('Mem', 'Mem'), ('Limits', 'LimitsQ')]
MODELS_THOROUGH['C29'] = [('Mem', 'Mem'), ('Mem', 'MemA'), ('Limits', 'LimitsQ')]
MODELS_QUICK['C30'] = [('Oom', 'Oom')]
MODELS_THOROUGH['C30'] = [('Oom', 'Oom'), ('Oom', 'OomA')]
for p in ('C02', 'C09', 'C11', 'C16'):
    MODELS_THOROUGH[p] = [('Ecs', 'EcsA'), ('EcsImpl', 'EcsImplC'), ('EcsImpl', 'EcsImplB')]
# What judges what (for replays).
JUDGES = {'EcsTrace': [(n, b) for n, b in BINS.items()], 'LimitsTrace': [('bulk', BULK_BIN), ('bulkdev', BULK_DEV)]}
JUDGES.update({s: [(p, ('crates/' + c, p)) for p in ('dev', 'nodebug')] for c, s in LOW_SPEC.items()})


def start(run, prop):
    m = sys.modules['__main__']
    jobs = []
    models = (MODELS_THOROUGH if THOROUGH else MODELS_QUICK).get(prop, [])
    covers = (COVER_THOROUGH if THOROUGH else COVER_QUICK).get(prop, [])
    bins = []
    todo = [(('harness', n), b) for n, b in BINS.items()] if prop in PROFILES or covers else []
    todo += [('bulk', BULK_BIN), ('bulkdev', BULK_DEV)] if prop in BULK_QUICK else []
    todo += [((c, p), ('crates/' + c, p)) for c in LOW_OF.get(prop, []) for p in ('dev', 'nodebug')]
    todo += [('sync', ('crates/sync', 'dev'))] if prop == 'C21' else []
    if models and not THOROUGH:
        jobs += [run.pool.submit(m.model_job, run, a, b, 2) for a, b in models]
    with ThreadPoolExecutor(6) as p:
        fs = [(k, p.submit(build, *b)) for k, b in todo]
        built = {k: f.result() for k, f in fs}
    log('built')
    bins = [(n, built['harness', n]) for n in BINS if ('harness', n) in built]
    if prop in BULK_QUICK:
        for name, text in bulk_scripts.limits(prop, SEED, THOROUGH, BULK_QUICK[prop]):
            jobs.append(run.pool.submit(m.record_and_judge, run, text, name,
                                        [(b, built[b]) for b in ('bulk', 'bulkdev')[:1 + (name in BULK_ALSO_DEV)]],
                                        'LimitsTrace', None, 200 if name.startswith('memory') else 600))
    for c in LOW_OF.get(prop, []):
        for name, text in getattr(low_scripts, c + '_scripts')(prop, SEED, THOROUGH):
            if len(run.samples) < 6:
                run.samples.append({'script': name, 'script_excerpt': [x[:120] for x in text.split('\n')[:14]]})
            jobs.append(run.pool.submit(m.record_and_judge, run, text, name,
                                        [(q, built[c, q]) for q in ('dev', 'nodebug')], LOW_SPEC[c]))
    for cfg, nk in covers:
        jobs.append(run.pool.submit(m.cover_job, run, cfg, nk, bins, 8, None))
    if prop in PROFILES:
        jobs += m.profile_jobs(run, prop, bins)
    if models and THOROUGH:
        def seq():
            for a, b in models:
                m.model_job(run, a, b, 4, 850)
        jobs.append(run.pool.submit(seq))
    return jobs


_S = 'TLA+ specification checked with TLC; '
_REC = 'executions recorded from the real registry judged call by call against EcsCore (EcsTrace.tla)'
_COV = 'every transition of the implementation-shaped machine (EcsCoverA) replayed into the real code'
_IMP = 'EcsImpl.tla refines the contract, exhaustively within its constants'
_BULK = 'bulk executions at full scale judged by the counting specification (LimitsTrace.tla)'
_ECS = 'the contract (Ecs.tla) implies the property, exhaustively within its constants'
_N = ('models exhausted within their constants (DESIGN.md); the code is bound by replayed behaviours and recorded '
      'executions, which are samples of the histories; each recorded call is compared completely (result, handles, '
      'components of all or sampled entities, drops, allocator requests)')
_LOW = {
    'C22': ('Desc.tla (sorted arrays, search, merge walks against plain sets) exhaustively; executions of the real '
            'descriptions judged by DescTrace.tla',
            'all subsets of small universes in all orders and all pairs of them, random sets up to 14 types'),
    'C23': ('executions of the real hash, of derived and of hand-written components judged by NamesTrace.tla, which '
            'computes the hash itself (Fnv.tla)', 'names up to 2,000 bytes and all shapes of derivation; samples'),
    'C24': ('Rows.tla (two component sets, growth, moves between them) exhaustively; executions of the real component '
            'storage judged by RowsTrace.tla', _N),
    'C25': ('EcsImpl.tla (table and index refine the contract) exhaustively; executions of the real table and index '
            'judged by TableTrace.tla and IndexTrace.tla', _N),
    'C26': ('Pack.tla (packing as digits) exhaustively in small bases; executions of the real packing judged by '
            'PackTrace.tla', 'every bit of each field against every other field; samples of the values of the rest'),
}


def _claim(p):
    if p in _LOW:
        return _S + _LOW[p][0], _LOW[p][1]
    t = []
    if p in COVER_QUICK:
        t += [_IMP, _COV]
    elif p in ('C17', 'C18'):
        t += ['Limits.tla (counting) exhaustively in small']
    elif p == 'C27':
        t += ['Iter.tla (cursors over the index of component sets, given up or ended by panics) and Ecs.tla exhaustively in small']
    elif p == 'C29':
        t += ['Mem.tla (storage that only grows) and Limits.tla exhaustively in small']
    elif p == 'C30':
        t += ['Oom.tla (storage grown block by block, any request refused) exhaustively in small']
    elif p == 'C21':
        t += ['EcsPar.tla (interleavings of calls on several registries) exhaustively in small']
    else:
        t += [_ECS]
    if p in PROFILES:
        t += [_REC]
    if p in BULK_QUICK:
        t += [_BULK]
    return _S + '; '.join(t), _N


CLAIMED = {p: _claim(p) for p in sorted(set(PROFILES) | set(LOW_OF) | set(BULK_QUICK))}
NOT_APPLICABLE = {}
