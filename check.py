#!/usr/bin/env python3
"""Decides one property: check.py C01 .. C30   (VERIF_TIER, VERIF_SEED)
   check.py --setup            builds everything
   check.py --judge SCRIPT     runs a script (a replay) through the real code and judges it"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *
import scripts
import plan


class Run:
    """What one check did."""

    def __init__(s, prop):
        s.prop = prop
        s.states = s.transitions = s.traces = s.executions = s.events = 0
        s.viol = []          # (line of text, replay path)
        s.samples = []
        s.notes = []
        s.ops = {}
        s.models = {}
        s.lock = threading.Lock()
        s.pool = ThreadPoolExecutor(8)

    def violation(s, what, replay):
        with s.lock:
            s.viol.append((what, replay))


# -----------------------------------------------------------------------------------------------
# Executions of the real code, judged by a trace specification

def tally(run, events_file):
    with open(events_file) as f:
        for x in f:
            try:
                e = json.loads(x)
            except ValueError:
                continue
            k = e.get('op', '?')
            if 'ok' in e:
                k += ':%s' % e['ok']
            if e.get('mode'):
                k += ':' + e['mode'] + (':mut' if e.get('mut') else '') + (':rows' if e.get('rows') else ':empty')
            if e.get('panic'):
                k += ':panic'
            run.ops[k] = run.ops.get(k, 0) + 1
            run.events += 1


def judge(run, spec, script_file, lines, name, events_file, cfg=None):
    """TLC walks the recorded execution; every <<property, line>> it reports is a violation."""
    out, ok = tlc(spec, cfg, env={'TRACE': events_file}, timeout=800)
    v = verdict(out)
    if v is None:
        v = partial_verdict(out)
        if v:
            run.notes.append('the rest of trace %s could not be compared after its violations' % name)
    elif not ok:
        v = None
    if not v and not ok:
        raise ToolError('trace specification %s did not finish on %s:\n%s' % (spec, name, out[max(0, out.find('Error:')):][:3000]))
    g, d = counts(out)
    with run.lock:
        run.states += d
        run.transitions += max(0, g - 1)
        run.traces += 1
        tally(run, events_file)
    mine = sorted(ln for p, ln in v if p == run.prop)
    others = sorted({p for p, ln in v if p != run.prop})
    if v:
        log('trace', name, 'violates', sorted(v))
    if mine:
        rp = save_replay(run.prop, name, cut_script(lines, mine[0]),
                         ['%s violated at the last line of this script' % run.prop,
                          'replay: ./check.py --judge <this file>   (recorded by: %s)' % name, 'judge: %s' % spec])
        run.violation('%s: script line %d: %s' % (name, mine[0], lines[mine[0] - 1][:120]), rp)
    elif others:
        run.notes.append('trace %s violates %s (not this property)' % (name, ','.join(others)))


def record_and_judge(run, text, name, bins, spec='EcsTrace', cfg=None, timeout=240):
    """Runs one script with every binary; identical recordings are judged once."""
    lines = text.split('\n')
    sf = os.path.join(WORK, name + '.txt')
    with open(sf, 'w') as f:
        f.write(text)
    seen = {}
    for bname, b in bins:
        ef = os.path.join(WORK, '%s-%s.ndjson' % (name, bname))
        crash = run_harness(b, sf, ef, os.path.join(WORK, '%s-%s.intent' % (name, bname)), timeout=timeout)
        if crash:
            log('execution', name, bname, 'ended early:', crash)
        with run.lock:
            run.executions += 1
        with open(ef, 'rb') as fh:
            dig = hashlib.sha256(fh.read()).hexdigest()
        if dig in seen:
            os.unlink(ef)
            continue
        seen[dig] = ef
        judge(run, spec, sf, lines, '%s-%s' % (name, bname), ef, cfg)
    for ef in seen.values():
        try:
            os.unlink(ef)
        except OSError:
            pass


def profile_jobs(run, prop, bins):
    jobs = []
    for prof, n_q, c_q, n_t, c_t in plan.PROFILES.get(prop, []):
        n, c = (n_t, c_t) if THOROUGH else (n_q, c_q)
        for i in range(c):
            seed = '%s/%s/%d/%d' % (prop, prof, SEED, i)
            text = scripts.script(prof, seed, n)
            name = '%s-%d' % (prof, i)
            if len(run.samples) < 3:
                run.samples.append({'profile': prof, 'seed': seed, 'script_excerpt': text.split('\n')[1:14]})
            jobs.append(run.pool.submit(record_and_judge, run, text, name, bins))
    return jobs


# -----------------------------------------------------------------------------------------------
# Model checking and behaviours for replay

def model_job(run, module, cfg, workers=4, timeout=800):
    t = time.time()
    out, ok = tlc(module, cfg, workers=workers, timeout=timeout, heap='6g', quick_jit=not THOROUGH)
    if not ok:
        raise ToolError('the model %s/%s does not check:\n%s' % (module, cfg, out[max(0, out.find('Error:')):][:3000]))
    g, d = counts(out)
    with run.lock:
        run.states += d
        run.transitions += g
        run.models['%s/%s' % (module, cfg)] = {'states_generated': g, 'distinct_states': d,
                                               'checked': cfg_properties(cfg), 'exhaustive': True,
                                               'seconds': round(time.time() - t, 1)}
    log('model', cfg, '%d states generated, %d distinct' % (g, d))


def cfg_properties(cfg):
    res = []
    for l in open(os.path.join(SPEC, cfg + '.cfg')):
        if l.startswith(('INVARIANT', 'PROPERT')):
            res += l.split()[1:]
    return res


def cover_job(run, cfg, nkinds, bins, nscripts, limit):
    """Every transition of the implementation-shaped machine, replayed into the real code."""
    import cover
    out, ok = tlc('EcsImpl', cfg, workers=1, timeout=800, heap='6g', quick_jit=False)
    if not ok:
        raise ToolError('generating behaviours with %s failed:\n%s' % (cfg, out[max(0, out.find('Error:')):][:2000]))
    g, d = counts(out)
    texts, states, edges, walks = cover.make(out, '%s/%d' % (run.prop, SEED), nscripts, nkinds, limit=limit)
    with run.lock:
        run.states += d
        run.transitions += g
        run.models['EcsImpl/' + cfg] = {'states': states, 'transitions_covered_by_replay' if limit is None else
                                        'transitions': edges, 'histories_replayed': walks,
                                        'exhaustive': limit is None}
    log('behaviours of', cfg, ': %d states, %d transitions, %d histories' % (states, edges, walks))
    run.samples.append({'generated_from': cfg, 'script_excerpt': texts[0].split('\n')[:14]})
    return [run.pool.submit(record_and_judge, run, t, '%s-%d' % (cfg, i), bins) for i, t in enumerate(texts)]


# -----------------------------------------------------------------------------------------------

def known_findings(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l[len('known: '):])
    return out


def write_evidence(run, prop, broken=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': run.states, 'transitions': run.transitions,
            'traces_validated_against_impl': run.traces,
            'executions_of_the_real_code': run.executions,
            'events_judged': run.events,
            'events_by_operation_and_outcome': dict(sorted(run.ops.items())),
            'models': run.models,
            'samples': run.samples,
        },
        'assumptions': plan.ASSUMPTIONS,
        'wall_s': round(time.time() - T0, 2),
        'violations': len(run.viol),
    }
    if run.notes:
        ev['coverage']['notes'] = run.notes[:20]
    if broken:
        ev['coverage']['broken'] = broken
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == '--setup':
        setup_work()
        with ThreadPoolExecutor(4) as p:
            fs = [p.submit(build, *b) for b in plan.ALL_BUILDS]
            for f in fs:
                log('built', f.result())
        clean_work()
        return 0
    if sys.argv[1] == '--judge':
        setup_work()
        run = Run('C01')
        text = open(sys.argv[2]).read()
        spec = re.search(r'^// judge: (\w+)', text, re.M)
        spec = spec.group(1) if spec else 'EcsTrace'
        for bname, b in plan.JUDGES[spec]:
            ef = os.path.join(WORK, bname + '.ndjson')
            c = run_harness(build(*b), sys.argv[2], ef, os.path.join(WORK, 'intent'))
            out, ok = tlc(spec, env={'TRACE': ef})
            print(bname, 'crash: %s' % c if c else 'completed', sorted(verdict(out) or partial_verdict(out)))
        clean_work()
        return 0
    prop = sys.argv[1]
    run = Run(prop)
    setup_work()
    code = 0
    try:
        jobs = plan.start(run, prop)
        while jobs:
            r = jobs.pop(0).result()
            if isinstance(r, list):     # a job may return further jobs
                jobs += r
    except BuildBroken as e:
        rp = save_replay(prop, 'build', str(e).split('\n'), ['compile-time evaluation of the library failed'])
        run.violation('the library fails at compile time', rp)
    except ToolError as e:
        print('ERROR', e, flush=True)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        run.pool.shutdown(wait=True, cancel_futures=True)
    if code == 2 and run.viol:
        code = 0    # a violation was established all the same
    write_evidence(run, prop)
    clean_work()
    for k in known_findings(prop):
        print('KNOWN-FINDING:', k)
    if run.viol:
        for what, rp in run.viol[:10]:
            print('  ', what)
        print('VIOLATION property=%s replay=%s' % (prop, run.viol[0][1]), flush=True)
        return 1
    if code == 0:
        log('%s holds on everything explored: %d executions, %d events judged, %d traces, %d states'
            % (prop, run.executions, run.events, run.traces, run.states))
    return code


if __name__ == '__main__':
    sys.exit(main())
