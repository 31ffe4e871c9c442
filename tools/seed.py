#!/usr/bin/env python3
"""Keeps planted bugs (/verif/seeded/<id>/) honest.

  seed.py fresh                  a scratch copy of /repo at /tmp/w/repo, to edit
  seed.py add ID PROP DEMO NEEDS BREAKS
                                 keeps the edit made there as /verif/seeded/ID if it builds, passes the stable
                                 tests, and DEMO (a Rust main file) fails with it and passes without it
  seed.py detect [ID[:PROP,PROP] ...]
                                 runs the checks against the changes in a copy (/tmp/x); prints what they say
No check uses this file."""
import json, os, re, shutil, subprocess, sys, time
V, R, W, X = '/verif', '/repo', '/tmp/w/repo', '/tmp/x'
DEMO = '''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it: exit 0 iff the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 2
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shard-ecs = { path = "$repo" }
[profile.dev]
debug = false
opt-level = 1
E
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 280 cargo run --offline --quiet
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout


def fresh():
    shutil.rmtree('/tmp/w', ignore_errors=True)
    os.makedirs('/tmp/w')
    sh(['cp', '-a', R, '/tmp/w/'])
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('cd /repo', 'cd ' + W).replace('/repo/target', W + '/target')
        open('/tmp/w/' + f, 'w').write(t)


def tests():
    rc, o = sh('bash /tmp/w/build.sh')
    if rc:
        return 'does not build\n' + o[-3000:]
    sh('bash /tmp/w/test.sh /tmp/w/out.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/w/out.json'))
    want = json.dumps(base)
    names = base.get('stable') or base.get('passed') or base.get('tests')
    got = set(out.get('passed') or [k for k, v in out.get('tests', {}).items() if v in ('pass', 'passed', True)])
    miss = [n for n in names if n not in got]
    return 'tests fail: %s' % miss if miss else None


def own_lines(diff):
    """Removed lines that commits of ours added."""
    bad = []
    f = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if f and not l.startswith(('+++', '---', 'diff', 'index')):
            if l.startswith('-'):
                rc, o = sh(['git', '-C', R, 'blame', '-s', '-L%d,%d' % (n, n), 'HEAD', '--', f])
                if not o.startswith('^'):
                    bad.append('%s:%d' % (f, n))
                else:
                    own_lines.good += 1
                n += 1
            elif not l.startswith('+'):
                n += 1
    return bad


own_lines.good = 0


def add(sid, prop, demo, needs, breaks):
    rc, diff = sh('git diff', cwd=W)
    if not diff.strip():
        sys.exit('no change')
    print(diff)
    bad = own_lines(diff)
    if bad or not own_lines.good:
        print('WARNING changed lines that are ours:', bad, 'original lines changed:', own_lines.good)
    t = tests()
    if t:
        sys.exit(t)
    d = os.path.join(V, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    if os.path.isdir(demo):
        for x in os.listdir(demo):
            shutil.copy(os.path.join(demo, x), d)
    else:
        shutil.copy(demo, d + '/demo.rs')
        open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree('/tmp/w/d', ignore_errors=True)
    os.makedirs('/tmp/w/d')
    for x in os.listdir(d):
        if not x.endswith(('.diff', '.json')):
            shutil.copy(os.path.join(d, x), '/tmp/w/d')
    t0 = time.time()
    a, oa = sh('bash /tmp/w/d/demo.sh', cwd=W)
    t1 = time.time()
    b, ob = sh('bash /tmp/w/d/demo.sh', cwd=R)
    print('demo with the change: %d (%.0f s)\n%s' % (a, t1 - t0, oa[-400:]))
    print('demo without: %d (%.0f s)\n%s' % (b, time.time() - t1, ob[-400:]))
    if a == 0 or b != 0 or 'could not compile' in oa:
        shutil.rmtree(d)
        sys.exit('NOT KEPT')
    print('kept', sid)


def copy_x():
    if not os.path.isdir(X):
        os.makedirs(X)
    sh('rsync -a --delete --exclude target --exclude .git %s/ %s/repo/' % (R, X))
    sh('rsync -a --delete --exclude target --exclude work --exclude .git --exclude seeded %s/ %s/verif/' % (V, X))


def detect(args):
    copy_x()
    ids = args or sorted(os.listdir(V + '/seeded'))
    res = {}
    for a in ids:
        sid, _, props = a.partition(':')
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
        sh('rsync -a --delete --exclude target --exclude .git %s/ %s/repo/' % (R, X))
        rc, o = sh('patch -p1 -s < %s/seeded/%s/patch.diff' % (V, sid), cwd=X + '/repo')
        if rc:
            print(sid, 'PATCH FAILED', o)
            continue
        for p in (props.split(',') if props else [meta['property']]):
            t = time.time()
            rc, o = sh(['./check.py', p], cwd=X + '/verif', env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                                                                     VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
            print('%-28s %s rc=%d %4.0f s  %s' % (sid, p, rc, time.time() - t,
                  'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % p in o else 'MISSED' if rc == 0 else 'BROKEN ' + o[-600:]), flush=True)
    sh('rsync -a --delete --exclude target --exclude .git %s/ %s/repo/' % (R, X))


if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'fresh':
        fresh()
    elif c == 'add':
        add(*sys.argv[2:])
    elif c == 'detect':
        detect(sys.argv[2:])
