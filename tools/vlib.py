"""Shared machinery of the checks: building the harnesses from /repo, running TLC, judging traces."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), 'repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
WORK = os.path.join(VERIF, 'work', 'run-%d' % os.getpid())
T0 = time.time()


class ToolError(Exception):
    """The check could not decide (neither pass nor violation)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def setup_work():
    os.makedirs(WORK, exist_ok=True)


def clean_work():
    shutil.rmtree(WORK, ignore_errors=True)


# ---------------------------------------------------------------------------------------------
# Building

def repo_hash():
    """Digest of everything a build of the library can depend on."""
    h = hashlib.sha256()
    for base in ('Cargo.toml', 'src', 'shard_ecs_derive'):
        p = os.path.join(REPO, base)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x != 'target')
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()[:12]


_build_lock = threading.Lock()
_built = {}


def target_dir():
    """A target directory of its own for every state of the library: nothing stale is ever reused."""
    t = os.path.join(VERIF, 'target', 'h-' + repo_hash())
    os.makedirs(t, exist_ok=True)
    os.utime(t)
    base = os.path.join(VERIF, 'target')

    def age(d):
        try:
            return time.time() - os.path.getmtime(os.path.join(base, d))
        except OSError:     # removed meanwhile, by another build
            return 0
    with _build_lock:
        for d, a in sorted(((d, age(d)) for d in os.listdir(base) if d.startswith('h-')), key=lambda x: x[1])[3:]:
            if a > 600:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    return t


class BuildBroken(Exception):
    """The library's compile-time evaluation failed: a statement about the library, not a tool error."""


def build(crate, profile='dev', features='', binary=None):
    """Builds /verif/<crate> and returns the path of its binary."""
    key = (crate, profile, features)
    cwd = os.path.join(VERIF, crate)
    t = os.path.join(target_dir(), crate)
    cmd = ['cargo', 'build', '--offline', '--quiet', '--profile', profile, '--target-dir', t]
    if features:
        cmd += ['--features', features]
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
    for k in ('CARGO_TARGET_DIR',):
        env.pop(k, None)
    for attempt in (1, 2):
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError('build of %s timed out' % crate)
        if r.returncode == 0:
            break
        if 'E0080' in r.stdout:
            raise BuildBroken(r.stdout[-2000:])
        if crate == 'crates/names' and re.search(r'^error.*\n *--> src/shapes\.rs', r.stdout, re.M):
            # The rest of the crate compiles, but not what the derive made of a type it used to accept.
            raise BuildBroken(r.stdout[-2000:])
        if crate == 'crates/sync' and 'E0277' in r.stdout:
            # A registry that may not be owned by another thread, or not be read by several.
            raise BuildBroken(r.stdout[-2000:])
        if attempt == 2:
            raise ToolError('build of %s failed:\n%s' % (crate, r.stdout[-4000:]))
        shutil.rmtree(t, ignore_errors=True)
    sub = {'dev': 'debug'}.get(profile, profile)
    return os.path.join(t, sub, binary or ('ecs-' + os.path.basename(crate)))


# ---------------------------------------------------------------------------------------------
# TLC

_tlc_n = [0]


def tlc(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap='3g', quick_jit=True):
    """Runs TLC on SPEC/module.tla; returns (output, ok)."""
    with _build_lock:
        _tlc_n[0] += 1
        meta = os.path.join(WORK, 'tlc%d' % _tlc_n[0])
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m']
    if quick_jit:
        cmd.append('-XX:TieredStopAtLevel=1')
    cmd += ['-Djava.io.tmpdir=' + WORK, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
            '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + \
           [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC on %s timed out' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout, r.returncode == 0 and 'No error has been found' in r.stdout


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def verdict(out):
    """The set of (property, script line) a trace specification printed."""
    m = re.search(r'<<\s*"VERDICT",\s*\{([^}]*)\}\s*>>', out)
    if not m:
        return None
    return {(a, int(b)) for a, b in re.findall(r'<<\s*"(C\d\d)",\s*(\d+)\s*>>', m.group(1))}


def partial_verdict(out):
    """What a trace specification had found when it could not evaluate the next event (an execution so far from
    the specification that comparing it no longer makes sense)."""
    m = re.findall(r'viol = \{([^}]*)\}', out)
    return {(a, int(b)) for a, b in re.findall(r'<<\s*"(C\d\d)",\s*(\d+)\s*>>', m[-1])} if m else set()


# ---------------------------------------------------------------------------------------------
# Recording

def run_harness(binary, script, events, intent, timeout=240, cwd=None):
    """Runs a script through the real code.  A crash or a hang becomes the last event."""
    try:
        r = subprocess.run([binary, script, events, intent], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd)
        rc = r.returncode
        err = r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    last = ''
    try:
        last = open(intent).read().strip()
    except OSError:
        pass
    if rc == 0 and last == 'done':
        return None
    try:
        ln = int(last.split()[0])
    except (ValueError, IndexError):
        ln = 0
    if rc == 3:     # the harness refused the script: not the library's fault
        raise ToolError('harness rejected %s line %s: %s' % (script, ln, err[-500:]))
    lines = []
    try:
        data = open(events, 'rb').read().decode('utf8', 'replace').split('\n')
        for x in data:
            if not x:
                continue
            try:
                json.loads(x)
            except ValueError:
                break
            lines.append(x)
    except OSError:
        pass
    if not lines:
        raise ToolError('harness produced nothing on %s (rc=%s): %s' % (script, rc, err[-800:]))
    lines.append(json.dumps({'op': 'crash', 'ln': ln}))
    with open(events, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return 'rc=%s at line %d %s' % (rc, ln, err[-300:])


def save_replay(prop, name, script_lines, note):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (prop, name))
    with open(p, 'w') as f:
        for n in note:
            f.write('// %s\n' % n)
        f.write('\n'.join(script_lines) + '\n')
    return os.path.relpath(p, VERIF)


def cut_script(lines, ln):
    """The part of a script that leads to line ln (1-based): from the last reset before it."""
    ln = max(1, min(ln, len(lines)))
    s = 0
    for i in range(ln - 1, -1, -1):
        if lines[i].strip() == 'reset':
            s = i
            break
    return [x for x in lines[:s] if x.startswith('search')] + lines[s:ln]
