"""Infrastructure: scratch area, build of coderdbc, contained execution, TLC, verdicts."""
import atexit, ctypes, concurrent.futures, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
NOBODY = 65534
CPUS = max(2, min(8, os.cpu_count() or 2))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """the machinery itself failed (neither held nor violated)"""


class Violation(Exception):
    def __init__(self, text, replay=None):
        super().__init__(text)
        self.text = text
        self.replay = replay or {}


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


T0 = time.time()


class Scratch:
    """A private directory below /tmp, removed at exit.  Everything generated by the code under
    test is written below `box`, which belongs to nobody, by processes running as nobody."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='verif-')
        os.chmod(self.root, 0o755)
        self.box = os.path.join(self.root, 'box')
        os.mkdir(self.box)
        os.chown(self.box, NOBODY, NOBODY)
        atexit.register(self.close)
        self.n = 0

    def close(self):
        if self.root and self.root.startswith('/tmp/verif-'):
            shutil.rmtree(self.root, ignore_errors=True)
            self.root = None

    def dir(self, name=None):
        """new directory owned by nobody"""
        self.n += 1
        d = os.path.join(self.box, '%s%d' % (name or 'd', self.n))
        os.mkdir(d)
        os.chown(d, NOBODY, NOBODY)
        return d

    def own(self, name=None):
        """new directory for our own build products (not writable by nobody)"""
        self.n += 1
        d = os.path.join(self.root, '%s%d' % (name or 'w', self.n))
        os.mkdir(d)
        return d


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)          # PR_SET_PDEATHSIG: no run outlives the check


def run(cmd, timeout=300, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                         preexec_fn=_die_with_parent, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 'hang', out.decode('latin-1')
    return p.returncode, out.decode('latin-1')


def contained(cmd):
    """what every program of the code under test gets before it starts"""
    gen = os.path.basename(cmd[0] if isinstance(cmd[0], str) else cmd[0].decode()) == 'coderdbc'

    def f():
        _libc.prctl(1, signal.SIGKILL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gen:
            resource.setrlimit(resource.RLIMIT_AS, (1 << 31, 1 << 31))
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    return f


def run_nobody(cmd, cwd, timeout=60, stdin=None, env=None, sep_err=False):
    """run a program of the code under test, contained: as nobody, in its own session"""
    e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TMPDIR': cwd}
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if not sep_err else subprocess.PIPE,
                         start_new_session=True, preexec_fn=contained(cmd), user=NOBODY, group=NOBODY, extra_groups=[])
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 'hang', out.decode('latin-1')
    return p.returncode, out.decode('latin-1')


def build_coderdbc(scr, tests=False):
    """build the CLI from the current working tree of the repository (its own CMake project)"""
    b = scr.own('build')
    common = ['-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
              '-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest', '-DINSTALL_GTEST=OFF']
    rc, out = run(['cmake', '-S', os.path.join(REPO, 'src'), '-B', b, '-G', 'Ninja',
                   '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O1 -D_GLIBCXX_ASSERTIONS'] + common, 300)
    if rc != 0:
        raise CheckError('cmake failed:\n' + out[-3000:])
    rc, out = run(['ninja', '-C', b, 'coderdbc'], 600)
    if rc != 0:
        raise CheckError('build failed:\n' + out[-3000:])
    exe = os.path.join(b, 'coderdbc')
    if not os.path.exists(exe):
        raise CheckError('no coderdbc binary')
    dst = os.path.join(scr.root, 'coderdbc')
    shutil.copy(exe, dst)
    os.chmod(dst, 0o755)
    shutil.rmtree(b)
    return dst


def pmap(fn, items, workers=None):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(workers or CPUS) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------------------------------------
# TLC

class TlcResult:
    pass


def tlc(scr, module, cfg, files=None, workers=None, args=(), timeout=800, heap='5g', name=None):
    """run TLC on spec/<module>.tla with the given cfg text. `files`: name -> text/bytes placed beside.
    returns rc, stdout, generated/distinct state counts"""
    d = scr.own('tlc')
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    for f, t in (files or {}).items():
        with open(os.path.join(d, f), 'wb') as h:
            h.write(t if isinstance(t, bytes) else t.encode())
    with open(os.path.join(d, 'MC.cfg'), 'w') as h:
        h.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss32m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC', '-config', 'MC.cfg',
           '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-workers', str(workers or CPUS)] + list(args) + [module + '.tla']
    t = time.time()
    rc, out = run(cmd, timeout, cwd=d)
    r = TlcResult()
    r.rc, r.out, r.dir, r.secs = rc, out, d, time.time() - t
    m = re.findall(r'([\d,]+) states generated,? \(?[^)]*?([\d,]+) distinct states', out)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states', out) or m
    r.generated = int(m[-1][0].replace(',', '')) if m else 0
    r.distinct = int(m[-1][1].replace(',', '')) if m else 0
    if not r.distinct:
        m = re.findall(r'([\d,]+) distinct states? generated', out)
        if m:
            r.distinct = r.generated = int(m[-1].replace(',', ''))
    r.printed = re.findall(r'^"?@@(.*?)"?$', out, re.M)
    return r


def tlc_state(out):
    """last printed state of a TLC error trace"""
    parts = re.split(r'^State \d+:.*$|^Error: Invariant \w+ is violated by the initial state:.*$', out, flags=re.M)
    return parts[-1].split('\n\n')[0].strip() if len(parts) > 1 else ''


def dumps(o):
    return json.dumps(o, separators=(',', ':'), sort_keys=True)


def ndjson(rows):
    return ''.join(dumps(r) + '\n' for r in rows)


def tla_str_set(s):
    return '{' + ', '.join('"%s"' % x for x in sorted(s)) + '}'


# ---------------------------------------------------------------------------------------------
# verdicts

def simulate(scr, module, cfg, num, depth, seed, files=None, timeout=300):
    """random behaviours of a specification; the module prints what it wants to hand over with @@"""
    r = tlc(scr, module, cfg, files=files, workers=1, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], timeout=timeout)
    if r.rc not in (0,):
        raise CheckError('simulation of %s: TLC exit %s\n%s' % (module, r.rc, r.out[-3000:]))
    shutil.rmtree(r.dir, ignore_errors=True)
    return [json.loads(json.loads('"%s"' % x)) for x in r.printed]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.scr = Scratch()
        self.rng = random.Random('%s/%d/%s' % (pid, SEED, TIER))
        self.thorough = TIER == 'thorough'
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self._exe = None
        self._lock = threading.Lock()
        self.known = load_known(pid)

    def exe(self):
        with self._lock:
            if self._exe is None:
                self._exe = build_coderdbc(self.scr)
                log('coderdbc built')
        return self._exe

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def model_check(self, module, cfg, expect_actions=(), **kw):
        """design-level model checking: an error here is an error of the specification"""
        r = tlc(self.scr, module, cfg, **kw)
        if r.rc != 0:
            raise CheckError('model %s: TLC exit %s\n%s' % (module, r.rc, r.out[-4000:]))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        log('model %s: %d distinct states, %d generated, %.1fs' % (module, r.distinct, r.generated, r.secs))
        shutil.rmtree(r.dir, ignore_errors=True)
        return r

    def validate(self, module, rows, consts='', steps=None, describe=None, heap='8g', invariant='Accepted', files=None):
        """trace validation: rows (one per trace) against spec/<module>; raises Violation on a rejected trace.
        Every trace must be consumed: the number of states is compared with the expected number."""
        if not rows:
            raise CheckError('no traces recorded for ' + module)
        cfg = 'SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n' % invariant
        if consts:
            cfg += 'CONSTANTS\n' + consts + '\n'
        data = ndjson(rows)
        r = tlc(self.scr, module, cfg, files=dict(files or {}, **{'trace.ndjson': data}), heap=heap)
        if r.rc == 12:
            st = tlc_state(r.out)
            # believe a rejection only if it repeats
            r2 = tlc(self.scr, module, cfg, files=dict(files or {}, **{'trace.ndjson': data}), heap=heap)
            if r2.rc != 12:
                raise CheckError('rejection by %s did not repeat (exit %s)' % (module, r2.rc))
            m = re.search(r'^/\\ tr = (\d+)', st, re.M)
            tr = int(m.group(1)) if m else 1
            m = re.search(r'^/\\ l = (\d+)', st, re.M)
            pos = int(m.group(1)) if m else 0
            m = re.search(r'^/\\ bad = (.*?)(?=^/\\|\Z)', st, re.M | re.S)
            bad = m.group(1).strip() if m else ''
            row = rows[tr - 1]
            raise Violation('trace %d rejected by %s at step %d: %s' % (tr, module, pos - 1, bad),
                            {'spec': module, 'step': pos - 1, 'bad': bad, 'state': st, 'trace': row,
                             'about': describe(tr - 1) if describe else None})
        if r.rc != 0:
            raise CheckError('%s: TLC exit %s\n%s' % (module, r.rc, r.out[-6000:]))
        if steps is not None and r.distinct != steps:
            raise CheckError('%s: %d states for %d expected: not every trace was consumed' % (module, r.distinct, steps))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['traces_validated_against_impl'] += len(rows)
        log('%s: %d traces accepted (%d states, %.1fs)' % (module, len(rows), r.distinct, r.secs))
        shutil.rmtree(r.dir, ignore_errors=True)
        return r

    def finish(self, violations=0):
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)


def load_known(pid):
    """entries `known: property=<id> key=<key> <text>` of known-findings.txt"""
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(pid, fn):
    rc = 2
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    c = Check(pid)
    try:
        fn(c)
        c.finish(0)
        log('property %s held on everything explored' % pid)
        rc = 0
    except Violation as v:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1((v.text + dumps(v.replay)).encode()).hexdigest()[:10]))
        with open(p, 'w') as h:
            json.dump({'property': pid, 'what': v.text, 'seed': SEED, 'tier': TIER, 'replay': v.replay}, h, indent=1, default=str)
        print(v.text[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
        c.finish(1)
        rc = 1
    except CheckError as e:
        print('CHECK ERROR:', e, flush=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        c.scr.close()
    return rc
