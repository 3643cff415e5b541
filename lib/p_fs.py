"""C16-C19: histories of runs of the real program (and user actions) in a world of its own, validated against
spec/FsTrace.  Every world lies in the scratch box; the program runs as nobody."""
from vlib import *
import dbc as D
from p_run import cfgfile, aspects

SHIM = r'''
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
static time_t now(void) { const char* s = getenv("FAKE_NOW"); return s ? (time_t)atoll(s) : 1000000000; }
time_t time(time_t* t) { time_t n = now(); if (t) *t = n; return n; }
int gettimeofday(struct timeval* tv, void* z) { (void)z; if (tv) { tv->tv_sec = now(); tv->tv_usec = 123456; } return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { (void)c; ts->tv_sec = now(); ts->tv_nsec = 42; return 0; }
'''


def documents_():
    """the inputs: key -> (path below the world's in/, document)"""
    S = D.Sig
    a = D.Dbc([D.Msg('Alpha', 0x101, 8, [S('a1', 0, 8, recs=['N1']), S('a2', 8, 12, True, True, fac='2', off='-3', recs=['N1', 'N0'])], tx='N0', cyc=10),
               D.Msg('Beta', 0x18FF0102, 8, [S('cnt', 0, 4, roll=True, recs=['N1']), S('crc', 8, 8, csm=('XOR8', 3), recs=['N1']), S('val', 16, 16, fac='0.5', recs=['N1'])], ext=True, tx='N0', comment='text')],
              ver=(1, 2), nodes=['N0', 'N1'])
    b = D.Dbc([D.Msg('Gamma', 0x7, 3, [S('g1', 0, 3, vals=[(0, 'off'), (1, 'on')], recs=['Gw'])], tx='N1'),
               D.Msg('Delta', 0x9, 64, [S('d%d' % i, 32 * i, 32, recs=['Gw']) for i in range(16)], tx='Gw')], ver=(7, 0), nodes=['N1', 'Gw'])
    e = D.Dbc([], ver=(0, 1))
    # like a, and all its files have the same sizes
    v = D.Dbc([D.Msg('Alpha', 0x102, 8, [S('a1', 0, 8, recs=['N1']), S('a2', 8, 11, True, True, fac='3', off='-2', recs=['N1', 'N0'])], tx='N0', cyc=20),
               D.Msg('Beta', 0x18FF0103, 8, [S('cnt', 0, 4, roll=True, recs=['N1']), S('crc', 8, 8, csm=('XOR8', 4), recs=['N1']), S('val', 16, 16, fac='0.5', recs=['N1'])], ext=True, tx='N0', comment='else')],
              ver=(2, 1), nodes=['N0', 'N1'])
    return {'v': ('d/net.dbc', v), 'x': ('a/net.dbc', a), 'y': ('b/net.dbc', b), 'z': ('a/other name.DBC', a), 'q': ('c/empty.dbc', e)}


NODESOF = {'v': ['n0', 'n1'], 'x': ['n0', 'n1'], 'y': ['n1', 'gw'], 'z': ['n0', 'n1'], 'q': []}


def cname(s):
    r = ''
    for ch in s:
        if ch.isascii() and (ch.isalpha() or ch == '_' or (r and ch.isdigit())):
            r += ch
        elif ch == ' ':
            r += '_'
    return r


class Lab:
    """what all worlds share: the program, the documents, contents seen, references"""

    def __init__(self, c):
        self.c = c
        self.exe = c.exe()
        self.lock = threading.Lock()
        self.ids, self.bytes = {}, []
        self.docs = {k: (p, D.render(d).encode()) for k, (p, d) in documents_().items()}
        self.docs['x'] = (self.docs['x'][0], self.docs['x'][1])
        for k, (p, t) in self.docs.items():
            self.ident(t, 'doc:' + k if k != 'z' else 'doc:x')
        self.refs = {}
        sh = os.path.join(c.scr.root, 'shim.so')
        src = os.path.join(c.scr.root, 'shim.c')
        with open(src, 'w') as h:
            h.write(SHIM)
        rc, out = run(['gcc', '-shared', '-fPIC', '-O1', '-o', sh, src], 60)
        if rc != 0:
            raise CheckError('time shim: ' + out)
        self.shim = sh

    def ident(self, b, name=None):
        with self.lock:
            if b not in self.ids:
                self.ids[b] = name or 'c%d' % len(self.ids)
                self.bytes.append(b)
            return self.ids[b]

    def label(self, b):
        """the name of a content; +date when exactly one comment line is more than in a known one"""
        with self.lock:
            if b in self.ids:
                return self.ids[b]
            for r in self.bytes:
                d = len(b) - len(r)
                if 0 < d < 200:
                    p = len(os.path.commonprefix([b, r]))
                    s = b.rfind(b'\n', 0, p) + 1
                    x = b[s:s + d]
                    if x.startswith(b'//') and x.endswith(b'\n') and x.count(b'\n') == 1 and b[:s] + b[s + d:] == r:
                        return self.ids[r] + '+date'
        return '?' + hashlib.sha1(b).hexdigest()[:8]

    def ref(self, key, drv):
        with self.lock:
            if (key, drv) in self.refs:
                return self.refs[key, drv]
        res = {}
        for nu in (True, False):
            d = self.c.scr.dir('ref')
            p = os.path.join(d, os.path.basename(self.docs[key][0]))
            with open(p, 'wb') as h:
                h.write(self.docs[key][1])
            o = os.path.join(d, 'o')
            os.mkdir(o)
            os.chown(o, NOBODY, NOBODY)
            rc, out = run_nobody([self.exe, '-dbc', p, '-out', o, '-drvname', drv, '-rw'] + (['-nodeutils'] if nu else []), d)
            for root, ds, fs in os.walk(o):
                for f in fs:
                    rel = os.path.relpath(os.path.join(root, f), o)
                    with open(os.path.join(root, f), 'rb') as h:
                        b = h.read()
                    if rel.startswith('butl/') or not nu:
                        res[rel] = self.ident(b)
            if rc != 0 or (not nu and 'lib/%s.h' % drv.lower() not in res):
                raise Violation('no code is generated for an accepted DBC (exit %s)' % rc, {'doc': self.docs[key][1].decode(), 'drvname': drv, 'output': out[-1500:], 'files': sorted(res)})
            shutil.rmtree(d, ignore_errors=True)
        with self.lock:
            self.refs[key, drv] = res
        return res


# the help text is the output which names them all
OPTIONS = ('-dbc', '-out', '-drvname', '-rw', '-driverdir', '-nodeutils', '-noconfig', '-noinc', '-nofmon', '-gendate')


class World:
    def __init__(self, lab, rng, wild=False):
        self.lab, self.rng, self.wild = lab, rng, wild
        self.d = lab.c.scr.dir('w')
        self.root = os.path.join(self.d, 'root')
        self.mk(self.root)
        for x in ('o1', 'o2', 'cwd', 'cwd/sub', 'in', 'in/a', 'in/b', 'in/c', 'in/d'):
            self.mk(os.path.join(self.root, x))
        for k, (p, t) in lab.docs.items():
            with open(os.path.join(self.root, 'in', p), 'wb') as h:
                h.write(t)
        with open(os.path.join(self.root, 'in', 'locked.dbc'), 'wb') as h:      # cannot be read
            h.write(lab.docs['x'][1])
        os.chmod(os.path.join(self.root, 'in', 'locked.dbc'), 0)
        os.symlink('nowhere', os.path.join(self.root, 'in', 'dangling.dbc'))
        os.symlink(self.root, os.path.join(self.d, 'alias'))
        self.stuck = []
        self.nedit = 0
        self.ev, self.log = [], []
        self.useddrv = set()
        self.used_docs = set()
        self.start = self.tree()

    def mk(self, p):
        if not os.path.isdir(p):
            os.makedirs(p)
        q = p
        while len(q) > len(self.d):
            os.chown(q, NOBODY, NOBODY)
            q = os.path.dirname(q)

    def abs(self, p):
        return os.path.join(self.root, *p)

    def tree(self):
        files, dirs = [], [[]]
        for r, ds, fs in os.walk(self.root):
            for x in ds:
                dirs.append(os.path.relpath(os.path.join(r, x), self.root).split('/'))
            for x in fs:
                p = os.path.join(r, x)
                if os.path.islink(p):
                    c = 'link'
                else:
                    with open(p, 'rb') as h:
                        c = self.lab.label(h.read())
                files.append({'p': os.path.relpath(p, self.root).split('/'), 'c': c})
        return {'files': files, 'dirs': dirs, 'stuck': list(self.stuck)}

    # user actions -----------------------------------------------------------------------------
    def user(self, what):
        self.ev.append({'op': 'user', 'tree': self.tree()})
        self.log.append(what)

    def write(self, p, text):
        a = self.abs(p)
        self.mk(os.path.dirname(a))
        if os.path.islink(a):
            os.unlink(a)
        with open(a, 'w') as h:
            h.write(text)
        os.chown(a, NOBODY, NOBODY)

    def act(self, a):
        try:
            self.act1(a)
        except (FileExistsError, NotADirectoryError, FileNotFoundError, IsADirectoryError):
            # the real tree is not the predicted one (a run that gave up): whatever the user could do counts
            self.user('attempt ' + dumps(a))

    def act1(self, a):
        k = a['a']
        if k == 'run':
            self.run(self.tokens(a['r']))
        elif k == 'par':
            self.par([self.tokens(r) for r in a['rs']])
        elif k == 'kill':
            self.run(self.tokens(a['r']), kill=self.rng.uniform(0, 0.012))
        elif k == 'edit':
            p = self.abs(a['p'])
            if os.path.isfile(p) and not os.path.islink(p):
                self.nedit += 1
                mode = self.rng.choice(['w', 'a', 'r+'])
                size = os.path.getsize(p)
                with open(p, mode) as h:
                    if mode == 'r+' and size > 40:
                        # the size stays
                        h.seek(self.rng.randrange(size - 40))
                    h.write('/* user edit %d */\n' % self.nedit)
                self.user('edit ' + p)
        elif k == 'del':
            p = self.abs(a['p'])
            if os.path.isfile(p) or os.path.islink(p):
                os.unlink(p)
                self.user('delete ' + p)
        elif k == 'ro':
            p = self.abs(a['p'])
            if os.path.exists(p) and not os.path.islink(p):
                os.chmod(p, 0o444 if os.path.isfile(p) else 0o555)
                self.stuck.append(a['p'])
                self.user('make read-only ' + p)
        elif k == 'full':
            p = self.abs(a['p'])
            if os.path.isfile(p):
                os.unlink(p)
                os.symlink('/dev/full', p)
                self.stuck.append(a['p'])
                self.user('link to /dev/full ' + p)
        elif k == 'dirat':
            p = self.abs(a['p'])
            if os.path.isfile(p) or os.path.islink(p):
                os.unlink(p)
            self.mk(p)
            self.user('directory in the place of ' + p)
        elif k == 'occ':
            p = self.abs(a['p'])
            if not os.path.lexists(p):
                if a['d']:
                    self.mk(p)
                else:
                    self.nedit += 1
                    self.write(a['p'], 'occupied %d\n' % self.nedit)
                self.user('create %s %s' % ('directory' if a['d'] else 'file', p))
        elif k == 'rmtree':
            p = self.abs(a['p'])
            if os.path.isdir(p) and p.startswith('/tmp/verif-'):
                shutil.rmtree(p)
                self.user('remove tree ' + p)
        else:
            raise CheckError('unknown action ' + k)

    # runs -------------------------------------------------------------------------------------
    def spell(self, p, cwd):
        """a way to write the path p"""
        r = self.rng
        if not self.wild:
            return p
        al = os.path.join(self.d, 'alias', os.path.relpath(p, self.root))
        k = r.randrange(6)
        if k == 0:
            return p
        if k == 1:
            return os.path.relpath(p, cwd)
        if k == 2:
            return al
        if k == 3:
            return p.replace('/root/', '/root//') if r.random() < .5 else os.path.join(self.root, 'cwd', '..', os.path.relpath(p, self.root))
        if k == 4:
            return './' + os.path.relpath(p, cwd)
        return os.path.join(self.root, '.', 'in', '..', os.path.relpath(p, self.root))

    def tokens(self, r):
        g = self.rng
        cwd = self.root if not self.wild else g.choice([self.root, os.path.join(self.root, 'cwd'), os.path.join(self.root, 'cwd', 'sub'), os.path.join(self.root, 'in', 'a'), self.d])
        out = self.spell(self.abs(r['out']), cwd)
        if g.random() < .3:
            out += '/'
        parts = [['-dbc', self.spell(os.path.join(self.root, 'in', self.lab.docs[r['doc']][0]), cwd)], ['-out', out], ['-drvname', r['drv']]]
        for f, o in (('rw', '-rw'), ('dd', '-driverdir'), ('nc', '-noconfig'), ('nf', '-nofmon'), ('ni', '-noinc'), ('nu', '-nodeutils'), ('gd', '-gendate')):
            if r[f]:
                parts.append([o])
        if self.wild:
            g.shuffle(parts)
        return cwd, [x for p in parts for x in p]

    def token(self, t, cwd):
        if t.startswith('-'):
            return {'k': t, 'e': False, 'ch': [], 'out': [], 'doc': ''}
        res = {'k': '', 'e': t == '', 'ch': [ord(x) for x in t], 'out': [], 'doc': ''}
        if t:
            p = os.path.realpath(os.path.join(cwd, t))
            if p == self.root:
                res['out'] = [[]]
            elif p.startswith(self.root + '/'):
                res['out'] = [os.path.relpath(p, self.root).split('/')]
            for k, (q, _) in self.lab.docs.items():
                if p == os.path.join(self.root, 'in', q) and os.path.exists(os.path.join(cwd, t)):
                    res['doc'] = k
            self.useddrv.add(cname(t))
            if res['doc']:
                self.used_docs.add(res['doc'])
        return res

    def env(self):
        r = self.rng
        if not self.wild:
            return {}, self.lab.exe
        e = {'TZ': r.choice(['UTC', 'America/New_York', 'Asia/Tokyo', 'XYZ+13', '']), 'LD_PRELOAD': self.lab.shim,
             'FAKE_NOW': str(r.choice([0, 1, 86399, 951782400, 1709251199, 1735689599, 2147483647, 4102444800, r.randrange(2 ** 32), 253402300799])),
             'MALLOC_PERTURB_': str(r.choice([0, 1, 85, 170, 255])), 'LC_ALL': r.choice(['C', 'C.UTF-8', 'POSIX']), 'SOMETHING': 'x' * r.randrange(3000)}
        return e, self.lab.exe

    def popen(self, cwd, args):
        env, exe = self.env()
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TMPDIR': self.d}
        e.update(env)
        b = [exe] + [a.encode('latin-1') for a in args]
        return subprocess.Popen(b, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                                preexec_fn=contained(b), user=NOBODY, group=NOBODY, extra_groups=[])

    def finish(self, p):
        try:
            out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return 'hang', ''
        return p.returncode, out.decode('latin-1')

    def run(self, ct, kill=None):
        cwd, args = ct
        toks = [self.token(t, cwd) for t in args]
        # contents are recognised only after their reference is known
        for d in sorted({cname(''.join(map(chr, b['ch']))) for a, b in zip(toks, toks[1:]) if a['k'] == '-drvname' and not b['k']} - {''}):
            for k in sorted({t['doc'] for t in toks} - {''}):
                self.lab.ref(k, d)
        p = self.popen(cwd, args)
        if kill is not None:
            time.sleep(kill)
            os.killpg(p.pid, signal.SIGKILL)
        rc, out = self.finish(p)
        self.log.append(('killed run ' if kill is not None else 'run ') + ' '.join(repr(a) for a in args) + ' in ' + cwd + ' -> %s' % rc)
        self.ev.append({'op': 'run' if kill is None else 'kill', 'toks': toks, 'end': 'exit' if isinstance(rc, int) and rc >= 0 else 'abnormal', 'help': all(o in out for o in OPTIONS), 'tree': self.tree()})

    def par(self, cts):
        runs = [{'toks': [self.token(t, cwd) for t in args]} for cwd, args in cts]
        ps = [self.popen(cwd, args) for cwd, args in cts]
        rcs = [self.finish(p)[0] for p in ps]
        self.log.append('at the same time: ' + ' | '.join(' '.join(a) for _, a in cts) + ' -> %s' % rcs)
        self.ev.append({'op': 'par', 'runs': runs, 'tree': self.tree()})

    def row(self):
        drvs = sorted(x for x in self.useddrv if x)
        ref = {}
        for k in sorted(self.used_docs):
            ref[k] = {}
            for d in drvs:
                if any(self.is_driver(e, d) for e in self.ev):
                    ref[k][d] = self.lab.ref(k, d)
            ref[k]['-'] = {'-': '-'}
        ref['-'] = {'-': {'-': '-'}}
        # contents may have been labelled before their reference was known: labels are by content, so relabel
        row = {'ref': ref, 'nodes': dict({k: NODESOF[k] for k in ref if k != '-'}, **{'-': []}), 'tree': self.start, 'ev': self.ev}
        return row

    def is_driver(self, e, d):
        for toks in ([e['toks']] if 'toks' in e else [r['toks'] for r in e.get('runs', [])]):
            for a, b in zip(toks, toks[1:]):
                if a['k'] == '-drvname' and not b['k'] and cname(''.join(map(chr, b['ch']))) == d:
                    return True
        return False

    def close(self):
        # our own read-only directories do not keep root from removing them
        shutil.rmtree(self.d, ignore_errors=True)


GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxNum = 999\nKinds = %s\nOuts = {<<"o1">>, <<"o2">>, <<"new">>, <<"deep", "er">>}\nDrivers = {%s}\nDocs = {%s}\nDepth = %d\nPlain = %s\n'


def histories(c, kinds, num, depth, seed, plain=False, drivers=('can', 'drv2'), docs=('x', 'y', 'z', 'v')):
    # a .cfg file cannot contain tuples: a module with the constants instead
    mod = '''---- MODULE FsGenX ----
EXTENDS FsGen
OutsX == {<<"o1">>, <<"o2">>, <<"new">>, <<"deep", "er">>}
====
'''
    cf = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxNum = 999\nKinds = %s\nOuts <- OutsX\nDrivers = %s\nDocs = %s\nDepth = %d\nPlain = %s\n' % (
        tla_str_set(kinds), tla_str_set(drivers), tla_str_set(docs), depth, 'TRUE' if plain else 'FALSE')
    got = simulate(c.scr, 'FsGenX', cf, num, 6 * depth, seed, files={'FsGenX.tla': mod}, timeout=600)
    res = []
    for x in got:
        if not res or res[-1] != x:
            res.append(x)
    c.rng.shuffle(res)
    return res[:num]


def replay(c, lab, hist, asp, wild, extra=None):
    seeds = [c.rng.getrandbits(32) for _ in hist]

    def one(a):
        h, seed = a
        w = World(lab, random.Random(seed), wild)
        if extra:
            extra(w, h)
        else:
            for x in h:
                w.act(x)
        return w
    ws = pmap(one, list(zip(hist, seeds)))
    rows = [w.row() for w in ws]
    for w, r in zip(ws, rows):
        # +date labels found only once the plain content was known
        pass
    for w in ws:
        w.close()
    nr = sum(1 if e['op'] in ('run', 'kill') else 3 if e['op'] == 'par' else 0 for r in rows for e in r['ev'])
    c.count('runs', nr)
    c.count('histories', len(rows))
    log('%d histories with %d runs replayed' % (len(rows), nr))
    c.sample({'history': ws[0].log[:8]})
    c.validate('FsTrace', rows, 'MaxNum = 999\n' + aspects(*asp), sum(len(r['ev']) + 1 for r in rows), lambda t: {'history': ws[t].log})
    return rows


def C16(c):
    c.model_check('FsMC', cfgfile('FsMC_thorough' if c.thorough else 'FsMC'))
    lab = Lab(c)
    preload(lab)
    n = 6 if c.thorough else 1
    h = histories(c, ['run', 'run2', 'rw', 'edit', 'del', 'occ', 'rmtree', 'again', 'dirat'], 90 * n, 12, SEED, plain=True)
    h += histories(c, ['run', 'run2', 'rw', 'par', 'kill', 'edit', 'occ', 'rodir', 'subfile', 'ro'], 90 * n, 12, SEED + 1)
    replay(c, lab, h, ('place',), True)
    # all thousand numbers taken, and nearly so

    def full(w, spec):
        r = w.rng
        base = ['o1'] if spec[1] == 0 else ['o1', 'can']
        w.mk(w.abs(base))
        free = spec[0]
        for k in range(1000):
            if k not in free:
                p = w.abs(base + ['%03d' % k])
                if r.random() < .8:
                    w.mk(p)
                else:
                    with open(p, 'w') as h:
                        h.write('occupied\n')
        w.user('numbers taken in %s except %s' % (base, free))
        for _ in range(len(free) + 1):
            w.run(w.tokens({'out': ['o1'], 'drv': 'can', 'doc': 'x', 'rw': False, 'dd': spec[1] == 1, 'nc': False, 'nf': False, 'ni': False, 'nu': r.random() < .5, 'gd': False}))
    hs = [([], 0), ([999], 0), ([], 1), ([99, 100], 0), ([998], 1)] + ([([c.rng.randrange(1000)], k % 2) for k in range(10)] if c.thorough else [])
    replay(c, lab, hs, ('place',), False, extra=full)


def preload(lab):
    """references first: contents are then recognised wherever they turn up"""
    for k in ('x', 'y', 'z', 'q', 'v'):
        for d in ('can', 'drv2', 'Abc_9'):
            lab.ref(k, d)


def C17(c):
    c.model_check('FsMC', cfgfile('FsMC_thorough' if c.thorough else 'FsMC'))
    lab = Lab(c)
    preload(lab)
    n = 6 if c.thorough else 1
    h = histories(c, ['run', 'rw', 'rw2', 'again', 'edit', 'del'], 90 * n, 12, SEED)
    h += histories(c, ['rw', 'rw2', 'again', 'ro', 'full', 'dirat', 'edit', 'rodir', 'subfile'], 110 * n, 12, SEED + 2, drivers=('can',))
    h += histories(c, ['rw', 'again', 'full', 'dirat', 'ro'], 60 * n, 14, SEED + 3, drivers=('can', 'Abc_9'), docs=('x', 'y', 'q'))
    # the model's driver names are lower case where it predicts files; Abc_9 is met by runs only
    replay(c, lab, h, ('files',), False)


def C18(c):
    lab = Lab(c)
    preload(lab)
    n = 6 if c.thorough else 1
    h = histories(c, ['run', 'rw', 'rw2', 'again', 'edit', 'del', 'kill'], 160 * n, 12, SEED, drivers=('can', 'drv2', 'Abc_9'), docs=('x', 'y', 'z', 'q', 'v'))
    replay(c, lab, h, ('same',), True)


# ------------------------------------------------------------------------------------------------
# C19

NAMES = ['can', 'Abc_9', 'my drv', '1st', '9', '-', '', ' ', '  a', 'a-b.c', '../x', 'a/b', '%s%n', 'x"y', '_', '__', '123', '7_', 'é', 'ä1', '$', 'A B C', 'int', 'a\tb', 'a\\b', '*', 'drv2', "it's", 'a1b2', '0x1F', '\x01q', '~', 'Z' * 60, '1 2', '. .', '9 9z']
UNKNOWN = ['-x', '--rw', '-RW', '-Rw', '-rw1', '-dbcx', '-', '--', '-outdir', '-d', '-nodeutil', '-helpme', '--help', '-h', '-drv', '-noconfigx', '-version', '-drvname=', '-out=o1', '-rw ', '-gendates']


def command(w):
    """a random command line around the three required options"""
    g = w.rng
    cwd = g.choice([w.root, os.path.join(w.root, 'cwd')])
    good_dbc = lambda: w.spell(os.path.join(w.root, 'in', w.lab.docs[g.choice('xyz')][0]), cwd)
    good_out = lambda: w.spell(w.abs(g.choice([['o1'], ['o2'], ['gen'], ['a', 'b']])), cwd) + g.choice(['', '', '/'])

    def dbc():
        k = g.randrange(14)
        return '' if k == 0 else g.choice(['nothere.dbc', 'in/a/none', w.root + '/x/y', w.root + '/in/a', w.root + '/in/locked.dbc', w.root + '/in/dangling.dbc']) if k == 1 else good_dbc()

    def out():
        return '' if g.randrange(14) == 0 else good_out()

    def name():
        return g.choice(NAMES) if g.random() < .6 else 'can'
    parts = []
    for o, v in (('-dbc', dbc), ('-out', out), ('-drvname', name)):
        k = g.random()
        if k < .09:
            continue
        if k < .14:
            parts.append([o])
            continue
        parts.append([o, v()])
        if g.random() < .2:
            parts.append([o, v()])
        if g.random() < .04:
            parts.append([o])
    for f in ('-rw', '-driverdir', '-noconfig', '-nofmon', '-noinc', '-nodeutils', '-gendate'):
        if g.random() < .25:
            parts.append([f] + ([g.choice(['0', 'no', 'o1', 'false'])] if g.random() < .15 else []))
        if g.random() < .05:
            parts.append([f])
    if g.random() < .08:
        parts.append(['-help'] + (['o2'] if g.random() < .3 else []))
    for _ in range(g.choice([0, 0, 0, 1, 2])):
        parts.append([g.choice(UNKNOWN)] + ([g.choice(['v', 'o1', ''])] if g.random() < .4 else []))
    if g.random() < .2:
        parts.append([g.choice(['stray', 'o2', '', 'in/a/net.dbc'])])
    g.shuffle(parts)
    args = [x for p in parts for x in p]
    if g.random() < .03:
        args = []
    # option values that are themselves words starting with '-' are options: nothing to do, the specification knows
    return cwd, [a for a in args if '\x00' not in a]


def C19(c):
    c.model_check('CliMC', cfgfile('CliMC_thorough' if c.thorough else 'CliMC'))
    lab = Lab(c)
    preload(lab)

    def script(w, n):
        for _ in range(n):
            w.run(command(w))
    # permutations of a full command line, each in a fresh world
    import itertools
    base = [['-dbc', 'in/a/net.dbc'], ['-out', 'o1'], ['-drvname', 'Abc_9'], ['-rw'], ['-zz', 'v']]

    def perm(w, p):
        w.run((w.root, [x for q in p for x in q]))
    ps = list(itertools.permutations(base))
    if not c.thorough:
        ps = c.rng.sample(ps, 60)
    jobs = [lambda w, p=p: perm(w, p) for p in ps]
    # all subsets of the required options, with and without values
    for mask in itertools.product((0, 1, 2, 3), repeat=3):
        parts = []
        for (o, v), m in zip((('-dbc', 'in/b/net.dbc'), ('-out', 'o2'), ('-drvname', 'can')), mask):
            parts += [[], [o], [o, ''], [o, v]][m]
        for hlp in ([], ['-help']):
            jobs.append(lambda w, a=parts, h=hlp: (w.run((w.root, a + h)), w.run((w.root, h + a + ['-rw']))))
    for bad in ('in/locked.dbc', 'in/dangling.dbc', 'in/a', 'in/none.dbc', '/dev/null/x', '.'):
        for extra in ([], ['-rw'], ['-driverdir']):
            jobs.append(lambda w, bad=bad, extra=extra: w.run((w.root, ['-dbc', bad, '-out', 'o1', '-drvname', 'can'] + extra)))
    for nm in NAMES:
        jobs.append(lambda w, nm=nm: w.run((w.root, ['-dbc', 'in/a/net.dbc', '-out', 'o1', '-drvname', nm, '-rw'])))
    for ch in range(1, 256):
        if ch not in (45,):
            jobs.append(lambda w, ch=ch: (w.run((w.root, ['-drvname', chr(ch), '-dbc', 'in/c/empty.dbc', '-out', 'o1'])), w.run((w.root, ['-drvname', 'q' + chr(ch) + '1', '-dbc', 'in/c/empty.dbc', '-out', 'o1']))))
    for _ in range(1500 if c.thorough else 160):
        jobs.append(lambda w: script(w, 10))
    replay(c, lab, jobs, ('cli',), False, extra=lambda w, f: f(w))
