"""C25: drivers, nodes, messages and objects in one program work as if they were alone (spec/Side)."""
import copy
from fractions import Fraction
from vlib import *
import dbc as D
import drv as R
from drv import Driver, require_package, steps, Package
from p_run import cfgfile, random_doc, add_markers, rand_cfg, phys_for, decorate

SETS = [('Tdrv', 'Tdrv2'), ('a', 'ab', 'b'), ('can1', 'can2', 'can3'), ('X1_y', 'X2_y'), ('body', 'bodyctl'), ('z', 'Zz'), ('main', 'aux'),
        ('d1', 'd11', 'd111'), ('Pack', 'Unpack'), ('u8', 'i8'), ('gw_a', 'gw_b', 'gwa'), ('rx', 'tx'), ('lib', 'inc'), ('Alpha', 'alphA2')]
NODES = ['N0', 'N1', 'Gw']


def like(rng, doc, ids):
    """another bus's document with the same names for other things"""
    ms = []
    for m in doc.msgs:
        dlc = rng.choice([m.dlc, 8, rng.randint(1, 64)])
        names = [s.name for s in m.sigs]
        rng.shuffle(names)
        sigs = D.disjoint_sigs(rng, dlc, len(names), set())
        for s, n in zip(sigs, names):
            s.name = n
            if rng.random() < .5 and s.l <= 50:
                D.int_scale(rng, s)
        ext = rng.random() < .5
        ms.append(D.Msg(m.name, m.id if rng.random() < .4 and not ext and m.id < 0x800 else D.new_id(rng, ids, ext), dlc, sigs, ext=ext))
    rng.shuffle(ms)
    if len({m.id for m in ms}) < len(ms):
        return like(rng, doc, ids)
    return D.Dbc(ms)


def documents(rng, n):
    kind = rng.choice(['same', 'like', 'like', 'apart', 'apart', 'apart'])
    big = rng.random() < .15
    first = random_doc(rng, rng.randint(1, 4), 4 if not big else 12)
    docs = [first]
    for _ in range(n - 1):
        if kind == 'same':
            docs.append(copy.deepcopy(first))
        elif kind == 'like':
            docs.append(like(rng, first, set()))
        else:
            while True:
                x = random_doc(rng, rng.randint(1, 4), 4)
                names = [m.name.lower() for d in docs for m in d.msgs]
                if not {m.name.lower() for m in x.msgs} & set(names):
                    break
            if rng.random() < .7:        # fields of the same name in messages of different drivers
                for m in x.msgs:
                    o = rng.choice(first.msgs)
                    have = {s.name.lower() for s in m.sigs}
                    for s, t in zip(m.sigs, o.sigs):
                        if t.name.lower() not in have and sum(u.name == t.name for q in x.msgs for u in q.sigs) == 0:
                            have.discard(s.name.lower())
                            s.name = t.name
                            have.add(t.name.lower())
            docs.append(x)
    for k, d in enumerate(docs):
        add_markers(rng, d, .7, .5)
        decorate(rng, d, rename=False)
        d.ver = (k + 1, rng.randint(0, 9)) if rng.random() < .7 else (1, 2)
        d.nodes = NODES
        for m in d.msgs:
            m.tx = rng.choice(NODES)
            for s in m.sigs:
                s.recs = rng.sample(NODES, rng.choice([1, 1, 2]))
    return kind, docs


def utilities(p, doc, nodeutils):
    """(stem, messages received, messages sent)"""
    if not nodeutils:
        return [(p.low, list(doc.msgs), [])]
    res = []
    for n in doc.nodes:
        tx = [m for m in doc.msgs if m.tx == n or n in m.moretx]
        rx = [m for m in doc.msgs if m not in tx and any(n in s.recs for s in m.sigs)]
        if rx or tx:
            res.append((('%s_%s' % (n, p.drv)).lower(), rx, tx))
    return res


def harness(n, p, doc, c, utils, alloc, headers):
    """the harness of one driver, to be called by the program's main function"""
    t = R.c_harness(doc, p.drv, c)
    t = t.replace('vh_tick(void)', 'vh_tick_%d(void)' % n).replace('vh_hash(', 'vh_hash_%d(' % n)
    t = t.replace('if (f->has) {', 'if (p) {').replace('g_nf = 0; }', 'g_nf = 0; memset(g_f, 0, sizeof g_f); memset(g_h, 0, sizeof g_h); }')
    a, b = 'int main(void) { int k, i, d; static char a[4096];', ' while (fgets(line, sizeof line, stdin)) { switch (line[0]) {'
    e = ' } fflush(stdout); } return 0; }'
    assert a in t and b in t and t.rstrip().endswith(e)
    nm = len([m for m in doc.msgs if m.sigs])
    o = ['static unsigned dg(const void* p, size_t n) { const uint8_t* b = p; unsigned h = 2166136261u; size_t j; for (j = 0; j < n; j++) h = (h ^ b[j]) * 16777619u; return (h ^ (h >> 13)) & 0x7fffffffu; }']
    for j, (stem, rx, tx) in enumerate(utils):
        if rx:
            o.append('static struct { uint8_t g0[16]; %s_rx_t m; uint8_t g1[16]; } X%d;' % (stem, j))
    o.append('static void recv_(int j, int glob, unsigned id, int dlc, const char* hex) { uint32_t ret = 0; uint8_t* b = g_buf + 16; unsigned s = 0; static uint8_t cp[sizeof(g_buf)]; clr(); prep(g_buf, (int)sizeof(g_buf)); hexd(hex, b); memcpy(cp, g_buf, sizeof cp); g_expect_buf = b; (void)glob; switch (j) {')
    for j, (stem, rx, tx) in enumerate(utils):
        if rx:
            if alloc:
                o.append(' case %d: ret = %s_Receive(glob ? &%s_rx : &X%d.m, b, id, (uint8_t)dlc); s = glob ? dg(&%s_rx, sizeof %s_rx) : dg(&X%d.m, sizeof X%d.m); break;' % (j, stem, stem, j, stem, stem, j, j))
            else:
                o.append(' case %d: ret = %s_Receive(&X%d.m, b, id, (uint8_t)dlc); s = dg(&X%d.m, sizeof X%d.m); break;' % (j, stem, j, j, j))
    o.append(' } printf("R %d %x %x %d", j, ret, s, memcmp(cp, g_buf, sizeof cp) == 0); calls(); }')
    o.append('static void send_(int j, int q) { uint32_t ret = 0; uint8_t len = 0, ide = 0; const uint8_t* d; int x, n = 0; clr(); (void)len; (void)ide; (void)x; (void)d; (void)n; (void)q; switch (j) {')
    if alloc:
        for j, (stem, rx, tx) in enumerate(utils):
            if tx:
                o.append(' case %d: switch (q) {' % j)
                for q, m in enumerate(tx):
                    g = '&%s_tx.%s' % (stem, m.name)
                    if c['can']:
                        o.append('  case %d: { static __CoderDbcCanFrame_t__ f; g_expect_buf = f.Data; ret = Pack_%s_%s(%s, &f); len = f.DLC; ide = f.IDE; d = f.Data; memcpy(g_buf, d, 64); } n = %d; break;' % (q, m.name, p.drv, g, m.dlc))
                    else:
                        o.append('  case %d: g_expect_buf = g_buf; ret = Pack_%s_%s(%s, g_buf, &len, &ide); n = %d; break;' % (q, m.name, p.drv, g, m.dlc))
                o.append(' } break;')
    o.append(' } printf("Q %d %d %x %x %x ", j, q, ret, len, ide); for (x = 0; x < n; x++) printf("%02x", g_buf[x]); calls(); }')
    o.append('void hx_dig_%d(void); void hx_dig_%d(void) { int k; (void)k;' % (n, n))
    for i in range(nm):
        o.append(' for (k = 0; k < NI; k++) printf(" %%u", dg(&w%d[k], sizeof w%d[k]));' % (i, i))
    for j, (stem, rx, tx) in enumerate(utils):
        if rx:
            o.append(' printf(" %%u", dg(&X%d, sizeof X%d));' % (j, j))
            if alloc:
                o.append(' printf(" %%u", dg(&%s_rx, sizeof %s_rx));' % (stem, stem))
        if tx and alloc:
            o.append(' printf(" %%u", dg(&%s_tx, sizeof %s_tx));' % (stem, stem))
    o.append('}')
    t = t.replace(a, '\n'.join(o) + '\nvoid hx_init_%d(void); void hx_init_%d(void) { int k;' % (n, n))
    t = t.replace(b, ' }\nvoid hx_step_%d(char* line); void hx_step_%d(char* line) { int k, i, d; static char a[4096]; { switch (line[0]) {\n' % (n, n) +
                  '  case \'R\': { unsigned id = 0; int g = 0; sscanf(line + 2, "%d %d %x %d %200s", &i, &g, &id, &d, a); recv_(i, g, id, d, a); } break;\n'
                  '  case \'Q\': sscanf(line + 2, "%d %d", &i, &k); send_(i, k); break;')
    t = t.rstrip()[:-len(e)] + ' } } }\n'
    inc = ['#include "%s"' % h for h in headers] + ['#include "%s-binutil.h"' % u[0] for u in utils]
    return '\n'.join(inc) + '\n' + t


MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static int cur; static char line[1 << 16];
%(decl)s
uint32_t vh_tick(void); uint32_t vh_tick(void) { switch (cur) { %(tick)s } return 0; }
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op);
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op) { switch (cur) { %(hash)s } return 0; }
static void dig(void) { printf("D"); %(dig)s printf("\n"); fflush(stdout); }
int main(void) { char* s; %(init)s dig();
 while (fgets(line, sizeof line, stdin)) { cur = (int)strtol(line, &s, 10); s++; switch (cur) { %(step)s } dig(); } return 0; }
'''


class Program:
    """several generated drivers, each with its harness, in one executable"""

    def __init__(self, c, parts, alloc, shared, order, opt):
        self.d = c.scr.own('side')
        N = [n for n, *_ in parts]
        src = os.path.join(self.d, 'main.c')
        f = lambda s, sep=' ': sep.join(s % {'n': n} for n in N)
        with open(src, 'w') as h:
            h.write(MAIN % {'decl': f('void hx_init_%(n)d(void); void hx_step_%(n)d(char*); void hx_dig_%(n)d(void); uint32_t vh_tick_%(n)d(void); uint32_t vh_hash_%(n)d(const void*, uint32_t, uint32_t, uint32_t, uint32_t);', '\n'),
                            'tick': f('case %(n)d: return vh_tick_%(n)d();'), 'hash': f('case %(n)d: return vh_hash_%(n)d(d, len, id, method, op);'),
                            'dig': f('hx_dig_%(n)d();'), 'init': f('hx_init_%(n)d();'), 'step': f('case %(n)d: hx_step_%(n)d(s); break;')})
        units = [src]
        defs, incs = [], []
        for n, p, doc, cf, ut in parts:
            u = os.path.join(self.d, 'h%d.c' % n)
            heads = [q.low + '.h' for _, q, *_ in parts] + [x[0] + '-binutil.h' for *_, y in parts for x in y] if shared else []
            order.shuffle(heads)
            with open(u, 'w') as h:
                h.write(harness(n, p, doc, cf, ut, alloc, heads))
            units += [u, p.path('lib', p.low + '.c')] + [p.path('butl', x[0] + '-binutil.c') for x in ut]
            defs += ([] if p.edited else R.cfg_defs(p.drv, cf)) + (['-D__DEF_%s__' % x[0].upper() for x in ut] if alloc else [])
            incs += p.incs()
        head, tail = units[:1], units[1:]
        order.shuffle(tail)
        self.exe = os.path.join(self.d, 'prog')
        rc, out = run(['gcc', opt, '-w', '-o', self.exe] + defs + incs + head + tail, 600)
        self.ok, self.msg = rc == 0, out

    def run(self, cmds, box):
        """per command: (what it made observable, digests); the first entry is the start"""
        rc, out = run_nobody([self.exe], box, stdin=('\n'.join(cmds) + '\n').encode() if cmds else b'', timeout=120)
        res, cur = [], []
        for x in out.split('\n'):
            if x[:1] == 'D':
                res.append((' '.join(cur), [int(v) for v in x.split()[1:]]))
                cur = []
            elif x:
                cur.append(x)
        return res, rc

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def script(r, parts, alloc, length):
    """commands in the order of the program: (driver, object key or None, text, text for the object alone);
    keys: ('m', message, instance), ('x', utility, global), ('t', utility)"""
    B = {}
    for n, p, doc, cf, ut in parts:
        b = Driver.__new__(Driver)
        b.pkg, b.c, b.ms = p, cf, [m for m in doc.msgs if m.sigs]
        b.cmds, b.wants, b.sel, b.san = [], [], {}, False
        B[n] = (b, ut)
    out = []

    def emit(n, key):
        b = B[n][0]
        for t in b.cmds:
            out.append((n, key, t))
        b.cmds, b.wants = [], []
    for n, (b, ut) in B.items():
        for i in range(len(b.ms)):
            for k in range(3):
                b.zero(i, k)
                emit(n, ('m', i, k))
    packed = {n: [] for n in B}
    last = None
    for _ in range(length):
        n = r.choice(sorted(B))
        b, ut = B[n]
        i, k = r.randrange(len(b.ms)), r.randrange(3)
        if last and last[0] in B and r.random() < .4:        # the counterpart in another driver, right after
            n = r.choice([x for x in sorted(B) if x != last[0]] or [last[0]])
            b, ut = B[n]
            i, k = min(last[1], len(b.ms) - 1), last[2]
        last = (n, i, k)
        m, x = b.ms[i], r.random()
        if x < .08:
            b.tick(r.choice([r.getrandbits(32), r.randrange(100), 0xffffffff]))
            emit(n, None)
        elif x < .13:
            b.hash(r.choice([0, 1, 1, 9]), r.randrange(256))
            emit(n, None)
        elif x < .35:
            raw = [r.choice([r.randint(*s.rng()), s.rng()[1], s.rng()[0]]) if s.scaled() or r.random() < .6 else r.getrandbits(64) for s in m.sigs]
            b.set(i, k, raw, phys_for(r, m, [min(max(v, s.dom()[0]), s.dom()[1]) for v, s in zip(raw, m.sigs)]) if b.c['sf'] else ())
            b.pack(i, k, i)
            emit(n, ('m', i, k))
            packed[n].append(i)
        elif x < .45:
            b.pack(i, k, i)
            emit(n, ('m', i, k))
            packed[n].append(i)
        elif x < .5 and b.c['mon']:
            b.preset(i, k, r.getrandbits(32), r.getrandbits(32), r.randrange(8))
            emit(n, ('m', i, k))
        elif x < .6 and i in packed[n]:
            b.deliver(i, k, i)
            emit(n, ('m', i, k))
        elif x < .75:
            b.unpack(i, k, r.randbytes(m.dlc), r.choice([m.dlc, 0, r.randint(0, 64)]))
            emit(n, ('m', i, k))
        elif x < .82:
            j = r.randrange(len(m.sigs))
            if m.sigs[j].scaled():
                s = m.sigs[j]
                raw = r.randint(*s.dom())
                if r.random() < .5:
                    b.conv(i, j, False, raw, r.random() < .5)
                else:
                    v = raw * Fraction(s.fac) + Fraction(s.off)
                    b.conv(i, j, True, float(v) if s.dec() else int(v), r.random() < .5)
                emit(n, ('c', i, j))
        elif ut:
            j = r.randrange(len(ut))
            stem, rx, tx = ut[j]
            if rx and (not tx or r.random() < .7):
                glob = int(alloc and r.random() < .4)
                t = r.choice(rx)
                fid = r.choice([t.id, t.id, t.id, r.choice([q.id for y in parts for q in y[2].msgs]), r.getrandbits(29)])
                out.append((n, ('x', j, glob), 'R %d %d %x %d %s' % (j, glob, fid, r.choice([t.dlc, 8, 0, 64]), r.randbytes(64).hex())))
            elif tx and alloc:
                out.append((n, ('t', j), 'Q %d %d' % (j, r.randrange(len(tx)))))
    return out


def configure(p, cf):
    """edit the driver's configuration file as its user does"""
    f = p.path('conf', p.low + '-config.h')
    t = open(f, encoding='latin-1').read()
    more = []
    for x in R.cfg_defs(p.drv, cf):
        name, _, val = x[2:].partition('=')
        t, n = re.subn(r'(?://|/\*)[ \t]*#define[ \t]+%s\b(?:[^\n]*?\*/)?' % name, '#define %s %s' % (name, val), t)
        if not n:
            more.append('#define %s %s' % (name, val))
    if more:            # next to what the file includes
        at = t.find('#include')
        at = t.find('\n', at) + 1 if at >= 0 else len(t)
        t = t[:at] + '\n'.join(more) + '\n' + t[at:]
    with open(f, 'w', encoding='latin-1') as h:
        h.write(t)


def objects(parts, alloc):
    """the objects of the program in the order of the digests"""
    res = []
    for n, p, doc, cf, ut in parts:
        for i in range(len([m for m in doc.msgs if m.sigs])):
            res += [(n, ('m', i, k)) for k in range(3)]
        for j, (stem, rx, tx) in enumerate(ut):
            if rx:
                res += [(n, ('x', j, g)) for g in range(2 if alloc else 1)]
            if tx and alloc:
                res.append((n, ('t', j)))
    return res


def C25(c):
    c.model_check('SideMC', cfgfile('SideMC_thorough' if c.thorough else 'SideMC'))
    r = tlc(c.scr, 'SideMC', cfgfile('SideMC_shared'))
    if r.rc != 12:
        raise CheckError('the model does not notice shared state (TLC exit %s)' % r.rc)
    rng = c.rng
    c.exe()
    jobs = [rng.getrandbits(32) for _ in range(400 if c.thorough else 100)]

    def one(seed):
        r = random.Random(seed)
        names = list(r.choice(SETS))
        r.shuffle(names)
        names = names[:r.choice([2, 2, 3])]
        kind, docs = documents(r, len(names))
        together = r.random() < .4
        parts, first = [], None
        for n, (name, doc) in enumerate(zip(names, docs)):
            nu = r.random() < .6
            st = D.Style(r, 1)
            p = require_package(Package(c, doc, drv=name, style=st, nodeutils=nu, into=first.dir if together and first else None))
            first = first or p
            cf = rand_cfg(r)
            p.edited = r.random() < .5
            if p.edited:            # the user switches features on in the driver's configuration file
                configure(p, cf)
            parts.append((n, p, doc, cf, [u for u in utilities(p, doc, nu) if u[1] or u[2]]))
        alloc = r.random() < .5
        shared = kind == 'apart'
        opt = r.choice(['-O0', '-O1', '-O2'])
        cmds = script(r, parts, alloc, 90 if not c.thorough else 160)
        about = {'drivers': [dict(p.about(), cfg=cf) for _, p, _, cf, _ in parts], 'kind': kind, 'alloc': alloc, 'script': ['%d %s' % (n, t) for n, _, t in cmds]}
        objs = objects(parts, alloc)
        prog = Program(c, parts, alloc, shared, r, opt)
        row = {'built': prog.ok, 'says': fault_line(prog.msg) if not prog.ok else '', 'dig': [0] * len(objs), 'ev': []}
        if prog.ok:
            # the data a delivery hands over is what was packed before
            res, rc = prog.run(['%d %s' % (n, t) for n, _, t in cmds], parts[0][1].dir)
            row['dig'] = res[0][1] if res else [0] * len(objs)
            solo = {}
            for n, p, doc, cf, ut in parts:
                sp = Program(c, [(n, p, doc, cf, ut)], alloc, False, r, opt)
                if not sp.ok:
                    raise Violation('the generated driver does not compile alone', dict(about, output=sp.msg[:3000]))
                for key in {k for m, k, _ in cmds if m == n and k}:
                    mine, slots = [], {}
                    for x, (m, k, t) in enumerate(cmds):
                        if m != n:
                            continue
                        if t[0] == 'P' and x + 1 < len(res):
                            f = t.split()
                            slots[f[3]] = payload(res[x + 1][0])
                        if k == key or k is None:
                            if t[0] == 'V':
                                f = t.split()
                                t = 'U %s %s %s %s' % (f[1], f[2], f[3], slots.get(f[4]) or '-')
                            mine.append((x, k, '%d %s' % (n, t)))
                    got, rc1 = sp.run([t for _, _, t in mine], p.dir)
                    for y, (x, k, _) in enumerate(mine):
                        if k is not None:
                            solo[x] = got[y + 1][0] if y + 1 < len(got) else 'crash'
                sp.close()
            index = {o: x + 1 for x, o in enumerate(objs)}
            for x, (n, k, t) in enumerate(cmds):
                crash = x + 1 >= len(res) or (x + 1 == len(cmds) and rc != 0)
                obs = '' if crash else res[x + 1][0]
                row['ev'].append({'own': index.get((n, k), 0), 'obs': obs, 'solo': solo.get(x, '') if not crash else '', 'crash': crash, 'dig': [] if crash else res[x + 1][1]})
                if crash:
                    break
        prog.close()
        for _, p, *_ in parts:
            shutil.rmtree(p.dir, ignore_errors=True)
        return row, about
    res = pmap(one, jobs)
    rows = [x[0] for x in res]
    c.count('programs', len(rows))
    c.count('objects', sum(len(x['dig']) for x in rows))
    c.count('calls', sum(len(x['ev']) for x in rows))
    for k in ('same', 'like', 'apart'):
        c.cov['programs_' + k] = sum(x[1]['kind'] == k for x in res)
    log('%d programs with several drivers, %d objects, %d calls' % (len(rows), c.cov['objects'], c.cov['calls']))
    c.sample({'drivers': [d['drvname'] for d in res[0][1]['drivers']], 'script': res[0][1]['script'][:12], 'event': rows[0]['ev'][:1]})
    c.validate('SideTrace', rows, '', steps(rows), lambda t: res[t][1])


def payload(obs):
    f = obs.split(' ')
    return f[8] if len(f) > 8 and f[0] == 'P' else '-'


def fault_line(out):
    m = re.search(r'[^\n]*(?:error|multiple definition|undefined reference|redefin|conflict)[^\n]*', out)
    return re.sub(r'[^ -~]|["\\]', ' ', re.sub(r'/tmp/\S*/', '', m.group(0) if m else out[:200]))[:200]


# ------------------------------------------------------------------------------------------------
# C26: calls that overlap

def overlap_harness(parts, threads, rounds):
    """a program in which every thread calls every generated function on objects of its own; argument: the number of
    the one thread to run, or nothing for all at once"""
    o = ['#include "%s.h"' % p.low for _, p, *_ in parts] + ['#include "%s-binutil.h"' % u[0] for *_, ut in parts for u in ut]
    o.append(r'''
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define NT %d
#define ROUNDS %d
#define MAXC 4096
typedef unsigned long long u64; typedef long long i64;
uint32_t vh_tick(void); uint32_t vh_tick(void) { return 77u; }
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op);
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op) { uint32_t h = id ^ method ^ op, i; for (i = 0; i < len; i++) h = (h ^ ((const uint8_t*)d)[i]) * 16777619u; return (h ^ (h >> 11)) & 0xffu; }
static pthread_barrier_t bar; static int all;
static unsigned dg(unsigned h, const void* p, size_t n) { const uint8_t* b = p; size_t j; for (j = 0; j < n; j++) h = (h ^ b[j]) * 16777619u; return h; }
static u64 rnd(u64* s) { *s = *s * 6364136223846793005ull + 1442695040888963407ull; return *s >> 17; }
''' % (threads, rounds))
    for _, p, doc, cf, ut in parts:
        if cf['mon']:
            if cf['mono']:
                o.append('void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id); void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id) { (void)p; (void)id; }' % (p.low, p.low))
            else:
                for m in doc.msgs:
                    o.append('void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id); void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id) { (void)p; (void)id; }' % (m.name, p.low, m.name, p.low))
    o.append('typedef struct { unsigned n; unsigned v[MAXC]; uint8_t pad0[64];')
    for n, p, doc, cf, ut in parts:
        for i, m in enumerate(doc.msgs):
            o.append(' %s_t m%d_%d; uint8_t q%d_%d[64];' % (m.name, n, i, n, i))
        for j, (stem, rx, tx) in enumerate(ut):
            if rx:
                o.append(' %s_rx_t x%d_%d; uint8_t y%d_%d[64];' % (stem, n, j, n, j))
        if cf['can']:
            o.append(' __CoderDbcCanFrame_t__ f%d;' % n)
    o.append(' uint8_t d[80], o[80], len, ide, pad1[64]; u64 s; } task; static task tasks[NT];')
    o.append('static void add(task* t, unsigned v) { if (t->n < MAXC) t->v[t->n] = (v ^ (v >> 13)) & 0x7fffffffu; t->n++; }')
    o.append('static void* body(void* a) { task* t = a; unsigned h, r, j; u64 x; if (all) pthread_barrier_wait(&bar); (void)j; (void)x;')
    o.append(' for (r = 0; r < ROUNDS; r++) {')
    for n, p, doc, cf, ut in parts:
        for i, m in enumerate(doc.msgs):
            w = 't->m%d_%d' % (n, i)
            o.append('  for (j = 0; j < 64; j++) t->d[j] = (uint8_t)rnd(&t->s); h = Unpack_%s_%s(&%s, t->d, (uint8_t)(rnd(&t->s) & 1 ? %d : rnd(&t->s) %% 65)); add(t, dg(h, &%s, sizeof %s));' % (m.name, p.drv, w, m.dlc, w, w))
            o.append('  if (rnd(&t->s) & 1) {')
            for s in m.sigs:
                if not s.scaled():
                    o.append('   x = rnd(&t->s) * 0x9E3779B97F4A7C15ull; %s.%s = (%s)x;' % (w, s.field(), 'i64' if s.signed else 'u64'))
            o.append('  }')
            if cf['can']:
                o.append('  h = Pack_%s_%s(&%s, &t->f%d); h = dg(h, t->f%d.Data, %d); h = dg(h, &t->f%d.DLC, 1);' % (m.name, p.drv, w, n, n, m.dlc, n))
            else:
                o.append('  h = Pack_%s_%s(&%s, t->o, &t->len, &t->ide); h = dg(h, t->o, %d); h = dg(h, &t->len, 1);' % (m.name, p.drv, w, m.dlc))
            o.append('  add(t, dg(h, &%s, sizeof %s));' % (w, w))
        for j, (stem, rx, tx) in enumerate(ut):
            if rx:
                o.append('  { static const uint32_t ids[] = { %s }; for (j = 0; j < 64; j++) t->d[j] = (uint8_t)rnd(&t->s); h = %s_Receive(&t->x%d_%d, t->d, ids[rnd(&t->s) %% %d], (uint8_t)(rnd(&t->s) %% 65)); add(t, dg(h, &t->x%d_%d, sizeof t->x%d_%d)); }'
                         % (', '.join('0x%xu' % m.id for m in rx) + ', 0x1ffffff7u', stem, n, j, len(rx) + 1, n, j, n, j))
    o.append(' } return 0; }')
    o.append(r'''int main(int argc, char** argv) { int t; unsigned i; pthread_t th[NT]; int only = argc > 1 ? atoi(argv[1]) : -1;
 for (t = 0; t < NT; t++) { memset(&tasks[t], 0, sizeof tasks[t]); tasks[t].s = 1000003u * (unsigned)(t + 1); }
 all = only < 0; pthread_barrier_init(&bar, 0, NT);
 if (!all) body(&tasks[only]);
 else { for (t = 0; t < NT; t++) if (pthread_create(&th[t], 0, body, &tasks[t])) return 9; for (t = 0; t < NT; t++) pthread_join(th[t], 0); }
 for (t = 0; t < NT; t++) if (all || t == only) { printf("T %d", t); for (i = 0; i < tasks[t].n && i < MAXC; i++) printf(" %u", tasks[t].v[i]); printf("\n"); }
 printf("end\n"); return 0; }
''')
    return '\n'.join(o) + '\n'


def races(out):
    """the conflicting pairs a race detector reported"""
    res = []
    for k, part in enumerate(out.split('WARNING: ThreadSanitizer: data race')[1:]):
        part = part.split('==================')[0]
        acc = re.findall(r'^\s+(?:Previous )?(?:atomic )?(read|write) of size \d+ at \S+ by (?:main thread|thread T(\d+))[^\n]*\n\s+#0 (\S+)', part, re.M | re.I)
        if len(acc) < 2:
            raise CheckError('cannot read a report of the race detector:\n' + part[:1500])
        for w, t, fn in acc[:2]:
            res.append({'t': int(t or 0), 'at': k, 'w': w.lower() == 'write', 'fn': fn})
    return res


def C26(c):
    c.model_check('ReentMC', cfgfile('ReentMC_thorough' if c.thorough else 'ReentMC'))
    r = tlc(c.scr, 'ReentMC', cfgfile('ReentMC_common'))
    if r.rc != 12:
        raise CheckError('the model does not notice a common temporary (TLC exit %s)' % r.rc)
    rng = c.rng
    c.exe()
    threads, rounds = 4, 12
    jobs = [rng.getrandbits(32) for _ in range(200 if c.thorough else 80)]
    # does the detector work here, and does it see a race when there is one?
    d = c.scr.own('ts')
    probe = os.path.join(d, 'p')
    with open(probe + '.c', 'w') as h:
        h.write('#include <pthread.h>\nstatic int x; static void* f(void* p) { x++; return p; }\nint main(void) { pthread_t a, b; pthread_create(&a, 0, f, 0); pthread_create(&b, 0, f, 0); pthread_join(a, 0); pthread_join(b, 0); return 0; }\n')
    rc, out = run(['gcc', '-g', '-fsanitize=thread', '-o', probe, probe + '.c'], 120)
    env = {'TSAN_OPTIONS': 'exitcode=0 report_thread_leaks=0 second_deadlock_stack=0'}
    rc, out = run_nobody([probe], c.scr.dir('ts'), env=env) if rc == 0 else (1, out)
    wrap = []
    if len(races(out)) != 2:
        wrap = ['setarch', '-R']
        rc, out = run_nobody(wrap + [probe], c.scr.dir('ts'), env=env)
    if len(races(out)) != 2:
        raise CheckError('the race detector does not work here: ' + out[:500])

    def one(seed):
        r = random.Random(seed)
        names = list(r.choice(SETS))
        r.shuffle(names)
        names = names[:r.choice([1, 1, 2])]
        while True:
            kind, docs = documents(r, len(names))
            if kind == 'apart' or len(names) == 1:      # one translation unit
                break
        parts = []
        for n, (name, doc) in enumerate(zip(names, docs)):
            nu = r.random() < .5
            p = require_package(Package(c, doc, drv=name, style=D.Style(r, 1), nodeutils=nu))
            parts.append((n, p, doc, rand_cfg(r, **({'mon': True, 'roll': True} if r.random() < .5 else {})), [u for u in utilities(p, doc, nu) if u[1]]))
        d = c.scr.own('ov')
        src, exe = os.path.join(d, 'h.c'), os.path.join(d, 'h')
        with open(src, 'w') as h:
            h.write(overlap_harness(parts, threads, rounds))
        units, defs, incs = [src], [], []
        for n, p, doc, cf, ut in parts:
            units += [p.path('lib', p.low + '.c')] + [p.path('butl', x[0] + '-binutil.c') for x in ut]
            defs += R.cfg_defs(p.drv, cf)
            incs += p.incs()
        about = {'drivers': [dict(p.about(), cfg=cf) for _, p, _, cf, _ in parts]}
        rc, out = run(['gcc', '-g', r.choice(['-O0', '-O1', '-O2']), '-w', '-fsanitize=thread', '-pthread', '-o', exe] + defs + incs + units, 600)
        if rc != 0:
            raise Violation('the generated driver does not compile', dict(about, output=out[:3000]))
        box = parts[0][1].dir

        def tasks(out):
            return {int(x.split()[1]): [int(v) for v in x.split()[2:]] for x in out.split('\n') if x.startswith('T ')}
        alone = {}
        for t in range(threads):
            rc, out = run_nobody(wrap + [exe, str(t)], box, env={'TSAN_OPTIONS': 'report_bugs=0'}, timeout=120)
            alone[t] = tasks(out).get(t, [])
        rep = c.scr.dir('rep')
        rc, out = run_nobody(wrap + [exe], box, env={'TSAN_OPTIONS': env['TSAN_OPTIONS'] + ' log_path=%s/r' % rep}, timeout=120)
        got, said = tasks(out), ''.join(open(os.path.join(rep, f), encoding='latin-1').read() for f in sorted(os.listdir(rep)))
        acc = races(said)
        evs = []
        for t in range(threads):
            mine = [a for k in range(0, len(acc), 2) if acc[k]['t'] == t + 1 or t == 0 == acc[k]['t'] for a in acc[k:k + 2]]
            evs.append({'crash': rc != 0 or t not in got or not alone[t], 'got': got.get(t, []), 'alone': alone[t], 'acc': [{k: a[k] for k in ('t', 'at', 'w')} for a in mine],
                        'says': ' / '.join(sorted({a['fn'] for a in mine}))[:120]})
        about['output'] = said[:3000] if acc else ''
        shutil.rmtree(d, ignore_errors=True)
        for _, p, *_ in parts:
            shutil.rmtree(p.dir, ignore_errors=True)
        return {'ev': evs}, about
    res = pmap(one, jobs, 4)
    rows = [x[0] for x in res]
    c.count('programs', len(rows))
    c.count('overlapping_calls', sum(len(e['got']) for x in rows for e in x['ev']))
    c.cov['threads'] = threads
    log('%d programs of %d threads, %d calls' % (len(rows), threads, c.cov['overlapping_calls']))
    c.sample({'drivers': [x['drvname'] for x in res[0][1]['drivers']], 'calls_of_a_thread': len(rows[0]['ev'][0]['got']), 'left': rows[0]['ev'][0]['got'][:5]})
    c.validate('ReentTrace', rows, '', steps(rows), lambda t: res[t][1])
