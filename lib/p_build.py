"""C20: complete packages built with real compilers in all configurations; outcomes validated against spec/BuildTrace."""
import itertools
from vlib import *
import dbc as D
import drv as R
from p_run import cfgfile, random_doc, add_markers, decorate

TEXTS = ['100%', '%s%n%d', 'a*/b', '/* open', '// slash', 'tab\there', 'back\\', 'back\\slash \\', '#define X', '#error', '<RollingCounter', 'Ümlaut µ °C', "it's", '(;){}', '@@##$$', 'km/h', '%', '1/min', '^2', 'a|b|c', '[x]', 'line1\nline2',
         'line1 \\\nline2\\\n\nline4', '__LINE__', 'x' * 300, '\\n', '\'', 'end.', 'tri??/', '??/\n??(??<', 'what??/ \nelse']


def text(rng, units=False):
    k = rng.random()
    if k < .6:
        t = rng.choice(TEXTS)
        if units and '\n' in t:
            t = '%'
    else:
        t = ''.join(rng.choice([chr(x) for x in range(33, 127) if x not in (34,)] + [' ', ' ']) for _ in range(rng.randint(1, 30)))
    return t


def nasty(rng, doc):
    """texts of all kinds where the format allows text"""
    for m in doc.msgs:
        if rng.random() < .5:
            m.comment = text(rng)
        if rng.random() < .3:
            m.cyc = rng.choice([1, 10, 100, 65535])
        for s in m.sigs:
            if rng.random() < .3:
                s.unit = text(rng, True)
            if rng.random() < .3:
                s.comment = text(rng)
            if s.l > 1 and rng.random() < .25:
                vals = rng.sample(range(min(1 << (s.l - s.signed), 200)), min(3, 1 << (s.l - s.signed)))
                s.vals = [(-v if s.signed and rng.random() < .4 else v, rng.choice(['on', 'not available', '1st gear', 'a-b', 'Err%d', 'state (x)', 'SNA', '12', '+', 'x*y/z']) + rng.choice(['', str(v)])) for v in vals]
            s.mn, s.mx = rng.choice([('0', '0'), ('-1.5', '1E3'), ('0', '255'), ('-40', '214.99')])
    return doc


def wide_doc(rng, tag, nmsg=None):
    doc = random_doc(rng, nmsg or rng.randint(1, 6), rng.choice([3, 8, 20]))
    add_markers(rng, doc, .5, .5)
    decorate(rng, doc)
    nodes = ['N0', 'N1', 'Gw', 'Ecu_%s' % tag]
    for m in doc.msgs:
        m.tx = rng.choice(nodes)
        for s in m.sigs:
            s.recs = rng.sample(nodes, rng.choice([1, 1, 2]))
        if rng.random() < .2:
            m.moretx = rng.sample(nodes, 1)
    if rng.random() < .3:
        doc.msgs.append(D.Msg('Empty%s' % tag, 0x7F0, 8, []))
    if rng.random() < .3:
        u = set()
        n = D.ident(rng, u, lo=60, hi=100)
        doc.msgs.append(D.Msg(n, 0x7F1, 8, [D.Sig(D.ident(rng, u, lo=60, hi=100), 0, 9, True, fac='2'), D.Sig(D.ident(rng, u, lo=60, hi=100), 32, 5)]))
    doc.ver = rng.choice([(1, 2), (0, 1), (12, 34), (7, 0), (65535, 99), (3, 3)])
    return nasty(rng, doc)


USER = r'''#ifndef USER_H
#define USER_H
#include <stdint.h>
typedef %s sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;
%s
#endif
'''
HASH = '''#ifdef __cplusplus
extern "C" {
#endif
uint32_t vh_tick(void);
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op);
#ifdef __cplusplus
}
#endif
#define GetSystemTick() vh_tick()
#define GetFrameHash(a,b,c,d,e) vh_hash(a,b,c,d,e)
'''


class Pkg:
    """a generated package left as it is (nothing replaced)"""

    def __init__(self, c, text_, drv, out, nodeutils, extra=()):
        self.drv, self.low, self.up, self.out, self.text = drv, drv.lower(), drv.upper(), out, text_
        d = c.scr.dir('src')
        p = os.path.join(d, 'in.dbc')
        with open(p, 'w', newline='', encoding='utf-8') as h:
            h.write(text_)
        a = [c.exe(), '-dbc', p, '-out', out, '-drvname', drv, '-rw'] + (['-nodeutils'] if nodeutils else []) + list(extra)
        self.rc, self.msg = run_nobody(a, out, timeout=120)
        if self.rc != 0 or not os.path.exists(os.path.join(out, 'lib', self.low + '.c')):
            raise Violation('generation fails on an accepted DBC (exit %s)' % self.rc, {'dbc': text_, 'drvname': drv})
        u = os.path.join(out, 'butl')
        self.utils = sorted(f[:-2] for f in os.listdir(u) if f.endswith('_%s-binutil.c' % self.low) or f == self.low + '-binutil.c')

    def incs(self):
        return ['-I' + os.path.join(self.out, x) for x in ('lib', 'conf', 'inc', 'butl')]

    def path(self, *a):
        return os.path.join(self.out, *a)

    def defs(self, cf, alloc):
        return R.cfg_defs(self.drv, cf) + (['-D__DEF_%s__' % u[:-len('-binutil')].upper() for u in self.utils] if alloc else [])


def client(pkgs, docs, cfgs, alloc, cpp, entry):
    o = ['#include "%s.h"' % p.low for p in pkgs]
    for p, cf in zip(pkgs, cfgs):
        if cf['mon']:
            o.append('#include "%s-fmon.h"' % p.low)
        o += ['#include "%s.h"' % u for u in p.utils]
    o.append('#include <string.h>')
    if entry == 'main':
        o.append('uint32_t vh_tick(void) { return 1; } uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op) { (void)d; (void)len; (void)id; (void)method; (void)op; return 0; }')
        o.append('uint32_t other(void);')
    fn = 'int main(void)' if entry == 'main' else ('extern "C" uint32_t %s(void); extern "C" uint32_t %s(void)' % (entry, entry) if cpp else 'uint32_t %s(void); uint32_t %s(void)' % (entry, entry))
    o.append(fn + ' { uint32_t r = 0; uint8_t b[64], l = 0, e = 0; memset(b, 0, 64); (void)l; (void)e;')
    for p, doc, cf in zip(pkgs, docs, cfgs):
        for m in doc.msgs:
            if not m.sigs:
                continue
            o.append(' { static %s_t m;' % m.name)
            if cf['can']:
                o.append(' __CoderDbcCanFrame_t__ f; memset(&f, 0, sizeof f); r += Pack_%s_%s(&m, &f);' % (m.name, p.drv))
            else:
                o.append(' r += Pack_%s_%s(&m, b, &l, &e);' % (m.name, p.drv))
            o.append(' r += Unpack_%s_%s(&m, b, 8); r += %s_CANID + %s_DLC + %s_IDE; }' % (m.name, p.drv, m.name, m.name, m.name))
        for u in p.utils:
            stem = u[:-len('-binutil')]
            rx = any(s.recs for m in doc.msgs for s in m.sigs) if stem == p.low else any(stem == (n + '_' + p.drv).lower() for m in doc.msgs for s in m.sigs for n in s.recs)
            if stem == p.low:
                rx = any(m.sigs for m in doc.msgs)
            if rx:
                o.append(' { static %s_rx_t x; r += %s_Receive(&x, b, 1, 8); }' % (stem, stem))
                if alloc:
                    o.append(' r += %s_Receive(&%s_rx, b, 2, 8);' % (stem, stem))
    if entry == 'main':
        o.append(' return (int)(r + other() == 12345); }')
    else:
        o.append(' return r; }')
    return '\n'.join(o) + '\n'


def build(c, pkgs, docs, cfgs, alloc, rng, shared_names, ver):
    """compile and link everything; returns events and messages"""
    d = c.scr.own('bld')
    with open(os.path.join(d, 'user.h'), 'w') as h:
        hashes = rng.random() < .6
        h.write(USER % (rng.choice(['double', 'float']), (HASH + '\n'.join('#define %s %dU' % kv for kv in R.METHODS.items())) if hashes else ''))
    cc, cxx = rng.choice([('gcc', 'g++'), ('gcc', 'g++'), ('clang', 'clang++')])
    std = rng.choice(['-std=c99', '-std=gnu17', '-std=c11'])
    stdx = rng.choice(['-std=c++11', '-std=c++17', '-std=c++20'])
    incs = [i for p in pkgs for i in p.incs()]
    defs = [x for p, cf in zip(pkgs, cfgs) for x in p.defs(cf, alloc)]
    pre = ['-w', '-O0', '-include', os.path.join(d, 'user.h')]
    ev, msgs, objs = [], [], []

    def comp(unit, src, tag, compiler, st, v):
        o = os.path.join(d, tag + '.o')
        rc, out = run([compiler] + ([st] if isinstance(st, str) else st) + ['-c', '-o', o] + pre + defs + incs + [src], 120)
        ev.append({'op': 'unit', 'unit': unit, 'src': v, 'hdr': v, 'ok': rc == 0})
        if rc != 0:
            msgs.append('%s (%s %s): %s' % (src, compiler, st, out[:1500]))
        objs.append(o)
    for k, p in enumerate(pkgs):
        comp('core', p.path('lib', p.low + '.c'), 'core%d' % k, cc, std, ver[k])
        # the monitor source belongs to the user, who may write C++
        comp('fmon', p.path('usr', p.low + '-fmon.c'), 'fmon%d' % k, *((cxx, [stdx, '-x', 'c++']) if rng.random() < .35 else (cc, std)), ver[k])
        for j, u in enumerate(p.utils):
            comp('util', p.path('butl', u + '.c'), 'util%d_%d' % (k, j), cc, std, ver[k])
    one = 1 if shared_names else len(pkgs)
    for tag, ext, cpp, entry, sl, comp_, st in (('main', '.c', False, 'main', slice(0, one), cc, std), ('cl2', '.cpp', True, 'other', slice(0, one), cxx, stdx)) + \
            ((('cl3', '.cpp', True, 'third', slice(1, None), cxx, stdx), ('cl4', '.c', False, 'fourth', slice(1, None), cc, std)) if shared_names else ()):
        f = os.path.join(d, tag + ext)
        with open(f, 'w') as h:
            h.write(client(pkgs[sl], docs[sl], cfgs[sl], alloc, cpp, entry))
        comp('client', f, tag, comp_, st, ver[0])
    exe = os.path.join(d, 'prog')
    rc, out = run([cxx, '-o', exe] + objs, 120)
    ev.append({'op': 'link', 'unit': '', 'src': ver[0], 'hdr': ver[0], 'ok': rc == 0})
    if rc != 0:
        msgs.append('link: ' + out[:1500])
    shutil.rmtree(d, ignore_errors=True)
    return ev, msgs


def C20(c):
    c.model_check('BuildMC', cfgfile('BuildMC'))
    rng = c.rng
    c.exe()
    allcfg = [dict(zip(R.FLAGS, bits), init=0) for bits in itertools.product((False, True), repeat=7)]
    jobs = []
    ndoc = 12 if c.thorough else 3
    for k in range(ndoc):
        for part in [allcfg[i::8] for i in range(8)]:
            jobs.append(('single', 1000 + k, part, rng.getrandbits(32)))
    for k in range(400 if c.thorough else 40):
        jobs.append(('single', 2000 + k, rng.sample(allcfg, 4 if not c.thorough else 8), rng.getrandbits(32)))
    for k in range(150 if c.thorough else 24):
        jobs.append(('pair', 5000 + k, [None] * (3 if not c.thorough else 6), rng.getrandbits(32)))
    for k in range(200 if c.thorough else 40):
        jobs.append(('skew', 9000 + k, None, rng.getrandbits(32)))
    base = rng.getrandbits(32)

    def one(job):
        kind, docseed, part, seed = job
        r = random.Random(base + docseed)       # the document depends on its number only
        g = random.Random(seed)
        if kind == 'single':
            doc = wide_doc(r, 'A') if r.random() < .95 else D.Dbc([], ver=(1, 0))
            out = c.scr.dir('pkg')
            # drivers with long names as well
            p = Pkg(c, D.render(doc, D.Style(r, 1)), r.choice(['Tdrv', 'abc', 'X1_y', 'a', 'Long_' + 'q' * 60]), out, r.random() < .6, r.choice([(), (), ('-gendate',)]))
            rows, ab = [], []
            for cf in part:
                cf = dict(cf, init=g.choice([0, 0, 255, 0xa5]))
                alloc = g.random() < .5
                ev, msgs = build(c, [p], [doc], [cf], alloc, g, False, [list(doc.ver)])
                rows.append({'ev': ev})
                ab.append({'dbc': p.text, 'drvname': p.drv, 'cfg': cf, 'alloc': alloc, 'output': msgs})
            shutil.rmtree(out, ignore_errors=True)
            return list(zip(rows, ab))
        if kind == 'pair':
            a, b = wide_doc(r, 'A', r.randint(1, 3)), wide_doc(r, 'B', r.randint(1, 3))
            share = r.random() < .4
            used = set()
            for k, m in enumerate(a.msgs + b.msgs):
                m.name = 'M%d' % k + D.ident(r, used)
            if share:
                for x, y in zip(a.msgs, b.msgs):
                    y.name = x.name
            out = c.scr.dir('pkg')
            one_dir = r.random() < .6
            out2 = out if one_dir else c.scr.dir('pkg')
            nu = r.random() < .6
            names = r.choice([('can1', 'can2'), ('Body', 'Power_T'), ('a', 'aa'), ('net', 'net2')])
            pa = Pkg(c, D.render(a, D.Style(r, 1)), names[0], out, nu)
            pb = Pkg(c, D.render(b, D.Style(r, 1)), names[1], out2, nu)
            pa.utils = [u for u in pa.utils if not u.endswith('_%s-binutil' % pb.low) or pa.low == pb.low]
            res = []
            for _ in part:
                cfs = [dict(g.choice(allcfg)), dict(g.choice(allcfg))]
                alloc = g.random() < .5
                ev, msgs = build(c, [pa, pb], [a, b], cfs, alloc, g, share, [list(a.ver), list(b.ver)])
                res.append(({'ev': ev}, {'dbc': pa.text, 'dbc2': pb.text, 'drvname': names, 'cfg': cfs, 'output': msgs, 'same directory': one_dir}))
            shutil.rmtree(out, ignore_errors=True)
            shutil.rmtree(out2, ignore_errors=True)
            return res
        # mixed versions of one driver
        doc = wide_doc(r, 'A', r.randint(1, 3))
        va = (r.choice([0, 1, 2, 9, 10, 255, 256, 65535, 65536]), r.choice([0, 1, 2, 9, 10, 255, 256, 65535, 65536]))
        vb = r.choice([(va[0] + 1, va[1]), (va[0], va[1] + 1), (va[1], va[0]), (va[0] + 256, va[1]), (va[0], va[1] + 65536), (va[0] + 1, va[1] + 1), (va[0] * 10 + va[1], 0), (0, 0), va])
        other = wide_doc(r, 'A', r.randint(1, 3)) if r.random() < .2 and va != vb else doc
        nu = r.random() < .6
        outs, ps = [], []
        for d, v in ((doc, va), (other, vb)):
            o = c.scr.dir('pkg')
            d.ver = v
            ps.append(Pkg(c, D.render(d, D.Style(random.Random(seed), 1)), 'Tdrv', o, nu))
            outs.append(o)
        cf = dict(g.choice(allcfg))
        uh = os.path.join(c.scr.own('usr'), 'user.h')
        with open(uh, 'w') as h:
            h.write(USER % ('double', HASH + '\n'.join('#define %s %dU' % kv for kv in R.METHODS.items())))
        ev = []
        for (h, hv), (s, sv) in itertools.product(zip(ps, (va, vb)), repeat=2):
            mix = c.scr.own('mix')
            # everything from h, except that one source comes from s
            for unit, srcs in (('core', [('lib', s.low + '.c')]), ('util', [('butl', u + '.c') for u in s.utils if u in h.utils])):
                for src in srcs:
                    for keep in (True, False):
                        # keep: the source stands among the files of h; otherwise only the core header is of h
                        m = os.path.join(mix, 'm%d' % len(ev))
                        shutil.copytree(h.out if keep else s.out, m)
                        os.makedirs(m, exist_ok=True)
                        shutil.copy(os.path.join(s.out, *src), os.path.join(m, *src))
                        shutil.copy(os.path.join(h.out, 'lib', h.low + '.h'), os.path.join(m, 'lib', h.low + '.h'))
                        rc, out = run(['gcc', '-fsyntax-only', '-w', '-include', uh] + R.cfg_defs('Tdrv', cf) + ['-I' + os.path.join(m, x) for x in ('lib', 'conf', 'inc', 'butl')] + [os.path.join(m, *src)], 60)
                        ev.append({'op': 'unit', 'unit': unit, 'src': list(sv), 'hdr': list(hv), 'ok': rc == 0})
            shutil.rmtree(mix, ignore_errors=True)
        for o in outs:
            shutil.rmtree(o, ignore_errors=True)
        if other is not doc:
            # different messages: only the refusals are judged
            ev = [e for e in ev if e['src'] != e['hdr']]
        return [({'ev': ev}, {'dbc': ps[0].text, 'versions': [va, vb], 'cfg': cf})] if ev else []
    res = [x for part in pmap(one, jobs) for x in part]
    rows = [x[0] for x in res]
    c.count('builds', sum(1 for r in rows if any(e['op'] == 'link' for e in r['ev'])))
    c.count('compilations', sum(1 for r in rows for e in r['ev'] if e['op'] == 'unit'))
    c.count('mixed_version_compilations', sum(1 for r in rows for e in r['ev'] if e['op'] == 'unit' and e['src'] != e['hdr']))
    log('%d builds, %d compilations' % (c.cov['builds'], c.cov['compilations']))
    c.sample({'dbc': res[0][1]['dbc'][:800], 'cfg': res[0][1]['cfg'], 'steps': rows[0]['ev']})
    c.validate('BuildTrace', rows, '', sum(len(r['ev']) + 1 for r in rows), lambda t: res[t][1])
