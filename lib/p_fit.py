"""C11 (dispatch of received frames) and C15 (signals that do not fit)."""
from vlib import *
import dbc as D
import drv as R
from drv import Package, require_package, steps, cfg
from p_run import cfgfile, chunks, rand_cfg, random_doc, add_markers, decorate


# ------------------------------------------------------------------------------------------------
# C15

def longest(s, mot, dlc):
    return max(0, 8 * dlc - (8 * (s // 8) + 7 - s % 8 if mot else s))


def first_misfit(s, mot, dlc):
    return min(longest(s, mot, dlc), 64) + 1


def fit_case(c, doc, cf, about, style=None, drv='Tdrv', nodeutils=False):
    """generate and compile; the row for FitTrace"""
    p = Package(c, doc, style=style, drv=drv, nodeutils=nodeutils)
    row = {'msgs': [{'dlc': m.dlc, 'sigs': [{'s': min(s.s, 10 ** 6), 'l': min(s.l, 10 ** 6), 'm': s.mot} for s in m.sigs]} for m in doc.msgs],
           'ended': p.rc == 0 and os.path.exists(p.path('lib', p.low + '.c')), 'builds': False}
    out = p.out
    if row['ended']:
        rc, out = run(['gcc', '-w', '-fsyntax-only'] + R.cfg_defs(p.drv, cf) + p.incs() + [p.path('lib', p.low + '.c')], 300)
        row['builds'] = rc == 0
    ab = dict(p.about(), cfg=cf, exit=p.rc, output=out[-1500:], what=about)
    shutil.rmtree(p.dir, ignore_errors=True)
    shutil.rmtree(os.path.dirname(p.dbcpath), ignore_errors=True)
    return row, ab


def C15(c):
    c.model_check('FitMC', cfgfile('FitMC_thorough' if c.thorough else 'FitMC'))
    rng = c.rng
    c.exe()
    jobs = []
    # everything that fits, as long as possible, compiles (a hundred overlapping signals per message)
    for dlc in range(1, 65):
        lay = [(s, mot) for mot in (False, True) for s in range(8 * dlc)]
        ms = [D.Msg('M%d' % k, 10 + k, dlc, [D.Sig('s%d_%d' % (k, j), s, min(64, longest(s, mot, dlc)), mot, rng.random() < .5) for j, (s, mot) in enumerate(part)])
              for k, part in enumerate(chunks(lay, 100))]
        for m in ms:
            for s in m.sigs:
                if s.l < 60 and rng.random() < .2:
                    D.int_scale(rng, s)
                elif rng.random() < .1:
                    s.fac = '0.25'
        jobs.append((D.Dbc(ms), 'longest fitting signal at every start, DLC %d' % dlc))
    # one signal that does not fit, alone or in company
    todo = []
    for dlc in range(1, 65):
        starts = range(8 * dlc + 9)
        if not c.thorough and dlc != 8:
            starts = sorted(set(rng.sample(starts, 8) + [0, 7, 8 * dlc - 8, 8 * dlc - 1, 8 * dlc, 8 * dlc + 7]))
        for s in starts:
            for mot in (False, True):
                todo.append((dlc, s, first_misfit(s, mot, dlc), mot))
    for dlc in [8, 64] + rng.sample(range(1, 65), 6):
        for s in (8 * dlc, 8 * dlc + 1, 511, 512, 513, 519, 520, 1023, 1024, 2047, 32767, 32768, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 8, 2 ** 32 - 8, 2 ** 32 - 1,
                  2 ** 32, 2 ** 32 + 1, 2 ** 32 + 8, 2 ** 33, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 8, 10 ** 30):
            if s >= 8 * dlc:
                for mot in (False, True):
                    todo.append((dlc, s, rng.choice([1, 8, 64, 2, 33]), mot))
        for l in (65, 66, 72, 127, 128, 129, 192, 255, 256, 257, 264, 300, 320, 512, 513, 65535, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 8, 2 ** 64 + 8):
            for mot in (False, True):
                todo.append((dlc, rng.choice([0, 7, 8, 3]), l, mot))
    for _ in range(4000 if c.thorough else 200):
        dlc = rng.randint(1, 64)
        mot = rng.random() < .5
        s = rng.randrange(8 * dlc)
        l = rng.randint(longest(s, mot, dlc) + 1, longest(s, mot, dlc) + 70)
        todo.append((dlc, s, l, mot))
    c.cov['misfits'] = len(todo)
    for k, (dlc, s, l, mot) in enumerate(todo):
        x = D.Sig('misfit', s, l, mot, rng.random() < .4)
        if k % 4:
            m = D.Msg('Bad', 0x7FF, dlc, [x])
            doc = D.Dbc([m])
        else:
            doc = random_doc(rng, 3, 4, dec=rng.random() < .5)
            add_markers(rng, doc, .3, .3)
            m = D.Msg('Bad', 0x7FF, dlc, D.disjoint_sigs(rng, dlc, rng.randint(0, 4), set()))
            m.sigs.insert(rng.randint(0, len(m.sigs)), x)
            doc.msgs.insert(rng.randint(0, len(doc.msgs)), m)
            if rng.random() < .3 and l <= 50:
                x.fac = rng.choice(['2', '0.5', '-1'])
            elif rng.random() < .3:
                x.comment = rng.choice(['<RollingCounter>', '<Checksum:XOR8:3>', 'text'])
                x.signed = False
        jobs.append((doc, 'signal %d|%d@%d in %d bytes' % (s, l, not mot, dlc)))
    # documents with nothing but fitting signals, in company
    for _ in range(600 if c.thorough else 80):
        doc = random_doc(rng, 6, 12, overlap=rng.random() < .3)
        jobs.append((decorate(rng, add_markers(rng, doc, .5, .5)), 'random fitting'))
    seeds = [rng.getrandbits(32) for _ in jobs]

    def one(a):
        (doc, about), seed = a
        r = random.Random(seed)
        return fit_case(c, doc, rand_cfg(r), about, style=D.Style(r, 1) if about.startswith('random') or r.random() < .3 else None,
                        drv=r.choice(['Tdrv', 'abc', 'X1_y']), nodeutils=r.random() < .2)
    res = pmap(one, list(zip(jobs, seeds)))
    rows = [x[0] for x in res]
    log('%d documents generated and compiled' % len(rows))
    c.count('documents', len(rows))
    c.cov['rejected_by_compiler'] = sum(not r['builds'] for r in rows)
    c.sample({'case': res[70][1]['what'], 'dbc': res[70][1]['dbc'], 'ended': rows[70]['ended'], 'builds': rows[70]['builds']})
    c.validate('FitTrace', rows, '', 2 * len(rows), lambda t: res[t][1])


# ------------------------------------------------------------------------------------------------
# C11

def dispatch_harness(p, rx, utils):
    """utils: header stem; rx: messages in file order; reads lines: id dlc hex pattern"""
    stem = utils
    o = ['#include "%s-binutil.h"' % stem, '#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>',
         'uint32_t vh_tick(void) { return 42; }', 'uint32_t vh_hash(const void* d, uint32_t l, uint32_t i, uint32_t m, uint32_t o) { return 7; }',
         '#ifdef %s_USE_DIAG_MONITORS' % p.up]
    for m in p.doc.msgs:
        o.append('void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id); void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id) { (void)p; (void)id; }' % (m.name, p.low, m.name, p.low))
    o.append('void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id); void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id) { (void)p; (void)id; }' % (p.low, p.low))
    o.append('#endif')
    o.append('typedef unsigned long long u64; typedef long long i64;')
    o.append('static struct { uint8_t g0[32]; %s_rx_t m; uint8_t g1[32]; } W, B;' % stem)
    o.append('static uint8_t d[64], d0[64]; static char hex[300];')
    o.append('''int main(void) { unsigned id, dlc, pat, i; while (scanf("%x %u %299s %x", &id, &dlc, hex, &pat) == 4) { uint32_t ret; int like = 1, any = 0;
 for (i = 0; i < 64; i++) { char b[3] = { hex[2 * i], hex[2 * i + 1], 0 }; d[i] = (uint8_t)strtoul(b, 0, 16); }
 for (i = 0; i < sizeof W; i++) ((uint8_t*)&W)[i] = (uint8_t)(pat >> (8 * (i % 3)));''')
    # clean up bool-like members: none are generated (plain integers only), so any pattern is a valid content
    o.append(' memcpy(&B, &W, sizeof W); memcpy(d0, d, 64); ret = %s_Receive(&W.m, d, id, (uint8_t)dlc);' % stem)
    o.append(' printf("%x", ret); printf(" %d", memcmp(d, d0, 64) != 0 || memcmp(W.g0, B.g0, 32) || memcmp(W.g1, B.g1, 32)); printf(" c");')
    for k, m in enumerate(rx):
        o.append(' if (memcmp(&W.m.%s, &B.m.%s, sizeof W.m.%s)) printf(" %d");' % (m.name, m.name, m.name, k + 1))
    o.append(' (void)any; switch (id) {')
    for m in rx:
        o.append('  case 0x%xU: Unpack_%s_%s(&B.m.%s, d, (uint8_t)dlc); like = memcmp(&W.m.%s, &B.m.%s, sizeof W.m.%s) == 0; printf(" r");' % (m.id, m.name, p.drv, m.name, m.name, m.name, m.name))
        for s in m.sigs:
            o.append('   printf(" %%llx", (u64)(%s)W.m.%s.%s);' % ('i64' if s.signed else 'u64', m.name, s.field()))
        o.append('  break;')
    o.append('  default: printf(" r"); } printf(" l %d\\n", like); fflush(stdout); } return 0; }')
    return '\n'.join(o) + '\n'


def id_set(rng, n, kind):
    """n (identifier, extended) pairs with distinct identifiers"""
    if kind == 'dense':
        b = rng.choice([0, 1, 0x100, 0x7FF - n, 0x1FFFFFFF - n + 1, 0x800 - n // 2, rng.randrange(0x1FFF0000)])
        b = max(0, b)
        ids = list(range(b, b + n))
    elif kind == 'pow':
        pool = sorted({1 << k for k in range(29)} | {(1 << k) - 1 for k in range(30)} | {0x1FFFFFFF - (1 << k) for k in range(20)})
        ids = rng.sample(pool, min(n, len(pool)))
    elif kind == 'std':
        ids = rng.sample(range(0x800), n)
    elif kind == 'gap2':
        b = rng.randrange(0x1FFFFFFF - 3 * n)
        ids = [b + 2 * k for k in range(n)]
    else:
        ids = list({rng.randrange(0x20000000) for _ in range(n)})
    ids = ids[:]
    rng.shuffle(ids)
    return [(i, i > 0x7FF or rng.random() < .3) for i in ids]


def C11(c):
    c.model_check('DispatchMC', cfgfile('DispatchMC_thorough' if c.thorough else 'DispatchMC'))
    rng = c.rng
    c.exe()
    sizes = list(range(1, 34)) + [rng.randint(34, 80), rng.randint(40, 80), 64, 65]
    if c.thorough:
        sizes = list(range(1, 130)) * 2 + [200, 255, 256, 257, 300]
    jobs = []
    for n in sizes:
        for kind in rng.sample(['dense', 'pow', 'std', 'gap2', 'any'], 4):
            jobs.append((n, kind, rng.getrandbits(32)))

    def one(job):
        n, kind, seed = job
        r = random.Random(seed)
        ids = id_set(r, n, kind)
        used = set()
        nodes = ['N0', 'N1', 'Gw']
        nu = r.random() < .5
        ms = []
        for i, (x, ext) in enumerate(ids):
            dlc = r.choice([1, 2, 3, 8, 8, 8, 12, 64])
            sigs = D.disjoint_sigs(r, dlc, r.choice([1, 1, 2, 3]), used) or [D.Sig('z%d' % i, 0, 4)]
            ms.append(D.Msg(D.ident(r, used, lo=2), x, dlc, sigs, ext=ext, tx='N0'))
        rx = list(ms)
        if nu:
            # messages of other nodes, empty messages and messages the node only sends surround its receive set
            usedid = {m.id for m in ms}
            near = [x for m in ms for x in (m.id - 1, m.id + 1, m.id ^ 0x10) if 0 <= x < 0x20000000]
            for k in range(r.randint(1, 8)):
                x = r.choice(near + [r.randrange(0x20000000)])
                if x in usedid:
                    continue
                usedid.add(x)
                o = D.Msg(D.ident(r, used, lo=2), x, 8, [D.Sig(D.ident(r, used), 0, 8, recs=['Gw'])], ext=x > 0x7FF, tx=r.choice(['N1', 'N0']))
                if r.random() < .3:
                    o.sigs = []
                elif r.random() < .3:
                    o.moretx = ['N1']
                ms.insert(r.randint(0, len(ms)), o)
            for m in rx:
                m.tx = r.choice(['N0', 'N1', 'Gw'])     # also messages the node both sends and receives
        r.shuffle(ms)
        rx = [m for m in ms if m in rx]
        doc = D.Dbc(ms, nodes=nodes)
        add_markers(r, doc, .2, .2)
        for m in ms:
            m.deco = (m.tx, list(m.moretx), [list(x.recs) for x in m.sigs])
        decorate(r, doc)
        for m in ms:        # the roles of the nodes stay
            m.tx, m.moretx = m.deco[0], m.deco[1]
            for x, y in zip(m.sigs, m.deco[2]):
                x.recs = y
        cf = rand_cfg(r)
        p = require_package(Package(c, doc, drv=r.choice(['Tdrv', 'abc', 'X1_y']), nodeutils=nu, style=D.Style(r, 1)))
        stem = ('n1_' if nu else '') + p.low
        if not os.path.exists(p.path('butl', stem + '-binutil.c')):
            raise Violation('no utility driver for the receiving node', p.about())
        d = c.scr.own('rx')
        src = os.path.join(d, 'h.c')
        with open(src, 'w') as h:
            h.write(dispatch_harness(p, rx, stem))
        exe = os.path.join(d, 'h')
        rc, out = run(['gcc', r.choice(['-O0', '-O1']), '-w', '-o', exe] + R.cfg_defs(p.drv, cf) + p.incs() + [src, p.path('lib', p.low + '.c'), p.path('butl', stem + '-binutil.c')], 300)
        if rc != 0:
            raise Violation('the utility driver does not compile or link', dict(p.about(), cfg=cf, output=out[:3000]))
        probes = []
        for m in rx:
            probes.append(m.id)
        around = sorted({x for m in rx for x in (m.id - 1, m.id + 1, m.id | 0x80000000, m.id ^ 0x20000000, m.id ^ 0x10000000, m.id ^ 0x800, m.id ^ 0x10000, m.id & 0x7FF, m.id & 0xFFFF, m.id + 2)
                         if 0 <= x < 2 ** 32} - {m.id for m in rx})
        if len(around) > 400 and not c.thorough:
            around = r.sample(around, 400)
        probes += around + [m.id for m in ms] + [x for x in (0, 1, 0x7FF, 0x800, 0x1FFFFFFF, 0x20000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)] + [r.getrandbits(32) for _ in range(6)]
        r.shuffle(probes)
        cmds, meta = [], []
        for x in probes:
            dat = r.choice([r.randbytes(64), r.randbytes(64), b'\xff' * 64, bytes(64)])
            t = next((m for m in rx if m.id == x), None)
            ln = r.choice([t.dlc if t else 8, 8, 64, 0])
            cmds.append('%x %d %s %06x' % (x, ln, dat.hex(), r.choice([0xA5A5A5, 0x5A5A5A, r.getrandbits(24)])))
            meta.append((x, dat))
        rc, out = run_nobody([exe], p.dir, timeout=120, stdin=('\n'.join(cmds) + '\n').encode())
        evs = []
        lines = out.split('\n')
        for k, (x, dat) in enumerate(meta):
            e = {'id': D.w32(x), 'd': list(dat), 'crash': False, 'ret': [0, 0], 'chg': [], 'like': True, 'raw': []}
            f = lines[k].split() if k < len(lines) else []
            if len(f) < 5 or f[-2] != 'l':
                e['crash'] = True
                evs.append(e)
                break
            e['ret'] = D.w32(int(f[0], 16))
            i = f.index('r')
            e['chg'] = [int(v) for v in f[3:i]]
            e['raw'] = [D.le(int(v, 16)) for v in f[i + 1:-2]]
            e['like'] = f[-1] == '1'
            if f[1] != '0':
                e['crash'] = True     # wrote outside the structure or into the payload
            evs.append(e)
        ab = dict(p.about(), cfg=cf, utility=stem)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(p.dir, ignore_errors=True)
        return {'rx': [m.json() for m in rx], 'ev': evs}, ab
    res = pmap(one, jobs)
    rows = [x[0] for x in res]
    c.count('receive_calls', sum(len(r['ev']) for r in rows))
    log('%d utility drivers probed with %d frames' % (len(rows), c.cov['receive_calls']))
    c.sample({'rx_ids': [m['id'] for m in rows[4]['rx']], 'call': rows[4]['ev'][0]})
    c.validate('DispatchTrace', rows, '', steps(rows), lambda t: res[t][1])
