"""C22 (generated code is defined everywhere) and C23 (the generator survives every document)."""
from vlib import *
import dbc as D
import drv as R
from drv import Package, Driver, require_package, require_driver, steps, split_rows
from p_run import cfgfile, chunks, rand_cfg, random_doc, add_markers, decorate, tile, layouts, phys_for, edge_raw, conv_calls, Fraction
from p_fit import dispatch_harness


# ------------------------------------------------------------------------------------------------
# C22

def legal_contents(d, r, i, k, m):
    """a content of the struct: any raw fields, physical fields the signals can take"""
    wit = [edge_raw(r, s) for s in m.sigs]
    raw = [r.choice([0, 2 ** 64 - 1, r.getrandbits(64), r.randint(*s.rng())]) for s in m.sigs]
    d.set(i, k, raw, phys_for(r, m, wit) if d.c['sf'] else (), wit)


def san_script(d, r):
    for i, m in enumerate(d.ms):
        narrow = not d.c['sf'] or all(s.l <= 52 for s in m.sigs if s.dec())
        big = len(d.ms) > 20
        d.zero(i, 1)
        for n in range(4 if big else 10):
            if narrow:
                legal_contents(d, r, i, 0, m)
                d.pack(i, 0, n)
                d.pack(i, 0, n)
                d.deliver(i, 1, n, r.choice([m.dlc, 0, 8, 64, 255]))
            d.unpack(i, 1, r.choice([r.randbytes(m.dlc), bytes(m.dlc), b'\xff' * m.dlc, r.randbytes(m.dlc)]), r.choice([m.dlc, 0, 8, 64, 255]))
            if narrow and all(s.l <= 50 for s in m.sigs if s.dec()):
                d.pack(i, 1, 101)
            if not big:
                conv_calls(d, r, i, m)


def receive_case(c, r, n):
    """the Receive function of a utility driver, with frames of exactly the received message's size"""
    doc = random_doc(r, n, 4, dlcs=[8, 1, 2, 64, r.randint(1, 64)])
    add_markers(r, doc)
    decorate(r, doc)
    cf = rand_cfg(r)
    p = require_package(Package(c, doc, style=D.Style(r, 1)))
    d = c.scr.own('rs')
    ms = doc.msgs
    o = ['#include "%s-binutil.h"' % p.low, '#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>',
         'uint32_t vh_tick(void) { return 42; }', 'uint32_t vh_hash(const void* d, uint32_t l, uint32_t i, uint32_t m, uint32_t o) { uint32_t r = 0; while (l--) r += ((const uint8_t*)d)[l]; return r & 255u; }',
         '#ifdef %s_USE_DIAG_MONITORS' % p.up]
    for m in ms:
        o.append('void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id); void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id) { p->cycle_error = id & 1; }' % (m.name, p.low, m.name, p.low))
    o.append('void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id); void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id) { p->cycle_error = id & 1; }' % (p.low, p.low))
    o.append('#endif')
    o.append("""static char hex[300];
int main(void) { unsigned id, dlc, n, i; %s_rx_t* m = calloc(1, sizeof *m); while (scanf("%%x %%u %%u %%299s", &id, &dlc, &n, hex) == 4) { uint8_t* b = malloc(n); uint32_t ret;
 for (i = 0; i < n; i++) { char x[3] = { hex[2 * i], hex[2 * i + 1], 0 }; b[i] = (uint8_t)strtoul(x, 0, 16); }
 ret = %s_Receive(m, b, id, (uint8_t)dlc); free(b); printf("%%x\\n", ret); fflush(stdout); } return 0; }""" % (p.low, p.low))
    src, exe = os.path.join(d, 'h.c'), os.path.join(d, 'h')
    with open(src, 'w') as h:
        h.write('\n'.join(o) + '\n')
    rc, out = run([r.choice(['gcc', 'clang']), '-O0', '-w', '-o', exe] + R.SAN + R.cfg_defs(p.drv, cf) + p.incs() + [src, p.path('lib', p.low + '.c'), p.path('butl', p.low + '-binutil.c')], 300)
    if rc != 0:
        raise Violation('the utility driver does not compile or link', dict(p.about(), cfg=cf, output=out[:3000]))
    byid, cmds, evs = {m.id: (i, m) for i, m in enumerate(ms)}, [], []
    pool = [m.id for m in ms] * 6 + [x for m in ms for x in (m.id + 1, max(0, m.id - 1))] + [0, 0x7FF, 0x1FFFFFFF, 0xFFFFFFFF]
    r.shuffle(pool)
    for x in pool[:400]:
        i, m = byid.get(x, (-1, None))
        dat = r.choice([r.randbytes, bytes, lambda k: b'\xff' * k])(m.dlc if m else 0)
        cmds.append((i, dat, '%x %d %d %s' % (x, r.choice([len(dat), 8, 0, 255]), len(dat), dat.hex() or '-')))
    rc, out = run_nobody([exe], p.dir, timeout=120, stdin=('\n'.join(x[2] for x in cmds) + '\n').encode())
    lines = out.split('\n')
    for k, (i, dat, _) in enumerate(cmds):
        if k < len(lines) - 1 and re.fullmatch('[0-9a-f]+', lines[k]):
            evs.append({'e': 'conv'})
        else:
            evs.append({'e': 'crash', 'rc': str(rc), 'op': 'U' if i >= 0 else 'R', 'm': max(i, 0) + 1, 'k': 1, 'd': list(dat), 'what': R.fault(out)})
            break
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(p.dir, ignore_errors=True)
    return {'msgs': [m.json() for m in ms], 'cfg': dict(cf), 'ev': evs}, dict(p.about(), cfg=cf, utility=p.low)


def C22(c):
    rng = c.rng
    jobs = []
    # every layout of an 8-byte frame, tiled
    lay = list(layouts(8))
    tiles = tile(rng, [x for x in lay if not x[2]]) + tile(rng, [x for x in lay if x[2]])
    rng.shuffle(tiles)
    for k, part in enumerate(chunks(tiles if c.thorough else tiles[:1000], 125)):
        ms = [D.Msg('M%d' % i, 1 + i, 8, [D.Sig('s%d_%d' % (i, j), *x, rng.random() < .5) for j, x in enumerate(t)]) for i, t in enumerate(part)]
        jobs.append((D.Dbc(ms), rand_cfg(rng)))
    for i in range(120 if c.thorough else 30):
        doc = random_doc(rng, 5, 10, dlcs=[rng.randint(1, 8), 8, 64, rng.randint(1, 64), 1 + i % 64], overlap=i % 5 == 4)
        if i % 5 != 4:
            add_markers(rng, doc)
        if i % 3 == 0:
            for s in (s for m in doc.msgs for s in m.sigs if not s.roll and not s.csm and not s.dec() and rng.random() < .4):
                D.int_scale(rng, s, anyrange=True)
        jobs.append((decorate(rng, doc), rand_cfg(rng, sf=rng.random() < .7), D.Style(rng, 1)))
    c.exe()
    seeds = [rng.getrandbits(32) for _ in jobs]

    def one(arg):
        (doc, cf, *rest), seed = arg
        r = random.Random(seed)
        p = require_package(Package(c, doc, style=rest[0] if rest else None))
        d = require_driver(Driver(p, cf, opt='-O0', cc=r.choice(['gcc', 'clang']), san=True, ni=2))
        san_script(d, r)
        evs = d.run(300)
        for e in evs:
            for f in ('h', 'f', 'mon', 'want', 'pwant', 'fid', 'ret', 'nt', 'nh', 'nf'):
                e.pop(f, None)
        row = split_rows(d, evs)
        d.close()
        shutil.rmtree(p.dir, ignore_errors=True)
        return [(x, dict(p.about(), cfg=cf)) for x in row]
    res = [x for part in pmap(one, list(zip(jobs, seeds))) for x in part]
    rows, ab = [x[0] for x in res], [x[1] for x in res]
    more = pmap(lambda a: receive_case(c, *a), [(random.Random(rng.getrandbits(32)), n) for n in (list(range(1, 13)) + [20, 40] if not c.thorough else list(range(1, 60)))])
    rows += [x[0] for x in more]
    ab += [x[1] for x in more]
    log('%d drivers and %d receive functions executed under instrumentation, %d traces' % (len(jobs), len(more), len(rows)))
    c.count('calls', sum(len(r['ev']) for r in rows))
    c.sample({'cfg': rows[-1]['cfg'], 'events': rows[-1]['ev'][:3]})
    c.validate('DefinedTrace', rows, '', steps(rows), lambda t: ab[t])
