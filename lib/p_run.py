"""C01-C10: executions of generated drivers validated against spec/Runtime."""
import itertools
from fractions import Fraction
from vlib import *
import dbc as D
import drv as R
from drv import Package, Driver, cfg, require_package, require_driver, split_rows, steps, lean


def aspects(*a):
    return 'Aspects = ' + tla_str_set(a)


def layouts(dlc):
    """all (start, length, order) that fit"""
    for mot in (False, True):
        for s in range(dlc * 8):
            top = (dlc * 8 - s) if not mot else dlc * 8 - (8 * (s // 8) + 7 - s % 8)
            for l in range(1, min(64, top) + 1):
                yield s, l, mot


def chunks(x, n):
    x = list(x)
    return [x[i:i + n] for i in range(0, len(x), n)]


def decorate(rng, doc, rename=True):
    """everything else a real document carries (ranges, units, comments, multiplexing marks, receivers, value tables,
    cycle times, names shared between messages, very short and very long names): the property must not depend on it"""
    if rng.random() < .2:
        return doc
    nodes = ['N0', 'N1', 'Gateway', 'bcm', 'Vector__XXX']
    used = {m.name.lower() for m in doc.msgs}
    pool = [D.ident(rng, used, lo=1, hi=rng.choice([1, 8, 40])) for _ in range(3)] + ['a', 'S1']
    kinds = rng.random() < .5
    for m in doc.msgs:
        r = rng.random()
        if rename and r < .1:
            nm = D.ident(rng, used, lo=1, hi=1) if len(used) < 20 else m.name
            m.name = nm
        elif rename and r < .15:
            m.name = D.ident(rng, used, lo=30, hi=60)
        if rng.random() < .3:
            m.comment = rng.choice(['the message', 'x; y: z', '100 % <b>', 'a // b'])
        if rng.random() < .3:
            m.cyc = rng.choice([0, 1, 10, 100, 65535])
        m.tx = rng.choice(nodes)
        if rng.random() < .2:
            m.moretx = rng.sample(nodes, 2)
        muxed = kinds and rng.random() < .5
        own = {x.name.lower() for x in m.sigs}
        for k, s in enumerate(m.sigs):
            r = rng.random()
            if rename and r < .25:
                nm = rng.choice(pool)
                if nm.lower() not in own:
                    own.add(nm.lower())
                    s.name = nm
            elif rename and r < .3:
                s.name = D.ident(rng, own, lo=30, hi=50)
            if muxed and s.mux is None:
                s.mux = 'M' if k == 0 else rng.choice([None, 'm0', 'm1', 'm%d' % k, 'm255'])
            if rng.random() < .5:
                lo, hi = s.rng()
                f, o = Fraction(s.fac), Fraction(s.off)
                s.mn, s.mx = rng.choice([('0', '1'), ('-100', '100'), ('0.5', '1e3'), ('5', '-5'), (str(int(lo * f + o)), str(int(hi * f + o))), (str(lo), str(hi)), ('0', str(hi)), ('-1', '0')])
            s.unit = rng.choice(['', '', 'km/h', '%', 'a:b', '(x)', '\u00b0C', 'm s^-2', '-', "'"])
            if rng.random() < .6:
                s.recs = rng.sample(nodes, rng.randint(1, 3))
            if s.comment is None and rng.random() < .25:
                s.comment = rng.choice(['speed of the vehicle', 'x; y: z', '0=off 1=on', 'Rolling counter', '<Checksum>', 'CRC'])
            if s.vals is None and rng.random() < .12:
                s.vals = [(v, t) for v, t in zip(rng.sample(range(9), 3), ['On', 'Off', 'Not valid'])]
    return doc


def compile_run(c, jobs, script, keep=(), split=True, rename=True, **kw):
    """jobs: (doc, cfg[, style]); generate, compile, execute script(driver, rng); returns rows and their packages"""
    exe = c.exe()
    for job in jobs:
        decorate(c.rng, job[0], rename)
    seeds = [c.rng.getrandbits(32) for _ in jobs]

    def one(job):
        (doc, cf, *rest), seed = job
        rng = random.Random(seed)
        p = require_package(Package(c, doc, style=rest[0] if rest else None, drv=rest[1] if len(rest) > 1 else 'Tdrv'))
        d = require_driver(Driver(p, cf, opt=rng.choice(['-O0', '-O1', '-O2']) if len(doc.msgs) < 40 else '-O0', **kw))
        script(d, rng)
        evs = lean(d.run(300), keep)
        rows = split_rows(d, evs) if split else [d.row(evs)]
        d.close()
        ab = p.about()
        shutil.rmtree(p.dir, ignore_errors=True)
        return [(r, dict(ab, cfg=cf)) for r in rows]
    res = [x for part in pmap(one, list(zip(jobs, seeds))) for x in part]
    log('%d drivers executed, %d traces' % (len(jobs), len(res)))
    return [r for r, _ in res], [a for _, a in res]


def payloads(rng, n, count, onehot=False):
    yield bytes(n)
    yield b'\xff' * n
    for _ in range(count):
        yield rng.randbytes(n)
    if onehot:
        for b in range(8 * n):
            x = bytearray(n)
            x[b // 8] = 1 << (b % 8)
            yield bytes(x)
            yield bytes(255 - v for v in x)


def random_doc(rng, nmsg=6, nsig=8, dlcs=(1, 2, 3, 4, 5, 6, 7, 8, 8, 12, 16, 20, 24, 32, 48, 64), overlap=False, scale=True, dec=True):
    used, ids, ms = set(), set(), []
    for i in range(nmsg):
        dlc = rng.choice(dlcs)
        ext = rng.random() < 0.4
        n = rng.randint(1, nsig)
        if overlap:
            sigs = []
            for k in range(n):
                while True:
                    s, l, mot = rng.randrange(dlc * 8), rng.choice([rng.randint(1, 64), rng.randint(1, 16), 64, 63, 33, 32, 31, 8]), rng.random() < .5
                    if D.fits(s, l, mot, dlc):
                        break
                    if rng.random() < .5:
                        l, s = 1, rng.randrange(dlc * 8)
                        break
                sigs.append(D.Sig(D.ident(rng, used), s, l, mot, rng.random() < .5, mux=rng.choice([None, 'm%d' % k])))
        else:
            sigs = D.disjoint_sigs(rng, dlc, n, used)
        for s in sigs:
            if scale and rng.random() < .4:
                if dec and rng.random() < .4:
                    s.fac, s.off = D.dec_text(rng), rng.choice(['0', D.dec_text(rng)])
                elif s.l <= 62:
                    D.int_scale(rng, s)
        ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dlc, sigs, ext=ext))
    return D.Dbc(ms)


def rand_cfg(rng, **kw):
    c = cfg(**{f: rng.random() < .5 for f in R.FLAGS})
    c['init'] = rng.choice([0, 0xff, 0xa5, 0x55, rng.randrange(256)])
    c.update(kw)
    return c


# ------------------------------------------------------------------------------------------------

def C01(c):
    c.model_check('LayoutMC', cfgfile('LayoutMC_thorough' if c.thorough else 'LayoutMC'))
    rng = c.rng
    jobs = []
    # every layout of an 8-byte frame, both signednesses, overlapping in messages of 64 signals
    sigs = [(s, l, mot, g) for s, l, mot in layouts(8) for g in (False, True)]
    rng.shuffle(sigs)
    groups = chunks(sigs, 64)
    for part in chunks(groups, 9):
        ms, n = [], 0
        for k, g in enumerate(part):
            ms.append(D.Msg('M%d' % k, 100 + k, 8, [D.Sig('s%d_%d' % (k, j), s, l, mot, sg) for j, (s, l, mot, sg) in enumerate(g)], ext=k % 2 == 1))
        jobs.append((D.Dbc(ms), cfg(bits=rng.random() < .5)))

    def script(d, r):
        for i, m in enumerate(d.ms):
            d.zero(i, 0)
            for p in payloads(r, m.dlc, 10, c.thorough and len(d.ms) > 6):
                d.unpack(i, 0, p, r.choice([m.dlc, 8, 0, 64]))
            # each signal at the ends of its range, in both surroundings; only this signal is judged
            for j, s in enumerate(m.sigs):
                ps = D.positions(s.s, s.l, s.mot)
                top = max(ps) if not s.mot else ps[0]
                for bits in ({top}, set(ps) - {top}, {ps[-1] if s.mot else ps[0]}, {r.choice(ps)}) if c.thorough else ({top}, r.choice([set(ps) - {top}, {r.choice(ps)}])):
                    for flip in (0, 255) if c.thorough else (r.choice((0, 255)),):
                        d.edge(i, 0, bytes(sum(1 << k for k in range(8) if ((8 * b + k in bits) != (flip == 255 and 8 * b + k not in ps))) for b in range(m.dlc)), j, m.dlc)
    # frames of every length with the other notations, scalings and configurations
    for i in range(128 if c.thorough else 40):
        doc = random_doc(rng, 6, 10, dlcs=[rng.randint(1, 64), 8, 64, rng.randint(1, 8), 1 + i % 64], overlap=True)
        jobs.append((doc, rand_cfg(rng), D.Style(rng, 1)))
    rows, ab = compile_run(c, jobs, script)
    for r in rows:
        r['ev'] = [e if e['e'] == 'crash' else {k: v for k, v in e.items() if k not in ('h', 'f')} for e in r['ev']]
    c.count('layouts', sum(len(m['sigs']) for r in rows for m in r['msgs']))
    c.cov['exhaustive_8_byte_layouts'] = len(sigs)
    c.sample({'signal': rows[0]['msgs'][0]['sigs'][0], 'payload': rows[0]['ev'][3]['d'], 'raw': rows[0]['ev'][3]['raw'][0]})
    c.validate('RuntimeTrace', rows, aspects('raw'), steps(rows), lambda t: ab[t])


def tile(rng, todo, dlc=8):
    """pack the layouts of `todo` into messages of disjoint signals, preferring layouts not yet covered"""
    todo = list(todo)
    todo.sort(key=lambda x: -x[1])
    left = set(todo)
    bysize = {}
    res = []
    pos = {x: frozenset(D.positions(*x)) for x in todo}
    while left:
        first = max(left, key=lambda x: (x[1], x))
        left.discard(first)
        cur, occ = [first], set(pos[first])
        cand = sorted((x for x in left if x[1] <= dlc * 8 - len(occ)), key=lambda x: (-x[1], x))
        for x in cand:
            if not (pos[x] & occ):
                cur.append(x)
                occ |= pos[x]
                left.discard(x)
                if len(occ) > dlc * 8 - 1 or len(cur) >= 10:
                    break
        res.append(cur)
    return res


def C02(c):
    c.model_check('LayoutMC', cfgfile('LayoutMC_thorough' if c.thorough else 'LayoutMC'))
    rng = c.rng
    jobs = []
    lay = list(layouts(8))
    tiles = tile(rng, [x for x in lay if not x[2]]) + tile(rng, [x for x in lay if x[2]])
    # mixed orders as well
    rng.shuffle(tiles)
    for k, part in enumerate(chunks(tiles, 140)):
        ms = [D.Msg('M%d' % i, 1 + i, 8, [D.Sig('s%d_%d' % (i, j), *x, rng.random() < .5) for j, x in enumerate(t)], ext=i % 3 == 1) for i, t in enumerate(part)]
        jobs.append((D.Dbc(ms), cfg(init=[0, 0xff, 0xa5, 0x3c][k % 4], bits=k % 2 == 1, can=k % 4 > 1)))

    def contents(r, m):
        yield [0] * len(m.sigs)
        yield [2 ** 64 - 1] * len(m.sigs)
        for j in range(len(m.sigs)) if len(m.sigs) > 1 else ():
            yield [(2 ** 64 - 1) if x == j else 0 for x in range(len(m.sigs))]
        for _ in range(4):
            yield [r.getrandbits(64) for _ in m.sigs]
        yield [r.randint(*s.rng()) for s in m.sigs]

    def script(d, r):
        for i, m in enumerate(d.ms):
            d.zero(i, 0)
            for v in contents(r, m):
                d.set(i, 0, v, phys_for(r, m) if d.c['sf'] else ())
                d.pack(i, 0)
                if r.random() < .3:
                    d.pack(i, 0)
    for i in range(96 if c.thorough else 24):
        doc = random_doc(rng, 8, 24, dlcs=[rng.randint(1, 64), 8, 64, rng.randint(1, 8), 1 + (i * 3) % 64])
        add_markers(rng, doc)
        jobs.append((doc, rand_cfg(rng), D.Style(rng, 1)))
    rows, ab = compile_run(c, jobs, script, keep=('h',))
    c.count('layouts', sum(len(m['sigs']) for r in rows for m in r['msgs']))
    c.cov['exhaustive_8_byte_layouts'] = len(lay)
    c.sample({'signals': rows[0]['msgs'][0]['sigs'], 'raw': rows[0]['ev'][2]['raw'], 'payload': rows[0]['ev'][2]['d'], 'cfg': rows[0]['cfg']})
    c.validate('RuntimeTrace', rows, aspects('bits', 'mem'), steps(rows), lambda t: ab[t])


def phys_for(rng, m, raw=None):
    """consistent physical values for raw (random raw values if not given)"""
    res = []
    for i, s in enumerate(m.sigs):
        if not s.scaled():
            continue
        v = raw[i] if raw else rng.randint(*s.dom())
        x = v * Fraction(s.fac) + Fraction(s.off)
        res.append(float(x) if s.dec() else int(x))
    return res


def add_markers(rng, doc, roll=.6, csm=.6):
    """declare counters and checksums on suitable signals"""
    for m in doc.msgs:
        cand = [s for s in m.sigs if not s.scaled() and not s.signed and s.l <= 32]
        rng.shuffle(cand)
        if cand and rng.random() < roll:
            cand.pop().roll = True
        cand = [s for s in cand if s.l <= 8 and len({p // 8 for p in D.positions(s.s, s.l, s.mot)}) == 1]
        if cand and rng.random() < csm:
            cand.pop().csm = (rng.choice(sorted(R.METHODS)), rng.randint(0, 255))
    return doc


# ------------------------------------------------------------------------------------------------

def cfgfile(name):
    return open(os.path.join(SPEC, name + '.cfg')).read()


def C03(c):
    c.model_check('LayoutMC', cfgfile('LayoutMC_thorough' if c.thorough else 'LayoutMC'))
    rng = c.rng
    jobs = []
    lay = list(layouts(8))
    rng.shuffle(lay)
    tiles = tile(rng, [x for x in lay if not x[2]]) + tile(rng, [x for x in lay if x[2]])
    rng.shuffle(tiles)
    for k, part in enumerate(chunks(tiles, 140)):
        ms = [D.Msg('M%d' % i, 1 + i, 8, [D.Sig('s%d_%d' % (i, j), *x, rng.random() < .5) for j, x in enumerate(t)]) for i, t in enumerate(part)]
        jobs.append((D.Dbc(ms), cfg(bits=k % 2 == 1, init=rng.choice([0, 0xff, 0x5a]))))
    for i in range(96 if c.thorough else 24):
        doc = random_doc(rng, 8, 24, dlcs=[rng.randint(1, 64), 8, 64, rng.randint(1, 8), 1 + (i * 5) % 64])
        jobs.append((doc, rand_cfg(rng, sf=False, roll=False, csm=False), D.Style(rng, 1)))

    def edges(r, s):
        lo, hi = s.rng()
        return r.choice([lo, hi, 0, -1 if s.signed else hi - 1 if hi else 0, lo + 1 if hi else 0, r.randint(lo, hi), r.randint(lo, hi)])

    def script(d, r):
        for i, m in enumerate(d.ms):
            d.zero(i, 0)
            d.zero(i, 1)
            for n in range(8 if len(d.ms) < 20 else 5):
                if n == 4:      # out of range contents must not disturb the in-range ones
                    d.set(i, 0, [r.getrandbits(64) if r.random() < .3 else edges(r, s) for s in m.sigs])
                else:
                    d.set(i, 0, [edges(r, s) for s in m.sigs])
                d.pack(i, 0, n % 8)
                d.unpack(i, 1, r.choice([r.randbytes(m.dlc), r.randbytes(m.dlc), b'\xff' * m.dlc]))
                d.pack(i, 1, 7 if n % 8 != 7 else 6)
                d.deliver(i, 2, n % 8)
    rows, ab = compile_run(c, jobs, script)
    for r in rows:
        slots_of(r)
    c.count('layouts', sum(len(m['sigs']) for r in rows for m in r['msgs']))
    c.sample({'signals': rows[0]['msgs'][0]['sigs'], 'events': rows[0]['ev'][2:6]})
    c.validate('RoundTripTrace', rows, '', steps(rows), lambda t: ab[t])


def slots_of(row):
    """name the slot of packs and deliveries (recorded by the script) in the events"""
    for e in row['ev']:
        if e['e'] in ('pack', 'unpack'):
            e.setdefault('slot', -1)
        if e['e'] == 'set':
            e['want'] = e.get('want', [])


def C04(c):
    rng = c.rng
    n = 300 if c.thorough else 90
    docs = []
    for i in range(n):
        used, ids, ms = set(), set(), []
        k = rng.randint(1, 12)
        dl = [rng.choice([1, 2, 7, 8, 8, 9, 12, 16, 20, 24, 32, 48, 63, 64, rng.randint(1, 64)]) for _ in range(k)]
        if i % 3 == 0:          # the longest message first / last / in the middle, once
            dl = [rng.randint(1, 20) for _ in range(k)]
            dl[(0, -1, k // 2)[(i // 3) % 3]] = rng.randint(21, 64)
        for j in range(k):
            ext = rng.random() < .5
            sg = D.disjoint_sigs(rng, dl[j], rng.choice([0, 1, 2]), used)
            ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dl[j], sg, ext=ext))
        if rng.random() < .3:
            ms[rng.randrange(k)].id = rng.choice([0x7ff, 0x1fffffff, 0x800])
            for m in ms:
                if m.id > 0x7ff:
                    m.ext = True
        if len({m.id for m in ms}) < k:
            continue
        bad = {}
        for _ in range(rng.randint(0, 3)):     # rejected lines in between
            rid, dlc = rng.choice([(rng.randrange(1, 0x800) | 0x20000000, 8), (0x40000001 + rng.randrange(99), 64), (rng.randrange(0x800), 65),
                                   (rng.randrange(0x800), 0), (0x80000000 + rng.randrange(999), 200), (0xC0000005, 64)])
            nm = D.ident(rng, used, lo=2)
            bad.setdefault(rng.randint(0, k), []).append((nm, rid, dlc))
        docs.append((D.Dbc(ms), bad))

    def one(arg):
        (doc, bad), seed = arg
        r = random.Random(seed)
        st = D.Style(r, 1)
        lines, raw = [], {}
        for j in range(len(doc.msgs) + 1):
            for nm, rid, dlc in bad.get(j, []):
                lines.append({'n': nm, 'id': D.w32(rid), 'dlc': dlc})
                raw.setdefault(j, []).append('BO_ %d %s: %d N0' % (rid, nm, dlc))
                if r.random() < .6:
                    raw[j].append(' SG_ q : 0|8@1+ (1,0) [0|0] "" N1')
            if j < len(doc.msgs):
                m = doc.msgs[j]
                lines.append({'n': m.name, 'id': D.w32(m.rawid()), 'dlc': m.dlc})
        doc.raw = raw
        p = require_package(Package(c, doc, style=st, drv=r.choice(['Tdrv', 'abc', 'X1_y'])))
        names = [x['n'] for x in lines]
        obs, mx = constants(c, p, names)
        cf = rand_cfg(r)
        d = require_driver(Driver(p, cf))
        for i, m in enumerate(d.ms):
            d.zero(i, 0)
            for _ in range(3):
                d.pack(i, 0)
                d.unpack(i, 0, r.randbytes(m.dlc), r.randint(0, 64))
        ev = lean(d.run(), ())
        row = {'lines': lines, 'obs': obs, 'max': mx}
        run = d.row(ev)
        d.close()
        shutil.rmtree(p.dir, ignore_errors=True)
        return row, run, p.about()
    res = pmap(one, [(d, rng.getrandbits(32)) for d in docs])
    rows = [x[0] for x in res]
    log('%d documents' % len(rows))
    c.sample(rows[0])
    c.validate('ConstTrace', rows, '', sum(len(r['lines']) + 2 for r in rows), lambda t: res[t][2])
    runs = [x[1] for x in res if x[1]['ev']]
    ab = [x[2] for x in res if x[1]['ev']]
    c.validate('RuntimeTrace', runs, aspects('id'), steps(runs), lambda t: ab[t])


def constants(c, p, names):
    """the values of the constants of the generated header, by compiling a program against it"""
    src = ['#include "%s.h"' % p.low, '#include <stdio.h>', 'int main(void) {']
    src.append('printf("MAX %%llu\\n", (unsigned long long) %s_MAX_DLC_VALUE);' % p.up)
    for n in names:
        src.append('#if defined(%s_CANID) && defined(%s_DLC) && defined(%s_IDE)' % (n, n, n))
        src.append('printf("%s %%llu %%llu %%llu\\n", (unsigned long long) %s_CANID, (unsigned long long) %s_DLC, (unsigned long long) %s_IDE);' % (n, n, n, n))
        src.append('#endif')
    src.append('return 0; }')
    d = c.scr.own('k')
    f = os.path.join(d, 'k.c')
    open(f, 'w').write('\n'.join(src))
    rc, out = run(['gcc', '-w', '-O0', '-o', os.path.join(d, 'k'), f] + p.incs(), 120)
    if rc != 0:
        raise Violation('the generated header does not compile', dict(p.about(), output=out[:3000]))
    rc, out = run_nobody([os.path.join(d, 'k')], p.dir)
    shutil.rmtree(d, ignore_errors=True)
    obs, mx = [], -1
    for x in out.split('\n'):
        t = x.split()
        if not t:
            continue
        if t[0] == 'MAX':
            mx = int(t[1])
        else:
            obs.append({'n': t[0], 'id': D.w32(int(t[1])), 'dlc': int(t[2]), 'ide': int(t[3])})
    return obs, mx


def all_cfgs(init=0):
    for v in itertools.product([False, True], repeat=7):
        yield cfg(init=init, **dict(zip(R.FLAGS, v)))


EXACT = ['0.5', '0.25', '2.5', '1e1', '0.125', '-0.5', '1.0', '16.0']
EXACTO = ['0', '0.5', '-0.25', '-40.0', '100', '1e2', '0.0']


def C05(c):
    rng = c.rng
    docs = []
    few = 12 if c.thorough else 3           # documents for which all combinations are compiled
    for i in range(120 if c.thorough else 27):
        doc = random_doc(rng, 3, 9, dlcs=[8, 8, rng.randint(1, 64), 16], dec=False)
        for m in doc.msgs:
            for s in m.sigs:
                if not s.scaled() and s.l <= 40 and rng.random() < .3:
                    s.fac, s.off = rng.choice(EXACT), rng.choice(EXACTO)
        add_markers(rng, doc, .9, .9)
        docs.append(decorate(rng, doc))
    rows, base, ab = [], [], []
    for n, doc in enumerate(docs):
        p = require_package(Package(c, doc, style=D.Style(rng, 1)))
        init = rng.choice([0, 0xff, 0xa5])
        seed = rng.getrandbits(32)

        def execute(cf):
            r = random.Random(seed)
            d = require_driver(Driver(p, cf, opt='-O0'))
            ms = d.ms
            for i, m in enumerate(ms):
                for k in range(2):
                    d.set(i, k, [0] * len(m.sigs), phys_for(r, m, [0] * len(m.sigs)))
            for step in range(40):
                i = r.randrange(len(ms))
                m, k = ms[i], r.randrange(2)
                x = r.random()
                if x < .6:
                    raw = [r.choice([r.randint(*s.rng()), s.rng()[1], s.rng()[0]]) if s.scaled() or r.random() < .6 else r.getrandbits(64) for s in m.sigs]
                    d.set(i, k, raw, phys_for(r, m, raw))
                    d.pack(i, k)
                elif x < .7:
                    d.pack(i, k)
                elif x < .8:
                    d.unpack(i, k, r.randbytes(m.dlc), r.randint(0, 64))
                    d.pack(i, k)
                else:
                    d.unpack(i, k, r.randbytes(m.dlc), r.choice([m.dlc, r.randint(0, 64)]))
            ev = d.run()
            for e in ev:
                for f in ('h', 'f', 'phys', 'mon', 'want', 'pwant', 'fid', 'ret'):
                    e.pop(f, None)
            row = d.row(ev)
            d.close()
            return row
        b = execute(cfg(init=init))
        base.append(b)
        cfs = list(all_cfgs(init))
        if n >= few:
            cfs = rng.sample(cfs, 9)
        for cf, row in zip(cfs, pmap(execute, cfs)):
            row.pop('msgs')
            row['base'] = n + 1
            rows.append(row)
            ab.append(dict(p.about(), cfg=cf))
        shutil.rmtree(p.dir, ignore_errors=True)
    log('%d configurations executed' % len(rows))
    c.cov['configurations_per_document'] = 128
    c.cov['documents_with_sampled_configurations'] = len(docs) - few
    c.sample({'cfg': rows[77]['cfg'], 'event': rows[77]['ev'][3]})
    c.validate('ConfigTrace', rows, '', steps(rows), lambda t: ab[t], files={'base.ndjson': ndjson(base)})


def edge_raw(r, s):
    lo, hi = s.dom()
    return r.choice([lo, hi, 0, min(1, hi), max(-1, lo), lo // 2, hi // 2, min(hi, hi // 2 + 1), r.randint(lo, hi), r.randint(lo, hi)])


def conv_calls(d, r, i, m):
    """the application uses the conversion macros itself"""
    for j, s in enumerate(m.sigs):
        if not s.scaled():
            continue
        raw = edge_raw(r, s)
        d.conv(i, j, False, raw, r.random() < .5)
        x = raw * Fraction(s.fac) + Fraction(s.off)
        if not s.dec():
            d.conv(i, j, True, int(x), r.random() < .5)
        elif s.l <= 50:
            d.conv(i, j, True, float(x), r.random() < .5)


def scale_script(d, r):
    for i, m in enumerate(d.ms):
        d.zero(i, 0)
        d.zero(i, 1)
        for n in range(12):
            if n % 3 == 0:
                conv_calls(d, r, i, m)
            if not d.c['sf']:
                continue
            raw = [edge_raw(r, s) for s in m.sigs]
            d.set(i, 0, [r.randint(*s.rng()) for s in m.sigs] if n % 3 == 0 else raw, phys_for(r, m, raw), raw)
            d.pack(i, 0, n)
            d.deliver(i, 1, n)
            if n % 3 == 1:      # and back
                d.pack(i, 1, 100)
            d.unpack(i, 1, r.choice([r.randbytes(m.dlc), r.randbytes(m.dlc), bytes(m.dlc), b'\xff' * m.dlc]))
            if all(s.l <= 50 for s in m.sigs if s.dec()):
                d.pack(i, 1, 101)


def C06(c):
    rng = c.rng
    jobs = []
    for i in range(90 if c.thorough else 24):
        used, ids, ms = set(), set(), []
        shared = [D.ident(rng, used) for _ in range(3)]
        for j in range(6):
            dlc = rng.choice([8, 8, 16, 64, rng.randint(1, 64)])
            bias = [8, 16, 32, 31, 33, 62, 7, 1, 64, 63]
            sg = D.disjoint_sigs(rng, dlc, 8, used, maxlen=64, bias=bias)
            if i % 2 == 0:      # same names, other scalings
                for s, nm in zip(sg, rng.sample(shared, 3)):
                    s.name = nm
            for s in sg:
                if rng.random() < .85:
                    D.int_scale(rng, s, anyrange=True)
                elif rng.random() < .3 and s.l < 40:
                    s.fac, s.off = rng.choice(EXACT), '0'
            ext = rng.random() < .3
            ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dlc, sg, ext=ext))
        jobs.append((add_markers(rng, D.Dbc(ms), .3, .3), rand_cfg(rng, sf=i % 9 != 8), D.Style(rng, 1)))
    rows, ab = compile_run(c, jobs, scale_script, keep=('phys',))
    c.count('scaled_signals', sum(1 for r in rows for m in r['msgs'] for s in m['sigs']))
    c.sample({'signal': rows[0]['msgs'][0]['sigs'][0], 'event': rows[0]['ev'][3]})
    c.validate('RuntimeTrace', rows, aspects('phys', 'phold', 'macro'), steps(rows), lambda t: ab[t])


def C07(c):
    rng = c.rng
    jobs = []
    for i in range(90 if c.thorough else 24):
        used, ids, ms = set(), set(), []
        shared = [D.ident(rng, used) for _ in range(3)]
        for j in range(6):
            dlc = rng.choice([8, 8, 16, 64, rng.randint(1, 64)])
            sg = D.disjoint_sigs(rng, dlc, 6, used, maxlen=rng.choice([50, 50, 64]), bias=[8, 16, 32, 12, 10, 24])
            if i % 2 == 0:
                for s, nm in zip(sg, rng.sample(shared, 3)):
                    s.name = nm
            for s in sg:
                x = rng.random()
                if x < .8:
                    s.fac, s.off = D.dec_text(rng), rng.choice(['0', D.dec_text(rng), D.dec_text(rng), str(rng.randint(-500, 500))])
                    if rng.random() < .15:
                        s.fac = str(rng.choice([1, 2, -3, 10]))
                        s.off = D.dec_text(rng)
                elif x < .88:
                    s.fac = rng.choice(['1e-10', '0.0000000001', '5E-12', '-0.00000000099', '1e-300'])
                elif x < .92:
                    s.off = rng.choice(['1e-10', '-1e-15'])
                elif x < .96 and s.l <= 62:
                    D.int_scale(rng, s)
            ext = rng.random() < .3
            ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dlc, sg, ext=ext))
        jobs.append((add_markers(rng, D.Dbc(ms), .3, .3), rand_cfg(rng, sf=i % 9 != 8), D.Style(rng, 1)))

    def script(d, r):
        for i, m in enumerate(d.ms):
            d.zero(i, 0)
            d.zero(i, 1)
            wide = any(s.dec() and s.l > 50 for s in m.sigs)
            for n in range(10):
                if n % 3 == 0:
                    conv_calls(d, r, i, m)
                if not d.c['sf']:
                    continue
                if not wide:
                    # anything between two exact values
                    ph = []
                    for s in m.sigs:
                        if s.scaled():
                            lo, hi = s.rng()
                            v = Fraction(edge_raw(r, s))
                            if s.dec() and r.random() < .5 and hi > lo:
                                v = min(Fraction(hi), max(Fraction(lo), v + Fraction(r.random())))
                            x = v * Fraction(s.fac) + Fraction(s.off)
                            ph.append(float(x) if s.dec() else int(x))
                    d.set(i, 0, [r.randint(*s.rng()) for s in m.sigs], ph)
                    d.pack(i, 0, n)
                    d.deliver(i, 1, n)
                d.unpack(i, 1, r.choice([r.randbytes(m.dlc), r.randbytes(m.dlc), r.randbytes(m.dlc), bytes(m.dlc), b'\xff' * m.dlc]))
                if not wide:
                    d.pack(i, 1, 101)
    rows, ab = compile_run(c, jobs, script, keep=('phys',))
    c.count('scaled_signals', sum(1 for r in rows for m in r['msgs'] for s in m['sigs']))
    c.sample({'signal': rows[0]['msgs'][0]['sigs'][0], 'event': rows[0]['ev'][3]})
    c.validate('RuntimeTrace', rows, aspects('dec', 'raw', 'macro'), steps(rows), lambda t: ab[t])


# ------------------------------------------------------------------------------------------------
# histories

def link_schedules(c, num):
    res = []
    for k, (w, faults) in enumerate([(1, '"lose", "dup"'), (2, '"lose"'), (2, '"lose", "dup", "reorder"'), (3, '"reorder"'), (2, '"corrupt", "lose"'), (1, '"lose", "reorder"')]):
        got = simulate(c.scr, 'LinkGen', 'SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\nW = %d\nMaxSend = 60\nSlots = 4\nFaults = {%s}\nH = 40\n' % (w, faults),
                       num, 400, SEED * 10 + k)
        uniq = {json.dumps(g): g for g in got}
        keys = sorted(uniq)
        c.rng.shuffle(keys)
        res += [uniq[k] for k in keys[:num]]
    return res


def counter_doc(rng, widths, csm=.5):
    used, ids, ms = set(), set(), []
    for w in widths:
        for _ in range(100):
            dlc = rng.choice([8, 8, 8, rng.randint((w + 7) // 8 + 1, 64)])
            mot = rng.random() < .5
            s = rng.randrange(dlc * 8)
            if D.fits(s, w, mot, dlc):
                break
        else:
            dlc, s, mot = 8, 0, False
        cs = D.Sig(D.ident(rng, used, lo=1, hi=rng.choice([10, 30])), s, w, mot, False, roll=True)
        occ = set(D.positions(s, w, mot))
        sigs = [cs]
        for t in D.disjoint_sigs(rng, dlc, rng.randint(0, 5), used, maxlen=32):
            ps = set(D.positions(t.s, t.l, t.mot))
            if not ps & occ:
                occ |= ps
                sigs.append(t)
        rng.shuffle(sigs)
        if rng.random() < csm:
            cand = [x for x in sigs if not x.roll and not x.signed and x.l <= 8 and len({p // 8 for p in D.positions(x.s, x.l, x.mot)}) == 1]
            if cand:
                cand[0].csm = (rng.choice(sorted(R.METHODS)), rng.randint(0, 255))
        cs.comment = rng.choice([None, 'counter <RollingCounter> of the frame', '<RollingCounter>', 'x<RollingCounter>y'])
        ext = rng.random() < .3
        ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dlc, sigs, ext=ext))
    return D.Dbc(ms)


def C08(c):
    for f in ('gap', 'noise', 'one') + (('deep',) if c.thorough else ()):
        c.model_check('LinkMC', cfgfile('LinkMC_' + f))
    rng = c.rng
    sched = link_schedules(c, 60 if c.thorough else 12)
    log('%d schedules from LinkGen' % len(sched))
    widths = list(range(1, 33))
    jobs = []
    for rep in range(8 if c.thorough else 4):
        rng.shuffle(widths)
        for part in chunks(widths, 4):
            jobs.append((counter_doc(rng, part), rand_cfg(rng, roll=True, mon=rng.random() < .9), D.Style(rng, 1), rng.choice(['Tdrv', 'Tdrv', 'Gateway_Body2'])))

    def script(d, r):
        # the histories of all messages are interleaved; instance 0 sends, instance 1 receives
        todo = []
        for i, m in enumerate(d.ms):
            w = next(s.l for s in m.sigs if s.roll)
            d.zero(i, 1)
            raw = [r.getrandbits(64) for s in m.sigs]
            for j, s in enumerate(m.sigs):
                if s.roll:
                    raw[j] = r.choice([0, (1 << w) - 1, max(0, (1 << w) - r.randint(1, 9)), r.getrandbits(w)])
                    if r.random() < .2:
                        raw[j] = r.getrandbits(64)
            d.set(i, 0, raw, phys_for(r, m) if d.c['sf'] else ())
            todo.append(list(r.choice(sched)) + list(r.choice(sched)))
        off = [0] * len(todo)
        while any(todo):
            i = r.choice([k for k, t in enumerate(todo) if t])
            op, n = todo[i].pop(0)
            m = d.ms[i]
            if op == 'S' and n == 0 and off[i] == 0:
                off[i] = 1
            if op == 'S':
                if r.random() < .03:    # the application jumps
                    w = next(s.l for s in m.sigs if s.roll)
                    d.set(i, 0, [r.getrandbits(64) for s in m.sigs], phys_for(r, m) if d.c['sf'] else ())
                d.pack(i, 0, i * 60 + n % 60)
            elif n >= 0:
                d.deliver(i, 1, i * 60 + n % 60, r.choice([m.dlc] * 4 + [0]))
            else:
                d.unpack(i, 1, r.randbytes(m.dlc))
    rows, ab = compile_run(c, jobs, script, keep=('mon', 'h'), split=False)
    c.cov['counter_widths'] = 32
    c.sample({'cfg': rows[0]['cfg'], 'events': [{k: e[k] for k in ('e', 'm', 'k', 'd', 'mon') if k in e} for e in rows[0]['ev'][-4:]]})
    c.validate('RuntimeTrace', rows, aspects('roll'), steps(rows), lambda t: ab[t])


COMMENTS = ['', 'checksum of the frame ', 'a: b, c; ', '(see doc) ', 'CRC 8-bit / J1850 ', 'x > y ', '< 5 ', '1:2:3 ']


def C09(c):
    for f in ('noise',):
        c.model_check('LinkMC', cfgfile('LinkMC_' + f))
    rng = c.rng
    # every (start bit, width) inside a byte, both orders, in random bytes; every byte 0..63
    spots = [(b, l) for b in range(8) for l in range(1, 9 - b)]
    places = [(byte, *rng.choice(spots)) for byte in range(64)] + [(rng.randrange(64), b, l) for b, l in spots] + [(rng.randrange(8), b, l) for b, l in spots] + [(rng.randrange(64), *rng.choice(spots)) for _ in range(120)]
    if c.thorough:
        places = [(byte, b, l) for byte in range(64) for b, l in spots]
    rng.shuffle(places)
    jobs = []
    for part in chunks(places, 8):
        used, ids, ms = set(), set(), []
        for byte, b, l in part:
            dlc = rng.choice([byte + 1, rng.randint(byte + 1, 64)])
            if byte < 8 and rng.random() < .7:
                dlc = 8
            mot = rng.random() < .5
            s = byte * 8 + (b + l - 1 if mot else b)
            cs = D.Sig(D.ident(rng, used), s, l, mot, False, csm=(rng.choice(sorted(R.METHODS)), rng.choice([0, 1, 7, 255, rng.randint(0, 99999)])))
            bad = rng.random()
            if bad < .08:
                cs.signed = True
            elif bad < .16:
                cs.fac = '2'
            mk = '<Checksum:%s:%d>' % cs.csm
            cs.comment = rng.choice(COMMENTS) + mk + rng.choice(['', ' end', ' a > b', ' <x>', '.'])
            occ = set(D.positions(s, l, mot))
            sigs = [cs]
            for t in D.disjoint_sigs(rng, dlc, rng.randint(0, 6), used):
                ps = set(D.positions(t.s, t.l, t.mot))
                if not ps & occ:
                    occ |= ps
                    sigs.append(t)
            rng.shuffle(sigs)
            if rng.random() < .4:
                cand = [x for x in sigs if not x.csm and not x.signed and x.l <= 32]
                if cand:
                    cand[0].roll = True
            if rng.random() < .15:     # a marker on a signal that crosses a byte boundary means nothing
                pass
            ext = rng.random() < .3
            ms.append(D.Msg(D.ident(rng, used, lo=2), D.new_id(rng, ids, ext), dlc, sigs, ext=ext))
        jobs.append((D.Dbc(ms), rand_cfg(rng, csm=True, mon=rng.random() < .9), D.Style(rng, 1)))

    def script(d, r):
        for i, m in enumerate(d.ms):
            cs = next(s for s in m.sigs if s.csm)
            byte = min(D.positions(cs.s, cs.l, cs.mot)) // 8
            d.zero(i, 0)
            d.zero(i, 1)
            for n in range(6):
                x = r.random()
                if x < .6:
                    d.hash(1 + (cs.l if r.random() < .8 else 0))
                else:
                    d.hash(0, r.choice([0, 255, (1 << cs.l) - 1, r.randrange(256), 1 << (cs.l - 1)]))
                d.set(i, 0, [r.getrandbits(64) for s in m.sigs], phys_for(r, m) if d.c['sf'] else ())
                d.pack(i, 0, n)
                d.deliver(i, 1, n)
                d.unpack(i, 1, r.randbytes(m.dlc), r.choice([m.dlc, m.dlc, r.randint(0, 64)]))
                if r.random() < .3:
                    d.pack(i, 1, 50)
                    d.deliver(i, 1, 50)
    rows, ab = compile_run(c, jobs, script, keep=('mon', 'h'))
    c.cov['checksum_positions'] = len(places)
    c.sample({'signals': rows[0]['msgs'][0]['sigs'], 'events': rows[0]['ev'][2:5]})
    c.validate('RuntimeTrace', rows, aspects('csm', 'bits'), steps(rows), lambda t: ab[t])


def C10(c):
    rng = c.rng
    jobs = []
    for i in range(128 if c.thorough else 48):
        doc = random_doc(rng, rng.randint(2, 8), 5)
        add_markers(rng, doc)
        for m in list(doc.msgs):
            if rng.random() < .1 and len(doc.msgs) > 2:
                m.sigs = []     # no functions for empty messages
        jobs.append((doc, rand_cfg(rng, mon=i % 8 != 7, mono=i % 2 == 1), D.Style(rng, 1), rng.choice(['Tdrv', 'MyDrv', 'x'])))

    def script(d, r):
        if not d.ms:
            return
        for i, m in enumerate(d.ms):
            for k in range(3):
                d.zero(i, k)
        for n in range(150):
            i, k = r.randrange(len(d.ms)), r.randrange(3)
            m = d.ms[i]
            x = r.random()
            if x < .25:
                d.tick(r.choice([r.getrandbits(32), r.randrange(100), 0, 0xffffffff]))
            elif x < .3:
                d.hash(r.choice([0, 1, 1, 9]), r.randrange(256))
            elif x < .34:
                d.preset(i, k, r.choice([0, 2 ** 32 - r.randint(1, 3), (1 << r.randint(7, 31)) - r.randint(1, 3), r.getrandbits(32)]), r.getrandbits(32), r.randrange(8))
            elif x < .42:
                d.pack(i, k, 3)
            elif x < .5:
                d.pack(i, k, 4)
                d.deliver(i, (k + 1) % 3, 4)
            else:
                d.unpack(i, k, r.randbytes(m.dlc), r.choice([m.dlc, m.dlc - 1, m.dlc + 1, 0, r.randint(0, 64), 255]))
    rows, ab = compile_run(c, jobs, script, keep=('mon',), split=False)
    both = [(r, a) for r, a in zip(rows, ab) if r['ev']]
    rows, ab = [x[0] for x in both], [x[1] for x in both]
    c.sample({'cfg': rows[0]['cfg'], 'events': [e for e in rows[0]['ev'] if e['e'] == 'unpack'][:2]})
    c.validate('RuntimeTrace', rows, aspects('fmon'), steps(rows), lambda t: ab[t])
