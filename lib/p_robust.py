"""C23: the generator survives every document, and damage stays where it is."""
from vlib import *
import dbc as D
import drv as R
import hdr as H
import p_build, p_parse
from p_parse import Concrete, gen_docs, ints, NODES, base_macros, payloads_of, values_of
from drv import Package

KEYWORDS = ('BO_', 'SG_', 'CM_', 'VAL_', 'BA_', 'VERSION', 'Version', 'BO_TX_BU_')


def build_checked(c):
    """coderdbc with checking of addresses and undefined behaviour (and library assertions)"""
    b = c.scr.own('asan')
    rc, out = run(['cmake', '-S', os.path.join(REPO, 'src'), '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
                   '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest', '-DINSTALL_GTEST=OFF'], 300)
    if rc != 0:
        raise CheckError('cmake failed:\n' + out[-3000:])
    rc, out = run(['ninja', '-C', b, 'coderdbc'], 600)
    if rc != 0:
        raise CheckError('build failed:\n' + out[-3000:])
    dst = os.path.join(c.scr.root, 'coderdbc-checked')
    shutil.copy(os.path.join(b, 'coderdbc'), dst)
    os.chmod(dst, 0o755)
    shutil.rmtree(b)
    log('checked coderdbc built')
    return dst


ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0'}


class Run:
    """one run of the checked generator on any bytes, in a directory of its own"""

    def __init__(self, c, exe, data, nu):
        self.top = c.scr.dir('rb')
        self.dir = os.path.join(self.top, 'o')
        src = c.scr.dir('src')
        self.dbc = os.path.join(src, 'in.dbc')
        with open(self.dbc, 'wb') as h:
            h.write(data)
        self.drv, self.low, self.up = 'Tdrv', 'tdrv', 'TDRV'
        self.rc, self.out = run_nobody([exe, '-dbc', self.dbc, '-out', self.dir, '-drvname', self.drv, '-rw'] + (['-nodeutils'] if nu else []), self.top, timeout=100, env=ENV)
        self.files, self.outside = [], []
        for d, _, fs in os.walk(os.fsencode(self.top)):
            for f in fs:
                x = os.path.relpath(os.path.join(d, f), os.fsencode(self.top)).decode('latin-1')
                (self.files if x.startswith('o/') else self.outside).append(x[2:] if x.startswith('o/') else x)
        self.ok = os.path.exists(self.path('lib', self.low + '.h')) and os.path.exists(self.path('lib', self.low + '.c'))
        conf = self.path('conf', 'dbccodeconf.h')
        if self.ok and os.path.exists(conf):
            os.remove(conf)
            with open(conf, 'w') as h:
                h.write(R.CONF % '\n'.join('#define %s %dU' % kv for kv in R.METHODS.items()))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def incs(self):
        return ['-I' + self.path(x) for x in ('lib', 'conf', 'inc', 'butl')]

    def row(self):
        return {'rc': str(self.rc), 'fault': any(x in self.out for x in ('AddressSanitizer', 'Assertion', 'runtime error: ')), 'files': sorted(self.files)[:60], 'outside': self.outside[:5],
                'dmg': False, 'lines': [], 'hit': 0, 'names': []}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)
        shutil.rmtree(os.path.dirname(self.dbc), ignore_errors=True)


NUMS = [b'0', b'-1', b'64', b'65', b'255', b'256', b'511', b'512', b'2147483648', b'4294967295', b'4294967296', b'9223372036854775808', b'18446744073709551616', b'1e30', b'-1e30', b'1e308', b'1e999',
        b'1e-320', b'9007199254740993', b'nan', b'inf', b'-inf', b'0x7', b'+5', b'00009', b'', b'1' * 400, b'.', b'-', b'1e', b'--1', b'1.2.3', b'9' * 19, b'0' * 5000]
BITS = [b'"', b'CM_ "', b'<RollingCounter>', b'<Checksum::>', b'<Checksum:A:99999999999>', b'<Checksum:', b'Checksum:X:1>', 'µ'.encode(), b'\r', b'\n\n', b'\0', b'%s%n%d', b'\\', b'*/', b'/*', b'??/', b'//', b';', b'";',
        b'M', b'm', b'm99999999999', b'mM', b'@', b'|', b'[', b']', b'()', b'(,)', b'[|]', b':', b',,,,', b'BO_ ', b' SG_ ', b'VAL_ ', b'BA_ "GenMsgCycleTime" BO_ ', b'BO_TX_BU_ ', b'VERSION "', b'\xff\xfe', b'\xef\xbb\xbf']


def damage_any(r, b):
    """any change of any bytes"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        k = r.randrange(9)
        i = r.randrange(len(b) + 1)
        if k == 0 and i < len(b):
            del b[i]
        elif k == 1:
            b[i:i] = bytes([r.randrange(256)])
        elif k == 2 and i < len(b):
            b[i] = r.choice(b' "0123456789:;@+-()[]|,.eE\n\\_%\x00\xff')
        elif k == 3:
            del b[i:min(len(b), i + r.randrange(60))]
        elif k == 4:
            b[i:i] = b[i:i + r.randrange(80)] * r.choice([1, 1, 2, 50, 3000])
        elif k == 5:
            b[i:i] = r.choice(BITS + NUMS)
        elif k == 6:
            ls = bytes(b).split(b'\n')
            if r.random() < .2:
                r.shuffle(ls)
            x, y = r.randrange(len(ls)), r.randrange(len(ls))
            ls[x], ls[y] = ls[y], ls[x]
            b = bytearray(b'\n'.join(ls))
        elif k == 7:
            ms = list(re.finditer(rb'-?\d+\.?\d*', bytes(b)))
            if ms:
                m = r.choice(ms)
                b[m.start():m.end()] = r.choice(NUMS)
        elif r.random() < .3:
            del b[i:]
    return bytes(b)


def any_document(r):
    x = r.random()
    if x < .03:
        return r.choice([b'', b'\n', b'\0', b'\r\n' * 50, b' ', b'"', b'CM_', b'BO_', b'SG_', b'VAL_', b'BA_', b'VERSION', b'BO_TX_BU_', b'BO_ ', b' SG_ ', b'\x1a', b'BO_ 1', b'BO_ 1 ', b'CM_ "', b'CM_ "\n'])
    if x < .08:
        return r.randbytes(r.choice([1, 10, 300, 5000]))
    if x < .14:
        return b''.join(r.choice(BITS + NUMS + [b' ', b' ', b'\n', b'\n', b'Sig', b'Msg', b'8', b'100']) for _ in range(r.choice([5, 30, 300])))
    t = D.render(p_build.wide_doc(r, 'A'), D.Style(r, 1)).encode('utf-8')
    return damage_any(r, t)


def damage_line(r, t, lo, hi):
    """another line made of t[:lo] + damaged t[lo:hi] + t[hi:], without line ends"""
    b = bytearray(t[lo:hi].encode('utf-8'))
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k, i = r.randrange(8), r.randrange(len(b) + 1)
        if k == 7:
            del b[max(0, len(b) - r.choice([1, 1, 2, 3, 6])):]
        elif k == 0 and i < len(b):
            del b[i:i + r.choice([1, 1, 3, 8])]
        elif k == 1:
            b[i:i] = bytes([r.randrange(256)])
        elif k == 2 and i < len(b):
            b[i] = r.choice(b' "0123456789:;@+-()[]|,.eE\\_%\x00\xff')
        elif k == 3:
            b[i:i] = r.choice(BITS + NUMS)
        elif k == 4:
            ms = list(re.finditer(rb'-?\d+\.?\d*', bytes(b)))
            if ms:
                m = r.choice(ms)
                b[m.start():m.end()] = r.choice(NUMS)
        elif k == 5:
            del b[i:]
        else:
            b[i:i] = b[i:i + r.randrange(30)] * r.choice([1, 2, 40])
    return bytes(x for x in b if x not in (10, 13))


def lib_text(b):
    return b.decode('latin-1')


def damaged(c, r, con):
    """(bytes, lines for the specification, hit) or None"""
    lines, text = con.lines, con.text
    opened, free = False, []
    for n, x in enumerate(lines):
        if not opened:
            free.append(n)
        if x['k'] == 'cm' and not x['closed'] and not opened:
            opened = True
        elif opened and x['k'] == 'tl' and x['closes']:
            opened = False
    enc = [t.encode('utf-8') for t in text]
    eol = con.st.eol.encode()
    what = r.choice(['line'] * 6 + ['cut'] * 3 + ['insert'])
    if what == 'insert':
        n = r.choice(free + ([] if opened else [len(lines)]))
        j = bytes(x for x in r.choice([r.randbytes(r.choice([1, 20, 200])), r.choice(BITS) * 3, b'X' + any_document(r)[:2000], r.choice(NUMS)]) if x not in (10, 13))
        if re.match(rb'\s*(%s)' % b'|'.join(k.encode() for k in KEYWORDS), j) or b'SG_' in j or b'ersion' in j.lower():
            return None
        ls = lines[:n] + [{'k': 'junk', 'q': False}] + lines[n:]
        return eol.join(enc[:n] + [j] + enc[n:]) + eol, ls, n + 1, j
    cands = [n for n in free if lines[n]['k'] in ('bo', 'sg', 'tx', 'cyc', 'val', 'cm', 'junk', 'ver')]
    if not cands:
        return None
    n = r.choice([x for x in cands if lines[x]['k'] in ('sg', 'bo')] or cands) if r.random() < .6 else r.choice(cands)
    k, t = lines[n]['k'], text[n]
    if '\n' in t or len(t) > 4000:
        return None
    if what == 'cut':
        b = enc[n][:r.randrange(len(enc[n]) + 1)]
        res = eol.join(enc[:n] + [b])
        return res, lines[:n + 1], n + 1, b
    kw = re.match(r'\s*(\w+)', t)
    lo = kw.end() if kw and kw.group(1).startswith(KEYWORDS) and (k == 'cm' or r.random() < .9) else 0
    hi = t.find('"') if k == 'cm' else len(t)
    if k == 'cm' and hi < 0:
        return None
    mid = damage_line(r, t, lo, hi)
    if k == 'cm':
        mid = bytes(x for x in mid if x != 34)
    b = t[:lo].encode() + mid + t[hi:].encode('utf-8')
    new = lib_text(b)
    old = lib_text(enc[n])
    # a line that now starts with another keyword is another line, not a damaged one
    m0, m1 = re.match(r'\s*(%s)' % '|'.join(sorted(KEYWORDS, key=len, reverse=True)), old), re.match(r'\s*(%s)' % '|'.join(sorted(KEYWORDS, key=len, reverse=True)), new)
    if m1 and (not m0 or m0.group(1) != m1.group(1)):
        return None
    if k in ('junk', 'ver') and (m1 or 'SG_' in new):
        return None
    # no collision with what the other lines name
    names = {x['n'] for x in con.msg.values()} | {n_.upper() for n_ in (x['n'] for x in con.msg.values())}
    words = lambda s: set(re.findall(r'\w+', s))
    fresh = words(new) - words(old)
    if k == 'bo':
        if fresh & names or {x.upper() for x in fresh} & {x.upper() for x in names}:
            return None
        ids = {v['id'] for v in con.msg.values()} | {con.bad[1] & 0x1FFFFFFF}
        if any(int(x) & 0x1FFFFFFF in ids for x in re.findall(r'\d+', new) if x not in re.findall(r'\d+', old) and len(x) < 4000):
            return None
    nl = {x.lower() for x in NODES}
    if any(x.lower() in nl and x not in NODES for x in re.split(r'[^\w.\-]', new)):
        return None
    return eol.join(enc[:n] + [b] + enc[n + 1:]) + eol, lines, n + 1, b


def consts_of(c, p, o, macros):
    """the constants of value tables with their values"""
    o['consts'], o['hasconsts'] = [], True
    found, other = [], []
    for k in sorted(macros):
        best = None
        for m in o['msgs']:
            for f in m['fields']:
                pre = f['f'] + '_' + m['n'] + '_'
                if k.startswith(pre) and (best is None or len(pre) > len(best[2])):
                    best = (f['f'], m['n'], pre)
        if not best:
            continue
        x = re.fullmatch(r'\(*(-?\d+)\)*', macros[k].replace(' ', ''))
        found.append((best, k, int(x.group(1)) if x else None))
        if not x:
            other.append(k)
    vals, err = values_of(c, p, other)
    if err:
        # constants in another notation, and a header that does not compile because of the damage
        o['hasconsts'] = False
        return
    for (f, m, pre), k, v in found:
        o['consts'].append({'f': f, 'm': m, 'c': [ord(ch) for ch in k[len(pre):]], 'v': D.le(vals[k] if v is None else v)})


def observe(c, p, con, nu):
    o = {'failed': '', 'ver': [0, 0], 'msgs': [], 'utils': [], 'nu': nu, 'nodes': True, 'known': NODES + ['']}
    header = p.path('lib', p.low + '.h')
    rc, out = H.preprocess(header, p.incs())
    if rc != 0:
        # the preprocessor complains about the damaged place: take what it makes of the text without comments
        bare = header + '.bare.h'
        with open(header, encoding='latin-1') as h, open(bare, 'w', encoding='latin-1') as g:
            g.write('\n'.join(re.sub(r'/\*.*?\*/|//.*|/\*', '', x) for x in h.read().split('\n')))
        out = subprocess.run(['gcc', '-E', '-dD', '-P', '-fdirectives-only', '-x', 'c'] + p.incs() + [bare], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode('latin-1')
        os.remove(bare)
    macros, structs = H.declarations(out)
    base = base_macros(c)
    macros = {k: v for k, v in macros.items() if k not in base}
    o['ver'] = [ints(macros.get('VER_%s_MAJ' % p.up, '')) or 0, ints(macros.get('VER_%s_MIN' % p.up, '')) or 0]
    places = {}
    for tok, kind, where in H.comment_places(header, set(con.tokens)):
        if kind == 'macro':
            places.setdefault(('m', re.sub(r'_(IDE|DLC|CANID|CYC)$', '', where)), set()).add(tok)
        elif kind == 'field' and where[1]:
            places.setdefault(('f', where[1], where[0]), set()).add(tok)
    for n in [k[:-6] for k in macros if k.endswith('_CANID')]:
        num = lambda s: ints(macros.get(n + s, ''))
        v = num('_CANID')
        dlc, ide = num('_DLC'), num('_IDE')
        o['msgs'].append({'n': n, 'id': D.w32(v) if v is not None and 0 <= v < 2 ** 32 else [-1, -1], 'dlc': -1 if dlc is None else dlc, 'ide': -1 if ide is None else ide, 'cyc': num('_CYC') or 0,
                          'toks': sorted(places.get(('m', n), ())), 'fields': [{'f': f, 'toks': sorted(places.get(('f', n + '_t', f), ()))} for _, f in structs.get(n + '_t', [])], 'pay': []})
    consts_of(c, p, o, macros)
    pays, err = payloads_of(c, p, [m for m in o['msgs'] if m['fields']], macros)
    for m in o['msgs']:
        m['pay'] = pays.get(m['n'], []) if not err else []
    u = p.path('butl')
    lower = {n.lower(): n for n in NODES}
    for f in sorted(os.listdir(u)) if os.path.isdir(u) else []:
        if not f.endswith('-binutil.h'):
            continue
        stem = f[:-len('-binutil.h')]
        rc, out = H.preprocess(os.path.join(u, f), p.incs())
        if rc != 0:
            o['nodes'] = False
            break
        _, st = H.declarations(out)
        node = stem[:-len(p.low) - 1] if stem != p.low else ''
        o['utils'].append({'node': lower.get(node, node), 'rx': [n for _, n in st.get(stem + '_rx_t', [])], 'tx': [n for _, n in st.get(stem + '_tx_t', [])]})
    return o


def C23(c):
    exe = build_checked(c)
    n_any, n_dmg = (12000, 6000) if c.thorough else (1200, 1000)
    seeds = [c.rng.getrandbits(32) for _ in range(n_any)]

    def anyrun(seed):
        r = random.Random(seed)
        data = any_document(r)
        p = Run(c, exe, data, r.random() < .5)
        p.close()
        return p.row(), {'dbc': data[:20000].decode('latin-1'), 'output': p.out[-1500:]}
    res = pmap(anyrun, seeds)
    log('%d arbitrary documents' % len(res))
    docs = gen_docs(c, ['bo', 'bad', 'sg', 'sgbad', 'co', 'cm', 'tl', 'ver', 'junk', 'tx', 'val', 'cyc'], 22, n_dmg, SEED + 3, nm=4, ns=3)
    # annotations next to each other: a damaged one must not swallow the next one
    docs += gen_docs(c, ['val', 'val', 'val', 'cyc', 'cyc', 'cm', 'tx'], 26, n_dmg // 2, SEED + 4, nm=4, ns=2, defs=True)
    jobs = [(d, c.rng.getrandbits(32)) for d in docs for _ in range(-(-n_dmg // len(docs)))]

    def dmgrun(a):
        doc, seed = a
        r = random.Random(seed)
        for _ in range(20):
            con = Concrete(r, doc, 4, 3, quotes=False, underscores=False)
            x = damaged(c, r, con)
            if x:
                break
        else:
            return None
        data, lines, hit, now = x
        nu = r.random() < .6
        p = Run(c, exe, data, nu)
        row = p.row()
        row.update(dmg=True, lines=lines, hit=hit, names=[D.w32(v) for v in sorted({int(y) for y in re.findall(rb'[0-9]+', now) if len(y) < 30}) if v < 1 << 32], obs=observe(c, p, con, nu) if p.ok else {'failed': 'no driver'})
        p.close()
        return row, {'dbc': data[:20000].decode('latin-1'), 'intact': con.render()[:20000], 'line': hit, 'output': p.out[-1500:]}
    res2 = [x for x in pmap(dmgrun, jobs) if x]
    log('%d damaged documents' % len(res2))
    c.count('arbitrary_documents', len(res))
    c.count('damaged_documents', len(res2))
    c.count('damaged_documents_compiled', sum(1 for x in res2 if any(m['pay'] for m in x[0].get('obs', {}).get('msgs', []))))
    res += res2
    rows = [x[0] for x in res]
    c.sample({'dbc': res[-1][1]['dbc'][:1500], 'hit': rows[-1]['hit']})
    c.validate('RobustTrace', rows, '', sum(2 * len(r['lines']) + 3 for r in rows), lambda t: res[t][1])
