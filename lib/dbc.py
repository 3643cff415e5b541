"""Abstract DBC documents, their rendering to text (with every notation the format allows), their JSON
form for the specification, and random generation."""
import math, random
from fractions import Fraction


METHODS = {'XOR8': 17, 'CRC8_J1850': 42, 'SUM4': 5, 'crc_Own': 1000003}


def positions(s, l, mot):
    """bit positions used only for *generating* disjoint signals (the oracle is spec/Layout.tla)"""
    if not mot:
        return [s + j for j in range(l)]
    lin = 8 * (s // 8) + 7 - s % 8
    return [8 * ((lin + k) // 8) + 7 - (lin + k) % 8 for k in range(l)]


class Sig:
    def __init__(self, name, s, l, mot=False, signed=False, fac='1', off='0', mn='0', mx='0', unit='', recs=('N1',),
                 mux=None, roll=False, csm=None, comment=None, vals=None):
        self.name, self.s, self.l, self.mot, self.signed = name, s, l, mot, signed
        self.fac, self.off, self.mn, self.mx, self.unit = fac, off, mn, mx, unit
        self.recs, self.mux, self.roll, self.csm = list(recs), mux, roll, csm
        self.comment, self.vals = comment, vals

    def scaled(self):
        f, o = Fraction(self.fac), Fraction(self.off)
        if is_tiny(f) or is_tiny(o):
            return False
        return is_dec(self.fac) or is_dec(self.off) or f != 1 or o != 0

    def dec(self):
        return self.scaled() and (is_dec(self.fac) or is_dec(self.off))

    def field(self):
        return self.name + ('_ro' if self.scaled() else '')

    def rng(self):
        return (-(1 << (self.l - 1)), (1 << (self.l - 1)) - 1) if self.signed else (0, (1 << self.l) - 1)

    def dom(self):
        """raw values of an integer scaling whose physical values exist in 64 bits (others: all)"""
        lo, hi = self.rng()
        if self.scaled() and not self.dec():
            f, o, m = int(self.fac), int(self.off), 2 ** 63
            ends = sorted([Fraction(-m - min(0, o) if o < 0 else -m, 1) / f, Fraction(m - 1 - max(0, o), 1) / f])
            lo, hi = max(lo, math.ceil(ends[0]), -m), min(hi, math.floor(ends[1]), m - 1)
            assert lo <= 0 <= hi
        return lo, hi

    def json(self):
        return {'n': self.name, 's': self.s, 'l': self.l, 'm': self.mot, 'g': self.signed,
                'fac': num_json(self.fac), 'off': num_json(self.off),
                'roll': self.roll, 'csm': bool(self.csm), 'meth': w32(METHODS[self.csm[0]]) if self.csm else [0, 0],
                'op': w32(self.csm[1] if self.csm else 0), 'recs': self.recs}


class Msg:
    def __init__(self, name, mid, dlc, sigs=(), ext=False, tx='N0', moretx=(), cyc=None, comment=None):
        self.name, self.id, self.dlc, self.sigs, self.ext = name, mid, dlc, list(sigs), ext
        self.tx, self.moretx, self.cyc, self.comment = tx, list(moretx), cyc, comment

    def rawid(self):
        return self.id | (0x80000000 if self.ext else 0)

    def roll(self):
        return next((i for i, s in enumerate(self.sigs) if s.roll), None)

    def csm(self):
        return next((i for i, s in enumerate(self.sigs) if s.csm), None)

    def json(self):
        return {'n': self.name, 'id': w32(self.id), 'ext': self.ext, 'dlc': self.dlc,
                'sigs': [s.json() for s in self.sigs], 'tx': self.tx, 'mtx': self.moretx}


class Dbc:
    def __init__(self, msgs=(), ver=(1, 2), nodes=('N0', 'N1')):
        self.msgs, self.ver, self.nodes = list(msgs), ver, list(nodes)
        self.raw = {}       # lines in front of message i

    def json(self):
        return {'ver': list(self.ver), 'msgs': [m.json() for m in self.msgs]}


def w32(n):
    return [(n >> 16) & 0xffff, n & 0xffff]


def rid(n):
    """an identifier as written: high part (65536 and more: it does not fit 32 bits), low half"""
    return [65536, 0] if n < 0 or n >= 1 << 44 else [n >> 16, n & 0xffff]


def le(n, size=8):
    n &= (1 << (8 * size)) - 1
    return list(n.to_bytes(size, 'little'))


def mag(n):
    """magnitude bytes, little endian, no leading zeros"""
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'little'))


def big(n):
    return {'neg': n < 0, 'mag': mag(n)}


def is_dec(t):
    return '.' in t or 'e' in t or 'E' in t


def is_tiny(f):
    return f != 0 and abs(f) < Fraction(1, 10 ** 9)


def num_json(t):
    f = Fraction(t)
    if is_tiny(f):
        return {'tiny': True, 'dot': is_dec(t), 'w': le(0), 'nano': big(0)}
    n = f * 10 ** 9
    if n.denominator != 1:
        raise ValueError('more than nine fractional digits: ' + t)
    return {'tiny': False, 'dot': is_dec(t), 'w': le(int(f)) if f.denominator == 1 else le(0), 'nano': big(int(n))}


# ------------------------------------------------------------------------------------------------
# rendering

class Style:
    """notation choices; default = what CANdb++ writes"""

    def __init__(self, rng=None, level=0):
        self.rng = rng
        self.level = level if rng else 0
        self.eol = rng.choice(['\n', '\r\n']) if self.level else '\n'

    def pick(self, *opts):
        return self.rng.choice(opts) if self.level else opts[0]


def sig_line(s, st=Style()):
    mux = '' if s.mux is None else ' ' + s.mux
    recs = st.pick(',', ', ', ' ,', ' ').join(s.recs)
    return '%sSG_ %s%s%s%d|%d@%d%s%s(%s,%s%s)%s[%s|%s]%s"%s"%s%s' % (
        st.pick(' ', '\t', '  '), s.name, mux, st.pick(' : ', ' :', ': ', ' :  '), s.s, s.l, 0 if s.mot else 1,
        '-' if s.signed else '+', st.pick(' ', '  ', '\t'), s.fac, st.pick('', ' '), s.off, st.pick(' ', '  '),
        s.mn, s.mx, st.pick(' ', '  '), s.unit, st.pick(' ', '  ', '\t'), recs)


def msg_line(m, st=Style()):
    return 'BO_ %d %s%s%d%s%s' % (m.rawid(), m.name, st.pick(': ', ' : ', ' :', ':  '), m.dlc, st.pick(' ', '  '), m.tx)


def sig_comment(s):
    """the comment text that carries the markers of a signal"""
    t = s.comment
    if t is None and (s.roll or s.csm):
        t = ''
        if s.roll:
            t += '<RollingCounter>'
        if s.csm:
            t += '<Checksum:%s:%d>' % s.csm
    elif t is not None:
        t = t + ('<RollingCounter>' if s.roll and '<RollingCounter>' not in t else '') + ('<Checksum:%s:%d>' % s.csm if s.csm and '<Checksum:' not in t else '')
    return t


def render(d, st=None, order=None):
    st = st or Style()
    L = []
    if d.ver is not None:
        L += ['VERSION "%d.%d"' % tuple(d.ver), '', '']
    L += ['NS_ : ', '\tNS_DESC_', '\tCM_', '\tBA_DEF_', '\tBA_', '\tVAL_', '\tBO_TX_BU_', '', 'BS_:', '', 'BU_: ' + ' '.join(d.nodes), '', '']
    for i, m in enumerate(d.msgs):
        L += d.raw.get(i, [])
        L.append(msg_line(m, st))
        for s in m.sigs:
            L.append(sig_line(s, st))
        L.append('')
    L += d.raw.get(len(d.msgs), [])
    ann = []
    for m in d.msgs:
        if m.moretx:
            ann.append('BO_TX_BU_ %d : %s;' % (m.rawid(), ','.join([m.tx] + m.moretx)))
    L += ann + ['', '']
    ann = []
    for m in d.msgs:
        if m.comment is not None:
            ann.append('CM_ BO_ %d "%s";' % (m.rawid(), m.comment))
        for s in m.sigs:
            t = sig_comment(s)
            if t is not None:
                ann.append('CM_ SG_ %d %s "%s";' % (m.rawid(), s.name, t))
    L += ann
    L += ['BA_DEF_ BO_  "GenMsgCycleTime" INT 0 10000;', 'BA_DEF_DEF_  "GenMsgCycleTime" 0;']
    for m in d.msgs:
        if m.cyc is not None:
            L.append('BA_ "GenMsgCycleTime" BO_ %d %d;' % (m.rawid(), m.cyc))
    for m in d.msgs:
        for s in m.sigs:
            if s.vals:
                L.append('VAL_ %d %s %s ;' % (m.rawid(), s.name, ' '.join('%d "%s"' % v for v in s.vals)))
    return st.eol.join(L) + st.eol


# ------------------------------------------------------------------------------------------------
# random generation

def ident(rng, used, stem='', lo=1, hi=12):
    while True:
        n = rng.randint(lo, hi)
        t = stem + ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(n))
        if t[0].isdigit():
            t = 'S' + t
        if t.lower() not in used and t.lower() not in RESERVED:
            used.add(t.lower())
            return t


RESERVED = set('''i int char short long float double void if else for do while goto switch case break return auto const
 static extern enum struct union volatile register sizeof signed unsigned default typedef continue inline restrict asm
 class new delete this try catch throw public private protected virtual template typename namespace using bool true false
 and or not xor friend mon1 cframe errno linux unix near far'''.split())


def fits(s, l, mot, dlc):
    return max(p // 8 for p in positions(s, l, mot)) < dlc


def disjoint_sigs(rng, dlc, n, used, maxlen=64, names=None, signed_p=0.4, bias=None):
    """n disjoint signals (as many as fit) in a frame of dlc bytes"""
    occ, res = set(), []
    tries = 0
    while len(res) < n and tries < 60:
        tries += 1
        l = rng.choice(bias) if bias and rng.random() < 0.5 else rng.choice(
            [1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 48, 56, 63, 64, rng.randint(1, 64), rng.randint(1, 16)])
        l = min(l, maxlen, dlc * 8)
        mot = rng.random() < 0.5
        s = rng.randrange(dlc * 8)
        pos = positions(s, l, mot)
        if max(pos) >= dlc * 8 or occ & set(pos):
            continue
        occ |= set(pos)
        res.append(Sig(names(rng) if names else ident(rng, used, 's'), s, l, mot, rng.random() < signed_p))
    return res


def new_id(rng, used, ext):
    while True:
        i = rng.choice([rng.randrange(1, 0x800)] * 15 + [0]) if not ext else rng.choice(
            [rng.randrange(1, 0x20000000), rng.randrange(1, 0x1000), 0x1FFFFFFF - rng.randrange(64), 0x10000 * rng.randrange(1, 0x1FFF)])
        if i not in used:
            used.add(i)
            return i


def int_scale(rng, s, kind=None, anyrange=False):
    """an integer factor/offset such that raw*f and raw*f+o fit int64 for every raw value (or for some, with anyrange)"""
    lo, hi = s.rng()
    for _ in range(200):
        c = kind or rng.choice(['off', 'fac', 'both', 'neg', 'big', 'edge', 'edge2'])
        f, o = 1, 0
        if c == 'off':
            o = rng.choice([-1, 1, -40, 100, -128, 128, -32768, 65536, rng.randint(-5000, 5000)])
        elif c == 'fac':
            f = rng.choice([2, 3, 5, 10, 16, 100, 1000, 255, 256, 65536, rng.randint(2, 500)])
        elif c == 'both':
            f, o = rng.choice([2, 4, 5, 10, 25, 100, 1000]), rng.choice([-1, 1, -100, 4000, -273, -40000])
        elif c == 'neg':
            f, o = rng.choice([-1, -2, -10, -1000]), rng.choice([0, 0, 1, 100, -1, 255, 65535])
        elif c == 'big':
            f, o = rng.choice([1, -1, 10 ** 6, 10 ** 9, 2 ** 31, 2 ** 32, -2 ** 33]), rng.choice([0, 5 * 10 ** 9, -2 ** 31, 2 ** 31, 2 ** 32, -2 ** 40, 10 ** 12])
        elif c == 'edge':
            # physical range ends exactly at (or one beyond) the limits of an integer type
            f = rng.choice([1, -1, 2])
            b = rng.choice([7, 8, 15, 16, 31, 32])
            tgt = rng.choice([(1 << b) - 1, 1 << b, -(1 << b), -(1 << b) - 1])
            ends = (lo * f, hi * f)
            o = tgt - rng.choice(ends)
        elif c == 'edge2':
            # a large factor which takes the range just to (or beyond) such a limit
            b = rng.choice([7, 8, 15, 16, 31, 32, 40, 53, 62])
            end = rng.choice([x for x in (lo, hi) if x] or [1])
            f = rng.choice([-1, 1]) * ((1 << b) // abs(end) + rng.choice([-1, 0, 0, 1])) or 1
            o = rng.choice([0, 0, 0, 1, -1])
        if f == 1 and o == 0:
            continue
        vals = [lo * f, hi * f, lo * f + o, hi * f + o]
        if (anyrange or all(-2 ** 63 <= v < 2 ** 63 for v in vals)) and abs(o) < 2 ** 53 and abs(f) < 2 ** 53:
            s.fac, s.off = str(f), str(o)
            return True
    return False


def dec_text(rng, digits=9, big_=4, nonzero=True, neg=True):
    while True:
        nd = rng.randint(0, digits)
        ip = rng.choice([0, 0, 0, 1, rng.randint(0, 10 ** big_)])
        fp = ''.join(rng.choice('0123456789') for _ in range(nd)) if rng.random() < 0.5 else \
            ('0' * rng.randint(0, max(nd - 1, 0)) + str(rng.choice([1, 2, 5, 25, 125, 625])))[:nd]
        t = '%d.%s' % (ip, fp) if fp else '%d' % ip
        if Fraction(t) == 0 and nonzero:
            continue
        c = rng.random()
        if c < 0.25:
            # scientific notation of the same number
            f = Fraction(t)
            e = rng.randint(-3, 6)
            m = f / Fraction(10) ** e
            x, k = m, 0
            while x.denominator != 1 and k < 15:
                x *= 10
                k += 1
            if x.denominator != 1:
                continue
            ms = str(int(x)).rjust(k + 1, '0')
            ms = (ms[:-k] + '.' + ms[-k:]) if k else ms
            t = '%s%s%s%s' % (ms, rng.choice('eE'), '-' if e < 0 else rng.choice(['', '+']), ('%02d' if rng.random() < .5 else '%03d') % abs(e))
            assert Fraction(t) == f
        if neg and rng.random() < 0.25:
            t = '-' + t
        return t
