"""C11-C15, C21: documents read by the real parser, compared with spec/Scan and its relatives."""
from vlib import *
import dbc as D
import drv as R
import hdr as H
from drv import Package, require_package, steps
from p_run import cfgfile, aspects, chunks

VNUM = [0, 1, 2, 3, 9, 10, 19, 99, 100, 255, 256, 999, 65535, 65536, 99999, 2147483647]
WORDS = 'the of frame value 1..5 A/B x=3; (see 4.2) BO_ SG_ CM_ VAL_ BA_ level: 7, <note> 100% a,b -'.split(' ')


def gen_docs(c, kinds, maxlen, num, seed, nm=3, ns=3, defs=False, minemit=None):
    cf = 'SPECIFICATION GSpec\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNM = %d\nNS = %d\nKinds = %s\nMaxLen = %d\nMinEmit = %d\nDefs = %s\n' % (
        nm, ns, tla_str_set(kinds), maxlen, minemit if minemit is not None else maxlen - 3, 'TRUE' if defs else 'FALSE')
    got = simulate(c.scr, 'ScanGen', cf, num, 2 * maxlen + 12, seed)
    # keep the longest document of each behaviour only
    res = []
    for d in got:
        if res and d[:len(res[-1])] == res[-1]:
            res[-1] = d
        else:
            res.append(d)
    c.rng.shuffle(res)
    return res[:num]


def all_docs(c, kinds, maxlen, nm=2, ns=2, defs=False, minemit=1):
    """every document of the bounded model"""
    cf = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNM = %d\nNS = %d\nKinds = %s\nMaxLen = %d\nMinEmit = %d\nDefs = %s\n' % (
        nm, ns, tla_str_set(kinds), maxlen, minemit, 'TRUE' if defs else 'FALSE')
    r = tlc(c.scr, 'ScanDocs', cf, workers=1)
    if r.rc != 0:
        raise CheckError('ScanDocs: TLC exit %s\n%s' % (r.rc, r.out[-3000:]))
    shutil.rmtree(r.dir, ignore_errors=True)
    return [json.loads(json.loads('"%s"' % x)) for x in r.printed]


NODES = ['N0', 'N1', 'N12', 'N', 'Gateway', 'Gate', 'ECU_Main', 'bcm', 'Vector__XXX', 'A', 'AB', 'Tester2', 'Tester']


class Concrete:
    """abstract lines made concrete: the text for the parser and the line records for the specification"""

    def __init__(self, rng, doc, nm, ns, toks=True, quotes=True, vals=None, underscores=True, small=False):
        self.rng, self.nm, self.ns = rng, nm, ns
        self.quotes = quotes
        used = set()
        ident = lambda lo=1, hi=10: self.ident(used, lo, hi, underscores)
        self.msg, ids = {}, {1000}
        self.snames = {}
        for j in range(1, ns + 1):
            self.snames[j] = ident()
        style = rng.random()
        if ns >= 3 and style < .35 and underscores:
            self.snames[3] = self.snames[1] + '_ro'
        elif ns >= 3 and style < .5:
            self.snames[3] = self.snames[1] + '2'
        self.sigs = {}
        for i in range(0, nm + 3):
            ext = i % 2 == 0
            dlc = rng.choice([8, 8, 8, 3, 5, 16, 64])
            nmame = ident(1, rng.choice([10, 10, 1]))
            if i == 2 and rng.random() < .3:
                nmame = self.msg[1]['n'] + '2'
            twin = ext and i > 0 and i <= nm and rng.random() < .4      # the extended twin of a standard message
            self.msg[i] = {'n': nmame, 'id': self.msg[i - 1]['id'] if twin else D.new_id(rng, ids, ext), 'ext': ext, 'dlc': dlc, 'tx': rng.choice(NODES)}
            pool = D.disjoint_sigs(rng, dlc, ns, set(), maxlen=24, signed_p=.3, bias=[4, 8, 2, 6]) if not small else []
            while len(pool) < ns:
                pool = [D.Sig('', 8 * k, rng.randint(1, 8), False, rng.random() < .3) for k in range(ns)]
                self.msg[i]['dlc'] = 8 if ns <= 8 else 64
            for j, s in enumerate(pool[:ns], 1):
                s.name = self.snames[j]
                s.recs = rng.sample(NODES, rng.choice([1, 1, 2, 3]))
                if j == 2:
                    if rng.random() < .5:
                        s.fac, s.off = rng.choice(['2', '10', '-1', '1']), rng.choice(['5', '-40'])
                    else:
                        s.fac, s.off = rng.choice(['0.5', '1.5', '1E-1']), rng.choice(['0', '-3.5'])
                self.sigs[i, j] = s
        # the rejected message
        low = rng.choice([self.msg[nm + 2]['id'], self.msg[rng.randint(1, nm)]['id']])
        self.bad = rng.choice([('res', (rng.choice([0x20000000, 0x40000000, 0x60000000, 0xA0000000, 0xC0000000]) | low), 8),
                               ('big', rng.choice([low + (rng.randint(1, 9) << 32), low + (1 << 63), low + (1 << 64), low - (1 << 32), -low - 1, (1 << 33) | 0x80000000 | low]), 8),
                               ('dlc', self.msg[nm + 2]['id'], rng.choice([0, 65, 72, 99, 100, 127, 128, 255, 256, 257, 264, 512, 1000]))])
        self.ghost = ident(3)
        self.usedids = ids
        self.bad_tok = ident(3)
        self.n = 0
        self.st = D.Style(rng, 1)
        self.lines, self.text = [], []
        self.tokens = []
        self.vals = vals
        self.build(doc)

    def ident(self, used, lo, hi, underscores):
        while True:
            t = D.ident(self.rng, used, lo=lo, hi=hi)
            if underscores or '_' not in t:
                return t

    def tok(self):
        self.n += 1
        t = 'tok%dX' % self.n
        self.tokens.append(t)
        return t

    def rawid(self, i, any_ext=False):
        m = self.msg[i]
        if i == self.nm + 2:
            return self.bad[1] if self.bad[1] >= 0 else 0x20000000 | m['id']
        if i == self.nm + 1:
            # an identifier that no message has, though its number may be the one of a message
            x = self.msg[self.rng.randint(1, self.nm)]
            if self.rng.random() < .5:
                full = x['id'] | (0x80000000 if x['ext'] else 0)
                y = self.rng.choice([full ^ 0x80000000, full | 0x20000000, full | 0x40000000, full + (1 << 32), full + (3 << 40)])
                if not any(y == z['id'] | (0x80000000 if z['ext'] else 0) for z in self.msg.values()):
                    return y
            while True:
                x = self.rng.choice([self.rng.randrange(1, 0x800), self.rng.randrange(1, 0x20000000) | 0x80000000, m['id']])
                if x & 0x1FFFFFFF not in self.usedids or x & 0x1FFFFFFF == m['id']:
                    return x
        return m['id'] | (0x80000000 if m['ext'] else 0)

    def signame(self, i, j):
        if j <= self.ns:
            return self.snames[j]
        r = self.rng
        cands = [self.snames[2] + '_ro', self.snames[1] + 'x', self.snames[1][:-1] or 'q', self.snames[2] + '_phys', self.ghost, self.snames[1].swapcase()]
        cands = [x for x in cands if x not in self.snames.values() and not x[0].isdigit()]
        return r.choice(cands)

    def words(self, k=4):
        return ' '.join(self.rng.choice(WORDS) for _ in range(self.rng.randint(0, k)))

    def build(self, doc):
        r = self.rng
        cur = 0
        opened = None
        for n, x in enumerate(doc):
            k = x['k']
            inside = opened is not None
            if k == 'ver':
                self.put({'k': 'ver', 'hi': 0, 'lo': 0, 'q': True}, '')
                hi, lo = r.choice([(1, 2), (0, 1), (12, 345), (7, 0), (65535, 99999), None, None])\
                    or r.choice([(n_, n_) for n_ in (1, 5, 10, 300)] + [(r.choice(VNUM), r.choice(VNUM)) for _ in range(6)])
                self.lines[-1].update(hi=hi, lo=lo)
                self.text[-1] = r.choice(['VERSION "%d.%d"', 'VERSION  "%d.%d"', 'VERSION\t"%d.%d"', 'VERSION "%d-%d"', 'Version "%d.%d"']) % (hi, lo)
            elif k == 'bo':
                i = x['i']
                m = self.msg[i]
                if not inside:
                    cur = i
                if i == self.nm + 2:
                    if x['ok']:
                        self.put({'k': 'bo', 'n': m['n'], 'id': D.rid(self.bad[1]), 'dlc': self.bad[2], 'ok': True, 'tx': m['tx'], 'q': False},
                                 'BO_ %d %s: %d %s' % (self.bad[1], m['n'], self.bad[2], m['tx']))
                    else:
                        self.put({'k': 'bo', 'n': '', 'id': [0, 0], 'dlc': 0, 'ok': False, 'tx': '', 'q': False},
                                 r.choice(['BO_ %d %s' % (m['id'], m['n']), 'BO_ %d' % m['id'], 'BO_ %d %s:' % (m['id'], m['n'])]))
                else:
                    tx = m['tx'] if r.random() < .95 else ''
                    mm = D.Msg(m['n'], m['id'], m['dlc'], ext=m['ext'], tx=tx)
                    self.put({'k': 'bo', 'n': m['n'], 'id': D.rid(mm.rawid()), 'dlc': m['dlc'], 'ok': True, 'tx': tx, 'q': False}, D.msg_line(mm, self.st))
            elif k == 'sg':
                if x['ok']:
                    s = self.sigs[cur if cur <= self.nm + 2 else 0, x['j']]
                    self.put(dict(s.json(), k='sg', ok=True, q=True), D.sig_line(s, self.st))
                else:
                    s = D.Sig(self.ghost, 0, 8)
                    t = D.sig_line(s)
                    t = r.choice([t.replace(' : ', ' '), ' SG_ %s : 0|8@1+ (1,0) "" N0' % self.ghost, ' SG_ %s : 0|8@1+ (1,0) [0|0] N0' % self.ghost,
                                  ' SG_ %s : 0|8@1+ (1,0) [0] "" N0' % self.ghost, ' SG_ %s : 0|8@1+ (1) [0|0] "" N0' % self.ghost, ' SG_ %s : 0|8 (1,0) [0|0] "" N0' % self.ghost,
                                  ' SG_ %s' % self.ghost, ' SG_ : 0|8@1+ (1,0) [0|0] "" N0', ' SG_'])
                    self.put({'k': 'sg', 'n': self.ghost, 's': 0, 'l': 8, 'm': False, 'g': False, 'fac': s.json()['fac'], 'off': s.json()['off'], 'recs': [], 'ok': False, 'q': True}, t)
            elif k == 'tx':
                nodes = r.sample(NODES, r.randint(1, 3))
                if x['i'] <= self.nm and r.random() < .7 and self.msg[x['i']]['tx'] not in nodes:
                    nodes.insert(0, self.msg[x['i']]['tx'])
                raw = self.rawid(x['i'])
                self.put({'k': 'tx', 'id': D.rid(raw), 'nodes': nodes, 'q': False}, self.gap('BO_TX_BU_ %d%s%s%s;' % (raw, r.choice([' : ', ' : ', ' :', ': ', ':']), r.choice([',', ',', ', ', ' , ']).join(nodes), r.choice(['', '', ' ']))))
            elif k == 'cyc':
                v = r.choice([1, 5, 100, 65535, 1000000, r.randint(1, 9999)])
                raw = self.rawid(x['i'])
                self.put({'k': 'cyc', 'id': D.rid(raw), 'v': v, 'q': True}, 'BA_ %s"GenMsgCycleTime"%s%d%s%d%s;' % (r.choice(['', '', ' ']), r.choice([' BO_ ', ' BO_ ', '  BO_ ', ' BO_  ']), raw, r.choice([' ', ' ', '  ']), v, r.choice(['', '', ' '])))
            elif k == 'cm':
                tgt = x['tgt']
                if tgt == 'other':
                    rec = {'k': 'cm', 'tgt': 'other', 'id': [0, 0], 'sig': '', 'toks': [self.tok()], 'roll': False, 'csm': False, 'closed': x['c'], 'q': True}
                    self.put(rec, r.choice(['CM_ "', 'CM_ BU_ %s "' % r.choice(NODES), 'CM_ EV_ %s "' % self.ghost, 'CM_ XY_ %d "' % self.rawid(1), 'CM_ BOX_ %d "' % self.rawid(1), 'CM_ SGX_ %d %s "' % (self.rawid(1), self.snames[1])]) + rec['toks'][0])
                else:
                    raw = self.rawid(x['i'])
                    nm = self.signame(x['i'], x['j']) if tgt == 'sg' else ''
                    rec = {'k': 'cm', 'tgt': tgt, 'id': D.rid(raw), 'sig': nm, 'toks': [self.tok()], 'roll': False, 'csm': False, 'closed': x['c'], 'q': True}
                    t = 'CM_ BO_ %d "' % raw if tgt == 'bo' else 'CM_ SG_ %d %s "' % (raw, nm)
                    self.put(rec, self.gap(t) + ' '.join(y for y in [self.words(), rec['toks'][0], self.words()] if y))
                mark = {1: 'roll', 2: 'csm', 0: ''}[x['f']]
                if tgt == 'sg' and mark == 'roll' and (x['j'] == 2 or (x['i'] <= self.nm and x['j'] <= self.ns and self.sigs[x['i'], x['j']].signed)):
                    mark = ''
                if tgt == 'bo' and r.random() < .3:
                    mark = r.choice(['roll', 'csm'])
                tail = [m for m in doc[n + 1:n + 1 + next((z for z, y in enumerate(doc[n + 1:]) if y['k'] == 'tl' and y['c']), -1) + 1]] if not x['c'] else []
                opened = None if x['c'] else mark
                if mark and (x['c'] or r.random() < .5 or not tail):
                    self.mark(mark)
                    opened = None if x['c'] else ''
                if not mark and x['c'] and r.random() < .25:
                    self.text[-1] += ' ' + r.choice(['<RollingCounter', 'RollingCounter>', '<rollingcounter>', '< RollingCounter >', '<RollingCounters>', '<Rolling Counter>', '<Checksum>', '<Checksum:XOR8>', '<Checksum:XOR8:3:4>',
                                                                     '<Checksum', '<Checksum:', '<Checksum:XOR8:3', 'Checksum:XOR8:3', '<checksum:XOR8:3>', '<Checksums:XOR8:3>', '<XChecksum:XOR8:3>'])
                if x['c']:
                    self.text[-1] += r.choice(['";', '";', '";', '" ;'])
                continue
            elif k == 'tl':
                rec = {'k': 'tl', 'toks': [], 'roll': False, 'csm': False, 'closes': x['c'], 'q': False}
                if r.random() < .5:
                    rec['toks'] = [self.tok()]
                ghost = r.choice(['BO_ 77 %s: 8 N0' % self.ghost, ' SG_ %s : 0|8@1+ (1,0) [0|0]' % self.ghost, 'VERSION 9.9', 'version 8.8', 'BO_TX_BU_ %d : Ghost;' % self.rawid(1),
                                  'VAL_ %d %s 5' % (self.rawid(1), self.snames[1]), 'CM_ SG_ %d %s' % (self.rawid(1), self.snames[1]), 'BA_ GenMsgCycleTime BO_ %d 4321;' % self.rawid(1),
                                  'BO_ %d Other: 8 N0' % self.rawid(1), 'BU_: X Y', ';', 'end;', '', '', self.words(), self.words()])
                t = ghost + (' ' if ghost else '') + ' '.join(rec['toks'])
                self.put(rec, t)
                if opened and (x['c'] or r.random() < .5):
                    self.mark(opened)
                    opened = ''
                if x['c']:
                    self.text[-1] += r.choice(['";', '";', '";', '" ;'])
                    opened = None
                continue
            elif k == 'val':
                ents = self.entries()
                raw = self.rawid(x['i'])
                nm = self.signame(x['i'], x['j'])
                self.put({'k': 'val', 'id': D.rid(raw), 'sig': nm, 'ents': [[D.le(v), [ord(ch) for ch in t]] for v, t in ents], 'q': True}, '')
                parts = ['%d%s"%s"' % (e[0], r.choice([' ', ' ', ' ', '  ']), e[1]) for e in ents]
                body = ' '.join(parts)
                if len(parts) > 2 and r.random() < .2 and not inside:
                    z = r.randint(1, len(parts) - 1)
                    body = ' '.join(parts[:z]) + self.st.eol + ' ' + ' '.join(parts[z:])
                self.text[-1] = self.gap('VAL_ %d %s ' % (raw, nm)) + body + r.choice([' ;', ' ;', ';', '  ;'])
            else:
                self.put({'k': 'junk', 'q': False}, r.choice([
                    'BU_: N0 N1', 'BS_:', 'NS_ :', '\tBO_TX_BU_', '\tCM_', '\tVAL_', '\tBA_', 'VAL_TABLE_ Tab%d 1 "on" 0 "off" ;' % r.randint(1, 9),
                    'BA_DEF_ BO_  "GenMsgCycleTime" INT 0 10000;', 'BA_DEF_DEF_  "GenMsgCycleTime" 0;', 'SIG_VALTYPE_ %d %s : 1;' % (self.rawid(1), self.snames[1]),
                    'SIG_GROUP_ %d G1 1 : %s;' % (self.rawid(1), self.snames[1]), 'EV_ %s: 0 [0|0] "" 0 1 DUMMY_NODE_VECTOR0 Vector__XXX;' % self.ghost, '', '   ', '\t',
                    'SG_MUL_VAL_ %d %s %s 1-1;' % (self.rawid(1), self.snames[1], self.snames[2]), 'BA_ "GenSigStartValue" SG_ %d %s 77;' % (self.rawid(1), self.snames[1]),
                    'BA_ "GenMsgSendType" BO_ %d 3;' % self.rawid(1), 'BA_ "GenMsgCycleTimeFast" BO_ %d 4711;' % self.rawid(1), 'BA_ "Name" "BO_ 5 X: 8 N0";',
                    'FOO_ 1 2 3', '//comment', 'BO 77 %s: 8 N0' % self.ghost, 'BO_%d %s: 8 N0' % (77, self.ghost), 'VAL_ %s 0 "a" 1 "b" ;' % self.ghost,
                    'BA_ "GenMsgCycleTime" SG_ %d %s 99;' % (self.rawid(1), self.snames[1]), 'BA_DEF_SGTYPE_ "GenMsgCycleTime" INT 0 1;']))
                if r.random() < .25 and not inside:
                    # lines which almost are something
                    self.text[-1] = r.choice([
                        'FOO_ "open', 'EV_ %s: 0 [0|0] "' % self.ghost, 'VAL_TABLE_ Tab 1 "', '"', 'x";', 'BAX_ "GenMsgCycleTime" BO_ %d 77;' % self.rawid(1), 'XBA_ "GenMsgCycleTime" BO_ %d 78;' % self.rawid(1),
                        'VALX_ %d %s 1 "Ghosted" ;' % (self.rawid(1), self.snames[1]), 'XVAL_ %d %s 2 "Ghosted" ;' % (self.rawid(1), self.snames[1]), ' XG_ %s : 0|8@1+ (1,0) [0|0] "" N0' % self.ghost,
                        '\tSGX_ %s : 0|8@1+ (1,0) [0|0] "" N0' % self.ghost, 'XBO_TX_BU_ %d : Ghost;' % self.rawid(1), 'BO_TX_BU_X %d : Ghost;' % self.rawid(1), 'XBO_ 77 %s: 8 N0' % self.ghost, 'BOX_ 77 %s: 8 N0' % self.ghost,
                        'XCM_ BO_ %d "ghost";' % self.rawid(1), 'XVERSION "7.7"', 'VERSIONS "7.7"', 'VERSION', 'VERSION ""', 'VERSION "7"', 'VERSION "x"'])
                self.lines[-1]['q'] = '"' in self.text[-1]
            if inside and not self.quotes and '"' in self.text[-1]:
                # text inside comments without quotes
                self.text[-1] = self.text[-1].replace('"', "'")
                self.lines[-1]['q'] = False
            elif inside:
                self.lines[-1]['q'] = '"' in self.text[-1]
        if r.random() < .12:
            self.stretch()

    def stretch(self):
        """one line becomes very long without a change of its meaning"""
        r = self.rng
        cands = [n for n, x in enumerate(self.lines) if x['k'] in ('junk', 'cm', 'tl', 'val', 'bo', 'sg', 'tx')]
        if not cands:
            return
        n = r.choice(cands)
        k, t = self.lines[n]['k'], self.text[n]
        size = r.choice([5000, 40000, 150000])
        fill = r.choice('x-9 ') * size
        if k == 'junk' and t.strip() and '"' not in t:
            t += ' ' + fill.strip() + 'z'
        elif k in ('cm', 'tl') and t.strip():
            end = next((e for e in ('";', '" ;') if t.endswith(e)), '')
            t = t[:len(t) - len(end)] + ' ' + fill + 'z' + end
        elif k in ('val', 'bo', 'sg', 'tx') and ' ' in t.strip() and '"' not in t[t.rindex(' '):] and '\n' not in t:
            z = t.rindex(' ')
            t = t[:z] + ' ' * size + t[z:]
        self.text[n] = t

    def mark(self, m):
        r = self.rng
        self.lines[-1][m] = True
        self.text[-1] += r.choice([' ', '']) + ('<RollingCounter>' if m == 'roll' else '<Checksum:XOR8:%d>' % r.choice([0, 3, 255])) + r.choice(['', ' ', ' x'])

    def entries(self):
        r = self.rng
        if isinstance(self.vals, list):
            return [(r.randint(-99, 99), t) for t in self.vals]
        n = r.choice([0, 1, 1, 2, 3, 5]) if not self.vals else r.choice([1, 3, 6, 12, 30] * 9 + [64, 65, 100, 129, 257, 300])
        if n > 30:
            # a table of many distinct entries
            v0, t0 = r.choice([0, 0, -5, 1000]), r.choice(['State', 'E ', 'v'])
            return [(v0 + k, '%s%d' % (t0, k)) for k in range(n)]
        res, seen = [], set()
        for _ in range(n):
            v = r.choice([0, 1, 2, 255, -1, -128, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 31, -2 ** 31 - 1, 2 ** 62, -2 ** 63 + 1, 2 ** 63 - 1, r.randint(-999, 999), r.getrandbits(40)])
            x = r.random()
            if x < .4:
                t = r.choice(['On', 'Off', 'Error', 'Not used', 'reserved', 'SNA', 'a b c', 'Level'])
            elif x < .8:
                t = ''.join(r.choice('abcXYZ019_ -+/.,()%:;!?<>&*#=@~^|{}[]$') for _ in range(r.randint(1, 14)))
            elif x < .9:
                t = r.choice(['123', '1st', '9 lives', '', ' ', '  x', '--', '3', 'a', '_', '0x1F', '5-6', 'not a number', 'tab\tbed', 'ten %', 'x%d', '%s'])
            else:
                t = 'W%d ' % r.randint(0, 99) + r.choice(['', 'é', 'µm', 'x'])
            res.append((v, t))
        return res

    def gap(self, text):
        """other blanks between the words of an annotation"""
        r = self.rng
        if r.random() < .6:
            return text
        head, q, rest = text.partition('"')
        words = head.split(' ')
        return words[0] + ' ' + ''.join((r.choice(['', '', ' ', '  ']) + w + ' ') for w in words[1:]).rstrip(' ') + (' ' if words[-1] == '' else '') * r.choice([1, 1, 2]) + q + rest

    def put(self, rec, text):
        self.lines.append(rec)
        self.text.append(text)

    def render(self):
        return self.st.eol.join(self.text) + self.rng.choice([self.st.eol, self.st.eol, ''])

    def row(self, obs):
        return {'lines': self.lines, 'obs': obs}


def document(exe_chk, text, drv='Tdrv', nodeutils=False):
    p = Package(exe_chk, D.Dbc([]), drv=drv, nodeutils=nodeutils, text=text)
    return p


def ints(t):
    m = re.match(r'\(?\s*\(?\s*(-?\s*(?:0[xX][0-9a-fA-F]+|\d+))[uUlL]*\s*\)?\s*\)?$', t.strip())
    return int(m.group(1).replace(' ', ''), 0) if m else None


def observe(c, p, con, want, nu=False):
    """everything a property needs of a generated package"""
    o = {'failed': '', 'ver': [0, 0], 'msgs': [], 'fns': [], 'utils': [], 'stray': [], 'consts': [], 'nu': nu}
    if not p.ok:
        o['failed'] = 'generation ends with exit code %s' % p.rc
        return o
    header = p.path('lib', p.low + '.h')
    rc, out = H.preprocess(header, p.incs())
    if rc != 0:
        o['failed'] = 'the header cannot be preprocessed'
        return o
    macros, structs = H.declarations(out)
    base = base_macros(c)
    macros = {k: v for k, v in macros.items() if k not in base}
    o['ver'] = [ints(macros.get('VER_%s_MAJ' % p.up, '')) or 0, ints(macros.get('VER_%s_MIN' % p.up, '')) or 0]
    places = {}
    if 'ann' in want:
        tk = set(con.tokens)
        for tok, kind, where in H.comment_places(header, tk):
            if kind == 'macro':
                places.setdefault(('m', re.sub(r'_(IDE|DLC|CANID|CYC)$', '', where)), set()).add(tok)
            elif kind == 'field' and where[1]:
                places.setdefault(('f', where[1], where[0]), set()).add(tok)
            else:
                o['stray'].append([tok, kind, str(where)])
    names = [k[:-6] for k in macros if k.endswith('_CANID')]
    for n in names:
        fs = structs.get(n + '_t', [])
        o['msgs'].append({'n': n, 'cyc': ints(macros.get(n + '_CYC', '0')) or 0, 'toks': sorted(places.pop(('m', n), ())),
                          'fields': [{'f': f, 'toks': sorted(places.pop(('f', n + '_t', f), ()))} for _, f in fs], 'pay': []})
    for k, v in places.items():
        o['stray'] += [[t, 'place', str(k)] for t in v]
    # comments anywhere else
    if 'ann' in want:
        for d, _, fs in os.walk(p.dir):
            for f in fs:
                fp = os.path.join(d, f)
                if fp != header and f != 'dbccodeconf.h':
                    for t in set(re.findall(r'\btok\d+X\b', open(fp, encoding='latin-1').read())):
                        o['stray'].append([t, 'file', f])
    if 'msgs' in want:
        obj = os.path.join(p.dir, 'x.o')
        rc, out = R.run(['gcc', '-c', '-w', '-O0', '-o', obj] + p.incs() + [p.path('lib', p.low + '.c')], 120)
        if rc != 0:
            o['failed'] = 'the driver does not compile'
            return o
        sy = H.symbols(obj)
        pk = {x[5:-len(p.drv) - 1] for x in sy if x.startswith('Pack_') and x.endswith('_' + p.drv)}
        up = {x[7:-len(p.drv) - 1] for x in sy if x.startswith('Unpack_') and x.endswith('_' + p.drv)}
        o['fns'] = sorted(pk | up) if pk == up else sorted(pk ^ up) + ['?']
    if 'ann' in want:
        pays, err = payloads_of(c, p, [m for m in o['msgs'] if m['fields']], macros)
        if err:
            o['failed'] = err
            return o
        for m in o['msgs']:
            m['pay'] = pays.get(m['n'], [])
    if 'nodes' in want:
        u = p.path('butl')
        lower = {n.lower(): n for n in NODES}
        files = sorted(os.listdir(u)) if os.path.isdir(u) else []
        for f in files:
            if not f.endswith('-binutil.h'):
                if f[:-2] + '.h' not in files:
                    o['utils'].append({'node': '?' + f, 'rx': [], 'tx': []})
                continue
            stem = f[:-len('-binutil.h')]
            if f[:-2] + '.c' not in files:
                o['utils'].append({'node': '?' + f, 'rx': [], 'tx': []})
                continue
            rc, out = H.preprocess(os.path.join(u, f), p.incs())
            if rc != 0:
                o['failed'] = 'a utility header cannot be preprocessed'
                return o
            _, st = H.declarations(out)
            rx = [n for _, n in st.get(stem + '_rx_t', [])]
            tx = [n for _, n in st.get(stem + '_tx_t', [])]
            node = stem[:-len(p.low) - 1] if stem != p.low else ''
            o['utils'].append({'node': lower.get(node, node), 'rx': rx, 'tx': tx})
    if 'vals' in want:
        cands = []
        for k in macros:
            if k.startswith(p.up + '_') or k.startswith('VER_') or any(k == n + s for n in names for s in ('_IDE', '_DLC', '_CANID', '_CYC')):
                continue
            cands.append(k)
        vals, err = values_of(c, p, cands)
        if err:
            o['failed'] = err
            return o
        for k in cands:
            best = None
            for m in o['msgs']:
                for f in m['fields']:
                    pre = f['f'] + '_' + m['n'] + '_'
                    if k.startswith(pre) and (best is None or len(pre) > len(best[2])):
                        best = (f['f'], m['n'], pre)
            f, m, pre = best or ('', k, '')
            o['consts'].append({'f': f, 'm': m, 'c': [ord(x) for x in k[len(pre):]], 'v': D.le(vals[k])})
    return o


_base = {}


def base_macros(c):
    """macros that do not come from generated files"""
    with c._lock:
        if 'm' not in _base:
            d = c.scr.own('base')
            f = os.path.join(d, 'a.h')
            with open(f, 'w') as h:
                h.write(R.CONF % '\n'.join('#define %s %dU' % kv for kv in R.METHODS.items()))
            rc, out = H.preprocess(f, [])
            if rc != 0:
                raise CheckError('preprocessing the base configuration: ' + out[-500:])
            _base['m'] = set(H.declarations(out)[0])
    return _base['m']


def payloads_of(c, p, msgs, macros):
    """payloads packed from zero content with automatic counters and checksums on"""
    if not msgs:
        return {}, None
    d = c.scr.own('pay')
    src = ['#include "%s.h"' % p.low, '#include <stdio.h>', '#include <string.h>', 'uint32_t vh_tick(void) { return 0; }',
           'uint32_t vh_hash(const void* d, uint32_t l, uint32_t i, uint32_t m, uint32_t o) { return 0xFF; }', 'static uint8_t b[80], l, x;', 'int main(void) { int i;']
    for m in msgs:
        src.append('{ static %s_t m; memset(&m, 0, sizeof m); memset(b, 0, sizeof b); Pack_%s_%s(&m, b, &l, &x); printf("%s "); for (i = 0; i < (int)(%s_DLC); i++) printf("%%02x", b[i]); printf("\\n"); }'
                   % (m['n'], m['n'], p.drv, m['n'], m['n']))
    src.append('return 0; }')
    f = os.path.join(d, 'x.c')
    with open(f, 'w') as h:
        h.write('\n'.join(src))
    exe = os.path.join(d, 'x')
    rc, out = R.run(['gcc', '-w', '-O0', '-o', exe, '-D%s_AUTO_ROLL' % p.up, '-D%s_AUTO_CSM' % p.up] + p.incs() + [f, p.path('lib', p.low + '.c')], 120)
    if rc != 0:
        shutil.rmtree(d, ignore_errors=True)
        return {}, 'the driver does not compile'
    rc, out = run_nobody([exe], p.dir)
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        return {}, 'packing crashes'
    return {x.split()[0]: list(bytes.fromhex(x.split()[1])) for x in out.split('\n') if x.strip()}, None


def values_of(c, p, names):
    if not names:
        return {}, None
    d = c.scr.own('val')
    f = os.path.join(d, 'x.c')
    with open(f, 'w') as h:
        h.write('#include "%s.h"\n#include <stdio.h>\nint main(void) {\n' % p.low + ''.join('printf("%%lld\\n", (long long)(%s));\n' % n for n in names) + 'return 0; }\n')
    exe = os.path.join(d, 'x')
    rc, out = R.run(['gcc', '-w', '-O0', '-o', exe] + p.incs() + [f], 120)
    if rc != 0:
        shutil.rmtree(d, ignore_errors=True)
        return {}, 'the constants do not compile'
    rc, out = run_nobody([exe], p.dir)
    shutil.rmtree(d, ignore_errors=True)
    return dict(zip(names, [int(x) for x in out.split()])), None


def scan_check(c, docs, asp, want, nm, ns, nu=None, pervals=None, **kw):
    c.exe()
    seeds = [c.rng.getrandbits(32) for _ in docs]

    def one(a):
        doc, seed, vals = a
        r = random.Random(seed)
        con = Concrete(r, doc, nm, ns, **(dict(kw, vals=vals) if vals else kw))
        text = con.render()
        use_nu = nu(r) if nu else False
        p = document(c, text, drv=r.choice(['Tdrv', 'Tdrv', 'abc', 'X1_y']), nodeutils=use_nu)
        o = observe(c, p, con, want, use_nu)
        ab = p.about()
        shutil.rmtree(p.dir, ignore_errors=True)
        shutil.rmtree(os.path.dirname(p.dbcpath), ignore_errors=True)
        return con.row(o), ab
    res = pmap(one, list(zip(docs, seeds, pervals or [None] * len(docs))))
    rows = [x[0] for x in res]
    log('%d documents read by the real parser' % len(rows))
    c.count('documents', len(rows))
    i = max(range(len(res)), key=lambda k: len(res[k][0]['lines']) if len(res[k][1]['dbc']) < 1500 else 0)
    c.sample({'dbc': res[i][1]['dbc'], 'observed': rows[i]['obs']})
    c.validate('ScanTrace', rows, aspects(*asp), sum(2 * len(r['lines']) + 3 for r in rows), lambda t: res[t][1])


def C13(c):
    c.model_check('ScanDocs', cfgfile('ScanDocs_struct_thorough' if c.thorough else 'ScanDocs_struct'))
    docs = all_docs(c, ['bo', 'bad', 'sg', 'sgbad', 'co', 'tl', 'ver'], 4 if c.thorough else 3)
    log('%d small documents' % len(docs))
    c.cov['exhaustive_documents'] = len(docs)
    kinds = ['bo', 'bad', 'sg', 'sgbad', 'co', 'cm', 'tl', 'ver', 'junk', 'tx', 'val', 'cyc']
    scan_check(c, docs, ('msgs', 'ver'), ('msgs',), 2, 2)
    docs = gen_docs(c, kinds, 24, 3000 if c.thorough else 300, SEED) + gen_docs(c, ['bo', 'bad', 'sg', 'sgbad', 'co', 'tl'], 14, 2000 if c.thorough else 150, SEED + 7)
    scan_check(c, docs, ('msgs', 'ver'), ('msgs',), 3, 3)
    # many messages, many signals
    k = 20 if c.thorough else 3
    scan_check(c, gen_docs(c, ['bo', 'sg', 'sg', 'sg', 'co', 'tl'], 180, 2 * k, SEED, nm=50, ns=3, minemit=70), ('msgs', 'ver'), ('msgs',), 50, 3)
    scan_check(c, gen_docs(c, ['co', 'tl', 'junk', 'bad', 'sgbad'], 140, k, SEED, nm=2, ns=64, defs=True, minemit=132), ('msgs', 'ver'), ('msgs',), 2, 64)



def C14(c):
    c.model_check('ScanDocs', cfgfile('ScanDocs_ann_thorough' if c.thorough else 'ScanDocs_ann'))
    c.model_check('ScanDocs', cfgfile('ScanDocs_mix'))
    kinds = ['cm', 'cs', 'tl', 'co', 'cyc', 'val', 'junk', 'tx']
    docs = gen_docs(c, kinds, 26, 2000 if c.thorough else 220, SEED, defs=True)
    docs += gen_docs(c, kinds + ['bo', 'sg', 'bad'], 30, 2000 if c.thorough else 160, SEED + 3)
    docs += gen_docs(c, ['cm', 'cs', 'tl', 'cyc'], 16, 1000 if c.thorough else 80, SEED + 5, defs=True)
    scan_check(c, docs, ('ann', 'nodes'), ('ann', 'nodes'), 3, 3, nu=lambda r: True, quotes=False)
    # many messages, many signals
    k = 20 if c.thorough else 3
    scan_check(c, gen_docs(c, ['cm', 'cs', 'tl', 'cyc', 'tx'], 180, k, SEED, nm=40, ns=2, defs=True, minemit=170), ('ann', 'nodes'), ('ann', 'nodes'), 40, 2, nu=lambda r: True, quotes=False)
    scan_check(c, gen_docs(c, ['cm', 'cs', 'tl', 'cyc', 'val'], 150, k, SEED, nm=2, ns=64, defs=True, minemit=140), ('ann',), ('ann',), 2, 64, quotes=False)


def C12(c):
    c.model_check('ScanDocs', cfgfile('ScanDocs_mix'))
    docs = gen_docs(c, ['bo', 'sg', 'bad', 'sgbad', 'tx', 'junk', 'bo', 'sg'], 24, 3000 if c.thorough else 300, SEED, nm=4)
    docs += gen_docs(c, ['tx', 'junk', 'cm'], 18, 500 if c.thorough else 60, SEED + 1, nm=4, ns=2, defs=True)
    n = len(docs)
    scan_check(c, docs, ('nodes',), ('nodes',), 4, 3, nu=lambda r: r.random() < .8)
    # many messages
    scan_check(c, gen_docs(c, ['bo', 'sg', 'sg', 'tx'], 180, 60 if c.thorough else 8, SEED, nm=50, ns=2, minemit=70), ('nodes',), ('nodes',), 50, 2, nu=lambda r: True)


def C21(c):
    c.model_check('ScanDocs', cfgfile('ScanDocs_ann'))
    docs = gen_docs(c, ['val', 'val', 'cm', 'tl', 'junk'], 20, 1500 if c.thorough else 200, SEED, defs=True)
    docs += gen_docs(c, ['bo', 'sg', 'val', 'co', 'tl', 'bad'], 24, 1500 if c.thorough else 150, SEED + 2)
    scan_check(c, docs, ('vals',), ('vals',), 3, 3, vals=True, underscores=False)
    # every printable character in every role
    chars = [chr(x) for x in range(32, 127) if x != 34]
    texts = [t for ch in chars for t in (ch, 'a' + ch, ch + 'a', '1' + ch + 'z', 'a' + ch + '1', ch * 2)]
    defs = gen_docs(c, ['junk'], 12, 1, SEED, defs=True, minemit=12)[0]
    val = {'k': 'val', 'i': 1, 'j': 1, 'ok': True, 'f': 0, 'tgt': '', 'c': False}
    parts = chunks(texts, 36)
    doc = [x for x in defs if x['k'] != 'junk'] + [dict(val, j=j) for j in (1, 2, 3)]
    scan_check(c, [doc] * len(parts), ('vals',), ('vals',), 3, 3, pervals=parts, underscores=False)
    c.cov['characters'] = len(chars)
