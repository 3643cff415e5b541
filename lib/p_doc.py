"""C24: what the header tells about messages and signals; validated against spec/DocTrace."""
from vlib import *
import dbc as D
import drv as R
import hdr as H
import p_build
from drv import Package, require_package
from p_run import cfgfile

LINES = ['plain words', '100%', '%s%n%d', 'a*/b', '/* open', '// slash', 'tab\there', 'back\\', 'back\\slash \\', 'tri ??/', 'b \\ ', 'b\\\t', 'b \\\v ', 'tri ??/  ', '#define X', '#error', 'Ümlaut µ °C', "it's", '(;){}', '@@##$$', ';', 'a: b', '-', 'x' * 300, 'BO_ 1 X: 8 N0', 'SG_ a : 0|8@1+ (1,0) [0|0] N0',
         'VERSION 1.1', 'CM_ ', 'VAL_ 100 a 1 b;', 'Offset= 5 Factor= 7', 'multiplex variable.', '', '', 'typedef struct', '}', "Unit:'m'"]
UNITS = ['', '', 'km/h', '%', '%s', '%d%n', '1/min', 'm s^-2', '°C', "'", "it's", 'a*/b', '//', '\\', 'x\\', '??/', 'a  b', ' kg ', 'Offset= 3', 'u' * 200, '-', '(x)', '[1]', ':', ',', ';']
DESC = ['on', 'off state', 'not available', '1st', 'a-b', 'Err%d', '%s', 'x*/', 'SNA', '', ' lead', 'trail ', 'back\\', 'b \\ ', '??/', '??/ ', '//', ':', 'µ', 'a;b', ';']
SPACE = ' \t\v\f\r'


def number(t):
    """[neg, digits, scale] of decimal text"""
    m = re.match(r'([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$', t)
    if not m or not (m.group(2) or m.group(3)):
        return None
    return {'neg': m.group(1) == '-', 'ds': [int(x) for x in m.group(2) + (m.group(3) or '')], 'sc': len(m.group(3) or '') - int(m.group(4) or 0)}


def shown(line):
    """a line of text as it may be shown: blanks at the ends and the full stop that keeps a backslash from the line's end don't count"""
    x = line.replace('??/', '\\').strip(SPACE)
    return re.sub(r'\\\s*\.$', r'\\', x, flags=re.A)


def texts(t):
    """lines of a comment text; empty ones don't count"""
    return [y for y in (shown(x) for x in latin(t).split('\n')) if y]


def latin(t):
    """text as bytes, one character each"""
    return t if isinstance(t, Seen) else t.encode('utf-8').decode('latin-1')


class Seen(str):
    """text that was read from the header"""


def some_text(r, tok):
    q = [r.choice(LINES) if r.random() < .7 else ' '.join(r.choice(['the', 'speed', 'of', 'x', '1..5', '(see)', 'A;', '=']) for _ in range(r.randint(1, 9))) for _ in range(r.choice([1, 1, 1, 2, 3, 6]))]
    i = r.randrange(len(q))
    q[i] = r.choice([q[i] + ' ' + tok, tok + ' ' + q[i], tok])
    return '\n'.join(q)


def describe(r, doc):
    """texts with tokens, all kinds of numbers"""
    n = [0]

    def tok():
        n[0] += 1
        return 'tok%dX' % n[0]
    for m in doc.msgs:
        m.comment = some_text(r, tok()) if r.random() < .5 else None
        names = {s.name for s in m.sigs}
        for s in m.sigs:
            s.comment = some_text(r, tok()) if r.random() < .5 else None
            s.unit = r.choice(UNITS) if r.random() < .8 else tok()
            s.mux = r.choice([None, None, 'M', 'm0', 'm1', 'm255'])
            k = r.random()
            if k < .3:
                s.fac, s.off = '1', '0'
            elif k < .55:
                D.int_scale(r, s, anyrange=True)
            elif k < .8:
                s.fac, s.off = D.dec_text(r), r.choice(['0', '0.0', '1', D.dec_text(r, nonzero=False)])
            elif k < .9:
                s.fac, s.off = r.choice([('1.0', '0'), ('1', '0.0'), ('1.0', '0.0'), ('1E0', '0'), ('1', '-0'), ('01', '00'), ('1', '5'), ('-1', '0'), ('10', '0'), ('0.1', '0'), ('100', '-40'), ('1', '9007199254740992'), ('4294967296', '-4294967297'),
                                         ('2147483648', '-2147483649'), ('1e2', '1E3'), ('1.50', '-0.50'), ('0.000000001', '0'), ('1', '0.000000001'), ('0.00000001', '1E-9'), ('1E6', '1E-6')])
            elif k < .95:
                s.fac, s.off = r.choice([('1e-10', '5'), ('2', '1e-12'), ('9.99e-10', '0'), ('-1e-10', '-7'), ('3', '-0.0000000005')])
            if r.random() < .3:
                vs = r.sample(range(0, 200), 3) + [-3]
                s.vals = [(v, r.choice(DESC) + r.choice(['', ' ' + tok(), str(v)])) for v in r.sample(vs, r.randint(1, 4))]
        # no two fields of one name
        for s in m.sigs:
            if s.scaled() and s.field() in names:
                s.fac, s.off = '1', '0'
    return doc


def msg_json(m):
    sigs = []
    for s in m.sigs:
        t = D.sig_comment(s)
        sigs.append({'n': s.name, 'l': s.l, 'g': s.signed, 'fac': number(s.fac), 'off': number(s.off), 'dec': D.is_dec(s.fac) or D.is_dec(s.off), 'unit': latin(s.unit).replace('??/', '\\'),
                     'mux': 'none' if s.mux is None else 'master' if s.mux == 'M' else 'multiplexed',
                     'comment': texts(t) if t else [], 'vals': [shown(latin('%d : "%s"' % v)) for v in s.vals or []]})
    # the document may mark several signals, only the name of the marked one matters
    roll = [i + 1 for i, s in enumerate(m.sigs) if s.roll]
    return {'n': m.name, 'id': str(m.id), 'comment': texts(m.comment) if m.comment else [], 'sigs': sigs, 'roll': roll[-1] if roll else 0}


ROLES = {'multiplex variable': 'multiplexed', 'MULTIPLEX master signal': 'master'}
INFO = re.compile(r"(\[-\])?\s*Bits=\s*(\d+)(?:\s+Offset= (\S+))?(?:\s+Factor= (\S+))?(?:\s+Unit:'(.*)')?$", re.S)


def read_header(path, incs, defs, tokens):
    """documented messages and fields, in the order of the (preprocessed) header"""
    rc, out = run(['gcc', '-w', '-E', '-C', '-dD', '-x', 'c'] + list(defs) + list(incs) + [path], 60)
    if rc != 0:
        raise Violation('the header cannot be preprocessed', {'output': out[-3000:], 'header': open(path, encoding='latin-1').read()[:20000]})
    here, lines = False, []
    for x in out.split('\n'):
        m = re.match(r'# \d+ "(.*)"', x)
        if m:
            here = os.path.realpath(m.group(1)) == os.path.realpath(path)
        elif here:
            lines.append(x)
    msgs, macros, pend, struct, stray = [], {}, [], None, []
    head = None

    def drop():
        stray.extend(x for x in pend if any(t in tokens for t in re.findall(r'tok\d+X', x)))
        del pend[:]
    for x in lines:
        s = x.strip(SPACE)
        if not s and not pend:
            continue
        if s.startswith('//'):
            t = s[2:]
            m = re.match(r'\s*def @(\w+) CAN Message \((\d+)\s+(?:0x)?([0-9A-Fa-f]+)\)\s*$', t)
            if m and struct is None:
                head = {'n': m.group(1), 'dec': str(int(m.group(2))), 'hex': str(int(m.group(3), 16)), 'text': texts(Seen('\n'.join(pend))), 'fields': []}
                msgs.append(head)
                del pend[:]
            else:
                pend.append(t)
            continue
        if not s:
            continue
        m = re.match(r'#define\s+(\w+)\s+(.*)', s)
        if m:
            macros[m.group(1)] = m.group(2)
            if struct is None:
                drop()
            continue
        if s.startswith('#'):
            continue
        if re.match(r'typedef\s+struct\b', s):
            drop()
            struct = []
            continue
        if struct is not None and s.startswith('}'):
            drop()
            m = re.match(r'}\s*(\w+)\s*;', s)
            if head is None or not m or m.group(1) != head['n'] + '_t':
                stray.append('struct ' + s)
            else:
                head['fields'] = struct
            struct = None
            continue
        m = re.match(r'(\w+)\s+(\w+)\s*(?::\s*\d+\s*)?;\s*(?://(.*))?$', s, re.S)
        if struct is not None and m:
            f = {'n': m.group(2), 'doc': False, 'text': [], 'role': 'none', 'bits': 0, 'signed': False, 'off': {'neg': False, 'ds': [], 'sc': 0}, 'fac': {'neg': False, 'ds': [1], 'sc': 0}, 'unit': '', 'cov': []}
            t = [shown(y) for y in pend]
            if t and t[-1] in ROLES:
                f['role'] = ROLES[t.pop()]
            f['text'] = texts(Seen('\n'.join(t)))
            del pend[:]
            i = INFO.match((m.group(3) or '').strip(SPACE))
            if i:
                off, fac = number(i.group(3) or '0'), number(i.group(4) or '1')
                if off and fac:
                    f.update(doc=True, signed=bool(i.group(1)), bits=int(i.group(2)), off=off, fac=fac, unit=(i.group(5) or '').replace('??/', '\\'))
            elif m.group(3):
                f['text'].append(m.group(3))
            struct.append(f)
            continue
        if s.startswith('{') and struct == []:
            continue
        if m is None and struct is not None:
            stray.append(s)
        drop()
        stray.extend(y for y in re.findall(r'tok\d+X', s) if y in tokens)
    drop()
    return msgs, macros, stray


def doc_case(c, seed):
    r = random.Random(seed)
    doc = describe(r, p_build.wide_doc(r, 'A'))
    drv = r.choice(['Tdrv', 'can_x', 'D', 'a1'])
    p = Package(c, doc, style=D.Style(r, 1), drv=drv, text=None)
    require_package(p)
    tokens = set(re.findall(r'tok\d+X', p.text))
    row = {'msgs': [msg_json(m) for m in doc.msgs], 'obs': []}
    for bits in (False, True):
        defs = ['-std=c11'] if r.random() < .3 else []
        defs += ['-D%s_USE_SIGFLOAT' % drv.upper()] + (['-D%s_USE_BITS_SIGNAL' % drv.upper()] if bits else []) + (['-D%s_AUTO_ROLL' % drv.upper(), '-D%s_USE_DIAG_MONITORS' % drv.upper()] if r.random() < .5 else [])
        msgs, macros, stray = read_header(p.path('lib', p.low + '.h'), p.incs(), defs, tokens)
        for m in msgs:
            for f in m['fields']:
                # the factor constant the message's conversions use
                for n in ('%s_%s_%s_CovFactor' % (drv.upper(), m['n'], f['n']), '%s_%s_CovFactor' % (drv.upper(), f['n'])):
                    if n in macros:
                        v = number(macros[n].strip(' ()'))
                        f['cov'] = [v] if v else []
                        break
        row['obs'].append({'msgs': msgs, 'stray': stray[:5]})
    about = dict(p.about(), header=open(p.path('lib', p.low + '.h'), encoding='utf-8', errors='replace').read()[:30000])
    shutil.rmtree(p.dir, ignore_errors=True)
    shutil.rmtree(os.path.dirname(p.dbcpath), ignore_errors=True)
    return row, about


def C24(c):
    c.model_check('DocMC', cfgfile('DocMC_thorough' if c.thorough else 'DocMC'))
    c.exe()
    seeds = [c.rng.getrandbits(32) for _ in range(6000 if c.thorough else 300)]
    res = pmap(lambda s: doc_case(c, s), seeds)
    rows = [x[0] for x in res]
    c.count('headers', len(rows))
    c.count('documented_signals', sum(len(m['sigs']) for r in rows for m in r['msgs']))
    c.sample({'dbc': res[0][1]['dbc'][:1500] if 'dbc' in res[0][1] else ''})
    c.validate('DocTrace', rows, '', sum(len(r['msgs']) + 2 for r in rows), lambda t: res[t][1])
