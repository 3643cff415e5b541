"""Generate a driver with the real coderdbc, compile it with a harness in a given configuration, execute
scripts and record what the generated code did (one event per public call)."""
import json, os, re, shutil
from fractions import Fraction
from vlib import *
import dbc as D

FLAGS = ['bits', 'can', 'mon', 'mono', 'sf', 'roll', 'csm']
DEFS = {'bits': 'USE_BITS_SIGNAL', 'can': 'USE_CANSTRUCT', 'mon': 'USE_DIAG_MONITORS', 'mono': 'USE_MONO_FMON',
        'sf': 'USE_SIGFLOAT', 'roll': 'AUTO_ROLL', 'csm': 'AUTO_CSM'}


def cfg(**kw):
    c = {f: False for f in FLAGS}
    c['init'] = 0
    c.update(kw)
    return c


def cfg_defs(drv, c):
    r = ['-D%s_%s' % (drv.upper(), DEFS[f]) for f in FLAGS if c[f]]
    if c.get('init') is not None and c['init'] != 0:
        r.append('-D%s_INITIAL_BYTE_VALUE=%dU' % (drv.upper(), c['init']))
    return r


CONF = r'''#ifndef VH_CONF
#define VH_CONF
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef double sigfloat_t;
typedef uint64_t ubitext_t;
typedef int64_t bitext_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;
uint32_t vh_tick(void);
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op);
#define GetSystemTick() vh_tick()
#define GetFrameHash(a,b,c,d,e) vh_hash(a,b,c,d,e)
%s
#ifdef __cplusplus
}
#endif
#endif
'''

METHODS = D.METHODS


class Package:
    """a generated package on disk"""

    def __init__(self, chk, doc, drv='Tdrv', nodeutils=False, text=None, style=None, fname='in.dbc', rw=True, into=None):
        self.chk, self.doc, self.drv = chk, doc, drv
        self.dir = into or chk.scr.dir('pkg')
        if into:        # next to what is there
            os.remove(os.path.join(into, 'conf', 'dbccodeconf.h'))
        self.text = text if text is not None else D.render(doc, style)
        src = chk.scr.dir('src')
        p = os.path.join(src, fname)
        with open(p, 'w', newline='') as h:
            h.write(self.text)
        self.dbcpath = p
        a = [chk.exe(), '-dbc', p, '-out', self.dir, '-drvname', drv] + (['-rw'] if rw else []) + (['-nodeutils'] if nodeutils else [])
        self.rc, self.out = run_nobody(a, self.dir, timeout=120)
        self.low, self.up = drv.lower(), drv.upper()
        self.ok = self.rc == 0 and os.path.exists(self.path('lib', self.low + '.c'))
        conf = os.path.join(self.dir, 'conf', 'dbccodeconf.h')
        if self.ok:
            if os.path.exists(conf):
                os.remove(conf)
            with open(conf, 'w') as h:
                h.write(CONF % '\n'.join('#define %s %dU' % kv for kv in METHODS.items()))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def incs(self):
        return ['-I' + self.path('lib'), '-I' + self.path('conf'), '-I' + self.path('inc'), '-I' + self.path('butl')]

    def about(self):
        return {'dbc': self.text, 'drvname': self.drv}


GLUE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#define NI %(ni)d
typedef unsigned long long u64;
typedef long long i64;
static uint32_t g_tick; static int g_ntick;
static u64 g_hashval; static int g_hashmode;
static const uint8_t* g_expect_buf;
static int g_inst_msg = -1, g_inst = -1;
typedef struct { int same; int len; uint8_t d[64]; uint32_t l, id, me, op, res; } hcall;
static hcall g_h[8]; static int g_nh;
uint32_t vh_tick(void) { g_ntick++; return g_tick; }
uint32_t vh_hash(const void* d, uint32_t len, uint32_t id, uint32_t method, uint32_t op)
{
  uint32_t r = 0; unsigned i; hcall* h = &g_h[g_nh < 7 ? g_nh : 7];
  g_nh++;
  h->same = (d == (const void*)g_expect_buf); h->len = len <= 64 ? (int)len : 64;
  memset(h->d, 0, 64); memcpy(h->d, d, h->len);
  h->l = len; h->id = id; h->me = method; h->op = op;
  if (g_hashmode == 0) r = (uint32_t)g_hashval;
  else { r = id * 2654435761u + method * 40503u + op * 97u + 11u; for (i = 0; i < len && i < 64; i++) r = (r ^ h->d[i]) * 16777619u; r ^= r >> 15; r ^= r >> 7; r &= 0xFFu; if (g_hashmode > 1) r &= (1u << (g_hashmode - 1)) - 1u; }
  h->res = r; return r;
}
typedef struct { int fn; int pm; int pi; uint32_t id; int has; uint32_t cnt, last, roll, csm, dlc, cyc; } fcall;
static fcall g_f[8]; static int g_nf;
static uint8_t g_slot[256][64]; static int g_sl;
static uint8_t g_buf[16 + 64 + 64];
'''


def c_harness(doc, drv, c, ni=3, exact=False):
    """the harness for the non-empty messages of the document (empty messages have no functions);
    exact: every struct and every frame is a heap object of exactly its size"""
    low, up = drv.lower(), drv.upper()
    ms = [m for m in doc.msgs if m.sigs]
    o = ['#include "%s.h"' % low]
    o.append(GLUE % {'ni': ni})
    mon = c['mon']
    o.append('static uint8_t wr8(const char* p) { return (uint8_t)strtoul(p, 0, 16); }')
    for i, m in enumerate(ms):
        if exact:
            o.append('typedef struct { %s_t m; } W%d; static W%d* w%d[NI];' % (m.name, i, i, i))
        else:
            o.append('typedef struct { uint8_t g0[16]; %s_t m; uint8_t g1[16]; } W%d; static W%d w%d[NI];' % (m.name, i, i, i))
        # number of fields
        o.append('static void set%d(int k, char* t) { %s_t* m = &w%d[k].m;' % (i, m.name, i))
        for s in m.sigs:
            o.append(' m->%s = (%s) strtoull(strtok(t, " "), 0, 16); t = 0;' % (s.field(), 'i64' if s.signed else 'u64'))
        if c['sf']:
            for s in m.sigs:
                if s.scaled():
                    if s.dec():
                        o.append(' m->%s_phys = strtod(strtok(t, " "), 0); t = 0;' % s.name)
                    else:
                        o.append(' m->%s_phys = (i64) strtoull(strtok(t, " "), 0, 16); t = 0;' % s.name)
        o.append(' (void)t; }')
        o.append('static void dump%d(int k) { %s_t* m = &w%d[k].m; int g = 1;' % (i, m.name, i))
        if not exact:
            o.append(' { int j; for (j = 0; j < 16; j++) if (w%d[k].g0[j] != 0x5A || w%d[k].g1[j] != 0x5A) g = 0; }' % (i, i))
        o.append(' printf(" r");')
        for s in m.sigs:
            o.append(' printf(" %%llx", (u64) m->%s);' % s.field())
        if c['sf']:
            o.append(' printf(" p");')
            for s in m.sigs:
                if s.scaled():
                    if s.dec():
                        o.append(' printf(" %%a", (double) m->%s_phys);' % s.name)
                    else:
                        o.append(' printf(" %%llx", (u64) m->%s_phys);' % s.name)
        if mon:
            o.append(' printf(" m %%x %%x %%x %%x %%x", m->mon1.frame_cnt, m->mon1.last_cycle, (unsigned) m->mon1.roll_error, (unsigned) m->mon1.csm_error, (unsigned) m->mon1.dlc_error);')
        o.append(' printf(" g %%d", g); (void)m; }' .replace('%%', '%'))
    # percent signs above are doubled only where needed
    o = [x.replace('%%', '%') for x in o]
    if mon:
        o.append('static void locate(FrameMonitor_t* p, int* pm, int* pi) { int k; *pm = -1; *pi = -1; for (k = 0; k < NI; k++) {')
        for i, m in enumerate(ms):
            o.append(' if (p == &w%d[k].m.mon1) { *pm = %d; *pi = k; }' % (i, i))
        o.append(' } }')
        o.append('static void fcall_(int fn, FrameMonitor_t* p, uint32_t id) { fcall* f = &g_f[g_nf < 7 ? g_nf : 7]; g_nf++; f->fn = fn; f->id = id; locate(p, &f->pm, &f->pi);'
                 ' f->has = f->pm != -1; if (f->has) { f->cnt = p->frame_cnt; f->last = p->last_cycle; f->roll = p->roll_error; f->csm = p->csm_error; f->dlc = p->dlc_error; } }')
        if c['mono']:
            o.append('void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id); void _FMon_MONO_%s(FrameMonitor_t* p, uint32_t id) { fcall_(-1, p, id); }' % (low, low))
        else:
            for i, m in enumerate(doc.msgs):
                fn = ms.index(m) if m in ms else 1000 + i
                o.append('void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id); void _FMon_%s_%s(FrameMonitor_t* p, uint32_t id) { fcall_(%d, p, id); }' % (m.name, low, m.name, low, fn))
    o.append(r'''
static void calls(void) { int i, j, n;
  printf(" t %d", g_ntick);
  n = g_nh < 8 ? g_nh : 8; printf(" h %d", g_nh);
  for (i = 0; i < n; i++) { hcall* h = &g_h[i]; printf(" %d %x %x %x %x %x ", h->same, h->l, h->id, h->me, h->op, h->res); for (j = 0; j < h->len; j++) printf("%02x", h->d[j]); printf("."); }
  n = g_nf < 8 ? g_nf : 8; printf(" f %d", g_nf);
  for (i = 0; i < n; i++) { fcall* f = &g_f[i]; printf(" %d %d %d %x %x %x %x %x %x", f->fn, f->pm, f->pi, f->id, f->cnt, f->last, f->roll, f->csm, f->dlc); }
  printf("\n");
}
static void clr(void) { g_ntick = 0; g_nh = 0; g_nf = 0; }
static int hexd(const char* s, uint8_t* d) { int n = 0; if (*s == '-') return 0; while (s[0] && s[1] && n < 64) { char b[3] = { s[0], s[1], 0 }; d[n++] = wr8(b); s += 2; } return n; }
static uint8_t g_fill;
static void prep(uint8_t* b, int n) { int i; g_fill = (uint8_t)(g_fill * 5 + 77); for (i = 0; i < n; i++) b[i] = (uint8_t)(g_fill + i * 3); }
static int okfrom(const uint8_t* b, int from, int n) { int i; for (i = from; i < n; i++) if (b[i] != (uint8_t)(g_fill + i * 3)) return 0; return 1; }
''')
    # pack
    for i, m in enumerate(ms):
        o.append('static void pack%d(int k) { int ob; uint32_t ret; unsigned len = 999, ide = 999, id = 0; int j; const uint8_t* out; clr();' % i)
        if exact and c['can']:
            o.append(' __CoderDbcCanFrame_t__* F = malloc(sizeof *F); g_expect_buf = F->Data; ob = 1;')
            o.append(' ret = Pack_%s_%s(&w%d[k].m, F); len = F->DLC; ide = F->IDE; id = F->MsgId; out = memcpy(g_buf, F->Data, %d); free(F);' % (m.name, drv, i, m.dlc))
        elif exact:
            o.append(' uint8_t *eb = malloc(%d), *el = malloc(1), *ei = malloc(1); *el = *ei = 0x77; g_expect_buf = eb; ob = 1;' % m.dlc)
            o.append(' ret = Pack_%s_%s(&w%d[k].m, eb, el, ei); len = *el; ide = *ei; id = ret; out = memcpy(g_buf, eb, %d); free(eb); free(el); free(ei);' % (m.name, drv, i, m.dlc))
        elif c['can']:
            o.append(' static struct { uint8_t g0[16]; __CoderDbcCanFrame_t__ f; uint8_t g1[16]; } F; prep((uint8_t*)&F, (int)sizeof(F)); g_expect_buf = F.f.Data;')
            o.append(' ret = Pack_%s_%s(&w%d[k].m, &F.f); len = F.f.DLC; ide = F.f.IDE; id = F.f.MsgId; out = F.f.Data;' % (m.name, drv, i))
            o.append(' ob = okfrom((uint8_t*)&F, (int)((uint8_t*)&F.f.Data[0] - (uint8_t*)&F) + %d, (int)sizeof(F)); for (j = 0; j < 16; j++) if (((uint8_t*)&F)[j] != (uint8_t)(g_fill + j * 3)) ob = 0;' % m.dlc)
        else:
            o.append(' uint8_t ob2[6]; prep(g_buf, (int)sizeof(g_buf)); memset(ob2, 0x77, 6); g_expect_buf = g_buf + 16;')
            o.append(' ret = Pack_%s_%s(&w%d[k].m, g_buf + 16, ob2 + 1, ob2 + 4); len = ob2[1]; ide = ob2[4]; id = ret; out = g_buf + 16;' % (m.name, drv, i))
            o.append(' ob = okfrom(g_buf, 16 + %d, (int)sizeof(g_buf)) && ob2[0] == 0x77 && ob2[2] == 0x77 && ob2[3] == 0x77 && ob2[5] == 0x77; for (j = 0; j < 16; j++) if (g_buf[j] != (uint8_t)(g_fill + j * 3)) ob = 0;' % m.dlc)
        o.append(' printf("P %d %%d %%x %%x %%x %%x %%d ", k, ret, len, ide, id, ob); for (j = 0; j < %d; j++) { printf("%%02x", out[j]); g_slot[g_sl][j] = out[j]; } dump%d(k); calls(); }' % (i, m.dlc, i))
        o.append('static void unpack%d(int k, int dlc, const char* hex, const uint8_t* src) { uint32_t ret; uint8_t* b = g_buf + 16; int n, j, ob; clr(); prep(g_buf, (int)sizeof(g_buf)); n = hexd(hex, b); (void)n; if (src) memcpy(b, src, %d); g_expect_buf = b; { static uint8_t cp[sizeof(g_buf)]; memcpy(cp, g_buf, sizeof cp);' % (i, m.dlc))
        if exact:
            o.append(' { uint8_t* eb = malloc(%d); memcpy(eb, b, %d); g_expect_buf = eb; (void)cp; ret = Unpack_%s_%s(&w%d[k].m, eb, (uint8_t) dlc); ob = 1; free(eb); } }' % (m.dlc, m.dlc, m.name, drv, i))
        else:
            o.append(' ret = Unpack_%s_%s(&w%d[k].m, b, (uint8_t) dlc); ob = memcmp(cp, g_buf, sizeof cp) == 0; }' % (m.name, drv, i))
        o.append(' printf("U %d %%d %%x %%d %%d ", k, ret, dlc, ob); for (j = 0; j < %d; j++) printf("%%02x", b[j]); dump%d(k); calls(); }' % (i, m.dlc, i))
    # the conversion macros, applied by the application to a value or an expression
    for i, m in enumerate(ms):
        o.append('static void conv%d(int j, int to, int form, char* t) { u64 v = strtoull(t, 0, 16); double f = form > 1 ? strtod(t, 0) : 0; i64 sv = (i64)v; i64 a = sv / 2, b = sv - sv / 2; double fa = f / 2, fb = f / 2; (void)f; (void)sv; (void)a; (void)b; (void)fa; (void)fb;' % i)
        o.append(' switch (j) {')
        for j, s in enumerate(m.sigs):
            if not s.scaled():
                continue
            for k, nm in enumerate(('%s_%s_%s' % (up, m.name, s.field()), '%s_%s' % (up, s.field()))):
                o.append('#%s defined(%s_toS) && defined(%s_fromS)' % ('elif' if k else 'if', nm, nm))
                raw = 'i64' if s.signed else 'u64'
                fa, fb = ('f', 'fa + fb') if s.dec() else ('sv', 'a + b')
                ra, rb = ('sv', 'a + b') if s.signed or not s.dec() else ('v', 'v / 2 + (v - v / 2)')
                fmt, ct = ('%a', 'double') if s.dec() else ('%llx', 'u64')
                o.append('  case %d: printf("C %d %%d %%d ", j, to); if (to) printf("%%llx\\n", (u64)(%s)(form & 1 ? %s_toS(%s) : %s_toS(%s))); else printf("%s\\n", (%s)(form & 1 ? %s_fromS(%s) : %s_fromS(%s))); break;'
                         % (j, i, raw, nm, fb, nm, fa, fmt, ct, nm, rb, nm, ra))
            o.append('#endif')
        o.append('  default: printf("C %d %%d %%d none\\n", j, to); } }' % i)
    o.append('static char line[1 << 16];')
    o.append('int main(void) { int k, i, d; static char a[4096]; memset(g_buf, 0, sizeof g_buf);')
    for i, m in enumerate(ms):
        if exact:
            o.append(' for (k = 0; k < NI; k++) w%d[k] = calloc(1, sizeof(W%d));' % (i, i))
            continue
        o.append(' memset(w%d, 0, sizeof w%d); for (k = 0; k < NI; k++) { memset(w%d[k].g0, 0x5A, 16); memset(w%d[k].g1, 0x5A, 16); }' % (i, i, i, i))
    o.append(' while (fgets(line, sizeof line, stdin)) { switch (line[0]) {')
    o.append('  case \'T\': g_tick = (uint32_t) strtoul(line + 2, 0, 16); break;')
    o.append('  case \'H\': g_hashmode = (int) strtol(line + 2, 0, 10); g_hashval = strtoull(strchr(line + 2, \' \') + 1, 0, 16); break;')
    o.append('  case \'S\': { int off = 0; sscanf(line + 2, "%d %d %n", &i, &k, &off); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: set%d(k, line + 2 + off); printf("S %d %%d", k); dump%d(k); printf("\\n"); break;' % (i, i, i, i))
    o.append('  } } break;')
    o.append('  case \'Z\': sscanf(line + 2, "%d %d", &i, &k); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: memset(&w%d[k].m, 0, sizeof w%d[k].m); printf("S %d %%d", k); dump%d(k); printf("\\n"); break;' % (i, i, i, i, i))
    o.append('  } break;')
    # the application presets the statistics of a monitor
    o.append('  case \'M\': { unsigned cn = 0, la = 0, fl = 0; sscanf(line + 2, "%d %d %x %x %x", &i, &k, &cn, &la, &fl); switch (i) {')
    for i, m in enumerate(ms):
        act = 'w%d[k].m.mon1.frame_cnt = cn; w%d[k].m.mon1.last_cycle = la; w%d[k].m.mon1.roll_error = fl & 1; w%d[k].m.mon1.csm_error = (fl >> 1) & 1; w%d[k].m.mon1.dlc_error = (fl >> 2) & 1;' % (i, i, i, i, i)
        o.append('   case %d: %s printf("S %d %%d", k); dump%d(k); printf("\\n"); break;' % (i, act if mon else '', i, i))
    o.append('  } } break;')
    o.append('  case \'C\': { int j = 0, to = 0, form = 0; sscanf(line + 2, "%d %d %d %d %4000s", &i, &j, &to, &form, a); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: conv%d(j, to, form, a); break;' % (i, i))
    o.append('  } } break;')
    o.append('  case \'P\': g_sl = 0; sscanf(line + 2, "%d %d %d", &i, &k, &g_sl); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: pack%d(k); break;' % (i, i))
    o.append('  } break;')
    o.append('  case \'U\': sscanf(line + 2, "%d %d %d %200s", &i, &k, &d, a); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: unpack%d(k, d, a, 0); break;' % (i, i))
    o.append('  } break;')
    o.append('  case \'V\': sscanf(line + 2, "%d %d %d %d", &i, &k, &d, &g_sl); switch (i) {')
    for i, m in enumerate(ms):
        o.append('   case %d: unpack%d(k, d, "-", g_slot[g_sl]); break;' % (i, i))
    o.append('  } break;')
    o.append(' } fflush(stdout); } return 0; }')
    t = '\n'.join(o) + '\n'
    return re.sub(r'\bw(\d+)\[k\]\.m\b', r'w\1[k]->m', t) if exact else t


SAN = ['-g', '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class Driver:
    """a package compiled in one configuration with the harness"""

    def __init__(self, pkg, c, ni=3, opt='-O1', cc='gcc', san=False):
        self.pkg, self.c = pkg, c
        self.ms = [m for m in pkg.doc.msgs if m.sigs]
        scr = pkg.chk.scr
        self.d = scr.own('hx')
        src = os.path.join(self.d, 'h.c')
        with open(src, 'w') as h:
            h.write(c_harness(pkg.doc, pkg.drv, c, ni=ni, exact=san))
        self.exe = os.path.join(self.d, 'h')
        units = [src, pkg.path('lib', pkg.low + '.c')]
        rc, out = run([cc, opt, '-w', '-o', self.exe] + (SAN if san else []) + cfg_defs(pkg.drv, c) + pkg.incs() + units, 600)
        self.ok, self.msg = rc == 0, out
        self.cmds, self.wants, self.sel, self.san = [], [], {}, san

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    # script building -----------------------------------------------------------------------
    def set(self, i, k, raw, phys=(), wit=None):
        """phys: one entry per scaled signal (int or float); wit: raw values the physical ones belong to"""
        self.cmds.append('S %d %d %s' % (i, k, ' '.join(['%x' % (v & (2 ** 64 - 1)) for v in raw] + [hexnum(p) for p in phys])))
        pw, it = [], iter(phys)
        if phys:
            for s in self.ms[i].sigs:
                p = next(it) if s.scaled() else 0
                pw.append(D.le(0 if isinstance(p, float) else p))
        self.wants.append({'want': [D.le(v) for v in raw], 'pwant': pw, 'zero': False})
        if wit is not None:
            self.wants[-1]['wit'] = [D.le(v) for v in wit]

    def zero(self, i, k):
        self.cmds.append('Z %d %d' % (i, k))
        self.wants.append({'want': [], 'pwant': [], 'zero': True})

    def preset(self, i, k, cnt, last, flags):
        """the application writes the monitor's statistics"""
        self.cmds.append('M %d %d %x %x %x' % (i, k, cnt, last, flags))
        self.wants.append({'want': [], 'pwant': [], 'zero': False})

    def pack(self, i, k, slot=0):
        self.cmds.append('P %d %d %d' % (i, k, slot))

    def deliver(self, i, k, slot=0, dlc=None):
        """unpack a payload packed before"""
        self.cmds.append('V %d %d %d %d' % (i, k, self.ms[i].dlc if dlc is None else dlc, slot))

    def unpack(self, i, k, data, dlc=None):
        self.cmds.append('U %d %d %d %s' % (i, k, len(data) if dlc is None else dlc, bytes(data).hex() or '-'))

    def edge(self, i, k, data, j, dlc):
        """an unpack of which only signal j is looked at"""
        self.cmds.append('U %d %d %d %s' % (i, k, dlc, bytes(data).hex()))
        self.sel[len(self.cmds) - 1] = j

    def conv(self, i, j, to, v, expr=False):
        """the application applies a conversion macro of signal j: to=True: physical value -> raw"""
        self.cmds.append('C %d %d %d %d %s' % (i, j, to, (2 if isinstance(v, float) else 0) + expr, hexnum(v)))

    def tick(self, n):
        self.cmds.append('T %x' % n)

    def hash(self, mode, val=0):
        self.cmds.append('H %d %x' % (mode, val))

    def run(self, timeout=120):
        """execute the collected script; returns the list of events (a crash ends it with a crash event)"""
        cmds, wants, sel = self.cmds, iter(self.wants), self.sel
        self.cmds, self.wants, self.sel = [], [], {}
        rc, out = run_nobody([self.exe], self.pkg.dir, stdin=('\n'.join(cmds) + '\n').encode(), timeout=timeout)
        lines = iter(out.split('\n'))
        evs, slots = [], {}
        for n, c in enumerate(cmds):
            if c[0] == 'H':
                continue
            if c[0] == 'T':
                evs.append({'e': 'tick', 'v': D.w32(int(c[2:], 16))})
                continue
            try:
                ev = self.parse(next(lines))
                assert ev['e'][0].upper() == c[0] or (ev['e'], c[0]) in (('set', 'Z'), ('set', 'M'), ('unpack', 'V'))
            except (StopIteration, ValueError, AssertionError, KeyError, IndexError):
                evs.append({'e': 'crash', 'rc': str(rc)})
                if self.san:        # the call under way
                    f = c.split()
                    evs[-1].update(op=c[0], m=int(f[1]) + 1, k=int(f[2]) + 1 if c[0] != 'C' else 1, d=list(bytes.fromhex(f[4])) if c[0] == 'U' else slots.get(f[4], []) if c[0] == 'V' else [], what=fault(out))
                return evs
            if ev['e'] == 'conv':
                f = c.split()
                ev['x'] = value_json(self.ms[ev['m'] - 1].sigs[ev['sig'] - 1], f[5], ev['to'])
            elif ev['e'] == 'set':
                ev.update(next(wants))
            elif c[0] in 'PV':
                ev['slot'] = int(c.split()[-1])
                if c[0] == 'P':
                    slots[c.split()[-1]] = ev['d']
            elif n in sel:
                ev['sel'], ev['raw'] = sel[n] + 1, [ev['raw'][sel[n]]]
            evs.append(ev)
        if rc != 0:
            evs.append({'e': 'crash', 'rc': str(rc)})
        return evs

    def row(self, evs):
        c = dict(self.c)
        return {'msgs': [m.json() for m in self.ms], 'cfg': c, 'ev': evs}

    def parse(self, x):
        t = x.split(' ')
        kind = t[0]
        it = iter(t[1:])
        nx = lambda: next(it)
        if kind == 'C':
            i, j, to, y = int(nx()), int(nx()), int(nx()), nx().strip()
            s = self.ms[i].sigs[j]
            return {'e': 'conv', 'm': i + 1, 'k': 1, 'sig': j + 1, 'to': to == 1, 'none': y == 'none', 'y': value_json(s, y, to == 0)}
        i, k = int(nx()), int(nx())
        m = self.ms[i] if 0 <= i < len(self.ms) else None
        ev = {'e': {'S': 'set', 'P': 'pack', 'U': 'unpack', 'R': 'recv'}[kind], 'm': i + 1, 'k': k + 1}
        if kind == 'P':
            ev['ret'] = D.w32(int(nx(), 16))
            ev['len'] = int(nx(), 16)
            ev['ide'] = int(nx(), 16)
            ev['fid'] = D.w32(int(nx(), 16))
            ev['ob'] = nx() == '1'
            ev['d'] = list(bytes.fromhex(nx()))
        elif kind == 'U':
            ev['ret'] = D.w32(int(nx(), 16))
            ev['rdlc'] = int(nx())
            ev['ob'] = nx() == '1'
            ev['d'] = list(bytes.fromhex(nx()))
        assert nx() == 'r'
        ev['raw'] = [D.le(int(nx(), 16)) for _ in m.sigs]
        tok = nx()
        ev['phys'] = []
        if tok == 'p':
            for s in m.sigs:
                ev['phys'].append({'w': [0] * 8, 'neg': False, 'mag': [], 'k': 0, 'nan': False} if not s.scaled() else
                                  phys_dec(nx()) if s.dec() else
                                  dict(w=D.le(int(nx(), 16)), neg=False, mag=[], k=0, nan=False))
            tok = nx()
        ev['mon'] = []
        if tok == 'm':
            c, l, r, s, d = [int(nx(), 16) for _ in range(5)]
            ev['mon'] = [{'cnt': D.w32(c), 'last': D.w32(l), 'roll': r, 'csm': s, 'dlc': d}]
            tok = nx()
        assert tok == 'g'
        ev['gd'] = nx() == '1'
        ev['h'], ev['f'], ev['nt'], ev['nh'], ev['nf'] = [], [], 0, 0, 0
        if kind in 'PU':
            assert nx() == 't'
            ev['nt'] = int(nx())
            assert nx() == 'h'
            n = ev['nh'] = int(nx())
            for _ in range(min(n, 8)):
                same = nx() == '1'
                l, id_, me, op, res = [int(nx(), 16) for _ in range(5)]
                d = nx()
                ev['h'].append({'same': same, 'len': D.w32(l), 'id': D.w32(id_), 'me': D.w32(me), 'op': D.w32(op), 'res': D.le(res), 'd': list(bytes.fromhex(d.rstrip('.')))})
            assert nx() == 'f'
            n = ev['nf'] = int(nx())
            for _ in range(min(n, 8)):
                fn, pm, pi = int(nx()), int(nx()), int(nx())
                id_, cnt, last, ro, cs, dl = [int(nx(), 16) for _ in range(6)]
                ev['f'].append({'fn': fn + 1, 'pm': pm + 1, 'pi': pi + 1, 'id': D.w32(id_),
                                'mon': {'cnt': D.w32(cnt), 'last': D.w32(last), 'roll': ro, 'csm': cs, 'dlc': dl}})
        return ev


def fault(out):
    """the line in which a sanitizer names what happened"""
    m = re.search(r'runtime error: [^\n]*|ERROR: AddressSanitizer:? [^\n]*|terminate called[^\n]*', out)
    return re.sub(r'[^ -~]|["\\\\]', ' ', re.sub(r'0x[0-9a-f]+', '0x..', m.group(0) if m else 'no output'))[:160]


def hexnum(p):
    """textual form of a physical value for the script"""
    if isinstance(p, float):
        return p.hex()
    return '%x' % (int(p) & (2 ** 64 - 1))


def value_json(s, t, phys):
    """a raw (phys: physical) value of the signal as printed or given"""
    if t != 'none' and phys and s.dec():
        return phys_dec(t)
    return {'w': D.le(0 if t == 'none' else int(t, 16)), 'neg': False, 'mag': [], 'k': 0, 'nan': False}


def phys_dec(t):
    """a double exactly as  (-1)^neg * mag / 2^k"""
    t = t.strip()
    if t in ('inf', '-inf', 'nan', '-nan'):
        return {'w': [0] * 8, 'neg': False, 'mag': [], 'k': 0, 'nan': True}
    f = Fraction(*float.fromhex(t).as_integer_ratio())
    k = f.denominator.bit_length() - 1
    return {'w': [0] * 8, 'neg': f < 0, 'mag': D.mag(f.numerator), 'k': k, 'nan': False}


# ------------------------------------------------------------------------------------------------

def split_rows(d, evs):
    """one row per message (for properties without interaction between messages)"""
    per = [[] for _ in d.ms]
    for e in evs:
        if e['e'] == 'crash':
            return [d.row(evs)]
        if e['e'] == 'tick':
            for p in per:
                p.append(e)
            continue
        i = e['m'] - 1
        f = dict(e, m=1)
        if 'f' in e:
            f['f'] = [dict(x, pm=1 if x['pm'] == e['m'] else 99 if x['pm'] else 0, fn=1 if x['fn'] == e['m'] else 99 if x['fn'] else 0) for x in e['f']]
        per[i].append(f)
    return [{'msgs': [m.json()], 'cfg': dict(d.c), 'ev': p} for m, p in zip(d.ms, per) if p]


def lean(evs, keep):
    """drop parts of the events the property does not look at (smaller logs)"""
    for e in evs:
        if 'phys' in e and 'phys' not in keep:
            e['phys'] = []
        if 'mon' in e and 'mon' not in keep:
            e['mon'] = []
            e['f'] = []
            e['h'] = [] if 'h' not in keep else e['h']
    return evs


def steps(rows):
    return sum(len(r['ev']) + 1 for r in rows)


def require_package(p, what='package'):
    if not p.ok:
        raise Violation('%s: generation fails on an accepted DBC (exit %s)' % (what, p.rc), dict(p.about(), output=p.out[-2000:]))
    return p


def require_driver(d, what='driver'):
    if not d.ok:
        raise Violation('%s: the generated driver does not compile in configuration %s' % (what, d.c), dict(d.pkg.about(), cfg=d.c, output=d.msg[:4000]))
    return d
