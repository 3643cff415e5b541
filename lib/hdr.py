"""Observing a generated package from outside: preprocessed declarations, macros, comment placement."""
import os, re
from vlib import *

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d[\w.]*|[^\s\w]')


def preprocess(path, incs, defs=()):
    rc, out = run(['gcc', '-E', '-dD', '-P', '-x', 'c'] + list(defs) + list(incs) + [path], 60)
    return rc, out


def declarations(text):
    """macros (name -> text) and structs (name -> [(type, field)]) of preprocessed text"""
    macros, code = {}, []
    for x in text.split('\n'):
        m = re.match(r'#define\s+(\w+)(\([^)]*\))?\s*(.*)', x)
        if m:
            macros[m.group(1)] = m.group(3)
            continue
        if x.startswith('#undef'):
            macros.pop(x.split()[1], None)
            continue
        if not x.startswith('#'):
            code.append(x)
    t = TOK.findall('\n'.join(code))
    structs, i = {}, 0
    while i < len(t):
        if t[i] == 'struct':
            j = i + 1
            tag = None
            if j < len(t) and re.match(r'[A-Za-z_]\w*$', t[j]):
                tag = t[j]
                j += 1
            if j < len(t) and t[j] == '{':
                depth, k = 1, j + 1
                while k < len(t) and depth:
                    depth += {'{': 1, '}': -1}.get(t[k], 0)
                    k += 1
                body = t[j + 1:k - 1]
                name = t[k] if k < len(t) and re.match(r'[A-Za-z_]\w*$', t[k]) and i > 0 and t[i - 1] == 'typedef' else tag
                fields, cur = [], []
                for x in body + [';']:
                    if x == ';':
                        if cur:
                            if ':' in cur:
                                cur = cur[:cur.index(':')]
                            if '[' in cur:
                                cur = cur[:cur.index('[')]
                            fields.append((' '.join(cur[:-1]), cur[-1]))
                        cur = []
                    else:
                        cur.append(x)
                structs[name] = fields
                i = k
                continue
        i += 1
    return macros, structs


def comment_places(path, tokens):
    """where comment tokens stand: list of (token, macro or field name, struct) = the next declaration"""
    src = open(path, encoding='latin-1').read()
    # split into comments and code, keeping order
    items = []
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|[^/"]+|.', src, re.S):
        x = m.group(0)
        items.append(('c' if x.startswith('//') or x.startswith('/*') else 's', x))
    res, pending = [], []
    # flatten code to lines, remembering comments in front of them
    lines = []
    for kind, x in items:
        if kind == 'c':
            lines.append(('c', x))
        else:
            for part in re.split(r'(\n)', x):
                if part.strip():
                    lines.append(('s', part.strip()))
    open_struct, found = [], []
    for kind, x in lines:
        if kind == 'c':
            for t in re.findall(r'\btok[A-Za-z0-9]+\b', x):
                if t in tokens:
                    pending.append(t)
            continue
        m = re.match(r'#\s*define\s+(\w+)', x)
        if m:
            found += [[t, 'macro', m.group(1)] for t in pending]
            pending = []
        elif x.startswith('#'):
            continue
        elif re.match(r'(typedef\s+)?struct\b', x) or x in ('{',):
            # a comment in front of a struct belongs to the struct
            for t in pending:
                e = [t, 'struct', None]
                found.append(e)
                open_struct.append(e)
            pending = []
        elif x.startswith('}'):
            m = re.match(r'}\s*(\w+)\s*;', x)
            for e in open_struct:
                e[2] = (e[2], m.group(1) if m else None)
            open_struct = []
            found += [[t, 'stray', ''] for t in pending]
            pending = []
        else:
            m = re.match(r'[\w\s]*?\b(\w+)\s*(:\s*\d+\s*)?;', x)
            if m:
                for t in pending:
                    e = [t, 'field', m.group(1)]
                    found.append(e)
                    open_struct.append(e)
            elif pending:
                found += [[t, 'stray', x[:40]] for t in pending]
            pending = []
    found += [[t, 'stray', ''] for t in pending]
    return found


def symbols(obj):
    rc, out = run(['nm', '--defined-only', obj], 60)
    return [x.split()[-1] for x in out.split('\n') if ' T ' in x]
