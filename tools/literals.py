#!/usr/bin/env python3
"""The literals of /repo's sources that are not in harness/literals.json: sizes
and texts the bounded search should try.  `literals.py --write` records the
present ones.  Steers the search only; decides nothing."""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<s>(?:\\.|[^"\\])*)"|b?'(?P<c>\\x..|\\u\{[0-9a-f]+\}|\\.|[^'\\])'|'''
                 r'''(?P<f>\b\d[\d_]*\.\d[\d_]*(?:e[+-]?\d+)?)|(?P<n>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b)|'''
                 r'''(?P<as>\bas\s+[ui](?:8|16|32|64)\b)|(?P<m>\b[ui](?:8|16|32|64)::(?:MAX|BITS)\b)|(?P<o><<|[*+-])|(?P<x>\S)''', re.S)


def number(t):
    t = re.sub(r'[ui](?:8|16|32|64|128|size)$', '', t.replace('_', ''))
    return int(t, 0) if not re.fullmatch(r'0\d+', t) else int(t)


def unescape(s):
    try:
        return json.loads('"%s"' % re.sub(r"\\'", "'", re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: '\\u%04x' % int(m.group(1), 16), re.sub(r'\\x(..)', r'\\u00\1', s.replace('\\0', '\\u0000')))))
    except ValueError:
        return s


def scan():
    ints, strs = {}, {}

    def add(d, k):
        d[k] = d.get(k, 0) + 1
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'tests', 'benches', 'examples'))
        for f in sorted(files):
            if not f.endswith('.rs') or f == 'build.rs':
                continue
            prev = []
            for m in TOK.finditer(open(os.path.join(root, f), errors='replace').read()):
                g = m.groupdict()
                v = None
                if g['raw'] is not None or g['s'] is not None:
                    add(strs, g['raw'] if g['raw'] is not None else unescape(g['s']))
                elif g['c'] is not None:
                    c = unescape(g['c'])
                    add(strs, c)
                    if len(c) == 1:
                        add(ints, str(ord(c)))
                elif g['f'] is not None:
                    add(ints, str(int(float(g['f'].replace('_', '')))) if abs(float(g['f'].replace('_', ''))) < 2**64 else '0')
                elif g['n'] is not None:
                    v = number(g['n'])
                    add(ints, str(v))
                    # constant expressions: 1 << 16, 4 * 1024
                    if len(prev) == 2 and isinstance(prev[0], int) and prev[1] in ('<<', '*', '+', '-'):
                        a = prev[0]
                        v = {'<<': lambda: a << min(v, 127), '*': lambda: a * v, '+': lambda: a + v, '-': lambda: abs(a - v)}[prev[1]]()
                        add(ints, str(v))
                elif g['as'] is not None:
                    add(ints, str(1 << (int(re.search(r'\d+', g['as']).group()) - ('as i' in ' '.join(g['as'].split())))))
                elif g['m'] is not None:
                    add(ints, str((1 << (int(re.search(r'\d+', g['m']).group()) - (g['m'][0] == 'i'))) - 1))
                if m.group().startswith(('//', '/*')):
                    continue
                tok = v if v is not None else m.group()
                prev = (prev + [tok])[-2:]
    return {'ints': ints, 'strs': strs}


def new():
    """what is there more often than recorded"""
    base = json.load(open(os.path.join(V, 'harness/literals.json')))
    now = scan()
    ints = [int(k) for k, n in sorted(now['ints'].items()) if n > base['ints'].get(k, 0) and int(k) < 2**64]
    strs = [k for k, n in sorted(now['strs'].items()) if n > base['strs'].get(k, 0) and len(k) < 400]
    return {'ints': ints[:40], 'strs': strs[:40]}


if __name__ == '__main__':
    if '--write' in sys.argv:
        json.dump(scan(), open(os.path.join(V, 'harness/literals.json'), 'w'), indent=0, sort_keys=True)
    else:
        print(json.dumps(new()))
