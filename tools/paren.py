#!/usr/bin/env python3
"""Development aid: TLA+ gives * and / the same precedence and no mutual associativity, so a chain
such as a * b / c must carry parentheses.  Rewrites such chains in the given files, left-associatively."""
import re, sys
TOK = re.compile(r'\\\*[^\n]*|\(\*.*?\*\)|"[^"]*"|\\[a-zA-Z]+|[A-Za-z_0-9]+!?|<<|>>|==|/\\|\\/|=>|\.\.|<=|>=|/=|->|\|->|\[\]|\s+|.', re.S)
def toks(s): return TOK.findall(s)
def blank(t): return t.isspace() or t.startswith('\\*') or t.startswith('(*')
OPEN = {'(': ')', '[': ']', '<<': '>>', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}
def match_back(t, i):
    d = 0
    while i >= 0:
        if t[i] in CLOSE: d += 1
        elif t[i] in OPEN:
            d -= 1
            if d == 0: return i
        i -= 1
    raise Exception('unbalanced')
def match_fwd(t, i):
    d = 0
    while i < len(t):
        if t[i] in OPEN: d += 1
        elif t[i] in CLOSE:
            d -= 1
            if d == 0: return i
        i += 1
    raise Exception('unbalanced')
def pb(t, i):
    i -= 1
    while i >= 0 and blank(t[i]): i -= 1
    return i
def nf(t, i):
    i += 1
    while i < len(t) and blank(t[i]): i += 1
    return i
isid = lambda x: re.fullmatch(r'[A-Za-z_0-9]+!?', x) or x.startswith('"')
def factor_back(t, i):
    """start index of the factor whose last token is i"""
    while True:
        if t[i] in CLOSE:
            j = match_back(t, i); k = pb(t, j)
            if t[j] in ('(', '[') and k >= 0 and (isid(t[k]) or t[k] in CLOSE) and t[k] not in ('THEN','ELSE','IN','LET','IF','CASE') and t[k+1:j] == []: i = k; continue
            s = j
        elif isid(t[i]): s = i
        else: raise Exception('factor? ' + ''.join(t[max(0,i-20):i+5]))
        k = pb(t, s)
        if k >= 0 and t[k] == '^': i = pb(t, k); continue
        if k >= 0 and t[k].endswith('!') : s = k
        return s
def factor_fwd(t, i):
    """last index of factor starting at i"""
    if t[i] == '-': i = nf(t, i)
    e = match_fwd(t, i) if t[i] in OPEN else i
    while True:
        n = e + 1
        if n < len(t) and t[n] in ('(', '['): e = match_fwd(t, n); continue
        if t[e].endswith('!'): e = nf(t, e); continue
        k = nf(t, e)
        if k < len(t) and t[k] == '^':
            j = nf(t, k); e = match_fwd(t, j) if t[j] in OPEN else j; continue
        return e
def fix(s):
    while True:
        t = toks(s); done = True
        for i, x in enumerate(t):
            if x == '/':
                e0 = pb(t, i); st = factor_back(t, e0); first = st; cnt = 1
                while True:
                    k = pb(t, first)
                    if k >= 0 and t[k] in ('*', '/'):
                        first = factor_back(t, pb(t, k)); cnt += 1
                    else: break
                if cnt > 1:
                    t[first] = '(' + t[first]; t[e0] = t[e0] + ')'; done = False; break
                f = factor_fwd(t, nf(t, i)); k = nf(t, f)
                if k < len(t) and t[k] in ('*', '/'):
                    t[first] = '(' + t[first]; t[f] = t[f] + ')'; done = False; break
        s = ''.join(t)
        if done: return s
for f in sys.argv[1:]:
    s = open(f).read(); r = fix(s)
    if r != s: open(f, 'w').write(r)
