#!/usr/bin/env python3
"""mutants.py OUT [N [SEED]]: write small changes to the crate's sources.

Each one is OUT/<n>.diff (with a/ b/ prefixes, against /repo). A development
aid: tools/mutate.sh runs the checks against them. No check reads them."""
import random, re, subprocess, sys, difflib, glob, os

out, want, seed = sys.argv[1], int(sys.argv[2] if len(sys.argv) > 2 else 300), int(sys.argv[3] if len(sys.argv) > 3 else 1)
rng = random.Random(seed)
files = [f for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)) if '/tests/' not in f and '/ast4/' not in f]

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.[^']*|[^'\\])'|'[a-z_]+\b|[A-Za-z_]\w*!?|\d+\w*|==|!=|<=|>=|&&|\|\||=>|->|::|\.\.=?|[-+*/]=|\s+|.''', re.S)

def tokens(src):
    pos, v = 0, []
    for m in TOK.finditer(src):
        v.append((m.start(), m.end(), m.group()))
    return v

def close(v, i):
    d = 0
    for j in range(i, len(v)):
        t = v[j][2]
        if t in '([{' and len(t) == 1: d += 1
        if t in ')]}' and len(t) == 1:
            d -= 1
            if d == 0: return j
    return None

def solid(t): return not (t.isspace() or t.startswith('//') or t.startswith('/*'))

def mutants(src):
    v = tokens(src)
    w = [i for i, t in enumerate(v) if solid(t[2])]
    for n, i in enumerate(w):
        a, b, t = v[i]
        nxt = v[w[n + 1]][2] if n + 1 < len(w) else ''
        prv = v[w[n - 1]][2] if n else ''
        swap = {'==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+=': ['-='], '-=': ['+='], '<=': ['<'], '>=': ['>'],
                'true': ['false'], 'false': ['true'], 'break': ['continue'], 'continue': ['break']}.get(t)
        if t == '||' and (prv in ('(', ',')): swap = None
        if swap:
            for x in swap: yield a, b, x
        if t in '<>' and v[i - 1][2].isspace() and v[i + 1][2].isspace():
            yield a, b, t + '='
        if t == '+' and v[i + 1][2].isspace(): yield a, b, '-'
        if t == '-' and v[i + 1][2].isspace(): yield a, b, '+'
        if re.fullmatch(r'\d+(u32|usize)?', t) and prv not in ('.',):
            m = re.match(r'(\d+)(.*)', t); k = int(m.group(1))
            yield a, b, f'{k + 1}{m.group(2)}'
            if k: yield a, b, f'{k - 1}{m.group(2)}'
        if t[0] == "'" and t[-1] == "'" and len(t) > 2:
            yield a, b, "'q'"
            for x in "'{'", "'\\\\'", "'\\n'", "' '", "'$'":
                if x != t and rng.random() < .3: yield a, b, x
        if t[0] == '"' and prv not in ('=', 'doc'):
            yield a, b, t[:-1] + ' "'
            if len(t) > 2:
                yield a, b, '"' + t[2:] if t[1] not in '\\{' else t
        if t == 'if' and nxt != 'let' and prv != '=>':
            j = n + 1
            d = 0
            while j < len(w):
                x = v[w[j]][2]
                if x in '([' : d += 1
                if x in ')]': d -= 1
                if d == 0 and x in ('{', '=>'): break
                j += 1
            c0, c1 = v[w[n + 1]][0], v[w[j - 1]][1]
            c = src[c0:c1]
            if ' let ' not in c:
                yield c0, c1, f'!({c})'
                yield c0, c1, f'{c} && false'
                yield c0, c1, f'{c} || true'
            if j < len(w) and v[w[j]][2] == '=>':
                yield a, c1, ''
        # method calls
        if t == '.' and re.fullmatch(r'[a-z_]\w*', nxt) and n + 2 < len(w) and v[w[n + 2]][2] == '(':
            j = close(v, w[n + 2])
            if j is not None:
                yield a, v[j][1], ''
            alt = {'first': 'last', 'last': 'first', 'push': 'push_unchecked', 'any': 'all', 'all': 'any', 'is_some': 'is_none', 'is_none': 'is_some',
                   'starts_with': 'ends_with', 'ends_with': 'starts_with', 'trim_start': 'trim', 'trim_end': 'trim', 'split_once': 'rsplit_once',
                   'find': 'rfind', 'rfind': 'find', 'trim': 'trim_start', 'skip': 'take', 'take': 'skip', 'is_whitespace': 'is_ascii_whitespace',
                   'is_ascii_alphabetic': 'is_alphabetic', 'max': 'min', 'min': 'max', 'new': 'new_unchecked', 'insert': 'push', 'pop': 'last'}.get(nxt)
            if alt:
                x = v[w[n + 1]]
                yield x[0], x[1], alt
        if t == '::' and nxt in ('is_whitespace', 'is_ascii_alphabetic', 'new', 'is_ascii_whitespace', 'new_unchecked'):
            x = v[w[n + 1]]
            yield x[0], x[1], {'is_whitespace': 'is_ascii_whitespace', 'is_ascii_alphabetic': 'is_alphabetic', 'new': 'new_unchecked',
                               'is_ascii_whitespace': 'is_whitespace', 'new_unchecked': 'new'}[nxt]
        # fields and names of the same kind
        groups = [['preamable', 'body', 'trailing'], ['line_no', 'lines'], ['Curly', 'Square', 'Brackets'], ['DoubleDollar', 'SquareBracket', 'RoundBracket', 'Dollar'],
                  ['begin', 'end'], ['pre_begin', 'pre_end'], ['Inline', 'Display'], ['open', 'close'], ['args', 'contents']]
        for g in groups:
            if t in g:
                for x in g:
                    if x != t and rng.random() < .4: yield a, b, x
        # statements
        if t in (';', '{', '}') and n + 1 < len(w) and nxt not in ('}', 'use', 'pub', 'fn', 'mod', 'impl', 'else', ')', ';', ',', 'let', '.', '?', '#', 'struct', 'enum'):
            j, d = n + 1, 0
            ok = False
            while j < len(w):
                x = v[w[j]][2]
                if x in ('(', '[', '{'): d += 1
                if x in (')', ']', '}'):
                    d -= 1
                    if d < 0: break
                    if d == 0 and x == '}' and v[w[n + 1]][2] in ('if', 'for', 'while', 'match', 'loop') and v[w[j + 1]][2] not in ('else', '.', '?', ';', ')'):
                        ok = True; break
                if x == ';' and d == 0: ok = True; break
                j += 1
            if ok and v[w[j]][1] - v[w[n + 1]][0] < 400:
                yield v[w[n + 1]][0], v[w[j]][1], ''
        # match arms
        if t == '=>' and nxt != '{':
            pass

os.makedirs(out, exist_ok=True)
every = []
for f in files:
    src = open(f).read()
    seen = set()
    for a, b, x in mutants(src):
        new = src[:a] + x + src[b:]
        if new != src and new not in seen:
            seen.add(new)
            every.append((f, src, new))
rng.shuffle(every)
print(len(every), 'in all', file=sys.stderr)
for n, (f, src, new) in enumerate(every[:want]):
    r = os.path.relpath(f, '/repo')
    d = ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + r, 'b/' + r))
    open(f'{out}/{n:04}.diff', 'w').write(d)
