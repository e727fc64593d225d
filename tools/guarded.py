#!/usr/bin/env python3
"""guarded.py OUT [N [SEED]]: changes that do something only under a rare condition.

Each one is OUT/<n>.diff (against /repo), like those of mutants.py; run by
tools/mutate.sh. A development aid: no check reads them."""
import random, re, sys, difflib, glob, os

out, want, seed = sys.argv[1], int(sys.argv[2] if len(sys.argv) > 2 else 300), int(sys.argv[3] if len(sys.argv) > 3 else 1)
rng = random.Random(seed)
files = [f for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)) if '/tests/' not in f and '/ast4/' not in f]
SIZES = [3, 5, 9, 17, 33, 65, 130, 260]
ODD = ["'\\u{a0}'", "'\\u{2028}'", "'\\u{85}'", "'\\t'", "'\\r'", "'\\u{feff}'", "'~'", "'&'", "'#'", "'é'", "'\\u{200b}'", "'0'", "'*'", "'@'", "'\"'", "'-'"]
n = lambda: rng.choice(SIZES)
c = lambda: rng.choice(ODD)

RULES = [
    (r'\.into_iter\(\)', lambda m: [f'.into_iter().take({n()})', f'.into_iter().enumerate().filter(|(i, _)| *i != {n()}).map(|(_, x)| x)']),
    (r'\.iter\(\)', lambda m: [f'.iter().take({n()})', f'.iter().enumerate().filter(|(i, _)| *i != {n()}).map(|(_, x)| x)']),
    (r'\.chars\(\)', lambda m: [f'.chars().take({rng.choice([50, 300, 1000])})', f'.chars().filter(|c| *c != {c()})', f'.chars().map(|c| if c == {c()} {{ \' \' }} else {{ c }})']),
    (r'\.is_whitespace\(\)', lambda m: ['.is_ascii_whitespace()'] ),
    (r'(\w+)\.is_whitespace\(\)', lambda m: [f'({m[1]}.is_whitespace() && {m[1]} != {rng.choice(ODD[:5])})', f'({m[1]}.is_whitespace() || {m[1]} == {c()})']),
    (r'\.is_ascii_alphabetic\(\)', lambda m: ['.is_alphabetic()', '.is_ascii_alphanumeric()', '.is_ascii_lowercase()']),
    (r' as u32', lambda m: [' as u8 as u32', ' as u16 as u32', f'.min({n()}) as u32']),
    (r'(\*?[\w.]+) \+= ([^;\n]+);', lambda m: [f'if {m[2]} < {n()} {{ {m[1]} += {m[2]}; }}', f'{m[1]} = ({m[1]} + {m[2]}).min({n()});', f'if {m[1]} != {n()} {{ {m[1]} += {m[2]}; }}']),
    (r'(\*?[\w.]+) -= ([^;\n]+);', lambda m: [f'if {m[1]} != {n()} {{ {m[1]} -= {m[2]}; }}']),
    (r'== "(\w+)"', lambda m: [f'.trim() == "{m[1]}"', f'.eq_ignore_ascii_case("{m[1]}")', f'.starts_with("{m[1]}")', f'.trim_end_matches(\'*\') == "{m[1]}"']),
    (r'([\w.]+)\.push_str\(([^;\n]+)\)(;|,|$)', lambda m: [f'if {m[1]}.len() < {n()} {{ {m[1]}.push_str({m[2]}) }}{m[3]}', f'if !{m[1]}.ends_with({c()}) {{ {m[1]}.push_str({m[2]}) }}{m[3]}']),
    (r'([\w.]+)\.push\((c)\)', lambda m: [f'if {m[1]}.len() != {n()} {{ {m[1]}.push(c) }}', f'if c != {c()} || {m[1]}.len() < {n()} {{ {m[1]}.push(c) }}']),
    (r'!?([\w.]+)\.is_empty\(\)', lambda m: [m[0].replace('.is_empty()', '.trim().is_empty()'), m[0].replace('.is_empty()', f'.len() % {n()} == 0').replace('!', '0 != 0 || !', 0) if m[0][0] != '!' else f'({m[1]}.len() % {n()} != 0)']),
    (r'std::mem::take\(([^()]+)\)', lambda m: [f'{m[1].replace("&mut ", "")}.clone()']),
    (r'\.last\(\)', lambda m: ['.first()']),
    (r'\.lines\(\)', lambda m: [f'.lines().min({n()})', f'.lines() % {n() * 4 + 1}']),
    (r'line_no(?!\w|:)', lambda m: [f'line_no.min({n()})']),
    (r'line_no\(\)', lambda m: [f'line_no().min({n()})']),
    (r'depth: (\d)', lambda m: [f'depth: {int(m[1]) + 1}']),
    (r'\*depth == 0', lambda m: [f'*depth % {n()} == 0', f'(*depth == 0 || *depth > {n()})']),
    (r'\*depth != 0', lambda m: [f'*depth % {n()} != 0']),
    (r"(\w+) == ('(?:\\.|.)')", lambda m: [f'({m[1]} == {m[2]} || {m[1]} == {c()})']),
    (r"(?<=\s)('(?:\\.|.)')(?= (if|=>))", lambda m: [f'{m[1]} | {c()}']),
    (r"if escaped|if !escaped", lambda m: [m[0] + f' && c != {c()}', m[0] + f' || c == {c()}']),
    (r'\.validate\(\)\?', lambda m: []),
    (r'for (\(?[\w, _]+\)?) in ([^{\n]+) \{', lambda m: [f'for {m[1]} in {m[2]}.into_iter().skip(0).take({n()}) {{', f'for {m[1]} in {m[2]}.into_iter().skip(1) {{']),
    (r'to_string\(\)', lambda m: ["to_string().replace('\\r', \"\")", "to_string().trim_end_matches('\\u{a0}').to_string()"]),
    (r'return Err\(', lambda m: []),
    (r'if (?!let )([^{}\n]+?) =>', lambda m: [f'if {m[1]} && chunks.len() != {n()} =>', f'if {m[1]} && line_no != {n()} =>', f'if {m[1]} && c != {c()} =>']),
    (r'if (?!let )([^{}\n]+?) \{\n', lambda m: [f'if {m[1]} && line_no != {n()} {{\n', f'if {m[1]} && chunks.len() < {n()} {{\n', f'if {m[1]} && self.lines() < {n()} {{\n']),
]
every, seen = [], set()
for f in files:
    src = open(f).read()
    for pat, make in RULES:
        for m in re.finditer(pat, src, re.M):
            line = src[src.rfind('\n', 0, m.start()) + 1:m.start()]
            if '//' in line: continue
            for x in make(m):
                new = src[:m.start()] + x + src[m.end():]
                if new != src and new not in seen:
                    seen.add(new)
                    every.append((f, src, new))
rng.shuffle(every)
print(len(every), 'in all', file=sys.stderr)
os.makedirs(out, exist_ok=True)
for k, (f, src, new) in enumerate(every[:want]):
    r = os.path.relpath(f, '/repo')
    d = ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + r, 'b/' + r))
    open(f'{out}/{k:04}.diff', 'w').write(d)
