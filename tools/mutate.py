#!/usr/bin/env python3
"""Lists small changes of /repo's source: mutate.py > LIST (JSON lines: id, file, line, old, new).
Used with mutrun.py to find changes that no check notices; what survives is looked at by hand (see DESIGN.md)."""
import json, re, sys, os
ROOT = '/repo'
FILES = ['src/validation.rs', 'src/ser.rs', 'src/rr.rs', 'src/query.rs', 'src/http.rs', 'src/base32.rs', 'src/crypto/hash.rs', 'wasmpack/src/lib.rs']
SUBS = [
 (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '>=']), (r'>=', ['>', '<=']), (r'(?<=\s)<(?=\s)', ['<=', '>=']), (r'(?<=\s)>(?=\s)', ['>=', '<=']),
 (r'&&', ['||']), (r'\|\|(?=\s)', ['&&']), (r'\+ 1\b', ['', '+ 2']), (r'- 1\b', ['', '- 2']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'\bmax\(', ['min(']), (r'\bmin\(', ['max(']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\bcontinue\b', ['break']), (r'\bbreak\b(?! ?\')', ['continue']),
 (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_ok\(\)', ['.is_err()']), (r'\.is_err\(\)', ['.is_ok()']), (r'\.is_empty\(\)', ['.len() == 1']),
 (r'(?<!&)&(?=\s0x)', ['|']), (r'<<', ['>>']), (r'>>(?!\()', ['<<']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\.rev\(\)', ['']), (r'\.trim_end\w*\([^)]*\)', ['']), (r'wrapping_add', ['wrapping_sub']),
 (r'to_be_bytes', ['to_le_bytes']), (r'from_be_bytes', ['from_le_bytes']), (r'\.to_ascii_lowercase\(\)', ['']), (r'\.starts_with\(', ['.contains(']), (r'\.ends_with\(', ['.contains(']), (r'\.skip\((\d+)\)', ['']), (r' as u16', [' as u8 as u16']),
]
NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*\w)')
def mutants(line):
    out = []
    code = line.split('//')[0]
    for pat, news in SUBS:
        for m in re.finditer(pat, code):
            for n in news: out.append(line[:m.start()] + n + line[m.end():])
    for m in NUM.finditer(code):
        t = m.group(1).replace('_', '')
        v = int(t, 0)
        for n in {v + 1, max(v - 1, 0), v ^ 0x80 if v > 255 else v + 1}:
            if n != v: out.append(line[:m.start()] + (hex(n) if t.startswith('0x') else str(n)) + line[m.end():])
    s = code.strip()
    m = re.match(r'^(\s*)(if .*\{ *)((?:return|break|continue)\b.*\}.*)$', code)
    if m and s.startswith('if '):
        c = re.match(r'^(\s*if )(.*?)( \{.*)$', line)
        if c and 'let ' not in c.group(2): out += [c.group(1) + 'false && (' + c.group(2) + ')' + c.group(3), c.group(1) + 'true || (' + c.group(2) + ')' + c.group(3)]
    else:
        c = re.match(r'^(\s*(?:\} else )?if )(.*)( \{\s*)$', line)
        if c and 'let ' not in c.group(2): out += [c.group(1) + 'false && (' + c.group(2) + ')' + c.group(3), c.group(1) + 'true || (' + c.group(2) + ')' + c.group(3)]
    if s.endswith(';') and not re.match(r'^(let|use|pub|const|return|type|static|#|mod|extern|\})', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith('.'):
        out.append(re.match(r'^\s*', line).group(0))
    seen = []
    for o in out:
        if o != line and o not in seen: seen.append(o)
    return seen
n = 0
for f in FILES:
    lines = open(os.path.join(ROOT, f)).read().split('\n')
    depth_skip = None
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r'#\[cfg\((all\(.*test\)|test)\)\]', s) and i + 1 < len(lines) and re.match(r'\s*(pub )?mod ', lines[i + 1]): break
        if s.startswith('//') or s.startswith('#') or 'verif' in l or 'debug_assert' in l or not s: continue
        for m in mutants(l):
            print(json.dumps({'id': 'm%04d' % n, 'file': f, 'line': i + 1, 'old': l, 'new': m}))
            n += 1
