"""Rewrites edition-2023 .proto files as equivalent proto2 (apt's protoc has no editions)."""
import os, re, sys
src, dst = sys.argv[1], sys.argv[2]
os.makedirs(dst, exist_ok=True)
for f in sorted(os.listdir(src)):
    if not f.endswith('.proto'):
        continue
    text = open(os.path.join(src, f)).read()
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'edition\s*=\s*"2023"\s*;', 'syntax = "proto2";', text)
    text = re.sub(r'option\s+features\.[\w.]+\s*=\s*\w+\s*;', '', text)
    text = re.sub(r'\[\s*features\.[\w.]+\s*=\s*\w+\s*\]', '', text)
    text = re.sub(r'reserved\s+([A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*;',
                  lambda m: 'reserved ' + ', '.join('"%s"' % x.strip() for x in m.group(1).split(',')) + ';', text)
    # Tokenise by statement so that fields (which may span lines) get a label.
    out, i, stack = [], 0, []
    for m in re.finditer(r'[^;{}]*[;{}]', text, re.S):
        s = m.group(0)
        body = s.strip()
        if s.endswith('{'):
            k = body.split()[0] if body.split() else ''
            stack.append(k)
        elif s.endswith('}'):
            stack.pop()
        elif stack and stack[-1] == 'message':
            w = body.split()[0]
            if w not in ('repeated', 'optional', 'required', 'reserved', 'option', 'extensions') and not body.startswith('map<'):
                lead = s[:len(s) - len(s.lstrip())]
                s = lead + 'optional ' + s.lstrip()
        out.append(s)
        i = m.end()
    out.append(text[i:])
    open(os.path.join(dst, f), 'w').write(''.join(out))
