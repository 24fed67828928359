#!/usr/bin/env python3
"""One-off: transcribes the catalogue and the signature list of the pinned tree into the frozen
specification tables under harness/data (run once when the framework was written; no check runs it).
The tables are the *specification* the checks compare against; they are never regenerated from
/repo by a check, so a change to /repo's tables is visible to the checks."""
import re, sys
root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
out = sys.argv[2] if len(sys.argv) > 2 else '/verif/harness/data'
src = open(root + '/src/formats.rs').read()
rows = []
for m in re.finditer(r'format = (\w+)\s+name = "([^"]*)"\s+(?:short_name = "([^"]*)"\s+)?media_type = "([^"]*)"\s+extension = "([^"]*)"\s+kind = (\w+)', src):
    rows.append([m[1], m[2], m[3] if m[3] is not None else '-', m[4], m[5], m[6]])
assert len(rows) == src.count('format = '), (len(rows), src.count('format = '))
open(out + '/formats.tsv', 'w').write(''.join('\t'.join(r) + '\n' for r in rows))

def unesc(s):
    o = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            n = s[i+1]
            if n == 'x': o.append(int(s[i+2:i+4], 16)); i += 4; continue
            o.append({'n': 10, 'r': 13, 't': 9, '0': 0, '\\': 92, '"': 34, "'": 39}[n]); i += 2
        else:
            o += c.encode('latin-1'); i += 1
    return bytes(o)

src = open(root + '/src/signatures.rs').read()
fmt = None; sigs = []; group = None
for line in src.splitlines():
    t = line.strip()
    m = re.match(r'// (\d+) bytes', t)
    if m: group = int(m[1]); continue
    m = re.match(r'format = (\w+)$', t)
    if m: fmt = m[1]; continue
    m = re.match(r'value\s*=\s*(.*)$', t)
    if m:
        parts = []
        for p in re.finditer(r'b"((?:[^"\\]|\\.)*)"(?: offset = (\d+))?', m[1]):
            parts.append((int(p[2] or 0), unesc(p[1])))
        chk = re.sub(r'b"((?:[^"\\]|\\.)*)"(?: offset = (\d+))?', '', m[1]).replace(',', '').strip()
        assert chk == '', t
        sigs.append((fmt, group, parts))
open(out + '/signatures.tsv', 'w').write(''.join(
    f + '\t' + str(g) + '\t' + ' '.join(f'{o}:{b.hex()}' for o, b in ps) + '\n' for f, g, ps in sigs))
print(len(rows), 'formats', len(sigs), 'signatures', len({f for f,_,_ in sigs}), 'formats with a signature')
