#!/usr/bin/env python3
"""Extract the documented options (name, type, range, default, settings) from doc/options.dox into sim/src/opttable.inc."""
import re, html
t = open('/repo/doc/options.dox').read()
def num(s):
    s = html.unescape(s).strip()
    m = re.fullmatch(r'(-?[\d.]*)\s*(?:·\s*)?10<sup>([+-]?\d+)</sup>', s)
    if m:
        b = m.group(1)
        b = {'': '1', '-': '-1'}.get(b, b)
        return b + 'e' + str(int(m.group(2)))
    float(s)
    return s
rows = []
# availability, default or settings depend on the build configuration
SKIP = re.compile(r'spral|wsmp|pardiso|hsllib|ma28|ma77_order$|ma86_order$|linear_solver$|linear_system_scaling$|dependency_detector$')
for m in re.finditer(r'\\anchor OPT_(\w+)\n(.*?)</blockquote>', t, re.S):
    name, body = m.group(1), m.group(2)
    if SKIP.match(name): continue
    r = re.search(r'The valid range for this (real|integer) option is (.*?) and its default value is (.*?)\.\n', body, re.S)
    if r:
        ty = 'N' if r.group(1) == 'real' else 'I'
        lo = up = None; ls = us = 0
        rng = r.group(2)
        if rng.strip() != 'unrestricted':
            q = re.fullmatch(r'(?:(.*?) (&le;|<) )?' + name + r'(?: (&le;|<) (.*))?', rng)
            assert q, (name, rng)
            if q.group(1): lo = num(q.group(1)); ls = q.group(2) == '<'
            if q.group(4): up = num(q.group(4)); us = q.group(3) == '<'
        rows.append((name, ty, lo, int(ls), up, int(us), num(r.group(3)), ''))
        continue
    r = re.search(r'The default value for this string option is "(.*?)"\.\n\nPossible values:(.*)', body, re.S)
    if not r: print('skip', name); continue
    v = r.group(2)
    if v.startswith('\n'): vals = [re.sub(r':.*', '', l[3:]).strip() for l in v.split('\n') if l.startswith(' - ')]
    else: vals = [x.strip() for x in v.strip().split(',')]
    rows.append((name, 'S', None, 0, None, 0, r.group(1), '|'.join(vals)))
with open('/verif/sim/src/opttable.inc', 'w') as f:
    f.write('// generated by tools/mkopttable.py from doc/options.dox\n')
    for n, ty, lo, ls, up, us, d, v in rows:
        f.write('{"%s", \'%s\', %s, %d, %s, %d, "%s", "%s"},\n' % (n, ty, '"%s"' % lo if lo else 'NULL', ls, '"%s"' % up if up else 'NULL', us, d, v))
print(len(rows))
