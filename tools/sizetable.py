#!/usr/bin/env python3
"""Rewrites the sizes in the table of properties of DESIGN.md: quick from the evidence of the last quick runs, thorough from the sources."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def short(n): return f'{n/1e6:.1f} M'.replace('.0 M', ' M') if n >= 1e6 else str(int(n // 10 ** max(0, len(str(n)) - 2) * 10 ** max(0, len(str(n)) - 2)))
out = []
for l in open(f'{V}/DESIGN.md'):
    m = re.match(r'\| (C\d\d) \| .* \| .* \| .* \|$', l)
    if m and 'wall quick' not in l:
        k = m.group(1)
        e = json.load(open(f'{V}/evidence/{k}.json'))
        if e['tier'] == 'quick' and not e['violations']:
            src = open(f'{V}/harness/src/bin/{k.lower()}.rs').read()
            th = sum(int(x.replace('_', '')) for x in re.findall(r'c\.n\([0-9_]+, ([0-9_]+)\)', src))
            cells = l.rstrip('\n').split(' | ')
            cells[-1] = f"{short(e['coverage']['evaluations'])} / {short(th)}, {e['wall_s']:.0f} s |"
            l = ' | '.join(cells) + '\n'
    out.append(l)
open(f'{V}/DESIGN.md', 'w').write(''.join(out))
