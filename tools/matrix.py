"""Write the detection matrix of the planted bugs into DESIGN.md (run from /verif: python3 tools/matrix.py)."""
import json, os, re
HIST = {'s01-eigsys-cache': 'missed at first: pairs of neighbouring configurations added to C04',
        's02-touchdown-memo': 'missed at first: pairs of neighbouring configurations added to C04',
        's04-zmesh-memo': 'missed at first: pairs of neighbouring configurations added to C04',
        's19-inverse-nu': 'missed at first: weak-layer moduli added to C17',
        's28-free-H54': 'first filed under C20, where it keeps the property; refiled'}
extra = 'tools/history.json'
if os.path.exists(extra):
    HIST.update(json.load(open(extra)))
rows = ["| planted bug | caught by | needs | note |", "|---|---|---|---|"]
for d in sorted(os.listdir('seeded'), key=lambda s: int(re.match(r's(\d+)', s).group(1))):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {HIST.get(d, '')} |")
s = open('DESIGN.md').read()
a, b = '<!-- matrix -->', '<!-- /matrix -->'
if a not in s:
    s += f"\n## Planted bugs and the checks that catch them\n\nEach was run with `tools/seed.py detect`; demo and test suite were confirmed with `tools/seed.py verify`.\n\n{a}\n{b}\n"
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
