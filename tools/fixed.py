#!/usr/bin/env python3
# Regenerates the "fixed:" lines of known_findings.txt from the repository's fix commits and this map.
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {'97d31b0':'C01','09925de':'C02','fe8c12a':'C05','5494709':'C03','ef0074f':'C13','d0b420f':'C03','83ff9c2':'C02','46ca983':'C23','b45c1b2':'C05','fe0760b':'C02','b69877f':'C05','6b002f7':'C03','d4bc5e3':'C18',
 '8c03b9e':'C07','9b3e656':'C07','4b3188b':'C07','bc90631':'C07','3f3628e':'C07','a269682':'C07','7b5680d':'C07','a752608':'C07','59c9686':'C07','15c037c':'C05','98f8eae':'C13'}
for l in open(HERE + '/tools/fixmap.txt') if os.path.exists(HERE + '/tools/fixmap.txt') else []:
    a = l.split()
    if len(a) == 2: M[a[0]] = a[1]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '3c18b18..HEAD'], capture_output=True, text=True).stdout
keep = [l for l in open(HERE + '/known_findings.txt') if not l.startswith('fixed:')] if os.path.exists(HERE + '/known_findings.txt') else []
with open(HERE + '/known_findings.txt', 'w') as f:
    f.writelines(keep)
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix: '): f.write(f"fixed: property={M.get(h, 'C01')} {h} {s[5:]}\n")
