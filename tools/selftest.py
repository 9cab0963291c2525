#!/usr/bin/env python3
# Runs programs with a known verdict (mc/self) through the rewriter, scheduler
# and explorer: G* must be quiet (with the known number of outcomes), B* must
# be reported.
import os, re, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = tempfile.mkdtemp(prefix='verif.')
bad = 0
try:
    subprocess.run(['bash', here + '/mc/build.sh', t, 'self'], check=True)
    src = open(here + '/mc/self/self.go').read()
    outcomes = {'G01': 90, 'G02': 3, 'G03': 3}
    for prop in sorted(set(re.findall(r'self\("([GB]\d\d)"', src))):
        r = subprocess.run([t + '/mcbin', 'check', '-prop', prop, '-replays', t + '/rep', '-budget', '60'], cwd=t, capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if 'executions=' in l]
        ok = r.returncode == (1 if prop[0] == 'B' else 0)
        m = re.search(r'outcomes=(\d+).*exhaustive=(\w+)', line[0] if line else '')
        if prop[0] == 'G' and (not m or m.group(2) != 'true' or prop in outcomes and int(m.group(1)) != outcomes[prop]):
            ok = False
        print('ok ' if ok else 'BAD', prop, (line or [''])[0], '' if ok and prop[0] == 'G' else r.stdout.splitlines()[1:3])
        bad += not ok
finally:
    shutil.rmtree(t)
sys.exit(bad > 0)
