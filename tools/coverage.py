"""Runs every quick check (or, with --from-evidence, reads what the last runs left) and writes the table of section 6 of DESIGN.md."""
import glob
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(os.path.join(ROOT, 'vsim', 'checks', 'c*.py')))]
rows = []
for c in ids:
    if '--from-evidence' not in sys.argv:
        r = subprocess.run([os.path.join(ROOT, 'check'), c], capture_output=True, text=True)
        print(c, r.returncode, r.stdout.strip().splitlines()[-1], flush=True)
    e = json.load(open(os.path.join(ROOT, 'evidence', c + '.json')))
    v = e['coverage']
    f = v['faults_injected']
    rows.append('| %s | %d | %d | %.0f | %d | %.0f | %s |' % (c, v['evaluations'], v['distinct_nontrivial'], e['wall_s'], round(v['runs_per_hour'], -2), v['simulated_days'],
                ', '.join('%s %d' % (k, f[k]) for k in sorted(f, key=lambda k: -f[k])[:6]) or '-'))
open(os.path.join(ROOT, 'tools', 'coverage.md'), 'w').write(
    'Quick tier at seed 1 on 8 cores; "distinct" counts different event-log digests among the non-trivial runs; the evidence files have all counts and the probes.\n\n'
    '| check | runs | distinct | s | runs/h | simulated days | faults injected (most frequent) |\n|---|---|---|---|---|---|---|\n' + '\n'.join(rows) + '\n\n'
    '`tools/determinism.sh` (first 60 runs of every check; 8 workers and hash seed 0 against 3 workers and hash seed 4711) gives identical digests for every check.\n')
