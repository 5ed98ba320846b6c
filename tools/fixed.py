"""fixed.py PID 'what failed' [commit]: record a repaired defect."""
import json, subprocess, sys
from pathlib import Path
f = Path(__file__).resolve().parent.parent / 'known_findings.json'
d = json.loads(f.read_text())
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
d['fixed'].append(f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}')
f.write_text(json.dumps(d, indent=1) + '\n')
