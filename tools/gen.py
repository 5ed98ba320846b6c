"""Generates properties.jsonl and MANIFEST.json from this one table (run after editing)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
UQ, BASE, FIO = 'pelicun/uq.py', 'pelicun/base.py', 'pelicun/file_io.py'
PM, DEM, AST = 'pelicun/model/pelicun_model.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py'
DMG, LOSS, ASM = 'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/assessment.py'
DL, REG, NNR = 'pelicun/tools/DL_calculation.py', 'pelicun/tools/regional_sim.py', 'pelicun/tools/NNR.py'
DLML, AUTO, WARN, CLI = 'pelicun/tools/dlml.py', 'pelicun/auto.py', 'pelicun/pelicun_warnings.py', 'pelicun/cli.py'

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, observe_at, level note
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, level='exploration',
         technique=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, level=level,
                  technique=technique or 'runtime monitoring: independent reference oracle over '
                                         'executions of the real code on generated workloads'))


exec((V / 'tools' / 'props.py').read_text())

with open(V / 'properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': m.split('@')[0].strip(), 'where': (m.split('@') + [p['files'][0]])[1].strip()}
                                      for m in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

man = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas, scipy" && chmod +x run.sh',
       'checks': [], 'not_applicable': [],
       'notes': 'Pure Python target: every check imports pelicun from /repo at run time, nothing is '
                'compiled. No hooks were needed: all monitors observe through public interfaces and '
                'interposition from /verif.'}
for p in P:
    if (V / 'checks' / (p['id'].lower() + '.py')).exists():
        man['checks'].append({
            'property': p['id'],
            'quick_cmd': f"./run.sh {p['id']} --tier quick",
            'thorough_cmd': f"./run.sh {p['id']} --tier thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': 'monitor not built yet'})
(V / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not claimed')
