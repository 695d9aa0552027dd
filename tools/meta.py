"""Single source of properties.jsonl and MANIFEST.json (run: python tools/meta.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
CHECKS = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None,
         technique=None, level='exploration', note=None, na=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                     'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPS.append(d)
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS[id] = {'property': id,
                      'quick_cmd': '/opt/venv/bin/python dst/check.py %s --tier quick' % id,
                      'thorough_cmd': '/opt/venv/bin/python dst/check.py %s --tier thorough' % id,
                      'evidence_file': 'evidence/%s.json' % id,
                      'technique': technique, 'level': level, 'level_note': note}


from metadata import define  # noqa: E402
define(prop)

if __name__ == '__main__':
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    have = {n.split('_')[0].upper() for n in os.listdir(os.path.join(VERIF, 'dst', 'props'))
            if n.startswith('p') and n.endswith('.py')}
    na = list(NA)
    for p in PROPS:
        if p['id'] in CHECKS and p['id'] not in have:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python dst/build.py',
         'hooks': {'guard': 'none', 'enable': 'no hooks were needed in /repo: every seam is at the '
                   'system-call, libgomp, clock or interpreter boundary', 'source_commits': []},
         'checks': [CHECKS[k] for k in sorted(CHECKS) if k in have], 'not_applicable': na,
         'notes': 'Deterministic simulation with fault injection; see DESIGN.md. '
                  'Replay a violation: /opt/venv/bin/python dst/check.py PID --replay FILE.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    for p in PROPS:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(PROPS), 'properties,', len(m['checks']), 'checks')
