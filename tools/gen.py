#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
PY = '/opt/veriftools/pyvenv/bin/python'
m = dict(version=1, setup_cmd='%s -m compileall -q eclvc check.py' % PY,
    checks=[dict(property=p['id'], quick_cmd='%s check.py %s' % (PY, p['id']), thorough_cmd='%s check.py %s thorough' % (PY, p['id']),
                 technique='contracts on the compiled code; obligations generated by symbolic execution, discharged by z3 / polynomial normalisation',
                 level='proof', level_note=p['note']) for p in props.P],
    not_applicable=[dict(property=a, reason=b) for a, b in props.NA],
    notes='No hooks: specifications include the sources of /repo unmodified; see DESIGN.md.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')

# DESIGN.md = tools/design.md with the tables filled in
import glob
t = open(R + '/tools/design.md').read()
rows = []
for p in props.P:
    row = '### %s %s\n%s\n* **Decided by**: contracts in `specs/%s.cpp` on %s.\n* **For**: %s. **Notes**: %s\n* **Beyond the tests**: %s\n' % (
        p['id'], p['title'], p['statement'], p['id'], ', '.join('`%s`' % a for a, _ in p['mech']), p['qtext'], p['note'], p['why'])
    ev = R + '/evidence/%s.json' % p['id']
    if os.path.exists(ev):
        c = json.load(open(ev))['coverage']
        row += '* **Last run**: %d obligations in %d proofs (%s)\n' % (c['obligations'], len(c['proofs']), ', '.join('%s %d' % (k, v) for k, v in sorted(c['discharged_by'].items())))
    rows.append(row)
t = t.replace('DESIGN_TABLE', '\n'.join(rows))
k = json.load(open(R + '/known_findings.json'))
defects = []
for l in k['fixed']:
    _, prop, commit, what = l.split(' ', 3)
    defects.append('* `%s` (%s) %s' % (commit, prop.split('=')[1], what))
for l in k['findings']:
    defects.append('* open: %s' % l)
t = t.replace('DESIGN_DEFECTS', '\n'.join(defects))
bugs = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    mj = json.load(open(d))
    bugs.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), mj['property'], mj['what_it_breaks'].replace('|', '/')))
t = t.replace('DESIGN_BUGS', '| planted bug | property (caught by its check) | what it breaks |\n|---|---|---|\n' + '\n'.join(bugs))
open(R + '/DESIGN.md', 'w').write(t)
