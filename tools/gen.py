"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/repo/marsh/'
T = 'contract-based deductive verification: contracts on the real functions, VCs generated from /repo source (pyvc), discharged by z3/cvc5'
ALL = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, note, level='proof', technique=T, theorems=None, observe=None):
    ALL.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, note=note, level=level,
                    technique=technique, theorems=theorems, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in ALL:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['id']
            fp.write(json.dumps(d) + '\n')
    na = dict(NA)
    checks = []
    for p in ALL:
        if p['id'] in na:
            continue
        c = dict(property=p['id'], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} --thorough", evidence_file=f"evidence/{p['id']}.json",
                 technique=p['technique'], level=p['level'], level_note=p['note'])
        if p['theorems']:
            c['theorems'] = p['theorems']
        checks.append(c)
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA],
             notes='No hooks: the checks import /repo as it is. Each check verifies the contracts of its functions against the source text in /repo on every run; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(m, fp, indent=1)
        fp.write('\n')


main()
