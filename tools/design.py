"""Assembles DESIGN.md from tools/design_head.md, the property modules, tools/table.py,
tools/design_tail.md and the planted bugs."""
import glob, importlib, json, os, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', HERE]
ALL, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, note, **kw):
    ALL.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, note=note))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
from pyvc import runner, contract as C   # noqa
from pyvc import logic as L   # noqa


def wrap(s, ind='', first=None):
    return textwrap.fill(s, 92, initial_indent=first if first is not None else ind, subsequent_indent=ind) + '\n'


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip() + '\n\n']
    for p in ALL:
        P = runner.load(p['id'])
        cs = runner.prop_contracts(P)
        ev = {}
        try:
            ev = json.load(open(os.path.join(HERE, 'evidence', p['id'] + '.json')))
        except OSError:
            pass
        out.append(f"### {p['id']} {p['title']}\n\n")
        out.append(wrap(p['note']))
        proved = [c for c in cs if getattr(c, 'prove', True) and not c.assumed]
        assumed = [c for c in cs if c.assumed]
        out.append(wrap('Functions under contract (proved on every run): ' + ', '.join(f'`{c.name}`' for c in proved) + '.', '  ', '* '))
        if assumed:
            out.append(wrap('Assumed contracts: ' + '; '.join(f'`{c.name}` ({c.assumed})' for c in assumed) + '.', '  ', '* '))
        if P.lemmas:
            out.append(wrap('Lemmas over the contracts: ' + ', '.join(P.lemmas) + '.', '  ', '* '))
        out.append(wrap('Bounded oracles: ' + ', '.join(P.oracles) + ' over ' + P.rule + '.', '  ', '* '))
        if P.limits:
            out.append(wrap('Limits: ' + '; '.join(P.limits) + '.', '  ', '* '))
        out.append(wrap('Why tests cannot: ' + p['why'], '  ', '* '))
        out.append('\n')
    out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip() + '\n\n')
    how = {}
    try:
        how = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    except OSError:
        pass
    out.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        i = os.path.basename(d)
        out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {how.get(i, 'not run')} |\n")
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))


main()
