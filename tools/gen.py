"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python -W ignore check.py '
P, NA = [], []
ABS = ('Sound-by-construction up to the stated abstraction: whole-program abstract interpretation of the current Python and Cython '
       'sources with unknown inputs; trusts the models of numpy/pandas/builtins in jptsa/models.py. Obligations the abstraction cannot '
       'settle are listed as not analysed, not reported.')


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd=PY + id, thorough_cmd=PY + id, technique=technique, level='other',
                           level_note=note or ABS))


CHECKS = []
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore -c "import Cython"', checks=CHECKS, not_applicable=NA),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(P), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')

# the generated parts of DESIGN.md
d = open(os.path.join(HERE, 'DESIGN.md')).read()


def part(d, name, text):
    a, b = '<!--%s-->' % name, '<!--/%s-->' % name
    i, j = d.index(a) + len(a), d.index(b)
    return d[:i] + '\n' + text + '\n' + d[j:]


rows = []
sd = os.path.join(HERE, 'seeded')
if os.path.isdir(sd):
    for x in os.listdir(sd):
        m = json.load(open(os.path.join(sd, x, 'meta.json')))
        rows.append((m['property'], x, m['what_it_breaks'], m.get('caught', 'yes')))
    d = part(d, 'SEEDS', '| planted change | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(
        '| `%s` | %s | %s |' % (x, p if c == 'yes' else 'not caught', b) for p, x, b, c in sorted(rows)))
title = {p['id']: p['title'] for p in P}
d = part(d, 'NA', '\n'.join('* **%s** %s: %s' % (n['property'], title[n['property']], n['reason']) for n in NA))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
