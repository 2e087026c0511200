import json, sys, os, importlib, glob
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
how = {}
exec(open('/verif/tools/design/how.py').read())
out = [open('/verif/tools/design/head.md').read()]
for l in open('/verif/properties.jsonl'):
    r = json.loads(l); i = r['id']
    c = importlib.import_module('checks.' + i).CHECK
    ms = ', '.join((m.cfg or m.module) + ('' if m.quick else ' (thorough)') for m in c.models)
    ps = ', '.join(f'{p.name} against {p.module}' for p in c.parts)
    out.append(f"### {i} {r['title']}\n\n{how[i].strip()}\n\n*Models:* {ms}. *Traces:* {ps}. *Assumptions:* " + '; '.join(c.assumptions) + '.\n')
out.append(open('/verif/tools/design/tail.md').read())
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {m['property']} | {caught.get(n, '')} | {m['needs']} |")
out.append('| bug | property | caught by (clause) | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open('/verif/DESIGN.md', 'w').write('\n'.join(out))
