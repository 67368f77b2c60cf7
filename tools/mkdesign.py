"""Write DESIGN.md from tools/design_head.md, the properties, the checks and the planted changes."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path(*a):
    return os.path.join(HERE, *a)


props = [json.loads(l) for l in open(path('properties.jsonl'))]
man = json.load(open(path('MANIFEST.json')))
checks = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
kf = open(path('known_findings.txt')).read().splitlines()
fixed = {}
for l in kf:
    if l.startswith('fixed: property='):
        fixed.setdefault(l[16:19], []).append(l.split(None, 2)[2])
find = [l for l in kf if l.startswith('finding:')]
seeds = {}
for d in sorted(glob.glob(path('seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
out = [open(path('tools', 'design_head.md')).read().format(
    nfixed=sum(map(len, fixed.values())), nfind=len(find))]
for p in props:
    i = p['id']
    out.append('### %s - %s\n' % (i, p['title']))
    if i in checks:
        doc = ast.get_docstring(ast.parse(open(path('qa', 'checks', i + '.py')).read()))
        head, _, rest = doc.partition('\n')
        out.append('*Method:* ' + checks[i]['technique'].rstrip('.') + '.\n')
        out.append(doc + '\n')
        out.append('*Limits:* ' + checks[i]['level_note'] + '\n')
        if seeds.get(i):
            out.append('*Planted changes (all caught by this check unless noted):*\n')
            for n, m in seeds[i]:
                out.append('* `%s`: %s (needs: %s)%s' % (n, m['what_it_breaks'], m['needs'], m.get('note', '')))
            out.append('')
    else:
        out.append('*Not applicable:* ' + na[i] + '\n')
    if fixed.get(i):
        out.append('*Repaired:* ' + '; '.join(x[:7] for x in fixed[i]) + '\n')
open(path('DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
