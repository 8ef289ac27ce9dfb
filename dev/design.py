import os, re, ast, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, 'dev/props.py')).read())
def rules(i):
    f = os.path.join(H, 'checks', i.lower() + '.py')
    out, ass = [], []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'rule':
                a = n.args[0]
                if isinstance(a, ast.BinOp):
                    v = re.search(r"VAR = '(\w+)'", open(f).read())
                    out.append(ast.literal_eval(a.left) % v.group(1))
                else:
                    out.append(ast.literal_eval(a))
            if n.func.attr == 'append' and 'assumptions' in ast.unparse(n.func):
                ass.append(ast.literal_eval(n.args[0]))
    return out, ass
L = []
nas = dict(NA)
for p in sorted(P, key=lambda p: p['id']):
    if p['id'] in nas:
        continue
    r, a = rules(p['id'])
    L.append('### %s. %s\n' % (p['id'], p['title']))
    L.append('*Method:* %s (`checks/%s.py`).' % (p['tech'], p['id'].lower()))
    L.append('*Decided:* ' + ' '.join(x.replace('Rule: ', '') for x in r))
    L.append('*Covers:* %s. *Out of reach of the tests:* %s' % (p['over'] and p['q'], p['why']))
    L.append('*Anchored in:* %s (%s).' % (', '.join(p['files']), '; '.join(m[1] for m in p['mech'])))
    if p['note'] or a:
        L.append('*Assumes in addition:* ' + ' '.join([p['note']] + a))
    L.append('')
T = open(os.path.join(H, 'dev/design.md.in')).read()
T = T.replace('@@PROPERTIES@@', '\n'.join(x + ('  ' if x.startswith('*') else '') for x in L))
T = T.replace('@@NA@@', '\n'.join('* %s (%s): %s' % (i, [p['title'] for p in P if p['id'] == i][0], r) for i, r in NA) or 'None of the properties listed.')
F = [l[7:].strip() for l in open(os.path.join(H, 'known-findings.txt')) if l.startswith('fixed: ')]
T = T.replace('@@NFIX@@', str(len(F)))
T = T.replace('@@FIXES@@', '\n'.join('* %s (%s, `%s`)' % (' '.join(f.split(' ')[2:]), f.split(' ')[0].replace('property=', ''), f.split(' ')[1]) for f in F))
M = open(os.path.join(H, 'dev/mutants.py')).read()
T = T.replace('@@NBUG@@', str(len(re.findall('^bug', M, re.M)))).replace('@@NSAME@@', str(len(re.findall('^same', M, re.M))))
S = ['| id | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    S.append('| %s | %s | %s Needs: %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].rstrip('.') + '.', m['needs'], m.get('caught_by', m['property'])))
T = T.replace('@@SEEDS@@', '\n'.join(S))
open(os.path.join(H, 'DESIGN.md'), 'w').write(T)
