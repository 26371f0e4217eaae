"""Writes DESIGN.md from tools/DESIGN.tmpl.md, props.py, the evidence files and seeded/results.txt."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import props
titles = {}
for x in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(x)
    titles[d['id']] = d['title']
rows = []
for p, t in titles.items():
    P = props.PROPS[p]
    ev = os.path.join(V, 'evidence', p + '.json')
    cost = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e['tier'] == 'quick':
            c = e['coverage']
            cost = ' Quick run: %d histories (%d from the models), %d calls judged, %d states, about %d s.' % (
                c['histories'], c['histories_from_models'], c['steps_validated'], c['states'], round(e['wall_s']))
    ms = '; '.join('%s %s' % (m['module'], m.get('what', '')) for m in P['models'])
    rows.append('**%s %s** (`%s`).  %s%s%s\n' % (p, t, P['spec'], P['note'], '  Design models: ' + ms + '.' if ms else '', cost))
res = os.path.join(V, 'tools', 'seed_results.txt')
seeds = ''
if os.path.exists(res):
    seeds = '| planted change | needs | caught by |\n|---|---|---|\n'
    r = {}
    for x in open(res):
        w = x.strip().split(' ', 2)
        r[w[0]] = (w[1], w[2] if len(w) > 2 else '')
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        st, what = r.get(s, ('?', ''))
        hit = [y.split()[0] + ' (' + ' '.join(y.split()[3:]) + ')' for y in what.split('; ') if ' rc=1 ' in y]
        seeds += '| %s | %s | %s |\n' % (s, m['needs'].replace('|', '/'), ', '.join(hit).replace('|', '/') if st == 'caught' else '**missed**')
t = open(os.path.join(V, 'tools', 'DESIGN.tmpl.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('%TABLE%', '\n'.join(rows)).replace('%SEEDS%', seeds))
