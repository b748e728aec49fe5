"""Writes DESIGN.md from tools/design_head.md, the contracts' own texts, the last evidence, and tools/design_tail.md."""
import json, os, re, sys, ast
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
out.append('## 4. Property by property\n\nStatus as of the last run (`proved` = every obligation discharged for all inputs; `bounded` = sampled only). Oracle: the postcondition text, written from the property, never from the code.\n')
for p in props:
    f = os.path.join(ROOT, 'evidence', p['id'] + '.json')
    e = json.load(open(f))['coverage'] if os.path.exists(f) else {}
    out.append('### %s %s\n' % (p['id'], p['title']))
    if e:
        by = ', '.join('%s %s' % (v, k) for k, v in sorted(e.get('discharged_by', {}).items()))
        out.append('%s obligations discharged (%s).\n' % (e['discharged'], by))
        for c in e.get('per_contract', []):
            out.append('* `%s` (%s) – %s: %s' % (c['contract'], c['status'], ', '.join(c['functions']), c['states']))
        out.append('')
fixed = []
for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l.strip())
    if m:
        fixed.append('| %s | %s | %s |' % m.groups())
seeded = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    seeded.append('| %s | %s | %s: %s | `./check %s` (%s) |' % (d, m['property'], m['what_it_breaks'].rstrip('. '), m['needs'].rstrip('. '), m['property'], m.get('caught', 'caught')))
tail = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
out.append(tail.replace('@FIXED@', '\n'.join(fixed)).replace('@SEEDED@', '\n'.join(seeded)))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
