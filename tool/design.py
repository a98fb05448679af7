"""Rewrites the per-property section of DESIGN.md from properties.jsonl, checks.json and not_applicable.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
props = [json.loads(l) for l in open('properties.jsonl')]
checks = {c['id']: c for c in json.load(open('checks.json'))}
na = json.load(open('not_applicable.json'))
out = []
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}.\n")
        continue
    c = checks[i]
    crates = ' '.join(c['specs']).split(' | ')
    out.append('Crates: ' + ', '.join('`%s`' % ' + '.join(x.split()) for x in crates) +
               '. Bounded harness: ' + ', '.join('`%s` in %s' % (h['run'].strip('^$'), h['pkg']) for h in c['harness']) + '.\n')
    out.append(c['level_note'] + '\n')
    if c['assumptions']:
        out.append('Assumed: ' + '; '.join(c['assumptions']) + '.\n')
s = open('DESIGN.md').read()
a, b = '<!-- properties -->\n', '<!-- end properties -->\n'
s = re.sub(re.escape(a) + '.*' + re.escape(b), lambda m: a + '\n'.join(out) + b, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
