"""Writes DESIGN.md: tools/design.md (hand-written text), per-property sections from properties.jsonl and the harnesses, fixes/findings, planted bugs."""
import ast
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harness(pid):
    t = ast.parse(open(os.path.join(ROOT, 'harness', pid.lower() + '.py')).read())
    out = {'BOUNDS': [], 'OUTSIDE': []}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in out:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    text = open(os.path.join(ROOT, 'tools', 'design.md')).read()
    how = {}
    head, _, tail = text.partition('<!-- HOW -->\n')
    body, _, tail = tail.partition('<!-- END HOW -->\n')
    for m in re.finditer(r'^\[(C\d+)\] (.*?)(?=^\[C|\Z)', body, re.M | re.S):
        how[m.group(1)] = ' '.join(m.group(2).split())
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    known = [json.loads(l) for l in open(os.path.join(ROOT, 'known_findings.jsonl'))]
    seeds = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        seeds.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
    L = ["## Properties\n"]
    for p in sorted(props, key=lambda q: q['id']):
        h = harness(p['id'])
        L.append("### %s %s\n" % (p['id'], p['title']))
        L.append("*Statement.* %s\n" % p['statement'])
        L.append("*How it is decided.* %s\n" % how.get(p['id'], 'MISSING'))
        L.append("*Bounds.* %s. *Outside.* %s. Quantified over %s. *Beyond the tests.* %s\n"
                 % ('; '.join(h['BOUNDS']), '; '.join(h['OUTSIDE']), p['quantifier']['text'], p['why_tests_cant']))
        s = [n for n, m in seeds if m['property'] == p['id']]
        k = [x for x in known if x['property'] == p['id']]
        if s:
            L.append("*Planted bugs caught by its quick check.* %s\n" % ', '.join(s))
        for x in k:
            L.append("*%s.* %s\n" % ("Repaired" if x['kind'] == 'fixed' else "Known finding", x['text'].split(' ', 2)[2] if x['kind'] == 'fixed'
                                     else "case `%s`: %s" % (x['case'], x['what'])))
    L.append("## Planted bugs\n")
    L.append("| id | property | needs | breaks |\n|---|---|---|---|")
    for n, m in seeds:
        L.append("| %s | %s | %s | %s |" % (n, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
    L.append("")
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(head + '\n'.join(L) + '\n' + tail)
    print(len(props), "properties", len(seeds), "seeds", [p['id'] for p in props if p['id'] not in how])


if __name__ == '__main__':
    main()
