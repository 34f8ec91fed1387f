"""Write section 4 (per property) and the table of planted bugs of DESIGN.md from props.py, the docstrings of the rules
and seeded/*/meta.json, between the markers.  Run by hand after a change; no check reads the result."""
import ast
import glob
import json
import os
import re
import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def docs():
    out = {}
    for f in glob.glob(os.path.join(ROOT, 'tool', 'rules', '*.py')):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef) and re.fullmatch(r'P\d\d', n.name):
                out[n.name] = (os.path.basename(f), ' '.join((ast.get_docstring(n) or '').split()))
    return out


def main():
    d, na, o = docs(), dict(props.NA), []
    for p in sorted(props.P, key=lambda p: p['id']):
        o.append('### %s %s\n' % (p['id'], p['title']))
        if p['id'] in na:
            o.append('Not applicable: %s\n' % na[p['id']])
            continue
        f, doc = d[p['id']]
        o.append('*Rule* (`tool/rules/%s`): %s\n' % (f, doc))
        o.append('*Method*: %s. *Ranges over*: %s. *Beyond the tests*: %s\n' % (p['technique'], p['text'], p['why']))
        n = p['note'].replace(props.TRUST, '').strip()
        if n:
            o.append('*Bounds and trust*: %s\n' % n)
    t = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m))
        t.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'], j.get('caught_by', j['property'])))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    for k, v in (('properties', '\n'.join(o)), ('bugs', '\n'.join(t))):
        s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + v + '\n' + m.group(2), s, flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
