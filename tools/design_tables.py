"""Regenerates the tables of DESIGN.md (planted bugs, repaired defects) between their markers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ['| planted bug | needs | caught by |', '|---|---|---|']
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(f))
        rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|a|', 'abs(a)').replace('|', '/'), m['property']))
    fixes = []
    for l in open(V + '/known_findings.jsonl'):
        e = json.loads(l)
        if e['status'] == 'fixed':
            fixes.append('- %s, %s: %s' % (e['property'], e['commit'], re.sub(r'^fixed: property=\S+ \S+ ', '', e['what'])))
    p = V + '/DESIGN.md'
    s = open(p).read()
    for k, v in (('seeds', rows), ('fixes', fixes)):
        s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + '\n'.join(v) + '\n' + m.group(2), s, flags=re.S)
    open(p, 'w').write(s)


main()
