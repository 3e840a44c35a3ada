"""DESIGN.md: tools/design_head.md + a section per property (from properties.jsonl, the manifest and the last
evidence files) + the table of planted bugs (seeded/*/meta.json) + tools/design_tail.md"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
FIRST_MISSED = set(open(os.path.join(HERE, 'first_missed.txt')).read().split())


def main():
    out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## Properties, one by one', '']
    tech = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
    extra = json.load(open(os.path.join(HERE, 'design_notes.json')))
    known = json.load(open(os.path.join(V, 'known_findings.json')))
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
        out += ['*Method*: %s.' % tech[i]['technique'], '']
        e = json.load(open(os.path.join(V, 'evidence', i + '.json')))
        for f in e['coverage']['families']:
            out.append('- `%s`: %s' % (f['family'], f['bound']))
        out.append('')
        if i in extra:
            out += [extra[i], '']
        if e['assumptions']:
            out += ['*Assumes*: ' + '; '.join(e['assumptions']) + '.', '']
        kn = [k for k in known['known'] if k['property'] == i]
        if kn:
            out += ['*Known finding*: ' + '; '.join('`%s`: %s' % (k['key'], k['what']) for k in kn) + '.', '']
        c = e['coverage']
        out += ['*Size of the last %s run*: %d cases executed, %d states, %d transitions compared, about %d s.' % (
            e['tier'], c['traces_validated_against_impl'], c['states'], c['transitions'], round(e['wall_s']) or 1), '']
    out += ['## Planted bugs and the checks that catch them', '',
            'Every one is caught by the check of its property (quick tier), but those marked "not caught": c28-field-intern, which needs two fields whose moduli share their low 32 bits, a pair no family of C28 builds. "missed first": it escaped the check as it was when the bug was',
            'written; the check was then extended by a whole family of behaviours (never by the particular input).', '',
            '| bug | property | needs | |', '|---|---|---|---|']
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        needs = m['needs'] if isinstance(m['needs'], str) else '; '.join(map(str, m['needs']))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], needs.replace('|', '/'), 'not caught' if s == 'c28-field-intern' else 'missed first' if s in FIRST_MISSED else ''))
    out += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip(), '']
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
