"""DESIGN.md from DESIGN.in.md, the known findings and the planted bugs"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
    f = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    fixed = [x for x in f if x['status'] == 'fixed']
    lines = [f'{len(fixed)} defects were repaired (one `fix:` commit each in /repo; `known_findings.json` has them as `fixed:` entries):', '', '| property | commit | what failed |', '|---|---|---|']
    lines += [f'| {x["property"]} | {x["commit"]} | {x["what"]} |' for x in sorted(fixed, key=lambda x: x['property'])]
    t = t.replace('FIXLIST', '\n'.join(lines))
    rows = ['', '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    # (the full check takes too long with all of them: the others are in planted/, of the same form)
    ds = {n: os.path.join(HERE, d, n) for d in ('seeded', 'planted') if os.path.isdir(os.path.join(HERE, d)) for n in os.listdir(os.path.join(HERE, d))}
    for n in sorted(ds):
        m = json.load(open(os.path.join(ds[n], 'meta.json')))
        c = {k: str(m[k]).replace('|', '/').replace('\n', ' ') for k in ('property', 'needs', 'what_it_breaks')}
        rows.append(f'| {n} | {c["property"]} | {c["needs"]} | {c["what_it_breaks"]} | {caught.get(n, "missed")} |')
    t = t.replace('SEEDTABLE', '\n'.join(rows))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


if __name__ == '__main__':
    main()
