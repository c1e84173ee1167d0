#!/usr/bin/env python3
"""Property texts; generates properties.jsonl, MANIFEST.json and the property section of DESIGN.md."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
P = {}
NA = {}


def p(pid, title, statement, over, text, why, files, mech, design, note='', na=None, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(id=pid, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)))
    P[pid]['_design'] = ' '.join(design.split()); P[pid]['_note'] = note
    if na: NA[pid] = na


exec(open(os.path.join(HERE, 'meta_props.py')).read())


def main():
    sys.path.insert(0, HERE)
    import spec
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for k in sorted(P):
            f.write(json.dumps({a: b for a, b in P[k].items() if not a.startswith('_')}) + '\n')
    checks, na = [], []
    for k in sorted(P):
        if k in spec.PROPS:
            checks.append({'property': k, 'quick_cmd': 'python3 vp.py check %s --tier=quick' % k, 'thorough_cmd': 'python3 vp.py check %s --tier=thorough' % k,
                           'evidence_file': 'evidence/%s.json' % k, 'technique': 'bounded symbolic execution of the real C sources with CBMC (SAT), counterexamples replayed natively',
                           'level': 'model_checking', 'level_note': (P[k]['_note'] or 'Every assertion is decided by the solver for all inputs within the bounds listed in the evidence; nothing is claimed outside them.') + ' Trusted: CBMC, its C front end, the library and allocation models in harness/rt.'})
        else:
            na.append({'property': k, 'reason': NA.get(k, 'No check is registered for this property.')})
    json.dump({'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: harnesses drive its functions through their headers. Known findings and repaired defects: known_findings.json.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    fn = os.path.join(HERE, 'DESIGN.md')
    if os.path.exists(fn):
        s = open(fn).read()
        sec = ''.join('### %s %s\n\n%s\n\n' % (k, P[k]['title'], P[k]['_design'] + ('' if k in spec.PROPS else '\n\n**Not claimed:** ' + NA.get(k, 'no check registered.'))) for k in sorted(P))
        s = re.sub(r'(<!-- props -->\n).*?(<!-- /props -->)', lambda m: m.group(1) + sec + m.group(2), s, flags=re.S)
        open(fn, 'w').write(s)


main()
