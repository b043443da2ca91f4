#!/usr/bin/env python3
"""Single source of the property texts; writes properties.jsonl, MANIFEST.json, levels.json.
A property is claimed when specs/<id>.py or rt/<id>.py exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'ssqueezepy/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', state=None,
         observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[S + f for f in files.split()],
                  mech=[dict(name=a, where=S + b) for a, b in mech], level=level, note=note,
                  state=state, observe=observe, na=na))


exec(open(os.path.join(HERE, 'tools', 'texts.py')).read())


def main():
    lines, checks, na, levels = [], [], [], {}
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=S + w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                     quantifier=dict(over=p['over'], text=p['text']),
                                     why_tests_cant=p['why'], anchors=a)))
        i = p['id']
        sp = os.path.exists(os.path.join(HERE, 'specs', i + '.py'))
        rt = os.path.exists(os.path.join(HERE, 'rt', i + '.py'))
        if p['na'] or not (sp or rt):
            na.append(dict(property=i, reason=p['na'] or 'check not built yet'))
            continue
        level = p['level'] if sp else 'exploration'
        tech = []
        if sp:
            tech.append('contract-based deductive verification of the real source: pre/postconditions and loop '
                        'invariants on the listed functions, obligations generated from /repo by pyvc and '
                        'discharged by z3')
        if rt:
            tech.append('the same contracts evaluated on generated inputs against the real code (bounded; '
                        'supplies failing inputs)' if sp else
                        'contracts evaluated on generated inputs against the real code (bounded stand-in, '
                        'not counted as proved)')
        c = dict(property=i, quick_cmd='python3 check.py %s' % i,
                 thorough_cmd='python3 check.py %s --tier thorough' % i,
                 technique='; '.join(tech), level=level,
                 level_note=p['note'] or 'see DESIGN.md')
        checks.append(c)
        levels[i] = dict(level=level)
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    json.dump(levels, open(os.path.join(HERE, 'levels.json'), 'w'), indent=1)
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='Checks regenerate every obligation from /repo\'s current source; nothing is cached '
                   'between runs. No hooks are needed in /repo; its extra commits are all "fix:" commits '
                   '(listed in known_findings.json).')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
