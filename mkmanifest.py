"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import props

LEVEL_NOTE = ('Whole-function semantic equality with a reference specification, decided for symbolic inputs on all paths by value numbering over '
              'the syntax tree (random interpretation, Gulwani-Necula); nothing is executed. Trusts the reference text, the library '
              'models and real arithmetic; one-sided hash error below 2^-31 per lane.')
with open('properties.jsonl', 'w') as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
m = dict(version=1, setup_cmd='./check --help >/dev/null', hooks=dict(guard='none', enable='no hooks are needed', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='./check --property %s --tier quick' % p['id'],
                      thorough_cmd='./check --property %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                      technique=p.get('technique', 'static analysis: global value numbering of source against a reference specification'),
                      level='other', level_note=p.get('level_note', LEVEL_NOTE)) for p in props.PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in props.NOT_APPLICABLE],
         notes='All checks read /repo/AMAT/*.py with Python\'s ast module only.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
