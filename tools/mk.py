"""Writes properties.jsonl and MANIFEST.json from one table (run: python3 tools/mk.py)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, level='model_checking',
         tech='TLA+ specification checked with TLC; exact output laws / recorded histories of the '
              'real code judged against it by TLC', na=None):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, level=level, tech=tech,
                  na=na))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in T:
        assert len(p['title']) <= 80, p['title']
        import re
        assert len(re.findall(r'[.?!](?=\s[A-Z]|$)', p['statement'])) <= 3, (p['id'], 'sentences')
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': 'none'}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'DPPY_VERIF_HOOKS', 'enable': 'no hooks are needed: the code is observed '
              'through its public interface and the random generator handed to it',
              'source_commits': []},
    'checks': [{
        'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
        'thorough_cmd': './run.sh %s thorough' % p['id'], 'technique': p['tech'],
        'level': p['level'], 'level_note': p['note']} for p in T if not p['na']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in T if p['na']],
    'notes': 'See DESIGN.md. Known and fixed defects: known_findings.txt.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(T), 'properties')
