"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCH = 'frm/utils/schedule.py'
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None), _t=technique, _n=note, _na=na))


TLC_BOTH = 'TLA+ state machine checked exhaustively by TLC; spec-generated requests replayed into the code and recorded calls validated against the spec by TLC'
TLC_TRACE = 'TLA+ specification checked by TLC; recorded calls and histories of the code validated step by step against the spec by TLC'
N_INT = 'Exhaustive on the small world named in DESIGN.md, random beyond it; the calendar arithmetic is pure TLA+ integers. Trusts TLC and the recording harness.'
N_REAL = 'Random and boundary inputs within the stated envelope; real arithmetic in the spec is evaluated by the TLC override java/Real64.java in IEEE doubles, compared with explicit tolerances. Trusts TLC, that override and the recording harness.'

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                            technique=p['_t'], level='model_checking', level_note=p['_n']) for p in P if not p['_na']],
               not_applicable=[dict(property=p['id'], reason=p['_na']) for p in P if p['_na']])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import sys
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
    print(len(P), 'properties,', len(man['checks']), 'claimed')


main()
