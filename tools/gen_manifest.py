#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the harness directory."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTE = {
 'T': 'All schedules of the stated drivers up to the stated preemption bound, on the compiled implementation with a scheduling point at every atomic access, futex call, clock read, sleep and yield, spurious wakeups and clock jumps as explored deviations, and a vector-clock race detector on plain accesses. Atomic values are sequentially consistent; weaker orders are judged by the happens-before race detector, so behaviours that need stale atomic reads are out of scope.',
}
D = 'Every choice path of the stated driver within its depth and alphabet bounds is executed on the real code under ASan/UBSan and compared step by step with a reference model; nothing is said beyond those bounds.'
notes = json.load(open(H + '/tools/notes.json')) if os.path.exists(H + '/tools/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(H + '/harness/' + i + '_*.cpp'):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
            technique=n.get('technique', 'stateless model checking: exhaustive enumeration of schedules of the real code under a controlled scheduler' if i[0] == 'T' else
                            'model checking: exhaustive bounded exploration of operation histories / inputs / fault points on the real code against a reference model'),
            level='model_checking', level_note=n.get('note', NOTE.get(i[0], D))))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('reason', 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check recompiles its harness against /repo/include; known findings are in known_findings.txt.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
