#!/usr/bin/env python3
""" Regenerate MANIFEST.json from properties.jsonl and the checks that exist """
import json, os
HERE = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
NA = {
 'C16': 'Pure arithmetic on one triad: no schedule, clock, I/O, randomness or crash can influence it, so a simulator has nothing to decide. (The model in sim/model.py is used as the oracle of C11.)',
 'C17': 'Pure function from layout to text. What can go wrong around it (output cut off, order depending on hash seed or history) is C09 and C14; the mapping itself has no nondeterminism to simulate.',
 'C18': 'Pure round trip of a data structure, no concurrency, time, I/O or randomness involved.',
 'C19': 'Pure function from a parsed document to text; delivery of the document is covered by C01, C02 and C05, which compare with the intended text for generated documents, but the selection rules on arbitrary documents have no nondeterminism.',
 'C20': 'Pure functions of one statistics object; reading (C07), merging (C06) and writing (C09, C14) are claimed.',
 'C21': 'Pure function of one input file; delivery of its output is part of C09.',
 'C22': 'Pure formatting functions.',
}
NOTE = {}
exec (open (os.path.join (HERE, 'tools', 'notes.py')).read ())
props = [json.loads (l) for l in open (os.path.join (HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists (os.path.join (HERE, 'checks', f'{i.lower ()}.py')):
        checks.append (dict (property=i, quick_cmd=f'./run.py {i}', thorough_cmd=f'./run.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection: ' + NOTE[i][0], level='exploration', level_note=NOTE[i][1]))
    else:
        na.append (dict (property=i, reason=NA.get (i, 'check not built yet')))
doc = dict (version=1, setup_cmd='./run.py --setup', checks=checks, not_applicable=na,
        notes='No hooks in /repo: all seams are inserted from outside (sim/seams.py) by replacing what lulua imports.')
with open (os.path.join (HERE, 'MANIFEST.json'), 'w') as fd:
    json.dump (doc, fd, indent=1, ensure_ascii=False)
    fd.write ('\n')
