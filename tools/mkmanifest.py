"""writes MANIFEST.json from properties.jsonl and the contracts present"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:3].upper() for f in os.listdir(os.path.join(V, 'contracts')) if f.startswith('c') and f.endswith('.py')}
NA = {
    'C19': 'the metadata archive is a set of SQL statements executed by a PostgreSQL server, and the guarantee about concurrent additions is that of its transactions: no verifier here reads SQL, so the deciding behaviour would have to be assumed wholesale and a contract on the calling Python would prove nothing about it (selection, files and hashes on the Python side are decided under C24)',
    'C23': 'decided by the crash behaviour of numpy file writing, sqlite and the operating system: no function contract within the reach of a deductive verifier for this Python code expresses what is on disk after a crash',
}
NOTE = 'Contracts the verifier cannot reach are checked on drawn inputs only, reported as bounded and never counted as proved; the evidence lists which. Reals stand for floats; numpy is axiomatised.'
LEVEL = {
    'C15': ('exploration', 'The list of visible satellites, with their altitudes and azimuths, is proved for any number of satellites (assuming the propagator); every other contract is a bounded stand-in, because the element sets are formatted text with units and the streaks are polygon intersections.'),
    'C18': ('exploration', 'The round trip of values, mask and labels through the file writer and reader is proved (assuming numpy.load gives back what numpy.savez was given); every other contract is a bounded stand-in, because the results are files of a compiled library and rows of an SQL database.'),
}
TECH = 'contract-based deductive verification: pre/postconditions and loop invariants on the real functions, executed symbolically from the current source with unbounded arrays and discharged by z3/cvc5 function by function'
TECHB = 'contracts on the real functions: one proved by contract-based deductive verification (symbolic execution of the current source, loop invariant, z3), the others decided by bounded checking on drawn inputs (bounded stand-in for deductive verification, never counted as proved)'
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        if i in LEVEL:
            note = LEVEL[i][1]
        else:
            note = NOTE
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECHB if i in LEVEL else TECH,
                           level=LEVEL.get(i, ('proof', ''))[0],
                           level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Commands run from /verif. See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
