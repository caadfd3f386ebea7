#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, sys
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
src = open('/verif/sim/src/scen.rs').read()
start = src.index('pub const PROPS')
import re
claimed = re.findall(r'"(C\d+)"', src[start:src.index('];', start)])
NOTES = {
 'C01': 'seeded grammars, negative rules and simulated entropy sources with fault windows; every Ok output is parsed by an independent recogniser',
 'C02': 'seeded overlapping lookahead places under hostile entropy; oracle: existence of a derivation whose lookahead places are all respected',
 'C03': 'limits drawn around what the unlimited twin run needed; outcome compared with a reference interpreter of the limits over the recorded draws',
 'C04': 'every generation repeated in other simulated processes (other OS entropy, clones, rebuilt grammars, nested and crashed generations) and compared draw for draw',
 'C05': 'choice counts over simulated uniform grids, byte sweeps and PRNG streams compared with the weights',
 'C06': 'documents stored through a simulated disk (torn, short, lost, stale, flipped blocks); oracle: an independent reader of the documented format',
 'C07': 'as C06 for the advanced format, including its lexer blocks and regular expressions',
 'C08': 'allocation, set and mapping histories checkpointed through a simulated disk, crash and restart; oracle: the values at the checkpoint, and an independent JSON reading for damaged bytes',
 'C09': 'several holders of clones under a seeded scheduler with operations nested in callbacks; oracle: unshared twins rebuilt from what each holder observes',
 'C10': 'a panic injected at a drawn call of a callback, caught, then the history goes on; oracle: per-operation statement of what may have changed, and a fresh twin afterwards',
 'C11': 'seeded histories with the limit set, changed and crashed in between; invariant checked after every operation',
 'C12': 'seeded histories over grammars and over 8-, 16- and 32-bit symbol sources driven to exhaustion and truncated; oracle: a list of names',
 'C13': 'seeded sequences of remappings with interrupted ones; oracle: the old grammar translated through the returned mapping, which must be a bijection on survivors',
 'C14': 'seeded histories over rules with distinct origins and weights; oracle: expansion of helpers gives back the recorded original rules',
 'C15': 'seeded histories; oracle: bounded languages (all strings up to a drawn length) of every symbol computed by an independent fixpoint before and after each operation',
 'C16': 'as C15 for nulling elimination, with an independent nullability fixpoint',
 'C17': 'as C15 for cycle removal, with an independent strongly-connected-component analysis',
 'C18': 'as C15 for sequences and precedence; oracle: own constructions from the documentation, compared by language and by derivation trees; one listed finding',
 'C19': 'the same workload in several simulated processes whose hash seeds differ; everything observable compared',
 'C20': 'every query on the grammar after a seeded history with interrupted operations compared with the same query on a freshly built equal grammar',
 'C27': 'columns, text, named rules and comparisons in every state of a seeded history with interrupted operations, against the dumped rules and against earlier states',
}
checks = []
for p in props:
    if p['id'] in claimed:
        i = p['id']
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            technique='deterministic simulation with fault injection: seeded search over schedules and faults, checked against a reference model',
            level='exploration',
            level_note=NOTES.get(i, 'seeded simulated histories compared with a reference model') + '. Sampling over seeds, not proof; trusts the reference model in /verif/sim/src and the replaced getrandom.',
            evidence_file=f'evidence/{i}.json'))
REASON = {}
na = [dict(property=p['id'], reason=p.get('not_applicable') or 'pure function of its arguments: no schedule, time, I/O, randomness or multi-party behaviour for a simulator to control; see DESIGN.md')
      for p in props if p['id'] not in claimed]
m = dict(version=1, setup_cmd='./build.sh', hooks=dict(guard='none', enable='no hooks were needed: the checks use the public API and replace getrandom at link time', source_commits=[]),
    checks=checks, not_applicable=na, notes='One simulator (/verif/sim) decides every property; replay a reported file with ./replay.sh FILE.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); print(len(checks), len(na))
