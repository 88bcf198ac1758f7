#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios in dst/scen."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = {}
for f in sorted(os.listdir(here + '/dst/scen')):
    t = open(here + '/dst/scen/' + f).read()
    for m in re.finditer(r'register\(&Scen\{Name:\s*"(\w+)",\s*Props:\s*\[\]string\{([^}]*)\}', t):
        for p in re.findall(r'"(C\d+)"', m.group(2)):
            have.setdefault(p, []).append(m.group(1))
have['C27'] = ['happens-before race oracle over all worlds with concurrent use']
NA = {
 'C40': 'A pure table lookup per sample: no schedule, clock, I/O, fault or second party that simulation could vary (the codecs run as real code inside C26).',
 'C41': 'A pure sequential data structure without locks, time or I/O; its misuse under concurrency and load is decided through the mixer (C04).',
 'C42': 'Pure functions of their arguments; only input generation could test them. Their use over time is decided through C09, C10 and C26.',
 'C43': 'A process-wide registration table filled at init; no schedule, time or fault takes part.',
 'C44': 'Parsing of well-formed text is a pure function of the text; parsing of damaged text and the agreement of both ends are decided through C17.',
 'C45': 'One pure decoding pass over bytes already in memory: no concurrency, time, I/O or fault takes part.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': 'deterministic simulation with fault injection: seeded schedule and fault search (' + ', '.join(have[i]) + ')',
            'level': 'exploration',
            'level_note': 'Seeded sampling of schedules, timings and faults over the real code rewritten onto a simulated scheduler, clock, network and disk; every run checks the property as an oracle. A quiet run is evidence over the runs counted in the evidence file, not proof. Trusted: the rewriter and the simulation runtime (Go memory model reduced to sequential consistency with statement-level preemption), the scenario and its oracle.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No scenario built for it (yet).')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are put in by dst/rewrite on a copy of the working tree at build time.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
