import json,sys
claimed=sys.argv[1].split(',')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
'C01':'seeded search over interleavings at statement granularity with race detection; not exhaustive',
'C02':'seeded search over map orders and histories; differential plus reference model',
'C03':'refinement against an executable reference model on generated schemas/instances under seeded schedules; not exhaustive',
'C04':'seeded fault placement at every kind of step of simulated network/file loads; fault log against outcome',
'C05':'handle ledger over the same fault placements, sequential and concurrent',
'C06':'fault-then-retry histories against model and fault-free execution',
'C07':'document graphs over simulated stores; request log and verdicts against a model resolver',
'C08':'registration histories with failures against a model registry',
'C09':'draft-sensitive probes over settings and load orders against the model',
'C10':'probes of compiled schemas before/after and concurrently with later activity',
'C11':'deep snapshots and fresh-copy differential, sequential and concurrent under the race detector',
'C12':'linearizability of recorded concurrent histories',
'C13':'deadlock detection and step budgets with re-entrant and panicking callbacks',
'C14':'corruption faults on delivered bytes; panic and step-budget detection',
'C15':'chunking and stream faults against byte-exact expectation',
'C18':'histories of locales and concurrent validations; every text against an independent rendering',
'C21':'errors of interleaved validations against an executable reference model of what must and may be reported',
'C16':'histories with meta-schema load faults against model evaluation of the meta-schema',
}
na={
'C17':'Pure function of a string: no schedule, clock, I/O, fault or history takes part, so simulation has nothing to decide; deciding it would be plain input generation.',
'C19':'Pure function of the number texts: no schedule, fault or history takes part (C03 samples it only within the reference model).',
'C20':'Pure function of the supplied value: no schedule, fault or history takes part (loaders under faults are C04, C11, C15).',
}
m={'version':1,'setup_cmd':'bash bin/setup.sh',
 'hooks':{'guard':'none in /repo: the instrumented sources are generated at check time from the working tree and passed with go build -overlay','enable':'bin/check.sh runs sim/instr on /repo and builds sim/cmd/sim with -overlay','source_commits':[]},
 'checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append({'property':i,'quick_cmd':'bash bin/check.sh %s quick'%i,'thorough_cmd':'bash bin/check.sh %s thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':'deterministic simulation with fault injection: seeded search over schedules, map orders, faults and histories',
          'level':'exploration','level_note':notes[i]+'. A clean batch is evidence, not proof; trusts the instrumenter and simulator runtime (sim/instr, sim/rt)'+(' and the reference model (sim/model).' if i not in('C01','C05','C10','C11','C12','C13','C14','C15','C18') else '.')})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'check under construction')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
