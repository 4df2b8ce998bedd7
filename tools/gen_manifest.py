import json,re,subprocess,os
os.chdir('/verif')
claimed=[l.split()[0] for l in subprocess.check_output(['sim/target/debug/composim','list'],text=True).splitlines()]
T={
'C01':'read schedules (splits, interruptions) and entry-point histories drawn from a seed',
'C02':'read errors, truncation and failing deserializer callbacks at drawn points',
'C03':'write errors, full disks and failing serializer callbacks at drawn points',
'C04':'edit/save/crash/recover histories on a simulated disk, against a canonical-document model',
'C05':'simulated processes with drawn hash seeds and histories',
'C06':'storage corruption of documents, with independent validators',
'C07':'edit histories against a reference model',
'C08':'edit histories against a reference validator, across hash seeds',
'C09':'seeded scheduler interleaving threads at I/O and serde callbacks, nesting and abandonment',
'C10':'conversion histories against a long-form model',
'C11':'merge-key documents against a hand-expanded model over builder and read schedules',
'C12':'failing formatting sinks at drawn points',
'C13':'drawn delivery forms of a simulated deserializer',
'C14':'operation histories against reference models',
'C18':'take-apart and reassembly histories over a crashing disk, parts compared with their place in the document',
'C19':'load, edit, crash and reload histories, every accessor and conversion against the saved form; every parse route on damaged texts',
'C16':'collection histories under drawn hash seeds, against a list searched with ==',
}
checks=[dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
  evidence_file=f'evidence/{i}.json',
  technique='deterministic simulation with fault injection: '+T[i],
  level='exploration',
  level_note='Seeded search over simulated runs of the real library code; shows no violation on the explored runs, not absence. Trusts the harness (document grammar, reference models), serde_yaml as a plain YAML parser, and that the library has no nondeterminism beyond the seams (hash seeds, I/O, callbacks, threads).') for i in claimed]
na={
'C15':'A pure function of one number: no schedule, time, I/O, history or fault for it to depend on, so simulation would add nothing over plain input testing (values that pass through documents are covered by C04 and C13).',
'C17':'Decided at compile time by the companion macro crate: there is no execution to simulate (the implementations generated for this crate are exercised by C03, C04, C10 and C12).',
}
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
for i in ids:
    if i not in claimed and i not in na: na[i]='The check for this property is still being built.'
m=dict(version=1,setup_cmd='./check.sh --build',checks=checks,
  not_applicable=[dict(property=i,reason=na[i]) for i in sorted(na)],
  notes='No hooks in /repo: readers, writers, serde (de)serializers, formatter sinks, threads and the OS entropy call behind hash seeds are the seams. Replay a failure with sim/target/debug/composim replay FILE after ./check.sh --build.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
