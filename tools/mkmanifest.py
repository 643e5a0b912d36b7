import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
CORE=['C01','C02','C03','C04','C05','C06']
CLAIMED=CORE+[l.strip() for l in open(root+'/tools/claimed_full.txt') if l.strip()]
TECH={
 'C01':'deterministic simulation: seeded generator streams, injected generator failures, fresh-memory contents; conservation oracle',
 'C02':'deterministic simulation: seeded streams, statistical oracles over recorded outcomes',
 'C03':'deterministic simulation: seeded generator streams, injected generator failures, fresh-memory contents; multiset oracle',
 'C04':'deterministic simulation: seeded streams, statistical oracles over recorded outcomes',
 'C05':'deterministic simulation: seeded caller generators (ordinary and faulty), law and repeatability oracles',
 'C06':'deterministic simulation: seeded basic-block schedules of caller threads with generator failures; solo-run oracle',
}
NOTE={
 'C02':'Sampled evidence. A bias must exceed what a few thousand trials per experiment resolve; thresholds (p<1e-13) keep false alarms negligible.',
 'C04':'Sampled evidence. A bias must exceed what a few thousand trials per experiment resolve; thresholds (p<1e-13) keep false alarms negligible.',
}
extra=root+'/tools/full_notes.json'
if os.path.exists(extra):
    x=json.load(open(extra)); TECH.update(x['tech']); NOTE.update(x['note'])
NA={
 'C22':'kernel values are a pure function of their two arguments; there is no schedule, fault, clock, random draw or history to simulate',
 'C23':'activation functions are pure functions of one number; nothing nondeterministic to simulate',
 'C24':'cost and regularization formulas are pure functions of their arguments; nothing nondeterministic to simulate',
 'C25':'scores are pure functions of two sequences; nothing nondeterministic to simulate',
 'C26':'searching a built tree is a pure function of data and query; exactness is an input-generation question, not a simulation one',
 'C27':'the clustering is a pure function of the data and two parameters; nothing nondeterministic to simulate',
 'C28':'closed-form or deterministic iterative solutions, pure functions of the data; their failure paths are covered by C10, their dealings with user-supplied kernels, costs and links in histories with failures by C37',
 'C29':'a pure function of the data matrix; its failure and retraining behaviour is covered by C10 and C11',
 'C30':'estimation and prediction are pure functions of the data; failure and retraining behaviour is covered by C10 and C11',
 'C31':'compiled-in constants; nothing nondeterministic to simulate',
}
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in CLAIMED:
        m['checks'].append({'property':i,'quick_cmd':'VERIF_TIER=quick ./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+i,'evidence_file':'evidence/%s.json'%i,
          'technique':TECH[i],'level':'exploration',
          'level_note':NOTE.get(i,'Sampled evidence over seeded runs, each exactly repeatable; trusts the stand-ins named in the evidence file.')})
    elif i in NA:
        m['not_applicable'].append({'property':i,'reason':NA[i]})
    else:
        m['not_applicable'].append({'property':i,'reason':'check under construction: not claimed yet'})
m['notes']='No hooks in /repo: its seams (generic Rng arguments, user traits, the rand and rulinalg dependencies) suffice. Replay a violation with ./replay.sh FILE.'
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
