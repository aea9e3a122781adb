import json,sys
sys.path.insert(0,'/verif/harness')
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
import os
done=[]
for f in ['fam_io','fam_uint','fam_num','fam_key','fam_curve','fam_sign','fam_merkle','fam_cli','fam_random','fam_par','fam_frame']:
    p='/verif/harness/%s.py'%f
    if os.path.exists(p):
        import re
        done+=re.findall(r"C\d\d", re.search(r"^PROPS = .*$", open(p).read(), re.M).group(0))
na={'C29':'unpredictability of the system random source is a statistical/environmental property; a TLA+ specification has no notion of entropy, and observing outputs cannot decide it'}
notes={}
p='/verif/notes.json'
tech='TLA+ specification model-checked with TLC; its behaviours replayed into the real code and the recorded executions judged by TLC with the same operators'
note='Exhaustive over the bounded TLA+ model; the binding to the code is by trace validation of every program run (model behaviours, boundary and seeded random ones), so unlisted inputs are sampled, not proved. Trusts TLC, java/Big.java and java/Prims.java (compared against plain TLA+ and published vectors by setup).'
m={'version':1,'setup_cmd':'python3 prepare.py',
 'checks':[{'property':q,'quick_cmd':'python3 check.py %s'%q,'thorough_cmd':'VERIF_TIER=thorough python3 check.py %s'%q,'evidence_file':'evidence/%s.json'%q,
   'technique':tech,'level':'model_checking','level_note':note} for q in props if q in done],
 'not_applicable':[{'property':q,'reason':na.get(q,'check not built yet')} for q in props if q not in done],
 'notes':'No hooks: the checks observe the public interface only. check.py runs on /opt/venv/bin/python against the working tree of /repo.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),[x['property'] for x in m['not_applicable']])
