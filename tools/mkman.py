"""writes MANIFEST.json: a property with contracts (a %property line in spec/) is claimed as proved, the others as bounded"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
proved = set(re.findall(r'^%property (C\d+):', open(V + '/spec/90_properties.vspec').read(), re.M))
NOTE = {
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in proved:
        c = {"technique": "contract-based deductive verification: Verus contracts on the functions extracted from /repo on every run; replay search only for failing inputs", "level": "proof",
             "level_note": NOTE.get(i, "all inputs, no bound; every obligation of the property's functions, of the functions they call and of the lemmas is discharged by Verus/Z3 on every run (assumed contracts are listed in the evidence)")}
    else:
        c = {"technique": "bounded stand-in for functions out of the deductive verifier's reach, labelled bounded: seeded search against an independent oracle on the real code", "level": "other",
             "level_note": NOTE.get(i, "bounded, not proved: text and command line handling is outside of what the contracts reach")}
    m['checks'].append(dict({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough"}, **c))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
