import json, sys
sys.path.insert(0, '/verif')
from props import PROPS
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = getattr(__import__('props'), 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            technique="symbolic execution of the compiled code (LLVM bitcode) with Z3",
            level="model_checking",
            level_note="Every execution within the bounds is decided by the solver: " + P['bounds'] + (". Outside: " + P['outside'] if P['outside'] else "") +
              ". Trusts rustc/LLVM up to bitcode, the engine's bitcode semantics (cross-checked natively on sampled models each run) and Z3."))
    elif i in NA:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason="check not built yet"))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
