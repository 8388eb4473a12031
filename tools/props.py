# Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not applicable
TECH = "symbolic execution of the Go SSA of the real functions; obligations discharged by z3 (%s); counterexamples replayed natively"
MODES = {
 'int': 'integer arithmetic over word-exact lowering',
 'bv': 'bit-vectors',
 'fld': 'polynomial identities over the field plus bit-vectors',
}
def prop(id, title, statement, over, qtext, why, files, mech, modes, note, observe=None, level="model_checking"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a, _modes=modes, _note=note, _level=level))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, [], '')
    P[-1]['_na'] = reason

exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    go = '/opt/veriftools/go1.27.3/bin/go'
    m = {
     "version": 1,
     "setup_cmd": "cd engine && (G=%s; [ -x $G ] || G=go; GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off $G build -o ../bin/vsym .)" % go,
     "checks": [],
     "not_applicable": [],
     "notes": "One engine (engine/) and one directory of harnesses per property (harness/<id>/). No hooks in /repo: harnesses are overlaid at analysis time. See DESIGN.md.",
    }
    for p in P:
        if '_na' in p:
            m["not_applicable"].append({"property": p['id'], "reason": p['_na']})
            continue
        m["checks"].append({
          "property": p['id'],
          "quick_cmd": "bin/vsym check %s --tier quick" % p['id'],
          "thorough_cmd": "bin/vsym check %s --tier thorough" % p['id'],
          "technique": TECH % ', '.join(MODES[x] for x in p['_modes']),
          "level": p['_level'],
          "level_note": p['_note'],
        })
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
