import json, sys
P = '/verif/known_findings.json'


def add(prop, rule, key, what, commit=None):
    k = json.load(open(P))
    k = [x for x in k if not (x['property'] == prop and x['rule'] == rule and x['key'] == key)]
    d = {"property": prop, "rule": rule, "key": key, "status": "fixed" if commit else "known"}
    if commit:
        d["commit"] = commit
        what = "fixed: property=%s %s %s" % (prop, commit, what)
    d["what"] = what
    k.append(d)
    open(P, 'w').write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in k) + '\n]\n')
