#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from catalogue.py and checks them against the schemas."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(path):
    s = importlib.util.spec_from_file_location("catalogue", path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def main():
    cat = load(os.path.join(HERE, "catalogue.py"))
    props = []
    checks = []
    na = []
    for p in cat.PROPS:
        over = p.get('over', ['inputs'])
        props.append({
            'id': p['id'], 'title': p['title'], 'statement': " ".join(p['statement'].split()),
            'quantifier': {'over': over, 'text': " ".join(p['for_all'].split())},
            'why_tests_cant': " ".join(p['why'].split()),
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None}})
        assert len(p['title']) <= 80, p['id']
        if p.get('na'):
            na.append({'property': p['id'], 'reason': " ".join(p['na'].split())})
            continue
        h = os.path.join(ROOT, 'props', p['id'].lower() + '.py')
        if not os.path.exists(h):
            print("no harness for", p['id'])
            na.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': "python3-vt run.py %s --tier quick" % p['id'],
            'thorough_cmd': "python3-vt run.py %s --tier thorough" % p['id'],
            'technique': "bounded symbolic execution of the real Python source, z3 decides path feasibility and the "
                         "negated property; counterexamples replayed on the real code",
            'level': 'model_checking',
            'level_note': " ".join((p.get('note') or cat.NOTE).split())})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for q in props:
            jsonschema.validate(q, s)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except OSError:
        pass
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for q in props:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    design(cat, props, na)
    print(len(checks), "checks", len(na), "not applicable")


def consts(path):
    import ast
    r = {}
    for n in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS'):
            try:
                r[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return r


def design(cat, props, na):
    d = load(os.path.join(HERE, "design.py"))
    seeded = {}
    top = os.path.join(ROOT, 'seeded')
    if os.path.isdir(top):
        for i in sorted(os.listdir(top)):
            m = json.load(open(os.path.join(top, i, 'meta.json')))
            seeded.setdefault(m['property'], []).append((i, m))
    out = [d.INTRO % {'stubs': d.STUBS}, "## The properties\n"]
    nas = {n['property']: n['reason'] for n in na}
    for q in props:
        i = q['id']
        out.append("### %s: %s\n\n%s\n" % (i, q['title'], q['statement']))
        if i in nas:
            out.append("Not applicable: %s\n" % nas[i])
            continue
        c = consts(os.path.join(ROOT, 'props', i.lower() + '.py'))
        out.append("* Decided by: %s" % d.HOW[i])
        if c.get('BOUNDS'):
            out.append("* Bounds: %s" % c['BOUNDS'])
        if c.get('ASSUMPTIONS'):
            out.append("* Assumed: %s" % "; ".join(c['ASSUMPTIONS']))
        if i in seeded:
            out.append("* Planted bugs it catches: " + ", ".join(n + (" (missed)" if n in d.MISSED else " (missed at first, then strengthened)" if n in d.FIRST else "") for n, _ in seeded[i]))
        out.append("")
    out.append(d.OUTSIDE)
    out.append("## Defects found\n\nKnown findings (not repaired) and repairs, as in `known_findings.txt`:\n")
    for l in open(os.path.join(ROOT, 'known_findings.txt'), encoding='utf-8'):
        if l.startswith('KNOWN:'):
            out.append("* known: " + l.split('property=')[1].split()[0] + ": " + l.split('::')[1].strip())
    for l in open(os.path.join(ROOT, 'known_findings.txt'), encoding='utf-8'):
        if l.startswith('fixed:'):
            out.append("* fixed: " + l[len('fixed: property='):].strip())
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write("\n".join(out) + "\n")


if __name__ == '__main__':
    main()
