#!/usr/bin/env python3
"""Assemble DESIGN.md."""
import json, re, os, glob, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
man = json.load(open(root + '/MANIFEST.json'))
checks = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
src = ''
for f in sorted(glob.glob(root + '/analyzer/*.go')):
    src += open(f).read()
rules = {}
for m in re.finditer(r'register\("(\w+)",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"(?:\s*\+\s*trust)?,\s*"((?:[^"\\]|\\.)*)"', src):
    rules[m.group(1)] = (m.group(2), m.group(3), m.group(4))
for m in re.finditer(r'register\("(\w+)",\s*"((?:[^"\\]|\\.)*)",\s*scope\s*\+\s*trust,\s*"((?:[^"\\]|\\.)*)"', src):
    rules[m.group(1)] = (m.group(2), '', m.group(3))
out = open(root + '/tools/design_head.md').read()
out += '## The properties\n\n'
for p in props:
    i = p['id']
    if i not in checks:
        continue
    t, scope, rule = rules[i]
    scope = scope or checks[i]['level_note'].split(' Trusts the type')[0]
    out += f"### {i}: {p['title']}\n\n{p['statement']}\n\n*Technique:* {t}.\n\n*Decided:* {rule}\n\n*Scope and assumptions:* {scope}\n\n"
out += '## Properties that are not claimed\n\n'
for p in props:
    if p['id'] in na:
        out += f"* **{p['id']}** ({p['title']}): {na[p['id']]}\n"
out += '\n## Planted bugs\n\nEach is in `seeded/`, with a demonstration; the last column is what the checks say\nwith the change applied.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    out += f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"
out += open(root + '/tools/design_tail.md').read() if os.path.exists(root + '/tools/design_tail.md') else ''
open(root + '/DESIGN.md', 'w').write(out)
