"""Writes DESIGN.md: the prose of design_src.md, then a section for every property from its check,
the recorded findings and the planted bugs."""

import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)

def module(id):
    tree = ast.parse(open('mc/props/%s.py' % id.lower()).read())
    found = {'doc': ast.get_docstring(tree), 'ASSUMPTIONS': (), 'BOUNDS': {}}
    source = open('mc/props/%s.py' % id.lower()).read()
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id if isinstance(node, ast.Assign) and \
                isinstance(node.targets[0], ast.Name) else False:
            name = node.targets[0].id
            if name in ('ASSUMPTIONS', 'BOUNDS'):
                try:
                    found[name] = ast.literal_eval(node.value)
                except ValueError:
                    evidence = 'evidence/%s.json' % id
                    text = ast.get_source_segment(source, node.value)
                    pieces = dict(re.findall(r"'(quick|thorough)':\s*(.*?)(?=,\n    '|,\n\}|\n\}|\Z)",
                        text, re.S))
                    found[name] = dict((k, ''.join(a or b for a, b in
                        re.findall(r"'((?:[^'\\]|\\.)*)'|\"([^\"]*)\"", v))) for k, v in pieces.items())
    return found

def wrap(text, width=98, indent=''):
    words, lines, line = text.split(), [], ''
    for word in words:
        if line and len(line) + 1 + len(word) > width:
            lines.append(line)
            line = indent + word
        else:
            line = (line + ' ' + word) if line else word
    lines.append(line)
    return '\n'.join(lines)

properties = [json.loads(line) for line in open('properties.jsonl')]
findings = {}
for line in open('known_findings.txt'):
    match = re.match(r'(?:fixed|finding): property=(C\d+) (.*)', line.strip())
    if match:
        kind = 'fixed' if line.startswith('fixed') else 'finding'
        findings.setdefault(match.group(1), []).append((kind, match.group(2)))
seeds = {}
for path in sorted(glob.glob('seeded/*/meta.json')):
    meta = json.load(open(path))
    seeds.setdefault(meta['property'], []).append((path.split('/')[1], meta))

out = [open('tools/design_src.md').read().rstrip(), '']
total = sum(map(len, seeds.values()))
out.append('## Planted bugs\n\n' + wrap('%d changes are kept under seeded/, each written from the '
    'text of a property and the code, passing the existing tests, with a demonstration. Every one of '
    'them is caught by the quick check of its property (the list is under each property below); '
    'those which were missed at first led to stronger checks (see the log of /verif).'
    % total) + '\n')
out.append('## Properties\n')
for p in properties:
    id = p['id']
    m = module(id)
    out.append('### %s %s\n' % (id, p['title']))
    out.append(wrap('**Explored.** ' + m['doc']) + '\n')
    for tier in ('quick', 'thorough'):
        if m['BOUNDS'].get(tier):
            out.append(wrap('**Bounds, %s.** ' % tier + m['BOUNDS'][tier]) + '\n')
    assumptions = m['ASSUMPTIONS']
    if isinstance(assumptions, str):
        assumptions = [assumptions]
    if assumptions:
        out.append(wrap('**Assumed.** ' + '; '.join(assumptions) + '.') + '\n')
    out.append(wrap('**Beyond the tests.** ' + p['why_tests_cant']) + '\n')
    for kind, label in (('finding', 'Known findings'), ('fixed', 'Defects found and repaired')):
        found = [text for k, text in findings.get(id, ()) if k == kind]
        if found:
            out.append('**%s.**\n\n' % label + '\n'.join(wrap('* ' + text, indent='  ')
                for text in found) + '\n')
    if id in seeds:
        out.append('**Planted bugs, all caught by %s.**\n\n' % id + '\n'.join(
            wrap('* `%s`: %s (needs %s)' % (name, meta['what_it_breaks'], meta['needs']), indent='  ')
            for name, meta in seeds[id]) + '\n')
open('DESIGN.md', 'w').write('\n'.join(out))
print(len(properties), 'properties', total, 'seeds')
