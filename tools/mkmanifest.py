#!/usr/bin/env python3
"""Source of MANIFEST.json: python3 tools/mkmanifest.py > MANIFEST.json"""
import json
import os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAULTS = {'C13', 'C17', 'C21'}
TECH = {
    'C01': 'Hypothesis: package triples, algebraic laws and a model order',
    'C02': 'Hypothesis: version lists and key parsers against a version model',
    'C03': 'Hypothesis: selector lists against a conjunction model',
    'C04': 'Hypothesis text fuzzing, round-trip and equivalence laws',
    'C05': 'Hypothesis: metamorphic merge orders against a conjunction model',
    'C06': 'Hypothesis: platform pairs and stubbed machines against a model',
    'C07': 'Hypothesis: specification round-trip and grammar model',
    'C08': 'Hypothesis: dependency graphs, validity predicate',
    'C09': 'Hypothesis: dependency graphs, must-succeed / must-fail closure model',
    'C10': 'Hypothesis stateful histories against a file tree model',
    'C11': 'Hypothesis: dependency graphs and environments, closure predicate',
    'C12': 'Hypothesis: package contents against a byte-exact reference rewriter',
    'C13': 'Hypothesis histories with fault injection at every file-system step',
    'C14': 'Hypothesis: hostile archives, sentinel tree invariant',
    'C15': 'Hypothesis: reference composition, a real shell as differential oracle',
    'C16': 'Hypothesis: commands against a probe program and shlex',
    'C17': 'Hypothesis histories with fault injection against a dict model',
    'C18': 'Hypothesis: archives in all formats, tree comparison',
    'C19': 'Hypothesis: contents and digests, hashlib as differential oracle',
    'C20': 'Hypothesis: read/seek/tell sequences against BytesIO',
    'C21': 'Hypothesis: scripted HTTP server histories and faults',
    'C22': 'Hypothesis: generated formulas, tree difference oracle',
    'C23': 'Hypothesis: build-install round trip, tree comparison',
    'C24': 'Hypothesis: generated formula files against the written attributes',
    'C25': 'Hypothesis: repositories and requirements, filter and sort model',
    'C26': 'Hypothesis repository histories, index recomputed from disk',
    'C27': 'Hypothesis: formula graphs, buildable closure model',
    'C28': 'Hypothesis command histories, differential against the library',
    'C29': 'Hypothesis: prefixes and prior states, tree model',
    'C30': 'Hypothesis: model Mach-O files and stand-in tools, relocation model',
    'C31': 'Hypothesis: generated build steps, reports of a probe program',
}
NOTE = ('Generated-input search with shrinking against an oracle independent '
        'of ipkg (see DESIGN.md); covers the cases reported in the evidence, '
        'not all inputs. Trusts Jython 2.7.3, the file system and the '
        'reference models in vf/.')

ids = [json.loads(line)['id'] for line in open(BASE + '/properties.jsonl')]
checks, missing = [], []
for pid in ids:
    if not os.path.exists('%s/vf/props/%s.py' % (BASE, pid.lower())):
        missing.append({'property': pid,
                        'reason': 'the check is not built yet'})
        continue
    checks.append({
        'property': pid, 'quick_cmd': './check %s' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'property-based testing (%s)' % TECH[pid],
        'level': 'fault_enumeration' if pid in FAULTS else 'exploration',
        'level_note': NOTE})
print(json.dumps({
    'version': 1, 'setup_cmd': './setup', 'checks': checks,
    'not_applicable': missing,
    'notes': 'All machinery is interpreted; setup only verifies the tools.'},
    indent=1))
