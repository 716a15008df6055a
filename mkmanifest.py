#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl')]
FAULT = {'C11', 'C12', 'C16', 'C18'}
TECH = json.load(open('techniques.json'))
checks = []
for p in props:
    i = p['id']
    t = TECH[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./run.sh {i} quick',
        'thorough_cmd': f'./run.sh {i} thorough',
        'technique': t['technique'],
        'level': 'fault_enumeration' if i in FAULT else 'exploration',
        'level_note': t['note'],
    })
m = {
    'version': 1,
    'setup_cmd': './run.sh setup',
    'hooks': {
        'guard': 'cfg(osmio_verif)',
        'enable': 'harness/.cargo/config.toml sets rustflags = ["--cfg", "osmio_verif"] for the harness, which has osmio as a path dependency',
        'source_commits': ['7a32fca279f54cf72d37c2370cbf52dcf4067996', '5338af72f5008dede0b831611c71abd3cc1fe426'],
    },
    'checks': checks,
    'not_applicable': [],
    'notes': 'One harness crate (harness/), one binary (pbt); run.sh rebuilds it with osmio from /repo and runs one check. VERIF_SEED chooses the cases. replay: harness/target/release/pbt replay ID FILE.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
