#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties_src.py and props.py."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from properties_src import PS, NA
from props import PROPS
with open(H + '/properties.jsonl', 'w') as f:
    for p in PS:
        m = p['anchors']['mechanism']
        if isinstance(m, str): p['anchors']['mechanism'] = [dict(name=m, where=w) for w in p['anchors']['files'][:1]]
        else: p['anchors']['mechanism'] = [dict(name=n, where=w) for n, w in m]
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
TECH = 'contract-based deductive verification of the real code: '
checks = []
for p in PS:
    s = PROPS.get(p['id'])
    if not s: continue
    checks.append(dict(property=p['id'], quick_cmd=f'bin/check {p["id"]} quick', thorough_cmd=f'bin/check {p["id"]} thorough',
        technique=s.get('technique', TECH + 'full-domain Kani obligations, with bounded search for failing inputs'),
        level=s['level'], level_note=s['note']))
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s', '--reverse'], capture_output=True, text=True).stdout.splitlines() if l.split(' ', 1)[1].startswith('hook:')]
json.dump(dict(version=1, setup_cmd='bin/setup',
    hooks=dict(guard='cfg(llrl_verif) in Rust, macro LLRT_VERIF in rt/rt.c', enable='RUSTFLAGS="--cfg llrl_verif" when building the harness crates hx and hl (bin/check does)', source_commits=hooks),
    checks=checks,
    not_applicable=[dict(property=i, reason=r) for i, r in NA] + [dict(property=p['id'], reason='No check yet.') for p in PS if p['id'] not in PROPS and p['id'] not in dict(NA)]),
    open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
