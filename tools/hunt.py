#!/usr/bin/env python3
"""Runs the checks of planted bugs against them: each in a copy of /repo that is mounted over /repo.

usage: hunt.py [--tier quick] [--seed N] [--jobs N] [--as PROPERTY] [ID...]
"""
import argparse
import json
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
parser = argparse.ArgumentParser()
parser.add_argument('--tier', default='quick')
parser.add_argument('--seed', default='1')
parser.add_argument('--jobs', type=int, default=2)
parser.add_argument('--as', dest='instead')
parser.add_argument('ids', nargs='*')
args = parser.parse_args()


def hunt(directory):
    meta = json.loads((directory / 'meta.json').read_text())
    name = args.instead or meta['property']
    scratch = Path(tempfile.mkdtemp(prefix='hunt-'))
    try:
        repo = scratch / 'repo'
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
        subprocess.run(['patch', '-p1', '-s', '-i', str(directory / 'patch.diff')], cwd=repo, check=True)
        ran = subprocess.run(['unshare', '-Urm', 'bash', '-c',
                              f'mount --bind {repo} /repo && cd {VERIF} && VERIF_SEED={args.seed} '
                              f'VERIF_TIER={args.tier} exec ./check.py {name} {args.tier}'],
                             capture_output=True, text=True, errors="replace")
        caught = ran.returncode == 1 and re.search(rf'^VIOLATION property={name} ', ran.stdout, re.M)
        tail = (ran.stdout + ran.stderr).strip().splitlines()
        note = '' if caught else f' (exit {ran.returncode}) ' + ' | '.join(tail[-3:])[:300]
        if caught:
            line = next((l for l in tail if 'after' in l and 'case' in l), '')
            note = ' ' + line[:160]
        return directory.name, name, ('CAUGHT' if caught else 'MISSED') + note
    finally:
        shutil.rmtree(scratch)


chosen = sorted(d for d in (VERIF / 'seeded').iterdir()
                if (d / 'meta.json').exists() and (not args.ids or d.name in args.ids))
missed = 0
with ThreadPoolExecutor(max_workers=args.jobs) as pool:
    for name, property_, result in pool.map(hunt, chosen):
        missed += not result.startswith('CAUGHT')
        print(f'{name} {property_}: {result}', flush=True)
print(f'{len(chosen) - missed} of {len(chosen)} caught')
