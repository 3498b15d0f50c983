#!/usr/bin/env python3
"""Makes planted bugs under seeded/ from a list of edits and demonstrations, keeping only those that
build, pass the repository's tests, and whose demonstration tells them from the unchanged tree.

usage: plant.py LIST.py [ID...]
LIST.py defines SEEDS: a list of dicts with id, property, needs, breaks, edits [(file, old, new)] and
either cpp (body of main), tool_cpp (the same, with the tool's sources) or py (a script).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path('/repo')

PRELUDE = r'''#include <VFC/Converter.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
%(extra)s
using namespace vfc;

#define CHECK(x) do { if (!(x)) { std::printf("line %%d: failed: %%s\n", __LINE__, #x); return 1; } } while (false)

%(globals)s
int main()
{
%(body)s
	return 0;
}
'''

DEMO = r'''#!/bin/bash
# Run in the repository after it was built: 0 if the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
%(build)s
ulimit -c 0
timeout 120 %(run)s
'''

INCLUDES = '-I lib/include -I _build/lib/include'


def write_demo(seed, directory):
    if 'py' in seed:
        (directory / 'demo.py').write_text('''import base64, json, os, struct, subprocess, sys, tempfile
tool = os.path.abspath('_build/output/vfc')

def b64(data):
    return 'base64:' + base64.b64encode(data).decode()

def run(config, *args, cwd=None, **kw):
    text = config if isinstance(config, bytes) else json.dumps(config).encode()
    return subprocess.run([tool, *args], input=text, capture_output=True, cwd=cwd, timeout=60, **kw)

def check(condition, what):
    if not condition:
        print('failed:', what)
        sys.exit(1)

scratch = tempfile.TemporaryDirectory()
work = scratch.name
''' + seed['py'].strip('\n') + '\n')
        text = DEMO % dict(build='', run='python3 "$here/demo.py"')
    else:
        extra = seed.get('includes', '')
        body = seed.get('cpp') or seed.get('tool_cpp')
        (directory / 'demo.cpp').write_text(PRELUDE % dict(
            extra=extra, globals=seed.get('globals', ''), body=body.strip('\n')))
        sources, flags = '', ''
        if 'tool_cpp' in seed:
            sources = 'tool/Base64.cpp tool/ConfigFile.cpp tool/Path.cpp tool/ResultFile.cpp '
            flags = '-I tool -isystem tool/rapidjson/include -isystem /opt/vp/deps/include '
        library = seed.get('library', '_build/output/libvfcd.a')
        flags += seed.get('flags', '')
        build = (f'g++ -std=c++14 -w {flags}{INCLUDES} "$here/demo.cpp" {sources}{library} -o "$work/demo" '
                 '|| exit 2')
        text = DEMO % dict(build=build, run='"$work/demo"')
    (directory / 'demo.sh').write_text(text)
    os.chmod(directory / 'demo.sh', 0o755)


def sh(command, cwd, timeout=900):
    return subprocess.run(command, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def plant(seed):
    scratch = Path(tempfile.mkdtemp(prefix='plant-'))
    try:
        repo = scratch / 'repo'
        shutil.copytree(REPO, repo, symlinks=True)
        for file, old, new in seed['edits']:
            path = repo / file
            text = path.read_text()
            if text.count(old) != 1:
                return seed['id'], f'{file}: {text.count(old)} matches for {old!r}'
            path.write_text(text.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        # The build directory belongs to /repo's path; build afresh at the copy.
        shutil.rmtree(repo / '_build')
        built = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/gcc '
                   '-DCMAKE_CXX_COMPILER=/usr/bin/g++ -DVFC_BUILD_TESTS=ON -DVFC_BUILD_TOOL=ON '
                   '-DVFC_BUILD_DOCS=OFF "-DCMAKE_CXX_FLAGS=-isystem /opt/vp/deps/include" && ninja -j4 -C _build', repo)
        if built.returncode:
            return seed['id'], 'build failed:\n' + (built.stdout + built.stderr)[-1500:]
        for test in ('vfc_lib_test', 'vfc_tool_test'):
            ran = sh(f'./_build/output/{test}', repo)
            failed = [l for l in ran.stdout.splitlines() if 'FAILED' in l]
            if ran.returncode:
                return seed['id'], f'{test} fails:\n' + '\n'.join(failed[:5]) + ran.stderr[-300:]
        ran = sh('ctest --test-dir _build -R Functional', repo)
        if ran.returncode:
            return seed['id'], 'functional tests fail: ' + ran.stdout[-600:]
        demo = scratch / 'demo'
        demo.mkdir()
        write_demo(seed, demo)
        clean = sh(f'bash {demo}/demo.sh', REPO)
        if clean.returncode:
            return seed['id'], 'demo fails on the unchanged tree: ' + clean.stdout[-500:] + clean.stderr[-1500:]
        broken = sh(f'bash {demo}/demo.sh', repo)
        if broken.returncode == 0:
            return seed['id'], 'demo passes with the change'
        if broken.returncode == 2:
            return seed['id'], 'demo does not build: ' + broken.stderr[-800:]
        target = VERIF / 'seeded' / seed['id']
        if target.exists():
            shutil.rmtree(target)
        shutil.copytree(demo, target)
        (target / 'patch.diff').write_text(patch)
        (target / 'meta.json').write_text(json.dumps(
            {'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, indent=1) + '\n')
        return seed['id'], 'kept ' + (broken.stdout.strip().splitlines() or [f'exit {broken.returncode}'])[-1][:100]
    finally:
        shutil.rmtree(scratch)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    if sys.argv[2:]:
        seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(max_workers=3) as pool:
        for name, result in pool.map(plant, seeds):
            print(f'{name}: {result}', flush=True)


main()
