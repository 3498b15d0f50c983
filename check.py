#!/usr/bin/env python3
"""Builds what one check needs from /repo's working tree and runs it.

usage: check.py PROPERTY quick|thorough [--seed N] [--budget SECONDS] [--replay FILE] [--workers N]
       check.py --build-all
Objects are cached in build/ by the content of everything they are made from.
"""
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get('VFC_REPO', '/repo'))
HARNESS = VERIF / 'harness'
BUILD = VERIF / 'build'

SANITIZE = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            # memcpy(nullptr, ..., 0) in libraries is no concern here.
            '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute']
COMMON = ['-std=c++14', '-g1', '-Wall', '-pthread', '-fno-strict-aliasing', '-Wno-comment']

# Binary -> harness sources, repository sources, flags.
BINARIES = {
    'value': dict(harness=['runner', 'ref', 'props_value', 'props_format'], repo=['lib'], san=True),
    'convert': dict(harness=['runner', 'ref', 'mesh', 'props_convert', 'props_history'], repo=['lib'], san=True),
    'half': dict(harness=['runner', 'ref', 'props_half'], repo=['lib'], san=True, soft=True),
    'tool': dict(harness=['runner', 'ref', 'json', 'mutate', 'props_tool'], repo=['lib', 'tool-parts'], san=True),
    'cli': dict(harness=['runner', 'ref', 'mesh', 'json', 'mutate', 'process', 'props_cli'], repo=['lib'], san=False),
    'threads': dict(harness=['runner', 'ref', 'mesh', 'props_threads'], repo=['lib'], san=['-fsanitize=thread']),
    'vfc': dict(harness=[], repo=['lib', 'tool'], san=True),
}

# Property -> binary, whether it runs the tool, seconds of search (quick, thorough).
PROPERTIES = {}
for _id in ('V01', 'V02', 'V03', 'V04', 'F01', 'F02', 'F03', 'F04'):
    PROPERTIES[_id] = dict(binary='value', quick=20, thorough=240)
for _id in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12'):
    PROPERTIES[_id] = dict(binary='convert', quick=35, thorough=420)
PROPERTIES['C13'] = dict(binary='threads', quick=35, thorough=420)
PROPERTIES['V05'] = dict(binary='half', quick=15, thorough=180)
for _id in ('T05', 'T06', 'T07', 'T08', 'T09'):
    PROPERTIES[_id] = dict(binary='tool', quick=25, thorough=300)
for _id in ('T01', 'T02', 'T03', 'T04', 'T10', 'T11'):
    PROPERTIES[_id] = dict(binary='cli', tool=True, quick=45, thorough=420)
PROPERTIES['T11']['quick'] = 20
# Coverage-guided search in addition, in the thorough tier.
FUZZED = {'C01', 'C02', 'C03', 'C04', 'C05', 'C09', 'C10', 'C12', 'V01', 'V02', 'T05', 'T06', 'T07', 'T09'}


def headers_digest():
    digest = hashlib.sha256()
    files = []
    for root in (REPO / 'lib' / 'include', REPO / 'lib' / 'src', REPO / 'tool', HARNESS):
        for path in sorted(root.rglob('*')):
            if path.suffix in ('.h', '.hpp', '.inl') and path.is_file():
                files.append(path)
    for path in files:
        digest.update(str(path).encode() + b'\0' + path.read_bytes() + b'\0')
    return digest.digest()


def repo_sources(kind):
    if kind == 'lib':
        return sorted((REPO / 'lib' / 'src').rglob('*.cpp'))
    found = []
    for path in sorted((REPO / 'tool').rglob('*.cpp')):
        parts = path.relative_to(REPO / 'tool').parts
        if parts[0] in ('test', 'rapidjson'):
            continue
        if kind == 'tool-parts' and parts == ('main.cpp',):
            continue
        found.append(path)
    return found


def includes():
    return ['-I', str(HARNESS), '-I', str(HARNESS / 'include'), '-I', str(REPO / 'lib' / 'include'),
            '-I', str(REPO / 'lib' / 'src'), '-I', str(REPO / 'tool'),
            '-isystem', str(REPO / 'lib' / 'glm'), '-isystem', '/opt/vp/deps/include',
            '-isystem', str(REPO / 'tool' / 'rapidjson' / 'include')]


def jobs_for(name, fuzz, headers):
    spec = BINARIES[name]
    compiler = 'clang++' if fuzz else 'g++'
    flags = list(COMMON)
    if fuzz:
        flags += ['-O1', '-DPBT_FUZZ', '-Wno-unknown-warning-option'] + SANITIZE + ['-fsanitize=fuzzer']
    elif spec['san']:
        flags += ['-O1'] + (SANITIZE if spec['san'] is True else spec['san'])
    else:
        flags += ['-O2']
    flags += ['-fno-omit-frame-pointer']
    sources = [(HARNESS / (s + '.cpp'), []) for s in spec['harness']]
    for kind in spec['repo']:
        sources += [(path, []) for path in repo_sources(kind)]
    if spec.get('soft'):
        # A second copy of the library, as on a processor without half-float instructions.
        soft = ['-Dvfc=vfc_soft', '-include', str(HARNESS / 'no_f16c.h')]
        sources += [(path, soft) for path in [HARNESS / 'half_soft.cpp'] + repo_sources('lib')]
    jobs = []
    for source, extra in sources:
        command = [compiler] + flags + extra + includes() + ['-c', str(source)]
        digest = hashlib.sha256(headers + '\0'.join(command).encode() + b'\0' + source.read_bytes()).hexdigest()
        obj = BUILD / 'obj' / f'{source.stem}-{digest[:24]}.o'
        jobs.append((command, obj))
    return compiler, flags, jobs


def compile_one(job):
    command, obj = job
    if obj.exists():
        os.utime(obj)
        return None
    temporary = obj.with_name(obj.name + f'.{os.getpid()}.tmp')
    done = subprocess.run(command + ['-o', str(temporary)], capture_output=True, text=True)
    if done.returncode != 0:
        return ' '.join(command) + '\n' + done.stderr
    os.replace(temporary, obj)
    return None


def build(names, fuzz=False):
    (BUILD / 'obj').mkdir(parents=True, exist_ok=True)
    (BUILD / 'bin').mkdir(parents=True, exist_ok=True)
    headers = headers_digest()
    plans = {name: jobs_for(name, fuzz, headers) for name in names}
    jobs = {}
    for _, _, plan in plans.values():
        for command, obj in plan:
            jobs[obj] = command
    with ThreadPoolExecutor(max_workers=8) as pool:
        errors = [e for e in pool.map(compile_one, [(c, o) for o, c in jobs.items()]) if e]
    if errors:
        print(errors[0][:6000], file=sys.stderr)
        print('build failed', file=sys.stderr)
        sys.exit(3)
    result = {}
    for name, (compiler, flags, plan) in plans.items():
        objects = [str(obj) for _, obj in plan]
        digest = hashlib.sha256('\0'.join(objects + flags).encode()).hexdigest()
        binary = BUILD / 'bin' / f'{name}{"-fuzz" if fuzz else ""}-{digest[:16]}'
        if not binary.exists():
            temporary = binary.with_name(binary.name + f'.{os.getpid()}.tmp')
            link = [f for f in flags if not f.startswith('-D')]
            done = subprocess.run([compiler] + link + objects + ['-o', str(temporary)],
                                  capture_output=True, text=True)
            if done.returncode != 0:
                print(done.stderr[:6000], file=sys.stderr)
                print('link failed', file=sys.stderr)
                sys.exit(3)
            os.replace(temporary, binary)
        os.utime(binary)
        result[name] = binary
    prune()
    return result


def prune():
    """Keeps the cache from growing without end."""
    for folder, keep in ((BUILD / 'obj', 250), (BUILD / 'bin', 30)):
        files = sorted((p for p in folder.iterdir()), key=lambda p: p.stat().st_mtime, reverse=True)
        for path in files[keep:]:
            try:
                path.unlink()
            except OSError:
                pass


def sanitizer_environment():
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:'
                           'max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=1')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    env['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:report_signal_unsafe=0'
    env['LC_ALL'] = 'C.UTF-8'
    return env


def main():
    args = sys.argv[1:]
    if args[:1] == ['--build-all']:
        build(sorted(BINARIES))
        return 0
    if len(args) < 2 or args[0] not in PROPERTIES or args[1] not in ('quick', 'thorough'):
        print(__doc__, file=sys.stderr)
        return 3
    prop, tier = args[:2]
    options = dict(zip(args[2::2], args[3::2]))
    seed = options.get('--seed', os.environ.get('VERIF_SEED', '1'))
    spec = PROPERTIES[prop]
    budget = float(options.get('--budget', spec[tier]))
    names = [spec['binary']] + (['vfc'] if spec.get('tool') else [])
    binaries = build(names)
    evidence = VERIF / 'evidence'
    evidence.mkdir(exist_ok=True)
    replays = VERIF / 'replays'
    replays.mkdir(exist_ok=True)
    command = [str(binaries[spec['binary']]), '--prop', prop, '--seed', seed, '--tier', tier,
               '--verif', str(VERIF), '--replay-dir', str(replays), '--workers', options.get('--workers', '8')]
    if spec.get('tool'):
        command += ['--tool', str(binaries['vfc'])]
    env = sanitizer_environment()
    if '--replay' in options:
        return subprocess.run(command + ['--replay', options['--replay']], env=env).returncode
    command += ['--evidence', str(evidence / f'{prop}.json')]
    status = subprocess.run(command + ['--budget', str(budget)], env=env).returncode
    if status == 0 and tier == 'thorough' and prop in FUZZED and '--nofuzz' not in options:
        status = fuzz(prop, spec, command, env, seed, float(options.get('--budget', spec[tier])))
    return status


def fuzz(prop, spec, command, env, seed, seconds):
    """Coverage-guided search; a crashing input is confirmed, shrunk and reported by the property runner."""
    binary = build([spec['binary']], fuzz=True)[spec['binary']]
    work = BUILD / f'fuzz-{prop}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    (work / 'corpus').mkdir(parents=True)
    fuzz_env = dict(env, PBT_PROP=prop, PBT_VERIF=str(VERIF))
    fuzz_seed = str(int(seed) % 2000000000 + 1)
    try:
        subprocess.run([str(binary), str(work / 'corpus'), f'-seed={fuzz_seed}', f'-max_total_time={int(seconds)}',
                        '-max_len=3000', '-len_control=20', '-timeout=60', '-rss_limit_mb=4000', '-fork=7',
                        '-ignore_timeouts=0', '-ignore_ooms=0', f'-artifact_prefix={work}/'],
                       env=fuzz_env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work,
                       timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        pass
    corpus = len(list((work / 'corpus').iterdir()))
    crashes = sorted(p for p in work.iterdir() if p.name.startswith(('crash-', 'timeout-', 'oom-')))
    status = 0
    keep = [a for a in command]
    index = keep.index('--evidence')
    del keep[index:index + 2]
    for crash in crashes[:5]:
        status = subprocess.run(keep + ['--budget', '0', '--bytes', str(crash)], env=env).returncode
        if status != 0:
            break
    print(f'{prop}: coverage-guided search of {int(seconds)} s, {corpus} inputs kept, {len(crashes)} failing')
    note_fuzz(prop, int(seconds), corpus, len(crashes), status)
    shutil.rmtree(work, ignore_errors=True)
    return status


def note_fuzz(prop, seconds, corpus, failing, status):
    import json
    path = VERIF / 'evidence' / f'{prop}.json'
    evidence = json.loads(path.read_text())
    evidence['coverage']['coverage_guided'] = {'seconds': seconds, 'inputs_with_new_coverage': corpus,
                                               'failing_inputs': failing}
    evidence['wall_s'] += seconds
    if status == 1:
        evidence['violations'] = 1
    path.write_text(json.dumps(evidence, indent=2) + '\n')


if __name__ == '__main__':
    sys.exit(main())
