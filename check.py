#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

  check.py P01 [--tier quick|thorough] [--seed N] [--time S] [--only SUBCHECK] [--keep]
  check.py P01 --replay FILE [--times N]

Exit 0: held on everything explored (known findings are printed). Exit 1: VIOLATION line. Exit 2: no answer.
"""
import argparse
import glob
import hashlib
import json
import os
import platform
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from groups import GROUPS, PROPERTY_GROUP, TIMES  # noqa: E402

REPO = os.environ.get('PBT_REPO', '/repo')
CACHE = os.environ.get('PBT_CACHE')  # development only: object cache by content
JOBS = max(1, min(8, os.cpu_count() or 1))


class BuildError(Exception):
    pass


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def lib_sources(group):
    """Every source of the library in the directories the group needs (a new file is picked up by itself)."""
    out = []
    for pattern in group.get('lib', ['*.cpp', 'math/*.cpp', 'file/*.cpp', 'penguinv/*.cpp', 'tool/*.cpp', 'thirdparty/kissfft/*.c']):
        for path in sorted(glob.glob(os.path.join(REPO, 'src', pattern))):
            name = os.path.basename(path)
            if '/thirdparty/kissfft/' in path and name not in ('kiss_fft.c', 'kiss_fftnd.c'):
                continue
            out.append(path)
    return out


def tree_digest(directory, extensions):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(directory)):
        dirs.sort()
        for name in sorted(files):
            if name.endswith(extensions):
                p = os.path.join(root, name)
                h.update(p.encode())
                h.update(read(p))
    return h.hexdigest()


def compile_one(cmd, source, obj, cache_key):
    if CACHE and cache_key:
        cached = os.path.join(CACHE, cache_key + '.o')
        if os.path.exists(cached):
            shutil.copyfile(cached, obj)
            return
    r = subprocess.run(cmd + ['-c', source, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd + ['-c', source]), r.stdout[-6000:]))
    if CACHE and cache_key:
        os.makedirs(CACHE, exist_ok=True)
        tmp = cached + '.%d' % os.getpid()
        shutil.copyfile(obj, tmp)
        os.replace(tmp, cached)


ORDINARY = ['-mno-avx512f'] if platform.machine() == 'x86_64' else []


def build(group, directory, fuzzer=False):
    """Compiles /repo's working tree and the harness; returns the program, or one for each variant of the group by its name."""
    sanitize = group.get('sanitize', ['-fsanitize=address'])
    common = ['-O1', '-g1', '-pthread', '-w'] + group.get('flags', []) + sanitize
    cxx, cc = 'g++', 'gcc'
    if fuzzer:
        cxx, cc = 'clang++', 'clang'
        common = ['-O1', '-g1', '-pthread', '-w'] + group.get('flags', []) + sanitize + ['-fsanitize=fuzzer-no-link']
    common += ['-march=native']
    lib_cxx = [cxx, '-std=gnu++11'] + common + group.get('libflags', []) + ['-I' + os.path.join(REPO, 'src')]
    lib_cc = [cc] + common + group.get('libflags', []) + ['-I' + os.path.join(REPO, 'src')]
    harness = [cxx, '-std=gnu++17'] + common + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'pbt'), '-I' + os.path.join(VERIF, 'harness')]
    if fuzzer:
        harness.append('-DPBT_LIBFUZZER')
    jobs = []
    variants = group.get('variants', {})
    of_variant = {name: [] for name in variants}
    repo_headers = tree_digest(os.path.join(REPO, 'src'), ('.h', '.inc', '.hpp')) if CACHE else ''
    own_headers = tree_digest(os.path.join(VERIF, 'pbt'), ('.h', '.inc')) + tree_digest(os.path.join(VERIF, 'harness'), ('.h', '.inc')) if CACHE else ''

    def add(cmd, source, own, variant=''):
        cmd = cmd + group.get('fileflags', {}).get(os.path.basename(source), []) + variants.get(variant, [])
        obj = os.path.join(directory, hashlib.sha256(source.encode()).hexdigest()[:16] + variant + '.o')
        key = None
        if CACHE:
            h = hashlib.sha256('\0'.join(cmd + [source, repo_headers, own_headers if own else '']).encode())
            h.update(read(source))
            key = h.hexdigest()
        jobs.append((cmd, source, obj, key))
        if variant:
            of_variant[variant].append(obj)

    add(harness, os.path.join(VERIF, 'pbt', 'runner.cpp'), True)
    for source in group['harness']:
        add(harness, os.path.join(VERIF, 'harness', source), True)
    for source in group.get('repo_sources', []):  # compiled with the harness flags
        add(harness, os.path.join(REPO, source), False)
    for source in group.get('generated', []):  # made by the group's prepare step, full paths
        add(lib_cxx, source, False)
    for source in lib_sources(group):
        cmd = lib_cc if source.endswith('.c') else lib_cxx
        if b'cpu_identification' not in read(source) and b'immintrin' not in read(source):
            cmd = cmd + ORDINARY  # nothing is there for the newest processors: conversions must not depend on their instructions
        elif variants:
            for name in variants:
                add(cmd, source, False, name)
            continue
        add(cmd, source, False)
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(JOBS) as pool:
        for f in [pool.submit(compile_one, *j) for j in jobs]:
            f.result()
    shared = [j[2] for j in jobs if not any(j[2] in objects for objects in of_variant.values())]

    def link(name):
        program = os.path.join(directory, ('fuzz' if fuzzer else 'run') + name)
        cmd = [cxx] + common + ([] if not fuzzer else ['-fsanitize=fuzzer']) + shared + of_variant.get(name, []) + ['-o', program] + group.get('link', [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
        return program

    if variants:
        with ThreadPoolExecutor(JOBS) as pool:
            return dict(zip(variants, pool.map(link, variants)))
    return link('')


def merge(total, result, variant):
    """Results of one more variant of the library added to those so far."""
    if variant:
        result['variant'] = variant
        result['labels'] = {'%s: %s' % (variant, k): v for k, v in result['labels'].items()}
    if total is None:
        return result
    for key in ('evaluations', 'distinct_nontrivial', 'discarded', 'flaky', 'infrastructure'):
        total[key] += result[key]
    total['labels'].update(result['labels'])
    total['samples'] = total['samples'] + result['samples']
    total['flaky_text'] = (total['flaky_text'] + ' ' + result['flaky_text']).strip()
    if result['violation']:
        for key in ('violation', 'message', 'case', 'tape', 'before', 'variant'):
            if key in result:
                total[key] = result[key]
    return total


def environment(group, directory):
    env = dict(os.environ)
    asan = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=165:abort_on_error=0:handle_abort=1:exitcode=66'
    env['ASAN_OPTIONS'] = asan + (':' + group['asan'] if 'asan' in group else '')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=67'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=68:second_deadlock_stack=1:atexit_sleep_ms=0'
    env['POCL_CACHE_DIR'] = os.path.join(directory, 'pocl')
    env['XDG_CACHE_HOME'] = os.path.join(directory, 'cache')
    env['TMPDIR'] = directory
    env.update({k: v.replace('@DIR@', directory) for k, v in group.get('env', {}).items()})
    for k in ('POCL_CACHE_DIR', 'XDG_CACHE_HOME'):
        os.makedirs(env[k], exist_ok=True)
    return env


def known_findings():
    """id -> (property, text) of the findings recorded (not repaired) in known_findings.txt"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)$', line.strip())
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--self-test', action='store_true', help='checks that the tools are there; builds nothing that lasts')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--time', type=float, default=None)
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--times', type=int, default=1)
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    if args.self_test:
        for tool in ('g++', 'gcc', 'clang++', 'python3'):
            if shutil.which(tool) is None:
                print('missing tool: ' + tool)
                return 1
        print('ready')
        return 0
    prop = args.property
    begin = time.time()
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    group = GROUPS[PROPERTY_GROUP[prop]]
    known = {k: v for k, v in known_findings().items() if v[0] == prop}
    directory = tempfile.mkdtemp(prefix='vp-pbt-')
    child = [None]

    def stop(signum, frame):
        if child[0] is not None:
            try:
                os.killpg(child[0].pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(directory, ignore_errors=True)
        os._exit(2)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        try:
            if 'prepare' in group:
                group['prepare'](group, directory, REPO)
            program = build(group, directory)
        except (BuildError, subprocess.CalledProcessError) as e:
            print('BUILD FAILED\n%s\n%s' % (e, getattr(e, 'output', '')))
            return 2
        programs = program if isinstance(program, dict) else {'': program}
        env = environment(group, directory)
        scratch = os.path.join(directory, 'scratch')
        os.makedirs(scratch)
        if args.replay:
            env['PBT_VARIANT'] = json.loads(read(args.replay).decode('utf-8', 'replace'), strict=False).get('variant', '')
            cmd = [programs.get(env['PBT_VARIANT'], list(programs.values())[0]), '--prop', prop, '--replay', os.path.abspath(args.replay), '--times', str(args.times), '--scratch', scratch]
            return subprocess.run(cmd, env=env, cwd=scratch).returncode
        built = time.time() - begin
        quick_time, thorough_time = TIMES.get(prop, (14, 240))
        limit = args.time if args.time is not None else (quick_time if args.tier == 'quick' else thorough_time)
        limit /= len(programs)
        result = None
        for variant, program in programs.items():
            out = os.path.join(directory, 'result.json')
            if os.path.exists(out):
                os.remove(out)
            env['PBT_VARIANT'] = variant
            cmd = [program, '--prop', prop, '--seed', str(seed), '--time', str(limit), '--workers', str(args.workers or group.get('workers', JOBS)), '--out', out,
                   '--scratch', scratch, '--tier', args.tier, '--known', ','.join(sorted(known))]
            if os.environ.get('PBT_VERBOSE'):
                cmd += ['--verbose', '1']
            if args.only:
                cmd += ['--only', args.only]
            log = os.path.join(directory, 'log')
            with open(log, 'wb') as f:
                child[0] = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    code = child[0].wait(timeout=limit + 330)
                except subprocess.TimeoutExpired:
                    code = None
                try:
                    os.killpg(child[0].pid, signal.SIGKILL)
                except OSError:
                    pass
            text = read(log).decode('utf-8', 'replace')
            if code not in (0, 1) or not os.path.exists(out):
                print('the runner gave no answer (code %s)\n%s' % (code, text[-4000:]))
                return 2
            result = merge(result, json.loads(read(out).decode('utf-8', 'replace'), strict=False), variant)
            if result['violation']:
                break
        fuzz = None
        if args.tier == 'thorough' and group.get('fuzz') and prop in group['fuzz'] and not result['violation']:
            fuzz = run_fuzzer(group, prop, directory, env, seed, group['fuzz'][prop], scratch, program, known)
            if fuzz and fuzz.get('tape'):
                result['violation'] = True
                result['message'] = fuzz['message']
                result['case'] = fuzz['case']
                result['tape'] = fuzz['tape']
        if result['evaluations'] == 0:
            print('no case was generated\n' + text[-4000:])
            return 2
        violations = 1 if result['violation'] else 0
        coverage = {
            'evaluations': result['evaluations'],
            'distinct_nontrivial': result['distinct_nontrivial'],
            'rule': 'cases are generated from a byte tape, one sub-check drawn per case; non-trivial and distinct by generated content: ' + result['rule'],
            'samples': result['samples'],
            'discarded': result['discarded'],
            'labels': result['labels'],
            'build_s': round(built, 1),
            'unconfirmed_failures': result['flaky'],
        }
        if result['flaky']:
            coverage['unconfirmed_text'] = result['flaky_text']
            coverage['unconfirmed_output'] = text[-4000:]
        if result['infrastructure']:
            coverage['lost_workers'] = result['infrastructure']
        if known:
            coverage['known_findings_seen'] = result['known']
        if fuzz:
            coverage['coverage_guided'] = {k: v for k, v in fuzz.items() if k not in ('tape', 'case')}
        evidence = {'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
                    'assumptions': group.get('assumptions', []), 'wall_s': round(time.time() - begin, 1), 'violations': violations}
        if not args.no_evidence:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1)
        for k in sorted(known):
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[k][1], k))
        print('%s %s: %d cases, %d distinct non-trivial, %d discarded, build %.1f s, total %.1f s' % (
            prop, args.tier, result['evaluations'], result['distinct_nontrivial'], result['discarded'], built, time.time() - begin))
        if result['flaky']:
            print('unconfirmed failures: %d (%s)\n%s' % (result['flaky'], result['flaky_text'][:600], text[-3000:]))
        if violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha256(result['tape'].encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'message': result['message'], 'case': result['case'], 'before': result.get('before', ''), 'tape': result['tape'], 'variant': result.get('variant', ''), 'seed': seed, 'tier': args.tier,
                           'replay_command': 'python3 check.py %s --replay %s' % (prop, path), 'program_output': text[-6000:]}, f, indent=1)
            print(result['case'][:3000])
            print(result['message'][:3000])
            print(text[-3000:])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def run_fuzzer(group, prop, directory, env, seed, seconds, scratch, program, known):
    """libFuzzer over the same tapes: coverage-guided search; a finding is confirmed by the ordinary runner."""
    try:
        fuzzer_dir = os.path.join(directory, 'fuzzer')
        os.makedirs(fuzzer_dir)
        binary = build(group, fuzzer_dir, fuzzer=True)
    except BuildError as e:
        return {'error': str(e)[:500]}
    fenv = dict(env, PBT_PROP=prop, PBT_SCRATCH=scratch)
    fenv['ASAN_OPTIONS'] += ':detect_odr_violation=0'
    corpus = os.path.join(fuzzer_dir, 'corpus')
    os.makedirs(corpus)
    # libFuzzer has nothing that prevents an exhausted tape: start it from random tapes
    import random
    rnd = random.Random(seed)
    for i in range(64):
        with open(os.path.join(corpus, 'r%d' % i), 'wb') as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([16, 64, 256, 1024]))))
    executions = 0
    tape = None
    message = ''
    procs = []
    for w in range(JOBS):
        own = os.path.join(fuzzer_dir, 'scratch%d' % w)
        os.makedirs(own)
        art = os.path.join(fuzzer_dir, 'art%d-' % w)
        log = open(os.path.join(fuzzer_dir, 'log%d' % w), 'wb')
        procs.append(subprocess.Popen([binary, corpus, '-seed=%d' % (seed * 100 + w + 1), '-max_total_time=%d' % seconds, '-max_len=4096', '-timeout=20', '-rss_limit_mb=3000',
                                       '-print_final_stats=1', '-reload=1', '-artifact_prefix=' + art], stdout=log, stderr=log, env=dict(fenv, PBT_SCRATCH=own), cwd=own))
    for p in procs:
        try:
            p.wait(timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            p.kill()
    features = 0
    for w in range(JOBS):
        text = read(os.path.join(fuzzer_dir, 'log%d' % w)).decode('utf-8', 'replace')
        m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', text)
        executions += int(m[-1]) if m else 0
        m = re.findall(r'cov: (\d+) ft: (\d+)', text)
        if m:
            features = max(features, int(m[-1][0]))
    case = ''
    for artifact in sorted(glob.glob(os.path.join(fuzzer_dir, 'art*'))):
        data = read(artifact).hex()
        path = os.path.join(fuzzer_dir, 'candidate.json')
        with open(path, 'w') as f:
            json.dump({'tape': data}, f)
        r = subprocess.run([program, '--prop', prop, '--replay', path, '--times', '3', '--scratch', scratch, '--known', ','.join(sorted(known))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=scratch)
        if r.returncode == 1:
            tape, message, case = data, 'found by the coverage-guided search', r.stdout[-3000:]
            break
    out = {'executions': executions, 'edges_covered': features, 'corpus': len(os.listdir(corpus)), 'artifacts': len(glob.glob(os.path.join(fuzzer_dir, 'art*')))}
    if tape:
        out.update(tape=tape, message=message, case=case)
    return out


if __name__ == '__main__':
    sys.exit(main())
