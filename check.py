#!/usr/bin/env python3
"""Decides one property: checks its laws on the specification with TLC, records executions of the
code in /repo, and checks them against the specification with TLC (see DESIGN.md).

check.py C01 [--tier quick|thorough] [--seed N] [--keep DIR]
check.py --replay FILE        validate the executions of a replay file again, on the current tree
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, HARNESS)
import gen      # noqa: E402
import models   # noqa: E402

CORES = min(8, os.cpu_count() or 8)
CXX = ['g++', '-std=c++20', '-O0', '-w', '-D_GLIBCXX_ASSERTIONS', '-include', 'cstdint',
       f'-I{REPO}/include', f'-I{HARNESS}']
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_abort=0:detect_leaks=0:allow_user_segv_handler=1')


class Broken(Exception):
    """the check cannot give an answer"""


def tlc(work, name, module, config, env=None, args=(), timeout=3000, mem='1500m'):
    """runs TLC on spec/<module> with its own scratch directory; returns (status, output)"""
    md = os.path.join(work, 'md_' + name)
    os.makedirs(md, exist_ok=True)
    cmd = ['tlc', '-workers', '1', '-metadir', md, '-noGenerateSpecTE', *args, '-config', config, module]
    e = dict(os.environ, TMPDIR=work, JAVA_TOOL_OPTIONS=f'-Xmx{mem} -Xss64m -XX:ParallelGCThreads=2',
             **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f'TLC {name}: no answer in {timeout} s')
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


# ------------------------------------------------------------------ the specification's own laws
def check_model(work, m):
    t = time.time()
    rc, out = tlc(work, m['name'], m['module'], m['config'], args=m.get('args', ()),
                  timeout=m.get('timeout', 3000))
    c = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left', out)
    if rc != 0 or not c:
        raise Broken(f"model {m['name']}: TLC ended with {rc}\n" + out[-3000:])
    n = [int(x.replace(',', '')) for x in c[-1]]
    return {'model': m['name'], 'transitions': n[0], 'states': n[1], 'wall_s': round(time.time() - t, 1)}


# ------------------------------------------------------------------ building
def build_common(work, flags):
    objs = []
    jobs = [(f'{HARNESS}/h.cc', 'h.o')] + [(f'{REPO}/src/util.cc', 'util.o')]
    for src, o in jobs:
        o = os.path.join(work, o)
        r = sh([*CXX, *flags, '-c', src, '-o', o])
        if r.returncode:
            raise Broken(f'{src} does not compile\n' + r.stderr[:3000])
        objs.append(o)
    return objs


def build_shard(work, name, make, jobs, objs, flags):
    """compiles a shard; calls that the code does not offer (any more) are left out and reported"""
    dropped = []
    cc, exe = os.path.join(work, name + '.cc'), os.path.join(work, name + '.x')
    for _ in range(6):
        src, lines = make(jobs)          # lines: line number -> job
        with open(cc, 'w') as f:
            f.write(src)
        r = sh([*CXX, *flags, '-fmax-errors=0', cc, *objs, '-o', exe])
        if r.returncode == 0:
            return exe, jobs, dropped
        bad = {lines[int(n)] for n in re.findall(re.escape(cc) + r':(\d+):', r.stderr) if int(n) in lines}
        if not bad:
            raise Broken(f'{name} does not compile\n' + r.stderr[:3000])
        dropped += [j for j in jobs if j in bad]
        jobs = [j for j in jobs if j not in bad]
        if not jobs:
            break
    raise Broken(f'{name} does not compile: {len(dropped)} calls rejected, e.g. {dropped[:2]}\n' + r.stderr[:2000])


# ------------------------------------------------------------------ running and validating
def record(work, exe, name, args, timeout=300):
    tr = os.path.join(work, name + '.ndjson')
    try:
        r = subprocess.run([exe, tr, *args], capture_output=True, text=True, timeout=timeout, cwd=work, env=ENV)
    except subprocess.TimeoutExpired:
        return tr, {'what': 'HANG', 'event': 'no end within %d s' % timeout}
    if r.returncode == 0:
        return tr, None
    if os.path.exists(tr + '.crash'):
        what, ev = open(tr + '.crash').read().strip().split(' ', 1)
    else:
        what, ev = f'exit {r.returncode}', ''
    return tr, {'what': what, 'event': ev, 'stderr': r.stderr[-2000:]}


def validate(work, tr, name):
    """checks a recorded trace against the specification; returns (events, bad ids, known ids, notes)"""
    data = open(tr, 'rb').read()
    if data and not data.endswith(b'\n'):      # cut off by a crash
        data = data[:data.rfind(b'\n') + 1]
        open(tr, 'wb').write(data)
    n = data.count(b'\n')
    if n == 0:
        return 0, [], [], {}
    rc, out = tlc(work, name, 'LogicTrace.tla', 'LogicTrace.cfg', env={'TRACE': tr})
    m = re.search(r'TRACE (\d+) BAD \[(.*?)\] KNOWN \[(.*?)\]', out)
    if rc != 0 or not m or int(m[1]) != n:
        raise Broken(f'validation of {name}: TLC ended with {rc}\n' + out[-3000:])
    ids = [[int(x) for x in m[k].split(',') if x] for k in (2, 3)]
    notes = {}
    for i, e in re.findall(r'"EXPECT (\d+) (.*)"', out):
        notes[int(i)] = e.replace('\\"', '"')
    return n, ids[0], ids[1], notes


def events_of(tr, ids, limit=20):
    want, out = set(ids[:limit]), []
    if want:
        for line in open(tr, errors='replace'):
            m = re.match(r'\{"i":(\d+),', line)
            if m and int(m[1]) in want:
                out.append(line.strip())
    return out


def known_findings(pid):
    """finding: property=<id> rule=<rule> <what fails>"""
    out = {}
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) rule=(\S+) (.*)', line)
        if m and m[1] == pid:
            out[m[2]] = m[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        return selftest()
    pid, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='lv-' + pid + '-')
    os.makedirs(work, exist_ok=True)
    try:
        return run(pid, tier, seed, work, t0)
    except Broken as e:
        print(f'ERROR property={pid} {e}')
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, work, t0):
    plan = gen.plan(pid, tier, seed)             # shards: name, jobs, make, flags, runs
    laws = models.models(pid, tier, work)
    flagsets = sorted({tuple(s['flags']) for s in plan})
    objs = {}
    for k, fl in enumerate(flagsets):
        d = os.path.join(work, f'o{k}')
        os.makedirs(d, exist_ok=True)
        objs[fl] = build_common(d, list(fl))

    total_jobs = sum(len(s['jobs']) for s in plan)
    rejected, crashes, dropped, samples = [], [], [], []
    n_events = n_traces = n_known = 0
    known_ex, model_stats = [], []

    def shard(s):
        fl = tuple(s['flags'])
        exe, jobs, drop = build_shard(work, s['name'], s['make'], s['jobs'], objs[fl], list(fl))
        res, stats = [], []
        for k, args in enumerate(s['runs']):
            name = f"{s['name']}_{k}"
            if s.get('prepare'):                 # behaviours of the specification to be replayed
                try:
                    args = s['prepare'](work, name, jobs, tlc, args, stats)
                except RuntimeError as e:
                    raise Broken(str(e))
            tr, crash = record(work, exe, name, args, 300 if tier == 'quick' else 1800)
            n, bad, known, notes = validate(work, tr, name)
            res.append({'shard': s['name'], 'args': args, 'events': n, 'crash': crash,
                        'bad': bad, 'bad_events': events_of(tr, bad), 'notes': notes,
                        'known': len(known), 'known_events': events_of(tr, known, 3),
                        'sample': open(tr).readline().strip() if n else ''})
            os.remove(tr)
        os.remove(exe)
        return drop, res, stats

    ex = cf.ThreadPoolExecutor(CORES)
    fs = [ex.submit(check_model, work, m) for m in laws]
    fr = [ex.submit(shard, s) for s in plan]
    errors = []
    for f in fs:
        try:
            model_stats.append(f.result())
        except Broken as e:
            errors.append(e)
    for f in fr:
        try:
            drop, res, stats = f.result()
        except Broken as e:
            errors.append(e)
            continue
        dropped += drop
        model_stats += stats
        for r in res:
            n_events += r['events']
            n_traces += 1
            n_known += r['known']
            known_ex += r['known_events'][:1]
            if r['bad']:
                rejected.append(r)
            if r['crash']:
                crashes.append(r)
            if r['sample'] and len(samples) < 4:
                samples.append(r['sample'][:400])

    findings = known_findings(pid)
    unlisted_known = n_known and 'ashr-lost-sign' not in findings
    n_bad = sum(len(r['bad']) for r in rejected) + len(crashes) + (n_known if unlisted_known else 0)
    wall = round(time.time() - t0, 1)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': sum(m['states'] for m in model_stats) + n_events,
              'transitions': sum(m['transitions'] for m in model_stats) + n_events,
              'traces_validated_against_impl': n_traces,
              'events_validated_against_impl': n_events,
              'events_matching_known_findings': n_known,
              'calls_sites': total_jobs,
              'calls_not_offered_by_the_code': len(dropped),
              'models': model_stats,
              'samples': samples},
          'assumptions': ['TLC, g++ and the recording harness (harness/h.hh) are trusted',
                          'contents of objects are read through str("b"), operator[] and the public members'],
          'violations': n_bad,
          'wall_s': wall}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if n_bad:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        lines, notes = [], []
        for r in rejected:
            for e in r['bad_events']:
                i = json.loads(e)['i']
                lines.append({'shard': r['shard'], 'run': r['args'], 'event': e, 'expected': r['notes'].get(i)})
        for r in crashes:
            lines.append({'shard': r['shard'], 'run': r['args'], **r['crash']})
        if unlisted_known:
            lines += [{'event': e, 'expected': 'see AshrLostSign'} for e in known_ex]
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'violations': lines}, f, indent=1)
        for x in lines[:5]:
            print('  ' + json.dumps(x)[:900])
        print(f'{n_bad} of {n_events} recorded calls are not steps of the specification')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        raise errors[0]
    if len(dropped) * 10 > total_jobs:
        raise Broken(f'{len(dropped)} of {total_jobs} calls do not compile, e.g. {dropped[:3]}')
    if dropped:
        print(f'NOTE {len(dropped)} of {total_jobs} calls do not compile and were left out, e.g. {dropped[0]}')
    for rule, what in findings.items():
        if rule == 'ashr-lost-sign' and n_known:
            print(f'KNOWN-FINDING: property={pid} {what} ({n_known} recorded calls, e.g. {known_ex[0][:200]}...)')
    print(f'OK property={pid} tier={tier} seed={seed}: {n_events} calls in {n_traces} traces are steps of the '
          f'specification; {len(model_stats)} models, {sum(m["states"] for m in model_stats)} states; {wall} s')
    return 0


SELFTEST = '''{"i":1,"o":"and","x":[[2,0,4,"1x"],[2,0,4,"z0"]],"r":[[2,0,4,"x0"]]}
{"i":2,"o":"and","x":[[2,0,4,"1x"],[2,0,4,"z0"]],"r":[[2,0,4,"z0"]]}
{"i":3,"o":"str","t":"h","x":[[5,0,2,"11010"]],"rt":"1a"}
{"i":4,"o":"str","t":"h","x":[[5,0,2,"11010"]],"rt":"1b"}
'''


def selftest():
    """the tools are there, and the trace checker accepts and rejects what it should"""
    work = tempfile.mkdtemp(prefix='lv-self-')
    try:
        tr = os.path.join(work, 't.ndjson')
        open(tr, 'w').write(SELFTEST)
        n, bad, known, notes = validate(work, tr, 'self')
        print(n, bad, known, notes)
        build_common(work, [])
        return 0 if (n, bad, known) == (4, [2, 4], []) and 2 in notes else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    print(f"property {d['property']}, tier {d['tier']}, seed {d['seed']}; the recorded calls were:")
    for v in d['violations'][:10]:
        print('  ' + json.dumps(v)[:1500])
    print('running the same check on the current tree:')
    work = tempfile.mkdtemp(prefix='lv-replay-')
    try:
        return run(d['property'], d['tier'], d['seed'], work, time.time())
    except Broken as e:
        print(f'ERROR {e}')
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
