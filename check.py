#!/usr/bin/env python3
"""Run the model-checking harnesses of one property against /repo's working tree.

  check.py ID              decide property ID (exit 0 holds, 1 VIOLATION, 2 error)
  check.py --replay FILE   rebuild the harness and replay one recorded violation
"""
import concurrent.futures, glob, json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('MC_JOBS', str(max(2, min(16, os.cpu_count() or 8)))))
LIMIT = {'quick': 600.0, 'thorough': 6000.0}.get(TIER, 600.0)

CXX = 'clang++'
BASE = ['-std=c++23', '-g1', '-I' + REPO + '/include', '-I' + HERE + '/mc',
        '-Wno-everything', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-sanitize=vptr']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:'
           'max_malloc_fill_size=4096:malloc_fill_byte=203:detect_stack_use_after_return=0:'
           'quarantine_size_mb=16:handle_abort=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:'
           'max_allocation_size_mb=2048:detect_container_overflow=0:alloc_dealloc_mismatch=0',
           UBSAN_OPTIONS='print_stacktrace=1')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def head_opts(src):
    opts = {}
    with open(src) as f:
        for i, line in enumerate(f):
            m = re.match(r'//\s*MC-([A-Z]+):\s*(.*)', line)
            if m:
                opts[m.group(1)] = m.group(2).strip()
            if i > 15:
                break
    return opts


def build_dir(pid):
    d = os.path.join(HERE, 'build', pid)
    os.makedirs(d, exist_ok=True)
    return d


def build(src, bdir):
    r = build_with(src, bdir, [])
    if r[1] is None and 'MC_NO_INTERNALS' in open(src).read():
        # parts that name implementation details give way when those were renamed
        r = build_with(src, bdir, ['-DMC_NO_INTERNALS'])
    return r


def build_with(src, bdir, defs):
    o = head_opts(src)
    name = os.path.splitext(os.path.basename(src))[0]
    exe = os.path.join(bdir, name)
    rt = o.get('RT', 'seq')
    if rt == 'conc':
        # instrumented accesses call the scheduler in mc_conc.cpp; that file itself is not instrumented
        r1 = sh([CXX] + BASE + defs + ['-O1', '-fsanitize=thread', '-c', src, '-o', exe + '.o'] + o.get('FLAGS', '').split())
        if r1.returncode:
            return name, None, r1.stdout
        r = sh([CXX] + BASE + ['-O1', exe + '.o', HERE + '/mc/mc_rt.cpp', HERE + '/mc/mc_conc.cpp', '-o', exe, '-lpthread', '-ldl']
               + o.get('LINK', '').split())
    else:
        san = SAN if o.get('SAN', 'on') == 'on' else ['-O2']
        r = sh([CXX] + BASE + defs + san + o.get('FLAGS', '').split() + [src, HERE + '/mc/mc_rt.cpp', '-o', exe]
               + o.get('LINK', '').split())
    if r.returncode:
        return name, None, r.stdout
    return name, exe, ''


def known_for(pid):
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def run_check(pid):
    t0 = time.time()
    bdir = build_dir(pid)
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*.json')):
        os.unlink(f)
    srcs = sorted(glob.glob(os.path.join(HERE, 'harness', pid + '_*.cpp')))
    only = os.environ.get('MC_HARNESS')
    if only:
        srcs = [s for s in srcs if only in os.path.basename(s)]
    if not srcs:
        print('no harness for', pid)
        return 2
    known = known_for(pid)
    results, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, JOBS)) as ex:
        futs = [ex.submit(build, s, bdir) for s in srcs]
        tb = {}
        for fu in concurrent.futures.as_completed(futs):
            name, exe, err = fu.result()
            tb[name] = time.time() - t0
            if not exe:
                errors.append(('build', name, err))
                continue
            left = LIMIT - (time.time() - t0)
            out = exe + '.json'
            if os.path.exists(out):
                os.unlink(out)
            cmd = [exe, '--tier', TIER, '--jobs', str(JOBS), '--out', out, '--limit', str(max(20.0, left))]
            for k in known:
                if k.startswith(name + '/'):
                    cmd += ['--known', k[len(name) + 1:]]
            r = sh(cmd, env=ENV, cwd=bdir)
            if not os.path.exists(out) or r.returncode not in (0, 1):
                msg = r.stdout[-3000:]
                if os.path.exists(out):
                    msg += json.load(open(out)).get('harness_error', '')
                errors.append(('run', name, 'exit %s\n%s' % (r.returncode, msg)))
                continue
            res = json.load(open(out))
            res['harness'] = name
            results.append(res)
    viol, kn = [], []
    for res in sorted(results, key=lambda r: r['harness']):
        for v in res['violations']:
            full = res['harness'] + '/' + v['key']
            if not v['reproduced']:
                errors.append(('replay', full, 'violation did not reproduce: ' + v['msg']))
                continue
            v['harness'] = res['harness']
            (kn if full in known else viol).append(v)
    seen_known = {v['harness'] + '/' + v['key'] for v in kn}
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    n = 0
    for v in viol:
        n += 1
        rp = os.path.join(rdir, '%s-%d.json' % (pid, n))
        json.dump(dict(property=pid, harness=v['harness'], test=v['test'], path=v['path'], key=v['key'], message=v['msg'],
                       log=v['log'], how='python3 /verif/check.py --replay ' + rp), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  %s/%s\n    %s' % (v['harness'], v['key'], v['msg'].replace('\n', '\n    ')[:1500]))
        print('    history:\n      ' + v['log'][:1500].replace('\n', '\n      '))
    tests = [dict(t, harness=r['harness']) for r in results for t in r['tests']]
    tot = lambda k: sum(t[k] for t in tests)
    samples = []
    for t in tests:
        for s in t['samples'][-1:]:
            samples.append(dict(harness=t['harness'], test=t['name'], choices=s['path'], history=s['log'][:400]))
    capped = any(r['deadline_hit'] for r in results)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking',
              coverage=dict(
                  states=tot('states') + tot('outcomes'), transitions=tot('transitions') + tot('cases'),
                  traces_validated_against_impl=tot('executions'),
                  exhaustive=bool(not capped and not errors and not viol),
                  bound_hit_by_time_cap=capped,
                  rule='states = distinct canonical states plus distinct observed outcomes; transitions = operations executed and inputs '
                       'evaluated beyond the replayed prefix; traces = complete choice paths, each executed on the real code; '
                       'sampled paths are replayed twice and must observe the same',
                  paths_replayed_twice=sum(r['replayed_twice'] for r in results),
                  tests=[{k: t[k] for k in ('harness', 'name', 'executions', 'transitions', 'cases', 'states', 'outcomes', 'pruned',
                                            'max_choices', 'table_full')} for t in tests],
                  samples=samples[:12]),
              assumptions=['bounds stated per test in DESIGN.md', 'clang 18 + libstdc++ semantics; ASan/UBSan detect memory errors on explored paths'],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for t in tests:
        print('  %-28s %-34s exec=%d trans=%d cases=%d states=%d outcomes=%d%s' % (
            t['harness'], t['name'], t['executions'], t['transitions'], t['cases'], t['states'], t['outcomes'],
            ' TABLE-FULL' if t['table_full'] else ''))
    for r in results:
        print('  [%s built at %.1fs, ran %.1fs%s]' % (r['harness'], tb[r['harness']], r['wall'], ' CAPPED' if r['deadline_hit'] else ''))
    if viol:
        return 1
    if errors:
        for kind, name, err in errors:
            print('ERROR %s %s\n%s' % (kind, name, err[-6000:]))
        return 2
    print('OK property=%s wall=%.1fs' % (pid, time.time() - t0))
    return 0


def run_replay(fn):
    v = json.load(open(fn))
    bdir = build_dir(v['property'])
    name, exe, err = build(os.path.join(HERE, 'harness', v['harness'] + '.cpp'), bdir)
    if not exe:
        print(err)
        return 2
    r = sh([exe, '--tier', TIER, '--replay', v['test'] + ':' + v['path']], env=ENV, cwd=bdir)
    print(r.stdout)
    return r.returncode


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(run_replay(sys.argv[2]))
    if len(sys.argv) != 2:
        print(__doc__)
        sys.exit(2)
    sys.exit(run_check(sys.argv[1]))
