#!/usr/bin/env python3
"""Driver of one check: builds /repo's current sources with the monitors, runs
the workload in parallel shards, merges what the monitors observed, writes the
evidence file and prints the verdict.

  run.py ID [--tier quick|thorough] [--replay FILE] [--scale F]

exit 0: held on everything observed; exit 1 + VIOLATION line: refuted (oracle,
sanitizer report, crash, reproduced hang); anything else: inconclusive.
"""
import sys, os, json, re, time, shutil, subprocess, tempfile, glob, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG, GXX = '/usr/bin/clang++-18', '/usr/bin/g++'
NPROC = max(1, min(8, os.cpu_count() or 1))

SAN_COMMON = ['-O1', '-g', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all']
BUILDS = {
    'asan':  (CLANG, SAN_COMMON + ['-fsanitize=address,undefined', '-fno-sanitize=shift-base'], ['-fsanitize=address,undefined']),
    'gasan': (GXX,   ['-O2', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all'], ['-fsanitize=address,undefined']),
    'obs':   (CLANG, SAN_COMMON + ['-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-DLTISYS_EVAL_MODEL_OBSERVABLE'], ['-fsanitize=address,undefined']),
    'msan':  (CLANG, SAN_COMMON + ['-fsanitize=memory', '-fsanitize-memory-track-origins', '-fsanitize-ignorelist=' + os.path.join(HERE, 'harness', 'msan.ignore')], ['-fsanitize=memory']),
    'tsan':  (CLANG, ['-O0', '-g', '-fsanitize=thread'], ['-fsanitize=thread']),
    'gcc':   (GXX,   ['-O2', '-g'], []),
    'gcc3':  (GXX,   ['-O3', '-g'], []),
    'clang': (CLANG, ['-O2', '-g'], []),
}
ENV = dict(os.environ,
           ASAN_OPTIONS='abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=77',
           MSAN_OPTIONS='exitcode=77', TSAN_OPTIONS='exitcode=77:halt_on_error=1')


def errs(out):
    e = [l[:300] for l in out.splitlines() if 'error' in l or 'undefined reference' in l]
    return '\n'.join(e[:8]) or out[-1500:]


def compile_one(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, cmd, r.stdout


def build(chk, kind, work):
    """returns path of the binary or raises RuntimeError"""
    cc, cf, lf = BUILDS[kind]
    od = os.path.join(work, kind); os.makedirs(od, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(od, os.path.relpath(s, REPO).replace('/', '_') + '.o'); objs.append(o)
        jobs.append([cc, '-std=c++11', '-w'] + cf + ['-I' + os.path.join(REPO, 'src'), '-c', s, '-o', o])
    h = os.path.join(HERE, 'harness', chk['harness']); ho = os.path.join(od, 'harness.o'); objs.append(ho)
    jobs.append([cc, '-std=c++17', '-w', '-DBUILD_%s=1' % kind.upper()] + cf + chk.get('cflags', []) +
                ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'harness'), '-c', h, '-o', ho])
    jobs.reverse()
    with ThreadPoolExecutor(NPROC) as ex:
        for rc, cmd, out in ex.map(compile_one, jobs):
            if rc:
                raise RuntimeError('compilation failed: %s\n%s' % (' '.join(cmd), errs(out)))
    exe = os.path.join(od, 'mon')
    rc, cmd, out = compile_one([cc] + lf + objs + ['-o', exe, '-lpthread'])
    if rc:
        raise RuntimeError('link failed: %s\n%s' % (' '.join(cmd), errs(out)))
    return exe


def read_progress(path):
    try:
        b = open(path, 'rb').read()
        mon = b[:64].split(b'\0')[0].decode('latin1')
        return mon, int.from_bytes(b[64:72], 'little'), b[80:336].split(b'\0')[0].decode('latin1')
    except Exception:
        return '', 0, ''


def run_shards(exe, kind, seed, tier, scale, work, timeout, shards=NPROC):
    procs = []
    for i in range(shards):
        out = os.path.join(work, '%s.%d.json' % (kind, i)); pr = out + '.prog'; log = open(out + '.log', 'wb')
        cmd = [exe, '--seed', str(seed), '--shard', '%d/%d' % (i, shards), '--out', out, '--progress', pr, '--scale', str(scale)]
        if tier == 'thorough':
            cmd.append('--thorough')
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, cwd=work, start_new_session=True)
        procs.append((p, out, pr, log))
    res, t0 = [], time.time()
    for p, out, pr, log in procs:
        try:
            rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
        log.close()
        res.append(dict(rc=rc, out=out, prog=read_progress(pr), log=open(out + '.log', errors='replace').read()))
    return res


def report_key(log):
    m = re.search(r'runtime error: (.*)', log)
    if m:
        loc = re.search(r'([\w./+-]+\.[ch]pp):\d+:\d+: runtime error', log)
        return 'UBSan: %s (%s)' % (m.group(1).strip(), os.path.basename(loc.group(1)) if loc else '?')
    m = re.search(r'(?:ERROR|WARNING): (\w+Sanitizer): (.*)', log)
    if m:
        fr = re.search(r'#\d+ .* in (\S.*?) .*?/src/([\w./]+):\d+', log)
        return '%s: %s%s' % (m.group(1), re.sub(r'0x[0-9a-f]+', '0x..', m.group(2))[:160], (' in ' + fr.group(1) + ' ' + fr.group(2)) if fr else '')
    return None


def known(pid):
    """known, unrepaired findings of this property: regex over the violation text"""
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    a = sys.argv[1:]; pid = a[0]; chk = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick'); scale = 1.0; replay = None; only_builds = None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--scale': scale = float(a[i + 1]); i += 2
        elif a[i] == '--replay': replay = a[i + 1]; i += 2
        elif a[i] == '--builds': only_builds = a[i + 1].split(','); i += 2
        elif a[i] == '--seed': seed = int(a[i + 1]); i += 2
        else: print('bad argument', a[i]); return 2
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='qlv-%s-' % pid)
    try:
        if replay:
            return do_replay(pid, chk, replay, work)
        return do_check(pid, chk, tier, seed, scale, work, t0, only_builds)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(pid, chk, path, work):
    r = json.load(open(path))
    exe = build(chk, r['build'], work)
    cmd = [exe, '--seed', str(r['seed']), '--only', r['case']] + (['--thorough'] if r['tier'] == 'thorough' else [])
    p = subprocess.run(cmd, env=ENV, cwd=work)
    print('replay exit', p.returncode)
    if p.returncode:
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    return 0


def do_check(pid, chk, tier, seed, scale, work, t0, only_builds):
    builds = only_builds or chk['builds'][tier]
    try: os.remove(os.path.join(HERE, 'evidence', 'replay-%s.json' % pid))
    except FileNotFoundError: pass
    timeout = 780 if tier == 'quick' else 6 * 3600
    viol, agg, inconclusive = [], dict(evals=0, cases=0, events={}, maxima={}, cases_per={}, samples=[]), []
    sigs, per_build, hung = set(), {}, False
    for bi, spec in enumerate(builds):
        kind, bscale = (spec.split(':') + ['1'])[:2]
        try:
            exe = build(chk, kind, work)
        except RuntimeError as e:
            print('INCONCLUSIVE property=%s %s' % (pid, e)); return 2
        # every build runs its own slice of the workload
        s = seed if bi == 0 else seed * 1000003 + bi
        res = run_shards(exe, kind, s, tier, scale * float(bscale), work, timeout)
        for r in res:
            mon, idx, note = r['prog']
            if r['rc'] in (0, 3) and os.path.exists(r['out']):
                j = json.load(open(r['out']))
                agg['evals'] += j['evals']; agg['cases'] += j['cases']
                per_build[kind] = per_build.get(kind, 0) + j['evals']
                for k in ('events', 'cases_per'):
                    for e, n in j[k].items(): agg[k][e] = agg[k].get(e, 0) + n
                for e, n in j['maxima'].items(): agg['maxima'][e] = max(agg['maxima'].get(e, 0), n)
                agg['samples'] += j['samples'][:3]
                b = open(r['out'] + '.sig', 'rb').read()
                if len(sigs) < 3000000:
                    sigs.update(b[k:k + 8] for k in range(0, len(b), 8))
                for v in j['vlines']:
                    case, _, txt = v.partition(': ')
                    viol.append(dict(case=case, text=txt, build=kind, seed=s, log=''))
            elif r['rc'] == 'timeout':
                inconclusive.append('shard ran out of wall-clock time in %s#%d' % (mon, idx))
            elif r['rc'] == 86 and not hung:
                # CPU-time limit: reproduce the single case before calling it a hang
                cmd = [exe, '--seed', str(s), '--only', '%s#%d' % (mon, idx)] + (['--thorough'] if tier == 'thorough' else [])
                try:
                    rc2 = subprocess.run(cmd, env=ENV, cwd=work, timeout=400, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
                except subprocess.TimeoutExpired:
                    rc2 = None
                if rc2 == 86:
                    hung = True
                    viol.append(dict(case='%s#%d' % (mon, idx), text='does not terminate (60 s of CPU time, twice) ' + note, build=kind, seed=s, log=r['log'][-3000:]))
                else:
                    inconclusive.append('CPU limit in %s#%d not reproduced' % (mon, idx))
            elif r['rc'] == 86:
                pass  # a hang is already confirmed in another shard
            elif r['rc'] == -signal.SIGKILL:
                inconclusive.append('shard killed (memory?) in %s#%d' % (mon, idx))
            else:
                key = report_key(r['log']) or 'crashed (exit %s)' % r['rc']
                viol.append(dict(case='%s#%d' % (mon, idx), text=key + (' during ' + note if note else ''), build=kind, seed=s, log=r['log'][-6000:]))
        if viol:
            break
    need = [e for e in chk.get('require', []) if not agg['events'].get(e)]
    kn = known(pid); rest = []
    printed = set()
    for v in viol:
        hit = next((k for k in kn if k[0].search(v['text'])), None)
        if hit:
            if hit[1] not in printed:
                printed.add(hit[1]); print('KNOWN-FINDING: property=%s %s' % (pid, hit[1]))
        else:
            rest.append(v)
    evd = os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=agg['evals'], distinct_nontrivial=len(sigs), rule=chk['rule'],
                            samples=agg['samples'][:12] or ['none'], workload_cases=agg['cases'],
                            cases_per_monitor=agg['cases_per'], observed_events=agg['events'],
                            largest_observed=agg['maxima'], oracle_evaluations_per_build=per_build),
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(rest))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    if rest:
        v = rest[0]; rp = os.path.join(evd, 'replay-%s.json' % pid)
        json.dump(dict(property=pid, tier=tier, seed=v['seed'], build=v['build'], case=v['case'], what=v['text'], log=v['log'],
                       rerun='python3 /verif/run.py %s --replay %s' % (pid, rp), others=[x['case'] + ': ' + x['text'] for x in rest[1:20]]), open(rp, 'w'), indent=1)
        print('%s: %s' % (v['case'], v['text']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if inconclusive or need or agg['evals'] == 0:
        print('INCONCLUSIVE property=%s %s %s' % (pid, inconclusive[:3], ('events never observed: %s' % need) if need else ''))
        return 2
    print('held property=%s evaluations=%d distinct=%d cases=%d builds=%s wall=%.1fs' % (pid, agg['evals'], len(sigs), agg['cases'], ','.join(builds), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
