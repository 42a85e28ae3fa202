#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree, runs them, and reports.

  check.py C01 [--replay FILE] [--keep]

VERIF_SEED and VERIF_TIER select the seed and the depth. Exit 0: the property
held on everything explored; 1 with a VIOLATION line: it is broken; 2: the check
itself could not run.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'harness'))
from config import CHECKS, HARD_RSS_MB, TYPES  # noqa: E402

JOBS = os.cpu_count() or 4
LIBS = ('-lntl -lgmp -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -labsl_int128 '
        '-labsl_strings -labsl_throw_delegate -labsl_bad_optional_access -labsl_hashtablez_sampler -labsl_raw_logging_internal '
        '-L/usr/lib/x86_64-linux-gnu/android -lcrypto -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lpthread').split()
INC = ['-I' + REPO, '-I' + HERE + '/standins', '-I' + HERE + '/harness',
       '-I/usr/include/android', '-I/usr/include/eigen3']
BASE = ['-std=c++17', '-w', '-maes', '-mpclmul', '-DUSE_ASM']
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS}


# Bounds on memory, several times what any case needs; beyond them a process fails by itself.
LIMIT_MB = {'quick': 4000, 'thorough': 12000}


class BuildError(Exception):
    pass


def repo_sources():
    src = []
    for p in sorted(glob.glob(REPO + '/distributed_vector_ole/**/*.cpp', recursive=True)):
        b = os.path.basename(p)
        if not (b.endswith('_test.cpp') or b.endswith('_benchmark.cpp')):
            src.append(p)
    return src


def sh(cmd, timeout=840):
    for wait in (10, 30, None):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors='replace')
        # a compiler that was ended because memory ran low gets another chance
        if p.returncode == 0 or wait is None or not ('Killed' in out or p.returncode < 0 or 'ot enough memory' in out):
            break
        time.sleep(wait)
    return p.returncode, out


class Builder:
    """Compiles repository sources once per flag set, and the harness TUs."""

    def __init__(self, out):
        self.out = out

    def build(self, variants, hooks=True):
        try:
            return self.build_(variants, hooks)
        except BuildError:
            if not any('repo' in v for v in variants):
                raise
            # the selection of source files may be too narrow for a changed tree
            return self.build_([{k: x for k, x in v.items() if k != 'repo'} for v in variants], hooks)

    def build_(self, variants, hooks=True):
        """variants: list of dict(name, src, flags, link, types, cxx). Returns {(variant, type): exe}."""
        jobs, links = [], []
        for v in variants:
            flags = BASE + v.get('flags', ['-O1', '-fopenmp']) + (['-DDVOLE_VERIF_HOOKS'] if hooks else ['-DDV_NO_HOOKS'])
            flags = [f for f in flags if f not in v.get('drop', [])]
            cxx = v.get('cxx', 'g++')
            d = os.path.join(self.out, v['name'])
            os.makedirs(d, exist_ok=True)
            common = []
            only = v.get('repo')
            for s in repo_sources():
                if only is not None and os.path.basename(s) not in only:
                    continue
                o = os.path.join(d, 'r_' + s[len(REPO) + 1:].replace('/', '_') + '.o')
                jobs.append((1, [cxx] + flags + INC + ['-c', s, '-o', o]))
                common.append(o)
            for s in v.get('support', ['interpose.cc']):
                o = os.path.join(d, 's_' + s + '.o')
                sf = flags + v.get('support_flags', {}).get(s, [])
                jobs.append((2, [cxx] + sf + INC + ['-c', os.path.join(HERE, 'harness', s), '-o', o]))
                common.append(o)
            for t in (v.get('types') or [None]):
                o = os.path.join(d, 'h%s.o' % ('' if t is None else t))
                td = [] if t is None else ['-DDV_TYPE=%d' % t]
                jobs.append((0, [cxx] + flags + td + INC + ['-c', os.path.join(HERE, 'harness', v['src']), '-o', o]))
                exe = o[:-2]
                lf = v.get('link', ['-fopenmp'])
                links.append(((v['name'], t), [cxx, o] + common + ['-o', exe] + lf + LIBS + v.get('libs', [])))
        jobs.sort(key=lambda j: j[0])
        res = {}
        with ThreadPoolExecutor(JOBS) as ex:
            for rc, out in ex.map(sh, [j[1] for j in jobs]):
                if rc:
                    raise BuildError(out[:4000])
            for (key, cmd), (rc, out) in zip(links, ex.map(sh, [l[1] for l in links])):
                if rc:
                    raise BuildError(out[:2000])
                res[key] = cmd[cmd.index('-o') + 1]
        return res


def run_one(exe, args, env, timeout, stall, tag, out_dir, wrap=[], limit_mb=None, stop=None):
    """Runs one harness process; 'timeout' if it does not end, or stays in one case for `stall` seconds.

    limit_mb bounds its address space, so that code whose memory runs away fails in its own process (bad_alloc)
    instead of being ended from outside, which would leave the check without an answer."""
    cur, outf = [os.path.join(out_dir, tag + s) for s in ('.cur', '.json')]
    for f in (cur, outf):
        if os.path.exists(f):
            os.unlink(f)
    e = dict(os.environ)
    e.update(env)
    if limit_mb:
        wrap = ['sh', '-c', 'ulimit -v %d; exec "$@"' % (limit_mb << 10), 'sh'] + wrap
    p = subprocess.Popen(wrap + [exe] + args + ['--cur', cur, '--out', outf], stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, env=e, cwd=out_dir, start_new_session=True)
    t0 = t1 = time.time()
    last = None
    while True:
        try:
            so, _ = p.communicate(timeout=2)
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            pos = open(cur).read() if os.path.exists(cur) else None
            if pos != last:
                last, t1 = pos, time.time()
            if stop is not None and stop.is_set():
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return 'stopped', None, '', None
            if time.time() - t0 < timeout and time.time() - t1 < stall:
                continue
            os.killpg(p.pid, signal.SIGKILL)
            so, _ = p.communicate()
            rc = 'timeout'
            break
    case = None
    if os.path.exists(cur):
        c = open(cur).read().strip()
        case = int(c) if c.isdigit() and int(c) < 2 ** 63 else -1
    res = json.load(open(outf)) if os.path.exists(outf) else None
    return rc, res, so.decode(errors='replace'), case


def san_summary(text):
    keep = []
    for line in text.splitlines():
        if re.search(r'runtime error|ERROR: |WARNING: ThreadSanitizer|SUMMARY|^\s+#\d', line):
            keep.append(line.strip())
        if len(keep) > 12:
            break
    return ' | '.join(keep)[:1500]


def load_known(prop):
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed = replay['seed']
        tier = replay['tier']
    t0 = time.time()
    out = tempfile.mkdtemp(prefix='dvole-%s-' % prop)
    try:
        rc = work(prop, cfg, seed, tier, replay, out, t0)
    except BuildError as e:
        print('the monitors do not build against this tree:\n' + str(e))
        rc = 2
    finally:
        if '--keep' in sys.argv:
            print('kept', out)
        else:
            shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def work(prop, cfg, seed, tier, replay, out, t0):
    variants = [v for v in cfg['variants'] if tier == 'thorough' or not v.get('thorough_only')]
    for v in variants:
        if tier == 'quick' and 'quick_types' in v:
            v['types'] = v['quick_types']
    if replay:
        variants = [v for v in variants if v['name'] == replay['variant']]
        for v in variants:
            if v.get('types'):
                v['types'] = [replay['type']]
    b = Builder(out)
    hooks = True
    try:
        exes = b.build(variants, hooks=cfg.get('hooks', False))
    except BuildError:
        if cfg.get('degrade'):
            # a part of the monitors that uses internal interfaces, which may have changed
            flags, drop = cfg['degrade']
            for v in variants:
                v['flags'] = v['flags'] + flags
            cfg['require'] = {k: x for k, x in cfg['require'].items() if k not in drop}
            exes = b.build(variants, hooks=cfg.get('hooks', False))
        elif cfg.get('hooks') and cfg.get('works_without_hooks'):
            hooks = False
            exes = b.build(variants, hooks=False)
        else:
            raise
    t_build = time.time() - t0
    tasks = []
    for v in variants:
        par = dict(v['run'])
        par.update(v.get('run_' + tier, {}))
        for t in (v.get('types') or [None]):
            n = par.get('shards', 1)
            for s in range(n):
                cases = par['cases']
                if isinstance(cases, dict):
                    cases = cases.get(TYPES[t], cases.get('*'))
                # leave time for an answer where building or running is unusually slow
                budget = par['budget'] if tier == 'thorough' else max(20, min(par['budget'], 600 - t_build))
                args = ['--seed', str(seed * 16 + (t or 0)), '--cases', str(cases), '--budget', str(int(budget)),
                        '--shard', str(s), str(n)] + par.get('args', [])
                if tier == 'thorough':
                    args.append('--thorough')
                if replay:
                    if s:
                        continue
                    args += ['--only', str(replay['case'])] if replay['case'] >= 0 else []
                env = {'OMP_NUM_THREADS': str(par.get('threads', 3)), 'OMP_WAIT_POLICY': 'passive', 'OMP_DYNAMIC': 'false'}
                env.update(par.get('env', {}))
                tag = '%s-%s-%d' % (v['name'], t, s)
                tasks.append((v, t, tag, exes[(v['name'], t)], args, env, par['budget'] + par.get('grace', 180),
                              par.get('stall', 120 if tier == 'quick' else 600)))
    reps, viols, errors, notes = [], [], [], []
    known = load_known(prop)
    stop = threading.Event()  # a violation has been seen: no need to start what is left
    limit = cfg.get('limit_mb', {}).get(tier) or LIMIT_MB[tier]

    def run(task, extra=[], mark='', patience=1):
        v, t, tag, exe, args, env, to, stall = task
        return run_one(exe, args + extra, env, to, stall * patience, tag + mark, out, v.get('wrap', []),
                       None if v.get('sanitizer') else limit, stop)

    def go(task):
        """Runs one process; returns (task, report or None, violations [(what, case)], errors, notes)."""
        v, t, tag, exe, args, env, to, stall = task
        if stop.is_set():
            return task, None, [], [], []
        t1 = time.time()
        rc, res, so, case = run(task)
        vs, es, ns = [], [], []
        if rc == 'stopped':
            return task, None, [], [], []
        only = ['--only', str(case)] if case is not None and case >= 0 else []
        if rc == 'timeout' and not stop.is_set():
            rc2, _, _, _ = run(task, only, 'r', 2.5)
            if rc2 == 'timeout':
                vs.append(('no progress: the case does not terminate', case))
            else:
                ns.append('timeout not reproduced: %s case %s' % (tag, case))
        elif rc == -int(signal.SIGKILL) and not stop.is_set():
            # ended from outside, probably because memory ran low: again, alone among its kind
            with alone:
                rc, res, so, case = run(task, mark='k')
            ns.append('killed and run again: %s' % tag)
            if rc in ('timeout', 'stopped'):
                rc = 'killed, then ' + rc
        if '--times' in sys.argv:
            print('%-24s %6.1f s' % (tag, time.time() - t1))
        if rc != 'timeout':
            san = san_summary(so) if v.get('sanitizer') else ''
            if res is not None:
                vs += [(x['what'], x['case']) for x in res['violations']]
            if v.get('sanitizer') and 'hard rss limit exhausted' in so:
                vs.append(('memory use runs away: more than %d MB' % HARD_RSS_MB, case))
            elif v.get('sanitizer') and REPORT.search(so):
                # every report, so that listed findings cannot hide others
                vs += [('sanitizer: ' + w, case if res is None else -1) for w in split_reports(so)]
            elif rc not in (0, 1) or res is None:
                if isinstance(rc, int) and rc < 0 and -rc in [int(s) for s in CRASH]:
                    vs.append(('crash with %s: %s' % (signal.Signals(-rc).name, (so[-300:] or san)), case))
                else:
                    es.append('%s ended with %s: %s' % (tag, rc, so[-1500:]))
        if any(not any(rx.search(w) for rx, _ in known) for w, _ in vs):
            stop.set()
        return task, res, vs, es, ns

    alone = threading.Lock()
    with ThreadPoolExecutor(cfg.get('parallel', JOBS)) as ex:
        for task, res, vs, es, ns in ex.map(go, tasks):
            v, t, tag, exe, args, env, to, stall = task
            ty = TYPES[t] if t is not None else '-'
            if res is not None:
                reps.append((ty, res))
            for what, c in vs:
                viols.append({'property': prop, 'variant': v['name'], 'type': t, 'type_name': ty, 'seed': seed,
                              'tier': tier, 'case': c if c is not None else -1, 'what': what, 'env': env,
                              'harness_args': args})
            errors += es
            notes += ns
    # collate
    stats, sigs, samples, cases = {}, set(), [], 0
    for ty, r in reps:
        cases += r['cases']
        sigs.update(r['sigs'])
        samples += r['samples'][:1]
        for k, x in r['stats'].items():
            stats[k] = max(stats.get(k, 0), x) if k.startswith('max_') else stats.get(k, 0) + x
    real, seen_known = [], {}
    for x in viols:
        for rx, text in known:
            if rx.search(x['what']):
                seen_known[text] = x['what']
                break
        else:
            real.append(x)
    for text in sorted(set(t for _, t in known)) if not replay else []:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': max([cases] + [stats.get(k, 0) for k in cfg.get('evaluations', [])]), 'distinct_nontrivial': len(sigs), 'rule': cfg['rule'], 'cases': cases,
                       'samples': samples[:12], 'monitor_counts': stats,
                       'types': sorted(set(t for t, _ in reps)), 'processes': len(reps),
                       'known_findings_observed': sorted(seen_known), 'build_s': round(t_build, 1),
                       'hooks': bool(cfg.get('hooks')) and hooks},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(real)}
    if notes:
        ev['coverage']['notes'] = notes
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not replay:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for e in errors:
        print('ERROR', e)
    if real:
        rd = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, x in enumerate(real[:5]):
            path = os.path.join(rd, '%s-%d.json' % (prop, i))
            if not replay:
                x['how'] = 'python3 check.py %s --replay %s' % (prop, path)
                json.dump(x, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s case %s: %s' % (x['type_name'], x['case'], x['what'][:1200]))
        return 1
    for need, least in cfg.get('require', {}).items():
        if not replay and stats.get(need, 0) < least:
            errors.append('monitor saw only %d of %s' % (stats.get(need, 0), need))
            print('ERROR', errors[-1])
    if errors:
        return 2
    print('%s: held on %d cases (%d distinct), %.1f s (build %.1f s)' % (prop, cases, len(sigs), time.time() - t0, t_build))
    return 0


REPORT = re.compile(r'runtime error:|(?:ERROR|WARNING): (?:Address|Leak|Thread)Sanitizer|'
                    r'==\d+== *(?:Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Mismatched free|Argument|Source and dest|Process terminating)')


def split_reports(text):
    """One string per sanitizer report."""
    out, seen = [], set()
    lines = text.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        if REPORT.search(l):
            frames = []
            for m in lines[i + 1:i + 40]:
                if REPORT.search(m):
                    break
                fm = re.match(r'\s+#\d+ \S+ (?:in )?(.*)', m) or re.match(r'==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.*)', m)
                if fm:
                    frames.append(re.sub(r'\(BuildId.*', '', fm.group(1))[:200])
            w = re.sub(r'==\d+==', '', l.strip()) + ' @ ' + ' < '.join(frames[:8])
            k = re.sub(r'0x[0-9a-f]+|\d+ \* \d+|\d+ bytes', '#', w)
            if k not in seen:
                seen.add(k)
                out.append(w)
        i += 1
    return out[:20]


if __name__ == '__main__':
    main()
