"""Runs one property's check: build, sharded bounded case run, verdict, evidence, replay files."""
import ctypes
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

import buildlib
from buildlib import VERIF

WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'work'))
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
JOBS = 8

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:handle_segv=1:handle_sigfpe=1:handle_abort=0:'
                    'detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:'
                    'alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:hard_rss_limit_mb=3000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'suppressions=' + os.path.join(VERIF, 'lib', 'tsan.supp') + ':halt_on_error=1:exitcode=66:history_size=4:report_signal_unsafe=0',
    'LC_ALL': 'C',
}


def load_known():
    """(property, key regex, text) of the recorded, unrepaired findings."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2) + r'\Z'), m.group(3)))
    return out


def crash_key(stderr, rc):
    """A stable name for an abnormal end, or None when it says nothing about the code."""
    kind = None
    m = re.search(r'ERROR: (Address|Leak|Thread)Sanitizer: ([\w-]+)', stderr)
    if m:
        kind = ('tsan:' if m.group(1) == 'Thread' else 'asan:') + m.group(2)
    if not kind:
        m = re.search(r'runtime error: (.{0,60})', stderr)
        if m:
            kind = 'ubsan:' + re.sub(r'[^a-z]+', '-', re.sub(r"'[^']*'", '', m.group(1)))[:40].strip('-')
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', stderr)
        if m:
            kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r'^==\d+== (Conditional jump|Use of uninit|Invalid \w+|Syscall param|Argument|Mismatched free|Source and dest)', stderr, re.M)
        if m:
            kind = 'valgrind:' + m.group(1).replace(' ', '-')
    if not kind and 'hard rss limit exhausted' in stderr:
        kind = 'memory-runaway'
    if not kind and 'PACKAGE-UNUSABLE' in stderr:
        kind = 'package-unusable'
    if not kind and 'Check failed' in stderr:
        kind = 'fatal-check'
    if not kind and re.search(r'^F\d+ ', stderr, re.M):
        kind = 'fatal-log'
    if not kind and 'terminate called' in stderr:
        kind = 'terminate'
    if not kind and re.search(r'Assertion .* failed', stderr):
        kind = 'assertion'
    if not kind:
        if rc is not None and rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            return None
        if rc is not None and rc < 0:
            kind = 'signal-%d' % -rc
        else:
            return None
    m = re.search(r'#\d+ (?:0x[0-9a-f]+ in )?([^\n]+?) (/repo/|%s/)?src/\S+' % re.escape(buildlib.REPO), stderr)
    frame = re.sub(r'\(.*', '', m.group(1)) if m else ''
    frame = re.sub(r'[^\w:~<>=]+', '_', frame)
    return kind + (':' + frame if frame else '')


_LIBC = ctypes.CDLL(None)


def _die_with_parent():
    _LIBC.prctl(1, signal.SIGKILL)


class Inconclusive(Exception):
    pass


class Shard:
    def __init__(self, stage, cmd, env, work, tag, start, step, end, seed, tier):
        self.stage, self.base_cmd, self.env, self.tag = stage, cmd, env, tag
        self.start, self.step, self.end, self.seed, self.tier = start, step, end, seed, tier
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, 'out.json')
        self.progress = os.path.join(self.dir, 'progress')
        self.proc = None
        self.attempt = 0

    def spawn(self, start=None, only=None):
        self.attempt += 1
        for p in (self.out, self.progress):
            if os.path.exists(p):
                os.remove(p)
        scratch = os.path.join(self.dir, 'scratch')
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        cmd = self.base_cmd + ['--seed', str(self.seed), '--tier', self.tier, '--out', self.out,
                               '--progress', self.progress, '--scratch', scratch]
        if only is not None:
            cmd += ['--only', str(only)]
        else:
            cmd += ['--start', str(self.start if start is None else start), '--step', str(self.step),
                    '--end', str(self.end)]
        self.errfile = os.path.join(self.dir, 'stderr.%d' % self.attempt)
        self.proc = subprocess.Popen(cmd, env=self.env, stdout=subprocess.DEVNULL,
                                     stderr=open(self.errfile, 'w'), cwd=scratch, start_new_session=True,
                                     preexec_fn=_die_with_parent)
        self.last = (None, time.time())

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def position(self):
        try:
            return struct.unpack('ll', open(self.progress, 'rb').read(16))
        except (OSError, struct.error):
            return (-1, 0)

    def stderr(self):
        # Long logs: keep both ends.
        data = open(self.errfile, errors='replace').read()
        return data if len(data) < 60000 else data[:30000] + '\n...\n' + data[-30000:]


def stage_cmd(prop, stage, products):
    if stage.get('py'):
        return [stage.get('python', '/usr/bin/python3'), os.path.join(VERIF, 'harness', stage['py'] + '.py')]
    if stage.get('valgrind'):
        return ['valgrind', '-q', '--tool=memcheck', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no',
                '--undef-value-errors=yes', '--track-origins=no', '--num-callers=20', products['harness']]
    return [products['harness']]


def stage_env(stage, products):
    env = dict(os.environ)
    env.update(SAN_ENV)
    for k, v in products.items():
        env['VERIF_' + k.upper()] = v
    env['VERIF_REPO'] = buildlib.REPO
    env['VERIF_FLAVOUR'] = stage['flavour']
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = os.path.join(VERIF, 'lib')
    if stage.get('pymodule'):
        if stage['flavour'] == 'asan':
            # With the C++ library, whose throw the sanitizer wants to see at its own start.
            env['LD_PRELOAD'] = ' '.join(subprocess.check_output(['g++', '-print-file-name=' + l], text=True).strip()
                                         for l in ('libasan.so', 'libstdc++.so.6'))
        env['PYTHONMALLOC'] = 'malloc'
    env.update(stage.get('env', {}))
    return env


def run_stage(prop, si, stage, tier, seed, work, log):
    products = buildlib.build(stage['flavour'], harness=stage.get('harness'), cli=stage.get('cli', False),
                              pymodule=stage.get('pymodule', False),
                              extra_ldflags=stage.get('ldflags', ''),
                              log=os.path.join(work, 'build%d.log' % si))
    total = stage[tier]
    jobs = min(stage.get('jobs', JOBS), total)
    cmd, env = stage_cmd(prop, stage, products), stage_env(stage, products)
    shards = [Shard(stage, cmd, env, work, 's%d-%d' % (si, k), k, jobs, total, seed, tier) for k in range(jobs)]
    viols, results, crashes = [], [], 0
    hang_s = stage.get('hang_s', 60)
    live = []
    for s in shards:
        s.spawn()
        live.append(s)
    notes = []
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s.proc.poll()
            pos = s.position()
            if rc is None:
                if pos != s.last[0]:
                    s.last = (pos, time.time())
                elif time.time() - s.last[1] > hang_s:
                    case = pos[0]
                    s.kill()
                    if case < 0:
                        raise Inconclusive('stage %d shard %s made no progress before its first case' % (si, s.tag))
                    # Re-run that one case alone before calling it a hang.
                    s.spawn(only=case)
                    try:
                        rc2 = s.proc.wait(timeout=stage.get('hang_retry_s', 90))
                        hung = False
                    except subprocess.TimeoutExpired:
                        s.kill()
                        hung = True
                    if hung:
                        viols.append(dict(case=case, stage=si, key='hang',
                                          msg='no progress for %d s, and again when run alone' % hang_s))
                        # One confirmed hang decides; the other shards may hang just as long.
                        live.remove(s)
                        for o in live:
                            o.kill()
                            viols.extend(read_viols(o, si))
                        live = []
                        break
                    notes.append('case %d was slow once (rc %s alone)' % (case, rc2))
                    if rc2 not in (0,):
                        key = crash_key(s.stderr(), rc2)
                        if key:
                            viols.append(dict(case=case, stage=si, key=key, msg=s.stderr()[-6000:]))
                    if case + s.step < s.end:
                        s.spawn(start=case + s.step)
                    else:
                        live.remove(s)
                continue
            viols.extend(read_viols(s, si))
            if rc == 0:
                results.append(json.load(open(s.out)))
                live.remove(s)
                continue
            err = s.stderr()
            if rc == 77 or 'HARNESS-ERROR' in err:
                for o in live:
                    o.kill()
                raise Inconclusive('harness error in stage %d: %s' % (si, err[-1500:]))
            key = crash_key(err, rc)
            if key is None:
                for o in live:
                    o.kill()
                raise Inconclusive('stage %d ended with %s outside any case: %s' % (si, rc, err[-3000:]))
            if pos[0] < 0:
                # The code breaks before any case: as it is loaded.
                viols.append(dict(case=s.start, stage=si, key=key, msg=trim(err)))
                for o in live:
                    o.kill()
                    viols.extend(read_viols(o, si))
                live = []
                break
            crashes += 1
            viols.append(dict(case=pos[0], stage=si, key=key, msg=trim(err)))
            if crashes >= 6:
                for o in live:
                    o.kill()
                    viols.extend(read_viols(o, si))
                live = []
                break
            if pos[0] + s.step < s.end:
                s.spawn(start=pos[0] + s.step)
            else:
                live.remove(s)
    return products, viols, results, notes


def trim(err):
    i = max(err.find('ERROR:'), 0) or max(err.find('runtime error'), 0) or max(err.find('WARNING: Thread'), 0)
    return err[max(0, i - 300):i + 5000]


def read_viols(s, si):
    p = s.out + '.viol'
    out = []
    if os.path.exists(p):
        for line in open(p):
            try:
                v = json.loads(line)
            except ValueError:
                continue
            v['stage'] = si
            out.append(v)
        os.remove(p)
    return out


def run(prop, spec, tier, seed):
    t0 = time.time()
    work = os.path.join(WORK, '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = [(k, t) for p, k, t in load_known() if p == prop]
    viols, counters, distinct, fps, samples, evals, notes = [], {}, {}, set(), [], 0, []
    per_stage = []
    status = 0
    try:
        for si, stage in enumerate(spec['stages']):
            ts = time.time()
            _, v, results, n = run_stage(prop, si, stage, tier, seed, work, None)
            viols += v
            notes += n
            ev = 0
            for r in results:
                ev += r['evaluations']
                for k, c in r['counters'].items():
                    counters[k] = counters.get(k, 0) + c
                for k, l in r['distinct'].items():
                    distinct.setdefault(k, set()).update(l)
                fps.update((si, x) for x in r['fps'])
                samples += r['samples'][:1]
            evals += ev
            per_stage.append(dict(stage=stage.get('harness') or stage.get('py'), flavour=stage['flavour'],
                                  cases=ev, wall_s=round(time.time() - ts, 1)))
    except buildlib.BuildError as e:
        print('CHECK-ERROR property=%s build failed:\n%s' % (prop, e))
        shutil.rmtree(work, ignore_errors=True)
        return 2
    except Inconclusive as e:
        print('CHECK-ERROR property=%s inconclusive: %s' % (prop, e))
        status = 2
    new, old = [], {}
    for v in viols:
        for k, t in known:
            if k.match(v['key']):
                old.setdefault(t, 0)
                old[t] += 1
                break
        else:
            new.append(v)
    missing = []
    if not new and status == 0:
        for k, m in spec.get('require', {}).items():
            have = counters.get(k, 0) if not k.startswith('distinct:') else len(distinct.get(k[9:], ()))
            if have < m:
                missing.append('%s=%d (needs %d)' % (k, have, m))
    cov = dict(evaluations=evals, distinct_nontrivial=len(fps), rule=spec['rule'], samples=samples[:6],
               observed=counters, distinct_observed={k: len(v) for k, v in distinct.items()},
               stages=per_stage)
    if notes:
        cov['notes'] = notes
    if old:
        cov['known_findings_reproduced'] = old
    ev = dict(property=prop, tier=tier, seed=seed, level=spec['level'], coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for t, n in old.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for k, t in known:
        if t not in old:
            print('KNOWN-FINDING: property=%s %s (not reproduced by this run)' % (prop, t))
    if new:
        seen = {}
        for v in new:
            seen.setdefault(v['key'], []).append(v)
        for i, (key, vs) in enumerate(sorted(seen.items(), key=lambda kv: -len(kv[1]))[:8]):
            path = os.path.join(REPLAYS, '%s-%d.json' % (prop, i))
            json.dump(dict(property=prop, tier=tier, seed=seed, stage=vs[0]['stage'], case=vs[0]['case'], key=key,
                           occurrences=len(vs), msg=vs[0]['msg']), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  key=%s cases=%s: %s' % (key, [v['case'] for v in vs[:5]], vs[0]['msg'][:600].replace('\n', '\n    ')))
        status = 1
    elif missing and status == 0:
        print('CHECK-ERROR property=%s observed too little: %s' % (prop, ', '.join(missing)))
        status = 2
    if status == 0:
        print('OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs %s' % (
            prop, tier, seed, evals, len(fps), time.time() - t0,
            ' '.join('%s=%d' % kv for kv in sorted(counters.items()))))
    shutil.rmtree(work, ignore_errors=True)
    return status


def replay(path, spec):
    r = json.load(open(path))
    stage = spec['stages'][r['stage']]
    work = os.path.join(WORK, 'replay-%d' % os.getpid())
    os.makedirs(work)
    products = buildlib.build(stage['flavour'], harness=stage.get('harness'), cli=stage.get('cli', False),
                              pymodule=stage.get('pymodule', False), extra_ldflags=stage.get('ldflags', ''))
    s = Shard(stage, stage_cmd(r['property'], stage, products), stage_env(stage, products), work, 'r', 0, 1, 1,
              r['seed'], r['tier'])
    s.spawn(only=r['case'])
    rc = s.proc.wait()
    v = read_viols(s, r['stage'])
    print(s.stderr()[:20000])
    print('exit', rc, 'violations', v)
    shutil.rmtree(work, ignore_errors=True)
    return 1 if v or rc != 0 else 0
