"""C22: the command-line tool under failing writes."""
import errno
import json
import os
import resource
import signal
import subprocess
import sys

from pyharness import *

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
// Fails (or cuts short) the n-th write, or the close, of files whose names end with FAULT_SUFFIX.
static int nth = -1, errnum, calls, partial;
static const char *suffix, *op;
static void setup(void) {
  if (nth >= 0) return;
  suffix = getenv("FAULT_SUFFIX"); op = getenv("FAULT_OP");
  nth = atoi(getenv("FAULT_NTH")); errnum = atoi(getenv("FAULT_ERRNO")); partial = atoi(getenv("FAULT_PARTIAL"));
}
static int hit(int fd, const char* what) {
  setup();
  if (strcmp(op, what)) return 0;
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n < 0) return 0;
  path[n] = 0;
  size_t s = strlen(suffix);
  if ((size_t)n < s || strcmp(path + n - s, suffix)) return 0;
  if (calls++ != nth && !(errnum != EINTR && !partial && calls > nth)) return 0;
  static const char msg[] = "SHIM-FAULT\n";
  ssize_t (*w)(int, const void*, size_t) = dlsym(RTLD_NEXT, "write");
  w(2, msg, sizeof msg - 1);
  return 1;
}
ssize_t write(int fd, const void* p, size_t n) {
  static ssize_t (*real)(int, const void*, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && hit(fd, "write")) { if (partial) return real(fd, p, n > 1 ? n / 2 : n); errno = errnum; return -1; }
  return real(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static ssize_t (*real)(int, const struct iovec*, int);
  if (!real) real = dlsym(RTLD_NEXT, "writev");
  if (fd > 2 && hit(fd, "write")) { if (partial) return real(fd, v, 1); errno = errnum; return -1; }
  return real(fd, v, c);
}
int fclose(FILE* f) {
  static int (*real)(FILE*);
  if (!real) real = dlsym(RTLD_NEXT, "fclose");
  int bad = fileno(f) > 2 && hit(fileno(f), "close");
  int r = real(f);
  if (bad) { errno = errnum; return EOF; }
  return r;
}
int close(int fd) {
  static int (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "close");
  int bad = fd > 2 && hit(fd, "close");
  int r = real(fd);
  if (bad) { errno = errnum; return -1; }
  return r;
}
'''
_shim = []


def shim():
    if not _shim:
        so = os.path.join(S['scratch'], 'shim.so')
        src = write(os.path.join(S['scratch'], 'shim.c'), SHIM)
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl'], stderr=subprocess.PIPE)
        if r.returncode:
            raise HarnessError('shim: %s' % r.stderr.decode())
        _shim.append(so)
    return _shim[0]


def limit(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
    return f


def content(path):
    """What a file holds, up to the meta information of models; None when it is not a readable whole."""
    if not os.path.isfile(path):
        return None
    data = read(path)
    if path.endswith('.json'):
        try:
            m = json.loads(data)
        except ValueError:
            return None
        m.pop('metaInfo', None)
        return m
    return data


def deep(r):
    """A model so deep that it may have no text form: reported, or whole files."""
    d = fresh('case')
    leaves = r.choice([r.randint(45, 63), r.randint(64, 70), r.randint(71, 83)])
    # Alternating targets: the best division always takes a row off one end.
    n = leaves + r.randint(0, 3)
    xs = sorted({f32(r.uniform(-9, 9)) for _ in range(n)})
    ys = [f32((-1) ** i * r.uniform(1, 1.01)) for i in range(len(xs))]
    tsv = write(os.path.join(d, 'data'), 'x\ty\n' + ''.join('%r\t%r\n' % (x, y) for x, y in zip(xs, ys)))
    conf = dict(loss_func='mse', num_trees=r.randint(1, 3), num_leaves=leaves, shrinkage=1, example_sampling_rate=1, feature_sampling_rate=1, float_feature=['x'], target_column='y')
    cfg = write(os.path.join(d, 'config'), json.dumps(conf))
    out = os.path.join(d, 'out')
    os.makedirs(out)
    if r.random() < 0.5:   # what an earlier run left behind must not pass for the result
        write(os.path.join(out, 'forest.json'), '{"tree":[{"score":1}]}')
    t = cli(['--config_file=' + cfg, '--tsvs=' + tsv, '--mode=train', '--output_dir=' + out, '--output_model_name=forest'])
    what = 'a tree of %d leaves below each other' % leaves
    if not t.ok:
        expect(leaves > 63, 'clean-run', what, ': ', t.brief())
        count('deep_refused')
        sample('%s: refused' % what)
        return
    m = content(os.path.join(out, 'forest.json'))
    expect(m is not None and len(m.get('tree', [])) == conf['num_trees'] + 1, 'silent-loss', what, ': success, but the model is ', str(m)[:200])
    expect(content(os.path.join(out, 'forest.fimps')) is not None, 'silent-loss', what, ': success without importances')
    for x, y in zip(xs, ys) if n == leaves else []:
        v = predict(m['tree'], dict(x=x).get)
        expect(near(v, y, 1e-3, 1e-3), 'silent-loss', what, ': the model written scores ', v, ', not ', y)
    count('deep_written')
    nontrivial('deep', leaves, n, xs[0])
    sample('%s: written' % what)


def case(k, r):
    if k % 4 == 1:
        deep(r)
    d = fresh('case')
    # Sizes around and beyond the buffers of the streams: some files take many writes.
    big = r.random() < 0.4
    job = Job(r, min_rows=400 if big else 2, max_rows=2500 if big else 60, max_trees=6, max_leaves=20 if big else 8)
    if big:
        for c in job.features:   # longer names, longer models
            c.name = c.name + '_' + 'x' * r.randint(0, 300)
        job.config['float_feature'] = [c.name for c in job.features if c.kind == 'float']
        job.config['categorical_feature'] = [c.name for c in job.features if c.kind == 'string']
        job.config['num_trees'] = r.randint(5, 12)
    cfg = write(os.path.join(d, 'config'), json.dumps(job.config))
    tsv = job.write_tsv(os.path.join(d, 'data'))[0]
    threads = '--num_threads=%d' % r.randint(1, 3)
    base = ['--config_file=' + cfg, '--tsvs=' + tsv, threads, '--seed=%d' % r.randint(0, 1 << 30)]
    ref = os.path.join(d, 'ref')
    t = cli(base + ['--mode=train', '--output_dir=' + ref, '--output_model_name=forest'])
    if not t.ok:
        expect('diverges' in t.err, 'clean-run', job.describe(), ': ', t.brief())
        count('not_trained')
        return
    mfile = os.path.join(ref, 'forest.json')
    e = cli(base + ['--mode=test', '--testing_model_file=' + mfile, '--output_dir=' + ref])
    expect(e.ok, 'clean-run', job.describe(), ': ', e.brief())
    train_files = ['forest.json', 'forest.fimps']
    test_files = sorted(f for f in os.listdir(ref) if f.endswith('.score'))
    size = {f: os.path.getsize(os.path.join(ref, f)) for f in train_files + test_files}
    want = {f: content(os.path.join(ref, f)) for f in size}
    for f, w in want.items():
        expect(w is not None, 'clean-run', job.describe(), ': ', f, ' is not whole')
    n = len(json.loads(read(mfile)).get('tree', []))
    expect('forest.%d.score' % n in want, 'clean-run', 'no score file of the whole model')

    def run(mode, what, prepare=None, preexec=None, env=None, outdir=None, nonzero=False):
        out = outdir or os.path.join(d, 'out')
        shutil.rmtree(out, ignore_errors=True) if os.path.isdir(out) and not os.path.islink(out) else None
        if prepare:
            prepare(out)
        extra = ['--mode=train', '--output_model_name=forest'] if mode == 'train' else ['--mode=test', '--testing_model_file=' + mfile]
        res = cli(base + extra + ['--output_dir=' + out], preexec=preexec, env=env)
        files = train_files if mode == 'train' else test_files
        bad = [f for f in files if content(os.path.join(out, f)) != want[f]]
        tag = cat(job.describe(), ': ', mode, ' with ', what)
        expect(not (res.ok and bad), 'silent-loss', tag, ' succeeds although ', bad, ' (of sizes ', size, ') are not whole')
        expect(not (nonzero and res.ok), 'silent-failure', tag, ' succeeds')
        count('faults')
        count('failed' if bad else 'whole')
        count(('lost_' if bad else 'whole_') + mode)
        return res, bad

    cat = lambda *a: ''.join(str(x) for x in a)
    # A limit on the size of files, at every kind of position.
    for mode, files in (('train', train_files), ('test', test_files)):
        for f in files if len(files) < 4 else r.sample(files, 3):
            s = size[f]
            ks = {0, 1, s - 1, s, s + 200, r.randint(0, s), r.choice([8191, 8192, 4096, 8190]), s - s % 8192, s - s % 8192 + 1}
            for n in r.sample(sorted(x for x in ks if x >= 0), min(len(ks) - 1, 5)):
                res, bad = run(mode, 'a file size limit of %d' % n, preexec=limit(n))
                seen('limit', (f.split('.')[-1], n - s if abs(n - s) < 40 else n * 20 // (s + 1)))
    # Files that cannot be written.
    target = {'train': train_files, 'test': test_files}
    for mode in ('train', 'test'):
        f = r.choice(target[mode])
        if size[f]:
            def full(out):
                os.makedirs(out)
                os.symlink('/dev/full', os.path.join(out, f))
            run(mode, '%s on a full device' % f, prepare=full)
            count('full_device')

        def directory(out):
            os.makedirs(os.path.join(out, f, 'x'))
        run(mode, '%s a directory' % f, prepare=directory, nonzero=True)

        def plain(out):
            write(out, 'x')
        run(mode, 'the output directory a file', prepare=plain, outdir=os.path.join(d, 'file%s' % mode), nonzero=True)
        run(mode, 'the output directory below a missing one', outdir=os.path.join(d, 'no', 'where'), nonzero=False)

        def dangling(out):
            os.makedirs(out)
            os.symlink(os.path.join(d, 'no', 'where'), os.path.join(out, f))
        run(mode, '%s a dangling link' % f, prepare=dangling)
    # Failing system calls.
    so = shim()
    for _ in range(8):
        mode = r.choice(['train', 'test'])
        f = r.choice(target[mode])
        op = r.choice(['write', 'write', 'write', 'close'])
        how = r.choice(['EIO', 'ENOSPC', 'EDQUOT', 'EINTR', 'short']) if op == 'write' else r.choice(['EIO', 'ENOSPC', 'EDQUOT'])
        nth = r.choice([0, 0, 1, 2, r.randint(0, 1 + size[f] // 8192)]) if op == 'write' else 0
        env = dict(LD_PRELOAD=so, ASAN_OPTIONS=os.environ['ASAN_OPTIONS'] + ':verify_asan_link_order=0', FAULT_SUFFIX='/out/' + f, FAULT_OP=op, FAULT_NTH=str(nth), FAULT_PARTIAL=str(int(how == 'short')),
                   FAULT_ERRNO=str(getattr(errno, how, 0)))
        res, bad = run(mode, '%s of %s number %d failing with %s' % (op, f, nth, how), env=env)
        if 'SHIM-FAULT' in res.err:
            count('delivered_' + op)
            if how == 'short' or how == 'EINTR':
                count('harmless')
            else:
                expect(not res.ok, 'ignored-error', job.describe(), ': ', mode, ' succeeds although ', op, ' of ', f, ' number ', nth, ' failed with ', how)
                seen('delivered', (f.split('.')[-1], op, how, min(nth, 3)))
        else:
            count('undelivered')
    nontrivial(job.describe(), tuple(sorted(size.items())))
    sample('%s: files of %s bytes' % (job.describe(), size))
    shutil.rmtree(d, ignore_errors=True)


main(case)
