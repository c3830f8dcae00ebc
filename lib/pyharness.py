"""The case loop of the C++ harnesses, for harnesses that drive programs or the Python module.

Same command line, progress file and output as harness/common.h.  Also: random tables, their files, the
documented meaning of models, and a way to run the command-line tool.  Standard library only.
"""
import hashlib
import json
import math
import mmap
import os
import random
import shutil
import struct
import subprocess
import sys
import time


class CaseAbort(Exception):
    pass


class HarnessError(Exception):
    pass


S = dict(seed=1, tier='quick', out='', scratch='.', progress='', start=0, step=1, end=1, only=-1)
counters, distinct, fps, samples = {}, {}, set(), []
case_id = -1
violations = 0
_viol = None


def f32(x):
    """x as a float would hold it."""
    if math.isnan(x) or math.isinf(x):
        return x
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'little')


def count(name, n=1):
    counters[name] = counters.get(name, 0) + n


def seen(name, v):
    distinct.setdefault(name, set()).add(h64(v))


def nontrivial(*a):
    fps.add(h64(*a))


def sample(s):
    if len(samples) < 2:
        samples.append('case %d: %s' % (case_id, s[:900]))


def record(key, msg):
    global violations
    violations += 1
    line = json.dumps(dict(case=case_id, key=key, msg=msg[:4000]))
    if _viol:
        _viol.write(line + '\n')
        _viol.flush()
    sys.stderr.write('VIOL %s\n' % line)


def expect(ok, key, *msg):
    if not ok:
        record(key, ''.join(str(m) for m in msg))
        raise CaseAbort()


def main(fn):
    global case_id, _viol
    argv = sys.argv[1:]
    for k, v in zip(argv[::2], argv[1::2]):
        k = k[2:]
        S[k] = int(v) if isinstance(S[k], int) else v
    start, step, end = (S['only'], 1, S['only'] + 1) if S['only'] >= 0 else (S['start'], S['step'], S['end'])
    prog = None
    if S['progress']:
        with open(S['progress'], 'w+b') as f:
            f.truncate(16)
            prog = mmap.mmap(f.fileno(), 16)
    if S['out']:
        _viol = open(S['out'] + '.viol', 'a')
    evals = 0
    for k in range(start, end, step):
        case_id = k
        evals += 1
        if prog:
            prog[:16] = struct.pack('ll', k, evals)
        try:
            fn(k, random.Random('%d/%d' % (S['seed'], k)))
        except CaseAbort:
            pass
        except HarnessError as e:
            sys.stderr.write('HARNESS-ERROR %s\n' % e)
            sys.stderr.flush()
            os._exit(77)
        except Exception as e:
            import traceback
            inside = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.environ['VERIF_REPO'] + '/')]
            # Exceptions of the extension module have no frame of their own.
            # Outputs that cannot be read as what they should be also end here.
            other = isinstance(e, (RuntimeError, ValueError, IndexError, KeyError, TypeError, AttributeError, FileNotFoundError))
            if (inside or other) and not isinstance(e, (MemoryError, ImportError)) and 'stand-in' not in str(e):
                last = (inside or list(traceback.extract_tb(e.__traceback__)))[-1]
                record('raised', '%s:%d: a valid request raises %s: %s' % (os.path.basename(last.filename), last.lineno, type(e).__name__, e))
                continue
            sys.stderr.write('HARNESS-ERROR in case %d\n%s' % (k, traceback.format_exc()))
            sys.stderr.flush()
            os._exit(77)
        if violations > 20:
            break
    if prog:
        prog[:16] = struct.pack('ll', -1, evals)
    if S['out']:
        with open(S['out'], 'w') as f:
            json.dump(dict(evaluations=evals, counters=counters, distinct={k: list(v) for k, v in distinct.items()},
                           fps=list(fps), samples=samples), f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)   # no interpreter teardown: what it does is not under test


# ------------------------------------------------------------------------------------------ tables
MISSING = '__missing__'


class Col:
    def __init__(self, name, kind, values):   # kind: 'float' (bucketized), 'raw', 'string'
        self.name, self.kind, self.values = name, kind, values

    def cell(self, i):
        v = self.values[i]
        if self.kind == 'string':
            return v
        return 'nan' if math.isnan(v) else '%.9g' % v


def gen_floats(r, n):
    style = r.randrange(5)
    card = r.randint(1, max(2, r.choice([4, n])))
    gen = [lambda: float(r.randint(-4, 4)), r.random, lambda: r.gauss(0, 100), lambda: r.gauss(0, 1e-3),
           lambda: float(r.randint(0, 1))][style]
    pool = [f32(gen()) for _ in range(card)]
    miss = r.choice([0, 0, 0.1, 0.4])
    return [math.nan if r.random() < miss else r.choice(pool) for _ in range(n)]


def gen_strings(r, n):
    card = r.randint(1, r.choice([3, 6, max(3, n)]))
    odd = ['', ' ', 'a b', '"q"', 'caf\u00e9', '\\', '0', 'nan', 'A', 'a']
    miss = r.choice([0, 0, 0.2])
    tail = 'y' * r.randint(250, 5000) if r.random() < 0.02 else ''
    out = []
    for _ in range(n):
        if r.random() < miss:
            out.append(MISSING)
            continue
        k = r.randrange(card)
        out.append(r.choice(odd) if k < 3 and r.random() < 0.15 else 'c%d%s' % (k, tail))
    return out


LOSSES = ['mse', 'logloss', 'huberized_hinge', 'auc', 'pairwise_logloss', 'gbrank', 'lambdamart']
BINARY = ('logloss', 'huberized_hinge')


class Job:
    """A table and a configuration (as a dict)."""

    def __init__(self, r, min_rows=2, max_rows=40, max_feat=5, loss=None, max_trees=4, max_leaves=6):
        self.n = n = r.randint(min_rows, max_rows)
        self.features = []
        for k in range(r.randint(1, max_feat)):
            if r.random() < 0.4:
                self.features.append(Col('cat%d' % k, 'string', gen_strings(r, n)))
            else:
                self.features.append(Col('num%d' % k, 'float', gen_floats(r, n)))
        self.loss = loss or r.choice(LOSSES)
        ys = []
        for i in range(n):
            sig = sum((c.values[i] > 0.3) if c.kind == 'float' else (c.values[i] == 'c1') for c in self.features)
            if self.loss in BINARY:
                ys.append(1.0 if r.random() < (0.8 if sig > 0.5 else 0.3) else -1.0)
            elif self.loss == 'lambdamart':
                ys.append(float(r.randint(0, 3)))
            else:
                ys.append(f32(sig + r.gauss(0, 1)))
        self.cols = list(self.features) + [Col('target', 'raw', ys)]
        self.weighted = r.random() < 0.4
        self.grouped = r.random() < 0.4
        if self.weighted:
            self.cols.append(Col('weight', 'raw', [f32(r.uniform(0.1, 3)) for _ in range(n)]))
        if self.grouped:
            self.cols.append(Col('group', 'string', ['q%d' % r.randrange(4) for _ in range(n)]))
        sampled = r.random() < 0.4
        self.config = c = dict(
            float_feature=[x.name for x in self.features if x.kind == 'float'],
            categorical_feature=[x.name for x in self.features if x.kind == 'string'],
            target_column='target', loss_func=self.loss, num_trees=r.randint(1, max_trees),
            num_leaves=r.randint(1, max_leaves), shrinkage=r.choice([1, 0.5, 0.1]),
            l2_lambda=r.choice([0, 0.5, 2]), min_hessian=r.choice([0, 0, 1]),
            example_sampling_rate=round(r.uniform(0.4, 1), 3) if sampled else 1,
            feature_sampling_rate=r.choice([1, 0.6]) if sampled else 1,
            pair_sampling_rate=r.choice([0.5, 2, 10]), pair_weight_by_delta_target=r.random() < 0.3,
            equal_group_weight=r.random() < 0.3)
        if self.weighted:
            c['weight_column'] = 'weight'
        if self.grouped:
            c['group_column'] = 'group'
        if r.random() < 0.4:
            c['eval_interval'] = r.randint(1, 3)

    def col(self, name):
        for c in self.cols:
            if c.name == name:
                return c

    def describe(self):
        return '%s rows=%d features=%d%s%s trees=%d leaves=%d' % (
            self.loss, self.n, len(self.features), ' weighted' if self.weighted else '',
            ' grouped' if self.grouped else '', self.config['num_trees'], self.config['num_leaves'])

    def write_tsv(self, base, parts=1, cols=None):
        cols = cols or self.cols
        names, row = [], 0
        for p in range(parts):
            end = self.n if p + 1 == parts else self.n * (p + 1) // parts
            path = '%s%d.tsv' % (base, p)
            with open(path, 'wb') as f:
                if p == 0:
                    f.write(('\t'.join(c.name for c in cols) + '\n').encode())
                for i in range(row, end):
                    f.write(('\t'.join(c.cell(i) for c in cols) + '\n').encode())
            row = end
            names.append(path)
        return names

    def write_flat(self, d, cols=None):
        os.makedirs(d, exist_ok=True)
        kind = dict(string='strings', raw='raw_floats', float='bucketized_floats')
        for c in cols or self.cols:
            with open(os.path.join(d, c.name), 'wb') as f:
                f.write(('# dtype=%s\n' % kind[c.kind]).encode())
                for i in range(self.n):
                    f.write((c.cell(i) + '\n').encode())
        return d


# ------------------------------------------------------------------------------------------ models
def num(v, default=0.0):
    if v is None:
        return default
    if isinstance(v, str):
        return {'NaN': math.nan, 'Infinity': math.inf, '-Infinity': -math.inf}[v]
    return float(v)


def leaf(node, cell):
    """The leaf of a model node (parsed JSON) a row reaches; cell(name) gives the row's values."""
    while 'leftChild' in node:
        s = node['split']
        if 'catSplit' in s:
            left = cell(s['feature']) in s['catSplit'].get('category', [])
        else:
            v = cell(s['feature'])
            fs = s.get('floatSplit', {})
            left = (not fs.get('missingToRightChild', False)) if math.isnan(v) else v < f32(num(fs.get('threshold')))
        node = node['leftChild'] if left else node['rightChild']
    return node


def predict(trees, cell):
    return math.fsum(f32(num(leaf(t, cell).get('score'))) for t in trees)


def magnitude(trees, cell):
    return sum(abs(num(leaf(t, cell).get('score'))) for t in trees)


def nodes(t):
    yield t
    if 'leftChild' in t:
        yield from nodes(t['leftChild'])
        yield from nodes(t['rightChild'])


def inner(trees):
    return [n for t in trees for n in nodes(t) if 'leftChild' in n]


def importance(trees):
    m = {}
    for n in inner(trees):
        m[n['split']['feature']] = m.get(n['split']['feature'], 0.0) + num(n['split'].get('gain'))
    top = max(m.values(), default=0)
    return {k: (v / top if top > 0 else 0.0) for k, v in m.items()}


def gen_tree(r, job, depth):
    n = dict(score=f32(r.gauss(0, 1)))
    if depth > 0 and r.random() < 0.8:
        c = r.choice(job.features)
        s = dict(feature=c.name, gain=abs(r.gauss(0, 1)))
        if c.kind == 'float':
            v = r.choice(c.values)
            s['floatSplit'] = dict(threshold=f32(0.25 if math.isnan(v) else v + r.choice([0, 0, 0.5, -0.5])),
                                   missingToRightChild=r.random() < 0.5)
        else:
            s['catSplit'] = dict(category=sorted(set(r.choice(c.values + ['unseen']) for _ in range(r.randint(1, 3)))))
        n.update(split=s, leftChild=gen_tree(r, job, depth - 1), rightChild=gen_tree(r, job, depth - 1))
    return n


def gen_forest(r, job, max_trees=4, depth=3):
    return dict(tree=[gen_tree(r, job, r.randint(0, depth)) for _ in range(r.randint(1, max_trees))])


def near(a, b, rel, tol=0.0):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


# --------------------------------------------------------------------------------------------- CLI
BAD_ENDS = ('hard rss limit exhausted', 'AddressSanitizer', 'runtime error:', 'ThreadSanitizer', 'LeakSanitizer', 'terminate called', 'Segmentation')


class Result:
    def __init__(self, rc, err, args, timed_out):
        self.rc, self.err, self.args, self.timed_out = rc, err, args, timed_out
        self.ok = rc == 0

    def brief(self):
        lines = [l for l in self.err.splitlines() if l.startswith(('F', 'E')) or 'rror' in l]
        return 'exit %s %s' % (self.rc, ' | '.join(lines)[-600:])


def cli(args, timeout=60, env=None, preexec=None, cwd=None):
    """Runs the command-line tool.  Memory errors and hangs are violations of whatever property asks."""
    e = dict(os.environ)
    e.update(env or {})
    cmd = [os.environ['VERIF_CLI'], '--logtostderr=1'] + args
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e,
                         preexec_fn=preexec, cwd=cwd or S['scratch'])
    try:
        _, err = p.communicate(timeout=timeout)
        timed = False
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        timed = True
    res = Result(p.returncode, err.decode('utf-8', 'replace'), args, timed)
    if timed:
        # Alone once more, with all the time in the world, before it counts as a hang.
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=e,
                             preexec_fn=preexec, cwd=cwd or S['scratch'])
        try:
            p.communicate(timeout=timeout)
            raise HarnessError('slow once: %s' % args)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        expect(False, 'hang', 'no end after %d s, twice: gbdt %s' % (timeout, ' '.join(args)))
    for b in BAD_ENDS:
        if b in res.err:
            i = res.err.find(b)
            expect(False, 'crash', 'gbdt %s: %s' % (' '.join(args), res.err[max(0, i - 200):i + 2500]))
    if p.returncode < 0 and p.returncode != -6:
        expect(False, 'crash', 'gbdt %s: killed by signal %d' % (' '.join(args), -p.returncode))
    return res


def fresh(name):
    d = os.path.join(S['scratch'], name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write(path, text):
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text)
    return path


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def model(path):
    m = json.loads(read(path))
    m.pop('metaInfo', None)
    return m
