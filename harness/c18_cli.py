"""C18: the command-line tool end to end."""
import copy
import json
import os
import stat

from pyharness import *


def cat(*a):
    return ''.join(str(x) for x in a)


def same_scores(path, want, mag):
    """The first row a score file has wrong, or None."""
    lines = read(path).decode().split('\n')
    if lines == [''] and not want:
        return None
    if len(lines) != len(want):
        return '%d lines for %d rows' % (len(lines), len(want))
    for i, (l, w) in enumerate(zip(lines, want)):
        try:
            v = float(l)
        except ValueError:
            return 'row %d is %r' % (i, l)
        if not near(v, w, 6e-6, 1e-9 * mag):
            return 'row %d is %s, not %.9g' % (i, l, w)
    return None


def cell_of(job, i):
    return lambda name: job.col(name).values[i]


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[q] = (os.stat(q).st_mtime_ns, os.stat(q).st_size)
    return out


class Bench:
    def __init__(self, r, d, job, data=None):
        self.r, self.d, self.job = r, d, job
        self.cfg = write(os.path.join(d, 'config'), json.dumps(job.config, indent=r.choice([None, 1])))
        self.tsv = job.write_tsv(os.path.join(d, 'whole'))
        self.seed = r.randint(-(1 << 31), (1 << 31) - 1)
        self.threads = r.choice([1, 1, 2, 3, 5, 16])

    def train(self, out, data=None, cfg=None, base=None, seed=None, threads=None, name='forest', extra=(), mode='train'):
        args = ['--config_file=' + (cfg or self.cfg), '--output_dir=' + os.path.join(self.d, out), '--seed=%d' % (self.seed if seed is None else seed),
                '--num_threads=%d' % (threads or self.threads), '--output_model_name=' + name]
        args += (data or ['--tsvs=' + ','.join(self.tsv)])
        if mode != 'train' or self.r.random() < 0.5:
            args.append('--mode=' + mode)
        if base:
            args.append('--base_model_file=' + base)
        self.r.shuffle(args)
        return cli(args + list(extra))

    def test(self, out, mfile, data=None, cfg=None, threads=None, extra=()):
        args = ['--mode=test', '--config_file=' + (cfg or self.cfg), '--output_dir=' + os.path.join(self.d, out), '--testing_model_file=' + mfile,
                '--num_threads=%d' % (threads or self.threads)] + (data or ['--tsvs=' + ','.join(self.tsv)]) + list(extra)
        return cli(args)


def check_model(job, m, what):
    for t in m.get('tree', []):
        for n in nodes(t):
            expect(('leftChild' in n) == ('rightChild' in n) == ('split' in n), 'model', what, ': a node has ', sorted(n))
    used = set(n['split']['feature'] for n in inner(m.get('tree', [])))
    allowed = set(job.config['float_feature']) | set(job.config['categorical_feature'])
    expect(used <= allowed, 'model', what, ': splits on ', used - allowed)


def check_importance(path, trees, what):
    want = importance(trees)
    got = []
    for l in read(path).decode().split('\n'):
        if l:
            name, v = l.rsplit('\t', 1)
            got.append((name, float(v)))
    expect(sorted(n for n, _ in got) == sorted(want), 'importance', what, ': lists ', got, ' for ', want)
    for n, v in got:
        expect(near(v, want[n], 6e-6), 'importance', what, ': ', n, ' has ', v, ', not ', want[n])
    expect([v for _, v in got] == sorted((v for _, v in got), reverse=True), 'importance', what, ': is not descending: ', got)
    count('importances', len(got))


def check_scores(b, out, mfile, m, what, cfg, data=None, threads=None, job=None):
    job = job or b.job
    res = b.test(out, mfile, data=data, threads=threads)
    expect(res.ok, 'test-run', what, ': ', res.brief())
    trees = m.get('tree', [])
    k = cfg.get('eval_interval', 0)
    points = list(range(len(trees), 0, -k)) if k > 0 else [len(trees)]
    got = sorted(f for f in os.listdir(os.path.join(b.d, out)) if f.endswith('.score'))
    expect(got == sorted('forest.%d.score' % p for p in points if p > 0), 'score-files', what, ': eval_interval ', k, ', ', len(trees), ' trees: ', got)
    for p in points:
        if p <= 0:
            continue
        want = [predict(trees[:p], cell_of(job, i)) for i in range(job.n)]
        bad = same_scores(os.path.join(b.d, out, 'forest.%d.score' % p), want, max([magnitude(trees[:p], cell_of(job, i)) for i in range(job.n)], default=0))
        expect(bad is None, 'scores', what, ': checkpoint ', p, ': ', bad)
        count('scores', job.n)


def good(k, r):
    d = fresh('case')
    job = Job(r, max_rows=r.choice([10, 60, 60, 300]), max_trees=6)
    c = job.config
    labels = None
    if r.random() < 0.5 and job.loss in BINARY:
        c['binarize_target'] = True
        labels = list(job.col('target').values)
        for i in range(job.n):
            v = job.col('target').values[i]
            job.col('target').values[i] = f32(v * r.uniform(0.1, 5)) if v > 0 or r.random() < 0.6 else r.choice([0.0, -0.0])
        count('binarized')
    if r.random() < 0.2:
        job.cols.append(Col('spare', 'raw', [f32(r.random()) for _ in range(job.n)]))
        c['additional_float_column'] = ['spare']
    b = Bench(r, d, job)
    what = cat(job.describe(), ' threads=', b.threads, ' seed=', b.seed)
    base_file, base_model = None, None
    if r.random() < 0.35:
        base_model = gen_forest(r, job)
        base_file = write(os.path.join(d, 'base.json'), json.dumps(base_model))
    t = b.train('a', base=base_file)
    if not t.ok:
        expect('diverges' in t.err, 'train-run', what, ': ', t.brief())
        expect(not os.path.exists(os.path.join(d, 'a', 'forest.json')), 'model-of-failure', what)
        count('diverged')
        return
    mfile = os.path.join(d, 'a', 'forest.json')
    m = model(mfile)
    trees = m.get('tree', [])
    extra_trees = [x for x in (base_model or {}).get('tree', []) if 'leftChild' in x]
    expect(len(trees) == 1 + len(extra_trees) + c['num_trees'], 'tree-count', what, ': ', len(trees), ' trees')
    expect(sorted(os.listdir(os.path.join(d, 'a'))) == ['forest.fimps', 'forest.json'], 'files', what, ': ', os.listdir(os.path.join(d, 'a')))
    if base_model:
        def plain(t):
            out = dict(score=f32(num(t.get('score'))))
            if 'leftChild' in t:
                s = t['split']
                out['split'] = (s['feature'], s.get('gain', 0.0), sorted(s['catSplit']['category']) if 'catSplit' in s else
                                (f32(num(s['floatSplit'].get('threshold'))), s['floatSplit'].get('missingToRightChild', False)))
                out['l'], out['r'] = plain(t['leftChild']), plain(t['rightChild'])
            return out
        for x, y in zip(extra_trees, trees[1:]):
            expect(plain(x) == plain(y), 'base-model', what, ': ', json.dumps(x)[:500], ' became ', json.dumps(y)[:500])
        count('extended')
    else:
        check_model(job, m, what)
    check_importance(os.path.join(d, 'a', 'forest.fimps'), trees, what)
    check_scores(b, 'sa', mfile, m, what, c)
    splits = len(inner(trees))
    # Other forms of the same data.
    parts = r.randint(2, 5)
    blocks = ['--tsvs=' + ','.join(job.write_tsv(os.path.join(d, 'part'), parts))]
    shuffled = list(job.cols) + [Col('unused', 'string', ['u\t'.strip()] * job.n)]
    r.shuffle(shuffled)
    flat_dirs, left = [], list(job.cols)
    for q in range(r.randint(1, 2)):
        cut = len(left) if q == 1 or r.random() < 0.5 else r.randint(0, len(left))
        flat_dirs.append(job.write_flat(os.path.join(d, 'flat%d' % q), left[:cut] or left[:1]))
        left = left[cut:]
    if left:
        flat_dirs.append(job.write_flat(os.path.join(d, 'flatz'), left))
    forms = [('blocks', blocks), ('columns in another order', ['--tsvs=' + ','.join(job.write_tsv(os.path.join(d, 'order'), 1, shuffled))]),
             ('flat files', ['--flatfiles_dirs=' + ','.join(flat_dirs)]), ('a repeat', None)]
    fimps = read(os.path.join(d, 'a', 'forest.fimps'))
    if labels:
        # Binarized targets are positive or not.
        plain_targets = [Col('target', 'raw', labels) if q.name == 'target' else q for q in job.cols]
        forms.append(('ready labels', ['--tsvs=' + ','.join(job.write_tsv(os.path.join(d, 'labels'), 1, plain_targets))]))
    for name, data in forms:
        if name not in ('flat files', 'ready labels') and r.random() < 0.35:
            continue
        cfg = write(os.path.join(d, 'config_labels'), json.dumps(dict(c, binarize_target=False))) if name == 'ready labels' else None
        t = b.train('b' + name.split()[-1], data=data, cfg=cfg, base=base_file, name='m.x')
        expect(t.ok, 'train-run', what, ', ', name, ': ', t.brief())
        o = os.path.join(d, 'b' + name.split()[-1], 'm.x')
        expect(model(o + '.json') == m, 'same-model', what, ': ', name, ' give another model:\n', json.dumps(m)[:1500], '\n', json.dumps(model(o + '.json'))[:1500])
        expect(sorted(read(o + '.fimps').split(b'\n')) == sorted(fimps.split(b'\n')), 'same-importance', what, ': ', name)
        count('form_' + name.split()[-1])
    name, data = r.choice(forms)
    check_scores(b, 'sb', mfile, m, cat(what, ', scores from ', name), c, data=data, threads=r.choice([1, 2, 8]))
    if r.random() < 0.5:
        # Models and data that training never saw, missing features aside.
        other = Job(r, max_rows=40, loss='mse')
        fm = gen_forest(r, other, max_trees=6)
        other.config['eval_interval'] = r.randint(0, 3)
        d2 = os.path.join(d, 'other')
        os.makedirs(d2)
        b2 = Bench(r, d2, other)
        check_scores(b2, 's', write(os.path.join(d2, 'm'), json.dumps(fm, indent=r.choice([None, 2]))), fm, cat('own model on ', other.describe()), other.config, job=other)
        count('own_models')
    seen('loss', job.loss)
    if splits:
        nontrivial(what, splits)
        sample('%s: %d trees, %d splits, also from %s' % (what, len(trees), splits, [n for n, _ in forms]))


# ------------------------------------------------------------------------------------ shipped tables
MISSING_TOKENS = ('NAN', 'nan', 'NaN', '?', '_', '-', '*')
tables = {}


def shipped_table(name):
    if name not in tables:
        p = os.path.join(os.environ['VERIF_REPO'], 'examples', name)
        if not os.path.exists(p):
            return None
        rows = [l.split('\t') for l in read(p).decode().replace('\r', '').split('\n') if l]
        tables[name] = rows[0], rows[1:]
    return tables[name]


def auc(scores, positive):
    order = sorted(range(len(scores)), key=lambda i: scores[i])
    rank, i, total = {}, 0, 0.0
    while i < len(order):
        j = i
        while j < len(order) and scores[order[j]] == scores[order[i]]:
            j += 1
        total += sum((i + j - 1) / 2.0 for q in order[i:j] if positive[q])
        i = j
    p = sum(positive)
    n = len(positive) - p
    return (total - p * (p - 1) / 2.0) / (p * n)


def shipped(k, r):
    """The tables and settings of the examples: scores by hand, several forms, and rows not trained on are ranked well."""
    d = fresh('case')
    adult = r.random() < 0.5
    t = shipped_table('adult/train.tsv' if adult else 'benchm-ml/train-0.1m.tsv')
    if t is None:
        return
    head, rows = t
    loss = LOSSES[k // 150 % len(LOSSES)]
    if adult:
        floats = ['age', 'fnlwgt', 'education-num', 'capital-gain', 'capital-loss', 'hours-per-week']
        cats = [h for h in head if h not in floats and h != 'target']
        config = dict(shrinkage=0.2, min_hessian=0, l2_lambda=1)
        positive = lambda row: row[-1] == '>50K'
    else:
        floats, cats = ['DepTime', 'Distance'], ['Month', 'DayofMonth', 'DayOfWeek', 'UniqueCarrier', 'Origin', 'Dest']
        config = dict(shrinkage=0.2, l2_lambda=10)
        positive = lambda row: row[-1] == '1'
    config.update(loss_func=loss, num_trees=r.randint(12, 20), num_leaves=12, example_sampling_rate=0.7, feature_sampling_rate=0.8, pair_sampling_rate=20,
                  float_feature=floats, categorical_feature=cats, target_column='label', eval_interval=r.randint(4, 9))
    n = r.randint(2000, 8000)
    pick = r.sample(rows, 2 * n)
    cols = []
    for j, h in enumerate(head):
        if h in floats:
            cols.append(Col(h, 'float', [math.nan if x[j] in MISSING_TOKENS else f32(float(x[j])) for x in pick]))
        elif h in cats:
            cols.append(Col(h, 'string', [x[j] for x in pick]))
    label = [positive(x) for x in pick]
    lines = ['\t'.join(head + ['label'])] + ['\t'.join(x + ['1' if y else '-1']) for x, y in zip(pick, label)]
    whole = write(os.path.join(d, 'train.tsv'), '\n'.join(lines[:n + 1]) + '\n')
    cut = sorted(r.randint(1, n) for _ in range(3))
    parts = [write(os.path.join(d, 'part%d.tsv' % q), '\n'.join(lines[a:b]) + '\n') for q, (a, b) in enumerate(zip([0] + cut, cut + [n + 1])) if a < b]
    held = write(os.path.join(d, 'test.tsv'), '\n'.join(lines[:1] + lines[n + 1:]) + '\n')
    flat = os.path.join(d, 'flat')
    os.makedirs(flat)
    for c in cols + [Col('label', 'raw', [1.0 if y else -1.0 for y in label])]:
        write(os.path.join(flat, c.name), '# dtype=%s\n' % dict(string='strings', raw='raw_floats', float='bucketized_floats')[c.kind] + ''.join(c.cell(i) + '\n' for i in range(n)))
    cfg = write(os.path.join(d, 'config'), json.dumps(config))
    what = cat('shipped ', 'adult' if adult else 'flight delay', ' rows=', n, ' ', loss)
    models = []
    threads = r.choice([1, 2, 4])
    for name, data in (('a', '--tsvs=' + whole), ('b', '--tsvs=' + ','.join(parts)), ('c', '--flatfiles_dirs=' + flat)):
        o = os.path.join(d, name)
        t = cli(['--config_file=' + cfg, data, '--output_dir=' + o, '--num_threads=%d' % threads, '--seed=%d' % (k + 1)], timeout=200)
        expect(t.ok, 'train-run', what, ': ', t.brief())
        models.append(model(os.path.join(o, 'forest.json')))
        expect(models[-1] == models[0], 'same-model', what, ': the table, its blocks and its flat files give different models')
    trees = models[0]['tree']
    expect(len(trees) == config['num_trees'] + 1, 'tree-count', what, ': ', len(trees))
    check_importance(os.path.join(d, 'a', 'forest.fimps'), trees, what)
    t = cli(['--mode=test', '--config_file=' + cfg, '--tsvs=' + held, '--output_dir=' + os.path.join(d, 's'), '--num_threads=%d' % r.choice([1, 3, 8]),
             '--testing_model_file=' + os.path.join(d, 'a', 'forest.json')], timeout=200)
    expect(t.ok, 'test-run', what, ': ', t.brief())
    by = {c.name: c.values for c in cols}
    points = list(range(len(trees), 0, -config['eval_interval']))
    expect(sorted(f for f in os.listdir(os.path.join(d, 's')) if f.endswith('.score')) == sorted('forest.%d.score' % p for p in points), 'score-files', what)
    some = r.sample(range(n), 400)
    for p in points:
        got = [float(x) for x in read(os.path.join(d, 's', 'forest.%d.score' % p)).decode().split('\n') if x]
        expect(len(got) == n, 'scores', what, ': ', len(got), ' rows')
        for i in some:
            cell = lambda name: by[name][n + i]
            w = predict(trees[:p], cell)
            expect(near(got[i], w, 6e-6, 1e-6 * magnitude(trees[:p], cell)), 'scores', what, ': row ', i, ' after ', p, ' trees scores ', got[i], ', not ', w)
        count('shipped_scores', len(some))
        if p == len(trees):
            a = auc(got, label[n:])
            least = 0.8 if adult else 0.54
            expect(a >= least, 'learns', what, ': rows not trained on are ranked with an area of ', a, ' below the curve')
    count('shipped')
    nontrivial(what, k)


# ------------------------------------------------------------------------------------- mistakes
def mistakes():
    """(name, mode, fn(b, r) -> keyword arguments for the run)."""
    def conf(change):
        def f(b, r):
            c = copy.deepcopy(b.job.config)
            out = change(c, b, r)
            return dict(cfg=write(os.path.join(b.d, 'wrong_config'), out if out is not None else json.dumps(c)))
        return f

    def put(**kw):
        return conf(lambda c, b, r: c.update(kw))

    def drop(name):
        return conf(lambda c, b, r: c.pop(name, None) and None)

    def flags(*extra):
        return lambda b, r: dict(extra=list(extra))

    def data(change):
        def f(b, r):
            lines = read(b.tsv[0]).split(b'\n')
            p = write(os.path.join(b.d, 'wrong.tsv'), change(lines, b, r))
            return dict(data=['--tsvs=' + p])
        return f

    def columns(change):
        def f(b, r):
            cols = change(copy.deepcopy(b.job.cols), b, r)
            return dict(data=['--tsvs=' + ','.join(b.job.write_tsv(os.path.join(b.d, 'wrong'), 1, cols))])
        return f

    def flat(change):
        def f(b, r):
            d = b.job.write_flat(os.path.join(b.d, 'wrong_flat'))
            change(d, b, r)
            return dict(data=['--flatfiles_dirs=' + d])
        return f

    def used(b, r):
        return r.choice([c.name for c in b.job.features] + ['target'])

    def mutate(name):
        def f(cols, b, r):
            for c in cols:
                if c.name == name:
                    return c
        return f

    def bad_cell(lines, b, r):
        i = r.randint(1, len(lines) - 2)
        cells = lines[i].split(b'\t')
        k = [q for q, c in enumerate(b.job.cols) if c.kind != 'string']
        cells[r.choice(k)] = r.choice([b'x1', b'1.5z', b'--', b'', b'1,5', b'1 2'])
        lines[i] = b'\t'.join(cells)
        return b'\n'.join(lines)

    def short_row(lines, b, r):
        i = r.randint(1, len(lines) - 2)
        lines[i] = lines[i].rsplit(b'\t', 1)[0]
        return b'\n'.join(lines)

    def nonbinary(cols, b, r):
        for c in cols:
            if c.name == 'target':
                c.values[r.randrange(b.job.n)] = r.choice([0.0, 0.5, 2.0, -3.0, math.nan])
        return cols

    def missing_target(cols, b, r):
        for c in cols:
            if c.name == 'target':
                c.values[r.randrange(b.job.n)] = math.nan
        return cols

    def bad_model(b, r):
        return dict(base=write(os.path.join(b.d, 'bad_model'), r.choice([
            '{', '[]', '{"tree": [{"score": "x"}]}', '{"tree": 3}', '{"trees": []}', 'null and void', '{"tree":[{"score":1}]} x',
            json.dumps(gen_forest(r, b.job))[:-r.randint(1, 5)]])))

    def alien_model(b, r):
        return dict(base=write(os.path.join(b.d, 'alien'), json.dumps(dict(tree=[dict(score=1, split=dict(feature='alien', floatSplit=dict(threshold=1)),
                                                                                    leftChild=dict(score=2), rightChild=dict(score=3))]))))

    def wrong_kind_model(b, r):
        c = r.choice(b.job.features)
        s = dict(feature=c.name)
        s.update(dict(floatSplit=dict(threshold=1)) if c.kind == 'string' else dict(catSplit=dict(category=['a'])))
        return dict(base=write(os.path.join(b.d, 'kind'), json.dumps(dict(tree=[dict(score=1, split=s, leftChild=dict(score=2), rightChild=dict(score=3))]))))

    both = [
        ('mode', lambda b, r: dict(extra=['--mode=' + r.choice(['', 'Train', 'predict', 'tests'])], mode='none')),
        ('unknown-flag', flags('--no_such_flag=1')),
        ('threads-word', flags('--num_threads=many')),
        ('threads-zero', flags('--num_threads=0')),
        ('threads-negative', lambda b, r: dict(extra=['--num_threads=%d' % r.choice([-1, -2, -(1 << 31)])])),
        ('threads-overflow', flags('--num_threads=99999999999')),
        ('config-missing', lambda b, r: dict(cfg=os.path.join(b.d, 'nowhere'))),
        ('config-empty', conf(lambda c, b, r: '')),
        ('config-flag-empty', flags('--config_file=')),
        ('config-directory', lambda b, r: dict(cfg=b.d)),
        ('config-syntax', conf(lambda c, b, r: json.dumps(c)[:-1])),
        ('config-field', put(no_such_field=1)),
        ('config-type', put(num_trees='many')),
        ('config-range', conf(lambda c, b, r: json.dumps(dict(c, num_trees=1 << 40)))),
        ('no-data', lambda b, r: dict(data=['--tsvs='])),
        ('data-missing', lambda b, r: dict(data=['--tsvs=' + os.path.join(b.d, 'nowhere')])),
        ('block-missing', lambda b, r: dict(data=['--tsvs=' + b.tsv[0] + ',' + os.path.join(b.d, 'nowhere')])),
        ('data-directory', lambda b, r: dict(data=['--tsvs=' + b.d])),
        ('data-empty', data(lambda l, b, r: b'')),
        ('data-cell', data(bad_cell)),
        ('data-short-row', data(short_row)),
        ('data-header', data(lambda l, b, r: b'\n'.join(l[1:]))),
        ('output-flag', flags('--output_dir=')),
    ]
    train = [
        ('loss', conf(lambda c, b, r: c.update(loss_func=r.choice(['', 'MSE', 'lambdarank', 'nope', 'mse '])))),
        ('trees', conf(lambda c, b, r: c.update(num_trees=r.choice([0, -1, -(1 << 31)])))),
        ('no-trees', drop('num_trees')),
        ('leaves', conf(lambda c, b, r: c.update(num_leaves=r.choice([0, -1])))),
        ('rows-rate', conf(lambda c, b, r: c.update(example_sampling_rate=r.choice([0, -0.5, 1.01, 'NaN', 'Infinity'])))),
        ('features-rate', conf(lambda c, b, r: c.update(feature_sampling_rate=r.choice([0, -0.5, 1.01, 'NaN', 'Infinity'])))),
        ('target-name', put(target_column='nowhere')),
        ('target-none', drop('target_column')),
        ('weight-name', put(weight_column='nowhere')),
        ('group-name', put(group_column='nowhere')),
        ('feature-name', conf(lambda c, b, r: c['float_feature'].append('nowhere'))),
        ('category-name', conf(lambda c, b, r: c['categorical_feature'].append('nowhere'))),
        ('extra-name', put(additional_float_column=['nowhere'])),
        ('target-gone', columns(lambda cols, b, r: [c for c in cols if c.name != 'target'])),
        ('feature-gone', columns(lambda cols, b, r: [c for c in cols if c is not cols[0]])),
        ('base-missing', lambda b, r: dict(base=os.path.join(b.d, 'nowhere'))),
        ('base-bad', bad_model),
        ('base-alien', alien_model),
        ('base-kind', wrong_kind_model),
        ('flat-file-gone', flat(lambda d, b, r: os.remove(os.path.join(d, used(b, r))))),
        ('flat-file-empty', flat(lambda d, b, r: write(os.path.join(d, used(b, r)), ''))),
        ('flat-file-type', flat(lambda d, b, r: write(os.path.join(d, used(b, r)), '# dtype=%s\n' % r.choice(['ints', '', 'string']) + '1\n' * b.job.n))),
        ('flat-file-short', flat(lambda d, b, r: write(os.path.join(d, used(b, r)), b''.join(l + b'\n' for l in read(os.path.join(d, 'target')).split(b'\n')[:b.job.n])))),
        ('flat-dir-missing', lambda b, r: dict(data=['--flatfiles_dirs=' + os.path.join(b.d, 'nowhere')])),
        ('targets-binary', columns(nonbinary)),
        ('targets-missing', columns(missing_target)),
        ('pair-rate', conf(lambda c, b, r: c.update(pair_sampling_rate=r.choice([0, -1])))),
        ('gain-type', put(min_gain=[1])),
    ]
    test = [
        ('model-missing', lambda b, r: dict(base=os.path.join(b.d, 'nowhere'))),
        ('model-flag', lambda b, r: dict(base='')),
        ('model-bad', bad_model),
        ('model-alien', alien_model),
        ('model-kind', wrong_kind_model),
    ]
    return [(n, 'train', f) for n, f in both + train] + [(n, 'test', f) for n, f in both + test]


MISTAKES = mistakes()


def wrong(k, r):
    d = fresh('case')
    chosen = MISTAKES[k % len(MISTAKES)]
    name, mode, f = chosen
    loss = None
    if name == 'targets-binary':
        loss = r.choice(BINARY)
    elif name in ('pair-rate', 'targets-missing'):
        loss = r.choice(['auc', 'pairwise_logloss', 'gbrank', 'lambdamart'])
    job = Job(r, loss=loss, min_rows=3)
    job.config['eval_interval'] = 1
    b = Bench(r, d, job)
    own = gen_forest(r, job)
    mfile = write(os.path.join(d, 'model'), json.dumps(own))
    out = r.choice(['out', 'fresh'])
    if out == 'out':   # files of an earlier success that must not be renewed
        o = os.path.join(d, 'out')
        os.makedirs(o)
        for n in ('forest.json', 'forest.fimps', 'forest.1.score'):
            write(os.path.join(o, n), 'earlier')
    kw = f(b, r)
    before = snapshot(d)
    mode_arg = kw.pop('mode', None)
    if mode == 'train':
        res = b.train(out, mode=mode_arg or 'train', **kw)
    else:
        base = kw.pop('base', mfile)
        res = b.test(out, base, **kw)
    what = cat(mode, ' with mistake ', name, ' on ', job.describe(), ': gbdt ', ' '.join(res.args))
    expect(not res.ok, 'mistake-accepted', what, ': ends with success')
    after = snapshot(d)
    new = [p for p in after if p not in before or before[p] != after[p]]
    expect(not new, 'mistake-wrote', what, ': wrote ', new, '; ', res.brief())
    count('mistakes')
    seen('mistake', (mode, name))
    nontrivial(what)


def case(k, r):
    # A third of the cases are good runs; the others go through the list of mistakes.
    if k % 150 == 75:
        shipped(k, r)
    elif k % 3 == 0:
        good(k, r)
    else:
        wrong(k - k // 3 - 1, r)
    shutil.rmtree(os.path.join(S['scratch'], 'case'), ignore_errors=True)


main(case)
