"""C21: histories of calls of the Python package, against lists and the command-line tool."""
import copy
import gc
import json
import os
import tempfile

from pyharness import *
import pymod

gbdt, native = pymod.load()
os.environ.pop('LD_PRELOAD', None)
tempfile.tempdir = None
KINDS = ('float', 'string', 'raw')
NAMES = ['a', 'b', 'c d', '', 'caf\u00e9', 'x' * 40, 'target']
# What C++ exceptions and argument conversion turn into.
REFUSED = (ValueError, IndexError, RuntimeError, TypeError, KeyError, OSError, OverflowError, NotImplementedError, MemoryError, AttributeError)


def cat(*a):
    return ''.join(str(x) for x in a)


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return a == b or (math.isnan(a) and math.isnan(b))


def equal(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def values(r, kind, n):
    if kind == 'string':
        return gen_strings(r, n)
    v = gen_floats(r, n)
    if r.random() < 0.2:
        v = [f32(r.choice([math.inf, -math.inf, 3e38, 1e-45, -0.0])) if r.random() < 0.3 else x for x in v]
    return v


class Store:
    """A data store of the package next to what it should hold."""

    def __init__(self, real, cols):
        self.real, self.cols = real, cols   # cols: name -> (kind, list)

    def rows(self):
        return len(next(iter(self.cols.values()))[1]) if self.cols else 0

    def verify(self, what):
        s = self.real
        expect(len(s) == self.rows(), 'length', what, ': len is ', len(s), ', not ', self.rows())
        expect(sorted(s.cols()) == sorted(self.cols) and sorted(s.keys()) == sorted(self.cols), 'columns', what, ': ', s.cols(), ' instead of ', list(self.cols))
        for kind, names in (('float', s.bucketized_float_cols()), ('raw', s.raw_float_cols()), ('string', s.string_cols())):
            expect(sorted(names) == sorted(n for n, c in self.cols.items() if c[0] == kind), 'kinds', what, ': ', kind, ' columns are ', names)
        for name, (kind, vals) in self.cols.items():
            expect(name in s, 'contains', what, ': ', name)
            col = s[name]
            want = dict(float=native.BucketizedFloatColumn, raw=native.RawFloatColumn, string=native.StringColumn)[kind]
            expect(type(col) is want, 'column-type', what, ': ', name, ' is ', type(col))
            got = list(col)
            expect(len(col) == len(vals) and equal(got, vals), 'values', what, ': ', kind, ' column ', repr(name), ' is ', got[:20], ' instead of ', vals[:20])
            if kind == 'float':
                bs = col.buckets()
                for v in vals:
                    expect(math.isnan(v) or any(lo <= v <= hi for lo, hi in bs), 'buckets', what, ': ', v, ' is in none of ', bs[:20])
            repr(col), str(col)
        expect('nowhere' not in s, 'contains', what)
        repr(s)
        expect(equal_items(s.items(), self.cols), 'items', what)
        count('verified')


def equal_items(items, cols):
    items = list(items)
    return sorted(k for k, _ in items) == sorted(cols) and all(equal(list(v), cols[k][1]) for k, v in items)


def refused(what, f, *a, **kw):
    """f must raise."""
    try:
        got = f(*a, **kw)
        if hasattr(got, '__next__'):
            got = list(got)
    except REFUSED as e:
        count('refused')
        seen('refusal', (what.split(':')[0], type(e).__name__))
        return
    expect(False, 'not-refused', what, ': gives ', repr(got)[:300])


def add(s, name, kind, vals):
    f = dict(float=s.add_bucketized_float_col, string=s.add_string_col, raw=s.add_raw_float_col)[kind]
    f(name, vals)


def from_dict(cols):
    by = {k: {n: c[1] for n, c in cols.items() if c[0] == k} for k in KINDS}
    kw = {}
    if by['float']:
        kw['bucketized_float_cols'] = by['float']
    if by['string']:
        kw['string_cols'] = by['string']
    if by['raw']:
        kw['raw_float_cols'] = by['raw']
    return gbdt.DataLoader.from_dict(**kw)


def tsv(r, d, cols, parts):
    job = Job.__new__(Job)
    job.n = len(next(iter(cols.values()))[1])
    job.cols = [Col(n, k, v) for n, (k, v) in cols.items()]
    r.shuffle(job.cols)
    return job.write_tsv(os.path.join(d, 't%d_' % r.randrange(10 ** 9)), parts)


def new_store(r, d):
    n = r.choice([0, 1, 2, 3, 7, 20])
    cols = {}
    for name in r.sample(NAMES, r.randint(0, 4)):
        kind = r.choice(KINDS)
        cols[name] = (kind, values(r, kind, n))
    if r.random() < 0.5 and cols and all(n2 and '\t' not in n2 for n2 in cols):
        # TSV cells cannot hold every string: stay with those they can.
        fixed = {k: (c[0], [v if isinstance(v, float) or v not in ('', '__missing__') else 'e' for v in c[1]]) for k, c in cols.items()}
        names = tsv(r, d, fixed, r.randint(1, 3))
        return Store(gbdt.DataLoader.from_tsvs(names, bucketized_float_cols=[k for k, c in fixed.items() if c[0] == 'float'],
                                               string_cols=[k for k, c in fixed.items() if c[0] == 'string'],
                                               raw_float_cols=[k for k, c in fixed.items() if c[0] == 'raw']), fixed)
    return Store(from_dict(cols), cols)


def history(k, r):
    d = fresh('case')
    stores = [new_store(r, d)]
    held = []     # (column, name, expected values)
    ops = []
    for step in range(r.randint(3, 25)):
        s = r.choice(stores) if stores else None
        op = r.choice(['new', 'add', 'add', 'add_bad', 'erase', 'hold', 'hold', 'slice', 'slice_bad', 'copy', 'drop', 'clear', 'reload', 'reload_bad', 'look', 'look', 'index'])
        if s is None:
            op = 'new'
        what = cat(op, ': after ', ' '.join(ops))
        ops.append(op)
        n = s.rows() if s else 0
        if op == 'new' and len(stores) < 4:
            stores.append(new_store(r, d))
            s = stores[-1]
        elif op == 'add':
            free = [x for x in NAMES if x not in s.cols]
            if free:
                name, kind = r.choice(free), r.choice(KINDS)
                vals = values(r, kind, n if s.cols else r.randint(0, 8))
                add(s.real, name, kind, vals)
                s.cols[name] = (kind, [f32(v) for v in vals] if kind != 'string' else list(vals))
        elif op == 'add_bad' and s.cols:
            kind = r.choice(KINDS)
            free = [x for x in NAMES if x not in s.cols]
            way = r.choice(['duplicate', 'length', 'type', 'scalar'])
            if way == 'duplicate':
                refused(what, add, s.real, r.choice(list(s.cols)), kind, values(r, kind, n))
            elif free and way == 'length':
                refused(what, add, s.real, free[0], kind, values(r, kind, r.choice([n + 1, n + 5, n - 1] if n else [1, 2])))
            elif free and way == 'type':
                refused(what, add, s.real, free[0], kind, [object()] * (n or 1))
            elif free:
                refused(what, add, s.real, free[0], kind, 5)
        elif op == 'erase':
            name = r.choice(list(s.cols) + ['nowhere'])
            s.real.erase(name)
            s.cols.pop(name, None)
        elif op == 'hold' and s.cols:
            name = r.choice(list(s.cols))
            held.append((s.real[name], name, list(s.cols[name][1])))
        elif op == 'slice' and s.cols:
            if n and r.random() < 0.3:
                i = r.randrange(n)
                t, idx = s.real[i], [i]
            elif r.random() < 0.4:
                a = r.randint(0, n)
                b = r.randint(a, n)
                t, idx = s.real[(a, b)], list(range(a, b))
            else:
                idx = [r.randrange(n) for _ in range(r.randint(0, 2 * n))] if n else []
                t = s.real[list(idx)]
            stores.append(Store(t, {c: (kd, [v[i] for i in idx]) for c, (kd, v) in s.cols.items()}))
            stores[-1].verify(what)
        elif op == 'slice_bad' and s.cols:
            bad = r.choice([n, n + 1, n + 1000, 1 << 31, 1 << 40, -(1 << 40)])
            refused(what, s.real.slice, [0] * (n > 0) + [bad])
            refused(what, s.real.slice, [None])
            refused(what, lambda: s.real[(0, n + 1)])
        elif op == 'copy':
            stores.append(Store(s.real.copy(), {c: (kd, list(v)) for c, (kd, v) in s.cols.items()}))
        elif op == 'drop':
            stores.remove(s)
            s.real = None
            gc.collect()
            count('dropped')
        elif op == 'clear':
            s.real._data_store.clear()
            s.cols = {}
        elif op == 'reload':
            fresh_store = new_store(r, d)
            cols = {c: v for c, v in fresh_store.cols.items() if c}
            if cols and all(v[0] != 'string' or not set(v[1]) & {'', '__missing__'} for v in cols.values()):
                names = tsv(r, d, cols, r.randint(1, 2))
                s.real._data_store.load_tsv(names, [c for c, v in cols.items() if v[0] == 'float'], [c for c, v in cols.items() if v[0] == 'raw'],
                                            [c for c, v in cols.items() if v[0] == 'string'])
                s.cols = cols
        elif op == 'reload_bad':
            p = write(os.path.join(d, 'bad'), r.choice(['', 'a\tb\n1\t2\n3\n', 'a\tb\nx\ty\n', 'a\ta\n1\t2\n']))
            refused(what, s.real._data_store.load_tsv, [r.choice([p, os.path.join(d, 'nowhere')])], ['a', 'b'])
        elif op == 'look':
            refused(what, lambda: s.real['nowhere'])
            refused(what, s.real._data_store.get_column_type, 'nowhere')
            for f in (s.real._data_store.get_bucketized_float_col, s.real._data_store.get_raw_float_col, s.real._data_store.get_string_col):
                refused(what, f, 'nowhere')
            if s.cols:
                name = r.choice(list(s.cols))
                kind = s.cols[name][0]
                expect(s.real._data_store.get_column_type(name) == dict(float='bucketized_float', raw='raw_float', string='string')[kind], 'column-type', what)
                if kind != 'float':
                    refused(what, s.real._data_store.get_bucketized_float_col, name)
                if kind != 'raw':
                    refused(what, s.real._data_store.get_raw_float_col, name)
                if kind != 'string':
                    refused(what, s.real._data_store.get_string_col, name)
        elif op == 'index' and s.cols:
            name = r.choice(list(s.cols))
            col, vals = s.real[name], s.cols[name][1]
            for i in (0, n - 1, r.randint(0, n), n, n + 1, -1, -n, -n - 1, (1 << 31) - 1, -(1 << 31)):
                try:
                    v = col[i]
                except (IndexError, OverflowError, TypeError):
                    expect(not 0 <= i < n, 'index', what, ': column[', i, '] of ', n, ' is refused')
                else:
                    # Counting from the end is not promised, but must be right if it works.
                    expect(-n <= i < n and same(v, vals[i]), 'index', what, ': column[', i, '] of ', n, ' is ', v)
            for i in ('0', None, 1.5, 1 << 70):
                refused(what, lambda: col[i])
        for col, name, vals in held:
            try:
                got = list(col)
                text = repr(col)
            except REFUSED:
                count('held_refused')
                continue
            expect(equal(got, vals), 'held-column', what, ': a column taken earlier is ', got[:20], ', was ', vals[:20])
            count('held_read')
        if s and s in stores:
            s.verify(what)
        if len(stores) > 6:
            del stores[r.randrange(len(stores))]
        seen('op_pair', tuple(ops[-2:]))
    count('operations', len(ops))
    nontrivial(tuple(ops), k)
    sample('history ' + ' '.join(ops))


# ------------------------------------------------------------------------------------- models
def job_store(job, target=True):
    return from_dict({c.name: (c.kind, c.values) for c in job.cols})


def cell_of(job, i):
    return lambda name: job.col(name).values[i]


def tied(a, b):
    """Whether two models differ first where two divisions have the same gain: which is taken then depends on
    the order of the features, which the two ways of training need not share."""
    ta, tb = a.get('tree', []), b.get('tree', [])
    if len(ta) != len(tb):
        return False
    for x, y in zip(ta[1:], tb[1:]):
        if x == y:
            continue
        stack = [(x, y)]
        while stack:
            x, y = stack.pop()
            if not near(num(x.get('score')), num(y.get('score')), 1e-6, 1e-12):
                return False
            if ('leftChild' in x) != ('leftChild' in y):
                continue   # settled by what follows a tie elsewhere
            if 'leftChild' not in x:
                continue
            sx, sy = x['split'], y['split']
            if sx != sy:
                return sx['feature'] != sy['feature'] and near(num(sx.get('gain')), num(sy.get('gain')), 1e-9)
            stack += [(x['leftChild'], y['leftChild']), (x['rightChild'], y['rightChild'])]
        return False
    return False


def config_of(job, r):
    c = {k: v for k, v in job.config.items() if k not in ('float_feature', 'categorical_feature')}
    if r.random() < 0.3:
        for k in ('example_sampling_rate', 'feature_sampling_rate'):
            if c[k] == 1:
                del c[k]
    return c


def no_meta(text):
    m = json.loads(text)
    m.pop('metaInfo', None)
    return m


def check_predictions(job, store, forest, m, what):
    trees = m.get('tree', [])
    got = forest.predict(store)
    expect(len(got) == job.n, 'predict', what, ': ', len(got), ' scores for ', job.n, ' rows')
    for i in range(job.n):
        w = predict(trees, cell_of(job, i))
        expect(near(got[i], w, 1e-9, 1e-9 * magnitude(trees, cell_of(job, i))), 'predict', what, ': row ', i, ' scores ', got[i], ', not ', w)
    count('predictions', job.n)


def modelling(k, r):
    d = fresh('case')
    job = Job(r, max_rows=40, max_trees=5)
    if r.random() < 0.3 and job.loss in BINARY:
        job.config['binarize_target'] = True
        for i in range(job.n):
            v = job.col('target').values[i]
            job.col('target').values[i] = f32(v * r.uniform(0.1, 5)) if v > 0 or r.random() < 0.6 else 0.0
    store = job_store(job)
    threads, seed = r.choice([1, 2, 4, 16]), r.randint(-(1 << 31), (1 << 31) - 1)
    what = cat(job.describe(), ' threads=', threads, ' seed=', seed)
    features = [c.name for c in job.features]
    base, base_text = None, None
    if r.random() < 0.35:
        base_text = json.dumps(gen_forest(r, job))
        base = gbdt.Forest(base_text)
    kw = dict(features=features, random_seed=seed, num_threads=threads)
    if base:
        kw['base_forest'] = base
    give_y = r.random() < 0.5
    if give_y:
        kw['y'] = list(job.col('target').values)
    if job.weighted and r.random() < 0.5:
        kw['w'] = list(job.col('weight').values)
    cfg = config_of(job, r)
    if give_y and r.random() < 0.5:
        del cfg['target_column']
    if 'w' in kw and r.random() < 0.5:
        del cfg['weight_column']
    # The same job for the tool.
    args = ['--mode=train', '--config_file=' + write(os.path.join(d, 'config'), json.dumps(job.config)), '--tsvs=' + ','.join(job.write_tsv(os.path.join(d, 'data'))),
            '--output_dir=' + os.path.join(d, 'out'), '--seed=%d' % seed, '--num_threads=%d' % threads]
    if base:
        args.append('--base_model_file=' + write(os.path.join(d, 'base'), base_text))
    ref = cli(args)
    try:
        forest = gbdt.train(store, cfg, **kw)
    except REFUSED as e:
        expect(not ref.ok, 'train-refused', what, ': training from Python raises ', repr(e)[:500], ', the tool succeeds')
        Store(store, {c.name: (c.kind, c.values) for c in job.cols}).verify(what)
        return
    expect(ref.ok, 'train-accepted', what, ': training from Python succeeds, the tool does not: ', ref.brief())
    m, n = no_meta(str(forest)), model(os.path.join(d, 'out', 'forest.json'))
    # Which features a sample holds depends on the order they are listed in, which the two ways need not share.
    tie = m != n and (job.config['feature_sampling_rate'] < 1 or tied(m, n))
    count('ties', int(tie))
    expect(m == n or tie, 'same-trees', what, ' y=', give_y, ' w=', 'w' in kw, ': Python and the tool train different models:\n', json.dumps(m)[:1500], '\n', json.dumps(n)[:1500])
    count('trained')
    if r.random() < 0.5:
        once_more = no_meta(str(gbdt.train(store, dict(cfg), **kw)))
        expect(once_more == m, 'repeat', what, ': training again gives another model:\n', json.dumps(m)[:1500], '\n', json.dumps(once_more)[:1500])
        count('repeated')
    if r.random() < 0.3:
        # A configuration that has been used, with other features, against a new one.
        few = r.sample(features, r.randint(1, len(features)))
        alone = {x: v for x, v in kw.items() if x != 'base_forest'}
        used = config_of(job, r)
        fresh_cfg = dict(used)
        texts = []
        for q in (used, fresh_cfg):
            try:
                if q is used:
                    gbdt.train(store, used, **alone)
                texts.append(no_meta(str(gbdt.train(store, q, **dict(alone, features=few)))))
            except REFUSED as e:
                texts.append(repr(type(e)))
        expect(texts[0] == texts[1], 'used-config', what, ': with features ', few, ', a configuration used before gives another model than a new one:\n', str(texts[0])[:1000], '\n', str(texts[1])[:1000])
        names = set(x['split']['feature'] for x in inner(texts[0].get('tree', []))) if isinstance(texts[0], dict) else set()
        expect(names <= set(few), 'used-config', what, ': a model for ', few, ' splits on ', sorted(names))
        count('used_configs')
    trees = m.get('tree', [])
    check_predictions(job, store, forest, m, what)
    imp = importance(trees)
    got = forest.feature_importance()
    expect(sorted(x for x, _ in got) == sorted(imp) and all(near(v, imp[x], 1e-9) for x, v in got), 'importance', what, ': ', got, ' for ', imp)
    expect(forest.features() == [x for x, _ in got], 'features', what)
    again = gbdt.Forest(str(forest))
    expect(no_meta(str(again)) == m and equal(again.predict(store), forest.predict(store)), 'reload', what)
    # Checkpoints, twice with models of different sizes, in whatever directory.
    points = sorted(r.sample(range(1, len(trees) + 1), r.randint(1, len(trees))))
    if r.random() < 0.3:
        r.shuffle(points)
    for f, ts in ((forest, trees), (base or forest, no_meta(base_text)['tree'] if base else trees)):
        ps = [p for p in points if p <= len(ts)]
        out = list(f.predict_at_checkpoints(store, ps))
        expect([p for p, _ in out] == ps, 'checkpoints', what, ': ', [p for p, _ in out], ' for ', ps)
        for p, scores in out:
            expect(len(scores) == job.n, 'checkpoints', what, ': ', len(scores), ' scores at ', p)
            for i in range(job.n):
                w = predict(ts[:p], cell_of(job, i))
                expect(near(scores[i], w, 6e-6, 1e-9 * magnitude(ts[:p], cell_of(job, i))), 'checkpoints', what, ': checkpoint ', p, ' row ', i, ' is ', scores[i], ', not ', w)
            count('checkpoints')
        # Beyond the model there is nothing, not what somebody left.
        try:
            late = list(f.predict_at_checkpoints(store, [len(ts) + 1]))
        except REFUSED:
            count('refused')
        else:
            expect(all(not s for _, s in late), 'stale-checkpoint', what, ': checkpoint ', len(ts) + 1, ' of ', len(ts), ' trees gives ', str(late)[:200])
    # Other rows, other stores.
    idx = [r.randrange(job.n) for _ in range(r.randint(0, 12))]
    part = store.slice(idx)
    expect(equal(forest.predict(part), [forest.predict(store)[i] for i in idx]), 'predict-slice', what)
    if r.random() < 0.3:
        forest2 = gbdt.train(store, config_of(job, r), **dict(kw, num_threads=threads))
        if not job.config.get('binarize_target') or give_y or True:
            expect(no_meta(str(forest2)) == m, 'repeat', what, ': training again gives another model')
        count('repeats')
    del store
    gc.collect()
    seen('loss', job.loss)
    if inner(trees):
        nontrivial(what, len(inner(trees)))
        sample('%s: %d trees, checkpoints %s' % (what, len(trees), points))


def refusals(k, r):
    """One wrong request, then everything still works."""
    d = fresh('case')
    # Odd thread counts are last, so that nothing else runs with what they left behind.
    loss = r.choice(['mse', 'logloss', 'auc', 'lambdamart'])
    job = Job(r, min_rows=3, max_rows=20, max_trees=3, loss=loss)
    store = job_store(job)
    whole = Store(store, {c.name: (c.kind, c.values) for c in job.cols})
    features = [c.name for c in job.features]
    c = {q: v for q, v in job.config.items() if q not in ('float_feature', 'categorical_feature', 'weight_column')}
    y = list(job.col('target').values)
    forest = gbdt.Forest(json.dumps(gen_forest(r, job)))
    before = str(forest)
    alien = json.dumps(dict(tree=[dict(score=1, split=dict(feature='alien', floatSplit=dict(threshold=1)), leftChild=dict(score=2), rightChild=dict(score=3))]))
    f = r.choice(job.features)
    s = dict(feature=f.name)
    s.update(dict(floatSplit=dict(threshold=1)) if f.kind == 'string' else dict(catSplit=dict(category=['a'])))
    kind = json.dumps(dict(tree=[dict(score=1, split=s, leftChild=dict(score=2), rightChild=dict(score=3))]))
    raw = json.dumps(dict(tree=[dict(score=1, split=dict(feature='target', floatSplit=dict(threshold=1)), leftChild=dict(score=2), rightChild=dict(score=3))]))
    nosplit = json.dumps(dict(tree=[dict(score=1, split=dict(feature=f.name), leftChild=dict(score=2), rightChild=dict(score=3))]))
    empty = gbdt.DataLoader.from_dict()
    train = lambda cfg=None, **kw: gbdt.train(kw.pop('store', store), dict(c, **(cfg or {})), **dict(dict(y=y, features=features, num_threads=2), **kw))
    n = job.n
    way = [
        ('unknown feature', lambda: train(features=features + ['nowhere'])),
        ('raw feature', lambda: train(features=features + ['target'])),
        ('no features', lambda: train(features=[])),
        ('short y', lambda: train(y=y[:-1])),
        ('long y', lambda: train(y=y + [1.0])),
        ('text y', lambda: train(y=['a'] * n)),
        ('short w', lambda: train(w=[1.0] * (n - 1))),
        ('long w', lambda: train(w=[1.0] * (n + 3))),
        ('no trees', lambda: train(dict(num_trees=0))),
        ('negative leaves', lambda: train(dict(num_leaves=-1))),
        ('row rate', lambda: train(dict(example_sampling_rate=r.choice([0, 2, -1, 'NaN'])))),
        ('feature rate', lambda: train(dict(feature_sampling_rate=r.choice([0, 2, -1, 'NaN'])))),
        ('unknown loss', lambda: train(dict(loss_func='nope'))),
        ('no loss', lambda: train(dict(loss_func=''))),
        ('unknown field', lambda: train(dict(no_such_field=1))),
        ('field type', lambda: train(dict(num_trees='many'))),
        ('unserializable', lambda: train(dict(num_trees=object()))),
        ('no target', lambda: train(dict(target_column=''), y=[])),
        ('target name', lambda: train(dict(target_column='nowhere'), y=[])),
        ('target kind', lambda: train(dict(target_column=features[0]), y=[])),
        ('group name', lambda: train(dict(group_column='nowhere'))),
        ('group kind', lambda: train(dict(group_column='target'))),
        ('weight name', lambda: train(dict(weight_column='nowhere'))),
        ('base alien', lambda: train(base_forest=gbdt.Forest(alien))),
        ('base kind', lambda: train(base_forest=gbdt.Forest(kind))),
        ('base raw', lambda: train(base_forest=gbdt.Forest(raw))),
        ('base no split', lambda: train(base_forest=gbdt.Forest(nosplit))),
        ('base text', lambda: train(base_forest='x')),
        ('predict alien', lambda: gbdt.Forest(alien).predict(store)),
        ('predict kind', lambda: gbdt.Forest(kind).predict(store)),
        ('predict raw', lambda: gbdt.Forest(raw).predict(store)),
        ('predict no split', lambda: gbdt.Forest(nosplit).predict(store)),
        ('predict empty', lambda: forest.predict(empty)),
        ('predict nothing', lambda: forest._forest.predict(None)),
        ('checkpoints alien', lambda: list(gbdt.Forest(alien).predict_at_checkpoints(store, [1]))),
        ('checkpoints kind', lambda: list(gbdt.Forest(kind).predict_at_checkpoints(store, [1]))),
        ('checkpoints empty', lambda: list(forest.predict_at_checkpoints(empty, [1]))),
        ('checkpoints nothing', lambda: forest._forest.predict_and_output(None, [1], d)),
        ('checkpoints beyond', lambda: list(forest.predict_at_checkpoints(store, [1000 + k]))),
        ('checkpoints text', lambda: list(forest.predict_at_checkpoints(store, 'x'))),
        ('output directory', lambda: forest._forest.predict_and_output(store._data_store, [1], os.path.join(d, 'no', 'where'))),
        ('output file', lambda: forest._forest.predict_and_output(store._data_store, [1], write(os.path.join(d, 'plain'), 'x'))),
        ('model text', lambda: gbdt.Forest(r.choice(['', '{', '[]', 'x', '{"tree": 1}', '{"tree":[{"score":"a"}]}', '{"nope":1}']))),
        ('model bytes', lambda: gbdt.Forest(b'{}')),
        ('model none', lambda: gbdt.Forest(None)),
        ('empty store', lambda: train(store=empty, features=[])),
        ('empty store direct', lambda: native.train(data_store=empty._data_store, y=[], config=json.dumps(dict(job.config, loss_func='mse', target_column='target')))),
        ('no store', lambda: native.train(data_store=None, y=y, config=json.dumps(job.config))),
        ('config text', lambda: native.train(data_store=store._data_store, y=y, config='{')),
        ('tsv missing', lambda: gbdt.DataLoader.from_tsvs([os.path.join(d, 'nowhere')], ['a'])),
        ('tsv none', lambda: gbdt.DataLoader.from_tsvs([], ['a'])),
        ('tsv column', lambda: gbdt.DataLoader.from_tsvs(job.write_tsv(os.path.join(d, 'x')), ['nowhere'])),
        ('dict lengths', lambda: gbdt.DataLoader.from_dict({'a': [1.0], 'b': [1.0, 2.0]})),
        ('dict same name', lambda: gbdt.DataLoader.from_dict({'a': [1.0]}, {'a': ['x']})),
        ('threads zero', lambda: train(num_threads=0)),
        ('threads negative', lambda: train(num_threads=r.choice([-1, -(1 << 31)]))),
        ('threads text', lambda: train(num_threads='x')),
        ('seed range', lambda: train(random_seed=1 << 40)),
    ]
    binary = loss in BINARY
    if binary:
        way.append(('binary targets', lambda: train(y=[0.5] * n)))
    if loss in ('auc', 'lambdamart'):
        way.append(('pair rate', lambda: train(dict(pair_sampling_rate=0))))
        way.append(('missing targets', lambda: train(y=[math.nan] * n)))
        way.append(('infinite weights', lambda: train(w=[math.inf] * n)))
    name, f = way[k // 3 % len(way)]
    what = cat(name, ': ', job.describe())
    # A file that an earlier call may have left where later ones look.
    list(forest.predict_at_checkpoints(store, [1]))
    refused(what, f)
    seen('refused_way', name)
    whole.verify(what)
    expect(str(forest) == before, 'model-changed', what)
    check_predictions(job, store, forest, no_meta(before), what)
    try:
        train()
    except REFUSED as e:
        expect('diverges' in str(e), 'unusable', what, ': afterwards training raises ', repr(e)[:400])
    nontrivial(what)
    sample(what)


def deep(k, r):
    """A tree so deep that its model may have no text form: an exception, or a text that is the model."""
    leaves = r.choice([r.randint(40, 63), r.randint(64, 70), r.randint(71, 84)])
    # Alternating targets: the best division always takes a row off one end.
    xs = [f32(r.uniform(-9, 9)) for _ in range(leaves)]
    xs = sorted(set(xs))
    ys = [f32((-1) ** i * r.uniform(1, 1.01)) for i in range(len(xs))]
    store = gbdt.DataLoader.from_dict(bucketized_float_cols={'x': xs})
    forest = gbdt.train(store, dict(loss_func='mse', num_trees=1, num_leaves=leaves, shrinkage=1), y=ys, features=['x'], num_threads=2)
    before = list(forest.predict(store))
    what = 'a tree of %d leaves below each other' % leaves
    try:
        text = str(forest)
    except REFUSED as e:
        expect(leaves > 63, 'model-text', what, ': ', repr(e)[:300])
        count('deep_refused')
    else:
        try:
            m = json.loads(text)
        except ValueError:
            m = {}
        expect(len(m.get('tree', [])) == 2, 'model-text', what, ': its text is ', text[:200])
        for x, p in zip(xs, before):
            expect(near(predict(m['tree'], dict(x=x).get), p, 1e-6, 1e-6), 'model-text', what, ': its text predicts otherwise')
        count('deep_written')
    expect(equal(list(forest.predict(store)), before), 'predict', what, ': predictions changed')
    expect([f for f, _ in forest.feature_importance()] == ['x'], 'importance', what)
    nontrivial('deep', leaves, xs[0])


def case(k, r):
    if k % 24 == 5:
        deep(k, r)
    (history, modelling, refusals)[k % 3](k, r)
    shutil.rmtree(os.path.join(S['scratch'], 'case'), ignore_errors=True)


def start(k, r):
    # glog writes to the directory TMPDIR names, and checkpoints go to the one tempfile finds.
    case(k, r)


d = next((sys.argv[i + 1] for i, a in enumerate(sys.argv) if a == '--scratch'), '.')
os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
os.environ['TMPDIR'] = os.path.join(d, 'tmp')
S['scratch'] = d
main(start)
