"""C25: the Python helpers that move data frames in and out and draw models and their behaviour, with recording stand-ins
for pandas, graphviz and matplotlib."""
import copy
import json
import os
import sys
import types

from pyharness import *
import pymod

gbdt, native = pymod.load()
os.environ.pop('LD_PRELOAD', None)
import numpy as np


def cat(*a):
    return ''.join(str(x) for x in a)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (math.isnan(a) and math.isnan(b))


def equal(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


# ----------------------------------------------------------------------------------------- stand-ins
class Series(list):
    """A column of a frame."""

    def __init__(self, values, kind):
        list.__init__(self, values)
        self.dtype = np.dtype(dict(int='int64', float='float64').get(kind, 'O'))

    values = property(lambda self: list(self))

    def tolist(self):
        return list(self)

    to_list = tolist

    def map(self, f):
        return Series([f(v) for v in self], '')

    apply = map

    def astype(self, t):
        return Series([(str if t in (str, 'str', 'string') else int if t in (int, 'int', 'int64') else float)(v) for v in self], 'float')

    def isnull(self):
        return Series([isinstance(v, float) and math.isnan(v) for v in self], '')

    def __getattr__(self, name):
        raise AttributeError('stand-in for pandas.Series lacks ' + name)


class Frame:
    """As much of a pandas DataFrame as loading needs: columns of a kind in an order."""

    def __init__(self, data=None, kinds=None, columns=None):
        self.data = dict(data or {})
        if columns is not None:
            self.data = {k: self.data[k] for k in columns}
        self.kinds = kinds or {}

    def select_dtypes(self, include=None, exclude=None):
        def hit(k, wanted):
            wanted = wanted if isinstance(wanted, (list, tuple, set)) else [wanted]
            return any(w in (np.number, 'number') and self.kinds.get(k) in ('int', 'float') for w in wanted)
        keep = [k for k in self.data if (include is None or hit(k, include)) and (exclude is None or not hit(k, exclude))]
        return Frame({k: self.data[k] for k in keep}, self.kinds)

    def keys(self):
        return list(self.data)

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, k):
        return k in self.data

    columns = property(keys)
    dtypes = property(lambda self: {k: self[k].dtype for k in self.data})
    index = property(lambda self: range(len(self)))
    shape = property(lambda self: (len(self), len(self.data)))

    def __getitem__(self, k):
        return Series(self.data[k], self.kinds.get(k)) if not isinstance(k, list) else Frame({x: self.data[x] for x in k}, self.kinds)

    def __setitem__(self, k, v):
        self.data[k] = list(v)

    def __len__(self):
        return len(next(iter(self.data.values()), []))

    def items(self):
        return [(k, self[k]) for k in self.data]

    iteritems = items

    def copy(self, deep=True):
        return Frame({k: list(v) for k, v in self.data.items()}, self.kinds)

    @staticmethod
    def from_dict(data):
        return Frame(data)

    def __getattr__(self, name):
        raise AttributeError('stand-in for pandas.DataFrame lacks ' + name)


class Digraph:
    def __init__(self, *a, **kw):
        self.nodes, self.drawn_edges = {}, []

    def node(self, name, label=None, **kw):
        expect(name not in self.nodes, 'draw-node', 'node ', name, ' is drawn twice')
        self.nodes[name] = label

    def edge(self, a, b, *args, **kw):
        self.drawn_edges.append((a, b))

    def edges(self, pairs):
        for a, b in pairs:
            self.edge(a, b)

    def __getattr__(self, name):
        return lambda *a, **kw: None


calls = []


class Axes:
    def __getattr__(self, name):
        return lambda *a, **kw: calls.append((name, a, kw))


pandas = types.ModuleType('pandas')
pandas.DataFrame = Frame
graphviz = types.ModuleType('graphviz')
graphviz.Digraph = Digraph
matplotlib = types.ModuleType('matplotlib')
plt = types.ModuleType('matplotlib.pyplot')
plt.subplots = lambda *a, **kw: (Axes(), Axes())
for _n in ('plot', 'fill_between', 'show', 'barh', 'bar', 'savefig', 'xticks', 'yticks', 'title', 'xlabel', 'ylabel', 'figure', 'legend'):
    setattr(plt, _n, (lambda name: lambda *a, **kw: calls.append((name, a, kw)))(_n))
plt.__getattr__ = lambda name: (lambda *a, **kw: calls.append((name, a, kw)))
plt.gca = lambda *a, **kw: Axes()
matplotlib.pyplot = plt
sys.modules.update({'pandas': pandas, 'graphviz': graphviz, 'matplotlib': matplotlib, 'matplotlib.pyplot': plt})


# -------------------------------------------------------------------------------------------- frames
def frames(k, r):
    n = r.randint(1, 30)
    data, kinds, over, want = {}, {}, {}, {}
    names = ['col%d' % q for q in range(8)] + ['a b', 'caf\u00e9', '']
    for name in r.sample(names, r.randint(1, 6)):
        kind = r.choice(['float', 'int', 'text', 'numerals'])
        kinds[name] = kind
        if kind == 'float':
            vals = gen_floats(r, n)
        elif kind == 'int':
            vals = [r.randint(-1000, 1000) for _ in range(n)]
        elif kind == 'text':
            vals = gen_strings(r, n)
        else:   # Numbers in a column that is not of a numeric type.
            vals = [f32(r.gauss(0, 3)) for _ in range(n)]
            if r.random() < 0.5:
                vals = [repr(v) for v in vals]
        data[name] = vals
        numeric = kind in ('float', 'int')
        to = 'bucketized_float' if numeric else 'string'
        if r.random() < 0.5 or (kind == 'numerals' and not isinstance(vals[0], str)):
            if kind == 'text':
                over[name] = to = 'string'
            else:
                over[name] = to = r.choice(['string', 'float', 'raw_float', 'bucketized_float']) if kind != 'numerals' or isinstance(vals[0], str) else r.choice(['float', 'raw_float', 'bucketized_float'])
        if to == 'string':
            w = [v if isinstance(v, str) else str(v) for v in vals]
        else:
            w = [f32(float(v)) for v in vals]
        want[name] = ('string' if to == 'string' else 'bucketized_float' if to == 'bucketized_float' else 'raw_float', w)
    frame = Frame(data, kinds)
    before = copy.deepcopy(data)
    what = cat('frame of ', {x: kinds[x] for x in data}, ' overrides ', over)
    arg = dict(over)
    if r.random() < 0.2:
        arg['not there'] = 'string'
    s = gbdt.DataLoader.from_df(frame, arg) if over or r.random() < 0.5 else gbdt.DataLoader.from_df(frame)
    expect(sorted(s.cols()) == sorted(data), 'frame-columns', what, ': the store has ', s.cols())
    expect(len(s) == n, 'frame-columns', what, ': ', len(s), ' rows')
    for name, (kind, w) in want.items():
        lists = dict(string=s.string_cols(), bucketized_float=s.bucketized_float_cols(), raw_float=s.raw_float_cols())
        expect(name in lists[kind], 'frame-type', what, ': ', name, ' is not a ', kind, ' column')
        if kind == 'string' and kinds[name] in ('float',):
            # How a number is written is not specified; that it is the number is.
            expect(equal([f32(float(v)) for v in s[name]], [f32(float(v)) for v in data[name]]), 'frame-values', what, ': ', name, ': ', list(s[name])[:10])
        else:
            expect(equal(list(s[name]), w), 'frame-values', what, ': ', name, ' holds ', list(s[name])[:10], ', the frame ', w[:10])
    for name in data:
        expect(equal(data[name], before[name]), 'frame-changed', what, ': ', name)
    # And back.
    back = s.to_df()
    expect(isinstance(back, Frame) and sorted(back.keys()) == sorted(data), 'to-frame', what, ': ', back.keys())
    for name in data:
        expect(equal(back[name], list(s[name])), 'to-frame', what, ': ', name)
    count('frames')
    count('overrides', len(over))
    seen('frame_kinds', tuple(sorted((kinds[x], over.get(x, '')) for x in data)))
    nontrivial('frame', what, n)


# ------------------------------------------------------------------------------------------- drawings
def strip_defaults(r, n):
    """The JSON of a node without fields at their defaults, as other writers leave them out."""
    out = {}
    for key, v in n.items():
        if isinstance(v, dict):
            v = strip_defaults(r, v)
        elif v in (0, False, []) and not isinstance(v, str):
            continue
        out[key] = v
    return out


def check_drawing(g, tree, i, what):
    """The drawing is the tree: same shape, left before right, every label telling its node."""
    children = {}
    for a, b in g.drawn_edges:
        expect(a in g.nodes and b in g.nodes, 'draw-edge', what, ': edge ', a, ' -> ', b, ' without its nodes')
        children.setdefault(a, []).append(b)
    targets = [b for _, b in g.drawn_edges]
    expect(len(set(targets)) == len(targets), 'draw-edge', what, ': a node has two parents')
    roots = [x for x in g.nodes if x not in set(targets)]
    expect(len(roots) == 1, 'draw-edge', what, ': ', len(roots), ' roots')
    drawn = [0]

    def walk(name, node):
        drawn[0] += 1
        label = g.nodes[name]
        lines = label.split('\\n') if 'leftChild' in node else [label]
        try:
            score = float(lines[-1])
        except ValueError:
            score = None
        want = num(node.get('score'))
        expect(score is not None and near(score, want, 1e-6, 6e-7), 'draw-score', what, ': ', repr(label), ' for score ', want)
        kids = children.get(name, [])
        expect(len(kids) == (2 if 'leftChild' in node else 0), 'draw-shape', what, ': ', name, ' has ', len(kids), ' children')
        if not kids:
            return
        split, text = node['split'], '\\n'.join(lines[:-1])
        expect(split['feature'] in text, 'draw-feature', what, ': ', repr(label), ' for ', split)
        if 'floatSplit' in split:
            rest = text[len(split['feature']):].split()
            expect(len(rest) == 2, 'draw-threshold', what, ': ', repr(label))
            t = num(split['floatSplit'].get('threshold'))
            expect(near(float(rest[1]), t, 1e-6, 6e-4), 'draw-threshold', what, ': ', repr(label), ' for ', t)
            right = split['floatSplit'].get('missingToRightChild', False)
            expect(rest[0].strip('*<=') == '' and rest[0].endswith('*') == right and rest[0].startswith('*') == (not right), 'draw-missing', what, ': ', repr(label), ' for missing to the right ', right)
        else:
            for c in split['catSplit'].get('category', []):
                expect(c in text, 'draw-categories', what, ': ', repr(label), ' for ', split)
            if not any(',' in c for c in split['catSplit'].get('category', [])):
                inside = text[text.index('{') + 1:text.rindex('}')].split(', ') if '{' in text and '}' in text else None
                expect(inside is not None and sorted(inside) == sorted(split['catSplit'].get('category') or ['']), 'draw-categories', what, ': ', repr(label), ' for ', split)
        # Left first: telling the sides apart is what the drawing is for.
        walk(kids[0], node['leftChild'])
        walk(kids[1], node['rightChild'])

    walk(roots[0], tree)
    expect(drawn[0] == len(g.nodes), 'draw-shape', what, ': ', len(g.nodes), ' nodes drawn, ', drawn[0], ' in the tree')
    count('nodes_drawn', drawn[0])


def drawings(k, r):
    job = Job(r, max_rows=20)
    f = gen_forest(r, job, max_trees=5, depth=4)
    for n in inner(f['tree']):
        if 'floatSplit' in n['split']:
            if r.random() < 0.2:
                n['split']['floatSplit']['threshold'] = r.choice([0, 0.0, 'Infinity', '-Infinity', 3e38, 1e-30])
            if r.random() < 0.1:
                n['score'] = r.choice([0, 0.0, 1e30])
        elif r.random() < 0.1:
            n['split']['catSplit']['category'] = []
    own = copy.deepcopy(f)
    how = r.choice(['forest', 'dict', 'sparse'])
    if how == 'sparse':
        arg = strip_defaults(r, f)
        own = copy.deepcopy(arg)
    elif how == 'dict':
        arg = f
    else:
        arg = gbdt.Forest(json.dumps(f))
    what = cat(how, ' ', job.describe())
    v = gbdt.ForestVisualizer(arg)
    expect(v.num_trees() == len(f['tree']), 'draw-count', what, ': ', v.num_trees())
    for i in r.sample(range(len(f['tree'])), min(3, len(f['tree']))):
        g = v.visualize_tree(i)
        check_drawing(g, f['tree'][i], i, cat(what, ' tree ', i))
        count('drawings')
    if how != 'forest':
        expect(arg == own, 'draw-changed', what, ': the model given was changed')
    seen('draw_how', how)
    nontrivial('drawing', what, json.dumps(f))


# --------------------------------------------------------------------------------------------- charts
def chart(k, r):
    job = Job(r, max_rows=20)
    f = gen_forest(r, job, max_trees=5, depth=3)
    forest = gbdt.Forest(json.dumps(f))
    want = importance(f['tree'])
    del calls[:]
    forest.feature_importance_bar_chart(**(dict(color='r') if r.random() < 0.3 else {}))
    bars = [(a, kw) for name, a, kw in calls if name == 'barh']
    expect(len(bars) == 1, 'chart', len(bars), ' bar charts')
    pos, width = list(bars[0][0][0]), list(bars[0][0][1])
    ticks = [list(a[0]) for name, a, kw in calls if name == 'set_yticks']
    labels = [list(a[0]) for name, a, kw in calls if name == 'set_yticklabels']
    expect(len(ticks) == 1 and len(labels) == 1 and ticks[0] == pos and len(pos) == len(width) == len(labels[0]) == len(want), 'chart', 'bars ', pos, ' labels ', labels)
    expect(sorted(labels[0]) == sorted(want), 'chart', 'bars for ', labels[0], ', not ', sorted(want))
    for p, w, l in zip(pos, width, labels[0]):
        expect(near(w, want[l], 1e-6, 1e-9), 'chart', 'the bar of ', l, ' is ', w, ', not ', want[l])
    expect(all(a > b for a, b in zip(pos, pos[1:])) and all(a >= b for a, b in zip(width, width[1:])), 'chart', 'bars out of order: ', pos, ' ', width)
    expect(sorted(forest.features()) == sorted(want), 'features', forest.features(), ' instead of ', sorted(want))
    count('charts')
    nontrivial('chart', len(want), json.dumps(f))


def dependence(k, r):
    job = Job(r, max_rows=25)
    f = gen_forest(r, job, max_trees=4, depth=3)
    forest = gbdt.Forest(json.dumps(f))
    by = dict(bucketized_float_cols={}, string_cols={}, raw_float_cols={})
    for c in job.cols:
        by[dict(float='bucketized_float_cols', string='string_cols', raw='raw_float_cols')[c.kind]][c.name] = c.values
    store = gbdt.DataLoader.from_dict(**by)
    if r.random() < 0.1:
        name = r.choice(['nowhere', 'target'])
        try:
            gbdt.plot_partial_dependency(forest, store, name, [1.0, 2.0])
            expect(False, 'plot-refused', 'plotting over ', name, ' succeeds')
        except ValueError:
            count('plots_refused')
    else:
        c = r.choice(job.features)
        if c.kind == 'float':
            pool = [v for v in c.values if not math.isnan(v)] + [f32(r.gauss(0, 2)) for _ in range(3)]
            xs = sorted(set(r.choice(pool) for _ in range(r.randint(1, 6))))
            log = all(v > 0 for v in xs) and r.random() < 0.5
            x0 = r.choice([None, r.choice(pool)])
        else:
            pool = sorted(set(c.values)) + ['unseen']
            xs = r.sample(pool, r.randint(1, min(6, len(pool))))
            log, x0 = False, r.choice([None, r.choice(pool)])
        r.shuffle(xs)
        given = list(xs)
        del calls[:]
        kw = dict(x0=x0) if x0 is not None or r.random() < 0.5 else {}
        if c.kind == 'float' and log:
            kw['log_scale'] = True
        gbdt.plot_partial_dependency(forest, store, c.name, xs, **kw)
        what = cat('dependence on ', c.name, ' at ', given, ' from ', x0, ' log ', log, ' ', job.describe())
        expect(xs == given, 'plot-changed', what, ': the values given were changed')
        base = (math.nan if c.kind == 'float' else given[0]) if x0 is None else x0

        def score(i, v):
            return predict(f['tree'], lambda name: v if name == c.name else job.col(name).values[i])

        def stats(v):
            d = [score(i, v) - score(i, base) for i in range(job.n)]
            m = math.fsum(d) / len(d)
            return m, math.sqrt(math.fsum((x - m) ** 2 for x in d) / len(d))
        mag = 1e-6 * (1 + sum(max(abs(num(n.get('score'))) for n in nodes(t)) for t in f['tree']))
        ok = lambda a, b: near(float(a), float(b), 1e-6, mag)
        if c.kind == 'float':
            want = {(math.log(v) if log else v): stats(v) for v in given}
            lines = [a for name, a, _ in calls if name == 'plot']
            expect(len(lines) == 2, 'plot', what, ': ', len(lines), ' lines')
            at, mean = list(lines[0][0]), list(lines[0][1])
            xw = sorted(want)
            expect(len(at) == len(mean) == len(xw) and all(near(float(a), b, 1e-9, 1e-12) for a, b in zip(at, xw)), 'plot', what, ': points at ', at)
            expect(all(ok(m, want[x][0]) for m, x in zip(mean, xw)), 'plot-mean', what, ': ', mean, ', not ', [want[x][0] for x in xw])
            band = [a for name, a, _ in calls if name == 'fill_between']
            expect(len(band) == 1 and len(list(band[0][1])) == len(xw) and len(list(band[0][2])) == len(xw), 'plot-band', what)
            expect(all(ok(l, want[x][0] - 1.96 * want[x][1]) and ok(h, want[x][0] + 1.96 * want[x][1]) for l, h, x in zip(band[0][1], band[0][2], xw)), 'plot-band', what, ': ', list(band[0][1]), ' ', list(band[0][2]))
            expect(all(float(v) == 0 for v in lines[1][1]), 'plot', what, ': the line at zero')
        else:
            bars = [(a, kw2) for name, a, kw2 in calls if name == 'bar']
            labels = [list(a[0]) for name, a, _ in calls if name == 'set_xticklabels']
            expect(len(bars) == 1 and len(labels) == 1 and sorted(labels[0]) == sorted(given), 'plot', what, ': bars for ', labels)
            height, err = list(bars[0][0][1]), list(bars[0][1].get('yerr'))
            expect(len(height) == len(given) == len(err), 'plot', what)
            for l, h, e in zip(labels[0], height, err):
                m, s = stats(l)
                expect(ok(h, m) and ok(e, s), 'plot-mean', what, ': the bar of ', l, ' is ', h, ' +- ', e, ', not ', m, ' +- ', s)
            expect(all(a <= b for a, b in zip(height, height[1:])), 'plot', what, ': bars out of order')
        count('plots')
        seen('plot_kind', (c.kind, log, x0 is None))
        nontrivial('plot', what)
        sample(what)
    # The data is what it was.
    expect(sorted(store.cols()) == sorted(c.name for c in job.cols), 'plot-data', 'the data has ', store.cols())
    for c in job.cols:
        expect(equal(list(store[c.name]), c.values), 'plot-data', 'plotting changed column ', c.name)


case_first = [True]


def run(k, r):
    if case_first[0]:
        native.init_logging(S['scratch'])
        case_first[0] = False
    [frames, drawings, chart, dependence][k % 4](k, r)


main(run)
