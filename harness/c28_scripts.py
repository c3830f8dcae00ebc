"""C28: the scripts convert, bag, measure and draw what they are given."""
import re

from pyharness import *

REPO = os.environ['VERIF_REPO']
PY2 = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'py2.py')


def cat(*a):
    return ''.join(str(x) for x in a)


def script(name, args, stdin=b'', path=None, cwd=None, timeout=300):
    """(exit status, standard output, standard error)"""
    s = os.path.join(REPO, 'scripts', name)
    if not os.path.exists(s):
        raise HarnessError('no ' + s)
    env = dict(os.environ, PYTHONHASHSEED='0')
    if path:
        env['PATH'] = path + ':' + env.get('PATH', '/usr/bin:/bin')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', PY2, s] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd or S['scratch'], env=env)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise HarnessError('%s takes more than %d s' % (name, timeout))
    count('runs')
    return p.returncode, out.decode('utf-8', 'surrogateescape'), err.decode('utf-8', 'surrogateescape')


def ran(res, what):
    expect(res[0] == 0, 'script-fails', what, ': exit ', res[0], ' ', res[2][-800:])
    return res[1]


# ------------------------------------------------------------------------------------------ conversion
def plain(c):
    """Cells that are the same to every reader: quotes only inside, no comments."""
    if c.kind == 'string':
        c.values = ['x' + v if v[:1] in ('#', '"') else v for v in c.values]


def convert(r, d):
    job = Job(r, min_rows=3, max_rows=r.choice([12, 40, 40, 300]), loss=r.choice(['mse', 'logloss', 'lambdamart']))
    names = {}
    for c in job.cols:
        plain(c)
        if c in job.features and r.random() < 0.5:   # names that cannot all be file names
            new = c.name + r.choice([' of it', '/unit', ' a/b', '-x', '.y', '\u00e9'])
            for key in ('float_feature', 'categorical_feature'):
                job.config[key] = [re.sub('[ /]', '_', new) if x == c.name else x for x in job.config[key]]
            c.name = new
        names[c.name] = re.sub('[ /]', '_', c.name)
    order = list(job.cols)
    r.shuffle(order)
    delim = r.choice(['\t', '\t', ',', '|', ';'])
    if any(delim in c.cell(i) for c in order for i in range(job.n)) or any(delim in c.name for c in order):
        delim = '\t'
    end = r.choice(['\n', '\n', '\r\n'])
    text = end.join(delim.join(row) for row in [[c.name for c in order]] + [[c.cell(i) for c in order] for i in range(job.n)])
    text += end if r.random() < 0.8 else ''
    cfg = {}
    raw = [c.name for c in order if c.kind == 'raw']
    strings = [c.name for c in order if c.kind == 'string']
    if raw or r.random() < 0.5:
        cfg['raw_float_columns'] = raw
    if strings or r.random() < 0.5:
        cfg['string_columns'] = strings
    if delim != '\t' or r.random() < 0.3:
        cfg['delimiter'] = delim
    flat = os.path.join(d, 'flat')
    if r.random() < 0.3:
        os.makedirs(flat)
    what = cat('converting ', job.describe(), ' of columns ', [c.name for c in order], ' delimited by ', repr(delim), repr(end))
    ran(script('convert_tsv_to_filatfiles.py', [write(os.path.join(d, 'cfg'), json.dumps(cfg)), flat], text.encode()), what)
    expect(sorted(os.listdir(flat)) == sorted(names.values()), 'flat-files', what, ': wrote ', sorted(os.listdir(flat)))
    kind = dict(string='strings', raw='raw_floats', float='bucketized_floats')
    for c in order:
        lines = read(os.path.join(flat, names[c.name])).decode().split('\n')
        expect(lines[0].rstrip() == '# dtype=' + kind[c.kind], 'flat-type', what, ': a ', c.kind, ' column starts with ', lines[0])
        got = [l for l in lines[1:] if not l.startswith('#')]
        want = [c.cell(i) for i in range(job.n)] + ['']
        expect(got == want, 'flat-cells', what, ': column ', c.name, ' holds ', got[:8], ' not ', want[:8])
    count('tables')
    count('cells', job.n * len(order))
    # The tool agrees that it is the same table.
    if r.random() < 0.6:
        for c in order:
            c.name = names[c.name]
        conf = write(os.path.join(d, 'config'), json.dumps(job.config))
        args = ['--config_file=' + conf, '--num_threads=2']
        a = cli(args + ['--tsvs=' + job.write_tsv(os.path.join(d, 'whole'))[0], '--output_dir=' + os.path.join(d, 'a')])
        b = cli(args + ['--flatfiles_dirs=' + flat, '--output_dir=' + os.path.join(d, 'b')])
        expect(a.ok == b.ok, 'flat-trains', what, ': training from the table ends with ', a.rc, ', from the files with ', b.brief())
        if a.ok:
            ma, mb = model(os.path.join(d, 'a', 'forest.json')), model(os.path.join(d, 'b', 'forest.json'))
            expect(ma == mb, 'flat-trains', what, ': models differ: ', json.dumps(ma)[:300], ' and ', json.dumps(mb)[:300])
            count('trained')
    nontrivial(what, text)
    seen('table', (delim, end, len(order)))
    sample(what)


# ------------------------------------------------------------------------------------------ measures
def number(r):
    return r.choice([lambda: r.gauss(0, 1), lambda: r.gauss(0, 1e4), lambda: float(r.randint(-3, 3)), lambda: r.gauss(0, 1e-4)])()


def comments(r, lines, last=True):
    out = []
    for l in lines:
        if r.random() < 0.03:
            out.append('# a comment')
        out.append(l)
    text = '\n'.join(r.choice([[], [], ['# dtype=raw_floats']]) + out)
    return text + ('\n' if not last or r.random() < 0.8 else '')


def rmse(r, d):
    n = r.choice([1, 2, 5, 50, 2000])
    s, t = [number(r) for _ in range(n)], [number(r) for _ in range(n)]
    if r.random() < 0.1:
        t = list(s)
    fmt = r.choice(['%r', '%.6g', '%.9g', '%.3f'])
    s, t = [fmt % x for x in s], [fmt % x for x in t]
    what = cat('rmse of ', n, ' rows from ', s[:3], t[:3])
    out = ran(script('compute_rmse.py', [write(os.path.join(d, 's'), comments(r, s)), write(os.path.join(d, 't'), comments(r, t))]), what)
    want = math.sqrt(math.fsum((float(a) - float(b)) ** 2 for a, b in zip(s, t)) / n)
    expect(near(float(out), want, 1e-9, 1e-13), 'rmse', what, ': prints ', out, ' not ', want)
    count('rmses')
    nontrivial('rmse', s, t)


def measure(r, d):
    groups, gid = [], 0
    for k in range(r.choice([1, 2, 3, 12, 60])):
        gid = r.choice([x for x in range(80) if not groups or x != groups[-1][0]]) if r.random() < 0.3 else gid + 1
        if groups and groups[-1][0] == gid:
            gid += 1
        m = r.choice([1, 1, 2, 5, 30])
        scores = r.sample(range(-1000, 1000), m)
        scale = r.choice([1, 1e-3, 10.0])
        groups.append((gid, [s * scale for s in scores], [r.choice([0, 1, 2, 0.5, 3, 1]) for _ in range(m)]))
    style = r.choice(['%d', 'q%d', 'a b %d'])
    g = [style % i for i, s, t in groups for _ in s]
    s = ['%r' % x for i, ss, t in groups for x in ss]
    t = [r.choice(['%g', '%.1f'])  % x for i, ss, tt in groups for x in tt]
    want, n = {}, len(groups)
    for i, ss, tt in groups:
        for rank, k in enumerate(sorted(range(len(ss)), key=lambda k: -ss[k])):
            y = float(tt[k])
            u = math.log(2.4) / math.log(rank + 2.4) * y
            for key, v in (('dcu_%s' % y, u), ('dcu_total', u), ('count_%s' % y, 1), ('count_total', 1)):
                want[key] = want.get(key, 0.0) + v
    f = lambda name, x: '--%s_file=%s' % (name, write(os.path.join(d, name), comments(r, x)))
    args = [f('group', g), f('score', s), f('target', t)]
    r.shuffle(args)
    what = cat('metrics of ', len(g), ' rows in ', n, ' groups from ', groups[:2])
    out = ran(script('compute_metrics.py', args), what)
    got = dict(l.rsplit('=', 1) for l in out.split('\n') if l)
    expect(sorted(got) == sorted(want), 'metrics', what, ': prints ', sorted(got), ' not ', sorted(want))
    for k in want:
        expect(abs(float(got[k]) - want[k] / n) <= 6e-5 + 1e-9 * abs(want[k]), 'metrics', what, ': ', k, ' is ', got[k], ' not ', want[k] / n)
    missing = script('compute_metrics.py', args[:2])
    expect(missing[0] != 0, 'metrics-arguments', what, ': runs without ', args[2])
    count('metrics', len(want))
    count('groups', n)
    seen('groups', n)
    nontrivial('metrics', g, s, t)


# ------------------------------------------------------------------------------------------ drawing
def named(r, job):
    m = gen_forest(r, job, max_trees=4, depth=r.choice([0, 2, 4]))
    for t in m['tree']:
        for x in nodes(t):
            if r.random() < 0.2:
                x['score'] = 0.0
            if x['score'] == 0 and r.random() < 0.8:
                del x['score']    # as the tool writes it
            fs = x.get('split', {}).get('floatSplit')
            if fs:
                if not fs['missingToRightChild'] and r.random() < 0.7:
                    del fs['missingToRightChild']
                if fs['threshold'] == 0 or r.random() < 0.1:
                    fs.pop('threshold')
    return m


def draw(r, d):
    job = Job(r, max_rows=12)
    for c in job.features:
        if c.kind == 'string':
            c.values = [re.sub('[^a-z0-9]', 'z', v) for v in c.values]
    if r.random() < 0.3:   # a model the tool itself writes
        args = ['--config_file=' + write(os.path.join(d, 'config'), json.dumps(job.config)), '--tsvs=' + job.write_tsv(os.path.join(d, 'whole'))[0],
                '--output_dir=' + d]
        res = cli(args)
        if not res.ok:
            count('untrained')
            return
        m, path = model(os.path.join(d, 'forest.json')), os.path.join(d, 'forest.json')
        count('own_models')
    else:
        m = named(r, job)
        path = write(os.path.join(d, 'm'), json.dumps(m))
    bin_, out = os.path.join(d, 'bin'), os.path.join(d, 'out')
    os.makedirs(bin_)
    dot = write(os.path.join(bin_, 'dot'), '#!/bin/sh\necho "$*" >> "%s/calls"\n' % d)
    os.chmod(dot, 0o755)
    what = cat('drawing ', json.dumps(m)[:600])
    ran(script('draw_trees.py', [path, out], path=bin_), what)
    text = read(os.path.join(out, 'forest.dot')).decode()
    trees = [t for t in re.split(r'(?m)^\s*digraph\b', text) if t.strip()]
    expect(len(trees) == len(m['tree']), 'draw', what, ': ', len(trees), ' graphs')
    names = set()
    for t, g in zip(m['tree'], trees):
        labels, edges = {}, {}
        for a, label in re.findall(r'(?m)^\s*"?(\w+)"?\s*\[\s*label\s*=\s*"((?:[^"\\]|\\.)*)"', g):
            expect(a not in labels and a not in names, 'draw', what, ': two nodes called ', a)
            labels[a] = label
        for a, b, rest in re.findall(r'(?m)^\s*"?(\w+)"?\s*->\s*"?(\w+)"?([^\n]*)', g):
            if 'invis' not in rest:
                edges.setdefault(a, []).append(b)
        names |= set(labels)
        expect(len(labels) == len(list(nodes(t))), 'draw', what, ': ', len(labels), ' nodes for ', len(list(nodes(t))))
        root = set(labels) - set(b for v in edges.values() for b in v)
        expect(len(root) == 1, 'draw', what, ': roots ', root)
        stack = [(t, root.pop())]
        while stack:
            x, a = stack.pop()
            l = labels.get(a)
            expect(l is not None, 'draw', what, ': no node ', a)
            count('nodes_drawn')
            if 'leftChild' not in x:
                expect(near(float(l), num(x.get('score')), 1e-6, 1e-6) and a not in edges, 'draw-leaf', what, ': a leaf is ', l, ', not ', x)
                continue
            s = x['split']
            expect(len(edges.get(a, [])) == 2, 'draw', what, ': ', a, ' has children ', edges.get(a))
            expect(s['feature'] in l, 'draw-split', what, ': a split on ', s['feature'], ' is drawn as ', l)
            if 'catSplit' in s:
                for c in s['catSplit'].get('category', []):
                    expect(re.search(r'(?<![a-z0-9])%s(?![a-z0-9])' % c, l), 'draw-split', what, ': category ', c, ' not in ', l)
            else:
                fs = s['floatSplit']
                found = re.search(r'(\*?<=?\*?)\s*(\S+)\s*\\n\s*(\S+)$', l)
                expect(found, 'draw-split', what, ': a numeric split is drawn as ', l)
                sign, th, sc = found.groups()
                expect((sign[-1] == '*') == fs.get('missingToRightChild', False) and (sign[0] == '*') != (sign[-1] == '*'), 'draw-split', what, ': missing values of ', fs, ' drawn as ', l)
                expect(near(float(th), f32(num(fs.get('threshold'))), 1e-6, 6e-4) and near(float(sc), num(x.get('score')), 1e-6, 1e-6), 'draw-split', what, ': ', x.get('score'), fs, ' drawn as ', l)
            stack += [(x['leftChild'], edges[a][0]), (x['rightChild'], edges[a][1])]
    calls = read(os.path.join(d, 'calls')).decode()
    expect('forest.dot' in calls and '-Tpng' in calls, 'draw-rendered', what, ': dot was called with ', calls)
    count('drawings')
    nontrivial('draw', json.dumps(m))


# ------------------------------------------------------------------------------------------ bagging
def floats(path):
    return [float(l) for l in read(path).decode().split('\n') if l]


def bag(r, d):
    job = Job(r, min_rows=40, max_rows=120, max_feat=3, loss=r.choice(['mse', 'mse', 'logloss', 'pairwise_logloss']), max_trees=4, max_leaves=4)
    job.config.pop('weight_column', None)
    job.config['shrinkage'], job.config['l2_lambda'] = 0.3, 1
    if r.random() < 0.7:
        job.config['eval_interval'] = r.randint(1, 3)
    if r.random() < 0.5:   # blank lines are cells too
        for c in job.features:
            if c.kind == 'string':
                c.values[r.randrange(job.n)] = ''
    flat = job.write_flat(os.path.join(d, 'flat'))
    if r.random() < 0.5:
        job.write_flat(flat, [Col('unused%d' % r.randrange(100), 'string', [r.choice(['', 'a', ' ']) for _ in range(job.n)]) for _ in range(6)])
    for c in job.features:
        if c.kind == 'float' and r.random() < 0.5:
            p = os.path.join(flat, c.name)
            write(p, read(p).replace(b'\nnan\n', b'\n\n').replace(b'\nnan\n', b'\n\n'))
    root, out, k = os.path.join(d, 'root'), os.path.join(d, 'out'), r.choice([2, 3, 4])
    # The script finds the tool relative to itself.
    os.makedirs(os.path.join(root, 'bazel-bin', 'src'))
    os.makedirs(os.path.join(root, 'scripts'))
    os.symlink(os.environ['VERIF_CLI'], os.path.join(root, 'bazel-bin', 'src', 'gbdt'))
    own = os.path.join(root, 'scripts', 'bagged.py')
    write(own, read(os.path.join(REPO, 'scripts', 'bagged.py')))
    cfg = write(os.path.join(d, 'config'), json.dumps(job.config))
    what = cat('bagging ', k, ' times ', job.describe())
    ran(script(own, ['--num_bags=%d' % k, '--flatfiles_dir=' + flat, '--config_file=' + cfg, '--output_dir=' + out, '--num_threads=2']), what)
    left, scores = [], []
    points = None
    for b in range(k):
        w = floats_of(os.path.join(out, 'bag_%d' % b, 'flatfiles', 'bagging_weights'))
        expect(len(w) == job.n and set(w) <= {0.0, 1.0}, 'bag-weights', what, ': bag ', b, ' has weights ', w[:20])
        left.append([x == 0 for x in w])
        md = os.path.join(out, 'bag_%d' % b, 'model')
        files = {f.split('.')[-2]: os.path.join(md, f) for f in os.listdir(md) if f.endswith('.score')}
        expect(points is None or sorted(files) == points, 'bag-points', what, ': bag ', b, ' is scored at ', sorted(files), ' not ', points)
        points = sorted(files)
        scores.append({p: floats(f) for p, f in files.items()})
    for i in range(job.n):
        expect(sum(l[i] for l in left) == 1, 'bag-partition', what, ': row ', i, ' is left out of ', sum(l[i] for l in left), ' bags')
    expect(points, 'bag-points', what, ': no scores')
    # A bag's model is the one trained with its weights.
    b = r.randrange(k)
    wd = os.path.join(d, 'w')
    os.makedirs(wd)
    write(os.path.join(wd, 'bw'), '# dtype=raw_floats\n' + ''.join('%d\n' % (not x) for x in left[b]))
    c2 = write(os.path.join(d, 'config2'), json.dumps(dict(job.config, weight_column='bw')))
    res = cli(['--flatfiles_dirs=%s,%s' % (wd, flat), '--config_file=' + c2, '--num_threads=2', '--output_dir=' + os.path.join(d, 'direct')])
    expect(res.ok, 'bag-model', what, ': ', res.brief())
    mine, theirs = model(os.path.join(d, 'direct', 'forest.json')), model(os.path.join(out, 'bag_%d' % b, 'model', 'forest.json'))
    expect(mine == theirs, 'bag-model', what, ': bag ', b, ' has model ', json.dumps(theirs)[:400], ', its rows give ', json.dumps(mine)[:400])
    made = sorted(os.listdir(os.path.join(out, 'scores')))
    expect(made == sorted('%s.%s.score' % (x, p) for p in points for x in ('in_bag', 'out_of_bag')), 'bag-files', what, ': wrote ', made, ' for ', points)
    for p in points:
        inb, outb = (floats(os.path.join(out, 'scores', '%s.%s.score' % (x, p))) for x in ('in_bag', 'out_of_bag'))
        expect(len(inb) == len(outb) == job.n, 'bag-scores', what, ': ', len(inb), ' and ', len(outb), ' scores')
        for i in range(job.n):
            s = [scores[b][p][i] for b in range(k) if left[b][i]][0]
            m = math.fsum(scores[b][p][i] for b in range(k) if not left[b][i]) / (k - 1)
            expect(near(outb[i], s, 1e-9, 1e-11) and near(inb[i], m, 1e-9, 1e-11), 'bag-scores', what, ': row ', i, ' after ', p, ' trees has ', outb[i], ' and ', inb[i], ', not ', s, ' and ', m)
        count('bag_scores', job.n)
    count('baggings')
    nontrivial('bag', k, job.describe(), scores[0][points[0]])


def floats_of(path):
    lines = read(path).decode().split('\n')
    return [float(l) for l in lines if l and not l.startswith('#')]


def case(k, r):
    d = fresh('case')
    if k % 20 == 13:
        bag(r, d)
    else:
        [convert, measure, draw, convert, rmse][k % 5](r, d)
    shutil.rmtree(d, ignore_errors=True)


main(case)
