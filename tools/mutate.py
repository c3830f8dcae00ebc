"""mutate.py SEED COUNT [FILE-REGEX]: small random changes to /repo in a scratch copy (/tmp/plant, see plant.sh) that build and
pass the stable tests; runs the checks of the changed file until one reports a violation.  Prints what no check noticed."""
import json, os, random, re, subprocess, sys
W, VP = '/tmp/plant/repo', '/tmp/plant/vp'
seed, count = int(sys.argv[1]), int(sys.argv[2])
pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
MAP = [('tsv_', 'C01 C15 C18'), ('column_py', 'C21'), ('data_store_py', 'C21'), ('python/', 'C21'), ('gbdt/_', 'C21 C25'), ('column', 'C02 C03 C26 C05 C06 C15 C09'), ('flatfiles', 'C05 C16 C18'),
       ('data_store', 'C04 C21'), ('compute_tree', 'C06 C11 C16'), ('evaluation', 'C07 C22 C06'), ('gbdt_algo/gbdt_algo', 'C11 C06 C23 C14 C24'),
       ('split_algo', 'C09 C10 C24 C06 C15'), ('tree_algo', 'C10 C14 C16 C24'), ('gbdt_algo/utils', 'C20 C07 C23 C18 C06 C21'), ('loss_func', 'C12 C13 C23 C11'),
       ('group', 'C13'), ('json', 'C08'), ('subsampling', 'C19 C14'), ('threadpool', 'C17 C16'), ('utils/', 'C22 C01 C18 C05'), ('main', 'C18 C22')]
OPS = [(r'(?<![<\-=])<(?![<=])(?= )', '<='), (r'<=', '<'), (r'(?<= )>(?![>=])(?= )', '>='), (r'(?<![>])>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'!(?=[a-z])', ''),
       (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\bcontinue;', 'break;'), (r'\bleft', 'right'), (r'\bright', 'left'), (r'\+=', '-='), (r'\+=', '='), (r'-=', '+='), (r'^\s*[^/{}]*;$', ';'),
       (r'\.second\b', '.first'), (r'\bfabs\(', '('), (r'\buint64\b', 'uint32'), (r'\bdouble\b', 'float'), (r'(?<=if \()(.*)(?=\) \{?$)', 'false'), (r'(?<=if \()(.*)(?=\) \{?$)', 'true'), (r'\bi\b', '0'), (r'lock_guard<.*;', ';'), (r'.*return Status\(.*$', None)]
def sh(*a, **k): return subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
files = sh('git', 'ls-files', 'src', 'gbdt', cwd=W).stdout.split()
files = [f for f in files if (f.endswith('.cc') or f.endswith('.h') or f.startswith('gbdt/_') and f.endswith('.py')) and 'test' not in f and pat.search(f) and 'visual' not in f and 'partial' not in f]
cands = []
for f in files:
    for i, l in enumerate(open(os.path.join(W, f)).read().split('\n')):
        t = l.strip()
        if not t or t[0] in '/#*' or 'LOG(' in t or 'include' in t or t.startswith(('using', 'namespace', 'class', 'template', 'DEFINE', 'DECLARE')) or 'stopwatch' in t.lower() or 'fmt::' in t: continue
        code = l.split('//')[0].rstrip()
        for o, n in OPS:
            if n is None: continue
            for m in re.finditer(o, code):
                if code.count('"', 0, m.start()) % 2: continue
                new = code[:m.start()] + n + code[m.end():]
                if new.strip() != code.strip(): cands.append((f, i, l, new))
by = {}
for c in cands: by.setdefault(c[0], []).append(c)
rng = random.Random(seed)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD='/tmp/plant/build', VERIF_WORK='/tmp/plant/work')
tot = dict(nobuild=0, tests=0, caught=0, missed=0)
for k in range(count):
    c = rng.choice(cands)
    f, i, old, new = c
    p = os.path.join(W, f)
    lines = open(p).read().split('\n')
    if lines[i] != old: continue
    lines[i] = new
    orig = open(p).read()
    open(p, 'w').write('\n'.join(lines))
    tag = '%s:%d  %s  =>  %s' % (f, i + 1, old.strip(), new.strip())
    try:
        try:
            if sh('timeout', '300', 'bash', VP + '/build.sh').returncode: tot['nobuild'] += 1; continue
            if sh('timeout', '120', 'bash', VP + '/test.sh', '/tmp/plant/t.json').returncode < 0: pass
            try: passed = set(json.load(open('/tmp/plant/t.json'))['passed'])
            except Exception: passed = set()
            if base - passed: tot['tests'] += 1; continue
            hit = None
            checks = []
            for key, v in MAP:
                if key in f: checks = v.split(); break
            for ch in checks:
                r = sh('timeout', '900', 'python3', '/verif/run_check.py', ch, env=env)
                if 'VIOLATION property' in r.stdout: hit = ch; break
                if r.returncode not in (0, 1): print('  (inconclusive %s: %s)' % (ch, r.stdout[-200:].replace('\n', ' '))); hit = hit
            tot['caught' if hit else 'missed'] += 1
            print(('caught by %s  ' % hit if hit else 'MISSED  ') + tag, flush=True)
        except Exception as e:
            print('ERROR', tag, e, flush=True)
    finally:
        open(p, 'w').write(orig)
print(tot)
