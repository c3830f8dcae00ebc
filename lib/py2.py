"""Runs a Python 2 script under Python 3:  py2.py SCRIPT ARGUMENT...

There is no Python 2 here and no lib2to3.  The print statement, "except X, e", "raise X, m", integer division, .next(),
.iteritems(), .has_key(), functions that return lists, and text as bytes (UTF-8 with any byte kept) are given their
Python 2 meaning.  Scripts that only call print may be of either Python: everything but division is read as both would.
"""
import ast
import builtins
import io
import os
import re
import sys
import tokenize


def print_statements(src):
    """The spans (start, end offset, text) to replace for print statements; None when there are only calls."""
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    pos = lambda p: offs[p[0] - 1] + p[1]
    toks = [t for t in tokenize.generate_tokens(io.StringIO(src).readline)
            if t.type not in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT, tokenize.DEDENT)]
    out, only_calls, first, depth = [], True, True, 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if first and t.type == tokenize.NAME and t.string == 'print' and toks[i + 1].string not in ('=', '.'):
            j, d, commas = i + 1, 0, []
            while not (d == 0 and (toks[j].type in (tokenize.NEWLINE, tokenize.ENDMARKER) or toks[j].string == ';')):
                if toks[j].string in '([{' and toks[j].string:
                    d += 1
                elif toks[j].string in ')]}' and toks[j].string:
                    d -= 1
                elif d == 0 and toks[j].string == ',':
                    commas.append(j)
                j += 1
            end = pos(toks[j - 1].end)
            a, dest = i + 1, 'None'
            if toks[i + 1].string != '(' or toks[i + 1].string == '(' and commas and commas[-1] == j - 1:
                only_calls = False
            if toks[i + 1].string == '>>':
                only_calls = False
                c = commas.pop(0) if commas else j
                dest = src[pos(toks[i + 2].start):pos(toks[c - 1].end)]
                a = c + 1
            soft = bool(commas) and commas[-1] == j - 1
            stop = commas[-1] if soft else j
            args = src[pos(toks[a].start):pos(toks[stop - 1].end)] if a < stop else ''
            out.append((pos(t.start), end, '__print__((%s), %s, [%s])' % (dest, soft, args)))
            i = j
            continue
        if t.string in '([{' and t.string:
            depth += 1
        elif t.string in ')]}' and t.string:
            depth -= 1
        first = t.type == tokenize.NEWLINE or depth == 0 and t.string in (';', ':')
        i += 1
    return None if only_calls else out


class Two(ast.NodeTransformer):
    def __init__(self, floor):
        self.floor = floor

    def call(self, name, node, *args):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self.call('__div__', node, node.left, node.right) if self.floor and isinstance(node.op, ast.Div) else node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if not node.args and not node.keywords:
                if f.attr == 'next':
                    return self.call('next', node, f.value)
                if f.attr in ('iteritems', 'itervalues', 'iterkeys'):
                    f.attr = f.attr[4:]
                    return self.call('iter', node, node)
                if f.attr in ('keys', 'values', 'items'):
                    return self.call('list', node, node)
            if f.attr == 'has_key' and len(node.args) == 1:
                return ast.copy_location(ast.Compare(left=node.args[0], ops=[ast.In()], comparators=[f.value]), node)
        return node


def translate(src, path):
    """(code, whether it is Python 2)"""
    spans = print_statements(src)
    # Only calls of print: either Python, so division is left as it is and the rest is read as both would.
    either = spans is None
    spans = spans or []
    for a, b, t in reversed(spans):
        src = src[:a] + t + src[b:]
    src = re.sub(r'(?m)^(\s*except\s+(?:[\w.]+|\([^()]*\)))\s*,\s*(\w+)\s*:', r'\1 as \2:', src)
    src = re.sub(r'(?m)^(\s*raise\s+[\w.]+)\s*,\s*(.+)$', r'\1(\2)', src)
    tree = ast.parse(src, path)
    floor = not either and not re.search(r'(?m)^\s*from\s+__future__\s+import\s.*\bdivision\b', src)
    return compile(ast.fix_missing_locations(Two(floor).visit(tree)), path, 'exec'), not either


def say(dest, soft, items):
    (dest or sys.stdout).write(' '.join(x if isinstance(x, str) else '%.12g' % x if isinstance(x, float) else str(x) for x in items) + (' ' if soft else '\n'))


def div(a, b):
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b


def py2_open(name, mode='r', buffering=-1, **kw):
    if 'b' in mode or kw:
        return builtins.open(name, mode, buffering, **kw)
    return builtins.open(name, mode.replace('U', ''), buffering, encoding='utf-8', errors='surrogateescape', newline='\n')


def main():
    path = sys.argv[1]
    sys.argv = sys.argv[1:]
    sys.path[0] = os.path.dirname(os.path.abspath(path))
    sys.dont_write_bytecode = True
    for f in (sys.stdin, sys.stdout, sys.stderr):
        f.reconfigure(encoding='utf-8', errors='surrogateescape', newline='\n')
    with builtins.open(path, encoding='utf-8', errors='surrogateescape') as f:
        code, two = translate(f.read(), path)
    g = dict(__name__='__main__', __file__=path, __builtins__=builtins)
    import functools
    import collections, configparser, pickle, queue, subprocess
    for n, m in (('StringIO', io), ('cPickle', pickle), ('ConfigParser', configparser), ('Queue', queue), ('commands', subprocess)):
        sys.modules.setdefault(n, m)
    g.update(__print__=say, __div__=div, open=py2_open, file=py2_open, xrange=range, unicode=str, basestring=str, long=int, raw_input=input,
             reduce=functools.reduce, unichr=chr, range=lambda *a: list(range(*a)))
    for n in ('map', 'filter', 'zip'):
        g[n] = (lambda f: lambda *a: list(f(*a)))(getattr(builtins, n))
    exec(code, g)


if __name__ == '__main__':
    main()
