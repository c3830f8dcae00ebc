"""Builds /repo's current working tree (library, CLI, Python module) plus a harness, per flavour.

Everything goes to /verif/build/<flavour>/ (git-ignored).  Only ninja, g++ and protoc are used; the
flags mirror the project's own stand-in build (C++14, GNU extensions), plus the sanitizer of the
flavour.  Sources are globbed, so adding, removing or renaming a source file needs no edit here.
"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

COMMON = '-std=gnu++14 -fPIC -w -pthread'
FLAVOURS = {
    # gcc is used for every flavour: it is the compiler the project is built with, so whatever
    # compiles there compiles here.
    'asan': ('-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS '
             '-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all',
             '-fsanitize=address,undefined,float-cast-overflow'),
    'tsan': ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread', '-fsanitize=thread'),
    'plain': ('-O1 -g1 -fno-omit-frame-pointer', ''),
}
LIBS = '-lprotobuf -lgflags -lglog -lfmt -lpthread'


class BuildError(Exception):
    pass


def _compat(dst):
    """The same copy of protobuf's status.h, with the 3.6 names, that the project's build makes."""
    text = open('/usr/include/google/protobuf/stubs/status.h').read()
    text = text.replace(
        '  StatusCode code() const { return error_code_; }\n',
        '  StatusCode code() const { return error_code_; }\n'
        '  StatusCode error_code() const { return error_code_; }\n  static const Status OK;\n')
    codes = 'OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument ' \
        'DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists ' \
        'PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated ' \
        'RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition ' \
        'ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented ' \
        'INTERNAL=kInternal UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss'
    block = 'namespace error {\n' + ''.join(
        'constexpr StatusCode %s = StatusCode::%s;\n' % tuple(c.split('=')) for c in codes.split()) + \
        '}  // namespace error\n\n}  // namespace util\n'
    text = text.replace('}  // namespace util\n', block)
    path = os.path.join(dst, 'google/protobuf/stubs')
    os.makedirs(path, exist_ok=True)
    path = os.path.join(path, 'status.h')
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


def _sources():
    lib, py, protos = [], [], []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if f.endswith('_test.cc'):
                continue
            if f.endswith('.cc'):
                if rel == 'src/main.cc':
                    continue
                (py if rel.startswith('src/python/') else lib).append(rel)
            elif f.endswith('.proto') and rel.startswith('src/proto/'):
                protos.append(rel)
    return lib, py, protos


def build(flavour, harness=None, cli=False, pymodule=False, extra_ldflags='', log=None):
    """Builds what is asked for; returns a dict with the paths of the products."""
    cflags, ldflags = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    _compat(os.path.join(out, 'compat'))
    gen = os.path.join(out, 'gen')
    os.makedirs(gen, exist_ok=True)
    lib, py, protos = _sources()
    inc = '-I%s/compat -I%s/glue/include -I%s -I%s' % (out, VERIF, REPO, gen)
    lines = [
        'ninja_required_version = 1.5',
        'cxx = g++',
        'cflags = %s %s %s' % (COMMON, cflags, inc),
        'ldflags = %s' % ldflags,
        'rule cc\n  command = $cxx -MMD -MF $out.d $cflags $xflags -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
        'rule ar\n  command = rm -f $out && ar crs $out $in',
        'rule link\n  command = $cxx $ldflags $xldflags -o $out $in $libs',
        'rule protoc\n  command = protoc -I%s --cpp_out=%s $in' % (REPO, gen),
    ]
    pb_h, objs = [], []
    for p in protos:
        base = os.path.join(gen, p[:-len('.proto')] + '.pb')
        lines.append('build %s.cc %s.h: protoc %s/%s' % (base, base, REPO, p))
        pb_h.append(base + '.h')
        o = 'obj/' + p + '.pb.o'
        lines.append('build %s: cc %s.cc || %s' % (o, base, ' '.join(x + '.h' if False else x for x in pb_h)))
        objs.append(o)
    for s in lib:
        o = 'obj/' + s + '.o'
        lines.append('build %s: cc %s/%s || %s' % (o, REPO, s, ' '.join(pb_h)))
        objs.append(o)
    lines.append('build obj/status_ok.o: cc %s/glue/protobuf_status_ok.cc' % VERIF)
    objs.append('obj/status_ok.o')
    lines.append('build libgbdt_lib.a: ar ' + ' '.join(objs))
    targets, products = [], {}
    if harness:
        lines.append('build obj/harness/%s.o: cc %s/harness/%s.cc || %s' % (harness, VERIF, harness, ' '.join(pb_h)))
        lines.append('build harness_%s: link obj/harness/%s.o libgbdt_lib.a\n  libs = %s\n  xldflags = %s'
                     % (harness, harness, LIBS, extra_ldflags))
        targets.append('harness_' + harness)
        products['harness'] = os.path.join(out, 'harness_' + harness)
    if cli:
        lines.append('build obj/main.o: cc %s/src/main.cc || %s' % (REPO, ' '.join(pb_h)))
        lines.append('build gbdt: link obj/main.o libgbdt_lib.a\n  libs = %s' % LIBS)
        targets.append('gbdt')
        products['cli'] = os.path.join(out, 'gbdt')
    if pymodule:
        pyinc = subprocess.check_output(
            ['/usr/bin/python3', '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
            text=True).strip()
        pobjs = []
        for s in py:
            o = 'obj/' + s + '.o'
            lines.append('build %s: cc %s/%s || %s\n  xflags = -I%s -fvisibility=hidden'
                         % (o, REPO, s, ' '.join(pb_h), pyinc))
            pobjs.append(o)
        mod = 'pymod/libgbdt.so'
        lines.append('build %s: link %s libgbdt_lib.a\n  libs = %s\n  xldflags = -shared'
                     % (mod, ' '.join(pobjs), LIBS))
        targets.append(mod)
        products['pymodule'] = os.path.join(out, mod)
    ninja = os.path.join(out, 'build_%s.ninja' % (harness or 'x'))
    open(ninja, 'w').write('\n'.join(lines) + '\n')
    env = dict(os.environ, LC_ALL='C')
    r = subprocess.run(['ninja', '-C', out, '-f', ninja] + targets, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=env)
    if log:
        open(log, 'w').write(r.stdout)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    return products


if __name__ == '__main__':
    print(build(sys.argv[1], harness=(sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] else None),
                cli='cli' in sys.argv, pymodule='py' in sys.argv))
