"""Makes the package of the repository importable over the module the check built."""
import importlib.machinery
import importlib.util
import os
import sys
import types


def load():
    path = os.environ['VERIF_PYMODULE']
    loader = importlib.machinery.ExtensionFileLoader('libgbdt', path)
    try:
        native = importlib.util.module_from_spec(importlib.util.spec_from_file_location('libgbdt', path, loader=loader))
        loader.exec_module(native)
    except Exception as e:
        unusable(e)
    # gbdt/_libgbdt.py picks a prebuilt library by platform, of which this repository has none.
    m = types.ModuleType('gbdt._libgbdt')
    m.libgbdt = native
    for n in dir(native):
        if not n.startswith('_'):
            setattr(m, n, getattr(native, n))
    sys.modules['gbdt._libgbdt'] = m
    sys.path.insert(0, os.environ['VERIF_REPO'])
    try:
        import gbdt
    except Exception as e:
        unusable(e)
    return gbdt, native


def unusable(e):
    print('PACKAGE-UNUSABLE %r' % (e,), file=sys.stderr, flush=True)
    os._exit(1)


def quiet(native, d):
    """Logs to files of a scratch directory."""
    native.init_logging(d)
