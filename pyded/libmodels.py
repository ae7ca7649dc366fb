"""Models of library functions (datetime, re, email date parsing): see DESIGN.md
for the assumed contracts."""
import importlib.util
import sys
from . import core, dates, ops, regex, transform


def instrumented_stdlib(name):
    """a second, mechanically instrumented copy of a standard library module"""
    key = 'pyded_std.' + name
    if key not in sys.modules:
        src = importlib.util.find_spec(name).origin
        spec = importlib.util.spec_from_file_location(key, src, loader=transform.Loader(key, src))
        m = importlib.util.module_from_spec(spec)
        sys.modules[key] = m
        spec.loader.exec_module(m)
    return sys.modules[key]


def install():
    dates.install()
    regex.install()
    import email._parseaddr as pa
    import email.utils

    for fname in ('parsedate_tz', 'parsedate'):
        f = getattr(pa, fname)

        def run(*a, _n=fname, **k):
            return getattr(instrumented_stdlib('email._parseaddr'), _n)(*a, **k)
        ops.MODELS[id(f)] = (f, run)
    _ = (core, email.utils)
