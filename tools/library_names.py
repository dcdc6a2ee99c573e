"""writes spec/library_names.txt: every attribute name of the language and the libraries the package uses (run once, with the python of the package)"""
import builtins, importlib, inspect, os, pkgutil, sys
MODS = ('builtins os os.path posixpath pdb casadi.tools.structure sys time math random re string copy pickle json shutil subprocess collections collections.abc itertools functools hashlib warnings types abc enum '
        'dataclasses typing numbers contextlib logging pathlib io tempfile datetime csv heapq operator threading queue socket struct glob traceback inspect '
        'xml.etree.ElementTree tkinter tkinter.filedialog tkinter.messagebox tkinter.ttk '
        'numpy numpy.linalg numpy.matlib numpy.random numpy.ma scipy scipy.linalg scipy.sparse scipy.sparse.linalg scipy.interpolate scipy.optimize scipy.special scipy.spatial '
        'scipy.integrate casadi casadi.tools casadi.tools.graph matplotlib matplotlib.pyplot matplotlib.figure matplotlib.axes matplotlib.animation '
        'matplotlib.patches matplotlib.lines matplotlib.collections matplotlib.colors matplotlib.cm matplotlib.image matplotlib.path matplotlib.backends.backend_agg '
        'matplotlib.ticker matplotlib.artist matplotlib.text matplotlib.legend matplotlib.spines matplotlib.widgets matplotlib.backend_bases mpl_toolkits.mplot3d mpl_toolkits.mplot3d.art3d PIL PIL.Image '
        'signal select fcntl pty getpass platform concurrent.futures multiprocessing ctypes array bisect decimal fractions statistics textwrap pprint argparse unittest').split()
out, seen = set(), set()
def take(o, deep):
    if id(o) in seen: return
    seen.add(id(o))
    try: names = dir(o)
    except Exception: return
    out.update(names)
    if deep:
        for n in names:
            try: v = getattr(o, n)
            except Exception: continue
            if inspect.isclass(v): take(v, False)
bad = []
for m in MODS:
    try: take(importlib.import_module(m), True)
    except Exception: bad.append(m)
import numpy as np, casadi as cas
for v in (np.zeros(2), np.float64(1), np.finfo(float), cas.MX.sym('x'), cas.SX.sym('x'), cas.DM(1), 1, 1., '', [], {}, (), set(), b'', lambda: 0, sys, open(os.devnull), Exception(), (i for i in ()), Exception):
    take(v, False)
out |= {'winfo_toplevel', 'tag_bind', 'create_line', 'create_oval', 'create_rectangle', 'create_polygon', 'create_text', 'message', 'args', 'errno', 'strerror', 'filename'}
print('not importable:', bad, file=sys.stderr)
print('\n'.join(sorted(n for n in out if not n.startswith('__'))))
