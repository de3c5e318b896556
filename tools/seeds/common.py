PRE = '''
import os, sys
import numpy as np
from pathlib import Path
REPO = Path(os.environ["REPO"])
DATA = REPO / "tests" / "data"


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def cube(nx=2, ny=3, nz=4):
    from cfdtools.meshbase.simple import Cube
    return Cube(nx, ny, nz).export_mesh()


def write_ic3(mesh, ver, out, **kw):
    import importlib
    importlib.import_module("cfdtools.ic3.writerV%d" % ver).writer(mesh, **kw).write_data(out)


def read_ic3(fn):
    import cfdtools.ic3.reader_legacy as r
    rd = r.reader(str(fn))
    rd.read_data()
    return rd.export_mesh()


def dataset(kind, **arrays):
    from cfdtools.data import DataSet
    d = DataSet(kind)
    for k, v in arrays.items():
        d.add_data(k, v)
    return d
'''
