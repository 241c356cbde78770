"""A stand-in for tvtk (not installed here) that records what the conversion hands over."""

import sys
import types

import numpy as np


class Array:
    """A VTK data array made from a numpy array"""

    def __init__(self, a, name=None):
        self.a = np.asarray(a)  # VTK shares the memory of numpy arrays
        self.name = name

    def to_array(self):
        return self.a

    def __len__(self):
        return len(self.a)


class PointData:
    """Arrays are numbered in the order in which they are added"""

    def __init__(self):
        self.__dict__["arrays"] = []
        self.__dict__["active"] = {}

    def __setattr__(self, name, value):
        if name not in ("vectors", "scalars"):
            raise AttributeError(name)
        arr = value if isinstance(value, Array) else Array(value)
        self.active[name] = len(self.arrays)
        self.arrays.append(arr)

    def __getattr__(self, name):
        if name in ("vectors", "scalars"):
            return self.arrays[self.active[name]] if name in self.active else None
        raise AttributeError(name)

    @property
    def number_of_arrays(self):
        return len(self.arrays)

    def add_array(self, value):
        self.arrays.append(value if isinstance(value, Array) else Array(value))
        return len(self.arrays) - 1

    def get_array(self, key):
        if isinstance(key, str):
            return next((a for a in self.arrays if a.name == key), None)
        if 0 <= key < len(self.arrays):
            return self.arrays[key]
        return None

    def get_array_name(self, key):
        return self.arrays[key].name

    def update(self):
        pass


class CellArray:
    def __init__(self):
        self.n, self.data = 0, np.zeros(0)

    def set_cells(self, n, data):
        self.n, self.data = int(n), np.asarray(data)

    @property
    def number_of_cells(self):
        return self.n


class UnstructuredGrid:
    def __init__(self, points=None):
        self.points = None if points is None else np.asarray(points)
        self.point_data = PointData()
        self.cell_types = self.offsets = self.cells = None

    def set_cells(self, types_, offsets, cells):
        self.cell_types, self.offsets, self.cells = np.asarray(types_), np.asarray(offsets), cells

    def update(self):
        pass


class Hexahedron:
    cell_type = 12


class Quad:
    cell_type = 9


written = []


def write_data(dataset, fname):
    written.append((dataset, fname))


def install():
    api = types.ModuleType("tvtk.api")
    tvtk = types.SimpleNamespace(
        Hexahedron=Hexahedron, Quad=Quad, CellArray=CellArray, UnstructuredGrid=UnstructuredGrid, DoubleArray=Array
    )
    api.tvtk, api.write_data = tvtk, write_data
    pkg = types.ModuleType("tvtk")
    pkg.api, pkg.__path__ = api, []
    sys.modules["tvtk"], sys.modules["tvtk.api"] = pkg, api
    import pymech.vtksuite as vs

    vs.tvtk, vs.write_data = tvtk, write_data
    return vs
