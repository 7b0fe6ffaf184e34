"""Recording and loading simulation data."""
import csv
import json
import os
from collections import Iterable, Mapping
from io import StringIO

import numpy as np


@ref('C02 C03 C10', 'crowddynamics.io.save_npy')
def recorder(directory: 'any', basename: 'any'):
    """each array is remembered as it is when sent; a true value writes all arrays not yet written, in order, to the next numbered file, a false one writes nothing"""
    pending = []
    index = 0
    while True:
        data = yield
        pending.append(np.copy(data))
        dump = yield
        if dump:
            np.save(os.path.join(directory, basename + '_{index}.npy').format(index=index), np.vstack(pending))
            pending.clear()
            index += 1


@ref('C03 C41', 'crowddynamics.io.find_npy_files')
def numbered(directory: 'any', basename: 'any'):
    """exactly the files basename_<digits>.npy of the directory, with their numbers"""
    for name in os.listdir(directory):
        if name.startswith(basename + '_') and name.endswith('.npy'):
            number = name[len(basename + '_'):-len('.npy')]
            if number.isdigit():
                yield int(number), os.path.join(directory, name)


@ref('C03 C41', 'crowddynamics.io.load_npy')
def load(directory: 'any', basename: 'any'):
    """arrays come in the order of their numbers"""
    from crowddynamics.io import find_npy_files
    for index, path in sorted(list(find_npy_files(directory, basename)), key=lambda x: x[0]):
        yield np.load(path)


@ref('C03 C41', 'crowddynamics.io.load_npy_concatenated')
def load_all(directory: 'any', basename: 'any'):
    """all recorded arrays stacked in order"""
    from crowddynamics.io import load_npy
    return np.vstack(list(load_npy(directory, basename)))


@ref('C04 C10', 'crowddynamics.io.save_csv')
def table(directory: 'any', basename: 'any'):
    """a header with the first row, then one row per record; a true value appends the rows not yet written to the file and forgets them"""
    path = os.path.join(directory, basename + '.csv')
    with StringIO() as buffer:
        writer = csv.writer(buffer)
        data = yield
        writer.writerow(data.keys())
        writer.writerow(data.values())
        dump = yield
        if dump:
            with open(path, 'a') as fp:
                fp.write(buffer.getvalue())
                buffer.truncate(0)
                buffer.seek(0)
        while True:
            data = yield
            writer.writerow(data.values())
            dump = yield
            if dump:
                with open(path, 'a') as fp:
                    fp.write(buffer.getvalue())
                    buffer.truncate(0)
                    buffer.seek(0)


@ref('C05', 'crowddynamics.io.geometry_mapping')
def to_json(geom: 'any'):
    """a geometry (multi-part ones included) becomes one GeoJSON object, a mapping of geometries a mapping, a sequence a list; no geometry stays None"""
    from shapely.geometry import mapping
    from shapely.geometry.base import BaseGeometry
    if isinstance(geom, BaseGeometry):
        return mapping(geom)
    if isinstance(geom, Mapping):
        return {name: mapping(g) for name, g in geom.items()}
    if isinstance(geom, Iterable):
        return [mapping(g) for g in geom]
    return mapping(geom) if geom else geom


@ref('C05', 'crowddynamics.io.geometry_shape')
def from_json(geom: 'any'):
    """the inverse of the above"""
    from shapely.geometry import shape
    if isinstance(geom, Mapping):
        if 'type' in geom:
            return shape(geom)
        return {name: shape(g) for name, g in geom.items()}
    if isinstance(geom, Iterable):
        return [shape(g) for g in geom]
    return shape(geom) if geom else geom


@ref('C05', 'crowddynamics.io.save_geometry_json')
def save_geometries(filename: 'any', geometries: 'any'):
    """the file holds one JSON object with every named geometry, replacing what was there"""
    from crowddynamics.io import geometry_mapping
    with open(filename, 'w') as fp:
        json.dump({name: geometry_mapping(g) for name, g in geometries.items()}, fp, indent=2, separators=(', ', ': '))


@ref('C05', 'crowddynamics.io.load_geometry_json')
def load_geometries(filename: 'any'):
    """every named geometry of the file"""
    from crowddynamics.io import geometry_shape
    with open(filename, 'r') as fp:
        return {name: geometry_shape(g) for name, g in json.load(fp).items()}
