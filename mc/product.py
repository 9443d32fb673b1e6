"""Small versions of the published product: a reduced global grid, analysis files and ancillary maps in a scratch directory."""
import contextlib
import datetime
import os

import numpy
import iris
import netCDF4

from mc.env import quiet

from eustace.outputformats import definitions
from eustace.outputformats.globalfield_filebuilder import FileBuilderGlobalField
from eustace.timeutils.epoch import days_since_epoch
from eumopps.version import svn

svn.set_allow_unversioned_code(True)
if hasattr(svn, 'get_revision_string'):
    svn.get_revision_string = lambda *args, **kwargs: '7'   # the only use of a subprocess here


@contextlib.contextmanager
def grid(nlat, nlon):
    """The product grid reduced to nlat x nlon cells."""
    saved = (definitions.GLOBAL_FIELD_SHAPE, definitions.GLOBAL_SAMPLE_SHAPE, definitions.GLOBAL_FIELD_RESOLUTION)
    definitions.GLOBAL_FIELD_SHAPE = (1, nlat, nlon)
    definitions.GLOBAL_SAMPLE_SHAPE = (1, nlat, nlon, saved[1][3])
    definitions.GLOBAL_FIELD_RESOLUTION = 180.0 / nlat
    try:
        yield
    finally:
        definitions.GLOBAL_FIELD_SHAPE, definitions.GLOBAL_SAMPLE_SHAPE, definitions.GLOBAL_FIELD_RESOLUTION = saved


@contextlib.contextmanager
def ancillary(root):
    """Ancillary maps that the code looks for at fixed places outside are taken from root instead (by base name)."""
    saved = {}

    def moved(path):
        if isinstance(path, (list, tuple)):
            return [moved(p) for p in path]
        path = str(path)
        if path.startswith('/gws/') or path.startswith('/work/'):
            return os.path.join(root, os.path.basename(path))
        return path

    for module, names in ((iris, ('load', 'load_cube', 'load_cubes', 'load_raw')),):
        for name in names:
            saved[(module, name)] = getattr(module, name)
    for (module, name), original in saved.items():
        setattr(module, name, (lambda original: lambda uris, *args, **kwargs: original(moved(uris), *args, **kwargs))(original))
    try:
        yield
    finally:
        for (module, name), original in saved.items():
            setattr(module, name, original)


def write_map(path, name, values):
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('latitude', values.shape[0])
    nc.createDimension('longitude', values.shape[1])
    for axis, low, n in (('latitude', -90.0, values.shape[0]), ('longitude', -180.0, values.shape[1])):
        v = nc.createVariable(axis, 'f8', (axis,))
        v.standard_name = axis
        v.units = 'degrees_north' if axis == 'latitude' else 'degrees_east'
        step = -2.0 * low / n
        v[:] = low + step * (numpy.arange(n) + 0.5)
    v = nc.createVariable(name, 'f4', ('latitude', 'longitude'))
    v.long_name = name
    v[:] = values
    nc.close()


def write_fields(path, date, fields):
    """fields: list of (definition, values)."""
    builder = FileBuilderGlobalField(path, days_since_epoch(date), 'EUSTACE Analysis', 'v', definitions.TAS.name, '', '', '', '')
    for variable, values in fields:
        builder.add_global_field(variable, values.reshape(definitions.GLOBAL_FIELD_SHAPE))
    builder.save_and_close()


def analysis_path(root, kind, iteration, date):
    return os.path.join(root, '%s_%d' % (kind, iteration), '%04d' % date.year, '%s_%d_%s.nc' % (kind, iteration, date.strftime('%Y%m%d')))


def flag_path(root, iteration, date):
    return os.path.join(root, '%04d' % date.year, 'eustace_analysis_%d_qc_flags_%s.nc' % (iteration, date.strftime('%Y%m%d')))


def read_raw(path):
    """All variables of a file, as packed integers, with their attributes."""
    nc = netCDF4.Dataset(path)
    nc.set_auto_maskandscale(False)
    result = {name: (numpy.array(v[...]), {k: v.getncattr(k) for k in v.ncattrs()}) for name, v in nc.variables.items()}
    nc.close()
    return result
