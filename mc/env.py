"""Helpers shared by harnesses: silence, scratch directories."""
import contextlib
import io
import os
import shutil
import sys
import tempfile


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def silent():
    """Nothing of what the solvers' own libraries print either."""
    sys.stdout.flush()
    kept, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        with quiet():
            yield
    finally:
        os.dup2(kept, 1)
        os.close(kept)
        os.close(null)


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp()
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def touch(path, content=b''):
    folder = os.path.dirname(path)
    if not os.path.isdir(folder):
        os.makedirs(folder)
    with open(path, 'wb') as f:
        f.write(content)


def old_netcdf(name):
    """Import module NAME as with the netCDF4 package of its time, whose createVariable took no 'compression' argument."""
    import importlib
    import netCDF4
    from iris.fileformats.netcdf import _thread_safe_nc    # itself bound to the package there is
    current = netCDF4.Dataset

    class Dataset(current):
        THREAD_SAFE_FLAG = True

        def createVariable(self, varname, datatype, dimensions=(), zlib=False, complevel=4, shuffle=True, fletcher32=False, contiguous=False,
                           chunksizes=None, endian='native', least_significant_digit=None, fill_value=None, **kwargs):
            made = current.createVariable(self, varname, datatype, dimensions, zlib=zlib, complevel=complevel, shuffle=shuffle, fletcher32=fletcher32,
                                          contiguous=contiguous, chunksizes=chunksizes, endian=endian, least_significant_digit=least_significant_digit,
                                          fill_value=fill_value)
            return _thread_safe_nc.VariableWrapper.from_existing(made)    # which the iris there is insists on

    netCDF4.Dataset = Dataset
    try:
        return importlib.import_module(name)
    finally:
        netCDF4.Dataset = current
