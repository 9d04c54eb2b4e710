"""NetCDF seam: netCDF4.Dataset behind the simulator.

Every open, create, read, write, attribute access and close of the simulated program is a point where the schedule may
switch and a fault may strike.  The values of a product are kept in memory and handed to the real library in one go when
the file is closed (or read back), because the library itself is not under test and its single writes are slow.  Files
are real NetCDF files on the simulated disk, read back by the harness with the real library.
"""
import gc
import os
import weakref
import zlib

import netCDF4
import numpy as np

from .fs import _abs, _inside, _rel, _sim
from .kernel import Sim, SimCrash

Real = netCDF4.Dataset
_alive = weakref.WeakSet()


def _strike(s, f, kind, what):
    s.hit(f, kind, what)
    if kind in ('nc-open', 'nc-create'):
        raise OSError(5, 'Input/output error (simulated)', what)
    if kind == 'nc-read':
        raise RuntimeError('NetCDF: HDF error (simulated read error)')
    if kind == 'nc-close':
        raise RuntimeError('NetCDF: HDF error (simulated error on close)')
    raise RuntimeError('NetCDF: HDF error (simulated write error)')


def _point(kind, what):
    s = _sim()
    if s is None:
        c = Sim.current
        if c is not None and c.dead:
            raise SimCrash()
        return None
    f = s.point(kind, what)
    if f == 'intr':
        s.hit(f, kind, what)
        raise KeyboardInterrupt()
    if f in ('err', 'full', 'partial') and not (f == 'full' and kind in ('nc-open', 'nc-read', 'nc-close')):
        if f == 'partial' and kind == 'nc-write':
            return f
        _strike(s, f, kind, what)
    return None


class SimVar:
    def __init__(self, ds, real):
        d = self.__dict__
        d['_ds'] = ds
        d['_v'] = real
        d['_buf'] = {}          # key -> value, in the order of the last assignment
        d['_nd'] = len(real.dimensions)
        d['_unl'] = bool(real.dimensions) and ds._unlimited(real.dimensions[0])
        d['_shape0'] = tuple(int(n) for n in real.shape)

    @property
    def shape(self):
        if not self._unl:
            return self._shape0
        return (self._ds._length(self._v.dimensions[0]),) + self._shape0[1:]

    @property
    def ndim(self):
        return self._nd

    def __len__(self):
        return self.shape[0]

    def _what(self):
        return self._ds._sim_rel + ':' + self._v.name

    def __getitem__(self, key):
        self._ds._check_open()
        _point('nc-read', self._what())
        self._ds._flush()
        r = self._v[key]
        if self._ds._sim_log is not None:
            self._ds._sim_log.append(self._v.name)
        return r

    def __setitem__(self, key, value):
        self._ds._check_open()
        if self._ds._sim_mode == 'r':
            raise RuntimeError('NetCDF: Write to read only')
        f = _point('nc-write', self._what())
        k = key if isinstance(key, tuple) else (key,)
        if f == 'partial':
            if len(k) > 1 and np.ndim(value) > 0 and len(value) > 1:
                n = len(value) // 2
                self._put((k[0], slice(None, n)) + k[2:], value[:n])
            _strike(_sim(), f, 'nc-write', self._what())
        self._put(k, value)

    def _put(self, k, value):
        if k and k[-1] is Ellipsis:
            k = k[:-1] + (slice(None),) * (self._nd - len(k) + 1)
        ok = self._unl and self._nd <= 3 and len(k) <= self._nd and isinstance(k[0], (int, np.integer)) and k[0] >= 0
        ok = ok and all(isinstance(x, slice) and x.start in (None, 0) and x.step is None and
                        (x.stop is None or isinstance(x.stop, (int, np.integer)) and x.stop >= 0) for x in k[1:])
        if not ok:
            self._ds._flush()
            self._v[k if len(k) > 1 else k[0]] = value
            return
        shape = []
        for x, n in zip(k[1:], self._shape0[1:]):
            stop = n if x.stop is None else int(x.stop)
            if stop > n:
                raise IndexError('size of data array does not conform to slice')
            shape.append(stop)
        shape += list(self._shape0[1 + len(k[1:]):])
        if value is np.ma.masked:
            value = np.ma.masked_all(tuple(shape))
        val = np.ma.asanyarray(value) if isinstance(value, np.ma.MaskedArray) else np.asarray(value)
        if val.dtype.kind not in 'biufc':
            self._ds._flush()
            self._v[k if len(k) > 1 else k[0]] = value
            return
        if val.dtype.kind == 'c':
            val = val.real
        if tuple(val.shape) != tuple(shape):
            if val.ndim == 0 or val.size == int(np.prod(shape)):
                val = np.broadcast_to(val, shape) if val.ndim == 0 else val.reshape(shape)
            else:
                raise IndexError('size of data array does not conform to slice')
        i = int(k[0])
        self._buf.setdefault(i, []).append((tuple(shape), val.copy() if isinstance(val, np.ma.MaskedArray) else np.array(val)))
        self._ds._grow(self._v.dimensions[0], i + 1)
        self._ds._dirty = True

    def _write_out(self):
        if not self._buf:
            return
        n = max(self._buf) + 1
        lo = min(self._buf)
        full = (n - lo,) + self._shape0[1:]
        dt = self._v.dtype
        if 'scale_factor' in self._v.ncattrs() or 'add_offset' in self._v.ncattrs():
            dt = np.dtype('f8')
        kinds = {x[1].dtype for xs in self._buf.values() for x in xs}
        if any(k.kind == 'f' for k in kinds) and dt.kind in 'iu':
            dt = np.dtype('f8')
        elif kinds and dt.kind in 'iu':
            dt = np.result_type(dt, *kinds)
        data = np.zeros(full, dtype=dt)
        mask = np.ones(full, dtype=bool)
        # what the file holds already (after an earlier flush)
        have = self._v.shape[0]
        if have > lo:
            old = np.ma.asanyarray(self._v[lo:min(have, n)])
            data[:old.shape[0]] = old.filled(0) if np.ma.is_masked(old) else np.asarray(old)
            mask[:old.shape[0]] = np.ma.getmaskarray(old)
        for i in sorted(self._buf):
            for shape, val in self._buf[i]:
                sl = (i - lo,) + tuple(slice(0, m) for m in shape)
                if isinstance(val, np.ma.MaskedArray):
                    data[sl] = val.filled(0)
                    mask[sl] = np.ma.getmaskarray(val)
                else:
                    data[sl] = val
                    mask[sl] = False
        arr = np.ma.array(data, mask=mask)
        with np.errstate(all='ignore'):
            self._v[lo:n] = arr
        self._buf.clear()

    def setncattr(self, name, value):
        self._ds._check_open()
        _point('nc-attr', self._what() + '@' + name)
        self._v.setncattr(name, value)

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def __getattr__(self, name):
        return getattr(self.__dict__['_v'], name)

    def __setattr__(self, name, value):
        self.setncattr(name, value)


class SimDataset:
    """what the simulated program gets from netCDF4.Dataset"""

    def __init__(self, filename, mode='r', *a, **k):
        d = self.__dict__
        d['_open'] = False
        s = _sim()
        path = _abs(filename)
        rel = _rel(s, path)
        if mode != 'r' and not _inside(s, path):
            s.escapes.append(('nc-create', path))
            raise PermissionError(13, 'outside the simulated disk', path)
        _point('nc-open' if mode == 'r' else 'nc-create', rel)
        if mode != 'r' and any(x._open and x._sim_path == path for x in _alive):
            # the library refuses to create a file that it has open
            raise PermissionError(13, 'Permission denied', path)
        d['_real'] = Real(filename, mode, *a, **k)
        d['_open'] = True
        d['_sim_path'] = path
        d['_sim_rel'] = rel
        d['_sim_mode'] = mode
        d['_sim_log'] = None
        d['_len'] = {}
        d['_dirty'] = False
        d['variables'] = {}
        for n, v in d['_real'].variables.items():
            self.variables[n] = SimVar(self, v)
        _alive.add(self)

    def __del__(self):
        try:
            if self.__dict__.get('_open'):
                # dropped without close: the library closes it without telling
                self._flush()
                self._real.close()
                self.__dict__['_open'] = False
        except BaseException:
            pass

    def _check_open(self):
        if not self._open:
            raise RuntimeError('NetCDF: Not a valid ID')

    def _unlimited(self, name):
        return self._real.dimensions[name].isunlimited()

    def _length(self, name):
        return max(self._len.get(name, 0), self._real.dimensions[name].size)

    def _grow(self, name, n):
        self._len[name] = max(self._len.get(name, 0), n)

    def _flush(self):
        if self._dirty:
            for v in self.variables.values():
                v._write_out()
            self.__dict__['_dirty'] = False

    @property
    def dimensions(self):
        self._check_open()
        if self._sim_mode != 'r':
            self._flush()
        return self._real.dimensions

    def createDimension(self, name, size=None):
        self._check_open()
        _point('nc-def', self._sim_rel + ':' + name)
        return self._real.createDimension(name, size)

    def createVariable(self, name, *a, **k):
        self._check_open()
        _point('nc-def', self._sim_rel + ':' + name)
        v = SimVar(self, self._real.createVariable(name, *a, **k))
        self.variables[name] = v
        return v

    def setncattr(self, name, value):
        self._check_open()
        _point('nc-gattr', self._sim_rel + '@' + name)
        self._real.setncattr(name, value)

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def __setattr__(self, name, value):
        if name.startswith('_'):
            self.__dict__[name] = value
            return
        self.setncattr(name, value)

    def getncattr(self, name, *a):
        self._check_open()
        _point('nc-gread', self._sim_rel + '@' + name)
        return self._real.getncattr(name)

    def ncattrs(self):
        self._check_open()
        _point('nc-gread', self._sim_rel + '@')
        return self._real.ncattrs()

    def isopen(self):
        return self._open

    def filepath(self, *a):
        return self._sim_path

    def sync(self):
        self._check_open()
        _point('nc-attr', self._sim_rel + '!sync')
        self._flush()

    def close(self):
        self._check_open()
        try:
            _point('nc-close', self._sim_rel)
            self._flush()
        finally:
            # also after an error the handle is gone
            self.__dict__['_open'] = False
            try:
                self._real.close()
            except Exception:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._open:
            self.close()

    def __getitem__(self, k):
        return self.variables[k]

    def __getattr__(self, name):
        if name.startswith('__') or '_real' not in self.__dict__:
            raise AttributeError(name)
        self._check_open()
        return getattr(self._real, name)


def Dataset(filename, mode='r', *a, **k):
    if _sim() is None:
        return Real(filename, mode, *a, **k)
    return SimDataset(filename, mode, *a, **k)


def open_handles():
    """files the simulated program has open now"""
    gc.collect()
    return sorted(x._sim_rel for x in _alive if x._open)


def drop_handles():
    for x in list(_alive):
        if x._open:
            x.__del__()


# ---- curve fitting -----------------------------------------------------------
def _fit(f, xdata, ydata, p0=None, sigma=None, absolute_sigma=False, check_finite=True, *a, **k):
    """a cheap, deterministic stand-in for scipy's curve_fit: moments instead of a least-squares fit; like the real
    one it sometimes fails and sometimes warns that the covariance is unknown"""
    import warnings
    from scipy.optimize import OptimizeWarning
    x, y = np.asarray(xdata, dtype=float), np.asarray(ydata, dtype=float)
    if x.size < 3 or y.size < 3:
        raise TypeError('func input vector length N=3 must not exceed func output vector length M')
    s = Sim.current
    if s is not None:
        s.point('fit', '', faultable=False)
    h = zlib.crc32(np.round(y / (np.abs(y).max() or 1.0), 6).tobytes()) % 7
    if h == 0:
        raise RuntimeError('Optimal parameters not found: simulated')
    wgt = np.abs(y) + 1e-30
    b = float((x * wgt).sum() / wgt.sum())
    c = float(np.sqrt(((x - b) ** 2 * wgt).sum() / wgt.sum())) + 1e-9
    p = np.array([float(np.abs(y).max()), b, c])
    if p0 is not None:
        p = p + 1e-3 * float(np.sum(np.asarray(p0, dtype=float)))
    cov = np.eye(3)
    if h == 1:
        cov[:] = np.inf
        warnings.warn('Covariance of the parameters could not be estimated', category=OptimizeWarning, stacklevel=2)
        if s is not None:
            s.point('fit', 'warned', faultable=False)
    return p, cov


def install():
    import scipy.optimize
    netCDF4.Dataset = Dataset
    scipy.optimize.curve_fit = _fit
