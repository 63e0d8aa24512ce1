"""
In-memory netCDF4 and HDF5 files for the symbolic import of the code.

Written files leave a stub on disk holding a key, so that existence checks,
compression and in-memory reads work on real bytes.  The untouched import
uses the real libraries: replays compare the two.
"""
import io, os, pathlib
import numpy as np
from . import nps, core

MAGIC = b'SYMXFAKE:'
_store = {}

def clear():
    _store.clear()

def _save(obj, path):
    key = f'{len(_store):06d}'
    _store[key] = obj
    with open(path, 'wb') as f:
        f.write(MAGIC + key.encode())

def _load(data):
    if not data.startswith(MAGIC):
        return None
    return _store[data[len(MAGIC):].decode()]

def _float32(x):
    """single precision rounding as an arbitrary error within half a unit"""
    def f(v):
        if not isinstance(v, core.Sym):
            return float(np.float32(v)) if not isinstance(v, (bool, core.SymBool)) else v
        lo, hi = core.bounds(v)
        if lo is None or hi is None:
            raise core.EngineError('single precision of an unbounded value')
        h = float(max(abs(lo), abs(hi)))*2.0**-24
        k = ('slack', core.mkey(v.t), 'f4')
        a = core.E.table.get(k)
        if a is None:
            a = core.E.table[k] = core.Atom(f'slack!{len(core.E.atoms)}', 'R', 'base', (), -h, h)
        return v + core.Sym({(a.id,): 1})
    a = nps.sarray(x)
    out = nps.zeros(a.shape)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out

def _content(data, dtype):
    dt = np.dtype(nps.realtype(dtype) if isinstance(dtype, type) else dtype)
    if isinstance(data, nps.SymMasked):
        raise core.EngineError('masked data written to a file')
    if dt.kind == 'f' and dt.itemsize == 4:
        return _float32(data), dt
    if dt.kind in 'iu':
        return nps.sarray(data).astype(int), dt
    if dt.kind == 'f':
        return nps.sarray(data).astype(float), dt
    if dt.kind == 'b':
        return nps.sarray(data), dt
    return data, dt

class Attrs(dict):
    pass

# ------------------------------------------------------------------ netCDF4
class Variable:
    def __init__(self, name, dtype, dims, shape, fill_value=None):
        d = self.__dict__
        dt = np.dtype(nps.realtype(dtype) if isinstance(dtype, type) else dtype)
        if dt.kind == 'b':
            raise TypeError('illegal primitive data type, must be one of dict_keys([...]), got bool')
        d['name'], d['dtype'], d['dimensions'] = name, dt, tuple(dims)
        fill = fill_value if fill_value is not None else {'f': 9.969209968386869e36, 'i': -2147483647}.get(dt.kind, 0)
        d['_data'] = nps.sarray(np.full(shape, fill, dtype=dt))
        d['_att'] = Attrs()
        if fill_value is not None:
            d['_att']['_FillValue'] = fill_value
    def __setitem__(self, key, v):
        c, _ = _content(v, self.dtype)
        if self._data.ndim == 0:
            self._data[()] = c.item() if c.size == 1 else c
        else:
            # dimensions of length one are dropped, as by the library
            t = self._data[key]
            if np.ndim(t) and c.shape != t.shape and c.size == t.size and np.squeeze(nps.base(c)).shape == np.squeeze(nps.base(t)).shape:
                c = c.reshape(t.shape)
            self._data[key] = c
    def __getitem__(self, key):
        if self._data.ndim == 0:
            return self._data.copy()
        return self._data[key].copy()
    def __len__(self):
        return len(self._data)
    @property
    def shape(self):
        return self._data.shape
    @property
    def ndim(self):
        return self._data.ndim
    def setncattr(self, k, v):
        if k == '_FillValue' and self._att.get(k) is None:
            raise AttributeError('_FillValue attribute must be set when variable is created (using fill_value keyword to createVariable)')
        self._att[k] = v
    def getncattr(self, k):
        try:
            return self._att[k]
        except KeyError:
            raise AttributeError(f"NetCDF: Attribute not found: '{k}'")
    def ncattrs(self):
        return list(self._att)
    def set_auto_mask(self, v):
        pass
    def __getattr__(self, k):
        return self.getncattr(k)
    def __setattr__(self, k, v):
        self.setncattr(k, v)

class Dim:
    def __init__(self, n):
        self.size = n
    def __len__(self):
        return self.size

class Dataset:
    def __init__(self, filename, mode='r', clobber=True, format='NETCDF4', memory=None, **kw):
        d = self.__dict__
        d['_mode'], d['_path'] = mode, str(filename)
        if mode == 'r':
            if memory is None:
                if not os.path.exists(filename):
                    raise FileNotFoundError(2, f"No such file or directory: '{filename}'")
                memory = pathlib.Path(filename).read_bytes()
            src = _load(memory)
            if src is None:
                # a real file made by the harness
                import netCDF4
                with netCDF4.Dataset('inmemory', memory=memory) as nc:
                    nc.set_auto_mask(False)
                    src = Dataset.__new__(Dataset)
                    src.__dict__.update(_mode='w', _path='', variables={}, dimensions={k: Dim(len(v)) for k, v in nc.dimensions.items()}, _att=Attrs(), groups={})
                    for k, v in nc.variables.items():
                        x = src.createVariable(k, v.dtype, v.dimensions)
                        x[:] = nps.sarray(np.array(v[:]))
                        for a in v.ncattrs():
                            x._att[a] = v.getncattr(a)
                    for a in nc.ncattrs():
                        src._att[a] = nc.getncattr(a)
            if not isinstance(src, Dataset):
                raise OSError(-51, 'NetCDF: Unknown file format')
            for k in ('variables', 'dimensions', '_att', 'groups'):
                d[k] = src.__dict__[k]
        elif mode == 'a' and os.path.exists(filename):
            src = _load(pathlib.Path(filename).read_bytes())
            for k in ('variables', 'dimensions', '_att', 'groups'):
                d[k] = src.__dict__[k]
        else:
            d.update(variables={}, dimensions={}, _att=Attrs(), groups={})
            _save(self, filename)
    def createDimension(self, name, size=None):
        self.dimensions[name] = Dim(size)
        return self.dimensions[name]
    def createVariable(self, name, dtype, dims=(), fill_value=None, **kw):
        v = Variable(name, dtype, dims, tuple(self.dimensions[x].size for x in dims), fill_value)
        self.variables[name] = v
        return v
    def createGroup(self, name):
        g = Dataset.__new__(Dataset)
        g.__dict__.update(_mode='w', _path=self._path, variables={}, dimensions=dict(self.dimensions), _att=Attrs(), groups={})
        self.groups[name] = g
        return g
    setncattr = lambda self, k, v: self._att.__setitem__(k, v)
    def getncattr(self, k):
        try:
            return self._att[k]
        except KeyError:
            raise AttributeError(f"NetCDF: Attribute not found: '{k}'")
    def ncattrs(self):
        return list(self._att)
    def filepath(self):
        return self._path
    def set_auto_mask(self, v):
        pass
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def __getitem__(self, k):
        return self.variables[k]
    def __getattr__(self, k):
        return self.getncattr(k)
    def __setattr__(self, k, v):
        self.setncattr(k, v)

class netCDF4:
    Dataset = Dataset
    Variable = Variable

# ------------------------------------------------------------------ h5py
class HDataset:
    def __init__(self, shape, data, dtype):
        c, dt = _content(data, dtype if dtype is not None else getattr(data, 'dtype', float))
        if tuple(shape) != c.shape:
            c = c.reshape(shape)
        self._data, self.dtype, self.attrs = c.copy(), dt, Attrs()
        self.dims = None
    shape = property(lambda s: s._data.shape)
    ndim = property(lambda s: s._data.ndim)
    def __getitem__(self, key):
        if self._data.ndim == 0:
            if key == ():
                return self._data.item()
            raise ValueError('Illegal slicing argument for scalar dataspace')
        return self._data[key].copy()
    def __setitem__(self, key, v):
        self._data[key] = _content(v, self.dtype)[0]
    def __len__(self):
        return len(self._data)

class _Scales:
    def __getitem__(self, i):
        return self
    def __setattr__(self, k, v):
        pass
    def attach_scale(self, x):
        pass

class File:
    def __init__(self, name, mode='r', **kw):
        if mode == 'r':
            if hasattr(name, 'read'):
                pos = name.tell()
                data = name.read()
                name.seek(pos)
                self.filename = str(name)
            else:
                if not os.path.exists(name):
                    raise FileNotFoundError(2, f'Unable to open file (unable to open file: name = {name!r})')
                data = pathlib.Path(name).read_bytes()
                self.filename = str(name)
            src = _load(data)
            if not isinstance(src, File):
                raise OSError('Unable to open file (file signature not found)')
            self._d, self.attrs = src._d, src.attrs
        else:
            if mode in ('w-', 'x') and os.path.exists(name):
                raise FileExistsError(17, 'Unable to create file (unable to open file: File exists)')
            self._d, self.attrs = {}, Attrs()
            self.filename = str(name)
            _save(self, name)
    def create_dataset(self, key, shape=None, data=None, dtype=None, **kw):
        if kw.get('compression') and len(shape if shape is not None else np.shape(data)) == 0:
            raise TypeError('Scalar datasets don\'t support chunk/filter options')
        d = HDataset(np.shape(data) if shape is None else shape, data, dtype)
        d.dims = _Scales()
        self._d[key] = d
        return d
    def __getitem__(self, k):
        return self._d[k]
    def __contains__(self, k):
        return k in self._d
    def keys(self):
        return self._d.keys()
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass

class h5py:
    File = File
