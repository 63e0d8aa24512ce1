"""
Loads the code under test twice from /repo: once untouched (``REAL``) and
once with numpy/scipy/math replaced by the symbolic shims (``SYM``).
"""
import os, sys, types, importlib, warnings, contextlib, logging
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
REPO = os.environ.get('SYMX_REPO', '/repo')

def _preimport():
    for m in ('numpy', 'numpy.linalg', 'numpy.fft', 'numpy.ma', 'scipy', 'scipy.special',
            'scipy.stats', 'scipy.signal', 'scipy.interpolate', 'scipy.linalg',
            'dateutil.parser', 'dateutil', 'netCDF4', 'h5py', 'matplotlib',
            'matplotlib.pyplot', 'yaml', 'lxml', 'lxml.etree', 'cartopy', 'cartopy.crs',
            'ipywidgets', 'tkinter', 'tkinter.filedialog', 'IPython', 'IPython.display',
            'matplotlib.colors', 'matplotlib.cm', 'matplotlib.animation', 'matplotlib.ticker', 'pandas', 'boto3',
            'urllib.request', 'http.cookiejar', 'ssl', 'ftplib', 'zipfile', 'gzip',
            'tarfile', 'uuid', 'shutil', 'geoid_toolkit', 'sparse', 'importlib.resources',
            'importlib.metadata', 'inspect', 'itertools'):
        try:
            importlib.import_module(m)
        except Exception:
            pass

def _collect():
    return {k: v for k, v in sys.modules.items()
        if k == 'gravity_toolkit' or k.startswith('gravity_toolkit.')}

def _purge():
    for k in list(_collect()):
        del sys.modules[k]

class Instance:
    """one import of the package"""
    def __init__(self, modules, symbolic):
        self.modules = modules
        self.symbolic = symbolic
        self.root = modules['gravity_toolkit']

    def __getattr__(self, n):
        # gravity_toolkit.<n>: a submodule has priority over a name exported
        # by the package (e.g. harmonics class and harmonics module)
        return getattr(self.root, n)

    def mod(self, n):
        k = 'gravity_toolkit.' + n
        if k in self.modules:
            return self.modules[k]
        with self.active():
            m = importlib.import_module(k)
            self.modules[k] = m
            return m

    def script(self, n):
        """a program of the scripts directory, bound to this import of the package"""
        k = 'gravity_toolkit.__scripts__.' + n
        if k in self.modules:
            return self.modules[k]
        import importlib.util
        spec = importlib.util.spec_from_file_location(k, os.path.join(REPO, 'scripts', n + '.py'))
        m = importlib.util.module_from_spec(spec)
        shims = _cache['shims'] if self.symbolic else {}
        saved = {x: sys.modules.get(x) for x in shims}
        with self.active():
            sys.modules.update(shims)
            try:
                spec.loader.exec_module(m)
            finally:
                for x, v in saved.items():
                    if v is None:
                        del sys.modules[x]
                    else:
                        sys.modules[x] = v
        self.modules[k] = m
        if self.symbolic:
            inject(self)
        return m

    @contextlib.contextmanager
    def active(self):
        saved = _collect()
        _purge()
        sys.modules.update(self.modules)
        try:
            yield
        finally:
            self.modules.update(_collect())
            _purge()
            sys.modules.update(saved)

_cache = {}
EXTRA = []

def load():
    """returns (REAL, SYM)"""
    if 'r' in _cache:
        return _cache['r'], _cache['s']
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    _preimport()
    logging.disable(logging.CRITICAL)
    _purge()
    importlib.import_module('gravity_toolkit')
    for e in EXTRA:
        importlib.import_module(e)
    real = Instance(_collect(), False)
    f = real.root.__file__
    if not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'gravity_toolkit imported from {f}')
    _purge()
    from . import nps
    shims = nps.make_shims()
    for n in ('scipy', 'scipy.special', 'scipy.stats', 'scipy.signal',
            'scipy.interpolate', 'scipy.linalg'):
        if n in sys.modules:
            sh = nps.ScipyShim(sys.modules[n], n, {})
            sys.modules['symshim.' + n] = sh
            shims[n] = sh
    shims['scipy.linalg'].__dict__.update({k: nps.FN['linalg.'+k] for k in ('inv','pinv','solve','lstsq','norm')})
    if 'scipy.interpolate' in shims:
        shims['scipy.interpolate'].__dict__['RectBivariateSpline'] = nps.RectBivariateSpline
    shims['math'] = nps.make_math()
    saved = {k: sys.modules.get(k) for k in shims}
    sys.modules.update(shims)
    try:
        importlib.import_module('gravity_toolkit')
        for e in EXTRA:
            importlib.import_module(e)
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    sym = Instance(_collect(), True)
    _purge()
    sys.modules.update(real.modules)
    inject(sym)
    _cache.update(r=real, s=sym, shims=shims)
    return real, sym

def inject(sym):
    from . import nps
    from . import fakeio
    for m in sym.modules.values():
        for n in ('netCDF4', 'h5py'):
            if n in m.__dict__:
                m.__dict__[n] = getattr(fakeio, n)
        for n, v in (('float', nps.symfloat), ('int', nps.symint)):
            if n not in m.__dict__:
                m.__dict__[n] = v
