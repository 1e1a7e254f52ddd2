"""
Private module sets.

Every simulated process owns a private copy of all lulua modules (executed from
the current sources of the repository), so module and class level state -- key
numbering, caches, counters -- is process-local exactly like in reality.
Third-party modules are shared.

fork() is emulated by executing the modules the parent has loaded a second time
and then copying the parent's module/class level data and the child's arguments
into the new set, as raw memory: custom pickling hooks of the objects are *not*
used, because fork does not use them either.
"""

import copyreg
import enum
import importlib.machinery
import importlib.util
import io
import os
import pickle
import sys
import types

PKG = 'lulua'

_code = {}

class CachedLoader (importlib.machinery.SourceFileLoader):
    def get_code (self, fullname):
        path = self.get_filename (fullname)
        code = _code.get (path)
        if code is None:
            with io.FileIO (path) as fd:
                data = fd.readall ()
            code = _code[path] = compile (data, path, 'exec', dont_inherit=True)
        return code

class Finder:
    """ Meta path finder for the package under test """
    def __init__ (self, root):
        self.root = root

    def find_spec (self, fullname, path=None, target=None):
        parts = fullname.split ('.')
        if parts[0] != PKG:
            return None
        base = os.path.join (self.root, *parts)
        for p, isPkg in ((os.path.join (base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile (p):
                loader = CachedLoader (fullname, p)
                spec = importlib.util.spec_from_file_location (fullname, p, loader=loader,
                        submodule_search_locations=[base] if isPkg else None)
                spec.cached = None
                return spec
        return None

    def invalidate_caches (self):
        pass

def isSut (name):
    return name == PKG or name.startswith (PKG + '.')

names = []

def scan (root):
    """ All module names the package can provide """
    base = os.path.join (root, PKG)
    for d, dirs, files in os.walk (base):
        dirs[:] = [x for x in sorted (dirs) if os.path.exists (os.path.join (d, x, '__init__.py'))]
        mod = os.path.relpath (d, root).replace (os.sep, '.')
        names.append (mod)
        names.extend (mod + '.' + f[:-3] for f in sorted (files) if f.endswith ('.py') and f != '__init__.py')

def take ():
    d = {}
    mods = sys.modules
    for k in names:
        m = mods.pop (k, None)
        if m is not None:
            d[k] = m
    return d

def save (proc):
    """ Take the current sys.modules entries of the package out and into proc """
    d = take ()
    if proc is not None:
        proc.modules = d

def restore (proc):
    if proc is not None:
        sys.modules.update (proc.modules)

_DATA_SKIP = (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType,
        types.MethodType, staticmethod, classmethod, property, types.MemberDescriptorType,
        types.GetSetDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)

def _resolve (modules, module, qualname):
    o = modules[module]
    for p in qualname.split ('.'):
        o = getattr (o, p)
    return o

def _rebuildFunction (code, module, name, defaults, kwdefaults, closure, d):
    g = _dst[module].__dict__
    cells = tuple (types.CellType (x) for x in closure) if closure is not None else None
    f = types.FunctionType (code, g, name, defaults, cells)
    f.__kwdefaults__ = kwdefaults
    f.__dict__.update (d)
    return f

def _rebuildObject (cls):
    return object.__new__ (cls)

def _setState (obj, state):
    d, slots = state
    if d:
        obj.__dict__.update (d)
    for k, v in slots:
        object.__setattr__ (obj, k, v)

def _byName (module, qualname):
    return _resolve (_dst, module, qualname)

_dst = None

_PLAIN = frozenset ((str, int, float, bool, bytes, tuple, list, dict, set, frozenset, type (None), type))

class ForkPickler (pickle.Pickler):
    """ Memory copy of an object graph from one module set to another """
    def __init__ (self, fd, src, shared):
        super ().__init__ (fd, pickle.HIGHEST_PROTOCOL)
        self.src = src
        self.shared = shared

    def persistent_id (self, o):
        if type (o) in _PLAIN:
            return None
        if isinstance (o, types.ModuleType):
            if isSut (o.__name__) and self.src.get (o.__name__) is o:
                return ('mod', o.__name__)
            return ('raw', self._keep (o))
        if isinstance (o, types.CodeType) or getattr (o, '_simShared', False) and not isinstance (o, type):
            return ('raw', self._keep (o))
        return None

    def _keep (self, o):
        self.shared.append (o)
        return len (self.shared)-1

    def reducer_override (self, o):
        if isinstance (o, type):
            if isSut (getattr (o, '__module__', '') or ''):
                return (_byName, (o.__module__, o.__qualname__))
            return NotImplemented
        if isinstance (o, types.FunctionType):
            m = o.__module__
            if m is not None and isSut (m) and m in self.src:
                try:
                    if _resolve (self.src, m, o.__qualname__) is o:
                        return (_byName, (m, o.__qualname__))
                except AttributeError:
                    pass
                closure = None
                if o.__closure__ is not None:
                    closure = tuple (c.cell_contents for c in o.__closure__)
                return (_rebuildFunction, (o.__code__, m, o.__name__, o.__defaults__,
                        o.__kwdefaults__, closure, o.__dict__))
            return NotImplemented
        cls = type (o)
        if isSut (getattr (cls, '__module__', '') or '') and not isinstance (o, enum.Enum) \
                and cls.__new__ is object.__new__ and not isinstance (o, BaseException):
            slots = []
            for c in cls.__mro__:
                sl = c.__dict__.get ('__slots__', ())
                if isinstance (sl, str):
                    sl = (sl,)
                for name in sl:
                    if name in ('__dict__', '__weakref__'):
                        continue
                    if name.startswith ('__') and not name.endswith ('__'):
                        name = f'_{c.__name__.lstrip ("_")}{name}'
                    try:
                        slots.append ((name, object.__getattribute__ (o, name)))
                    except AttributeError:
                        pass
            d = getattr (o, '__dict__', None)
            return (_rebuildObject, (cls,), (d, slots), None, None, _setState)
        return NotImplemented

class ForkUnpickler (pickle.Unpickler):
    def __init__ (self, fd, dst, shared):
        super ().__init__ (fd)
        self.dst = dst
        self.shared = shared

    def persistent_load (self, pid):
        kind, v = pid
        if kind == 'mod':
            return self.dst[v]
        return self.shared[v]

    def find_class (self, module, name):
        if isSut (module):
            return _resolve (self.dst, module, name)
        return super ().find_class (module, name)

def _isData (v):
    return not isinstance (v, _DATA_SKIP) and type (v).__name__ != '_lru_cache_wrapper' \
            and not getattr (v, '_simShared', False)

def _collect (modules):
    """ Module, class and function level data: {path: value} """
    out = {}
    seen = set ()
    for mname, m in modules.items ():
        for k, v in list (vars (m).items ()):
            if k.startswith ('__'):
                continue
            if _isData (v):
                out[(mname, None, k)] = v
            elif isinstance (v, type) and v.__module__ == mname and v not in seen:
                seen.add (v)
                if issubclass (v, enum.Enum):
                    continue
                for ck, cv in list (vars (v).items ()):
                    if ck.startswith ('__') or ck in ('_abc_impl', '_fields', '_field_defaults', '_make', '_replace', '_asdict'):
                        continue
                    if _isData (cv) and type (cv).__name__ not in ('_tuplegetter', 'cached_property'):
                        out[(mname, v.__qualname__, ck)] = cv
                    elif isinstance (cv, types.FunctionType) and cv.__dict__:
                        for fk, fv in cv.__dict__.items ():
                            out[(mname, cv.__qualname__, '.' + fk)] = fv
            elif isinstance (v, types.FunctionType) and v.__module__ == mname and v.__dict__:
                for fk, fv in v.__dict__.items ():
                    out[(mname, v.__qualname__, '.' + fk)] = fv
    return out

def _copy (obj, src, dst):
    global _dst
    shared = []
    fd = io.BytesIO ()
    ForkPickler (fd, src, shared).dump (obj)
    fd.seek (0)
    _dst = dst
    try:
        return ForkUnpickler (fd, dst, shared).load ()
    finally:
        _dst = None

def fork (parentModules, payload):
    """
    Execute a private module set for a child. sys.modules must not contain the
    package; it contains the child's set afterwards. Returns payload, copied.
    """
    import importlib
    for k in parentModules:
        importlib.import_module (k)
    dst = {k: sys.modules[k] for k in sys.modules if isSut (k)}
    data = _collect (parentModules)
    # payload and module level data share one memo: identities survive
    try:
        copied, payload2 = _copy ((data, payload), parentModules, dst)
    except Exception:
        good = {}
        for k, v in data.items ():
            try:
                _copy (v, parentModules, dst)
                good[k] = v
            except Exception:
                pass
        copied, payload2 = _copy ((good, payload), parentModules, dst)
    fresh = _collect (dst)
    for (mname, qual, k), v in copied.items ():
        old = fresh.get ((mname, qual, k))
        if type (old) is type (v) and isinstance (v, dict):
            old.clear ()
            old.update (v)
            continue
        if type (old) is type (v) and isinstance (v, list):
            old[:] = v
            continue
        if type (old) is type (v) and isinstance (v, set):
            old.clear ()
            old.update (v)
            continue
        if isinstance (v, (int, str, bytes, float, bool, type (None), tuple, frozenset)) and old == v and type (old) is type (v):
            continue
        owner = dst[mname]
        if qual is not None:
            owner = _resolve (dst, mname, qual)
        try:
            setattr (owner, k[1:] if k.startswith ('.') and qual is not None else k, v)
        except (AttributeError, TypeError):
            pass
    return payload2
