import importlib
import sys

from ladon.compat import PORTABLE_BYTES, PORTABLE_STRING
from ladon.exceptions.service import ClientFault, ServiceFault
from ladon.types.attachment import attachment
from ladon.types.ladontype import LadonType


class _Field(object):
    def __init__(self, spec):
        self.is_list = isinstance(spec, (list, tuple))
        self.nullable = True
        if self.is_list:
            spec = spec[0]
        if isinstance(spec, dict):
            self.type = spec['type']
            self.nullable = spec.get('nullable', True)
        else:
            self.type = spec


def _fields(cls):
    out = {}
    for c in reversed(cls.__mro__):
        for k, v in vars(c).items():
            if k.startswith('_') or callable(v) and not isinstance(v, type):
                continue
            if isinstance(v, (staticmethod, classmethod, property)):
                continue
            out[k] = _Field(v)
    return out


def _in_value(typ, value, where):
    """Wire value -> python value of the declared type."""
    if value is None:
        return None
    if isinstance(typ, type) and issubclass(typ, LadonType):
        if not isinstance(value, dict):
            raise ClientFault('Bad value for %s.' % where)
        obj = typ()
        for name, f in _fields(typ).items():
            v = value.get(name)
            if f.is_list:
                v = [_in_value(f.type, x, name) for x in (v if v is not None else [])]
            else:
                if v is None and not f.nullable:
                    raise ClientFault('Missing value for %s.' % name)
                v = _in_value(f.type, v, name)
            setattr(obj, name, v)
        return obj
    if typ is attachment:
        if isinstance(value, (bytes, bytearray)):
            return attachment(bytes(value))
        raise ClientFault('Bad attachment for %s.' % where)
    if typ is bytes:
        return value.encode('utf-8') if isinstance(value, str) else bytes(value)
    if typ is str:
        if isinstance(value, str):
            return value
        return str(value)
    if typ in (int, float):
        try:
            return typ(value)
        except (TypeError, ValueError):
            raise ClientFault('Bad value for %s.' % where)
    return value


def _out_value(typ, value):
    if value is None:
        return None
    if isinstance(value, LadonType):
        out = {}
        for name, f in _fields(type(value)).items():
            v = getattr(value, name, None)
            if isinstance(v, (type, dict)) or isinstance(v, list) and v and isinstance(v[0], type):
                v = None    # never assigned
            if isinstance(v, (list, tuple)):
                v = [_out_value(None, x) for x in v]
            else:
                v = _out_value(None, v)
            out[name] = v
        return out
    if isinstance(value, attachment):
        return bytes(value.read())
    if isinstance(value, (bytes, bytearray)):
        return bytes(value).decode('utf-8')
    return value


class LadonWSGIApplication(object):
    """Holds the loaded services; the simulator calls dispatch() directly."""
    #: set by the simulator: called with the newly created application
    on_create = None

    def __init__(self, service_names, path_list, catalog_name=None, catalog_desc=None, logging=0):
        if isinstance(path_list, str):
            path_list = [path_list]
        self.classes = {}
        for name in service_names:
            self._load(name, path_list)
        self.instances = {}
        if LadonWSGIApplication.on_create is not None:
            LadonWSGIApplication.on_create(self)

    def _load(self, name, path_list):
        for p in path_list:
            if p not in sys.path:
                sys.path.append(p)
        mod = importlib.import_module(name)
        for cname, cls in vars(mod).items():
            if isinstance(cls, type) and cls.__module__ == name:
                methods = {m: fn for m, fn in vars(cls).items() if hasattr(fn, '_ladonized')}
                if methods:
                    self.classes[cname] = (cls, methods)

    def instance(self, service, shared):
        if not shared:
            return self.classes[service][0]()
        inst = self.instances.get(service)
        if inst is None:
            inst = self.instances[service] = self.classes[service][0]()
        return inst

    def dispatch(self, service, method, args, exports, shared):
        """Returns ('result', dict) or ('fault', {code, string, detail}, kind)."""
        entry = self.classes.get(service)
        if entry is None or method not in entry[1]:
            return 'notfound', None, None
        meta = entry[1][method]._ladonized
        try:
            inst = self.instance(service, shared)
            call = {}
            for name, typ in zip(meta['names'], meta['types']):
                f = _Field(typ)
                v = args.get(name)
                if f.is_list:
                    v = [_in_value(f.type, x, name) for x in (v or [])]
                else:
                    v = _in_value(f.type, v, name)
                call[name] = v
            if entry[1][method].__code__.co_flags & 0x08:
                call.update(exports)
            result = getattr(inst, method)(**call)
            out = _out_value(meta['rtype'], result)
            return 'result', out, None
        except ServiceFault as e:
            return 'fault', {'code': e.faultcode, 'string': str(e), 'detail': []}, (type(e).__name__, str(e))
        except Exception as e:
            return 'fault', {'code': 'server', 'string': str(e), 'detail': [type(e).__name__, str(e)]}, \
                (type(e).__name__, str(e))
