import functools

#: service class name -> {method name -> (argument types, return type, argument names)}
SERVICES = {}


def ladonize(*def_types, **def_kwargs):
    rtype = def_kwargs.get('rtype')

    def wrap(fn):
        code = fn.__code__
        names = code.co_varnames[1:code.co_argcount]
        fn._ladonized = dict(types=def_types, rtype=rtype, names=names)
        return fn
    return wrap
