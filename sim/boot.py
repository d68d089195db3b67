"""Brings a worker process to the point where runs can be forked from it."""
import gc
import importlib.machinery
import io
import json
import logging
import os
import shutil
import sys
import warnings

from . import core, seams

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = seams.REPO
_code = {}
KEYS_PEM = None
KEYS = []
PUBS = []


class RepoLoader(importlib.machinery.SourceFileLoader):
    """Compiles from the working tree once per worker; never touches __pycache__."""

    def get_code(self, fullname):
        path = self.path
        c = _code.get(path)
        if c is None:
            with seams._io_open(path, 'rb') as f:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    c = _code[path] = compile(f.read(), path, 'exec', dont_inherit=True)
        return c

    def set_data(self, *a, **k):
        pass


def repo_code(path):
    return RepoLoader('x', path).get_code('x')


def _hook(path):
    if path == REPO or path.startswith(REPO + '/'):
        if os.path.isdir(path):
            return importlib.machinery.FileFinder(path, (RepoLoader, ['.py']))
    raise ImportError


def init():
    global KEYS_PEM
    sys.dont_write_bytecode = True
    seams.install()
    import sqlalchemy                    # noqa: F401
    import sqlalchemy.orm                # noqa: F401
    import sqlalchemy.ext.declarative    # noqa: F401
    import sqlalchemy.dialects.sqlite    # noqa: F401
    import sqlalchemy.dialects.sqlite.pysqlite   # noqa: F401
    import bcrypt                        # noqa: F401
    import Crypto.PublicKey.RSA as RSA
    import Crypto.Signature.pkcs1_15     # noqa: F401
    import Crypto.Hash.SHA256            # noqa: F401
    import Crypto.Random.random          # noqa: F401
    import Crypto.IO.PEM                 # noqa: F401
    import Crypto.IO._PBES as pbes
    import base64, configparser, enum, ipaddress, pprint, struct, wsgiref.simple_server, secrets, uuid, hashlib  # noqa
    import calendar, tempfile, copy, contextlib, functools, collections, itertools, json as _j, re, queue  # noqa
    import stringprep, hmac, socket, traceback, glob, pathlib, fnmatch, shutil as _s, asyncio, concurrent.futures  # noqa
    import http.server, encodings.idna, unicodedata, pickle, abc, operator, string, textwrap, threading, types  # noqa
    # The memory-hard password stretching of exported keys is replaced by a cheap one (see DESIGN.md).
    real_scrypt = pbes.scrypt

    def scrypt(password, salt, key_len, N, r, p, num_keys=1, **kw):
        if N >= 1024 and num_keys == 1:
            return hashlib.pbkdf2_hmac('sha256', password if isinstance(password, bytes) else password.encode('latin-1'),
                                       b'sim' + salt, 1, key_len)
        return real_scrypt(password, salt, key_len, N, r, p, num_keys, **kw)
    pbes.scrypt = scrypt
    with open(os.path.join(HERE, 'keys.json')) as f:
        KEYS_PEM = json.load(f)
    for pem in KEYS_PEM:
        k = RSA.import_key(pem)
        KEYS.append(k)
        PUBS.append(k.publickey().export_key())
    RSA.generate = sim_generate
    seams.install_datetime()
    seams.reseed_random()
    seams.sweep_time()
    logging.root.addHandler(ROOT_CAPTURE)
    logging.root.setLevel(1)
    sys.path[:] = [os.path.join(HERE, 'stubs'), REPO] + [p for p in sys.path if p not in ('', REPO)]
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    for d, _, names in os.walk(REPO):
        if '/.git' in d or d.endswith('/test') and 'schema' not in d or '/demos' in d or '/gui' in d:
            continue
        for n in names:
            if n.endswith('.py'):
                try:
                    repo_code(os.path.join(d, n))
                except SyntaxError:
                    pass
    import ladon.server.wsgi          # noqa: F401
    import ladon.clients.jsonwsp      # noqa: F401
    import ladon.tools.log            # noqa: F401


def key(i):
    """Key number i; from 1000 on the modulus of key i - 1000 with another public exponent."""
    if i < 1000:
        return KEYS[i]
    from math import gcd
    k = KEYS[i - 1000]
    phi = (int(k.p) - 1) * (int(k.q) - 1)
    e = 257
    while gcd(e, phi) != 1 or e == k.e:
        e += 2
    from Crypto.PublicKey import RSA
    return RSA.construct((int(k.n), e, pow(e, -1, phi), int(k.p), int(k.q)))


def pub(i):
    return PUBS[i] if i < 1000 else key(i).publickey().export_key()


def sim_generate(bits, randfunc=None, e=65537):
    """RSA.generate: a key from the pool, chosen by the simulated randomness; distinct until the pool is used up."""
    s = core.SIM
    free = getattr(s, 'free_keys', None)
    if not free:
        free = s.free_keys = list(range(24, len(KEYS)))
    seams.sim_urandom(bits // 8)           # key generation consumes entropy
    t = s.cur
    i = free.pop((s.task_rng(t, 'genkey').randrange(len(free))) if t is not None else 0)
    return KEYS[i]


class Capture(logging.Handler):
    """Sees every log record that any logger lets through."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []
        self.fmt = logging.Formatter('%(name)s %(levelname)s %(message)s')

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def emit(self, record):
        if core.SIM is None:
            return
        try:
            self.records.append(self.fmt.format(record))
        except Exception as e:
            self.records.append('%s %r %r %r' % (record.name, record.msg, record.args, e))


ROOT_CAPTURE = Capture()
PURGE = ('hgaa', 'hgpl', 'aauth', 'pauth')


def purge_modules():
    out = {}
    for n in list(sys.modules):
        if n.split('.')[0] in PURGE:
            out[n] = sys.modules.pop(n)
    for name in list(logging.root.manager.loggerDict):
        if name.split('.')[0] in ('hgaa', 'ladonlogger', 'sqlalchemy'):
            lg = logging.root.manager.loggerDict[name]
            if isinstance(lg, logging.Logger):
                lg.handlers[:] = []
                if name.split('.')[0] == 'hgaa':
                    lg.setLevel(logging.NOTSET)
    return out


class StdCapture(io.TextIOBase):
    def __init__(self):
        self.text = []

    def write(self, x):
        self.text.append(x)
        return len(x)

    def writable(self):
        return True


def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def make_scratch(tag):
    path = '%s/verif-sim.%07d.%s' % (scratch_base(), os.getpid(), tag)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path
