"""Which simulated world decides which property, with what budget."""
from . import plans

SERVICE = tuple('C%02d' % k for k in range(1, 18))
TOOLS = ('C18', 'C19')
LANG = ('C20', 'C21', 'C22')
CERT = ('C23', 'C24')
ALL = SERVICE + TOOLS + LANG + CERT


def world_class(prop):
    if prop in SERVICE:
        from . import world
        return world.World
    if prop in TOOLS:
        from . import toolsw
        return toolsw.ToolsWorld
    if prop in CERT:
        from . import certw
        return certw.CertWorld
    from . import langw
    return langw.LangWorld


def plan(prop, base, i):
    if prop in SERVICE:
        p = plans.mk(prop, base, i)
    elif prop in TOOLS:
        from . import toolsw
        p = toolsw.mk(prop, base, i)
    elif prop in CERT:
        from . import certw
        p = certw.mk(prop, base, i)
    else:
        from . import langw
        p = langw.mk(prop, base, i)
    p['i'] = i
    return p


def prepare(prop):
    if prop in SERVICE:
        from . import world
        world.make_templates()
    if prop in TOOLS:
        from . import toolsw      # noqa: F401
    if prop in LANG:
        from . import langw       # noqa: F401
    if prop in CERT:
        from . import certw       # noqa: F401


QUICK = {'C02': 2500, 'C05': 2500, 'C18': 2500, 'C19': 3000, 'C20': 6000, 'C21': 4000, 'C22': 5000, 'C23': 4000, 'C24': 4000}


def budget(prop, tier):
    """Number of runs and soft wall-clock cap in seconds."""
    n = QUICK.get(prop, 1800)
    return (n, 240) if tier == 'quick' else (n * 15, 3000)


def rule(prop):
    return ('Each run is generated from VERIF_SEED and its run number: configuration, stored data, clients with their operations, '
            'scheduling density and fault regime. A run counts as non-trivial if the property\'s oracle judged at least one '
            'operation of it and tasks really interleaved (more than two context switches per task) or at least one fault was '
            'injected; distinct means a different hash of the complete event trace.')


def real(prop):
    if prop in SERVICE:
        return ['hgaa.handler and both services (hgaa/services)', 'hgaa.attcert', 'hgaa.database', 'hgaa.schema', 'hgaa.config', 'hgaa.log',
                'hgaa.clients (client operations)', 'SQLAlchemy ORM, pool and SQLite engine', 'bcrypt', 'pycryptodome RSA signatures']
    if prop in TOOLS:
        return ['hgaa.tools', 'hgaa.database', 'hgaa.schema', 'hgaa.config', 'hgaa.log', 'SQLAlchemy ORM and SQLite engine', 'bcrypt',
                'pycryptodome key import and export']
    if prop in CERT:
        return ['hgaa.attcert', 'pycryptodome RSA signatures']
    return ['hgpl.lexing', 'hgpl.parsing', 'hgpl.ast', 'hgpl.semantics', 'hgpl.interpreting', 'hgpl.symbols', 'hgpl.errors']


def stubbed(prop):
    base = ['threads: real threads released one at a time by the seeded scheduler', 'clock, randomness and locks: simulated']
    if prop in SERVICE + TOOLS:
        base += ['ladon web framework and HTTP transport (not installable here): stub dispatcher with simulated network',
                 'files and database connections: real files in a scratch directory behind fault-injecting wrappers',
                 'log files: kept in memory', 'RSA key generation: keys from a fixed pool', 'scrypt of exported keys: cheap stand-in']
    return base


def assumptions(prop):
    return ['The absence of a violation is evidence for the explored executions only.',
            'Preemption happens at source lines (in some runs at bytecode instructions) of the repository and at database, file, clock, '
            'randomness and network operations.'] + (
        ['SQLite semantics stand for the database; a crash keeps exactly the committed transactions.'] if prop in SERVICE + TOOLS else [])
