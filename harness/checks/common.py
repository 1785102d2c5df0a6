"""Things that several checks use."""
import ast
import glob
import operator
import os
import re

from zope.security import checker as Z
from zope.security import proxy as PX
from zope.security.interfaces import Forbidden
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized

REPO = os.environ.get('VERIF_REPO', '/repo')

Proxy = PX.Proxy
getObject = PX.getObject
getChecker = PX.getChecker
removeSecurityProxy = PX.removeSecurityProxy
ProxyFactory = Z.ProxyFactory
CheckerPublic = Z.CheckerPublic
PURE = Proxy.__module__ == 'zope.security.proxy'
NoProxy = Z.NoProxy

__all__ = [
    'Z', 'PX', 'Proxy', 'getObject', 'getChecker', 'removeSecurityProxy',
    'ProxyFactory', 'CheckerPublic', 'NoProxy', 'Forbidden',
    'ForbiddenAttribute', 'Unauthorized', 'mined_names', 'mined_ints',
    'random_name', 'outcome', 'is_proxy', 'ALWAYS_READABLE', 'Interaction',
    'set_interaction', 'clear_interaction', 'BINARY', 'UNARY', 'INPLACE',
    'COMPARE', 'PURE', 'odd_class', 'odd_checker',
]

# Names that any name-based checker lets anyone read.
ALWAYS_READABLE = frozenset([
    '__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
    '__hash__', '__bool__', '__class__', '__providedBy__', '__implements__',
    '__repr__', '__conform__', '__name__', '__parent__',
])

BINARY = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'truediv': operator.truediv, 'floordiv': operator.floordiv,
    'mod': operator.mod, 'divmod': divmod, 'pow': operator.pow,
    'lshift': operator.lshift, 'rshift': operator.rshift,
    'and': operator.and_, 'or': operator.or_, 'xor': operator.xor,
}
INPLACE = {
    'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul,
    'truediv': operator.itruediv, 'floordiv': operator.ifloordiv,
    'mod': operator.imod, 'pow': operator.ipow,
    'lshift': operator.ilshift, 'rshift': operator.irshift,
    'and': operator.iand, 'or': operator.ior, 'xor': operator.ixor,
}
UNARY = {
    'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
    'invert': operator.invert,
}
COMPARE = {
    'lt': operator.lt, 'le': operator.le, 'eq': operator.eq,
    'ne': operator.ne, 'ge': operator.ge, 'gt': operator.gt,
}


def is_proxy(obj):
    """Is obj a security proxy?  (Not to be fooled by __class__.)"""
    return issubclass(type(obj), Proxy)


# Objects need not count as true, nor be equal to themselves only.
ODD = [
    {'__len__': lambda self: 0},
    {'__bool__': lambda self: False},
    {'__eq__': lambda self, other: True, '__ne__': lambda self, other: False,
     '__hash__': lambda self: 0},
    {'__eq__': lambda self, other: False, '__ne__': lambda self, other: True,
     '__hash__': object.__hash__},
    {'__eq__': lambda self, other: True, '__hash__': None,
     '__bool__': lambda self: False},
    {},
]


def odd_class(rng, *bases):
    """A class whose instances are odd in some way."""
    return type('Odd', bases, dict(rng.choice(ODD)))


def odd_checker(rng, *args):
    return odd_class(rng, Z.Checker)(*args)


def outcome(func, *args):
    """('ok', value) or ('raise', exception)"""
    try:
        return 'ok', func(*args)
    except Exception as e:
        return 'raise', e


# -- inputs -------------------------------------------------------------------

_mined = None


def _mine():
    """Constants from the sources: inputs that the code may single out."""
    global _mined
    if _mined is not None:
        return _mined
    names, ints = set(), set()
    for path in sorted(glob.glob(REPO + '/src/zope/security/*.py')):
        with open(path, encoding='utf-8') as f:
            try:
                tree = ast.parse(f.read())
            except SyntaxError:
                continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                if isinstance(node.value, str) and len(node.value) <= 40 \
                        and '\n' not in node.value:
                    names.add(node.value)
                elif isinstance(node.value, int) \
                        and not isinstance(node.value, bool) \
                        and abs(node.value) < 5000:
                    ints.add(node.value)
    for path in sorted(glob.glob(REPO + '/src/zope/security/*.c')):
        with open(path, encoding='utf-8') as f:
            text = f.read()
        for m in re.findall(r'"([^"\n\\%]{1,40})"', text):
            names.add(m)
        for m in re.findall(r'DECLARE_STRING\((?:op_)?(\w+)\)', text):
            names.add(m)
            if not m.startswith('_'):
                names.add('__%s__' % m)
        for m in re.findall(r'(?<![\w.])(\d{1,4})(?![\w.])', text):
            ints.add(int(m))
    _mined = sorted(names), sorted(ints)
    return _mined


def mined_names():
    return _mine()[0]


def mined_ints():
    return _mine()[1]


_ident = re.compile(r'^[A-Za-z_]\w*$')
_ODD = ['', '_', '__', '___', '____', '__x', 'x__', '_x', 'name', 'a b',
        '\u00e9t\u00e9', '\u03b1', '\U0001f600', '__\u00e9__', 'x' * 300,
        '__' + 'y' * 200 + '__', '__iter_', '_iter__', '__iter__ ',
        '__Iter__', '__class__\x00', '\x00', '__\x00', '__iter__\x00x',
        'None', 'self', '__3pow__', 'next', 'index', '_checker', '_wrapped']
_PLAIN = ['a', 'b', 'foo', 'bar', 'title', 'value', 'method', 'items', 'keys',
          'get', 'copy', 'x1', 'x2', 'x3', '_private', '__mangled',
          'append', 'pop', 'clear', 'update', '__dict__', '__doc__',
          '__init__', '__reduce__', '__getattr__', '__call__', '__len__',
          '__iter__', '__getitem__', '__contains__', '__add__', '__str__']


def random_name(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(_PLAIN)
    if r < .6:
        return rng.choice(mined_names())
    if r < .75:
        return rng.choice(_ODD)
    if r < .85:
        return '__%s__' % ''.join(
            rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in
            range(rng.randrange(1, 8)))
    return ''.join(rng.choice('abcdefgh_XYZ09') for _ in
                   range(rng.choice([1, 2, 3, 5, 8, 40])))


# -- interactions ---------------------------------------------------------------

class Interaction:
    """An interaction that records what it is asked."""

    def __init__(self, decide):
        self.asked = []
        self.decide = decide
        self.participations = []

    def checkPermission(self, permission, object):
        self.asked.append((permission, object))
        return self.decide(permission, object)


def set_interaction(interaction):
    """Make it the current interaction of this thread, by the public API."""
    from zope.security import management as M
    M.endInteraction()
    previous = M.setSecurityPolicy(lambda *participations: interaction)
    try:
        M.newInteraction()
    finally:
        M.setSecurityPolicy(previous)


def clear_interaction():
    from zope.security import management as M
    M.endInteraction()
