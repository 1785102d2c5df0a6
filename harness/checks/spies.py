"""Objects that log everything that is done to them, and checkers that log
everything they are asked."""
from common import *  # noqa
import common

LOG = []
T = object.__getattribute__


class Plain:
    """An operand without any special methods."""

    def __init__(self, tag=None):
        self.tag = tag


class Boom(Exception):
    pass


class Denied(Exception):
    pass


class _Base:
    """Behaviour of spies.  self.plan maps a method name to what it does."""

    def __getattribute__(self, name):
        LOG.append(('obj', id(self), name, 'getattr', ()))
        plan = T(self, 'plan')
        if ('get', name) in plan:
            return _act(self, name, plan[('get', name)])
        return T(self, name)

    def __setattr__(self, name, value):
        LOG.append(('obj', id(self), name, 'setattr', (value,)))
        plan = T(self, 'plan')
        if ('set', name) in plan:
            return _act(self, name, plan[('set', name)])
        object.__setattr__(self, name, value)

    def __delattr__(self, name):
        LOG.append(('obj', id(self), name, 'delattr', ()))
        plan = T(self, 'plan')
        if ('set', name) in plan:
            return _act(self, name, plan[('set', name)])
        object.__delattr__(self, name)


def _act(self, name, what):
    kind, value = what
    if kind == 'raise':
        raise value
    if kind == 'self':
        return self
    return value


def _method(name, default):
    def method(self, *args):
        LOG.append(('obj', id(self), name, 'op', args))
        plan = T(self, 'plan')
        what = plan.get(name)
        if name in ('__next__', '__getitem__'):
            plan['left'] = plan.get('left', 12) - 1
            if plan['left'] < 0:
                # endless loops are of no use to anyone
                raise StopIteration if name == '__next__' else IndexError
        if what is None:
            return default(self) if callable(default) else default
        return _act(self, name, what)
    method.__name__ = name
    return method


class _Fresh:
    pass


def fresh(self):
    return Plain('result')


DEFAULTS = {
    '__len__': 3, '__contains__': True, '__bool__': True, '__hash__': 7,
    '__int__': 5, '__float__': 2.5, '__index__': 4, '__complex__': 1j,
    '__str__': 'spy-str', '__repr__': 'spy-repr', '__bytes__': b'b',
    '__setitem__': None, '__delitem__': None, '__format__': 'fmt',
    '__length_hint__': 2, '__sizeof__': 99, '__round__': 6, '__trunc__': 6,
    '__floor__': 6, '__ceil__': 6, '__fspath__': '/nonexistent-spy',
    '__dir__': lambda self: ['spy'],
    '__exit__': None,
    '__iter__': lambda self: iter([1, 2]),
}
DUNDERS = (
    ['__call__', '__getitem__', '__setitem__', '__delitem__', '__contains__',
     '__len__', '__iter__', '__next__', '__int__', '__float__', '__index__',
     '__complex__', '__str__', '__repr__', '__bool__', '__hash__',
     '__length_hint__', '__bytes__', '__format__', '__sizeof__', '__round__',
     '__trunc__', '__floor__', '__ceil__', '__fspath__', '__dir__',
     '__enter__', '__exit__', '__reversed__', '__matmul__', '__rmatmul__',
     '__imatmul__', '__await__', '__aiter__', '__anext__', '__missing__',
     '__reduce__', '__reduce_ex__', '__copy__', '__deepcopy__',
     '__getstate__', '__instancecheck__', '__subclasscheck__',
     '__get__', '__set_name__', '__buffer__', '__class_getitem__',
     '__conform__', '__adapt__', '__int_ceil__']
    + ['__%s__' % n for n in UNARY]
    + ['__%s__' % n for n in BINARY]
    + ['__r%s__' % n for n in BINARY]
    + ['__i%s__' % n for n in BINARY if n != 'divmod']
    + ['__%s__' % n for n in common.COMPARE]
)
DUNDERS.remove('__conform__')
DUNDERS.remove('__int_ceil__')


_full = None
_limited = {}


def make_class(names):
    ns = {'__module__': 'spies'}
    for name in names:
        default = DEFAULTS.get(name, fresh)
        if name == '__reduce_ex__' or name == '__reduce__':
            default = lambda self: 'spy'    # noqa
        if name == '__hash__':
            ns[name] = _method(name, 7)
            continue
        ns[name] = _method(name, default)
    if '__eq__' in ns and '__hash__' not in ns:
        ns['__hash__'] = object.__hash__
    return type('Spy', (_Base,), ns)


def full_class():
    global _full
    if _full is None:
        _full = make_class(DUNDERS)
    return _full


def make_spy(cls, plan=None):
    spy = object.__new__(cls)
    object.__setattr__(spy, 'plan', plan if plan is not None else {})
    return spy


def plan_of(spy):
    return T(spy, 'plan')


# -- checkers that log --------------------------------------------------------

class Book:
    """What is granted at the moment: read and written by the test."""

    def __init__(self):
        self.read = set()
        self.write = set()
        self.exc = None         # exception factory for refusals
        self.refused = None     # the last exception that was raised
        self.mode = 'identity'
        self.made = []          # (raw result, what we made of it)

    def decide(self, kind, obj, name):
        ok = name in (self.write if kind == 'set' else self.read)
        LOG.append(('check', id(obj), name, kind, ok))
        if not ok:
            self.refused = self.exc(obj, name)
            raise self.refused

    def result(self, checker, value):
        LOG.append(('proxy', id(value), None, None, ()))
        if self.mode == 'identity' or type(value) in (int, float, str):
            made = value
        elif self.mode == 'proxy':
            made = Proxy(value, checker)
        else:
            made = Plain('token')
        self.made.append((value, made))
        return made


class RecChecker:

    def __init__(self, book):
        self.book = book

    def check(self, object, name):
        self.book.decide('get', object, name)

    def check_getattr(self, object, name):
        self.book.decide('get', object, name)

    def check_setattr(self, object, name):
        self.book.decide('set', object, name)

    def proxy(self, value):
        return self.book.result(self, value)


class FastRecChecker(RecChecker):
    """Has the operator aliases that the C implementation prefers."""

    def __setitem__(self, object, name):
        self.book.decide('get', object, name)

    def __getitem__(self, value):
        return self.book.result(self, value)


class BookInteraction:
    """Grants the permissions that stand for the granted names."""

    def __init__(self, book):
        self.book = book
        self.participations = []

    def checkPermission(self, permission, object):
        kind, name = permission.split(':', 1)
        book = self.book
        ok = name in (book.write if kind == 'set' else book.read)
        LOG.append(('check', id(object), name, kind, ok))
        return ok


class Tables(dict):
    pass


def name_tables(names):
    return ({n: 'get:' + n for n in names}, {n: 'set:' + n for n in names})
