"""P01: every operation is checked first, under its own name."""
import copy
import itertools
import json
import math
import operator
import pickle

from common import *  # noqa
import spies
from spies import *  # noqa

ATTRS = ['a', 'b', 'foo', '_priv', '__odd__', '__len__', '__getitem__',
         '__call__', 'x' * 70, '\u00e9', '__class__', '__iter__', '__doc__',
         '__add__', '__hash__', '__dict__', '__module__', '__name__',
         '__reduce__', '__reduce_ex__', '__init__', '__setattr__',
         '__eq__', '__bool__', '__repr__', '__getattribute__', '__next__']
# The Python implementation answers these from its own class, or not at all.
PURE_SKIP = {'__class__', '__dict__',
             '__init__', '__setattr__', '__eq__', '__bool__', '__repr__',
             '__getattribute__', '__hash__', '__getattr__', '__new__',
             '__delattr__', '__str__', '__ne__', '__lt__', '__le__', '__gt__',
             '__ge__', '__weakref__', '_wrapped', '_checker', '__del__',
             '__init_subclass__', '__subclasshook__', '__sizeof__',
             '__format__', '__dir__', '__getstate__', '__static_attributes__',
             '__firstlineno__', '__abstractmethods__', '__cmp__', '__length_hint__'}


class Op:
    def __init__(self, label, need, do, event, kind='get', result='proxied',
                 nargs=0, alts=()):
        self.label = label
        self.need = need        # name that must be granted
        self.do = do            # do(p, x, y)
        self.event = event      # special method that gets called
        self.kind = kind        # get or set
        self.result = result    # proxied, raw, none, text, inplace
        self.nargs = nargs
        self.alts = alts        # other special methods it may call


def build_ops(pure):
    ops = []

    def add(*args, **kw):
        ops.append(Op(*args, **kw))
    add('call0', '__call__', lambda p, x, y: p(), '__call__')
    add('call2', '__call__', lambda p, x, y: p(x, y), '__call__', nargs=2)
    add('getitem', '__getitem__', lambda p, x, y: p[x], '__getitem__', nargs=1)
    add('getitem-op', '__getitem__', lambda p, x, y: operator.getitem(p, x),
        '__getitem__', nargs=1)
    add('getitem-int', '__getitem__', lambda p, x, y: p[-3], '__getitem__')
    add('getslice', '__getitem__', lambda p, x, y: p[1:2], '__getitem__')
    add('setitem', '__setitem__', lambda p, x, y: operator.setitem(p, x, y),
        '__setitem__', result='none', nargs=2)
    add('setitem-int', '__setitem__',
        lambda p, x, y: operator.setitem(p, 2, y), '__setitem__',
        result='none')
    add('setslice', '__setitem__',
        lambda p, x, y: operator.setitem(p, slice(1, 2), y), '__setitem__',
        result='none')
    add('delitem', '__delitem__', lambda p, x, y: operator.delitem(p, x),
        '__delitem__', result='none', nargs=1)
    add('delitem-int', '__delitem__', lambda p, x, y: operator.delitem(p, 0),
        '__delitem__', result='none')
    add('delslice', '__delitem__',
        lambda p, x, y: operator.delitem(p, slice(0, 9)), '__delitem__',
        result='none')
    add('contains', '__contains__', lambda p, x, y: x in p, '__contains__',
        result='raw', nargs=1)
    add('not-contains', '__contains__',
        lambda p, x, y: not (x not in p), '__contains__', result='raw',
        nargs=1)
    add('len', '__len__', lambda p, x, y: len(p), '__len__', result='raw')
    add('iter', '__iter__', lambda p, x, y: iter(p), '__iter__')
    add('next', '__next__', lambda p, x, y: next(p), '__next__')
    add('int', '__int__', lambda p, x, y: int(p), '__int__', result='raw')
    add('float', '__float__', lambda p, x, y: float(p), '__float__',
        result='raw')
    add('index', '__index__', lambda p, x, y: operator.index(p), '__index__',
        result='raw')
    add('use-as-index', '__index__', lambda p, x, y: range(9)[p], '__index__',
        result='raw')
    add('hex', '__index__', lambda p, x, y: int(hex(p), 16), '__index__',
        result='raw')
    add('str', '__str__', lambda p, x, y: str(p), '__str__', result='text')
    add('repr', '__repr__', lambda p, x, y: repr(p), '__repr__',
        result='text')
    add('format', '__str__', lambda p, x, y: '%s' % (p,), '__str__',
        result='text')
    add('fstring', '__repr__', lambda p, x, y: f'{p!r}', '__repr__',
        result='text')
    for n, f in UNARY.items():
        add(n, '__%s__' % n, lambda p, x, y, f=f: f(p), '__%s__' % n)
    for n, f in BINARY.items():
        add(n, '__%s__' % n, lambda p, x, y, f=f: f(p, x), '__%s__' % n,
            nargs=1)
        add('r' + n, '__r%s__' % n, lambda p, x, y, f=f: f(x, p),
            '__r%s__' % n, nargs=1)
    for n, f in INPLACE.items():
        add('i' + n, '__i%s__' % n, lambda p, x, y, f=f: f(p, x),
            '__i%s__' % n, result='inplace', nargs=1, alts=('__%s__' % n,))
    add('pow3', '__pow__', lambda p, x, y: pow(p, x, y), '__pow__', nargs=2)
    for name in ATTRS:
        if not (pure and name in PURE_SKIP):
            add('getattr', name, lambda p, x, y, n=name: getattr(p, n), name)
        if not (pure and name in ('_wrapped', '_checker')):
            add('setattr', name,
                lambda p, x, y, n=name: setattr(p, n, x), name, kind='set',
                result='none', nargs=1)
            add('delattr', name, lambda p, x, y, n=name: delattr(p, n), name,
                kind='set', result='none')
    return ops


def attr_ops(name, pure):
    ops = []
    if not (pure and name in PURE_SKIP):
        ops.append(Op('getattr', name, lambda p, x, y: getattr(p, name),
                      name))
    if not (pure and name in ('_wrapped', '_checker')):
        ops.append(Op('setattr', name, lambda p, x, y: setattr(p, name, x),
                      name, kind='set', result='none', nargs=1))
        ops.append(Op('delattr', name, lambda p, x, y: delattr(p, name),
                      name, kind='set', result='none'))
    return ops


ALL_NAMES = sorted(set(ATTRS) | set(DUNDERS) | {'__3pow__', '__rpow__'})


def make_checker(rng, book, names):
    """A checker that consults the book, of one of several kinds."""
    kind = rng.choice(['rec', 'rec', 'fast', 'fast', 'tables', 'tables',
                       'combined'])
    if kind == 'rec':
        return kind, RecChecker(book)
    if kind == 'fast':
        return kind, FastRecChecker(book)
    get, set_ = name_tables(names)
    if kind == 'combined' and rng.random() < .5:
        half_g = {n: p for n, p in get.items() if hash(n) % 2}
        half_s = {n: p for n, p in set_.items() if hash(n) % 3}
        rest_g = {n: p for n, p in get.items() if n not in half_g}
        rest_s = {n: p for n, p in set_.items() if n not in half_s}
        # Names that are always readable must be in the first one.
        return kind, Z.CombinedChecker(
            Z.Checker({**half_g, **{n: get[n] for n in ALWAYS_READABLE
                                    if n in get}}, half_s),
            Z.Checker(rest_g, rest_s))
    if kind == 'combined':
        return kind, Z.CombinedChecker(Z.Checker({}, {}), Z.Checker({
            **get}, set_)) if False else Z.CombinedChecker(
                Z.Checker(get, set_), Z.Checker({}, {}))
    return kind, Z.Checker(get, set_)


def exc_factory(rng, kind, text):
    def forbidden(obj, name):
        return ForbiddenAttribute(name, obj)

    def unauthorized(obj, name):
        return Unauthorized(obj, name, 'perm')

    def denied(obj, name):
        return Denied(name)

    def weird(obj, name):
        return rng.choice([KeyError, IndexError, ValueError, StopIteration,
                           LookupError, ZeroDivisionError])(name)
    if kind in ('rec', 'fast'):
        if text:
            return rng.choice([forbidden, unauthorized])
        return rng.choice([forbidden, unauthorized, denied, weird])
    return None


def random_plan(rng, op, pure, kind):
    """What the special method is going to do, and the expected outcome."""
    r = rng.random()
    if r < .15:
        e = rng.choice([Boom('boom'), ValueError('v'), AttributeError('attr'),
                        TypeError('t'), StopIteration(5), KeyError('k')])
        if pure and op.result == 'text':
            # the Python implementation has a fallback for errors
            return None
        if op.label == 'getattr' and pure and type(e) is AttributeError:
            e = Boom('boom')
        if op.label in ('getattr', 'iter') and op.need == '__iter__' \
                and kind in ('tables', 'combined') and op.label == 'getattr':
            # these look at it first
            return None
        return ('raise', e)
    if op.result == 'raw' or op.result == 'text' or op.result == 'none':
        return None
    if r < .35 and op.label != 'iter':
        return ('return', Plain('planned'))
    if r < .45:
        return ('self', None)
    if op.label == 'iter':
        return None
    if r < .5:
        return ('return', rng.choice([None, 17, 'text', 1.5, True]))
    if r < .58 and op.event.startswith('__') and op.nargs == 1 and (
            op.event[2:-2].lstrip('ri') in BINARY
            or op.event[2:-2] in BINARY):
        return ('return', NotImplemented)
    return None


def primitive(ctx, rng, ops):
    book = Book()
    spy = make_spy(full_class())
    kind, checker = make_checker(rng, book, ALL_NAMES)
    interaction = BookInteraction(book)
    set_interaction(interaction)
    p = Proxy(spy, checker)
    # 'proxy' and 'token' results only with recording checkers
    sid = id(spy)
    trace = []
    nops = rng.randrange(1, 14)
    for step in range(nops):
        if rng.random() < .12:
            name = random_name(rng)
            if not (kind in ('tables', 'combined')):
                cands = attr_ops(name, ctx.pure)
                op = rng.choice(cands) if cands else rng.choice(ops)
            else:
                op = rng.choice(ops)
        else:
            op = rng.choice(ops)
        grant = rng.random() < .6
        # Everything else may be granted or not: it must not matter.
        noise = rng.choice([0, .1, .5, .9, 1])
        book.read = {n for n in ALL_NAMES if rng.random() < noise}
        book.write = {n for n in ALL_NAMES if rng.random() < noise}
        book.read.discard(op.need)
        book.write.discard(op.need)
        other = book.write if op.kind == 'get' else book.read
        mine = book.read if op.kind == 'get' else book.write
        if rng.random() < .5:
            other.add(op.need)
        if kind in ('tables', 'combined') and op.kind == 'get' \
                and op.need in ALWAYS_READABLE:
            grant = True
        if grant:
            mine.add(op.need)
        book.exc = exc_factory(rng, kind, op.result == 'text')
        book.mode = rng.choice(['identity', 'proxy', 'token'])
        if op.label == 'iter':
            book.mode = 'identity'
        book.refused = None
        book.made = []
        plan = plan_of(spy)
        plan.clear()
        what = random_plan(rng, op, ctx.pure, kind)
        if op.label in ('setattr', 'delattr'):
            plan[('set', op.need)] = what or ('return', None)
            if what and what[0] != 'raise':
                what = None
                plan[('set', op.need)] = ('return', None)
        elif op.label == 'getattr':
            if what is None or what[0] == 'self':
                what = ('return', Plain('attr'))
            plan[('get', op.need)] = what
        elif what is not None:
            plan[op.event] = what
            for a in op.alts:
                plan[a] = what
        x = rng.choice([Plain('x'), 3, 'str', (1, 2), None, 2.0])
        y = rng.choice([Plain('y'), 5, None if op.label != 'pow3' else 7])
        if op.label.startswith('r') and op.nargs == 1:
            # the left operand must decline
            x = rng.choice([Plain('x'), 3, None, object()])
            if op.label == 'rmod':
                x = Plain('x')
        del LOG[:]
        how, value = outcome(op.do, p, x, y)
        log = list(LOG)
        trace.append((op.label, op.need, grant, how))
        judge(ctx, op, kind, grant, how, value, log, sid, spy, p, x, y, what,
              book)
        ctx.count('operations')
        ctx.count('granted' if grant else 'refused')
        ctx.count('events', len(log))
        ctx.seen((op.label, op.need, kind, grant, how, book.mode,
                  what and what[0]), True)
    ctx.sample((kind, trace))
    clear_interaction()


def judge(ctx, op, kind, grant, how, value, log, sid, spy, p, x, y, what,
          book):
    tag = '%s(%s)' % (op.label, op.need[:40])
    if ctx.watch:
        # the log of decisions shows the object
        log = [e for e in log if not (
            e[0] == 'obj' and e[2] == '__repr__' and e[3] == 'op')
            or (op.event == '__repr__' and op.kind == 'get')]
    checks = [e for e in log if e[0] == 'check']
    objs = [e for e in log if e[0] == 'obj' and e[1] == sid]

    def bad(key, msg):
        ctx.fail('%s-%s' % (key, op.label), '%s: %s [checker %s]'
                 % (tag, msg, kind),
                 'log %r\noutcome %s %r' % (
                     [e[:4] for e in log], how, type(value)))

    if not checks:
        return bad('unchecked', 'the checker was not asked')
    for e in checks:
        if e[1] != sid:
            bad('wrong-object', 'the checker was asked about another object')
        if e[2] != op.need or e[3] != op.kind:
            bad('wrong-name', 'the checker was asked about %s %r'
                % (e[3], e[2]))
    peek = ('__iter__', '__getitem__') if kind in ('tables', 'combined') \
        else ()
    first_obj = next((i for i, e in enumerate(log)
                      if e[0] == 'obj' and e[1] == sid and not (
                          e[3] == 'getattr' and e[2] in peek
                          and op.label != 'getattr'
                          and op.need == '__iter__'
                      )), None)
    if op.need == '__iter__' and op.label == 'getattr' and peek:
        # looked at to decide about iteration: only the last one counts
        first_obj = max((i for i, e in enumerate(log)
                         if e[0] == 'obj' and e[1] == sid
                         and e[2] == '__iter__'), default=None)
    first_check = next(i for i, e in enumerate(log) if e[0] == 'check')
    if not grant:
        neutral = op.result == 'text'
        for e in objs:
            if ctx.watch and e[2:4] == ('__repr__', 'op'):
                continue
            if neutral and e[2] in ('__class__', '__name__', '__module__') \
                    and e[3] == 'getattr':
                continue
            if kind in ('tables', 'combined') and e[3] == 'getattr' \
                    and e[2] in ('__iter__', '__getitem__', '__class__'):
                # checkers look for these to decide about iteration
                continue
            return bad('touched', 'refused, but the object saw %r' % (e[2:4],))
        if neutral:
            if how != 'ok' or type(value) is not str:
                return bad('neutral', 'refused, and got %s %r' % (how, value))
            if 'spy-' in value:
                return bad('neutral-leak', 'refused, and got %r' % (value,))
        else:
            if how != 'raise':
                return bad('swallowed', 'refused, but it returned %r'
                           % (type(value),))
            if kind in ('rec', 'fast'):
                if value is not book.refused and not (
                        ctx.pure and type(value) is type(book.refused)):
                    return bad('exception', 'refused with %r, raised %r' % (
                        book.refused, value))
            elif type(value) is not Unauthorized:
                return bad('exception', 'raised %r' % (value,))
        return
    # granted
    if first_obj is None:
        return bad('not-done', 'granted, but the object was not asked to '
                   'do it: %s %r' % (how, value))
    if first_obj < first_check:
        return bad('late-check', 'the object was touched before the check')
    if op.label in ('getattr', 'setattr', 'delattr'):
        main = [e for e in objs if e[2] == op.need and e[3] == op.label]
        extra = [e for e in objs if e[2] != op.need]
        if op.label != 'getattr':
            extra += [e for e in objs if e[3] != op.label
                      and e[2] == op.need]
    else:
        main = [e for e in objs if e[2] == op.event and e[3] == 'op']
        extra = [e for e in objs if not (
            e[3] == 'op' and (e[2] == op.event or e[2] in op.alts))]
        extra = [e for e in extra if not (
            e[3] == 'getattr' and e[2] == op.event)]
        if op.result == 'inplace' or op.label in BINARY or (
                op.label.startswith('r') and op.label[1:] in BINARY):
            # Python may go on to the other variants if one declines
            if what is not None and what[1] is NotImplemented:
                extra = []
    if kind in ('tables', 'combined'):
        extra = [e for e in extra if not (
            e[3] == 'getattr' and e[2] in ('__iter__', '__getitem__'))]
    if what is not None and what[0] == 'self':
        # it is looked at to choose the checker of the result
        extra = [e for e in extra if not (e[3] == 'getattr' and e[2] in (
            '__class__', '__Security_checker__'))]
    if not main:
        return bad('not-done', 'granted, but the object only saw %r' % (
            [e[2:4] for e in objs],))
    if len(main) > 1 and not (op.need == '__iter__' and peek) and not (
            what is not None and (
            what[1] is NotImplemented or isinstance(
                what[1], AttributeError))):
        bad('repeated', 'done %d times' % len(main))
    if extra:
        bad('extra', 'the object also saw %r' % ([e[2:4] for e in extra],))
    args = main[0][4]
    want = None
    if op.label == 'call2' or op.label == 'setitem':
        want = (x, y)
    elif op.label == 'pow3':
        want = (x, y) if y is not None else (x,)
    elif op.nargs == 1 and op.label not in ('getattr', 'delattr'):
        want = (x,)
    if want is not None and not (
            len(args) == len(want)
            and all(a is b for a, b in zip(args, want))):
        if not (op.label == 'pow3' and args[:1] == want[:1]):
            bad('arguments', 'the object got %r' % (args,))
    if op.label == 'getslice' and args != (slice(1, 2),) \
            or op.label == 'delslice' and args != (slice(0, 9),) \
            or op.label == 'setslice' and args[0] != slice(1, 2) \
            or op.label == 'getitem-int' and args != (-3,) \
            or op.label == 'setitem-int' and args[0] != 2 \
            or op.label == 'delitem-int' and args != (0,):
        bad('arguments', 'the object got %r' % (args,))
    # the outcome
    if what is not None and what[0] == 'raise':
        if how != 'raise':
            return bad('result', 'the object raised %r, the proxy gave %r'
                       % (what[1], value))
        if value is not what[1] and not ctx.pure:
            if op.label == 'next' and type(value) is type(what[1]):
                return
            return bad('result', 'the object raised %r, the proxy %r'
                       % (what[1], value))
        if ctx.pure and type(value) is not type(what[1]):
            return bad('result', 'the object raised %r, the proxy %r'
                       % (what[1], value))
        return
    if what is not None and what[1] is NotImplemented:
        if op.label == 'getattr':
            pass
        elif how != 'raise' or type(value) is not TypeError:
            if op.need in ('__mul__', '__rmul__', '__imul__'):
                return          # repetition of the other operand
            if op.label not in ('call0',):
                return bad('result', 'the object declined, the proxy gave %r'
                           % (value,))
        else:
            return
    if how != 'ok':
        return bad('result', 'raised %r' % (value,))
    if op.result == 'none':
        if value is not None:
            bad('result', 'returned %r' % (value,))
        return
    if op.result == 'raw':
        exp = {'__contains__': True, '__len__': 3, '__int__': 5,
               '__float__': 2.5, '__index__': 4}[op.event]
        if value != exp or is_proxy(value):
            bad('result', 'returned %r' % (value,))
        return
    if op.result == 'text':
        if value != {'__str__': 'spy-str', '__repr__': 'spy-repr'}[op.event] \
                or type(value) is not str:
            bad('result', 'returned %r' % (value,))
        return
    if op.result == 'inplace' and what is not None and what[0] == 'self':
        if value is not p:
            bad('inplace', 'done in place, but returned %r' % (type(value),))
        return
    if kind in ('rec', 'fast'):
        hit = [made for raw, made in book.made if made is value]
        if not hit:
            return bad('unproxied', 'the result did not go through the '
                       'checker: %r' % (type(value),))
        if what is not None and what[0] == 'return':
            if not any(raw is what[1] for raw, made in book.made
                       if made is value):
                return bad('result', 'the result is not that of the object')
        if what is not None and what[0] == 'self':
            if not any(raw is spy for raw, made in book.made
                       if made is value):
                return bad('result', 'the result is not that of the object')
    else:
        raw = removeSecurityProxy(value)
        if what is not None and what[0] == 'return' and raw is not what[1]:
            return bad('result', 'the result is not that of the object')
        if isinstance(raw, Plain) and not is_proxy(value):
            return bad('unproxied', 'the result is %r' % (type(value),))


# -- composite operations -----------------------------------------------------

# event on the object -> the names of which one must have been granted
GRANTS = {n: {n} for n in DUNDERS}
for _n in BINARY:
    GRANTS['__%s__' % _n] |= {'__i%s__' % _n}
GRANTS['__index__'] |= {'__int__', '__float__', '__complex__'}
GRANTS['__trunc__'] |= {'__int__'}
GRANTS['__float__'] |= {'__complex__'}
GRANTS['__complex__'] |= {'__complex__'}
GRANTS['__iter__'] |= {'__contains__'}
GRANTS['__next__'] |= {'__contains__'}
GRANTS['__getitem__'] |= {'__contains__', '__iter__', '__next__'}
GRANTS['__repr__'] |= {'__str__'}
GRANTS['__len__'] |= {'__iter__', '__contains__', '__getitem__', '__next__'}
for _n in BINARY:
    GRANTS['__index__'] |= {'__%s__' % _n, '__r%s__' % _n, '__i%s__' % _n}
GRANTS['__buffer__'] |= {'__float__', '__int__', '__complex__', '__bytes__',
                         '__contains__', '__getitem__'}
# Whoever may use these may do anything through them.
META = {'__getattribute__', '__dir__', '__reduce__', '__reduce_ex__',
        '__format__', '__setattr__', '__delattr__', '__getstate__',
        '__sizeof__', '__init__', '__dict__', '__getattr__',
        '__class_getitem__', '__init_subclass__', '__subclasshook__',
        '__new__', '__str__', '__subclasscheck__', '__instancecheck__'}
GRANTS['__pow__'] |= {'__3pow__'}
GRANTS['__rpow__'] |= {'__pow__'}
EXEMPT_EVENTS = {'__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
                 '__hash__', '__bool__', '__length_hint__'}
EXEMPT_ATTRS = {'__class__', '__length_hint__', '__Security_checker__',
                '__providedBy__', '__provides__', '__conform__',
                '__name__', '__module__', '__iter__', '__getitem__'}


def composites():
    import base64
    import collections
    import contextlib
    import copy
    import dataclasses
    import datetime
    import decimal
    import enum
    import fractions
    import functools
    import inspect
    import io
    import numbers
    import os
    import pprint
    import random
    import reprlib
    import statistics
    import string
    import struct
    import textwrap
    import threading
    import types
    import weakref

    def match_seq(p, x):
        match p:
            case [a, b]:
                return a, b
            case {'k': v}:
                return v
            case int(v):
                return v
            case Plain(tag=t):
                return t
            case _:
                return None

    def with_(p, x):
        with p as q:
            return q

    def star(p, x):
        a, *b = p
        return a, b

    def dstar(p, x):
        return dict(**p)

    def yieldfrom(p, x):
        def g():
            yield from p
        return list(itertools.islice(g(), 5))

    def loop(p, x):
        out = []
        for i in p:
            out.append(i)
            if len(out) > 4:
                break
        return out

    def raise_(p, x):
        raise p

    def except_(p, x):
        try:
            raise ValueError
        except p:
            return 1

    def assign_class(p, x):
        p.__class__ = Plain

    def decorate(p, x):
        @p
        def f():
            pass
        return f

    def await_(p, x):
        async def c():
            return await p
        co = c()
        try:
            co.send(None)
        finally:
            co.close()

    def afor(p, x):
        async def c():
            async for i in p:
                return i
        co = c()
        try:
            co.send(None)
        finally:
            co.close()

    def subclass(p, x):
        class S(p):
            pass
        return S

    return [
        lambda p, x: list(itertools.islice(p, 4)),
        lambda p, x: tuple(itertools.islice(iter(p), 4)),
        lambda p, x: dict(p), lambda p, x: dict(a=p),
        lambda p, x: sorted([p, p]), lambda p, x: sorted([p, x]),
        lambda p, x: max(p, p), lambda p, x: sum([p, p]),
        lambda p, x: sum([1, p]), lambda p, x: bytes(p),
        lambda p, x: bytearray(p), lambda p, x: memoryview(p),
        lambda p, x: complex(p), lambda p, x: complex(1, p),
        lambda p, x: int(p), lambda p, x: int('11', p),
        lambda p, x: round(p), lambda p, x: round(p, 1),
        lambda p, x: round(2.5, p), lambda p, x: math.floor(p),
        lambda p, x: math.ceil(p), lambda p, x: math.trunc(p),
        lambda p, x: math.sqrt(p), lambda p, x: math.gcd(p, 4),
        lambda p, x: math.fsum([p]), lambda p, x: math.factorial(p),
        lambda p, x: math.isqrt(p), lambda p, x: math.prod([p, 2]),
        lambda p, x: '%d' % p, lambda p, x: '%x' % p,
        lambda p, x: '%f' % p, lambda p, x: '%c' % p,
        lambda p, x: '%r %s' % (p, p), lambda p, x: '%a' % (p,),
        lambda p, x: '{}'.format(p), lambda p, x: '{0!r}'.format(p),
        lambda p, x: '{0.a}'.format(p), lambda p, x: '{0[a]}'.format(p),
        lambda p, x: '{:>9}'.format(p), lambda p, x: format(p, ''),
        lambda p, x: format(p), lambda p, x: ''.join(p),
        lambda p, x: 'a'.join([p]), lambda p, x: p.join(['a']),
        lambda p, x: [1, 2][p], lambda p, x: [1, 2, 3][p:],
        lambda p, x: range(p), lambda p, x: [0] * p, lambda p, x: p * [0],
        lambda p, x: 'ab' * p, lambda p, x: [0] + p, lambda p, x: p + [0],
        lambda p, x: (1,) + p, lambda p, x: [1].__add__(p),
        lambda p, x: [1].extend(itertools.islice(p, 2)),
        lambda p, x: {1}.union(itertools.islice(p, 2)),
        lambda p, x: {1} | p, lambda p, x: p | {1}, lambda p, x: {1} & p,
        lambda p, x: {1: 2} | p, lambda p, x: p | {1: 2},
        lambda p, x: x @ p, lambda p, x: p @ x,
        lambda p, x: operator.imatmul(p, x),
        lambda p, x: operator.concat(p, [1]),
        lambda p, x: operator.iconcat(p, [1]),
        lambda p, x: operator.countOf(itertools.islice(p, 2), 1),
        lambda p, x: operator.indexOf(p, 1) if False else None,
        lambda p, x: operator.contains(p, x),
        lambda p, x: operator.length_hint(p),
        lambda p, x: operator.methodcaller('foo', 1)(p),
        lambda p, x: operator.attrgetter('a.b')(p),
        lambda p, x: operator.itemgetter(1, 2)(p),
        lambda p, x: operator.call(p), lambda p, x: operator.truth(p),
        lambda p, x: operator.not_(p), lambda p, x: p is p,
        lambda p, x: pow(p, 2, 3), lambda p, x: pow(2, p),
        lambda p, x: pow(2, p, 5), lambda p, x: pow(2, 3, p),
        lambda p, x: divmod(7, p), lambda p, x: 1.5 / p,
        lambda p, x: 2 ** p, lambda p, x: 7 // p, lambda p, x: 7 % p,
        lambda p, x: 'a%sb' % p, lambda p, x: 1j * p,
        lambda p, x: decimal.Decimal(3) * p, lambda p, x: decimal.Decimal(p),
        lambda p, x: fractions.Fraction(p), lambda p, x: fractions.Fraction(
            1, 3) + p,
        lambda p, x: datetime.timedelta(1) * p,
        lambda p, x: datetime.datetime(2000, 1, p),
        lambda p, x: p < p, lambda p, x: p == x, lambda p, x: x != p,
        lambda p, x: hash(p), lambda p, x: bool(p), lambda p, x: {p: 1},
        lambda p, x: {p}, lambda p, x: p in [p], lambda p, x: [p].index(p),
        lambda p, x: 1 if p else 2, lambda p, x: p and x,
        lambda p, x: not p, lambda p, x: any([p]), lambda p, x: all([p]),
        lambda p, x: list(filter(None, [p])),
        lambda p, x: list(map(p, [1, 2])), lambda p, x: list(zip([1], p)),
        lambda p, x: list(itertools.islice(enumerate(p), 3)),
        lambda p, x: list(itertools.islice(reversed(p), 3)),
        lambda p, x: list(itertools.islice(map(str, p), 3)),
        lambda p, x: functools.reduce(p, [1, 2]),
        lambda p, x: functools.partial(p, 1)(),
        lambda p, x: sorted([2, 1], key=p), lambda p, x: [2, 1].sort(key=p),
        lambda p, x: next(p, None), lambda p, x: iter(p, 3),
        lambda p, x: next(iter(p, object())),
        lambda p, x: callable(p), lambda p, x: type(p),
        lambda p, x: isinstance(p, int), lambda p, x: isinstance(1, p),
        lambda p, x: issubclass(p, int), lambda p, x: issubclass(int, p),
        lambda p, x: isinstance(p, numbers.Number),
        lambda p, x: isinstance(p, collections.abc.Iterable),
        lambda p, x: isinstance(p, collections.abc.Mapping),
        lambda p, x: dir(p), lambda p, x: vars(p), lambda p, x: id(p),
        lambda p, x: hasattr(p, 'a'), lambda p, x: getattr(p, 'zzz', None),
        lambda p, x: p.foo, lambda p, x: p.foo(), lambda p, x: p.__len__(),
        lambda p, x: p.__class__, lambda p, x: p.__dict__,
        lambda p, x: p.__add__(1), lambda p, x: p.__getattribute__('a'),
        lambda p, x: p.__setattr__('a', 1), lambda p, x: p.__reduce__(),
        lambda p, x: p.__reduce_ex__(2), lambda p, x: p.__getstate__(),
        lambda p, x: p.__iter__(), lambda p, x: p.__next__(),
        lambda p, x: p.__sizeof__(), lambda p, x: p.__dir__(),
        lambda p, x: p.__format__(''), lambda p, x: p.__init__(1, 2),
        lambda p, x: p.__init_subclass__(), lambda p, x: p.__hash__(),
        lambda p, x: p.__eq__(x), lambda p, x: p.__bool__(),
        lambda p, x: object.__repr__(p), lambda p, x: object.__str__(p),
        lambda p, x: object.__format__(p, ''),
        lambda p, x: object.__dir__(p), lambda p, x: object.__sizeof__(p),
        lambda p, x: object.__reduce_ex__(p, 2),
        lambda p, x: object.__hash__(p), lambda p, x: object.__eq__(p, x),
        lambda p, x: object.__delattr__(p, 'a'),
        lambda p, x: object.__setattr__(p, 'a', 3),
        lambda p, x: object.__getattribute__(p, 'a'),
        lambda p, x: object.__init__(p),
        lambda p, x: type(p).__getattribute__(p, 'a'),
        lambda p, x: type(p).__setattr__(p, 'a', 1),
        lambda p, x: type(p).__call__(p), lambda p, x: type(p).__len__(p),
        lambda p, x: type(p).__getitem__(p, 1),
        lambda p, x: type(p).__add__(p, x),
        lambda p, x: type(p).__iter__(p), lambda p, x: type(p).__next__(p),
        lambda p, x: type(p).__str__(p), lambda p, x: type(p).__int__(p),
        lambda p, x: type(p).__index__(p),
        lambda p, x: type(p).__contains__(p, x),
        lambda p, x: type(p).__setitem__(p, 1, 2),
        lambda p, x: type(p).__delitem__(p, 1),
        lambda p, x: type(p).__delattr__(p, 'foo'),
        lambda p, x: type(p).__iadd__(p, 1),
        lambda p, x: type(p).__radd__(p, 1),
        lambda p, x: type(p).__rsub__(p, 1),
        lambda p, x: type(p).__pow__(p, 1, 2),
        lambda p, x: type(p).__rpow__(p, 2),
        lambda p, x: type(p).__reduce__(p),
        lambda p, x: type(p).__reduce_ex__(p, 2),
        lambda p, x: int.__add__(1, p), lambda p, x: list.__len__(p),
        lambda p, x: dict.__getitem__(p, 1), lambda p, x: str.join('', p),
        lambda p, x: copy.copy(p), lambda p, x: copy.deepcopy(p),
        lambda p, x: copy.deepcopy([p]),
        lambda p, x: pickle.dumps(p), lambda p, x: pickle.dumps(p, 0),
        lambda p, x: json.dumps(p), lambda p, x: json.dumps([p]),
        lambda p, x: pprint.pformat(p), lambda p, x: reprlib.repr(p),
        lambda p, x: inspect.getmembers(p), lambda p, x: inspect.getdoc(p),
        lambda p, x: inspect.signature(p), lambda p, x: inspect.isclass(p),
        lambda p, x: inspect.getmro(p), lambda p, x: inspect.unwrap(p),
        lambda p, x: os.fspath(p), lambda p, x: open(p),
        lambda p, x: os.path.join('/x', p), lambda p, x: io.StringIO(p),
        lambda p, x: io.BytesIO(p), lambda p, x: print(p, file=io.StringIO()),
        lambda p, x: struct.pack('i', p), lambda p, x: struct.pack('f', p),
        lambda p, x: base64.b64encode(p), lambda p, x: weakref.ref(p),
        lambda p, x: weakref.proxy(p), lambda p, x: threading.Thread(
            target=p).run(),
        lambda p, x: statistics.mean([p, p]),
        lambda p, x: random.Random(1).choice(p),
        lambda p, x: string.Template('$a').substitute(p),
        lambda p, x: collections.Counter(itertools.islice(p, 2)),
        lambda p, x: collections.ChainMap(p)['a'],
        lambda p, x: collections.OrderedDict(p),
        lambda p, x: collections.deque(itertools.islice(p, 2)),
        lambda p, x: collections.UserDict(p),
        lambda p, x: collections.UserList(itertools.islice(p, 2)),
        lambda p, x: types.SimpleNamespace(**p),
        lambda p, x: types.MethodType(p, 1)(),
        lambda p, x: property(p).fget, lambda p, x: classmethod(p),
        lambda p, x: dataclasses.fields(p),
        lambda p, x: dataclasses.asdict(p),
        lambda p, x: enum.Enum('E', p), lambda p, x: super(p, p),
        lambda p, x: type('T', (p,), {}), lambda p, x: type('T', (), p),
        lambda p, x: contextlib.closing(p).__exit__(None, None, None),
        lambda p, x: contextlib.ExitStack().enter_context(p),
        lambda p, x: textwrap.dedent(p), lambda p, x: exec(p),
        lambda p, x: eval(p), lambda p, x: eval('1', p),
        lambda p, x: eval('a', {}, p), lambda p, x: compile(p, 'f', 'exec'),
        lambda p, x: slice(p).indices(5), lambda p, x: slice(5).indices(p),
        lambda p, x: chr(p), lambda p, x: ord(p), lambda p, x: bin(p),
        lambda p, x: str(p, 'utf-8'), lambda p, x: str.encode(p),
        lambda p, x: bytes.fromhex(p), lambda p, x: 'abc'.startswith(p),
        lambda p, x: 'abc'.find(p), lambda p, x: 'abc'.replace('a', p),
        lambda p, x: 'abc'.translate(p), lambda p, x: str.maketrans(p),
        lambda p, x: {}.update(p), lambda p, x: {}.fromkeys(
            itertools.islice(p, 2)),
        lambda p, x: [1, 2].__setitem__(slice(0, 1), itertools.islice(p, 2)),
        lambda p, x: setattr(Plain(), p, 1), lambda p, x: getattr(
            Plain(), p),
        match_seq, with_, star, dstar, yieldfrom, loop, raise_, except_,
        assign_class, decorate, await_, afor, subclass,
        lambda p, x: print(*p, file=io.StringIO()),
        lambda p, x: (lambda *a, **k: a)(*itertools.islice(p, 2)),
        lambda p, x: (lambda **k: k)(**p),
        lambda p, x: [*itertools.islice(p, 3)],
        lambda p, x: {**p},
        lambda p, x: p[0], lambda p, x: p['a'], lambda p, x: p[1:2, ...],
        lambda p, x: len(p), lambda p, x: p(), lambda p, x: p(x, k=1),
        lambda p, x: str(p), lambda p, x: repr(p), lambda p, x: ascii(p),
    ]


def ungranted(ctx, log, sid, cls, kind):
    """(number of checks, what the object saw without permission)"""
    granted_get, granted_set = set(), set()
    always = ALWAYS_READABLE if kind in ('tables', 'combined') else ()
    if ctx.watch:
        always = ALWAYS_READABLE
    checks = 0
    bad = None
    for e in log:
        if e[0] == 'check' and e[1] == sid:
            checks += 1
            if e[4] and e[2] in META:
                break
            if e[4]:
                (granted_set if e[3] == 'set' else granted_get).add(e[2])
        elif e[0] == 'obj' and e[1] == sid:
            _, _, name, how_, args = e
            if how_ == 'getattr':
                ok = name in granted_get or name in EXEMPT_ATTRS or \
                    name in always \
                    or (name in GRANTS and GRANTS[name] & granted_get) \
                    or name in EXEMPT_EVENTS
                if not ok and name in ('keys',):
                    ok = False
            elif how_ in ('setattr', 'delattr'):
                ok = name in granted_set
            else:
                ok = name in EXEMPT_EVENTS or name in always or bool(
                    GRANTS.get(name, {name}) & granted_get)
                if not ok and name == '__len__' and not hasattr(
                        cls, '__bool__'):
                    ok = True       # truth value
                if not ok and name in ('__reduce__', '__reduce_ex__',
                                       '__getstate__', '__init__') and \
                        name in granted_get:
                    ok = True
                if not ok and name in ('__dir__', '__format__', '__sizeof__',
                                       '__get__') and name in granted_get:
                    ok = True
            if not ok:
                bad = (name, how_)
                break
    return checks, bad


def composite(ctx, rng, comps):
    """Any Python code: whatever the object sees must have been granted."""
    book = Book()
    if rng.random() < .5:
        cls = full_class()
    else:
        frac = rng.choice([.3, .6, .9])
        key = rng.randrange(12)
        if (key, frac) not in spies._limited:
            r = ctx.rng('class', key, frac)
            spies._limited[key, frac] = make_class(
                [n for n in DUNDERS if r.random() < frac])
        cls = spies._limited[key, frac]
    plan = {}
    spy = make_spy(cls, plan)
    # finite iteration
    kind, checker = make_checker(rng, book, ALL_NAMES + [
        'foo', 'join', 'k', 'keys', 'zzz', 'items'])
    set_interaction(BookInteraction(book))
    p = Proxy(spy, checker)
    sid = id(spy)
    noise = rng.choice([0, .2, .5, .8])
    names = ALL_NAMES + ['keys', 'items', 'join', 'zzz']
    book.read = {n for n in names if rng.random() < noise}
    book.write = {n for n in names if rng.random() < noise / 2}
    book.exc = exc_factory(rng, kind, True) or None
    book.mode = rng.choice(['identity', 'proxy'])
    count = [0]

    class Limit(Exception):
        pass
    for n in ('__next__', '__getitem__'):
        if rng.random() < .3:
            plan[n] = ('raise', IndexError(0) if n == '__getitem__'
                       else StopIteration())
    idx = rng.randrange(len(comps))
    f = comps[idx]
    x = rng.choice([Plain('x'), 3, [1], 'a'])
    del LOG[:]
    global _guard
    try:
        how, value = outcome(f, p, x)
    except RecursionError:
        how, value = 'raise', None
    log = list(LOG)
    clear_interaction()
    checks, bad = ungranted(ctx, log, sid, cls, kind)
    ctx.count('composite_runs')
    ctx.count('composite_checks', checks)
    nev = sum(1 for e in log if e[0] == 'obj' and e[1] == sid)
    ctx.count('composite_object_events', nev)
    ctx.seen(('composite', idx, kind, noise, how, nev > 0), checks > 0)
    if bad:
        ctx.fail('ungranted-%s-%s' % bad,
                 'operation %d reached the object with %s of %s, which had '
                 'not been granted [checker %s]' % (idx, bad[1], bad[0],
                                                    kind),
                 'code line %s\nlog %r' % (
                     f.__code__.co_firstlineno, [e[:5] for e in log][:60]))


# -- several proxies at once ------------------------------------------------------

class Books:
    """The interaction for several objects, each with its own book."""

    def __init__(self, books):
        self.books = books
        self.participations = []

    def checkPermission(self, permission, object):
        book = self.books.get(id(object))
        if book is None:
            return False
        return BookInteraction(book).checkPermission(permission, object)


def together():
    out = []
    for n, f in list(BINARY.items()) + list(COMPARE.items()):
        out += [lambda p, q, r, f=f: f(p, q)] * 2
        out.append(lambda p, q, r, f=f: f(p, f(q, r)))
    for n, f in INPLACE.items():
        out.append(lambda p, q, r, f=f: f(p, q))
    out += [
        lambda p, q, r: pow(p, q, r), lambda p, q, r: pow(p, q, 5),
        lambda p, q, r: pow(3, p, q), lambda p, q, r: pow(p, 3, q),
        lambda p, q, r: p[q], lambda p, q, r: p[q:r],
        lambda p, q, r: operator.setitem(p, q, r),
        lambda p, q, r: operator.delitem(p, q),
        lambda p, q, r: q in p, lambda p, q, r: p in [q, r],
        lambda p, q, r: p(q, r), lambda p, q, r: p(q, k=r),
        lambda p, q, r: p(*itertools.islice(q, 2)),
        lambda p, q, r: p.foo(q), lambda p, q, r: p.__add__(q),
        lambda p, q, r: p.__radd__(q), lambda p, q, r: p.__getitem__(q),
        lambda p, q, r: setattr(p, 'a', q), lambda p, q, r: sum([p, q, r]),
        lambda p, q, r: max(p, q), lambda p, q, r: sorted([p, q, r]),
        lambda p, q, r: list(zip(p, q)), lambda p, q, r: [*p, *q][:4],
        lambda p, q, r: range(p, q), lambda p, q, r: [1, 2, 3][p:q],
        lambda p, q, r: list(map(p, itertools.islice(q, 2))),
        lambda p, q, r: sorted(itertools.islice(q, 2), key=p),
        lambda p, q, r: '%s %r' % (p, q), lambda p, q, r: p % (q, r),
        lambda p, q, r: operator.concat(p, q),
        lambda p, q, r: operator.iconcat(p, q),
        lambda p, q, r: type(p).__sub__(p, q),
        lambda p, q, r: type(p).__rsub__(p, q),
        lambda p, q, r: {p: q}[r], lambda p, q, r: {p, q, r},
        lambda p, q, r: next(p, q), lambda p, q, r: next(iter(p), q),
        lambda p, q, r: complex(p, q), lambda p, q, r: round(p, q),
        lambda p, q, r: divmod(p, q), lambda p, q, r: p - (q - r),
        lambda p, q, r: (p - q) - r, lambda p, q, r: p < q < r,
        lambda p, q, r: isinstance(p, q), lambda p, q, r: getattr(p, q),
        lambda p, q, r: p if q else r,
    ]
    return out


REFLECTED = {'__r%s__' % n for n in BINARY} | {'__%s__' % n for n in COMPARE}


def several(ctx, rng, ops):
    """Each operand is protected by its own checker, and seen as a proxy."""
    worlds = []
    books = {}
    for i in range(3):
        book = Book()
        plan = {}
        spy = make_spy(full_class(), plan)
        kind, checker = make_checker(rng, book, ALL_NAMES)
        noise = rng.choice([0, .3, .7, 1])
        book.read = {n for n in ALL_NAMES if rng.random() < noise}
        book.write = {n for n in ALL_NAMES if rng.random() < noise}
        book.exc = exc_factory(rng, kind, True)
        book.mode = 'proxy'
        for n in list(BINARY):
            for pre in ('', 'r', 'i'):
                r = rng.random()
                if r < .5:
                    plan['__%s%s__' % (pre, n)] = ('return', NotImplemented)
                elif r < .6:
                    plan['__%s%s__' % (pre, n)] = ('self', None)
        for n in COMPARE:
            plan['__%s__' % n] = ('return', rng.choice(
                [NotImplemented, True, False]))
        books[id(spy)] = book
        worlds.append((spy, kind, Proxy(spy, checker)))
    set_interaction(Books(books))
    idx = rng.randrange(len(ops))
    order = rng.choice([(0, 1, 2), (0, 1, 1), (0, 0, 1), (0, 0, 0)])
    args = [worlds[i][2] for i in order]
    del LOG[:]
    try:
        how, value = outcome(ops[idx], *args)
    except RecursionError:
        how, value = 'raise', None
    log = list(LOG)
    clear_interaction()
    raw = {id(w[0]) for w in worlds}
    refused = 0
    for spy, kind, proxy in worlds:
        checks, bad = ungranted(ctx, log, id(spy), full_class(), kind)
        ctx.count('several_checks', checks)
        refused += any(e[0] == 'check' and e[1] == id(spy) and not e[4]
                       for e in log)
        if bad:
            ctx.fail('several-%s-%s' % bad,
                     'operation %d on %r reached an operand with %s of %s, '
                     'which had not been granted [checker %s]' % (
                         idx, order, bad[1], bad[0], kind),
                     'log %r' % ([e[:5] for e in log][:60],))
        reflected = set()
        for e in log:
            if e[0] == 'check' and e[4] and (
                    e[2] in REFLECTED or e[2] == '__3pow__'):
                # The whole operation is done anew with this operand bare.
                reflected.add(e[1])
            if e[0] == 'obj' and e[1] == id(spy) and e[3] == 'op' \
                    and e[2] not in REFLECTED \
                    and any(id(a) in raw - reflected for a in e[4]):
                ctx.fail('several-argument', 'operation %d on %r handed a '
                         'bare operand to %s' % (idx, order, e[2]),
                         'log %r' % ([x[:5] for x in log][:60],))
    ctx.count('several')
    ctx.seen(('several', idx, order, [w[1] for w in worlds], how, refused,
              len(log)), len(log) > 1)


# -- names that are not what they seem ------------------------------------------

class ShiftyName(str):
    """Looks like another name to whoever looks first."""
    when = 0

    def __new__(cls, shown, real, when):
        self = str.__new__(cls, real)
        self.shown = shown
        self.when = when
        self.looks = 0
        return self

    def _now(self):
        return self.shown if self.looks <= self.when else str.__str__(self)

    def __hash__(self):
        self.looks += 1
        return hash(self._now())

    def __eq__(self, other):
        return other == self._now()

    def __ne__(self, other):
        return other != self._now()


class StrName(ShiftyName):
    """Lies when converted, too."""

    def __str__(self):
        return self.shown

    __repr__ = __format__ = __getitem__ = __str__

    def startswith(self, x):
        return self.shown.startswith(x)

    def encode(self, *args):
        return self.shown.encode(*args)


class PlainName(str):
    pass


class Holder:
    def __init__(self, names):
        for n in names:
            setattr(self, n, 'value of ' + n)


class SlotHolder:
    __slots__ = ('a', 'b', 'foo', '__parent__', '_x', 'secret')

    __init__ = Holder.__init__


NAMES = ['a', 'b', 'foo', '__parent__', '_x', 'secret']


def shifty(ctx, rng):
    """Whatever the name is like, what is done is what was checked."""
    cls = rng.choice([Holder, SlotHolder])
    obj = cls(NAMES)
    read = set(rng.sample(NAMES, rng.randrange(4)))
    write = set(rng.sample(NAMES, rng.randrange(4)))
    tables = [dict.fromkeys(x, CheckerPublic) for x in (read, write)]
    kind = rng.randrange(4)
    if kind == 0:
        checker = Z.Checker(*tables)
    elif kind == 1:
        checker = Z.CombinedChecker(Z.Checker(*tables), Z.Checker({}))
    elif kind == 2:
        checker = Z.CombinedChecker(Z.Checker({}), Z.Checker(*tables))
    else:
        class C:
            def check_getattr(self, ob, name):
                if name not in read:
                    raise ForbiddenAttribute(name)

            def check_setattr(self, ob, name):
                if name not in write:
                    raise ForbiddenAttribute(name)

            check = check_getattr

            def proxy(self, value):
                return value
        checker = C()
    if kind != 3:
        read |= ALWAYS_READABLE
    proxy = Proxy(obj, checker)
    values = {n: getattr(obj, n) for n in NAMES}
    for i in range(rng.choice([1, 5, 20])):
        real = rng.choice(NAMES)
        shown = rng.choice(NAMES + ['__class__', '__hash__'])
        name = rng.choice([
            lambda: ShiftyName(shown, real, rng.randrange(8)),
            lambda: StrName(shown, real, rng.randrange(8)),
            lambda: StrName(shown, real, 99),
            lambda: PlainName(real), lambda: real,
            lambda: ''.join(real)])()
        what = rng.randrange(6)
        if what <= 2:
            f = [getattr, lambda p, n: type(p).__getattribute__(p, n),
                 lambda p, n: getattr(p, n, None)][what]
            how, x = outcome(f, proxy, name)
            if how == 'ok' and x is not None \
                    and x not in [values[n] for n in read & set(NAMES)]:
                ctx.fail('name-read', '%r could be read as %r, granted %r'
                         % (real, x, sorted(read)))
            if how == 'ok' and type(name) in (str, PlainName) \
                    and (x is None) != (real not in read):
                ctx.fail('name-plain', 'reading %r gave %r, granted %r' % (
                    real, x, sorted(read)))
        elif what <= 4:
            value = 'new %d' % i
            if what == 3:
                how, x = outcome(setattr, proxy, name, value)
            else:
                how, x = outcome(type(proxy).__setattr__, proxy, name, value)
            for n in NAMES:
                got = getattr(obj, n, None)
                if got != values[n] and n not in write:
                    ctx.fail('name-write', '%r could be set as %r' % (n, real))
                values[n] = got
            extra = set(getattr(obj, '__dict__', ())) - set(NAMES)
            if extra:
                ctx.fail('name-write', '%r was set' % extra)
        else:
            how, x = outcome(delattr, proxy, name)
            for n in NAMES:
                if not hasattr(obj, n):
                    if n not in write:
                        ctx.fail('name-delete', '%r could be deleted' % n)
                    setattr(obj, n, values[n])
        ctx.count('shifty_names')
        ctx.seen(('name', type(name).__name__, kind, what, how,
                  real in read, shown in read, real in write,
                  shown in write))


def run(ctx):
    ops = build_ops(ctx.pure)
    for i, rng in ctx.cases('primitive', 18000, 300000, budget=60):
        with ctx.case():
            primitive(ctx, rng, ops)
    comps = composites()
    for i, rng in ctx.cases('composite', 45000, 600000, budget=60):
        with ctx.case():
            composite(ctx, rng, comps)
    ops = together()
    for i, rng in ctx.cases('several', 20000, 300000, budget=30):
        with ctx.case():
            several(ctx, rng, ops)
    for i, rng in ctx.cases('names', 6000, 120000, budget=20):
        with ctx.case():
            shifty(ctx, rng)
