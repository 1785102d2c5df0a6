"""Run the cases of one check in one configuration.

worker.py PARAMS.json: see run.py for the parameters.
"""
import contextlib
import faulthandler
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


class ExtFinder(importlib.abc.MetaPathFinder):
    """Find the C extensions where we have built them, and nowhere else."""

    NAMES = ('zope.security._proxy', 'zope.security._zope_security_checker')

    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            loader = importlib.machinery.ExtensionFileLoader(
                name, self.paths[name])
            return importlib.util.spec_from_file_location(
                name, self.paths[name], loader=loader)
        if name in self.NAMES:
            raise ImportError('no C extensions in this configuration', name=name)
        return None


class Ctx:
    MAX_FAILURES = 12

    def __init__(self, params):
        self.check = params['check']
        self.config = params['config']
        self.base = self.config.split('/')[0]
        self.pure = self.base.startswith('pure')
        self.watch = 'watch' in self.base
        self.tier = params['tier']
        self.thorough = self.tier == 'thorough'
        self.seed = params['seed']
        self.shard = params['shard']
        self.nshards = params['nshards']
        self.only = params.get('only')          # [phase, case] to replay
        self.scratch = params['scratch']
        self.params = params
        self.t0 = time.monotonic()
        self.evals = 0
        self.sigs = set()
        self.counts = {}
        self.samples = []
        self.failures = []
        self.fail_keys = {}
        self.known = {}
        self.notes = []
        self.where = None
        self.progress = params['out'] + '.progress'

    # -- cases --------------------------------------------------------------

    def rng(self, *key):
        return random.Random('%s|%s|%s' % (
            self.seed, self.check, '|'.join(map(str, key))))

    def cases(self, phase, quick, thorough=None, budget=None, same=False):
        """Yield (case number, rng), up to the number of cases of the tier.

        The cases depend only on the seed, the phase and the number, not on
        the configuration unless same is false.
        """
        if thorough is None:
            thorough = quick * 20
        n = thorough if self.thorough else quick
        if budget is None:
            budget = 25
        if self.thorough:
            budget *= 10
        t0 = time.monotonic()
        for i in range(n):
            if self.only is not None:
                if self.only[0] != phase or self.only[1] != i:
                    continue
            elif i % self.nshards != self.shard:
                continue
            if time.monotonic() - t0 > budget:
                self.count('phases_cut_short_by_time')
                self.note('%s: stopped after %d cases (time)' % (phase, i))
                break
            if sum(self.fail_keys.values()) >= 200 \
                    or len(self.fail_keys) >= self.MAX_FAILURES:
                break
            self.where = [phase, i]
            key = (phase, i) if same else (phase, i, self.base)
            yield i, self.rng(*key)
        self.where = None

    def mark(self):
        """Record where we are, in case the process dies."""
        with open(self.progress, 'w') as f:
            json.dump(self.where, f)

    # -- observations ---------------------------------------------------------

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, sig, nontrivial=True):
        """Count a case; sig is what makes it distinct."""
        self.evals += 1
        if nontrivial:
            self.sigs.add(hashlib.blake2b(
                repr(sig).encode('utf-8', 'surrogatepass'),
                digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(str(obj)[:600])

    def note(self, text):
        if len(self.notes) < 20:
            self.notes.append(text)

    def fail(self, key, message, detail=None):
        """Report a violation; key names the mechanism, not the case."""
        if key in self.params.get('known', ()):
            # does not end the search
            n = self.known.get(key, 0)
            self.known[key] = n + 1
        else:
            n = self.fail_keys.get(key, 0)
            self.fail_keys[key] = n + 1
        if n == 0:
            self.failures.append({
                'key': key, 'message': str(message)[:2000],
                'detail': str(detail)[:3000] if detail is not None else None,
                'where': self.where, 'config': self.config})

    @contextlib.contextmanager
    def case(self):
        """Run the body of a case."""
        try:
            yield
        except Exception as e:
            self.unexpected(e)

    def unexpected(self, exc):
        """An exception that escaped from a case."""
        tb = traceback.extract_tb(exc.__traceback__)
        key = 'unexpected-%s' % type(exc).__name__
        self.fail(key, 'unexpected %s: %s' % (type(exc).__name__, safe(exc)),
                  ''.join(traceback.format_list(tb[-8:])))

    def result(self):
        return {
            'config': self.config, 'shard': self.shard,
            'evals': self.evals, 'sigs': sorted(self.sigs),
            'counts': self.counts, 'samples': self.samples,
            'failures': self.failures, 'fail_keys': self.fail_keys,
            'notes': self.notes,
            'transcripts': getattr(self, 'transcripts', None),
            'wall': time.monotonic() - self.t0,
        }


def safe(obj):
    try:
        return str(obj)[:800]
    except Exception as e:   # noqa
        return '<%s without str: %s>' % (type(obj).__name__, type(e).__name__)


def main():
    with open(sys.argv[1]) as f:
        params = json.load(f)
    faulthandler.enable()
    faulthandler.dump_traceback_later(
        max(params.get('timeout', 400) - 15, 5), exit=False)
    if REPO != '/repo':
        # (only while the checks themselves are tried out)
        import zope
        zope.__path__ = [os.path.join(REPO, 'src', 'zope')] + [
            p for p in zope.__path__ if not p.startswith('/repo/')]
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    sys.setrecursionlimit(3000)
    if params['config'].split('/')[0] not in ('asan', 'vg'):
        import resource
        limit = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    finder = ExtFinder(params.get('ext') or {})
    sys.meta_path.insert(0, finder)
    import zope.security
    where = os.path.realpath(zope.security.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('zope.security comes from ' + where)
    import zope.security.checker
    import zope.security.proxy
    ctx = Ctx(params)
    cname = type(zope.security.proxy.Proxy).__name__
    import types
    is_c = not isinstance(
        zope.security.proxy.Proxy.__dict__.get('__new__'),
        (staticmethod, types.FunctionType))
    if is_c == ctx.pure:
        raise SystemExit('configuration %s has the wrong implementation: %s'
                         % (ctx.config, cname))
    mod = importlib.import_module(params['check'].lower())
    mod.run(ctx)
    with open(params['out'] + '.tmp', 'w') as f:
        json.dump(ctx.result(), f)
    os.replace(params['out'] + '.tmp', params['out'])


if __name__ == '__main__':
    main()
