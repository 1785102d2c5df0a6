"""Driver: run.py PROPERTY [--replay FILE]

Builds the C extensions from /repo's working tree, runs the check of the
property in its configurations, merges what the workers observed into
/verif/evidence/PROPERTY.json, and reports.

Exit status: 0 held on everything explored, 1 violated (with a VIOLATION
line), 2 error or inconclusive.
"""
import concurrent.futures
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402
import compare  # noqa: E402
from spec import SPECS  # noqa: E402

CONFIG_ENV = {
    'c': {},
    'pure': {'PURE_PYTHON': '1'},
    'watch': {'ZOPE_WATCH_CHECKERS': '1'},
    'watch2': {'ZOPE_WATCH_CHECKERS': '2'},
    'purewatch': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '1'},
    'purewatch2': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '2'},
    'asan': {},
    'vg': {},
    'dbg': {'PYTHONMALLOC': 'debug'},
}
FLAVOUR = {'asan': 'asan', 'vg': 'debug'}


def command(config, scratch):
    env = build.clean_env(
        **{k: v for k, v in CONFIG_ENV[config].items()})
    env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    cmd = [build.PY, '-B', '-X', 'faulthandler']
    if config == 'asan':
        env['LD_PRELOAD'] = ' '.join(
            subprocess.run(['gcc', '-print-file-name=' + n],
                           stdout=subprocess.PIPE, text=True).stdout.strip()
            for n in ('libasan.so', 'libubsan.so'))
        env['ASAN_OPTIONS'] = (
            'detect_leaks=0:abort_on_error=1:halt_on_error=1:'
            'handle_segv=1:allocator_may_return_null=1:log_path=%s/asan'
            % scratch)
        env['UBSAN_OPTIONS'] = (
            'halt_on_error=1:abort_on_error=1:print_stacktrace=1:'
            'log_path=%s/asan' % scratch)
        env['PYTHONMALLOC'] = 'malloc'
        cmd = [build.PY, '-B']
    elif config == 'vg':
        env['PYTHONMALLOC'] = 'malloc'
        cmd = ['valgrind', '--quiet', '--tool=memcheck', '--error-limit=no',
               '--undef-value-errors=no', '--leak-check=no', '--num-callers=14',
               '--error-exitcode=0', '--log-file=%s/vg.%%p' % scratch,
               '--suppressions=' + os.path.join(HERE, 'vg.supp'),
               build.PY, '-B']
    return cmd, env


def run_worker(params, timeout):
    config = params['config'].split('/')[0]
    wscratch = params['scratch']
    os.makedirs(wscratch)
    pfile = os.path.join(wscratch, 'params.json')
    params['out'] = os.path.join(wscratch, 'out.json')
    with open(pfile, 'w') as f:
        json.dump(params, f)
    cmd, env = command(config, wscratch)
    env['VERIF_REPO'] = build.REPO
    env['PYTHONHASHSEED'] = str(params['seed'] % 4294967296)
    cmd = cmd + [os.path.join(HERE, 'worker.py'), pfile]
    outname = os.path.join(wscratch, 'stdout')
    errname = os.path.join(wscratch, 'stderr')
    with open(outname, 'w') as fo, open(errname, 'w') as fe:
        proc = subprocess.Popen(cmd, env=env, cwd=wscratch, stdout=fo,
                                stderr=fe, stdin=subprocess.DEVNULL,
                                start_new_session=True)
        try:
            rc = proc.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
            rc = 'timeout'

    def tail(name, n=3000):
        try:
            with open(name, errors='replace') as f:
                return f.read()[-n:]
        except OSError:
            return ''

    reports = []
    for name in sorted(os.listdir(wscratch)):
        if name.startswith(('asan', 'vg.')):
            text = tail(os.path.join(wscratch, name), 20000)
            if text.strip():
                reports.append(text)
    res = {'params': params, 'rc': rc, 'stderr': tail(errname),
           'reports': reports, 'result': None, 'progress': None}
    try:
        with open(params['out']) as f:
            res['result'] = json.load(f)
    except (OSError, ValueError):
        pass
    try:
        with open(params['out'] + '.progress') as f:
            res['progress'] = json.load(f)
    except (OSError, ValueError):
        pass
    return res


def main(argv):
    prop = argv[0]
    spec = SPECS[prop]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.monotonic()
    only = None
    configs = spec['configs']
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        seed, tier = replay['seed'], replay['tier']
        only = replay['where']
        configs = {c: 1 for c in replay['config'].split('+')}
    if tier == 'thorough' and only is None:
        configs = spec.get('thorough_configs', configs)

    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check(prop, spec, tier, seed, configs, only, scratch, t0)
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, spec, tier, seed, configs, only, scratch, t0):
    flavours = {FLAVOUR.get(c.split('/')[0], 'plain') for c in configs
                if not c.startswith('pure')}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        exts = dict(zip(flavours, ex.map(
            lambda fl: build.build(scratch, fl), flavours)))
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        known = {e['key']: e for e in json.load(f)['findings']
                 if e['property'] == prop}
    jobs = []
    for config, shards in configs.items():
        base = config.split('/')[0]
        ext = None if base.startswith('pure') else \
            exts[FLAVOUR.get(base, 'plain')]
        if only is not None:
            shards = 1
        for shard in range(shards):
            jobs.append({
                'check': prop, 'config': config, 'tier': tier, 'seed': seed,
                'shard': shard, 'nshards': shards, 'ext': ext, 'only': only,
                'known': sorted(known), 'timeout': spec.get('timeout', {}).get(
                    tier, 400 if tier == 'quick' else 3000),
                'scratch': os.path.join(scratch, 'w-%s-%d' % (
                    config.replace('/', '_'), shard)),
            })
    timeout = spec.get('timeout', {}).get(
        tier, 400 if tier == 'quick' else 3000)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda p: run_worker(p, timeout), jobs))

    errors, failures = [], []
    evals, sigs, counts, samples, notes = 0, set(), {}, [], []
    for res in results:
        p, r = res['params'], res['result']
        tag = '%s shard %s' % (p['config'], p['shard'])
        for rep in res['reports']:
            failures.append({
                'key': 'sanitizer-report', 'config': p['config'],
                'message': 'sanitizer report in ' + tag,
                'detail': rep[:6000], 'where': res['progress']})
        if r is None:
            if res['rc'] == 'timeout':
                errors.append('%s: timeout after %ss at %s\n%s' % (
                    tag, timeout, res['progress'], res['stderr']))
            elif isinstance(res['rc'], int) and res['rc'] < 0:
                if -res['rc'] in (signal.SIGKILL, signal.SIGTERM,
                                  signal.SIGINT):
                    errors.append('%s: killed by signal %d'
                                  % (tag, -res['rc']))
                else:
                    failures.append({
                        'key': 'crash', 'config': p['config'],
                        'message': 'the interpreter died by signal %d in %s'
                        % (-res['rc'], tag),
                        'detail': res['stderr'], 'where': res['progress']})
            else:
                errors.append('%s: exit status %s\n%s'
                              % (tag, res['rc'], res['stderr']))
            continue
        if isinstance(res['rc'], int) and res['rc'] < 0 and \
                -res['rc'] not in (signal.SIGKILL, signal.SIGTERM):
            failures.append({
                'key': 'crash-at-exit', 'config': p['config'],
                'message': 'the interpreter died by signal %d when it ended '
                'in %s' % (-res['rc'], tag),
                'detail': res['stderr'], 'where': None})
        elif res['rc'] != 0:
            errors.append('%s: exit status %s\n%s'
                          % (tag, res['rc'], res['stderr']))
        evals += r['evals']
        sigs.update(r['sigs'])
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        if len(samples) < 6:
            samples.extend('[%s] %s' % (p['config'], s)
                           for s in r['samples'][:2])
        notes.extend('[%s] %s' % (tag, n) for n in r['notes'])
        failures.extend(r['failures'])
    finish = spec.get('finish')
    if finish is not None and not errors:
        extra = compare.finish(
            [r for r in results if r['result'] is not None], *finish)
        failures.extend(extra['failures'])
        for k, v in extra['counts'].items():
            counts[k] = counts.get(k, 0) + v

    known_seen, new = [], []
    for fl in failures:
        if fl['key'] in known:
            if fl['key'] not in known_seen:
                known_seen.append(fl['key'])
        else:
            new.append(fl)

    inconclusive = []
    if only is None and not new:
        for k, v in spec.get('need', {}).items():
            if counts.get(k, 0) < v:
                inconclusive.append('monitor counter %s is %d, expected at '
                                    'least %d' % (k, counts.get(k, 0), v))

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(sigs),
            'rule': spec['rule'],
            'samples': samples or ['(none)'],
            'configurations': {c: s for c, s in configs.items()},
            'observed': dict(sorted(counts.items())),
            'notes': notes[:20],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(new),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        os.replace(path + '.tmp', path)

    for key in known_seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]['what']))
    for e in errors:
        print('ERROR: %s' % e)
    print('%s %s seed=%s: %d evaluations, %d distinct non-trivial, %.1f s'
          % (prop, tier, seed, evals, len(sigs), time.monotonic() - t0))
    print('  observed: ' + ', '.join(
        '%s=%s' % kv for kv in sorted(counts.items())))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for fl in new:
            k = (fl['key'], fl['config'])
            if k in seen or len(seen) > 15:
                continue
            seen.add(k)
            name = '%s-%s-%s.json' % (prop, fl['config'].replace('/', '_'),
                                      ''.join(c if c.isalnum() else '_'
                                              for c in fl['key'])[:60])
            path = os.path.join(VERIF, 'replays', name)
            with open(path, 'w') as f:
                json.dump(dict(fl, property=prop, seed=seed, tier=tier), f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s: %s' % (fl['config'], fl['key'], fl['message']))
            if fl.get('detail'):
                print('    ' + fl['detail'][:1500].replace('\n', '\n    '))
        return 1
    if errors:
        return 2
    if inconclusive:
        for i in inconclusive:
            print('INCONCLUSIVE: ' + i)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
