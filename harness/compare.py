"""Comparison of the transcripts of several configurations."""


def finish(results, one, *others):
    failures, counts = [], {}
    for other in others:
        r = compare(results, one, other)
        failures += r['failures']
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    return {'failures': failures, 'counts': counts}


def compare(results, one, other):
    """Compare the transcripts of two configurations."""
    by = {}
    for r in results:
        by.setdefault(r['params']['config'], {}).update(
            r['result'].get('transcripts') or {})
    failures, compared = [], 0
    a, b = by.get(one, {}), by.get(other, {})
    seen = set()
    for key in sorted(set(a) & set(b), key=lambda k: len(a[k])):
        compared += 1
        x, y = a[key], b[key]
        if x == y:
            continue
        if 'STOPPED' in (x[-1:] + y[-1:]):
            # one of them could not go on (too deep a recursion)
            n = min(len(x) - (x[-1] == 'STOPPED'),
                    len(y) - (y[-1] == 'STOPPED'))
            # (what the last step did before it was stopped may differ)
            while n and not (x[n - 1][:1].isdigit() or x[n - 1][:1] == '='):
                n -= 1
            if x[:n] == y[:n]:
                continue
        i = 0
        while i < len(x) and i < len(y) and x[i] == y[i]:
            i += 1
        # the step during which they part
        j = min(i, len(x) - 1)
        while j > 0 and not x[j][:1].isdigit():
            j -= 1
        kind = x[j].split(' ', 1)[-1].split('(')[0] if x else 'nothing'
        k = 'differ-' + kind
        if k in seen:
            continue
        seen.add(k)
        phase, n = key.rsplit('/', 1)
        failures.append({
            'key': k, 'config': '%s+%s' % (one, other),
            'message': 'during %s: %s has %r, %s has %r' % (
                x[j:j + 1], one, x[i:i + 2], other, y[i:i + 2]),
            'detail': '%s:\n%s\n\n%s:\n%s' % (
                one, '\n'.join(x[max(0, j - 3):i + 4]), other,
                '\n'.join(y[max(0, j - 3):i + 4])),
            'where': [phase, int(n)]})
    return {'failures': failures, 'counts': {'compared': compared}}
