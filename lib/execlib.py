"""Expected observations of a behaviour of Execute.tla, and their comparison with a replay."""

EXC = {'err': 'KernelError', 'oob': 'OutOfBoundsError', 'surf': 'ThroughSurfaceError', 'text': 'OutOfTimeError'}
DEFAULTS = dict(MaxP=2, Rels='{0}', Dts='{1}', Spans='{4}', Modes='{"run"}', Outs='{0}', OnDel='{FALSE}', Cbs='{0}',
                Reps='{0}', Outcomes='{"ok"}', ScriptLens='{0}', RecModes='{"skip"}', MaxCalls=1, Emit='FALSE')
INVS = ['TypeOK', 'StepsInside', 'StepsAbut', 'RolledBack', 'ReachesEnd', 'Interrupted', 'OncePerParticle',
        'UniqueIds', 'ReleaseSchedule', 'WritesOrdered']


def consts(**kw):
    c = dict(DEFAULTS)
    for k in kw:
        assert k in c, k
    c.update(kw)
    return c


def expected(b):
    """Per-particle sequences (attempts and recovery calls), callback snapshots per call, final set, file rows."""
    per, cbs, out, ncalls = {}, [], {}, 0
    cur = []
    exc = None
    lab = {}
    nid = len(b['sc']['parts'])
    for i in range(nid):
        lab[i] = i
    for e in b['log']:
        k = e['e']
        if k == 'call':
            ncalls += 1
            cur = []
            cbs.append(cur)
        elif k == 'att':
            per.setdefault(e['id'], []).append(['att', e['t'], e['h'], e['k'], e['x']])
        elif k == 'rec':
            per.setdefault(e['id'], []).append(['rec', e['t'], e['err'], e['k'], e['x']])
        elif k == 'cb':
            cur.append(sorted([r['id'], r['t'], r['x']] for r in e['rows']))
        elif k == 'rel':
            for q in range(e['n']):
                lab[nid + q] = q
            nid += e['n']
        elif k == 'exc':
            exc = EXC[e['err']]
        if k == 'wr' or (k == 'del' and e['wrote']):
            for r in e['rows']:
                out.setdefault(r['id'], []).append([r['t'], r['x']])
    final = sorted([p['id'], p['t'], p['k'], p['x'], 9. + p['lab']] for p in b['final'])
    return dict(per=per, cbs=cbs, out=out, ncalls=ncalls, exc=exc, final=final, lab=lab)


def scenario(b, mode, scale, off, raising=False, f32=False):
    e = expected(b)
    return dict(sc=b['sc'], mode=mode, scale=scale, off=off, raising=raising, f32=f32, ncalls=e['ncalls'],
                log=b['log'], final=b['final'])


def judge(s, r, what=('att', 'cb', 'final', 'out')):
    e = expected(s)
    if 'exc' in r:
        return 'unexpected exception %s\n%s' % (r['exc'], r.get('tb', '')[-400:])
    o = r['ok']
    per, cbs, exc = {}, [], None
    cur = None
    for v in o['ev']:
        if v[0] == 'call':
            cur = []
            cbs.append(cur)
        elif v[0] == 'att':
            per.setdefault(v[1], []).append(['att'] + v[2:])
        elif v[0] == 'rec':
            per.setdefault(v[1], []).append(['rec'] + v[2:])
        elif v[0] == 'cb':
            cur.append(sorted([x[0], x[1], x[3]] for x in v[1]))
        elif v[0] == 'exc':
            exc = v[1]
    if exc != e['exc']:
        return 'exception %s instead of %s' % (exc, e['exc'])
    if exc is None or True:
        for i in sorted(set(per) | set(e['per'])):
            a, w = per.get(i, []), e['per'].get(i, [])
            if exc is not None:
                # which other particles had been advanced when the exception was raised is not specified: the raising
                # particle is found by the order of processing; only demand consistency of the common prefix
                m = min(len(a), len(w))
                a, w = a[:m], w[:m]
            if a != w:
                m = next((q for q in range(min(len(a), len(w))) if a[q] != w[q]), min(len(a), len(w)))
                return ('particle %d: kernel/recovery invocation %d is %s, the specification has %s '
                        '([att, time, dt, k, state] / [rec, time, error, k, state])'
                        % (i, m + 1, a[m] if m < len(a) else 'missing', w[m] if m < len(w) else 'none'))
    if exc is None and 'cb' in what and cbs != e['cbs']:
        for q in range(max(len(cbs), len(e['cbs']))):
            a, w = (cbs[q] if q < len(cbs) else None), (e['cbs'][q] if q < len(e['cbs']) else None)
            if a != w:
                return 'callbacks of call %d saw %s instead of %s' % (q + 1, a, w)
    if exc is None and 'final' in what:
        if sorted(o['final']) != e['final']:
            return 'final particle set [id, time, k, state, initial value] is %s instead of %s' % (sorted(o['final']), e['final'])
        if o['size'] != len(e['final']):
            return 'size of the particle set is %d instead of %d' % (o['size'], len(e['final']))
    if exc is None and 'out' in what and o['out'] is not None:
        got = o['out']
        if got.get('none') is True:
            got = {}
        want = {str(i): v for i, v in e['out'].items()}
        for i in sorted(set(got) | set(want)):
            if i not in got:
                return 'particle %s is not in the output file; expected rows [time, state] %s' % (i, want[i])
            if i not in want:
                return 'output file has particle %s with rows %s, which should not have been written' % (i, got[i]['rows'])
            if got[i]['rows'] != want[i]:
                return 'output rows [time, state] of particle %s are %s instead of %s' % (i, got[i]['rows'], want[i])
            w = 10. + e['lab'][int(i)]
            if got[i]['once'] != w:
                return "'once' Variable of particle %s is %s instead of %s" % (i, got[i]['once'], w)
    return None
