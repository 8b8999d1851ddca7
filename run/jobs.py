"""Jobs of every property: which models are explored, which traces are recorded and judged."""

SEQUENTIAL = {'TraceContainers', 'TraceAhrs', 'TraceScalars'}
REPLAY_MODE = {'TraceLinalg': 'numexec', 'TraceRotation': 'numexec', 'TraceAhrs': 'ahrsexec',
               'TraceScalars': 'scalexec'}
LEVEL = {}
ASSUMPTIONS = {}
NOT_APPLICABLE = {}
CLAIMED = ['L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'A01', 'A02', 'A08', 'Q01', 'A03', 'A04', 'A05', 'A06', 'A07',
           'Q02', 'Q03', 'Q04', 'Q05', 'S01', 'F01', 'F02', 'F03', 'F04', 'F05', 'F06', 'D01', 'U01']
TECHNIQUE = {'*': 'TLA+ specification explored with TLC; recorded runs of the library judged against it call by call'}
NOTE = {'*': 'All behaviours of the bounded models are explored exhaustively; the library is bound to the specification by '
             'replaying the transitions of the model and by judging systematic and random recorded call sequences. '
             'Trusts TLC and the recording harness; calls outside the recorded ones are not covered.'}
COMMON_ASSUMPTIONS = [
    'TLC evaluates the specification correctly',
    'the harness records the public API results faithfully (registers re-read through the public accessors)',
]

WALK = {'kind': 'walk', 'module': 'MC_Containers', 'cfg': 'MC_Containers_walk.cfg', 'trace': 'TraceContainers',
        'reset': ['m_new 0 |', 'v_new 5 |', 'm_new 4 |', 'v_new 10 |'], 'chunks': 6}

QUAT = {'kind': 'walk', 'module': 'MC_Quat', 'cfg': 'MC_Quat.cfg', 'trace': 'TraceContainers',
        'reset': ['v_new 5 |', 'v_new 6 |', 'm_new 4 |', 'v_new 10 |'], 'chunks': 6}
SHOWS = {'kind': 'walk', 'module': 'MC_Display', 'cfg': 'MC_Display.cfg', 'trace': 'TraceContainers',
         'reset': ['m_new 0 |', 'v_new 5 |'], 'chunks': 1}
INTERP = {'kind': 'walk', 'module': 'MC_Interp', 'trace': 'TraceRotation', 'reset': [], 'chunks': 2, 'mode': 'numexec'}
EIGEN = {'kind': 'walk', 'module': 'MC_Eigen', 'trace': 'TraceLinalg', 'reset': [], 'chunks': 4, 'mode': 'numexec'}


def mc(module, cfg=None, workers=2, **kw):
    return dict(kind='mc', module=module, cfg=(cfg or module) + '.cfg', workers=workers, **kw)


def tr(module, *args, **kw):
    return dict(kind='trace', module=module, args=list(args), **kw)


def enum(seed, *which, **kw):
    return [tr('TraceContainers', 'enum', seed, w, **kw) for w in which]


def gens(seed, n, steps, pool, bad, groups, **kw):
    return [tr('TraceContainers', 'gen', seed * 1000 + k, steps, pool, bad, groups, **kw) for k in range(n)]


def containers(prop, tier, seed):
    deep = tier == 'thorough'
    base = [WALK, mc('MC_Containers', 'MC_Containers_tiny', 2)]
    if deep:
        base.append(mc('MC_Containers', 'MC_Containers_small', 4))
    n = 12 if deep else 4
    s = 20000 if deep else 8000
    every = ['uninit', 'life', 'access', 'edit', 'ew', 'prod', 'interp', 'quat', 'show']
    own = {
        'L01': (['uninit', 'life'], [('exact', 0.1, 'life*4,el,fill,edit*2,all')]),
        'L02': (['access'], [('wild', 0.05, 'life,el*4,fill*2,rowcol*4,edit'), ('exact', 0.05, 'life,el*4,fill,rowcol*3')]),
        'L03': (['life'], [('wild', 0.0, 'all'), ('wild', 0.2, 'life,el*2,fill*2,ew*3,prod*2,interp*2,quat*2,rot,opq')]),
        'L04': (['edit'], [('exact', 0.1, 'life,el,rowcol*2,edit*5'), ('wild', 0.05, 'life,el,rowcol,edit*5')]),
        'L05': (['uninit', 'access', 'edit', 'ew', 'prod', 'interp', 'quat'], [('exact', 0.2, 'all')]),
        'L06': (every, [('wild', 0.2, 'all'), ('small', 0.2, 'all,opq*4')]),
        'L07': (['show'], [('wild', 0.1, 'life,el*3,fill,show*4'), ('exact', 0.1, 'life,el*3,ew,edit,show*4')]),
        'A01': (['ew'], [('exact', 0.05, 'life,el,ew*6,eq*2'), ('wild', 0.05, 'life,el,ew*6,eq*2'),
                         ('large', 0.02, 'life,el,ew*6,eq*2'), ('scale', 0.02, 'life,el,ew*6,eq*2')]),
        'A02': (['prod'], [('exact', 0.05, 'life,el*2,prod*6'), ('wild', 0.05, 'life,el*2,prod*6'),
                         ('large', 0.02, 'life,el*2,prod*6'), ('scale', 0.02, 'life,el*2,prod*6')]),
        'A08': (['interp'], [('unit', 0.05, 'life,el,fill,interp*6'), ('wild', 0.05, 'life,el*2,interp*6'),
                           ('large', 0.02, 'life,el*2,interp*6'), ('scale', 0.02, 'life,el*2,interp*6')]),
        'Q01': (['quat'], [('exact', 0.05, 'life,el,quat*8'), ('wild', 0.05, 'life,el,quat*8'),
                         ('large', 0.02, 'life,el,quat*8'), ('scale', 0.02, 'life,el,quat*8')]),
    }[prop]
    jobs = base + enum(seed, *(every if deep else own[0]))
    for k, (pool, bad, groups) in enumerate(own[1]):
        jobs += gens(seed + 7 * k, n, s, pool, bad, groups)
    if prop in ('Q01', 'L05'):
        jobs = [QUAT] + jobs
    if prop == 'L07':
        jobs = [SHOWS] + jobs + ahrs(seed + 3, 8 if deep else 2, 'show', 8000)
    if prop == 'A08':
        jobs = [dict(INTERP, cfg='MC_Interp_%s.cfg' % tier)] + jobs
        jobs += nums('TraceRotation', seed + 3, 6 if deep else 2, 'interp', 25000 if deep else 10000)
    if prop == 'L06':
        jobs += everywhere(tier, seed)
    if prop == 'L05':
        jobs += nums('TraceLinalg', seed, 1, 'nonsq', 500 if deep else 50)
    return jobs


def nums(module, seed, n, family, count, **kw):
    return [tr(module, 'num', seed * 1000 + k, family, count, **kw) for k in range(n)]


def linalg(prop, tier, seed):
    deep = tier == 'thorough'
    base = [mc('MC_Linalg', 'MC_Linalg_2')]
    if deep:
        base.append(mc('MC_Linalg', 'MC_Linalg_3', 4))
    fam = {'A03': 'det', 'A04': 'inv', 'A05': 'fact', 'A06': 'pred', 'A07': 'eig'}[prop]
    if fam == 'eig':
        base += [dict(EIGEN, cfg='MC_Eigen_%d.cfg' % k) for k in ((2, 3) if deep else (2,))]
    else:
        base += nums('TraceLinalg', seed, 1, 'small-' + fam, 19683 if deep else 6000)
    return base + nums('TraceLinalg', seed + 5, 14 if deep else 8, fam, 20000 if deep else 8000)


GROUP = {'kind': 'walk', 'module': 'MC_Rotation', 'cfg': 'MC_Rotation.cfg', 'trace': 'TraceRotation',
         'reset': [], 'chunks': 1, 'mode': 'numexec', 'start': (2, 0, 0, 0)}
TURN = {'kind': 'walk', 'module': 'MC_ExpLog', 'cfg': 'MC_ExpLog.cfg', 'trace': 'TraceRotation',
        'reset': [], 'chunks': 2, 'mode': 'numexec', 'start': (0, 0)}


def rotation(prop, tier, seed):
    deep = tier == 'thorough'
    fam = {'Q02': 'dcm', 'Q03': 'extract', 'Q04': 'euler', 'Q05': 'exp'}[prop]
    base = [TURN if prop == 'Q05' else GROUP]
    if prop == 'Q02':
        base.append(QUAT)
        base += gens(seed, 8 if deep else 4, 20000 if deep else 6000, 'exact', 0.05, 'life,el,fill,quat*2,rot*6')
        base += gens(seed + 7, 8 if deep else 4, 20000 if deep else 6000, 'unit', 0.05, 'life,el,fill,quat*2,rot*6')
    if prop == 'Q05':
        base += gens(seed, 6 if deep else 2, 20000 if deep else 8000, 'scale', 0.02, 'life,el*2,fill,quat,qexp*8')
        base += gens(seed + 7, 6 if deep else 2, 20000 if deep else 8000, 'exact', 0.02, 'life,el*2,fill,quat,qexp*8')
    return base + nums('TraceRotation', seed, 16 if deep else 8, fam, 50000 if deep else 12000)


IDENT = 'q64 q64 q64 q0 q0 q0 q0 q0 q0 q0 q0 q0 '
SENSORS = {'kind': 'walk', 'module': 'MC_Sensors', 'cfg': 'MC_Sensors_walk.cfg', 'trace': 'TraceAhrs',
           'reset': ['s_new 0 |', 's_new 1 |', 's_new 2 |'], 'chunks': 6, 'mode': 'ahrsexec'}
SOLO = dict(SENSORS, cfg='MC_Sensors_solo.cfg', chunks=2)
LIVES = {'kind': 'walk', 'module': 'MC_Filters', 'cfg': 'MC_Filters_walk.cfg', 'trace': 'TraceAhrs',
         'reset': ['ar_new |', 'aq_new |', 'dv_new |'], 'chunks': 6, 'mode': 'ahrsexec'}
LEVELS = {'kind': 'walk', 'module': 'MC_Level', 'cfg': 'MC_Level.cfg', 'trace': 'TraceAhrs',
          'reset': ['aq_new |', 'aq_init 1 0 0 0 0 0 | q64 q0 q0 q0 q1 q32 q32 q6 q13 q58 q58 q628 q32 ' + 3 * IDENT],
          'chunks': 1, 'mode': 'ahrsexec', 'start': (2, 0, 0, 0)}


def ahrs(seed, n, family, count, **kw):
    return [tr('TraceAhrs', 'ahrs', seed * 1000 + k, family, count, **kw) for k in range(n)]


def filters(prop, tier, seed):
    deep = tier == 'thorough'
    x = 5 if deep else 1
    if prop == 'S01':
        jobs = [SENSORS, SOLO, tr('TraceAhrs', 'ahrs', seed, 'sensall', 1)]
        jobs += ahrs(seed, 2 * x, 'sens', 10000) + ahrs(seed + 3, 2 * x, 'sensw', 10000) + ahrs(seed + 5, x, 'any', 10000)
        if deep:
            jobs += ahrs(seed, 2, 'sens', 10000, bin='nostd')
    elif prop == 'F01':
        jobs = [LIVES] + ahrs(seed, 2 * x, 'life', 8000) + ahrs(seed + 3, 2 * x, 'any', 10000)
        jobs += ahrs(seed + 5, x, 'ar', 4000) + ahrs(seed + 7, x, 'am', 4000) + ahrs(seed + 9, x, 'marg', 1500)
        if deep:
            jobs += ahrs(seed, 2, 'life', 8000, bin='nostd')
    elif prop == 'F02':
        jobs = [mc('MC_Rates')] + ahrs(seed, 6 * x, 'ar', 10000) + ahrs(seed + 3, 2 * x, 'hold', 1500)
        jobs += ahrs(seed + 5, x, 'any', 8000)
    elif prop == 'F03':
        jobs = [LEVELS] + ahrs(seed, 8 * x, 'am', 8000) + ahrs(seed + 3, x, 'any', 8000)
    elif prop == 'F04':
        jobs = [mc('MC_Aqua', 'MC_Aqua_' + tier, 4)] + ahrs(seed, 8 * x, 'marg', 3000) + ahrs(seed + 3, x, 'any', 8000)
    elif prop == 'F05':
        jobs = [mc('MC_Aqua', 'MC_Aqua_' + tier, 4)] + ahrs(seed, 4 * x, 'conv', 600) + ahrs(seed + 3, 2 * x, 'marg', 2500)
    else:
        jobs = [mc('MC_Wander', 'MC_Wander_' + tier, 4)] + ahrs(seed, 1, 'rnd', 1)
    return jobs


COMPLEX = {'kind': 'walk', 'module': 'MC_Complex', 'cfg': 'MC_Complex.cfg', 'trace': 'TraceScalars',
           'reset': ['z_new 0 | q0 q0', 'z_new 1 | q0 q0', 'z_new 2 | q0 q0'], 'chunks': 3, 'mode': 'scalexec'}
HELPERS = {'kind': 'walk', 'module': 'MC_Helpers', 'cfg': 'MC_Helpers.cfg', 'trace': 'TraceScalars',
           'reset': [], 'chunks': 2, 'mode': 'scalexec'}


def scals(seed, n, family, count, **kw):
    return [tr('TraceScalars', 'scal', seed * 1000 + k, family, count, **kw) for k in range(n)]


def scalars(prop, tier, seed):
    x = 6 if tier == 'thorough' else 1
    if prop == 'D01':
        jobs = [COMPLEX] + scals(seed, 5 * x, 'cplx', 15000) + scals(seed + 3, 4 * x, 'cplxw', 15000)
    else:
        jobs = [HELPERS] + scals(seed, 1, 'ints', 1) + scals(seed, 1, 'bytes', 1) + scals(seed, 1, 'floats', 1) + scals(seed, 5 * x, 'util', 15000)
    return jobs


def everywhere(tier, seed):
    """Calls of every crate, judged only for coming back at all."""
    deep = tier == 'thorough'
    x = 5 if deep else 1
    jobs = [tr('TraceScalars', 'scal', seed, 'ints', 1), tr('TraceScalars', 'scal', seed, 'bytes', 1),
            tr('TraceScalars', 'scal', seed, 'floats', 1)]
    for f in ('util', 'cplx', 'cplxw'):
        jobs += scals(seed + 11, x, f, 15000)
    for f, n in (('sensw', 10000), ('any', 15000), ('life', 8000), ('ar', 6000), ('am', 6000), ('marg', 3000), ('rnd', 1)):
        jobs += ahrs(seed + 13, 1 if f == 'rnd' else x, f, n)
    for f in ('det', 'inv', 'fact', 'pred', 'eig', 'nonsq'):
        jobs += nums('TraceLinalg', seed + 17, x, f, 200 if f == 'nonsq' else 3000)
    for f in ('dcm', 'extract', 'euler', 'exp', 'interp'):
        jobs += nums('TraceRotation', seed + 19, x, f, 5000)
    jobs += gens(seed + 23, x, 10000, 'wild', 0.2, 'all', bin='nostd')
    jobs += ahrs(seed + 23, x, 'any', 10000, bin='nostd') + ahrs(seed + 23, x, 'life', 8000, bin='nostd')
    jobs += scals(seed + 23, x, 'cplxw', 10000, bin='nostd') + scals(seed + 23, x, 'util', 10000, bin='nostd')
    jobs += nums('TraceRotation', seed + 23, x, 'extract', 5000, bin='nostd')
    jobs += nums('TraceLinalg', seed + 23, x, 'fact', 3000, bin='nostd')
    return jobs


def table(prop, tier, seed):
    if prop in ('D01', 'U01'):
        return scalars(prop, tier, seed)
    if prop in ('S01', 'F01', 'F02', 'F03', 'F04', 'F05', 'F06'):
        return filters(prop, tier, seed)
    if prop in ('Q02', 'Q03', 'Q04', 'Q05'):
        return rotation(prop, tier, seed)
    if prop in ('A03', 'A04', 'A05', 'A06', 'A07'):
        return linalg(prop, tier, seed)
    return containers(prop, tier, seed)
