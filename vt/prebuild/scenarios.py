"""Scenario library for the caps of ccpp_prebuild."""
from .spec import PSpec, PScheme, PSuite, V, H, HL
from .harness import TOOLS
import z3

REG = {}
NX = lambda: V('nx', 'size_x', 'count', 'integer')
NC = lambda: V('nc', H, 'count', 'integer')
ONE = 'ccpp_constant_one:'


def scenario(fn=None, props=('P21', 'P22'), **kw):
    if fn is None:
        return lambda f: scenario(f, props, **kw)

    def make():
        s = fn()
        s.name = fn.__name__
        s.tools = TOOLS
        s.threads = kw.get('threads')
        return s
    make.__name__ = make.__qualname__ = fn.__name__
    make.__module__ = fn.__module__
    make.reg = dict(props=set(props), **kw)
    make.drive = lifecycle
    REG[fn.__name__] = make
    return make


def lifecycle(run):
    """Every stage of every suite, as a whole and by group, over every block."""
    s = run.spec
    nb = len(run.blksz) if s.kind != 'plain' else 1
    for su in s.suites:
        by = run.eng.choose(2, 'whole suite or groups')
        gs = [None] if by == 0 else [g for g, _ in su.groups]
        for st in ('init', 'timestep_init', 'run', 'timestep_finalize', 'finalize'):
            for g in gs:
                for b in range(nb if st == 'run' else 1):
                    run.call(st, su.name, g, blk=b + 1, thrd=(2, 3) if s.threads and st == 'run' else (1, 3) if s.threads else (1, 1))


def one(scheme, *subs):
    return [PSuite('sa', [('g1', [(1, [scheme])])])]


@scenario(histories=2)
def p_plain():
    x = lambda u, i: V('x', 'qty_a', u, dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('a', 'qty_a', 'm', dims=('size_x',)), V('k', 'qty_k', 'K'), V('f', 'flag_b', 'flag', 'logical'), V('n', 'count_n', 'count', 'integer')],
                 [PScheme('s1', {'init': [V('n', 'size_x', 'count', 'integer', intent='in'), x('m', 'inout')], 'run': [x('m', 'inout'), V('k', 'qty_k', 'K', intent='inout')]}),
                  PScheme('s2', {'timestep_init': [x('m', 'out')], 'run': [x('m', 'in'), V('l', 'flag_b', 'flag', 'logical', intent='inout')], 'finalize': None}),
                  PScheme('s3', {'timestep_finalize': [x('m', 'in'), V('m', 'count_n', 'count', 'integer', intent='out')], 'run': [x('m', 'out')], 'finalize': [x('m', 'in')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])]), ('g2', [(1, ['s3'])])])])


@scenario
def p_units():
    x = lambda n, s, u, i: V(n, s, u, dims=('size_x',), intent=i)
    al = [('a', 'qty_a', 'cm'), ('b', 'qty_b', 'C'), ('c', 'qty_c', 'hPa')]
    return PSpec('', [NX(), V('a', 'qty_a', 'm', dims=('size_x',)), V('b', 'qty_b', 'K', dims=('size_x',)), V('c', 'qty_c', 'Pa', dims=('size_x', 'size_x')), V('t', 'time_s', 's')],
                 [PScheme('s1', {'run': [x(n, s, u, i) for (n, s, u), i in zip(al[:2], ('in', 'inout'))] + [V('c', 'qty_c', 'hPa', dims=('size_x', 'size_x'), intent='out'),
                                                                                                           V('t', 'time_s', 'h', intent='inout')]}),
                  PScheme('s2', {'init': [x('a', 'qty_a', 'mm', 'inout'), x('b', 'qty_b', 'C', 'out')], 'run': [x('a', 'qty_a', 'mm', 'out'), V('t', 'time_s', 'd', intent='in')]}),
                  PScheme('s3', {'run': [x('a', 'qty_a', 'm', 'inout'), V('c', 'qty_c', 'Pa', dims=('size_x', 'size_x'), intent='in'), V('t', 'time_s', 's', intent='out')],
                                 'finalize': [x('a', 'qty_a', 'km', 'in')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2', 's3'])])])])


def optional(intents, stage='run'):
    def f(n):
        return [V('y', 'qty_b', u, dims=('size_x',), intent=i, optional=True) for u, i in intents[n:n + 1]]
    return PSpec('', [NX(), V('f', 'flag_b', 'flag', 'logical'), V('b', 'qty_b', 'km', dims=('size_x',), active='flag_b', cond=lambda g: g('flag_b')),
                      V('a', 'qty_a', 'm', dims=('size_x',))],
                 [PScheme('s%d' % k, {stage: [V('x', 'qty_a', 'm', dims=('size_x',), intent='inout')] + f(k)}) for k in range(len(intents))],
                 [PSuite('sa', [('g1', [(1, ['s%d' % k for k in range(len(intents))])])])])


@scenario
def p_optional():
    return optional([('km', 'in'), ('km', 'inout'), ('km', 'out')])


@scenario
def p_optional_units():
    return optional([('m', 'in'), ('m', 'inout'), ('km', 'in')])


@scenario
def p_optional_out():
    return optional([('m', 'out'), ('km', 'in')])


@scenario
def p_optional_init():
    return optional([('m', 'inout'), ('km', 'out'), ('m', 'out')], 'init')


@scenario(histories=2)
def p_subcycles():
    x = lambda u, i: V('x', 'qty_a', u, dims=('size_x',), intent=i)
    c = [V('cnt', 'ccpp_loop_counter', 'index', 'integer', intent='in'), V('mx', 'ccpp_loop_extent', 'count', 'integer', intent='in')]
    return PSpec('', [NX(), V('a', 'qty_a', 'm', dims=('size_x',))],
                 [PScheme('s1', {'init': [x('m', 'inout')], 'run': [x('m', 'inout')] + c}), PScheme('s2', {'run': [x('cm', 'inout')] + c}),
                  PScheme('s3', {'timestep_init': [x('m', 'in')] + c, 'run': [x('m', 'in')] + c})],
                 [PSuite('sa', [('g1', [(2, ['s1', 's2']), (1, ['s3']), (3, ['s2'])]), ('g2', [(1, ['s3'])])]), PSuite('sb', [('g1', [(2, ['s3', 's1'])])])])


@scenario
def p_chunked():
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    b = lambda h, u, i: V('y', 'qty_b', u, dims=(h, 'size_x'), intent=i)
    return PSpec('', [NC(), NX(), V('a', 'qty_a', 'm', dims=(ONE + H,)), V('b', 'qty_b', 'km', dims=(ONE + H, 'size_x')), V('s', 'qty_s', 's')],
                 [PScheme('s1', {'init': [a(H, 'm', 'inout'), b(H, 'm', 'inout')], 'run': [a(HL, 'cm', 'inout'), b(HL, 'km', 'in')]}),
                  PScheme('s2', {'timestep_init': [b(H, 'm', 'out')], 'run': [b(HL, 'm', 'out'), V('s', 'qty_s', 'min', intent='inout')], 'timestep_finalize': [a(H, 'mm', 'in')]}),
                  PScheme('s3', {'run': [b(HL, 'm', 'inout'), a(HL, 'm', 'out')], 'finalize': [b(H, 'km', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2']), (1, ['s3'])])])], kind='chunked')


@scenario
def p_blocked():
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    b = lambda h, u, i: V('y', 'qty_b', u, dims=(h, 'size_x'), intent=i)
    c = lambda h, u, i: V('z', 'qty_c', u, dims=('size_x', h), intent=i)
    return PSpec('', [NC(), NX()],
                 [PScheme('s1', {'init': [a(H, 'm', 'inout'), b(H, 'km', 'in')], 'run': [a(HL, 'cm', 'inout'), b(HL, 'km', 'in')]}),
                  PScheme('s2', {'timestep_init': [b(H, 'km', 'out'), c(H, 'K', 'inout')], 'run': [b(HL, 'm', 'out'), c(HL, 'K', 'in'), V('im', HL, 'count', 'integer', intent='in')],
                                 'timestep_finalize': [a(H, 'm', 'in')]}),
                  PScheme('s3', {'run': [b(HL, 'm', 'inout'), c(HL, 'C', 'inout')], 'finalize': [b(H, 'km', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2']), (1, ['s3'])])])], kind='blocked',
                 blocks=[V('a', 'qty_a', 'm', dims=(HL,)), V('b', 'qty_b', 'km', dims=(HL, 'size_x')), V('c', 'qty_c', 'K', dims=('size_x', HL))])


@scenario
def p_blocked_units():
    a = lambda u, i: V('x', 'qty_a', u, dims=(H,), intent=i)
    return PSpec('', [NC(), NX()],
                 [PScheme('s1', {'init': [a('cm', 'inout')]}), PScheme('s2', {'init': [a('m', 'in')]}), PScheme('s3', {'init': [a('mm', 'out')], 'run': []})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2', 's3'])])])], kind='blocked', blocks=[V('a', 'qty_a', 'm', dims=(HL,))])


@scenario
def p_blocked_reuse():
    a = lambda u, i: V('x', 'qty_a', u, dims=(H,), intent=i)
    return PSpec('', [NC(), NX()],
                 [PScheme('s1', {'init': [a('m', 'in')]}), PScheme('s2', {'init': [a('m', 'inout')]}), PScheme('s3', {'init': [a('cm', 'in')]}), PScheme('s4', {'init': [a('cm', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2', 's3', 's4'])])])], kind='blocked', blocks=[V('a', 'qty_a', 'm', dims=(HL,))])


@scenario
def p_blocked_optional():
    a = lambda u, i: V('x', 'qty_a', u, dims=(H,), intent=i, optional=True)
    r = lambda u, i: V('x', 'qty_a', u, dims=(HL,), intent=i, optional=True)
    return PSpec('', [NC(), NX(), V('f', 'flag_b', 'flag', 'logical')],
                 [PScheme('s1', {'init': [a('m', 'inout')], 'run': [r('cm', 'inout')]}), PScheme('s2', {'init': [a('m', 'in')], 'run': [r('m', 'out')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])])])], kind='blocked',
                 blocks=[V('a', 'qty_a', 'm', dims=(HL,), active='flag_b', cond=lambda g: g('flag_b'))])


@scenario
def p_ddt():
    x = lambda s, u, i: V('x', s, u, dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('ix', 'index_of_it', 'index', 'integer')],
                 [PScheme('s1', {'run': [x('qty_a', 'm', 'inout'), V('k', 'qty_k', 'K', intent='out'), V('y', 'slice_q', 'km', dims=('size_x',), intent='inout')]}),
                  PScheme('s2', {'init': [x('qty_a', 'cm', 'inout')], 'run': [x('slice_q', 'm', 'inout'), V('k', 'qty_k', 'C', intent='in')], 'timestep_finalize': [x('slice_q', 'm', 'out')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])])])],
                 ddts=[('stt_t', 'stt', [V('a', 'qty_a', 'm', dims=('size_x',)), V('k', 'qty_k', 'K'), V('q', 'all_q', 'km', dims=('size_x', 'size_x')),
                                         V('q(:,index_of_it)', 'slice_q', 'km', dims=('size_x',), noemit=True)])],
                 values={'index_of_it': 2})


@scenario
def p_conditions():
    y = lambda n, s, u, i: V(n, s, u, dims=('size_x',), intent=i, optional=True)
    return PSpec('', [NX(), V('f', 'flag_b', 'flag', 'logical'), V('n', 'count_n', 'count', 'integer'), V('m', 'count_m', 'count', 'integer'),
                      V('b', 'qty_b', 'm', dims=('size_x',), active='(flag_b .and. count_n > 2)', cond=lambda g: z3.And(g('flag_b'), g('count_n') > 2)),
                      V('c', 'qty_c', 'm', dims=('size_x',), active='(count_n == count_m .or. .not. flag_b)', cond=lambda g: z3.Or(g('count_n') == g('count_m'), z3.Not(g('flag_b')))),
                      V('d', 'qty_d', 'm', dims=('size_x',), active='(count_n+1 < count_m)', cond=lambda g: g('count_n') + 1 < g('count_m'))],
                 [PScheme('s1', {'run': [y('y', 'qty_b', 'm', 'inout'), y('z', 'qty_c', 'm', 'in')]}), PScheme('s2', {'run': [y('z', 'qty_c', 'm', 'inout'), y('w', 'qty_d', 'm', 'out')]}),
                  PScheme('s3', {'init': [y('y', 'qty_b', 'm', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])]), ('g2', [(1, ['s3'])])])])


@scenario(histories=2, names=True)
def p_names():
    """Names that begin with each other; stages nobody uses."""
    x = lambda i: V('x', 'qty_a', 'm', dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('a', 'qty_a', 'm', dims=('size_x',))],
                 [PScheme('s1', {'run': [x('inout')]}), PScheme('s1_x', {'init': [x('out')], 'run': [x('in')]}), PScheme('s2', {'timestep_finalize': [x('inout')]})],
                 [PSuite('su', [('gr', [(1, ['s1'])]), ('gr1', [(1, ['s1_x'])])]), PSuite('su1', [('gr1', [(2, ['s1_x', 's1'])]), ('r', [(1, ['s2'])])]),
                  PSuite('s', [('gr1', [(1, ['s2', 's1'])])])])


@scenario
def p_long():
    """Argument lists that have to be wrapped, ending at every place relative to a line."""
    n = [c * 34 for c in 'abcde']
    sch = [PScheme('s%d' % k, {'run': [V('%s_%d' % (c, j), 'qty_' + c, 'm', intent='inout' if j % 2 else 'in') for j, c in enumerate('abcde'[:k])],
                               'init': [V('z%d' % j, 'qty_' + c, 'm', intent='inout') for j, c in enumerate('edcba'[:k])]}) for k in (1, 2, 3, 4, 5)]
    return PSpec('', [V(x, 'qty_' + x[0], 'm') for x in n], sch, [PSuite('sa', [('g%d' % k, [(1, ['s%d' % k])]) for k in (1, 2, 3, 4, 5)])])


@scenario(histories=3)
def p_history():
    """Small: one group with every stage, one with the run stage only."""
    x = lambda i: V('x', 'qty_a', 'm', intent=i)
    return PSpec('', [V('a', 'qty_a', 'm')],
                 [PScheme('s1', {'init': [x('in')], 'timestep_init': [x('in')], 'run': [x('inout')], 'timestep_finalize': [x('in')], 'finalize': [x('in')]}),
                  PScheme('s2', {'run': [x('in')]})],
                 [PSuite('sa', [('g1', [(1, ['s1'])]), ('g2', [(1, ['s2'])])])])


@scenario
def p_blocked_out():
    """Blocks that only see output, one with the horizontal dimension second, one with three dimensions."""
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    c = lambda h, u, i: V('z', 'qty_c', u, dims=('size_x', h), intent=i)
    d = lambda h, u, i: V('d', 'qty_d', u, dims=('size_x', h, 'size_x'), intent=i)
    return PSpec('', [NC(), NX()],
                 [PScheme('s1', {'init': [a(H, 'm', 'out')], 'run': [a(HL, 'm', 'out')], 'timestep_finalize': [d(H, 'm', 'in')]}),
                  PScheme('s2', {'init': [c(H, 'C', 'out')], 'run': [c(HL, 'C', 'out')], 'timestep_init': [d(H, 'cm', 'inout')], 'finalize': [c(H, 'C', 'in'), d(H, 'm', 'out')]})],
                 [PSuite('sa', [('g1', [(1, ['s1'])]), ('g2', [(1, ['s2'])])])], kind='blocked',
                 blocks=[V('a', 'qty_a', 'm', dims=(HL,)), V('c', 'qty_c', 'K', dims=('size_x', HL)), V('d', 'qty_d', 'm', dims=('size_x', HL, 'size_x'))])


@scenario
def p_chunked_optional():
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i, optional=True)
    b = lambda h, u, i: V('y', 'qty_b', u, dims=('size_x', h), intent=i, optional=True)
    return PSpec('', [NC(), NX(), V('f', 'flag_b', 'flag', 'logical'), V('n', 'count_n', 'count', 'integer'),
                      V('a', 'qty_a', 'm', dims=(ONE + H,), active='flag_b', cond=lambda g: g('flag_b')),
                      V('b', 'qty_b', 'K', dims=('size_x', ONE + H), active='(count_n > 1)', cond=lambda g: g('count_n') > 1)],
                 [PScheme('s1', {'init': [a(H, 'm', 'out'), b(H, 'K', 'inout')], 'run': [a(HL, 'cm', 'inout'), b(HL, 'K', 'in')]}),
                  PScheme('s2', {'timestep_init': [b(H, 'C', 'inout')], 'run': [a(HL, 'm', 'inout'), b(HL, 'C', 'out')]}),
                  PScheme('s3', {'run': [a(HL, 'mm', 'in'), b(HL, 'K', 'inout')], 'finalize': [a(H, 'km', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2']), (1, ['s3'])])])], kind='chunked')


@scenario(threads=True)
def p_threads():
    """Conditional arguments on one of several threads."""
    y = lambda u, i: V('y', 'qty_b', u, dims=('size_x',), intent=i, optional=True)
    t = [V('tn', 'ccpp_thread_number', 'index', 'integer', intent='in'), V('tc', 'ccpp_thread_count', 'index', 'integer', intent='in')]
    return PSpec('', [NX(), V('f', 'flag_b', 'flag', 'logical'), V('b', 'qty_b', 'm', dims=('size_x',), active='flag_b', cond=lambda g: g('flag_b'))],
                 [PScheme('s1', {'init': [y('m', 'inout')], 'run': [y('m', 'inout')] + t}), PScheme('s2', {'run': [y('cm', 'out')]}), PScheme('s3', {'run': [y('m', 'in')], 'finalize': []})],
                 [PSuite('sa', [('g1', [(2, ['s1', 's2', 's3'])])])])


@scenario(threads=True)
def p_interstitial():
    """One instance of a derived type per thread, in the run stage."""
    x = lambda u, i: V('x', 'qty_a', u, dims=('size_x',), intent=i)
    y = lambda u, i: V('y', 'qty_b', u, dims=('size_x',), intent=i, optional=True)
    k = lambda u, i: V('k', 'qty_k', u, intent=i)
    h = lambda u, i: V('h', 'qty_h', u, dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('f', 'flag_b', 'flag', 'logical'), V('h', 'qty_h', 'm', dims=('size_x',))],
                 [PScheme('s1', {'init': [h('m', 'inout')], 'run': [x('m', 'inout'), y('cm', 'out'), k('K', 'in')]}), PScheme('s2', {'run': [h('km', 'inout'), x('cm', 'in'), k('C', 'out')]}),
                  PScheme('s3', {'run': [y('m', 'inout'), x('m', 'out')], 'finalize': []})],
                 [PSuite('sa', [('g1', [(2, ['s1', 's2'])]), ('g2', [(1, ['s3'])])])],
                 threaded=[V('a', 'qty_a', 'm', dims=('size_x',)), V('b', 'qty_b', 'm', dims=('size_x',), active='flag_b', cond=lambda g: g('flag_b')), V('k', 'qty_k', 'K')])


@scenario
def p_types():
    """Characters, logicals, integer arrays, kinds of bounds."""
    return PSpec('', [NX(), V('c', 'text_c', 'none', 'character', 'len=*'), V('l', 'flags_l', 'flag', 'logical', dims=('size_x',)), V('i', 'counts_i', 'count', 'integer', dims=('size_x', 'size_x')),
                      V('z', 'qty_z', 'm', dims=('0:size_x',)), V('w', 'qty_w', 'm', dims=('2',))],
                 [PScheme('s1', {'run': [V('ch', 'text_c', 'none', 'character', 'len=*', intent='in'), V('ll', 'flags_l', 'flag', 'logical', dims=('size_x',), intent='inout'),
                                         V('ii', 'counts_i', 'count', 'integer', dims=('size_x', 'size_x'), intent='out')], 'init': [V('zz', 'qty_z', 'm', dims=('0:size_x',), intent='inout')]}),
                  PScheme('s2', {'run': [V('ii', 'counts_i', 'count', 'integer', dims=('size_x', 'size_x'), intent='in'), V('zz', 'qty_z', 'cm', dims=('0:size_x',), intent='inout'),
                                         V('ww', 'qty_w', 'km', dims=('2',), intent='out')], 'timestep_init': [V('ww', 'qty_w', 'm', dims=('2',), intent='in')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])])])])


@scenario
def p_ddt_conditions():
    """Conditional components of a derived type, conditions on other components."""
    y = lambda s, u, i: V('y', s, u, dims=('size_x',), intent=i, optional=True)
    return PSpec('', [NX(), V('n', 'count_n', 'count', 'integer')],
                 [PScheme('s1', {'init': [y('qty_b', 'm', 'out')], 'run': [y('qty_b', 'cm', 'inout'), V('z', 'qty_c', 'm', dims=('size_x',), intent='out', optional=True)]}),
                  PScheme('s2', {'run': [y('qty_c', 'mm', 'out')], 'timestep_finalize': [y('qty_c', 'm', 'in'), V('z', 'qty_b', 'm', dims=('size_x',), intent='inout', optional=True)]})],
                 [PSuite('sa', [('g1', [(1, ['s1'])]), ('g2', [(1, ['s2'])])])],
                 ddts=[('stt_t', 'stt', [V('f', 'flag_f', 'flag', 'logical'), V('b', 'qty_b', 'm', dims=('size_x',), active='(flag_f .and. count_n /= 3)', cond=lambda g: z3.And(g('flag_f'), g('count_n') != 3))]),
                       ('tnd_t', 'tnd', [V('c', 'qty_c', 'm', dims=('size_x',), active='(.not. flag_f)', cond=lambda g: z3.Not(g('flag_f'))), V('k', 'qty_k', 'K')])])


@scenario
def p_debug():
    x = lambda u, i: V('x', 'qty_a', u, dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('f', 'flag_b', 'flag', 'logical'), V('a', 'qty_a', 'm', dims=('size_x',)), V('b', 'qty_b', 'm', dims=('size_x', 'size_x'), active='flag_b', cond=lambda g: g('flag_b'))],
                 [PScheme('s1', {'init': [x('m', 'inout')], 'run': [x('cm', 'inout'), V('y', 'qty_b', 'm', dims=('size_x', 'size_x'), intent='in', optional=True)]}),
                  PScheme('s2', {'run': [x('m', 'out'), V('y', 'qty_b', 'km', dims=('size_x', 'size_x'), intent='inout', optional=True)]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])])])], flags=['--debug'])


@scenario
def p_debug_chunked():
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    b = lambda h, u, i: V('y', 'qty_b', u, dims=(h, 'size_x'), intent=i)
    return PSpec('', [NC(), NX(), V('a', 'qty_a', 'm', dims=(ONE + H,)), V('b', 'qty_b', 'km', dims=(ONE + H, 'size_x'))],
                 [PScheme('s1', {'init': [a(H, 'm', 'inout'), b(H, 'm', 'inout')], 'run': [a(HL, 'cm', 'inout'), b(HL, 'km', 'in')]}),
                  PScheme('s3', {'run': [b(HL, 'm', 'inout'), a(HL, 'm', 'out')], 'finalize': [b(H, 'km', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's3'])])])], kind='chunked', flags=['--debug'])


@scenario
def p_debug_blocked():
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    c = lambda h, u, i: V('z', 'qty_c', u, dims=('size_x', h), intent=i)
    return PSpec('', [NC(), NX()],
                 [PScheme('s1', {'init': [a(H, 'm', 'inout')], 'run': [a(HL, 'cm', 'inout'), c(HL, 'K', 'in')]}),
                  PScheme('s2', {'timestep_init': [c(H, 'K', 'inout')], 'run': [c(HL, 'C', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])])])], kind='blocked', flags=['--debug'],
                 blocks=[V('a', 'qty_a', 'm', dims=(HL,)), V('c', 'qty_c', 'K', dims=('size_x', HL))])


@scenario
def p_intents():
    """The intent of a host variable in the group and suite caps has to cover all its uses, in any order."""
    x = lambda s, i: V('x_' + s, 'qty_' + s, 'm', dims=('size_x',), intent=i)
    ix = lambda i: V('ix', 'index_of_it', 'index', 'integer', intent=i)
    sl = lambda i: V('y', 'slice_q', 'm', dims=('size_x',), intent=i)
    return PSpec('', [NX(), V('ix', 'index_of_it', 'index', 'integer')] + [V(c, 'qty_' + c, 'm', dims=('size_x',)) for c in 'abcdef'] + [V('cm', 'qty_g', 'm')],
                 [PScheme('s1', {'init': [x('a', 'in'), x('b', 'in'), x('c', 'out'), x('d', 'inout'), x('e', 'out')], 'run': [sl('in'), x('f', 'in')]}),
                  PScheme('s2', {'init': [x('a', 'out'), x('b', 'inout'), x('c', 'in'), x('d', 'out'), x('e', 'inout')], 'run': [ix('in'), sl('inout'), x('f', 'in')]}),
                  PScheme('s3', {'timestep_init': [ix('in'), x('f', 'out')], 'run': [x('f', 'in')], 'finalize': [ix('in')]}),
                  PScheme('s4', {'timestep_init': [sl('inout'), x('f', 'in')], 'run': [x('f', 'out')], 'timestep_finalize': [x('f', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])]), ('g2', [(1, ['s3', 's4'])])]), PSuite('sb', [('g1', [(1, ['s2'])]), ('g2', [(1, ['s1'])]), ('g3', [(1, ['s4'])])])],
                 ddts=[('stt_t', 'stt', [V('q', 'all_q', 'm', dims=('size_x', 'size_x')), V('q(:,index_of_it)', 'slice_q', 'm', dims=('size_x',), noemit=True)])],
                 values={'index_of_it': 2})


@scenario
def p_mixed():
    """A host with contiguous arrays and blocks; a block is a chunk."""
    a = lambda h, u, i: V('x', 'qty_a', u, dims=(h,), intent=i)
    b = lambda h, u, i: V('y', 'qty_b', u, dims=(h, 'size_x'), intent=i)
    c = lambda h, u, i: V('z', 'qty_c', u, dims=('size_x', h), intent=i)
    return PSpec('', [NC(), NX(), V('a', 'qty_a', 'm', dims=(ONE + H,))],
                 [PScheme('s1', {'init': [a(H, 'm', 'inout'), b(H, 'm', 'inout')], 'run': [a(HL, 'cm', 'inout'), b(HL, 'km', 'in')]}),
                  PScheme('s2', {'timestep_init': [b(H, 'm', 'out'), a(H, 'km', 'in')], 'run': [c(HL, 'C', 'inout'), a(HL, 'm', 'out'), V('im', HL, 'count', 'integer', intent='in')]}),
                  PScheme('s3', {'run': [b(HL, 'm', 'inout'), c(HL, 'K', 'in'), a(HL, 'm', 'in')], 'finalize': [c(H, 'K', 'inout')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])]), ('g2', [(1, ['s3'])])])], kind='mixed',
                 blocks=[V('b', 'qty_b', 'km', dims=(HL, 'size_x')), V('c', 'qty_c', 'K', dims=('size_x', HL))])


@scenario
def p_slices():
    """Parts of host arrays with extents nothing else needs."""
    sl = lambda u, i: V('y', 'slice_q', u, dims=('size_x',), intent=i)
    s2 = lambda u, i: V('z', 'slice_w', u, dims=('size_x', 'size_x'), intent=i)
    return PSpec('', [NX(), V('nt', 'number_of_tracers', 'count', 'integer'), V('ix', 'index_of_it', 'index', 'integer'), V('iy', 'index_of_other', 'index', 'integer'),
                      V('q', 'all_q', 'km', dims=('size_x', 'number_of_tracers')), V('q(:,index_of_it)', 'slice_q', 'km', dims=('size_x',), noemit=True),
                      V('w', 'all_w', 'm', dims=('size_x', 'number_of_tracers', 'size_x')), V('w(:,index_of_other,:)', 'slice_w', 'm', dims=('size_x', 'size_x'), noemit=True)],
                 [PScheme('s1', {'run': [sl('m', 'inout')], 'init': [s2('cm', 'inout')]}),
                  PScheme('s2', {'run': [sl('km', 'inout'), s2('m', 'in')], 'timestep_finalize': [s2('m', 'out'), sl('m', 'in')]}),
                  PScheme('s3', {'run': [V('q', 'all_q', 'm', dims=('size_x', 'number_of_tracers'), intent='inout'), V('n', 'number_of_tracers', 'count', 'integer', intent='in')]})],
                 [PSuite('sa', [('g1', [(1, ['s1', 's2'])]), ('g2', [(1, ['s3', 's1'])])])], values={'index_of_it': 2, 'index_of_other': 1, 'number_of_tracers': 2})
