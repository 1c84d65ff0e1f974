"""Scenario library: each entry is a valid capgen input plus the phase-call sequences explored for it."""
import z3
from .spec import V, Ddt, Mod, Scheme, Sub, Suite, Spec, KIND

H = 'horizontal_dimension'
HL = 'horizontal_loop_extent'
L = 'vertical_layer_dimension'
LI = 'vertical_interface_dimension'


def nc():
    return V('nc', HL, 'count', 'integer', intent='in')


def nl():
    return V('nlev', L, 'count', 'integer', intent='in')


def nch():
    return V('ncol', H, 'count', 'integer', intent='in')


def host(extra=(), ddts=(), li=False, name='host_data', uses=()):
    v = [V('ncols', H, 'count', 'integer'), V('pver', L, 'count', 'integer')]
    if li:
        v.append(V('pverp', LI, 'count', 'integer'))
    v += [V('temp', 'temperature', 'K', dims=(H, L)), V('ps', 'surface_pressure', 'Pa', dims=(H,)),
          V('cnt', 'call_counter', '1', 'integer')]
    return Mod(name, v + list(extra), ddts=ddts, uses=uses)


def T(intent='inout', local='t', units='K', **kw):
    return V(local, 'temperature', units, dims=(HL, L), intent=intent, **kw)


def PS(intent='inout', local='p', units='Pa', **kw):
    return V(local, 'surface_pressure', units, dims=(HL,), intent=intent, **kw)


def CNT(intent='inout', local='c'):
    return V(local, 'call_counter', '1', 'integer', intent=intent)


def lifecycle(run, suites=None, steps=1, ranges=None, again=False, parts_order=None):
    """The ordinary life of the suites: init, time steps over all groups, finalize (and once more)."""
    spec = run.spec
    sus = suites or [s.name for s in spec.suites]
    n = run.sizes[H]
    byname = {s.name: s for s in spec.suites}
    reg = any('register' in s.entries for s in spec.schemes.values())
    for rep in range(2 if again else 1):
        if reg or spec.always_register:
            for s in sus:
                run.call_phase('register', s)
        for s in sus:
            run.call_phase('initialize', s)
        for st in range(steps):
            for s in sus:
                run.call_phase('timestep_initial', s)
            gs = [(s, g) for s in sus for g, _ in byname[s].groups]
            if parts_order:
                gs = parts_order(gs)
            for s, g in gs:
                for rg in (ranges or [(1, n)]):
                    run.call_phase('run', s, g, rg)
            for s in sus:
                run.call_phase('timestep_final', s)
        for s in sus:
            run.call_phase('finalize', s)


Spec.always_register = False
REG = {}


def scenario(*props, **kw):
    def deco(f):
        REG[f.__name__] = dict(make=f, props=set(props), **kw)
        return f
    return deco


def life(**kw):
    def drive(run):
        n = run.sizes[H]
        k = dict(kw)
        if k.pop('chunks', False):
            k['ranges'] = run.eng.pick([[(1, n)], [(1, 1), (2, n)], [(2, n), (1, 1)], [(2, n)]])
        lifecycle(run, **k)
    return drive


# ------------------------------------------------------------------ calling schemes
@scenario('P01', 'P02', 'P05', 'P06', 'P07', errors=True)
def order():
    """Scheme file order differs from suite order, schemes define different subsets of the phases."""
    def sc(n, phases):
        e = {}
        for p in phases:
            if p == 'run':
                e[p] = [nc(), T(), PS('in')]
            else:
                e[p] = [CNT()]
        return Scheme(n, e)
    s = [sc('s_aa', ('initialize', 'run', 'finalize')), sc('s_bb', ('run', 'timestep_initial', 'timestep_final')),
         sc('s_cc', ('register', 'initialize', 'timestep_initial', 'run', 'timestep_final', 'finalize')),
         sc('s_dd', ('initialize', 'timestep_final', 'finalize'))]
    return Spec('order', [host()], s, [Suite('alpha', [('grp1', ['s_cc', 's_bb']), ('grp2', ['s_dd', 's_aa', 's_cc'])])],
                scheme_order=['s_aa', 's_bb', 's_dd', 's_cc'])


order.drive = life(chunks=True)


AL = ['allocatable = True']


@scenario('P01', 'P05', errors=True)
def subcycles():
    s = [Scheme('s_one', {'run': [nc(), T()], 'initialize': [CNT()]}), Scheme('s_two', {'run': [nc(), PS(), CNT()]}),
         Scheme('s_three', {'run': [nc(), T('in'), PS()], 'finalize': [CNT()]})]
    return Spec('subcycles', [host()], s, [Suite('sub', [('g1', ['s_one', Sub('3', ['s_two', 's_three']), 's_one'])])])


subcycles.drive = life()


@scenario('P01', 'P05', errors=True)
def nested_subcycles():
    s = [Scheme('s_one', {'run': [nc(), T()]}), Scheme('s_two', {'run': [nc(), PS(), CNT()]}),
         Scheme('s_three', {'run': [nc(), T('in'), PS()]})]
    return Spec('nested', [host()], s, [Suite('sub', [('g1', [Sub('2', ['s_one', Sub('2', ['s_two']), 's_three']), Sub('2', ['s_one'])]),
                                                       ('g2', [Sub('2', [Sub('3', ['s_three'])])])])])


nested_subcycles.drive = life()


@scenario('P01', 'P02', 'P03', 'P05', 'P10', errors=True)
def time_splits():
    """time_split elements around, inside and next to subcycles; a scheme that only occurs in one."""
    s = [Scheme('s_one', {'run': [nc(), nl(), T(units='C'), CNT(), V('x', 'handed_on', '1', intent='out')], 'initialize': [CNT()]}),
         Scheme('s_two', {'run': [nc(), CNT(), PS('in'), V('y', 'handed_on', '1', intent='inout')]}),
         Scheme('s_three', {'run': [CNT()], 'initialize': [CNT()], 'timestep_final': [CNT()]})]
    return Spec('splits', [host()], s, [Suite('ts', [('g1', [Sub(None, ['s_one', Sub('2', ['s_two']), 's_two']), 's_two']),
                                                     ('g2', ['s_one', Sub('2', [Sub(None, ['s_two', 's_three'])]), Sub(None, [Sub(None, ['s_three'])])])])])


time_splits.drive = life(chunks=True)


@scenario('P01', 'P05', errors=True)
def variable_subcycles():
    """Loop counts from host variables (symbolic, 0..3)."""
    h = host([V('nsub', 'number_of_substeps', 'count', 'integer'), V('nout', 'number_of_outer_steps', 'count', 'integer')])
    s = [Scheme('s_one', {'run': [nc(), T()]}), Scheme('s_two', {'run': [nc(), PS()]})]
    return Spec('varsub', [h], s, [Suite('sub', [('g1', ['s_one', Sub('number_of_substeps', ['s_two', 's_one']), 's_two',
                                                         Sub('number_of_outer_steps', [Sub('number_of_substeps', ['s_one'])])])])])


def _drive_varsub(run):
    for n in ('number_of_substeps', 'number_of_outer_steps'):
        run.eng.assume(z3.And(run.get(n) >= 0, run.get(n) <= (2 if n.endswith('outer_steps') else 3)))
    lifecycle(run)


variable_subcycles.drive = _drive_varsub


@scenario('P01', 'P02', 'P05', 'P06', 'P07', errors=True)
def two_suites():
    """Two suites share schemes and group names."""
    s = [Scheme('s_one', {'run': [nc(), T()], 'initialize': [CNT()], 'timestep_initial': [CNT()]}),
         Scheme('s_two', {'run': [nc(), PS()], 'timestep_final': [CNT()], 'finalize': [CNT()]}),
         Scheme('s_three', {'run': [nc(), T('in', 'tt'), PS('in')], 'initialize': [CNT()]})]
    return Spec('twosuites', [host()], s, [Suite('alpha', [('phys1', ['s_one']), ('phys2', ['s_two', 's_one'])]),
                                           Suite('alpha_b', [('phys1', ['s_two', 's_three']), ('dyn', ['s_one'])])])


def _drive_two(run):
    n = run.sizes[H]
    run.call_phase('initialize', 'alpha')
    run.call_phase('initialize', 'alpha_b')
    run.call_phase('timestep_initial', 'alpha_b')
    run.call_phase('timestep_initial', 'alpha')
    for s, g in run.eng.pick([[('alpha', 'phys1'), ('alpha', 'phys2'), ('alpha_b', 'phys1'), ('alpha_b', 'dyn')],
                              [('alpha_b', 'phys1'), ('alpha', 'phys2'), ('alpha_b', 'dyn'), ('alpha', 'phys1')]]):
        run.call_phase('run', s, g, (1, n))
    for s in ('alpha', 'alpha_b'):
        run.call_phase('timestep_final', s)
    for s in ('alpha_b', 'alpha'):
        run.call_phase('finalize', s)


two_suites.drive = _drive_two


@scenario('P01', 'P06', 'P07', errors=True)
def similar_names():
    """Suite and group names that are prefixes of each other or equal across levels."""
    s = [Scheme('ab', {'run': [nc(), T()], 'initialize': [CNT()]}), Scheme('abc', {'run': [nc(), PS()], 'finalize': [CNT()]})]
    return Spec('similar', [host()], s, [Suite('su', [('p', ['ab']), ('p1', ['abc']), ('p10', ['ab', 'abc'])]),
                                         Suite('su1', [('p1', ['ab']), ('su', ['abc', 'ab'])]), Suite('su1_p', [('p1', ['abc', 'abc'])])])


similar_names.drive = life()


@scenario('P01', 'P06', 'P07', errors=True)
def embedded_names():
    """The suite name occurs inside the names of its own and of other suites' groups and schemes."""
    s = [Scheme('my_phys_drag', {'run': [nc(), T()], 'initialize': [CNT()]}), Scheme('physics', {'run': [nc(), PS()], 'finalize': [CNT()]})]
    return Spec('embedded', [host()], s, [Suite('phys', [('pre_phys_a', ['my_phys_drag']), ('b_phys', ['physics']), ('a', ['physics', 'my_phys_drag'])]),
                                          Suite('a', [('phys_a', ['physics']), ('b_phys', ['my_phys_drag'])])])


embedded_names.drive = life()


# ------------------------------------------------------------------ binding
@scenario('P01', 'P02')
def names():
    """The same dummy names mean different variables in different schemes, argument orders differ."""
    h = host([V('qv', 'water_vapor', 'kg kg-1', dims=(H, L)), V('ql', 'cloud_water', 'kg kg-1', dims=(H, L)),
              V('flag', 'do_clouds', 'flag', 'logical'), V('lab', 'scheme_label', 'none', 'character', 'len=16'),
              V('kcap', 'cap_level', 'index', 'integer'), V('dt', 'time_step', 's')])
    s = [Scheme('s_one', {'run': [V('b', 'cloud_water', 'kg kg-1', dims=(HL, L), intent='inout'),
                                  V('a', 'water_vapor', 'kg kg-1', dims=(HL, L), intent='in'), nc(),
                                  V('l', 'do_clouds', 'flag', 'logical', intent='in'), V('dtime', 'time_step', 's', intent='in')]}),
         Scheme('s_two', {'run': [nc(), V('errflg', 'ccpp_error_code', '1', 'integer', intent='out'),
                                  V('a', 'cloud_water', 'kg kg-1', dims=(HL, L), intent='in'),
                                  V('errmsg', 'ccpp_error_message', 'none', 'character', 'len=512', intent='out'),
                                  V('b', 'water_vapor', 'kg kg-1', dims=(HL, L), intent='out'),
                                  V('nm', 'scheme_label', 'none', 'character', 'len=16', intent='in')]}),
         Scheme('s_three', {'run': [V('ncol', HL, 'count', 'integer', intent='in'), V('temp', 'water_vapor', 'kg kg-1', dims=(HL, L), intent='inout'),
                                    V('qv', 'temperature', 'K', dims=(HL, L), intent='inout'), V('ps', 'cap_level', 'index', 'integer', intent='inout'),
                                    V('ierr', 'ccpp_error_code', '1', 'integer', intent='out'),
                                    V('emsg', 'ccpp_error_message', 'none', 'character', 'len=512', intent='out')],
                            'initialize': [V('l', 'do_clouds', 'flag', 'logical', intent='inout'),
                                           V('dtime', 'time_step', 's', intent='out')]})]
    return Spec('names', [h], s, [Suite('nam', [('g1', ['s_one', 's_two', 's_three']), ('g2', ['s_three', 's_one'])])])


names.drive = life(chunks=True)


@scenario('P02')
def ddts():
    """Host data inside (nested) derived types in another module; whole objects as arguments."""
    inner = Ddt('inner_t', [V('wind', 'x_wind', 'm s-1', dims=(H, L)), V('albedo', 'surface_albedo', '1', dims=(H,)),
                            V('count', 'inner_count', '1', 'integer')])
    outer = Ddt('outer_t', [V('state', 'inner_state', None, 'inner_t'), V('vwind', 'y_wind', 'm s-1', dims=(H, L)),
                            V('scale', 'scale_factor', '1')])
    m1 = Mod('types_mod', None, ddts=[inner, outer])
    h = host([V('phys', 'outer_state', None, 'outer_t')], uses=['types_mod'])
    s = [Scheme('s_one', {'run': [nc(), V('u', 'x_wind', 'm s-1', dims=(HL, L), intent='inout'), V('v', 'y_wind', 'm s-1', dims=(HL, L), intent='in'),
                                  V('sc', 'scale_factor', '1', intent='in')],
                          'initialize': [V('n', 'inner_count', '1', 'integer', intent='inout'), V('sc', 'scale_factor', '1', intent='out')]}),
         Scheme('s_two', {'run': [nc(), V('wind', 'y_wind', 'm s-1', dims=(HL, L), intent='inout'), V('alb', 'surface_albedo', '1', dims=(HL,), intent='inout'),
                                  T('in')]}),
         Scheme('s_ddt', {'run': [V('st', 'inner_state', None, 'inner_t', intent='inout')],
                          'timestep_initial': [V('o', 'outer_state', None, 'outer_t', intent='inout')]}, uses=['types_mod'])]
    return Spec('ddts', [m1, h], s, [Suite('dd', [('g1', ['s_one', 's_ddt', 's_two']), ('g2', ['s_two', 's_one'])])])


ddts.drive = life(chunks=True)


@scenario('P02')
def deep_ddts():
    """Three levels of derived types; dimensions and indices that are components; components of a component of a component."""
    a = Ddt('grid_t', [V('nsoil', 'soil_layer_dimension', 'count', 'integer'), V('area', 'cell_area', 'm2', dims=(H,)), V('lat', 'latitude', 'radian', dims=(H,))])
    b = Ddt('land_t', [V('soil', 'soil_moisture', '1', dims=(H, 'soil_layer_dimension')), V('grid', 'land_grid', None, 'grid_t'), V('n', 'land_count', '1', 'integer')])
    c = Ddt('all_t', [V('land', 'land_state', None, 'land_t'), V('sst', 'sea_temperature', 'K', dims=(H,)), V('flag', 'sea_flag', 'flag', 'logical')])
    h = host([V('all', 'all_state', None, 'all_t')], uses=['types_mod'])
    ns = V('ns', 'soil_layer_dimension', 'count', 'integer', intent='in')
    s = [Scheme('s_one', {'run': [nc(), ns, V('sm', 'soil_moisture', '1', dims=(HL, 'soil_layer_dimension'), intent='inout'), V('ar', 'cell_area', 'm2', dims=(HL,), intent='in')],
                          'initialize': [V('k', 'land_count', '1', 'integer', intent='inout')]}),
         Scheme('s_two', {'run': [nc(), V('lt', 'latitude', 'radian', dims=(HL,), intent='in'), V('ts', 'sea_temperature', 'C', dims=(HL,), intent='inout'),
                                  V('f', 'sea_flag', 'flag', 'logical', intent='in')]})]
    return Spec('deep', [Mod('types_mod', None, ddts=[a, b, c]), h], s, [Suite('dd', [('g1', ['s_one', 's_two']), ('g2', ['s_two'])])], sizes={'soil_layer_dimension': 3})


deep_ddts.drive = life(chunks=True)


@scenario('P02')
def slices():
    """Host variables that are sections of a larger array, index held in host variables."""
    h = host([V('ntrac', 'number_of_tracers', 'count', 'integer'),
              V('iqv', 'index_of_water_vapor', 'index', 'integer'), V('iql', 'index_of_cloud_water', 'index', 'integer'),
              V('q', 'tracers', 'kg kg-1', dims=(H, L, 'number_of_tracers')),
              V('q(:,:,index_of_water_vapor)', 'water_vapor', 'kg kg-1', dims=(H, L)),
              V('q(:,:,index_of_cloud_water)', 'cloud_water', 'kg kg-1', dims=(H, L))])
    s = [Scheme('s_one', {'run': [nc(), V('qv', 'water_vapor', 'kg kg-1', dims=(HL, L), intent='inout'),
                                  V('ql', 'cloud_water', 'kg kg-1', dims=(HL, L), intent='in')]}),
         Scheme('s_two', {'run': [nc(), V('nt', 'number_of_tracers', 'count', 'integer', intent='in'),
                                  V('q', 'tracers', 'kg kg-1', dims=(HL, L, 'number_of_tracers'), intent='inout')]})]
    return Spec('slices', [h], s, [Suite('sl', [('g1', ['s_one', 's_two', 's_one'])])], sizes={'number_of_tracers': 2})


def _drive_slices(run):
    a, b = run.get('index_of_water_vapor'), run.get('index_of_cloud_water')
    run.eng.assume(z3.And(a >= 1, a <= 2, b >= 1, b <= 2, a != b))
    n = run.sizes[H]
    lifecycle(run, ranges=run.eng.pick([[(1, n)], [(2, n)]]))


slices.drive = _drive_slices


@scenario('P02')
def allocatables():
    """Allocatable arguments next to plain ones for the same variables: whole arrays, components, columns."""
    st = Ddt('hist_t', [V('rec', 'history_record', 'm', dims=('number_of_times',)), V('last', 'last_record', 'm', dims=(H,))])
    h = host([V('nt', 'number_of_times', 'count', 'integer'), V('times', 'model_times', 's', 'integer', dims=('number_of_times',), extra=AL),
              V('h', 'history', None, 'hist_t'), V('fld', 'field', 'K', dims=(H,), extra=AL)], uses=['types_mod'])
    nt = V('ntimes', 'number_of_times', 'count', 'integer', intent='in')
    T = lambda n, it, al=True: V(n, 'model_times', 's', 'integer', dims=('number_of_times',), intent=it, extra=AL if al else [])
    R = lambda n, it, al=True: V(n, 'history_record', 'm', dims=('number_of_times',), intent=it, extra=AL if al else [])
    s = [Scheme('s_a', {'initialize': [nt, T('mt', 'in', False), R('rr', 'inout')], 'run': [nc(), V('f', 'field', 'K', dims=(HL,), intent='inout'), nt, T('tt', 'in', False)]}),
         Scheme('s_b', {'initialize': [nt, T('a', 'inout'), R('b', 'inout', False)],
                        'timestep_initial': [nt, R('q', 'inout')], 'run': [nc(), nt, R('r', 'inout', False), T('t', 'inout')]}),
         Scheme('s_c', {'timestep_final': [nt, T('x', 'inout', False)], 'run': [nt, T('w', 'inout'), R('v', 'inout')]})]
    return Spec('allocs', [Mod('types_mod', None, ddts=[st]), h], s, [Suite('al', [('g1', ['s_a']), ('g2', ['s_b']), ('g3', ['s_c'])])], sizes={'number_of_times': 2})


allocatables.drive = life(chunks=True)


@scenario('P02')
def call_time():
    """Dimensions and fields arrive as arguments of the host interface."""
    m = Mod('host_data', [V('ncols', H, 'count', 'integer'), V('temp', 'temperature', 'K', dims=(H, L)),
                          V('soil', 'soil_moisture', '1', dims=(H, 'soil_layer_dimension'))])
    ctl = [V('lev', L, 'count', 'integer', extra=['protected = True']), V('nsoil', 'soil_layer_dimension', 'count', 'integer', extra=['protected = True']),
           V('psfc', 'surface_pressure', 'Pa', dims=(H,)),
           V('dt', 'time_step', 's'), V('kount', 'call_counter', '1', 'integer')]
    s = [Scheme('s_one', {'run': [nc(), V('lv', L, 'count', 'integer', intent='in'), T(), PS('inout'), V('dtp', 'time_step', 's', intent='in')],
                          'initialize': [CNT()]}),
         Scheme('s_two', {'run': [nc(), V('ns', 'soil_layer_dimension', 'count', 'integer', intent='in'),
                                  V('sm', 'soil_moisture', '1', dims=(HL, 'soil_layer_dimension'), intent='inout'), PS('in')],
                          'timestep_final': [CNT(), V('dtp', 'time_step', 's', intent='out')]})]
    return Spec('calltime', [m], s, [Suite('ct', [('g1', ['s_one', 's_two']), ('g2', ['s_two'])])], ctl_extra=ctl,
                sizes={'soil_layer_dimension': 3})


call_time.drive = life(chunks=True)


@scenario('P02')
def bounds():
    """Explicit lower bounds, interface levels, non-horizontal and horizontal-last arrays."""
    h = host([V('zi', 'interface_height', 'm', dims=(H, LI)), V('lut', 'lookup_table', '1', dims=('number_of_bands',)),
              V('nb', 'number_of_bands', 'count', 'integer'), V('vcoord', 'vertical_coordinate', '1', dims=(LI,)),
              V('snow', 'snow_layers', 'm', dims=(H, 'snow_lower_bound:snow_upper_bound')),
              V('slo', 'snow_lower_bound', 'count', 'integer'), V('sup', 'snow_upper_bound', 'count', 'integer')], li=True)
    s = [Scheme('s_one', {'run': [nc(), V('zi', 'interface_height', 'm', dims=(HL, LI), intent='inout'), V('nli', LI, 'count', 'integer', intent='in'),
                                  V('tab', 'lookup_table', '1', dims=('number_of_bands',), intent='in'), V('nband', 'number_of_bands', 'count', 'integer', intent='in')],
                          'initialize': [V('tab', 'lookup_table', '1', dims=('number_of_bands',), intent='out'),
                                         V('eta', 'vertical_coordinate', '1', dims=(LI,), intent='inout')]}),
         Scheme('s_two', {'run': [nc(), V('sn', 'snow_layers', 'm', dims=(HL, 'snow_lower_bound:snow_upper_bound'), intent='inout'),
                                  V('l1', 'snow_lower_bound', 'count', 'integer', intent='in'),
                                  V('l2', 'snow_upper_bound', 'count', 'integer', intent='in')]})]
    return Spec('bounds', [h], s, [Suite('bd', [('g1', ['s_one', 's_two'])])],
                sizes={'number_of_bands': 3, 'snow_lower_bound': -1, 'snow_upper_bound': 0})


bounds.drive = life(chunks=True)


@scenario('P08', 'P02')
def cross_use():
    """Variables, arrays with named sections and derived types read in one group or phase and written in another."""
    st = Ddt('state_t', [V('u', 'x_wind', 'm s-1', dims=(H, L)), V('ts', 'skin_temperature', 'K', dims=(H,))])
    h = host([V('st', 'physics_state', None, 'state_t'), V('ntrac', 'number_of_tracers', 'count', 'integer'),
              V('q', 'tracers', 'kg kg-1', dims=(H, L, 'number_of_tracers')),
              V('q(:,:,1)', 'water_vapor', 'kg kg-1', dims=(H, L)), V('q(:,:,2)', 'cloud_water', 'kg kg-1', dims=(H, L)),
              V('acc', 'accumulation', '1', dims=(H,)), V('res', 'residual', '1', dims=(H,)), V('g', 'gravity', 'm s-2', extra=['protected = True'])],
             uses=['types_mod'])
    nt = V('nt', 'number_of_tracers', 'count', 'integer', intent='in')
    Q = lambda it: V('q', 'tracers', 'kg kg-1', dims=(HL, L, 'number_of_tracers'), intent=it)
    S = lambda it: V('s', 'physics_state', None, 'state_t', intent=it)
    A = lambda n, x, it: V(n, x, '1', dims=(HL,), intent=it)
    s = [Scheme('s_a', {'run': [nc(), nt, Q('in'), A('a', 'accumulation', 'in'), V('gr', 'gravity', 'm s-2', intent='in')]}, uses=['types_mod']),
         Scheme('s_b', {'run': [nc(), nt, Q('out'), A('a', 'accumulation', 'out'), A('r', 'residual', 'out')]}, uses=['types_mod']),
         Scheme('s_c', {'run': [nc(), S('in'), V('v', 'water_vapor', 'kg kg-1', dims=(HL, L), intent='out')],
                        'initialize': [CNT('out')], 'finalize': [CNT('in')]}, uses=['types_mod']),
         Scheme('s_d', {'run': [nc(), V('t', 'skin_temperature', 'K', dims=(HL,), intent='out'), V('c', 'cloud_water', 'kg kg-1', dims=(HL, L), intent='in')],
                        'timestep_final': [S('inout')]}, uses=['types_mod'])]
    return Spec('cross', [Mod('types_mod', None, ddts=[st]), h], s, [Suite('one', [('g1', ['s_a']), ('g2', ['s_b'])]), Suite('two', [('g1', ['s_b', 's_a']), ('g2', ['s_c']), ('g3', ['s_d'])]),
                                  Suite('three', [('g1', ['s_b'])]), Suite('four', [('g1', ['s_d', 's_a'])])], sizes={'number_of_tracers': 2})


cross_use.drive = life(chunks=True)


@scenario('P08', 'P02')
def elements():
    """Objects and arrays with as many elements as there are objects: alone, next to their own elements, several at a time."""
    one = Ddt('one_t', [V('u', 'x_wind', 'm s-1', dims=(H, L))])
    two = Ddt('two_t', [V('ts', 'skin_temperature', 'K', dims=(H,)), V('al', 'surface_albedo', '1', dims=(H,))])
    h = host([V('so', 'single_object', None, 'one_t'), V('st', 'pair_object', None, 'two_t'), V('ntrac', 'number_of_tracers', 'count', 'integer'),
              V('q', 'tracers', 'kg kg-1', dims=(H, L, 'number_of_tracers')), V('q(:,:,1)', 'water_vapor', 'kg kg-1', dims=(H, L))], uses=['types_mod'])
    nt = V('nt', 'number_of_tracers', 'count', 'integer', intent='in')
    Q = lambda it: V('q', 'tracers', 'kg kg-1', dims=(HL, L, 'number_of_tracers'), intent=it)
    O = lambda it: V('o', 'single_object', None, 'one_t', intent=it)
    P = lambda it: V('p', 'pair_object', None, 'two_t', intent=it)
    TS = lambda it: V('t', 'skin_temperature', 'K', dims=(HL,), intent=it)
    s = [Scheme('e_q', {'run': [nc(), nt, Q('inout')]}), Scheme('e_o', {'run': [nc(), O('inout')]}, uses=['types_mod']),
         Scheme('e_p', {'run': [nc(), P('inout')]}, uses=['types_mod']),
         Scheme('e_t', {'run': [nc(), TS('inout')]})]
    g = lambda n, *x: Suite(n, [('g1', list(x))])
    return Spec('elements', [Mod('types_mod', None, ddts=[one, two]), h], s, [g('alone', 'e_o'), g('array', 'e_q'), g('mixed', 'e_q', 'e_o'), g('pair', 'e_p'),
                Suite('later', [('g1', ['e_o']), ('g2', ['e_p', 'e_t'])])], sizes={'number_of_tracers': 2})


elements.drive = life(chunks=True)


@scenario('P09', 'P02', 'P03')
def whole_arrays():
    """Whole arrays in the phases other than run: derived type components, transforms, explicit bounds, several schemes, two suites."""
    st = Ddt('grid_t', [V('area', 'cell_area', 'm', dims=(H,)), V('zf', 'interface_height', 'm', dims=(H, LI))])
    h = host([V('grid', 'grid_state', None, 'grid_t'), V('tab', 'lookup_table', '1', dims=('number_of_bands', 'number_of_bins')),
              V('nb', 'number_of_bands', 'count', 'integer'), V('nbin', 'number_of_bins', 'count', 'integer'),
              V('use_t', 'use_table', 'flag', 'logical'),
              V('opt', 'optional_table', 'm', dims=('number_of_bins',), active='(use_table)', cond=lambda g: g('use_table')),
              V('mask', 'column_mask', 'flag', 'logical', dims=(H,)), V('idx', 'column_index', 'index', 'integer', dims=(H,))],
             ddts=[st], li=True)
    b, k = V('nb', 'number_of_bands', 'count', 'integer', intent='in'), V('nk', 'number_of_bins', 'count', 'integer', intent='in')
    nli = V('nli', LI, 'count', 'integer', intent='in')
    A = lambda it, u='m': V('ar', 'cell_area', u, dims=(H,), intent=it)
    s = [Scheme('s_a', {'initialize': [nch(), b, k, A('inout'), V('lut', 'lookup_table', '1', dims=('number_of_bands', 'number_of_bins'), intent='out')],
                        'timestep_initial': [nch(), V('m', 'column_mask', 'flag', 'logical', dims=(H,), intent='inout'), A('in', 'km')],
                        'run': [nc(), T()]}),
         Scheme('s_b', {'initialize': [nch(), nli, V('z', 'interface_height', 'm', dims=(H, LI), intent='in'), CNT()],
                        'timestep_initial': [nch(), nl(), V('tt', 'temperature', 'C', dims=(H, L), intent='inout')],
                        'timestep_final': [nch(), V('i', 'column_index', 'index', 'integer', dims=(H,), intent='inout'), A('out', 'km')],
                        'run': [nc(), nl(), T('in')]}),
         Scheme('s_c', {'initialize': [k, V('o', 'optional_table', 'm', dims=('number_of_bins',), intent='inout', optional=True)],
                        'timestep_final': [k, V('o', 'optional_table', 'km', dims=('number_of_bins',), intent='inout', optional=True)],
                        'finalize': [b, k, nch(), V('t', 'lookup_table', '1', dims=('number_of_bands', 'number_of_bins'), intent='in'),
                                     V('p', 'surface_pressure', 'hPa', dims=(H,), intent='in')]})]
    return Spec('whole', [h], s, [Suite('wh', [('g1', ['s_a', 's_b', 's_c'])]), Suite('wh2', [('g1', ['s_c', 's_b'])])],
                sizes={'number_of_bands': 2, 'number_of_bins': 3})


whole_arrays.drive = life()


# ------------------------------------------------------------------ transforms
def conv_scheme(n, intent, **kw):
    return Scheme(n, {'run': [nc(), nl(), T(intent, units='C'), PS(intent, units='hPa'), V('dt', 'time_step', 'min', intent=intent),
                              V('h', 'geopotential_height', 'km', dims=(HL, L), intent=intent)]})


@scenario('P03', 'P02')
def units():
    h = host([V('dt', 'time_step', 's'), V('z', 'geopotential_height', 'm', dims=(H, L)), V('rate', 'rain_rate', 'mm', dims=(H,))])
    s = [conv_scheme('u_in', 'in'), conv_scheme('u_out', 'out'), conv_scheme('u_io', 'inout'),
         Scheme('plain', {'run': [nc(), T('inout'), PS('inout')]}),
         Scheme('u_init', {'initialize': [nch(), V('p', 'surface_pressure', 'hPa', dims=(H,), intent='inout'), V('dt', 'time_step', 'h', intent='out')],
                           'run': [nc(), V('r', 'rain_rate', 'm', dims=(HL,), intent='inout')],
                           'timestep_final': [nch(), V('p', 'surface_pressure', 'hPa', dims=(H,), intent='out')]})]
    return Spec('units', [h], s, [Suite('un', [('g1', ['u_in', 'u_out', 'plain', 'u_io']), ('g2', ['u_io', 'u_init', 'u_in']), ('g3', ['u_out'])])])


units.drive = life(chunks=True)


@scenario('P03')
def same_dummy_units():
    """Schemes use one dummy name for variables of different rank, with transforms."""
    h = host([V('z', 'geopotential_height', 'm', dims=(H, L)), V('zs', 'surface_height', 'm', dims=(H,)), V('dz', 'minimum_height', 'm')])
    s = [Scheme('s_one', {'run': [nc(), nl(), V('z', 'geopotential_height', 'km', dims=(HL, L), intent='inout')]}),
         Scheme('s_two', {'run': [nc(), V('z', 'surface_height', 'cm', dims=(HL,), intent='inout')]}),
         Scheme('s_three', {'run': [nc(), V('z', 'minimum_height', 'mm', intent='inout'), V('zz', 'surface_height', 'km', dims=(HL,), intent='in')]})]
    return Spec('samedummy', [h], s, [Suite('sd', [('g1', ['s_one', 's_two', 's_three', 's_one'])])])


same_dummy_units.drive = life(chunks=True)


@scenario('P03')
def flips():
    """Vertical direction differs between host and scheme, alone and with units."""
    h = host([V('u', 'x_wind', 'm s-1', dims=(H, L), top='True'), V('v', 'y_wind', 'm s-1', dims=(H, L)),
              V('zi', 'interface_height', 'm', dims=(H, LI), top='True')], li=True)
    s = []
    for it in ('in', 'out', 'inout'):
        s.append(Scheme('f_' + it, {'run': [nc(), nl(), V('nli', LI, 'count', 'integer', intent='in'),
                                            V('u', 'x_wind', 'm s-1', dims=(HL, L), intent=it), V('v', 'y_wind', 'm s-1', dims=(HL, L), intent=it, top='True'),
                                            V('z', 'interface_height', 'km', dims=(HL, LI), intent=it)]}))
    s.append(Scheme('same', {'run': [nc(), nl(), V('u', 'x_wind', 'm s-1', dims=(HL, L), intent='inout', top='True'),
                                     V('v', 'y_wind', 'km h-1', dims=(HL, L), intent='inout', top='True')]}))
    return Spec('flips', [h], s, [Suite('fl', [('g1', ['f_in', 'f_out', 'same', 'f_inout']), ('g2', ['f_inout', 'same', 'f_in'])])])


flips.drive = life(chunks=True)


@scenario('P03')
def kinds():
    h = host([V('u', 'x_wind', 'm s-1', kind='kind_host', dims=(H, L)), V('g', 'gravity', 'm s-2', kind='kind_host'),
              V('z', 'geopotential_height', 'm', kind='kind_host', dims=(H, L)), V('nst', 'step_number', 'count', 'integer', 'ikind'),
              V('mask', 'column_category', 'index', 'integer', dims=(H,))])
    s = []
    for it in ('in', 'out', 'inout'):
        s.append(Scheme('k_' + it, {'run': [nc(), nl(), V('u', 'x_wind', 'm s-1', dims=(HL, L), intent=it), V('gr', 'gravity', 'm s-2', intent=it),
                                            V('z', 'geopotential_height', 'km', dims=(HL, L), intent=it),
                                            V('n', 'step_number', 'count', 'integer', intent=it),
                                            V('m', 'column_category', 'index', 'integer', 'ikind', dims=(HL,), intent=it)]}))
    s.append(Scheme('same', {'run': [nc(), V('u', 'x_wind', 'm s-1', kind='kind_host', dims=(HL, L), intent='inout')]}))
    return Spec('kinds', [h], s, [Suite('kd', [('g1', ['k_in', 'k_out', 'same', 'k_inout', 'k_in'])])],
                flags=['--kind-type', 'kind_phys=REAL64', '--kind-type', 'kind_host=REAL32', '--kind-type', 'ikind=INT64'])


kinds.drive = life(chunks=True)


# ------------------------------------------------------------------ conditional variables
def _flag(std):
    return lambda get: get(std)


def opt_host(extra=()):
    return host([V('do_a', 'do_option_a', 'flag', 'logical'), V('nmode', 'mode_selector', '1', 'integer'),
                 V('qa', 'option_a_mixing_ratio', 'kg kg-1', dims=(H, L), active='(do_option_a)', cond=_flag('do_option_a')),
                 V('pb', 'option_b_pressure', 'Pa', dims=(H,), active='(mode_selector == 2)', cond=lambda g: g('mode_selector') == 2),
                 V('sc', 'option_a_scale', 'm', active='(do_option_a)', cond=_flag('do_option_a'))] + list(extra))


def opt_args(intent, names=('qa', 'pb', 'sc'), units=('kg kg-1', 'Pa', 'm'), hd=HL):
    return [V(names[0], 'option_a_mixing_ratio', units[0], dims=(hd, L), intent=intent, optional=True),
            V(names[1], 'option_b_pressure', units[1], dims=(hd,), intent=intent, optional=True),
            V(names[2], 'option_a_scale', units[2], intent=intent, optional=True)]


@scenario('P04')
def optional():
    s = [Scheme('o_in', {'run': [nc(), nl()] + opt_args('in')}), Scheme('o_out', {'run': [nc(), nl()] + opt_args('out')}),
         Scheme('o_io', {'run': [nc(), nl()] + opt_args('inout')}), Scheme('plain', {'run': [nc(), T()]})]
    return Spec('optional', [opt_host()], s, [Suite('op', [('g1', ['o_in', 'plain', 'o_out']), ('g2', ['o_io', 'o_in', 'o_out'])])])


optional.drive = life(chunks=True)


@scenario('P04', 'P03')
def optional_units():
    u = ('g kg-1', 'hPa', 'km')
    s = [Scheme('o_in', {'run': [nc(), nl()] + opt_args('in', units=u)}), Scheme('o_out', {'run': [nc(), nl()] + opt_args('out', units=u)}),
         Scheme('o_io', {'run': [nc(), nl()] + opt_args('inout', units=u)}), Scheme('plain', {'run': [nc(), T()]})]
    return Spec('optunits', [opt_host()], s, [Suite('op', [('g1', ['o_in']), ('g2', ['o_out']), ('g3', ['o_io', 'plain', 'o_in', 'o_out'])])])


optional_units.drive = life(chunks=True)


@scenario('P04')
def optional_names():
    """Schemes use different dummy names for the same conditional variable and the same name for different ones."""
    h = opt_host([V('qc', 'option_c_mixing_ratio', 'kg kg-1', dims=(H, L), active='(do_option_c)', cond=_flag('do_option_c')),
                  V('do_c', 'do_option_c', 'flag', 'logical')])
    q = lambda n, x, it, u='kg kg-1': V(n, 'option_%s_mixing_ratio' % x, u, dims=(HL, L), intent=it, optional=True)
    s = [Scheme('s_one', {'run': [nc(), nl(), q('x', 'a', 'inout'), q('y', 'c', 'in')]}),
         Scheme('s_two', {'run': [nc(), nl(), q('x', 'c', 'inout'), q('z', 'a', 'in')]}),
         Scheme('s_three', {'run': [nc(), nl(), q('y', 'a', 'inout', 'g kg-1'), q('x', 'c', 'out')]})]
    return Spec('optnames', [h], s, [Suite('op', [('g1', ['s_one', 's_two', 's_three', 's_one']), ('g2', ['s_three', 's_two'])])])


optional_names.drive = life()


@scenario('P04', changing=True)
def optional_changing():
    """The condition changes during the phase (a scheme writes it), in a loop too."""
    s = [Scheme('s_set', {'run': [V('f', 'do_option_a', 'flag', 'logical', intent='inout')]}),
         Scheme('s_use', {'run': [nc(), nl(), V('q', 'option_a_mixing_ratio', 'kg kg-1', dims=(HL, L), intent='inout', optional=True)]}),
         Scheme('s_cnv', {'run': [nc(), nl(), V('q', 'option_a_mixing_ratio', 'g kg-1', dims=(HL, L), intent='inout', optional=True)]})]
    return Spec('optchg', [opt_host()], s, [Suite('op', [('g1', ['s_use', 's_set', 's_use', 's_set', 's_cnv'])])])


optional_changing.drive = life()


@scenario('P04')
def optional_phases():
    """Conditional variables in phases other than run, and an optional argument for an always active variable."""
    s = [Scheme('s_one', {'initialize': [nch(), nl()] + opt_args('out', hd=H), 'timestep_initial': [nch(), nl()] + opt_args('inout', hd=H),
                          'run': [nc(), nl(), T('inout', optional=True), PS('in', units='hPa', optional=True)],
                          'timestep_final': [nch(), nl()] + opt_args('in', hd=H, units=('g kg-1', 'hPa', 'km'))}),
         Scheme('s_two', {'run': [nc(), V('ghost', 'never_provided', '1', dims=(HL,), intent='out', optional=True), PS()]})]
    return Spec('optphases', [opt_host()], s, [Suite('op', [('g1', ['s_one', 's_two'])])])


optional_phases.drive = life()


# ------------------------------------------------------------------ suite-owned variables
@scenario('P10', 'P02')
def owned():
    """Variables exchanged between schemes only: within a group, across groups, phases and time steps."""
    A = lambda n, it, hd=HL, **k: V(n, 'interstitial_a', 'K', dims=(hd, L), intent=it, **k)
    B = lambda n, it: V(n, 'interstitial_b', 'm', dims=(HL,), intent=it)
    C = lambda n, it: V(n, 'interstitial_count', '1', 'integer', intent=it)
    s = [Scheme('prod', {'run': [nc(), nl(), A('xa', 'out'), B('xb', 'out')], 'initialize': [C('n', 'out')], 'timestep_initial': [C('n', 'inout')]}),
         Scheme('cons', {'run': [nc(), nl(), A('za', 'in'), B('zb', 'inout'), C('k', 'in')], 'finalize': [C('k', 'in')]}),
         Scheme('cons2', {'run': [nc(), nl(), A('a', 'inout'), C('k', 'inout')], 'timestep_final': [C('k', 'in')]})]
    return Spec('owned', [host()], s, [Suite('ow', [('g1', ['prod', 'cons']), ('g2', ['cons2', 'cons2'])])])


owned.drive = life(steps=2, again=True, chunks=True)


@scenario('P10', 'P03')
def owned_units():
    s = [Scheme('prod', {'run': [nc(), nl(), V('a', 'interstitial_a', 'K', dims=(HL, L), intent='out'), V('b', 'interstitial_b', 'm', dims=(HL,), intent='out')]}),
         Scheme('cons', {'run': [nc(), nl(), V('a', 'interstitial_a', 'C', dims=(HL, L), intent='inout'), V('b', 'interstitial_b', 'km', dims=(HL,), intent='in')]}),
         Scheme('cons2', {'run': [nc(), nl(), V('x', 'interstitial_a', 'K', dims=(HL, L), intent='in')]})]
    return Spec('ownunits', [host()], s, [Suite('ow', [('g1', ['prod', 'cons', 'cons2']), ('g2', ['cons2', 'cons'])])])


owned_units.drive = life(chunks=True)


@scenario('P10')
def owned_phases():
    """Producers outside run; a host-dimensioned table made in init; time-step persistence."""
    s = [Scheme('prod', {'initialize': [V('nb', 'number_of_bands', 'count', 'integer', intent='in'),
                                        V('tab', 'made_table', '1', dims=('number_of_bands',), intent='out')],
                         'timestep_initial': [nch(), V('w', 'work_array', '1', dims=(H,), intent='out', extra=['persistence = timestep'])]}),
         Scheme('cons', {'run': [nc(), V('nb', 'number_of_bands', 'count', 'integer', intent='in'),
                                 V('tab', 'made_table', '1', dims=('number_of_bands',), intent='in'),
                                 V('w', 'work_array', '1', dims=(HL,), intent='inout', extra=['persistence = timestep'])],
                         'timestep_final': [nch(), V('w', 'work_array', '1', dims=(H,), intent='in', extra=['persistence = timestep'])]})]
    return Spec('ownphases', [host([V('nb', 'number_of_bands', 'count', 'integer')])], s,
                [Suite('ow', [('g1', ['prod', 'cons']), ('g2', ['cons'])])], sizes={'number_of_bands': 3})


owned_phases.drive = life(steps=2, again=True, chunks=True)


@scenario('P10', 'P02')
def owned_defaults():
    """Variables that nobody provides but that have a default value: of one group (scalar, array, changed by a scheme), of one
    phase, of several groups, read in other units."""
    D = lambda n, it, std, dv, units='1', type='real', dims=(): V(n, std, units, type, dims=dims, intent=it, extra=(
        ['default_value = ' + dv] if dv else []))
    K = '_kind_phys'
    s = [Scheme('first', {'initialize': [D('ci', 'in', 'initial_coefficient', '4.5' + K)],
                          'timestep_final': [D('m', 'inout', 'final_count', '7', 'count', 'integer')],
                          'run': [nc(), D('c', 'in', 'shared_coefficient', '2.5' + K, 'm'), D('k', 'inout', 'local_count', '3', 'count', 'integer'),
                                  D('w', 'inout', 'shared_weight', '1.5' + K, 'm', dims=(HL,)), D('q', 'in', 'local_coefficient', '-0.25' + K, 'K')]}),
         Scheme('second', {'run': [nc(), D('c', 'in', 'shared_coefficient', None, 'mm'), D('kk', 'in', 'local_count', '4', 'count', 'integer'),
                                   D('w2', 'in', 'shared_weight', None, 'm', dims=(HL,)), D('qq', 'inout', 'local_coefficient', None, 'K')]}),
         Scheme('third', {'run': [nc(), D('c', 'in', 'shared_coefficient', '7.5' + K, 'm'), D('w2', 'inout', 'shared_weight', None, 'm', dims=(HL,))]})]
    return Spec('defaults', [host()], s, [Suite('dv', [('g1', ['first', 'second']), ('g2', ['third'])])])


owned_defaults.drive = life(steps=2, again=True, chunks=True)


@scenario('P01', 'P02', 'P03', 'P04', 'P05', errors=True)
def levels():
    """Schemes that work on one level at a time are called for every level."""
    lev = lambda s, u, i, n='x', **kw: V(n, s, u, dims=(HL,), intent=i, **kw)
    s = [Scheme('s_one', {'run': [nc(), T()]}),
         Scheme('s_lev', {'run': [nc(), PS('inout', units='hPa'), lev('temperature', 'K', 'inout'), lev('mixing_ratio', 'g kg-1', 'in', 'q')]}),
         Scheme('s_lv2', {'run': [lev('temperature', 'C', 'inout', 'y'), lev('mixing_ratio', 'kg kg-1', 'inout', 'q'), nc()]}),
         Scheme('s_lvi', {'run': [lev('wind_if', 'm s-1', 'inout', 'w'), nc(), CNT('in')]})]
    h = host(extra=[V('qv', 'mixing_ratio', 'kg kg-1', dims=(H, L)), V('wi', 'wind_if', 'm s-1', dims=(H, LI))], li=True)
    return Spec('levels', [h], s, [Suite('sub', [('g1', ['s_one', 's_lev', 's_lv2', Sub('2', ['s_lvi', 's_lev']), 's_one']), ('g2', ['s_lv2'])])])


levels.drive = life(chunks=True)


@scenario('P01', 'P02')
def levels_split():
    """Schemes of one level in time_split elements, first, between and after schemes of whole columns."""
    lev = lambda s, u, i, n='x', **kw: V(n, s, u, dims=(HL,), intent=i, **kw)
    s = [Scheme('s_one', {'run': [nc(), nl(), T()]}), Scheme('s_lev', {'run': [nc(), lev('temperature', 'K', 'inout')]}),
         Scheme('s_lv2', {'run': [lev('temperature', 'K', 'inout', 'y'), CNT('inout'), nc()]})]
    return Spec('levsplit', [host()], s, [Suite('sub', [('g1', [Sub(None, ['s_lev', 's_one', 's_lv2']), 's_lev']), ('g2', [Sub('2', [Sub(None, ['s_lv2', 's_lev'])]), 's_one', 's_lev', 's_lv2'])])])


levels_split.drive = life(chunks=True)


@scenario('P01', 'P03', 'P04', 'P10')
def levels_own():
    """Levels of conditional variables and of variables the suite owns."""
    lev = lambda s, u, i, n='x', **kw: V(n, s, u, dims=(HL,), intent=i, **kw)
    own = V('o', 'own_it', 'K', dims=(H, L), intent='out')
    s = [Scheme('s_own', {'initialize': [nch(), nl(), own], 'run': [nc(), lev('temperature', 'K', 'inout'), lev('own_it', 'K', 'inout', 'o')]}),
         Scheme('s_lev', {'run': [nc(), lev('own_it', 'C', 'inout', 'oo'), lev('opt_ratio', 'g kg-1', 'inout', 'qo', optional=True), lev('wind_if', 'm s-1', 'in', 'w')]}),
         Scheme('s_all', {'run': [nc(), nl(), V('o', 'own_it', 'K', dims=(HL, L), intent='in'), V('q', 'opt_ratio', 'kg kg-1', dims=(HL, L), intent='inout', optional=True)]})]
    h = host(extra=[V('qo', 'opt_ratio', 'kg kg-1', dims=(H, L), active='(flag_b)', cond=lambda g: g('flag_b')), V('fb', 'flag_b', 'flag', 'logical'), V('wi', 'wind_if', 'm s-1', dims=(H, L))])
    return Spec('levels_own', [h], s, [Suite('sub', [('g1', ['s_own', 's_lev', 's_all'])])])


levels_own.drive = life(chunks=True)
