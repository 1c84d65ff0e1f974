"""Debug caps: a wrongly sized array is reported before the scheme runs; with right sizes they behave exactly like caps without checks."""
from vt.capgen.check import main as _main, Variant, at_most
from vt.capgen.scenarios import REG
from vt.capgen import scenarios as S


class Make:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self):
        sp = REG[self.__name__]['make']()
        sp.flags = sp.flags + ['--debug']
        return sp

    @property
    def drive(self):
        return REG[self.__name__]['make'].drive


class Done(Exception):
    pass


class Wrong:
    """History up to the report of the wrong size."""
    def __init__(self, name):
        self.name = name

    def __call__(self, run):
        orig = run.call_phase

        def call(*a, **k):
            orig(*a, **k)
            if run.stopped is not None:
                raise Done()
        run.call_phase = call
        try:
            REG[self.name]['make'].drive(run)
        except Done:
            pass


def resize(run, v, shp):
    if run.resized is None:
        used = {a.std for sc in run.spec.schemes.values() for p in sc.entries if p != 'run' for a in sc.args(p)}
        stds = [s for s, (w, p) in run.paths.items() if w.dims and s in used and not any(x[0] == 'index' for x in p)
                and not any(x.base == w.base and '(' in x.local for x in run.spec.allvars())]
        run.resized = run.eng.pick(stds) if stds else ''
    if v.std != run.resized:
        return shp
    i = run.eng.pick(list(range(len(shp))))
    d = run.eng.pick([1, -1])
    return shp[:i] + [shp[i] + d] + shp[i + 1:]


def whole(n):
    sp = REG[n]['make']()
    used = {a.std for sc in sp.schemes.values() for p in sc.entries if p != 'run' for a in sc.args(p)}
    return any(v.dims and std in used and not any(x[0] == 'index' for x in p) for std, (v, p) in sp.host_paths().items())


def variants(n, mk):
    vs = [Variant('same', allprops=True), Variant('errors', errors=at_most(1), allprops=True, validate=False)]
    if whole(n):
        vs.append(Variant('wrong', drive=Wrong(n), resize=resize, validate=False))
    return vs


def main(tier):
    makes = {n: Make(n) for n in REG if not REG[n].get('nodebug')}
    return _main('P09', tier, names=list(makes), makes=makes, variants=variants,
                 bounds=['wrong sizes: one host array, one dimension one element too long or too short, every phase other than run '
                         '(run passes sections with the declared bounds)'])
