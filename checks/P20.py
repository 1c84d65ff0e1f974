"""P20: the hash table is a map (src/ccpp_hash_table.F90, src/ccpp_hashable.F90)."""
import itertools
import os
import subprocess
import z3
from vt.engine import Counterexample
from vt.runner import Check, Result, explore_job, run_jobs, gfortran, run_exe, REPO
from vt.fort.interp import Program, World, Slot, Cell, SymC, Fault, Stop, UNDEF, mkchar, chars, is_sym
from vt.fort.parser import Decl, TypeSpec

SRC = [os.path.join(REPO, 'src', f) for f in ('ccpp_hashable.F90', 'ccpp_hash_table.F90')]
ERRLEN = 512


# ---------------------------------------------------------------- oracle
def oracle(ops, eq):
    """Expected transcript.  ops over key indices; eq(i, j): do the two keys denote the same key?"""
    out = []
    table = None          # list of key indices in the table
    for op in ops:
        k = op[0]
        if k == 'init':
            table = []
        elif k == 'clear':
            table = None
        elif k == 'isinit':
            out.append(('isinit', table is not None))
        elif k == 'count':
            out.append(('count', len(table) if table is not None else 0))
        elif k in ('add', 'addq'):
            dup = any(eq(i, op[1]) for i in table)
            if not dup:
                table.append(op[1])
            out.append(('add', (not dup) if k == 'add' else None))
        elif k in ('get', 'getq'):
            hit = None
            for i in table:
                if eq(i, op[1]):
                    hit = i
            out.append(('get', hit, (hit is not None) if k == 'get' else None))
        elif k == 'iter':
            out.append(('iter', tuple(sorted(table or ()))))
    return out


# ---------------------------------------------------------------- symbolic run of the real code
def run_real(w, ops, keys):
    """Transcript of the encoded code; keys: list of character values."""
    ht = w.scope('ccpp_hash_table')
    tbl = Cell('d', w.make_dt(w.find_type('ccpp_hash_table_t', ht)))
    frame = ht
    objs = []
    for k in keys:
        s = Slot('obj', None, 0, False, True, w.scope('ccpp_hashable'))
        s.decl = Decl('obj', TypeSpec('type', dt='ccpp_hashable_char_t'), None, frozenset({'pointer'}), None, None, None, 0)
        w.call('ccpp_hashable', 'new_hashable_char', Cell('c', k, len(chars(k))), s)
        objs.append(s.val)
    err = Cell('c', '', ERRLEN)

    def ident(ref):
        if isinstance(ref, Slot):
            ref = ref.val
        if ref is None:
            return None
        for i, o in enumerate(objs):
            if o is ref:
                return i
        return 'foreign'

    def msg_clean():
        v = err.v
        return isinstance(v, str) and v.strip() == ''
    call = lambda n, *a: w.call_bound(('py', tbl), n, list(a), frame)
    E = ('kw', 'errmsg', ('py', err))
    out = []
    for op in ops:
        k = op[0]
        if k == 'init':
            call('initialize', ('py', Cell('i', op[1])))
        elif k == 'clear':
            call('clear')
        elif k == 'isinit':
            out.append(('isinit', w.val_of(call('is_initialized'))))
        elif k == 'count':
            out.append(('count', w.val_of(call('num_values'))))
        elif k == 'add':
            err.v = ' ' * ERRLEN
            call('add_hash_key', ('py', objs[op[1]]), E)
            out.append(('add', msg_clean()))
        elif k == 'addq':
            call('add_hash_key', ('py', objs[op[1]]))
            out.append(('add', None))
        elif k == 'get':
            err.v = ' ' * ERRLEN
            r = call('table_value', ('py', Cell('c', keys[op[1]], len(chars(keys[op[1]])))), E)
            out.append(('get', ident(r), msg_clean()))
        elif k == 'getq':
            r = call('table_value', ('py', Cell('c', keys[op[1]], len(chars(keys[op[1]])))))
            out.append(('get', ident(r), None))
        elif k == 'iter':
            it = Cell('d', w.make_dt(w.find_type('ccpp_hash_iterator_t', ht)))
            ic = lambda n, *a: w.call_bound(('py', it), n, list(a), frame)
            ic('initialize', ('py', tbl))
            got = []
            for _ in range(len(keys) + 2):
                if not w.truth(w.val_of(ic('valid'))):
                    break
                r = ident(ic('value'))
                kv = w.val_of(ic('key'))
                if isinstance(r, int) and not w.truth(w.char_eq(kv, keys[r])):
                    r = 'wrongkey'
                got.append(r)
                ic('next')
            else:
                got.append('endless')
            out.append(('iter', tuple(sorted(got, key=str))))
    for o in objs:
        if o.dead:
            out.append(('object freed by the table',))
    return out


_prog = {}


def program():
    if 'p' not in _prog:
        p = Program()
        for f in SRC:
            p.add_file(f)
        _prog['p'] = p
    return _prog['p']


def harness(eng, res, ops, nkeys, lens):
    w = World(program(), eng)
    w.bv = 32
    keys = []
    for i in range(nkeys):
        cs = []
        for j in range(lens[i]):
            c = z3.BitVec('k%d_%d' % (i, j), 8)
            eng.inputs['k%d_%d' % (i, j)] = c
            eng.assume(z3.And(z3.UGE(c, 32), z3.ULE(c, 126)))
            if j == 0:
                eng.assume(c != 32)
            cs.append(c)
        keys.append(SymC(cs))
    memo = {}

    def eq(i, j):
        if i == j:
            return True
        if (i, j) not in memo:
            memo[(i, j)] = memo[(j, i)] = w.truth(w.char_eq(keys[i], keys[j]))
        return memo[(i, j)]
    try:
        got = run_real(w, ops, keys)
    except (Fault, Stop) as f:
        eng.check(False, 'fault: %s' % f, dict(ops=ops, lens=lens))
    want = oracle(ops, eq)
    want = [tuple(sorted(x, key=str)) if isinstance(x, tuple) and False else x for x in want]
    want = [(x[0], tuple(sorted(x[1], key=str))) if x[0] == 'iter' else x for x in want]
    eng.reach('compared')
    if len(res.samples) < 2:
        res.samples.append(dict(ops=ops, lens=lens, transcript=str(got), witness=eng.concrete_inputs(eng.get_model())))
    # the comparison of transcripts; booleans/counters may be symbolic
    conds = []
    ok = len(got) == len(want)
    if ok:
        for g, x in zip(got, want):
            for a, b in zip(g, x):
                if is_sym(a):
                    conds.append(a == b)
                elif a != b:
                    ok = False
    eng.check(ok if not ok or not conds else z3.And(*conds), 'transcript differs: got %s, expected %s' % (got, want),
              dict(ops=ops, lens=lens))


def job(name, ops, nkeys, lens, budget):
    return explore_job(name, lambda e, r: harness(e, r, ops, nkeys, lens), budget=budget)


# ---------------------------------------------------------------- replay / validation with gfortran
def fstr(s):
    return "'" + s.replace("'", "''") + "'"


def driver(ops, keys):
    L = ["program drv", " use ccpp_hashable", " use ccpp_hash_table", " implicit none",
         " type(ccpp_hash_table_t), target :: tbl", " type(ccpp_hash_iterator_t) :: it",
         " class(ccpp_hashable_t), pointer :: v", " character(len=%d) :: err" % ERRLEN, " integer :: n"]
    for i in range(len(keys)):
        L.append(" type(ccpp_hashable_char_t), pointer :: o%d" % i)
    for i, k in enumerate(keys):
        L.append(" nullify(o%d)\n call new_hashable_char(%s, o%d)" % (i, fstr(k), i))

    def ident(tag):
        s = [" n = -1", " if (.not. associated(v)) then", "  write(*,'(a)', advance='no') '%s none'" % tag, " else"]
        for i in range(len(keys)):
            s.append("  if (associated(v, o%d)) n = %d" % (i, i))
        s.append("  write(*,'(a,i0)', advance='no') '%s ', n" % tag)
        s.append(" end if")
        return s
    for op in ops:
        k = op[0]
        if k == 'init':
            L.append(" call tbl%%initialize(%d)" % op[1])
        elif k == 'clear':
            L.append(" call tbl%clear()")
        elif k == 'isinit':
            L.append(" write(*,'(a,l1)') 'isinit ', tbl%is_initialized()")
        elif k == 'count':
            L.append(" write(*,'(a,i0)') 'count ', tbl%num_values()")
        elif k == 'add':
            L.append(" err = ''\n call tbl%%add_hash_key(o%d, errmsg=err)\n write(*,'(a,l1)') 'add ', len_trim(err) == 0" % op[1])
        elif k == 'addq':
            L.append(" call tbl%%add_hash_key(o%d)\n write(*,'(a)') 'add -'" % op[1])
        elif k == 'get':
            L.append(" err = ''\n v => tbl%%table_value(%s, errmsg=err)" % fstr(keys[op[1]]))
            L += ident('get')
            L.append(" write(*,'(a,l1)') ' ', len_trim(err) == 0")
        elif k == 'getq':
            L.append(" v => tbl%%table_value(%s)" % fstr(keys[op[1]]))
            L += ident('get')
            L.append(" write(*,'(a)') ' -'")
        elif k == 'iter':
            L.append(" call it%initialize(tbl)")
            L.append(" do while (it%valid())\n  v => it%value()")
            L += ident('item')
            L.append("  write(*,'(3a)') ' [', it%key(), ']'\n  call it%next()\n end do\n write(*,'(a)') 'enditer'")
    L.append(" write(*,'(a)') 'done'")
    L.append("end program drv")
    return '\n'.join(L) + '\n'


def expected_text(ops, keys):
    """Canonical expected transcript in the driver's notation (items sorted)."""
    eq = lambda i, j: keys[i].rstrip() == keys[j].rstrip()
    out = []
    for x in oracle(ops, eq):
        if x[0] == 'isinit':
            out.append('isinit %s' % ('T' if x[1] else 'F'))
        elif x[0] == 'count':
            out.append('count %d' % x[1])
        elif x[0] == 'add':
            out.append('add %s' % ('-' if x[1] is None else 'T' if x[1] else 'F'))
        elif x[0] == 'get':
            out.append('get %s %s' % ('none' if x[1] is None else x[1], '-' if x[2] is None else 'T' if x[2] else 'F'))
        elif x[0] == 'iter':
            out.extend(sorted('item %d [%s]' % (i, keys[i]) for i in x[1]))
            out.append('enditer')
    out.append('done')
    return out


def canon(text):
    out, items = [], []
    for l in text.splitlines():
        if l.startswith('item'):
            items.append(l)
        else:
            if items:
                out.extend(sorted(items))
                items = []
            out.append(l)
    return out + sorted(items)


def concrete_run(ck, tag, ops, keys):
    d = os.path.join(ck.scratch, tag)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'drv.F90'), 'w') as f:
        f.write(driver(ops, keys))
    ok, out = gfortran(SRC + ['drv.F90'], './drv', d, flags=['-g', '-fcheck=all', '-fsanitize=address'])
    if not ok:
        return None, 'compile error: ' + out[:2000]
    rc, out = run_exe(os.path.join(d, 'drv'), d, timeout=10)
    return (rc == 0 and canon(out) == expected_text(ops, keys)), 'exit status %s\n%s' % (rc, out[:3000])


def keys_from(inputs, lens):
    return [''.join(chr(inputs.get('k%d_%d' % (i, j), 65)) for j in range(n)) for i, n in enumerate(lens)]


def scenarios(thorough):
    S = []
    full = lambda n: [('get', i) for i in range(n)]
    tabs = (0, 1, 2) if not thorough else (0, 1, 2, 3)
    for t in tabs:
        S.append(('empty%d' % t, [('isinit',), ('init', t), ('isinit',), ('iter',), ('count',), ('get', 0)], [1]))
        S.append(('one%d' % t, [('init', t), ('add', 0), ('get', 0), ('get', 1), ('getq', 1), ('iter',), ('count',)], [2, 2]))
        S.append(('three%d' % t, [('init', t), ('add', 0), ('add', 1), ('count',), ('add', 2), ('count',)] + full(4) + [('iter',)],
                  [1, 1, 1, 1]))
        S.append(('lens%d' % t, [('init', t), ('add', 0), ('addq', 1), ('get', 0), ('getq', 1), ('get', 2), ('iter',), ('count',)],
                  [1, 2, 3]))
        S.append(('clear%d' % t, [('init', t), ('add', 0), ('add', 1), ('clear',), ('isinit',), ('count',), ('iter',), ('init', t), ('get', 0),
                                  ('iter',), ('add', 1), ('get', 1), ('get', 0), ('iter',), ('count',)], [1, 1]))
        S.append(('reinit%d' % t, [('init', t), ('add', 0), ('add', 1), ('init', t), ('count',), ('get', 0), ('add', 0), ('get', 0),
                                   ('get', 1), ('iter',)], [1, 1]))
    S.append(('chain0', [('init', 0)] + [('add', i) for i in range(4)] + full(4) + [('iter',), ('count',)], [1, 1, 1, 1]))
    S.append(('dup1', [('init', 1), ('add', 0), ('add', 1), ('add', 0), ('get', 0), ('add', 1), ('get', 1), ('count',), ('iter',)], [2, 2]))
    S.append(('chain1', [('init', 1)] + [('add', i) for i in range(4)] + full(4) + [('iter',), ('count',)], [1, 1, 1, 1]))
    if thorough:
        S.append(('chain5', [('init', 0)] + [('add', i) for i in range(5)] + full(5) + [('iter',), ('count',)], [1] * 5))
        S.append(('chain5b', [('init', 1)] + [('add', i) for i in range(5)] + full(5) + [('iter',), ('count',)], [1] * 5))
        S.append(('long', [('init', 2), ('add', 0), ('add', 1), ('add', 2), ('get', 3), ('iter',), ('count',)], [4, 4, 3, 5]))
        S.append(('maxidx', [('init', 2), ('add', 0), ('add', 1), ('get', 0), ('get', 1), ('get', 2), ('iter',)], [17, 17, 17]))
    else:
        S.append(('maxidx', [('init', 1), ('add', 0), ('get', 0), ('get', 1), ('iter',)], [17, 16]))
    return S


def main(tier):
    ck = Check('P20', tier, 'model_checking')
    ck.functions = ['hash_table_initialize_table', 'hash_table_key_hash', 'hash_table_add_hash_key', 'hash_table_table_value',
                    'hash_table_num_values', 'hash_table_clear_table', 'finalize_table_entry', 'hash_iterator_*',
                    'new_hashable_char', 'ccpp_hashable_char_get_key']
    ck.bounds = ['keys of 1-5 (and 16/17) symbolic printable characters', 'up to 4 (thorough: 5) insertions',
                 'tables of 1, 2, 4 (thorough: 8) buckets, key hash computed by the real code in 32-bit arithmetic',
                 'operation sequences listed in scenarios()']
    ck.assumptions = ['keys are not blank (documented precondition)', 'integer hashables share the code path after key()']
    S = scenarios(ck.thorough)
    budget = 3000 if ck.thorough else 600
    byname = {n: (o, l) for n, o, l in S}
    rs = run_jobs([(n, job, (n, o, len(l), l, budget), {}) for n, o, l in S])
    for r in rs:
        ops, lens = byname[r.name]
        for c in r.cexs if len(ck.violations) < 3 else []:
            keys = keys_from(c['inputs'], lens)
            ok, out = concrete_run(ck, 'cex_' + r.name, ops, keys)
            if ok is False:
                p = ck.replay_file('%s.F90' % r.name, '! compile with src/ccpp_hashable.F90 src/ccpp_hash_table.F90 -fcheck=all\n! expected:\n' +
                                   ''.join('!   %s\n' % x for x in expected_text(ops, keys)) +
                                   '! observed:\n' + ''.join('!   %s\n' % x for x in out.splitlines()[:40]) + driver(ops, keys))
                ck.violation('%s\nkeys=%r ops=%r\nreal run: %s' % (c['label'], keys, ops, out[:800]), p, key=r.name)
            else:
                ck.errors.append('%s: counterexample did not reproduce (%s): %s' % (r.name, c['label'], out[:500]))
        ck.add(r)
    # validate the encoding: witnesses of explored paths against the compiled library
    if not ck.violations:
        for r in rs[:8]:
            ops, lens = byname[r.name]
            for s in r.samples[:1]:
                keys = keys_from(s['witness'], lens)
                ok, out = concrete_run(ck, 'val_' + r.name, ops, keys)
                if ok:
                    ck.validated += 1
                else:
                    ck.errors.append('%s: encoding and compiled code disagree: %s' % (r.name, out[:500]))
    return ck.finish()
