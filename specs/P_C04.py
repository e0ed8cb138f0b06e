"""C04: struct_of_arrays and zipped.  The iterator laws are stated as calls of the library's own operators inside the wrapper (each law is
an obligation of its own: for all positions i, j and sizes n); reads, writes and growth are postconditions on the columns."""
from speclib import *
from values import BV1

k = z3.Int('k')


def cols(ex, n, s=''):
    a, b = ex.array('a' + s, 32, n), ex.array('b' + s, 64, n)
    return a, b, ex.init.mem[('a' + s, 0)], ex.init.mem[('b' + s, 0)]


def base(ex, room=0):
    n = ex.int('n', 64, 0, 2**39)
    a, b, A, B = cols(ex, n.e + room)
    ex.handlers = std_handlers(ex)
    return n, a, b, A, B


def laws(ex):
    n, a, b, A, B = base(ex)
    i, j = ex.int('i', 64, 0, 2**39), ex.int('j', 64, 0, 2**39)
    ex.assume(And(i.e <= n.e, j.e <= n.e))
    ex.params = [ex.ptr(a), ex.ptr(b), n, i, j]
    ex.post_fn = lambda ex, st, r: [('the columns are untouched', FA([k], Imp(rng(0, k, n.e), And(st.mem[('a', 0)][k] == A[k], st.mem[('b', 0)][k] == B[k]))))]


def read(q):
    def f(ex):
        n, a, b, A, B = base(ex)
        i, j = ex.int('i', 64, 0, 2**39), ex.int('j', 64, 0, 2**39)
        ex.assume(And(i.e < n.e, j.e < n.e))
        ex.params = [ex.ptr(a), ex.ptr(b), n, i, j]
        ex.post_fn = lambda ex, st, r: [('component %d of element j is entry j of column %d' % (q, q), r.e == (A, B)[q][j.e])]
    return f


def write(kind):
    def f(ex):
        n, a, b, A, B = base(ex)
        j, x, y = ex.int('j', 64, 0, 2**39), ex.int('x', 32, 0, 2**32 - 1), ex.int('y', 64, 0, 2**64 - 1)
        i = ex.int('i', 64, 0, 2**39)
        ex.assume(j.e < n.e)
        if kind == 'swap':
            ex.assume(i.e < n.e)
        ex.params = [ex.ptr(a), ex.ptr(b), n] + {'each': [y], 'swap': [i, j]}.get(kind, [j, x, y])
        if kind == 'each':
            ex.params = ex.params

            def cands(ex, L, st):
                out = []
                for q in L.idxlike():
                    out.append(('written below ' + q.name, FA([k], Imp(And(0 <= k, k < q.sym), st.mem[('b', 0)][k] == (A[k] + y.e) % 2**64), [st.mem[('b', 0)][k]])))
                    out.append(('unwritten from ' + q.name, FA([k], Imp(And(q.sym <= k, k < n.e), st.mem[('b', 0)][k] == B[k]), [st.mem[('b', 0)][k]])))
                return out
            ex.cand_fn = cands

        def post(ex, st, r):
            A1, B1 = st.mem[('a', 0)], st.mem[('b', 0)]
            if kind == 'each':
                return [('every element was visited once and its second component written', FA([k], Imp(rng(0, k, n.e), B1[k] == (A[k] + y.e) % 2**64))),
                        ('the first column is unchanged', FA([k], Imp(rng(0, k, n.e), A1[k] == A[k])))]
            if kind == 'swap':
                return [('the two elements are exchanged', And(A1[i.e] == A[j.e], A1[j.e] == A[i.e], B1[i.e] == B[j.e], B1[j.e] == B[i.e])),
                        ('other elements unchanged', FA([k], Imp(And(rng(0, k, n.e), k != i.e, k != j.e), And(A1[k] == A[k], B1[k] == B[k]))))]
            return [('element j of every column is the written one', And(A1[j.e] == x.e, B1[j.e] == y.e)),
                    ('other elements unchanged', FA([k], Imp(And(rng(0, k, n.e), k != j.e), And(A1[k] == A[k], B1[k] == B[k]))))]
        ex.post_fn = post
    return f


def grow(kind):
    def f(ex):
        kk = ex.int('kk', 64, 0, 2**39)
        n = ex.int('n', 64, 0, 2**39)
        cap = {'push': n.e + 1, 'resize': If(kk.e >= n.e, kk.e, n.e)}.get(kind, n.e)
        a, b, A, B = cols(ex, cap)
        ex.handlers = std_handlers(ex)
        j, x, y = ex.int('j', 64, 0, 2**39), ex.int('x', 32, 0, 2**32 - 1), ex.int('y', 64, 0, 2**64 - 1)
        if kind == 'at':
            ex.assume(j.e < n.e)
        ex.params = [ex.ptr(a), ex.ptr(b), n] + {'push': [x, y], 'at': [j, x, y], 'clear': [], 'resize': [kk]}[kind]
        at = {'push': n.e, 'at': j.e}.get(kind)
        m = {'push': n.e + 1, 'at': n.e, 'clear': z3.IntVal(0), 'resize': kk.e}[kind]

        def post(ex, st, r):
            A1, B1 = [st.mem[(ex.results[q][0].base.name, 0)] for q in (0, 1)]
            out = [('every column and the container have the new size', And(*[ex.results[q][1] == m for q in (0, 1, 2)]))]
            if at is not None:
                out.append(('the new element is the given tuple', And(A1[at] == x.e, B1[at] == y.e)))
            keep = And(rng(0, k, m), k < n.e)
            out.append(('earlier elements are unchanged', FA([k], Imp(keep if at is None else And(keep, k != at), And(A1[k] == A[k], B1[k] == B[k])))))
            if kind == 'resize':
                out.append(('new elements are value-initialised', FA([k], Imp(And(n.e <= k, k < m), And(A1[k] == 0, B1[k] == 0)))))
            return out
        ex.post_fn = post
    return f


def equal(ex):
    n = ex.int('n', 64, 0, 2**39)
    n2 = ex.int('n2', 64, 0, 2**39)
    a, b, A, B = cols(ex, n.e)
    a2, b2, A2, B2 = cols(ex, n2.e, '2')
    ex.handlers = std_handlers(ex)
    ex.params = [ex.ptr(a), ex.ptr(b), n, ex.ptr(a2), ex.ptr(b2), n2]
    same = FA([k], Imp(rng(0, k, n.e), And(A[k] == A2[k], B[k] == B2[k])), [A[k]])

    def cands(ex, L, st):
        out = []
        for q in L.idxlike():
            out += [('equal below %s (%d)' % (q.name, c), FA([k], Imp(And(0 <= k, k < q.sym), X[k] == Y[k]), [X[k]])) for c, (X, Y) in enumerate(((A, A2), (B, B2)))]
            out.append(('flag', And(*[Not(ph.sym) for ph in L.phis if ph.kind == 'bool'])))
        return out
    ex.cand_fn = cands

    def post(ex, st, r):
        return [('equal containers have the same elements', Imp(tr(r), And(n.e == n2.e, same))),
                ('containers with the same elements are equal', Imp(And(n.e == n2.e, same), tr(r)))]
    ex.post_fn = post



def tr(r):
    return r.c if isinstance(r, BV1) else r.e == 1


FUNCS = []
for c, nm in (('soa', 'struct_of_arrays'), ('csoa', 'const struct_of_arrays'), ('zip', 'zipped')):
    FUNCS.append(FS('nw::graph::%s::soa_iterator: + - += -= ++ -- == <=>, begin, end, size' % nm, 'zip.cpp', 'vp_%s_laws' % c, 'random-access laws', laws))
    for q in (0, 1):
        FUNCS.append(FS('nw::graph::%s: operator[], soa_iterator operator*, operator[], operator-> (component %d)' % (nm, q), 'zip.cpp', 'vp_%s_read%d' % (c, q), 'element j is the tuple of the j-th entries', read(q)))
    if c != 'csoa':
        for w in ('index', 'deref', 'sub', 'each', 'swap'):
            FUNCS.append(FS('nw::graph::%s: write through %s' % (nm, {'index': 'operator[]', 'deref': '*iterator', 'sub': 'iterator[n]', 'each': 'range-for', 'swap': 'std::iter_swap'}[w]),
                            'zip.cpp', 'vp_%s_w_%s' % (c, w), 'exactly that element of each column is written', write(w)))
        FUNCS.append(FS('nw::graph::%s::operator==' % nm, 'zip.cpp', 'vp_%s_eq' % c, 'equal exactly when same size and same elements', equal))
for e, kd in (('push', 'push'), ('push_t', 'push'), ('at', 'at'), ('at_t', 'at'), ('clear', 'clear'), ('resize', 'resize')):
    FUNCS.append(FS('nw::graph::struct_of_arrays::' + {'push': 'push_back', 'at': 'push_at'}.get(kd, kd), 'zip.cpp', 'vp_soa_' + e, 'all columns change in step', grow(kd)))
ASSUME = ['columns have fewer than 2^39 entries']
HARNESS = 'C04.cpp'
BOUND = 'sizes up to 12 with every pair of positions, random growth histories of 40 steps, sorts of up to 1200 random elements'
BOUNDED = ['std::sort / std::reverse over the zipped iterators (libstdc++ algorithms on the real iterators)', 'three-column instances']
