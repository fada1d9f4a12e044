"""Mode-coupling matrices: block structure, signs, parity, purity."""
import itertools
from .common import *   # noqa
from .pyset import *   # noqa


def AB(n):
    return [dict(a=a, b=b) for a in range(n) for b in range(n)]


def check(c):
    P = program(c, True)
    need(P, 'nmt_compute_coupling_matrix')
    c.rule('mcm', 'element (l2,a),(l3,b) of the unbinned coupling matrix equals the pseudo-Cl '
           'coupling coefficient of that pair of spectra; ' + LEMMA)
    it = []
    pures = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 1), (0, 0, 0, 1), (0, 0, 1, 1), (1, 1, 1, 1), (0, 1, 0, 0)]
    full = list(itertools.product((0, 1), repeat=4))
    for s1, s2 in ((0, 0), (0, 2), (2, 0), (2, 2), (0, 1), (1, 2), (1, 1), (0, 3), (3, 2)):
        n = (2 if s1 else 1) * (2 if s2 else 1)
        pp = [(0, 0, 0, 0)]
        if (s1, s2) in ((0, 2), (2, 0), (2, 2)):
            pp = full if c.thorough else pures
            if s1 == 0:
                pp = sorted(set((0, 0) + p[2:] for p in pp))
            if s2 == 0:
                pp = sorted(set(p[:2] + (0, 0) for p in pp))
        if 2 in (s1, s2) and s1 and s2 and s1 != s2:
            # only spin-2 fields can be purified
            pp = [q if s1 == 2 else q[::-1] for q in
                  ((0, 0, 0, 0), (0, 1, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0))]
        for p in pp:
            it.append(('mcm', dict(spin1=s1, spin2=s2, pe1=p[0], pb1=p[1], pe2=p[2],
                                   pb2=p[3], is_teb=0), {'multi': AB(n)}))
    for p in (((0, 0), (0, 1), (1, 1)) if not c.thorough else ((0, 0), (0, 1), (1, 0), (1, 1))):
        it.append(('mcm', dict(spin1=0, spin2=2, pe1=0, pb1=0, pe2=p[0], pb2=p[1], is_teb=1),
                   {'multi': AB(7)}))
    lemmas(c, P, 'mcm', it)
    need(P, 'nmt_compute_coupling_matrix_anisotropic')
    c.rule('aniso', 'same for anisotropically weighted fields: every element is the sum over mask '
           'spectra of the product of the responses of the two fields; ' + LEMMA)
    for s1, s2 in ((0, 2), (2, 0), (2, 2), (0, 1), (1, 2), (1, 1), (3, 2)):
        n = (2 if s1 else 1) * (2 if s2 else 1)
        for a1, a2 in ((0, 1), (1, 0), (1, 1)):
            if (a1 and not s1) or (a2 and not s2):
                continue
            lemmas(c, P, 'aniso', [('aniso', dict(spin1=s1, spin2=s2, an1=a1, an2=a2),
                                    {'multi': AB(n)})])
    flat(c, P)
    c.floor = 500
    pyrule(c, P, 'python', 'Python workspaces compute the matrix of the two fields they are given',
           [i for i in ws_items() + flat_items() + cat_items() if i.name in ('mcm', 'mcm_flat')])


def flat(c, P):
    need(P, 'nmt_compute_coupling_matrix_flat')
    c.rule('flat', 'same for the binned and ring-by-ring matrices of flat-sky fields, and for the '
           'number of modes in each bandpower; ' + LEMMA)
    M = dict(lemma.MODELS, **lemma.FLAT)
    cases = [(0, 0, 0, 0, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0), (0, 0, 0, 2, 0, 0, 0, 0),
             (0, 0, 2, 0, 0, 0, 0, 0), (0, 0, 0, 2, 0, 0, 0, 1), (0, 0, 2, 0, 1, 0, 0, 0),
             (0, 0, 0, 1, 0, 0, 0, 0), (0, 0, 1, 2, 0, 0, 0, 0), (0, 0, 2, 1, 0, 0, 0, 0), (0, 0, 2, 2, 0, 0, 0, 0),
             (0, 0, 2, 2, 0, 1, 1, 0), (0, 0, 2, 2, 1, 0, 0, 1), (0, 1, 2, 2, 0, 1, 0, 1),
             (1, 0, 0, 2, 0, 0, 0, 0), (1, 0, 0, 2, 0, 0, 0, 1)]
    if c.thorough:
        cases += [(0, 0, 2, 2) + p for p in itertools.product((0, 1), repeat=4)]
        cases += [(0, 0, 0, 2, 0, 0) + p for p in itertools.product((0, 1), repeat=2)]
        cases += [(0, 0, 2, 0) + p + (0, 0) for p in itertools.product((0, 1), repeat=2)]
        cases += [(1, 0, 0, 2, 0, 0) + p for p in itertools.product((0, 1), repeat=2)]
        cases += [(0, 0, 3, 1, 0, 0, 0, 0), (0, 0, 3, 2, 0, 0, 0, 0), (0, 0, 0, 3, 0, 0, 0, 0)]
    K = 'is_teb same s1 s2 pe1 pb1 pe2 pb2'.split()
    for x in dict.fromkeys(cases):
        cfg = dict(zip(K, x))
        n = 7 if x[0] else (2 if x[2] else 1) * (2 if x[3] else 1)
        m = [dict(ab, rings=r) for r in (0, 1) for ab in AB(n)] + [dict(a=0, b=0, rings=-1)]
        if n > 4 and not c.thorough:
            # the two blocks are stored independently of each other
            m = [q for q in m if (q['a'] == 0) + (q['b'] == 0) != 1]
        h = (len(m) + 3) // 4 if n > 2 else len(m)
        for i in range(0, len(m), h):
            lemmas(c, P, 'flat', [('flat', cfg, {'multi': m[i:i + h], 'models': M})])
