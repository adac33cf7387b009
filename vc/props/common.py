"""Shared pieces of the specifications."""
import itertools


class Scenario:
    def __init__(self, name, post, cases, bdims, ndims=None, intsets=None, static=(), native=8, label='', mode='UB', defs=(),
                 intnames=(), overrides=None, tol=None, hcases=(), ucases=(), bints=None, parts=None):
        self.name = name            # harness/scen/<name>.cpp
        self.post = post            # postcondition: post(E)
        self.cases = cases          # list of parameter dictionaries
        self.bdims = bdims          # concrete dimension sets for the bounded exact check
        self.ndims = ndims or bdims
        self.intsets = intsets or (lambda p, d: [{}])
        self.bints = bints or self.intsets  # for the bounded check
        self.static = static        # dimension sets compiled with static sizes
        self.native = native        # seeds per case and dimension set
        self.mode = mode
        self.defs = defs
        self.overrides = overrides  # extra native input overrides: f(params, dims, seed) -> dict
        self.tol = tol
        self.hcases = list(hcases)  # further histories: native, and bounded at the first dimension set
        self.parts = parts          # parts(params): the postcondition is proved for all sizes in so many jobs
        self.ucases = list(ucases)  # those of them that are also proved for all dimensions


NLKEYS = ('nx', 'nu', 'ny', 'ph', 'ch', 'ineq', 'eq')


def nl(*v):
    return dict(zip(NLKEYS, v))


NLB = [nl(2, 1, 1, 3, 2, 1, 1), nl(1, 2, 2, 2, 1, 2, 1)]
NLN = NLB + [nl(2, 2, 1, 4, 2, 1, 2), nl(3, 1, 2, 2, 2, 1, 1), nl(1, 1, 1, 1, 1, 1, 1), nl(1, 3, 0, 5, 3, 0, 0), nl(2, 2, 3, 3, 1, 3, 2),
             nl(4, 2, 3, 9, 4, 2, 3), nl(2, 3, 1, 12, 12, 1, 1), nl(5, 1, 4, 2, 1, 5, 4), nl(1, 4, 2, 7, 6, 9, 1), nl(3, 3, 3, 3, 3, 3, 3), nl(6, 2, 1, 25, 8, 2, 2)]


def slices(H):
    """every slice around a horizon of H stages"""
    r = range(-3, H + 3) if H <= 5 else sorted({-3, -1, 0, 1, H // 2, H - 2, H - 1, H, H + 1})
    return [dict(start=s, end=e) for s in r for e in r]


def infs(p, d, s):
    """natively, every second input has absent bounds"""
    return dict(infs=1) if s % 2 else {}


def poststats(E, ks):
    """execution statistics of a controller: exactly the solves since the last reset (C23)"""
    for k in (0, 1, 2):
        done = [] if k == 0 else [1] if k == 1 else [t for t in ks if t > 1 or not E.param('statreset')]
        E.same('number of solutions', E.out('num%d' % k), len(done))
        for s in range(5):
            n = 0
            for t in done:
                n = n + E.ite(E.eq(E.out('status%d' % t), s), lambda: 1, lambda: 0)
            E.same('solutions of status %d' % s, E.out('n%d%d' % (s, k)), n)
