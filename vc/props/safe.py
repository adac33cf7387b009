"""Absence of out-of-range accesses, size mismatches and index wrap-around over the public calls of every scenario (C26)."""
from .common import *
from . import c01, traj, dyn, cons, run, setp, lin, lslice, lrun, util
from .lin import LPB, LPN


def none(E):
    pass


def clone(sc, cases, hcases=(), mode=None, native=1, ints=None, bints=None, bdims=None, ndims=None):
    c = Scenario(sc.name, none, cases, bdims or sc.bdims, ndims or sc.ndims, ints or sc.intsets, static=sc.static, native=native, mode=mode or sc.mode,
                 defs=sc.defs, overrides=sc.overrides, hcases=hcases, bints=bints)
    c.logger = getattr(sc, 'logger', False)
    c.sanitize = True
    return c


S = [c01.SCENARIOS[0], traj.SCENARIOS[2], dyn.SCENARIOS[1], cons.SCENARIOS[1], cons.SCENARIOS[2], run.SCENARIOS[1], setp.SCENARIOS[0], setp.SCENARIOS[1],
     lslice.SCENARIOS[0], lslice.SCENARIOS[1], lrun.SCENARIOS[0], lin.SCENARIOS[4]] + util.SCENARIOS[:3]
few = lambda f: lambda p, d: f(p, d)[::3]
SCENARIOS = [
    clone(S[0], [dict(kind=k) for k in range(4)], bints=few(S[0].bints)),
    clone(S[1], [dict(outfn=1, cons=1)], [dict(outfn=1, cons=1, hist=5)]),
    clone(S[2], [dict(kind=0, jac=1), dict(kind=1, jac=1)], [dict(kind=1, jac=1, hist=5)]),
    clone(S[3], [dict(user=3, jac=1, outfn=1, model=1), dict(null=1, jac=1)], [dict(user=3, jac=1, outfn=1, model=1, hist=5)]),
    clone(S[4], [dict(jac=1, outfn=1)], [dict(jac=1, outfn=1, hist=5)]),
    clone(S[5], [dict(three=1, warm=1, outcome2=1)], [dict(user=1, evals=1, outfn=1, warm=1, three=1)]),
    clone(S[6], [dict(n=2, run=1), dict(n=1, tol=1)]),
    clone(S[7], [dict(user=3, outfn=1)]),
    clone(S[8], [dict(what=w, base=1) for w in range(9)], bints=S[8].bints),
    clone(S[9], [dict(what=-1, sparse=1, base=1, all=1)]),
    clone(S[10], [dict(warm=1, two=1, three=1, dist=1), dict(warm=1, two=1, three=1, setup2=1)], [dict(cfg=1, dist=1, two=1, remodel=1, toggle=1)]),
    clone(S[11], [dict(w=1, b=1, s=1, dist=1, ctl=1)], [dict(w=1, b=1, s=1, dist=1, ctl=1, first=1, again=1)]),
    clone(S[12], S[12].cases),
    clone(S[13], S[13].cases[1:2]),
    clone(S[14], S[14].cases[1:2]),
    clone(traj.SCENARIOS[4], [dict(scaled=1)], [dict(scaled=1, hist=1)]),
    clone(lin.SCENARIOS[2], [dict(w=1, b=1, s=1, dist=1)], [dict(w=1, b=1, s=1, dist=1, early=1, first=1)]),
    clone(cons.SCENARIOS[0], [dict(user=1, outfn=1, model=1)], [dict(user=2, model=1, hist=5)]),
]
