"""User constraints and objective: values (C07, C09) and derivatives (C08, C09)."""
import os
from .common import *
from .traj import Traj


def full(E, t, outfn, q=False):
    """arguments X, Y, U, slack for E.q / E.dq / E.app"""
    X = (t.ph + 1, t.nx, lambda i, j: t.X(i, j))
    U = (t.ph + 1, t.nu, lambda i, j: t.U(i, j))
    if q:
        Y = (t.ph + 1, t.ny, lambda i, j: yq(E, t, i, j, outfn))
    else:
        Y = (t.ph + 1, t.ny, lambda i, j: t.Y(i, j, outfn))
    return X, Y, U


def yq(E, t, i, j, outfn):
    if not outfn:
        return 0
    return E.q('h', j, [t.xrow(i), t.urow(i), ('k', i)])


def grads(E, t, label, fn, r, outfn, g, off, hasY=True, slack=True):
    """checks the gradient row at offset off of output g against the derivative of component r of fn"""
    X, Y, U = full(E, t, outfn, True)
    args = [X, Y, U, t.slack()] if hasY else [X, U]
    iu = 2 if hasY else 1

    mag = E.qmag(fn, r, args)

    def dY(i, ai, a):
        """sum over outputs of D_Y(i,y) * dh_y(row i)"""
        if not (hasY and outfn):
            return 0
        return E.sum(0, t.ny, lambda y: E.dq(fn, r, args, 1, i, y) * E.dq('h', y, [t.xrow(i), t.urow(i), ('k', i)], ai, a))

    def gx(i, a):
        return t.sx(a) * (E.dq(fn, r, args, 0, i + 1, a) + dY(i + 1, 0, a))

    def gu(b, a):
        return t.su(a) * E.sum(0, t.ph + 1, lambda i: E.ite(E.eq(t.block(i), b), lambda: E.dq(fn, r, args, iu, i, a) + dY(i, 1, a), lambda: 0))
    def by_move(b, a, when=None):
        got, want = E.out(g, off + t.ph * t.nx + b * t.nu + a), gu(b, a)

        def go():
            E.close(label + ' by move', got, want, mag)
        if when is None:
            go()
        elif when:
            E.cases(E.lt(t.ch, t.ph), go, lambda: None)
        else:
            E.cases(E.lt(t.ch, t.ph), lambda: None, go)
    if E.part(fn + ' state'):
        E.forall([(0, t.ph), (0, t.nx)], lambda i, a: E.close(label + ' by state', E.out(g, off + i * t.nx + a), gx(i, a), mag))
        E.close(label + ' by slack', E.out(g, off + t.n - 1), E.dq(fn, r, args, 3) if slack else 0, mag)
    if E.part(fn + ' moves'):
        E.forall([(0, t.ch - 1), (0, t.nu)], by_move)
    # the last move: without and with stages that repeat it
    for name, when in ((fn + ' last move', False), (fn + ' repeated move', True)):
        if E.part(name):
            E.forall([(t.ch - 1, t.ch), (0, t.nu)], lambda b, a: by_move(b, a, when))


def gparts(p, *fns):
    """gradients are proved part by part (with an output function only in the thorough tier)"""
    if p.get('outfn') and os.environ.get('VERIF_TIER', 'quick') == 'quick':
        return None
    return [f + x for f in fns for x in (' state', ' moves', ' last move', ' repeated move')]


def post07(E):
    t = Traj(E)
    o = E.param('outfn')
    user = E.param('user')
    X, Y, U = [E.mat(*m) for m in full(E, t, o)]
    if E.param('null'):
        E.forall([(0, t.ni)], lambda r: E.same('no user inequality: zero', E.out('vi', r), 0))
        E.forall([(0, t.ne)], lambda r: E.same('no user equality: zero', E.out('ve', r), 0))
        if E.param('jac'):
            E.forall([(0, t.ni * t.n)], lambda r: E.same('no user inequality: zero gradient', E.out('gi', r), 0))
            E.forall([(0, t.ne * t.n)], lambda r: E.same('no user equality: zero gradient', E.out('ge', r), 0))
        return
    E.same('one inequality block exactly when a user inequality is given', E.out('nineq'), 1 if user & 1 else 0)
    E.same('one equality block exactly when a user equality is given', E.out('neq'), (1 if user & 2 else 0) + E.param('model'))
    if user & 1:
        E.check('accepted', E.eq(E.out('ri'), E.out('ri')) if not E.sym else E.out('ri'))
        E.shape('itols', t.ni)
        E.forall([(0, t.ni)], lambda r: E.same('inequality tolerance', E.out('itols', r), E.preal('itol')))
        E.forall([(0, t.ni)], lambda r: E.same('inequality value', E.out('vi', r), E.app('gi', r, [X, Y, U, t.slack()])))
    if user & 2:
        E.shape('etols', t.ne)
        E.forall([(0, t.ne)], lambda r: E.same('equality tolerance', E.out('etols', r), E.preal('etol')))
        E.forall([(0, t.ne)], lambda r: E.same('equality value', E.out('ve', r), E.app('ge', r, [X, U])))


def post08(E):
    t = Traj(E)
    o = E.param('outfn')
    user = E.param('user')
    if user & 1:
        E.shape('gi', t.ni * t.n)
        E.forall([(0, t.ni)], lambda r: grads(E, t, 'inequality', 'gi', r, o, 'gi', r * t.n))
    if user & 2:
        E.shape('ge', t.ne * t.n)
        E.forall([(0, t.ne)], lambda r: grads(E, t, 'equality', 'ge', r, o, 'ge', r * t.n, False, False))


def post09(E):
    t = Traj(E)
    o = E.param('outfn')
    if not E.param('jac'):
        X, Y, U = [E.mat(*m) for m in full(E, t, o)]
        E.same('cost on the trajectory', E.out('J'), E.app('J', 0, [X, Y, U, t.slack()]))
    else:
        E.shape('g', t.n)
        grads(E, t, 'gradient', 'J', 0, o, 'g', 0)


ST = [nl(2, 2, 1, 3, 2, 1, 1)]
SCENARIOS = [
    Scenario('nl_cons', post07, [dict(user=0, model=0), dict(null=1, jac=1), dict(user=3, outfn=0, model=1), dict(user=3, outfn=1, model=0), dict(user=1, outfn=1, model=1), dict(user=2, model=1)], NLB, NLN, static=ST, native=2,
             hcases=[dict(user=3, outfn=1, model=1, hist=h) for h in (1, 2, 3, 5)], ucases=[dict(user=3, outfn=1, model=1, hist=h) for h in (3, 5)]),
    Scenario('nl_cons', post08, [dict(user=3, jac=1, outfn=0), dict(user=3, jac=1, outfn=1), dict(user=3, jac=1, outfn=1, model=1)], NLB, NLN, static=ST, native=2,
             hcases=[dict(user=3, jac=1, outfn=1, model=1, hist=h) for h in (1, 2, 3, 5)], parts=lambda p: gparts(p, 'gi', 'ge')),
    Scenario('nl_obj', post09, [dict(), dict(outfn=1), dict(jac=1), dict(jac=1, outfn=1)], NLB, NLN, static=ST, native=2,
             hcases=[dict(outfn=1, jac=j, hist=h) for j in (0, 1) for h in (1, 2, 3, 4, 5)], ucases=[dict(outfn=1, hist=h) for h in (3, 4, 5)], parts=lambda p: gparts(p, 'J') if p.get('jac') else None),
]
