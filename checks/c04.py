"""C04: unlift inverts lift; lift_ddts is the chain rule."""
import numpy as np
import opinf

from rv import gen
from rv.core import Check

CHECK = Check(
    "C04",
    "A case picks a lifter (quadratic, or polynomial with generated order "
    "list: positive, negative, fractional, zero, repeated, unordered, "
    "scalar), generates admissible states and derivatives (including zeros "
    "and negative values where admissible, integers, 1-D data, layouts) and "
    "compares lift, unlift and lift_ddts with the documented functions and "
    "with the chain rule, and lift_ddts with exact polynomial-in-time "
    "derivatives.",
    require=["lift", "unlift-lift", "lift_ddts", "ddts-time", "columnwise",
             "any-magnitude"])
LD = np.longdouble
POOL = [1, 2, 3, 4, 5, -1, -2, -3, 0.5, 1.5, 1 / 3, -0.5, 0, 2.0, 1.0, 0.25]


def make(rng, i):
    w = i % 6
    if w == 0:
        return opinf.lift.QuadraticLifter(), (1, 2), "quadratic"
    if w == 1:  # natural orders
        orders = tuple(range(1, int(rng.integers(2, 6))))
    elif w == 2:  # scalar
        p = gen.pick(rng, [q for q in POOL if q != 0])
        return opinf.lift.PolynomialLifter(p), (p,), "scalar"
    else:
        m = int(rng.integers(1, 6))
        orders = tuple(POOL[int(j)] for j in rng.choice(len(POOL), m))
        if all(p == 0 for p in orders):
            orders = orders + (gen.pick(rng, [1, 2, -1, 0.5]),)
    form = int(rng.integers(3))
    arg = orders if form == 0 else (
        list(orders) if form == 1 else np.array(orders, dtype=float))
    lifter = opinf.lift.PolynomialLifter(arg)
    if rng.integers(4) == 0:  # change the orders afterwards
        lifter = opinf.lift.PolynomialLifter((3, 7))
        lifter.lift(np.ones((1, 2)))
        lifter.orders = arg
    return lifter, orders, f"polynomial{w}"


def signed_ok(orders):
    return all(float(p).is_integer() for p in orders) and 1 in orders


def make_states(rng, orders, n, k):
    """Admissible states: positive unless all powers are defined."""
    Q = rng.uniform(0.3, 2.0, (n, k))
    if signed_ok(orders):
        Q = Q * rng.choice([-1.0, 1.0], (n, k))
        if all(p >= 0 for p in orders) and rng.integers(2):
            Q[rng.random((n, k)) < 0.3] = 0.0
    return Q


def ref_lift(Q, orders):
    Q = np.asarray(Q, LD)
    out = []
    for p in orders:
        if float(p).is_integer():
            R = np.ones_like(Q)
            for _ in range(abs(int(p))):
                R = R * Q
            out.append(R if p >= 0 else 1 / R)
        else:
            out.append(np.exp(LD(p) * np.log(Q)))
    return np.concatenate(out)


def ref_ddts(Q, dQ, orders):
    Q, dQ = np.asarray(Q, LD), np.asarray(dQ, LD)
    out = []
    for p in orders:
        if p == 0:
            out.append(0 * dQ)
        elif p == 1:
            out.append(dQ)
        else:
            out.append(LD(p) * ref_lift(Q, [p - 1]) * dQ)
    return np.concatenate(out)


def near(ctx, got, want, rule, msg, floor=1e-3):
    want = np.asarray(want, float)
    ctx.ok(np.shape(got) == want.shape, rule,
           f"{msg} shape {np.shape(got)} expected {want.shape}")
    got = np.asarray(got, float)
    ctx.ok(bool(np.all(np.abs(got - want) <= 1e-12 * (np.abs(want) + floor))),
           rule, lambda: f"{msg}: got {got.ravel()[:6]} expected "
           f"{want.ravel()[:6]}")


@CHECK.family(quick=3000, thorough=60000)
def lifting(ctx, rng, i):
    lifter, orders, lab = make(rng, i)
    n, k = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    Q = make_states(rng, orders, n, k)
    dQ = rng.standard_normal((n, k))
    if lab != "quadratic":
        ctx.ok(tuple(lifter.orders) == tuple(orders) and
               lifter.num_variables == len(orders), "orders",
               f"orders {lifter.orders} expected {orders}")
    msg = f"{lab} orders={orders}"
    ctx.note(orders=orders, n=n, k=k)
    vec = int(rng.integers(3)) == 0
    if vec:
        Q, dQ = Q[:, 0], dQ[:, 0]
    L = lifter.lift(gen.layout(rng, Q))
    near(ctx, L, ref_lift(Q, orders), "lift", msg)
    U = lifter.unlift(gen.layout(rng, L))
    near(ctx, U, Q, "unlift-lift", msg)
    D = lifter.lift_ddts(gen.layout(rng, Q), gen.layout(rng, dQ))
    near(ctx, D, ref_ddts(Q, dQ, orders), "lift_ddts", msg)
    # linear in the derivatives
    D2 = lifter.lift_ddts(Q, -2.0 * dQ)
    near(ctx, D2, -2.0 * D, "lift_ddts-linear", msg)
    if not vec:
        j = int(rng.integers(k))
        near(ctx, lifter.lift(Q[:, j]), L[:, j], "columnwise", msg)
        near(ctx, lifter.unlift(L[:, j]), Q[:, j], "columnwise", msg)
        near(ctx, lifter.lift_ddts(Q[:, j], dQ[:, j]), D[:, j], "columnwise",
             msg)


@CHECK.family(quick=600, thorough=12000)
def along_trajectory(ctx, rng, i):
    """d/dt lift(q(t)) for q(t) = (a+bt)^2, evaluated in closed form."""
    lifter, orders, lab = make(rng, i)
    n = int(rng.integers(1, 5))
    t = np.linspace(0, 1, int(rng.integers(1, 8)), dtype=LD)
    a = rng.uniform(0.5, 1.5, (n, 1)).astype(LD)
    b = rng.uniform(-0.3, 1, (n, 1)).astype(LD)
    q = (a + b * t)**2
    dq = 2 * b * (a + b * t)
    want = []
    for p in orders:  # lift = (a+bt)^(2p)
        e = np.exp((2 * LD(p) - 1) * np.log(a + b * t))
        want.append(2 * LD(p) * b * e)
    ctx.note(orders=orders, n=n)
    near(ctx, lifter.lift_ddts(q.astype(float), dq.astype(float)),
         np.concatenate(want), "ddts-time", f"{lab} {orders}")


@CHECK.family(quick=600, thorough=12000)
def magnitudes(ctx, rng, i):
    """Positive states of any magnitude: all digits are kept."""
    lifter, orders, lab = make(rng, i)
    n, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    Q = 10.0 ** rng.uniform(-14, 14, (n, k))
    if rng.integers(2):
        Q = rng.uniform(.5, 2, (n, k)) * 10.0 ** gen.pick(
            rng, [-14, -12, -9, -7, -5, 5, 8, 12])
    if signed_ok(orders):
        Q = Q * rng.choice([-1.0, 1.0], (n, k))
    dQ = rng.standard_normal((n, k)) * Q
    msg = f"{lab} orders={orders} magnitudes"
    ctx.note(orders=orders, n=n, k=k)
    ctx.ev("any-magnitude")
    L = lifter.lift(gen.layout(rng, Q))
    near(ctx, L, ref_lift(Q, orders), "lift", msg, 0)
    near(ctx, lifter.unlift(gen.layout(rng, L)), Q, "unlift-lift", msg, 0)
    near(ctx, lifter.lift_ddts(Q, dQ), ref_ddts(Q, dQ, orders), "lift_ddts",
         msg, 0)


@CHECK.family(quick=200, thorough=3000)
def integer_states(ctx, rng, i):
    """Integer-valued integer arrays, nonnegative integer orders."""
    orders = tuple(int(p) for p in rng.integers(0, 4, int(
        rng.integers(1, 4)))) + (1,)
    n, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    Q = rng.integers(1, 6, (n, k))
    quad = i % 4 == 0
    lifter = (opinf.lift.QuadraticLifter() if quad
              else opinf.lift.PolynomialLifter(orders))
    orders = (1, 2) if quad else orders
    ctx.note(orders=orders, int=True)
    L = lifter.lift(Q)
    near(ctx, L, ref_lift(Q, orders), "lift", f"int {orders}")
    near(ctx, lifter.unlift(L), Q, "unlift-lift", f"int {orders}")
    dQ = rng.standard_normal((n, k))
    near(ctx, lifter.lift_ddts(Q, dQ), ref_ddts(Q, dQ, orders), "lift_ddts",
         f"int {orders}")


@CHECK.family(quick=300, thorough=5000)
def states_among_variables(ctx, rng, i):
    """The states themselves are lifted: unlifting needs no root of them."""
    orders = [POOL[int(j)] for j in rng.choice(len(POOL), int(
        rng.integers(1, 5)))]
    orders.insert(int(rng.integers(len(orders) + 1)), 1)
    lifter = opinf.lift.PolynomialLifter(tuple(orders))
    n, k = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    Q = rng.standard_normal((n, k))
    Q[rng.random((n, k)) < .2] = 0
    ctx.note(orders=orders, n=n)
    with np.errstate(all="ignore"):
        L = lifter.lift(Q)
        near(ctx, lifter.unlift(L), Q, "unlift-lift", f"signed {orders}")
