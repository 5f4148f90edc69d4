"""Contracts: flat w0-wa cosmology (distances, times, densities)"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, pow10, exp, ln, log10, sqrt
from . import spec as S
from . import gen as G
from . import lemmas as L

F = "dsps.cosmology.flat_wcdm:"
c = S.c
C_SPEED = c("2.99792458e8")            # m/s
MPC_CM, YEAR_S = c("3.08567758149e24"), c("31556925.2")
RHO0 = c("277.536627")
P4 = dict(Om0=(), w0=(), wa=())
P5 = dict(P4, h=())


# ---------------------------------------------------------------- the model
def de(E, z):
    """dark-energy density relative to today, w(a) = w0 + wa (1-a)"""
    a = 1 / (1 + z)
    return T.rpow(a, -3 * (1 + E.w0 + E.wa)) * exp(-3 * E.wa * (1 - a))


def E2(E, z):
    return E.Om0 * (1 + z) ** 3 + (1 - E.Om0) * de(E, z)


def Ez(E, z):
    return sqrt(E2(E, z))


def grid(z, n):
    return lambda i: z * T.i2r(I(i)) / R(n - 1)


def dist(E, z):
    """comoving distance, Mpc: c / (100 h km/s/Mpc) times the integral of 1/E"""
    integral = E.integral if hasattr(E, "integral") else inv_e(E, z)
    return integral * (C_SPEED / 1000 / 100) / E.h


def inv_e(E, z):
    g = grid(z, 256)
    return S.trapz(g, lambda i: 1 / Ez(E, g(i)), 256)


def d_lets(E, let):
    let("integral", inv_e(E, E.z))


def hubble_time(E, z):
    """Gyr"""
    return MPC_CM / R(10**16) / YEAR_S / E.h / Ez(E, z)


def lookback(E, z):
    g = grid(z, 512)
    return hubble_time(E, R(0)) * S.trapz(g, lambda i: 1 / (Ez(E, g(i)) * (1 + g(i))), 512)


def age0(E):
    g = lambda i: pow10(3 * T.i2r(I(i)) / 511) - 1
    return hubble_time(E, R(0)) * S.trapz(g, lambda i: 1 / (Ez(E, g(i)) * (1 + g(i))), 512)


def om_z(E, z):
    return E.Om0 * (1 + z) ** 3 / E2(E, z)


def delta_vir(E, z):
    return delta_of(om_z(E, z))


def delta_of(om):
    x = om - 1
    return 18 * T.var("pi")**2 + 82 * x - 39 * x**2


# ---------------------------------------------------------------- preconditions
def model(E):
    r = [lt(R(0), E.Om0), le(E.Om0, R(1))]
    if hasattr(E, "h"):
        r.append(lt(R(0), E.h))
    return r


def zreq(E):
    r = model(E)
    if isinstance(E.z, SArr):
        return r + [forall(I(0), E.z.n, lambda i: lt(R(-1), E.z(i)))]
    return r + [lt(R(-1), E.z)]


def s_model(r, d):
    v = dict(Om0=float(r.choice([1.0, r.uniform(0.05, 1)])), w0=float(r.choice([-1.0, r.uniform(-2, 0.0)])),
             wa=float(r.choice([0.0, r.uniform(-1, 1)])), h=r.uniform(0.4, 1.2))
    z = lambda: float(r.choice([0.0, r.uniform(0, 0.1), r.uniform(0, 3), r.uniform(3, 30), r.uniform(-0.5, 0)]))
    v["z"] = np.array([z() for _ in range(d["n"])]) if "n" in d else z()
    return v


# ---------------------------------------------------------------- proof parts
def e_positive(E, P, z):
    """1+z > 0 gives E^2 > 0"""
    u, f = 1 + z, de(E, z)
    P.have(lt(R(0), u)).have(lt(R(0), 1 / u))
    P.have(lt(R(0), f))
    P.have(lt(R(0), u**3)).have(lt(R(0), E.Om0 * u**3)).have(le(R(0), (1 - E.Om0) * f))
    P.have(lt(R(0), E2(E, z)))
    P.have(lt(R(0), Ez(E, z)))
    return P


def grid_positive(E, P, z, n):
    """E > 0 on the whole grid"""
    g = grid(z, n)

    def steps(Q, i):
        f = T.i2r(i) / R(n - 1)
        Q.have(and_(le(R(0), f), le(f, R(1))))
        Q.have(le(R(0), f * (1 + z))).have(lt(R(-1), f * z))
        Q.have(lt(R(-1), g(i)))
        e_positive(E, Q, g(i))
    L.all_k(P, I(0), I(n), lambda i: and_(lt(R(0), 1 + g(i)), lt(R(0), de(E, g(i))), lt(R(0), E2(E, g(i))), lt(R(0), Ez(E, g(i)))), steps)
    return P


def h_scalar(n):
    return lambda E, P: grid_positive(E, P, E.z, n)


def seg_pos(E, P, g, y, n):
    """a trapezoid sum over an increasing grid of positive values is positive"""
    seg = lambda j: (g(j + 1) - g(j)) * (y(j) + y(j + 1)) / 2
    j, Q = P.fix(0, n - 1, "j")
    Q.have(lt(g(j), g(j + 1)))
    Q.have(lt(R(0), y(j))).have(lt(R(0), y(j + 1)))
    Q.show(lt(R(0), seg(j)))
    P.ctx = P.ctx.assume(forall(I(0), I(n - 1), lambda q: lt(R(0), seg(q))))
    P.use(L.sum_pos(I(0), I(n - 1), seg))
    return P


def dist_lemma(scale=None):
    def zero(E, P):
        Q = P.suppose(eq(E.z, R(0)))
        Q.have(eq(E.integral, R(0)), unfold="*")
        Q.show(eq(E.out[0], R(0)))

    def positive(E, P):
        g = grid(E.z, 256)
        Q = P.suppose(lt(R(0), E.z))
        y = lambda i: 1 / Ez(E, g(i))
        seg_pos(E, Q, g, y, 256)
        Q.have(lt(R(0), E.integral), unfold="*")
        Q.show(lt(R(0), E.out[0]))
    return dict(zero_at_z0=zero, positive=positive)


def C(cid, fn, f, args=P5, req=zreq, hints=None, lemmas=None, lets=None):
    Contract(cid, F + fn, dict(dict(z=()), **args), lets=lets, ensures=lambda E: f(E, E.z), requires=req, sample=s_model, hints=hints, lemmas=lemmas)


def CV(cid, fn, f, args=P5, hints=None, lemmas=None, req=zreq, n=1):
    def hv(E, P):
        k, Q = P.fix(0, E.n)
        hints(E, Q, E.z(k))
    Contract(cid, F + fn, dict(dict(z=("n",)), **args), dims=dict(n=n), ensures=lambda E: SArr((E.n,), lambda i: f(E, E.z(i))),
             requires=req, sample=s_model, hints=hints, lemmas=lemmas)


def h_array(n):
    def hints(E, P):
        k, Q = P.fix(0, E.n)
        grid_positive(E, Q, E.z(k), n)
        g = lambda q: grid(E.z(q), n)
        P.ctx = P.ctx.assume(forall(I(0), E.n, lambda q: forall(I(0), I(n), lambda i: and_(
            lt(R(0), 1 + g(q)(i)), lt(R(0), de(E, g(q)(i))), lt(R(0), E2(E, g(q)(i))), lt(R(0), Ez(E, g(q)(i)))))))
    return hints


C("rho_de", "_rho_de_z", lambda E, z: de(E, z), args=dict(w0=(), wa=()), req=lambda E: [lt(R(-1), E.z)])
C("ez", "_Ez", Ez, args=P4, hints=lambda E, P: e_positive(E, P, E.z))
C("comoving", "comoving_distance_to_z", dist, hints=h_scalar(256), lemmas=dist_lemma(), lets=d_lets)
C("lumdist", "luminosity_distance_to_z", lambda E, z: dist(E, z) * (1 + z), hints=h_scalar(256), lets=d_lets)
C("angdist", "angular_diameter_distance_to_z", lambda E, z: dist(E, z) / (1 + z), hints=h_scalar(256), lets=d_lets)
CV("comoving_arr", "comoving_distance", dist, hints=h_array(256))
CV("lumdist_arr", "luminosity_distance", lambda E, z: dist(E, z) * (1 + z), hints=h_array(256))
CV("angdist_arr", "angular_diameter_distance", lambda E, z: dist(E, z) / (1 + z), hints=h_array(256))


# ---- distance modulus: 5 log10 (D_L / 10 pc), z > 0
def zpos(E):
    z = E.z
    return model(E) + ([forall(I(0), z.n, lambda i: lt(R(0), z(i)))] if isinstance(z, SArr) else [lt(R(0), z)])


def modulus(E, z):
    return 5 * log10(dist(E, z) * (1 + z) * R(10**5))


def h_pos_integral(E, P, z, integral=None):
    g = grid(z, 256)
    grid_positive(E, P, z, 256)
    seg_pos(E, P, g, lambda i: 1 / Ez(E, g(i)), 256)
    if integral is not None:
        P.have(lt(R(0), integral), unfold="*")
    return P


def h_modulus(E, P):
    h_pos_integral(E, P, E.z, E.integral)
    P.have(lt(R(0), dist(E, E.z))).have(lt(R(0), dist(E, E.z) * (1 + E.z)))


def a_lets(E, let):
    let("ints", SArr((E.n,), lambda i: inv_e(E, E.z(i))))


def dist_a(E, i):
    return E.ints(i) * (C_SPEED / 1000 / 100) / E.h


def h_modulus_a(E, P):
    k, Q = P.fix(0, E.n)
    h_pos_integral(E, Q, E.z(k))
    Q.have(lt(R(0), E.ints(k)), unfold="*")
    Q.have(lt(R(0), dist_a(E, k))).have(lt(R(0), dist_a(E, k) * (1 + E.z(k))))
    P.ctx = P.ctx.assume(forall(I(0), E.n, lambda q: and_(lt(R(0), E.ints(q)), lt(R(0), dist_a(E, q)), lt(R(0), dist_a(E, q) * (1 + E.z(q))))))
    h_array(256)(E, P)


def s_pos(r, d):
    v = s_model(r, d)
    v["z"] = np.abs(v["z"]) + 1e-3
    return v


Contract("distmod", F + "distance_modulus_to_z", dict(dict(z=()), **P5), requires=zpos, lets=d_lets, hints=h_modulus,
         ensures=lambda E: modulus(E, E.z), sample=s_pos)
Contract("distmod_arr", F + "distance_modulus", dict(dict(z=("n",)), **P5), dims=dict(n=1), requires=zpos, lets=a_lets, hints=h_modulus_a,
         ensures=lambda E: SArr((E.n,), lambda i: 5 * log10(dist_a(E, i) * (1 + E.z(i)) * R(10**5))), sample=s_pos)

# ---- differential comoving volume
Contract("hubble_dist", F + "hubble_distance_mpc", dict(h=()), requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: C_SPEED / 1000 / 100 / E.h, sample=lambda r, d: dict(h=r.uniform(0.4, 1)))


def volume(E, z, D):
    return C_SPEED / 1000 / 100 / E.h * D**2 / Ez(E, z)


def h_volume(E, P):
    grid_positive(E, P, E.z, 256)
    e_positive(E, P, E.z)


def h_volume_a(E, P):
    h_array(256)(E, P)
    k, Q = P.fix(0, E.n)
    e_positive(E, Q, E.z(k))
    P.ctx = P.ctx.assume(forall(I(0), E.n, lambda q: and_(lt(R(0), E2(E, E.z(q))), lt(R(0), Ez(E, E.z(q))))))


C("volume", "differential_comoving_volume_at_z", lambda E, z: volume(E, z, dist(E, z)), hints=h_volume, lets=d_lets)
Contract("volume_arr", F + "differential_comoving_volume", dict(dict(z=("n",)), **P5), dims=dict(n=1), requires=zreq, lets=a_lets, hints=h_volume_a,
         ensures=lambda E: SArr((E.n,), lambda i: volume(E, E.z(i), dist_a(E, i))), sample=s_model)


# ---- times
def inv_te(E, z):
    g = grid(z, 512)
    return S.trapz(g, lambda i: 1 / (Ez(E, g(i)) * (1 + g(i))), 512)


def age_grid(i):
    return pow10(3 * T.i2r(I(i)) / 511) - 1


def inv_te0(E):
    return S.trapz(age_grid, lambda i: 1 / (Ez(E, age_grid(i)) * (1 + age_grid(i))), 512)


def age_grid_positive(E, P):
    def steps(Q, i):
        Q.have(lt(R(0), 1 + age_grid(i)))
        e_positive(E, Q, age_grid(i))
    L.all_k(P, I(0), I(512), lambda i: and_(lt(R(0), 1 + age_grid(i)), lt(R(0), de(E, age_grid(i))), lt(R(0), E2(E, age_grid(i))),
                                           lt(R(0), Ez(E, age_grid(i)))), steps)


def h_time(look, age, array=False):
    def hints(E, P):
        e_positive(E, P, R(0))
        if age:
            age_grid_positive(E, P)
        if look:
            if array:
                h_array(512)(E, P)
            else:
                grid_positive(E, P, E.z, 512)
    return hints


def t_lets(look, age, array=False):
    def lets(E, let):
        if look:
            let("look", SArr((E.n,), lambda i: inv_te(E, E.z(i))) if array else inv_te(E, E.z))
        if age:
            let("age", inv_te0(E))
    return lets


th0 = lambda E: hubble_time(E, R(0))


def look_lemmas():
    def zero(E, P):
        Q = P.suppose(eq(E.z, R(0)))
        Q.have(eq(E.look, R(0)), unfold="*")
        Q.show(eq(E.out[0], R(0)))

    def positive(E, P):
        g = grid(E.z, 512)
        Q = P.suppose(lt(R(0), E.z))
        y = lambda i: 1 / (Ez(E, g(i)) * (1 + g(i)))
        seg_pos(E, Q, g, y, 512)
        Q.have(lt(R(0), E.look), unfold="*")
        Q.have(lt(R(0), th0(E)))
        Q.show(lt(R(0), E.out[0]))
    return dict(zero_at_z0=zero, positive=positive)


def age_positive(E, P):
    """the age today is positive"""
    y = lambda i: 1 / (Ez(E, age_grid(i)) * (1 + age_grid(i)))
    j, Q = P.fix(0, 511, "j")
    L.pow10_mono(Q, 3 * T.i2r(j) / 511, 3 * T.i2r(j + 1) / 511)
    Q.show(lt(age_grid(j), age_grid(j + 1)))
    P.ctx = P.ctx.assume(forall(I(0), I(511), lambda q: lt(age_grid(q), age_grid(q + 1))))
    seg_pos(E, P, age_grid, y, 512)
    P.have(lt(R(0), E.age), unfold="*")
    P.have(lt(R(0), th0(E)))
    P.show(lt(R(0), th0(E) * E.age))


def age_falls(E, P):
    """the age at z is the age today at z=0 and below it for z > 0"""
    i, P = P.fix(0, E.n)
    z = E.z(i)
    Q = P.suppose(eq(z, R(0)))
    Q.have(eq(E.look(i), R(0)), unfold="*")
    Q.show(eq(E.out[0][i], th0(E) * E.age))
    g = grid(z, 512)
    Q = P.suppose(lt(R(0), z))
    grid_positive(E, Q, z, 512)
    seg_pos(E, Q, g, lambda j: 1 / (Ez(E, g(j)) * (1 + g(j))), 512)
    Q.have(lt(R(0), E.look(i)), unfold="*")
    Q.have(lt(R(0), th0(E))).have(lt(R(0), th0(E) * E.look(i)))
    Q.show(lt(E.out[0][i], th0(E) * E.age))


C("hubble_time", "_hubble_time", hubble_time, hints=lambda E, P: e_positive(E, P, E.z))
C("lookback", "lookback_to_z", lambda E, z: th0(E) * E.look, lets=t_lets(1, 0), hints=h_time(1, 0), lemmas=look_lemmas())
Contract("lookback_arr", F + "lookback_time", dict(dict(z=("n",)), **P5), dims=dict(n=1), requires=zreq, lets=t_lets(1, 0, True),
         hints=h_time(1, 0, True), ensures=lambda E: SArr((E.n,), lambda i: th0(E) * E.look(i)), sample=s_model)
Contract("age0", F + "age_at_z0", P5, requires=model, lets=t_lets(0, 1), hints=h_time(0, 1), ensures=lambda E: th0(E) * E.age,
         sample=s_model, lemmas=dict(positive=age_positive))
Contract("age_z", F + "age_at_z", dict(dict(z=("n",)), **P5), dims=dict(n=1), requires=zreq, lets=t_lets(1, 1, True),
         hints=h_time(1, 1, True), ensures=lambda E: SArr((E.n,), lambda i: th0(E) * E.age - th0(E) * E.look(i)), sample=s_model,
         lemmas=dict(falls_from_today=age_falls))


def s_lets(E, let):
    # the scalar redshift is turned into an array with one element
    let("look", SArr((I(1),), lambda i: inv_te(E, E.z)))
    let("age", inv_te0(E))


Contract("age_z_scalar", F + "age_at_z", dict(dict(z=()), **P5), requires=zreq, lets=s_lets,
         hints=h_time(1, 1), ensures=lambda E: SArr((I(1),), lambda i: th0(E) * E.age - th0(E) * E.look(i)), sample=s_model)

# ---- densities and the virial crossing time
C("rho_crit", "rho_crit", lambda E, z: RHO0 * E.h**2 * E2(E, z), hints=lambda E, P: e_positive(E, P, E.z))
C("om_z", "_Om_at_z", om_z, args=P4, hints=lambda E, P: e_positive(E, P, E.z))


def h_om_a(E, P):
    k, Q = P.fix(0, E.n)
    z = E.z(k)
    e_positive(E, Q, z)
    Q.have(le(E.Om0 * (1 + z) ** 3, E2(E, z)))
    om = E.Om0 * (1 + z) ** 3 / E2(E, z)
    rest = (1 - E.Om0) * de(E, z) / E2(E, z)
    Q.via(1 - om, rest, lambda t: le(R(0), t))
    Q.have(lt(R(0), om))
    v = T.var("om!")
    D = Q.suppose(lt(R(0), v), le(v, R(1)))
    pi = T.var("pi")
    # 18 pi^2 + 82 x - 39 x^2 >= 18*9 - 82 - 39 on [-1, 0]
    D.have(le(R(0), v * (2 - v))).have(le((v - 1) ** 2, R(1)))
    D.have(le(R(9), pi**2))
    D.have(lt(R(0), 18 * pi**2 + 82 * (v - 1) - 39 * (v - 1) ** 2))
    P.ctx = P.ctx.assume(*[forall(I(0), E.n, lambda q: lt(R(0), f(E, E.z(q)))) for f in (E2, Ez, delta_vir)])


CV("delta_vir", "_delta_vir", delta_vir, args=P4, hints=None, req=zreq)


def v_lets(E, let):
    let("om", SArr((E.n,), lambda i: om_z(E, E.z(i))))
    let("dvir", SArr((E.n,), lambda i: delta_of(E.om(i))))
    let("th", SArr((E.n,), lambda i: hubble_time(E, E.z(i))))


def h_virial(E, P):
    h_om_a(E, P)
    P.have(forall(I(0), E.n, lambda q: lt(R(0), E.dvir(q))), unfold="*")


Contract("virial_time", F + "virial_dynamical_time", dict(dict(z=("n",)), **P5), dims=dict(n=1), requires=zreq, lets=v_lets, hints=h_virial,
         ensures=lambda E: SArr((E.n,), lambda i: 2 * sqrt(R(2)) * E.th(i) / sqrt(E.dvir(i))), sample=s_model)
from dv.contract import REGISTRY
REGISTRY["delta_vir"].hints = h_om_a
