"""Contracts: AB magnitudes and precomputed photometry tables"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, pow10, exp, ln, log10, sqrt
from . import spec as S
from . import gen as G
from . import lemmas as L
from . import cosmo as K

PK = "dsps.photometry.photometry_kernels:"
PP = "dsps.photometry.photpop:"
c = S.c
AB0 = c("1.13492e-13")      # 3631 Jy at 10 pc, Lsun/Hz


# ---------------------------------------------------------------- definitions
def through(w, y, n, fw, ft, m, z=None):
    """integral over the filter of transmission * spectrum(redshifted) / wavelength"""
    xp = w if z is None else (lambda i: w(i) * (1 + z))
    s = lambda j: S.interp(fw(j), n, xp, y, R(0), R(0))
    return S.trapz(fw, lambda j: ft(j) * s(j) / fw(j), m)


def reference(fw, ft, m):
    return S.trapz(fw, lambda j: ft(j) * AB0 / fw(j), m)


def mag(x):
    return c("-2.5") * log10(x)


# ---------------------------------------------------------------- single magnitudes
SPEC = dict(w=("n",), y=("n",), fw=("m",), ft=("m",))
D = dict(n=2, m=2)


def lets(z):
    def f(E, let):
        let("light", through(E.w, E.y, E.n, E.fw, E.ft, E.m, E.z if z else None))
        let("ref", reference(E.fw, E.ft, E.m))
        if hasattr(E, "Om0"):
            let("integral", K.inv_e(E, E.z))
    return f


def req(E):
    r = [forall(I(0), E.n - 1, lambda i: lt(E.w(i), E.w(i + 1))), lt(R(0), E.w(I(0))),
         forall(I(0), E.m, lambda i: lt(R(0), E.fw(i))), lt(R(0), E.light), lt(R(0), E.ref)]
    if hasattr(E, "Om0"):
        r += K.zpos(E)
    elif hasattr(E, "z"):
        r += [lt(R(-1), E.z)]
    return r


def hints(E, P):
    if hasattr(E, "z"):
        P.have(lt(R(0), 1 + E.z))
        L.all_k(P, I(0), E.n - 1, lambda i: lt(E.w(i) * (1 + E.z), E.w(i + 1) * (1 + E.z)),
                lambda Q, i: Q.have(lt(R(0), (E.w(i + 1) - E.w(i)) * (1 + E.z))))
    if hasattr(E, "Om0"):
        K.h_modulus(E, P)


def sample(r, d):
    v = K.s_pos(r, {})
    z = v["z"]
    lo, hi = r.uniform(800, 3000), r.uniform(7000, 20000)
    w = np.sort(r.uniform(lo, hi, d["n"]))
    w[0], w[-1] = lo, hi
    fl, fh = sorted(r.uniform(lo * (1 + z), hi * (1 + z), 2)) if r.random() < 0.7 else sorted(r.uniform(0.5 * lo, 1.5 * hi * (1 + z), 2))
    if fh - fl < 10:
        fh = fl + 300.0
    fw = np.linspace(fl, fh, d["m"])
    if d["m"] > 2:
        fw[1:-1] += r.uniform(-0.3, 0.3, d["m"] - 2) * (fw[1] - fw[0])
    v.update(w=w, y=r.uniform(0.1, 2, d["n"]) * 10.0 ** r.uniform(-16, -3), fw=fw, ft=r.uniform(0.01, 1, d["m"]))
    return v


def flux_lemmas(z):
    zz = lambda E: E.z if z else None

    def brighter(E, P):
        """k times the light: magnitude shifted by -2.5 log10 k"""
        k = T.var("k!")
        Q = P.suppose(lt(R(0), k))
        a = through(E.w, lambda i: k * E.y(i), E.n, E.fw, E.ft, E.m, zz(E))
        xp = E.w if not z else (lambda i: E.w(i) + E.z * E.w(i))
        f0 = lambda j: S.interp(E.fw(j), E.n, xp, E.y, R(0), R(0))
        f1 = lambda j: S.interp(E.fw(j), E.n, xp, lambda i: k * E.y(i), R(0), R(0))
        L.all_k(Q, I(0), E.m, lambda j: eq(f1(j), k * f0(j)), lambda W, j: W.use(L.interp_scale(E.fw(j), E.n, xp, E.y, k, R(0), R(0))))
        b = S.trapz(E.fw, lambda j: E.ft(j) * (k * f0(j)) / E.fw(j), E.m)
        j, W = Q.fix(0, E.m - 1)
        W.show(eq(E.ft(j) * f1(j) / E.fw(j) + E.ft(j + 1) * f1(j + 1) / E.fw(j + 1),
                  E.ft(j) * (k * f0(j)) / E.fw(j) + E.ft(j + 1) * (k * f0(j + 1)) / E.fw(j + 1)))
        Q.have(eq(a, b))
        Q.have(eq(b, k * E.light), unfold="*")
        f = T.var("f!")
        Q.suppose(lt(R(0), f)).show(eq(mag(k * f), mag(f) + mag(k)))

    def rescaled_filter(E, P):
        """k times the transmission: same flux"""
        k = T.var("k!")
        Q = P.suppose(lt(R(0), k))
        ft = lambda i: k * E.ft(i)
        Q.have(eq(through(E.w, E.y, E.n, E.fw, ft, E.m, zz(E)), k * E.light), unfold="*")
        Q.have(eq(reference(E.fw, ft, E.m), k * E.ref), unfold="*")
        a, b = T.var("a!"), T.var("b!")
        Q.suppose(lt(R(0), a), lt(R(0), b)).show(eq((k * a) / (k * b), a / b))
    return dict(brighter=brighter, rescaled_filter=rescaled_filter)


def dimming(E, D=None):
    return 5 * log10(K.dist(E, E.z) * (1 + E.z) * R(10**5)) + c("-2.5") * log10(1 + E.z)


Z1 = dict(SPEC, z=())
ZC = dict(Z1, **K.P5)
Contract("rest_flux", PK + "calc_rest_flux", SPEC, dims=D, lets=lets(0), requires=req, hints=hints, sample=sample,
         ensures=lambda E: E.light / E.ref, lemmas=flux_lemmas(0))
Contract("rest_mag", PK + "calc_rest_mag", SPEC, dims=D, lets=lets(0), requires=req, hints=hints, sample=sample,
         ensures=lambda E: mag(E.light / E.ref))
Contract("obs_mag", PK + "calc_obs_mag", ZC, dims=D, lets=lets(1), requires=req, hints=hints, sample=sample,
         ensures=lambda E: mag(E.light / E.ref) + dimming(E), lemmas=flux_lemmas(1))
Contract("obs_mag_no_dimming", PK + "_calc_obs_mag_no_dimming", Z1, dims=D, lets=lets(1), requires=req, hints=hints, sample=sample,
         ensures=lambda E: mag(E.light / E.ref))
Contract("dimming", PK + "_cosmological_dimming", dict(dict(z=()), **K.P5), lets=K.d_lets, requires=K.zpos, hints=K.h_modulus,
         sample=K.s_pos, ensures=dimming)


def s_dim_table(r, d):
    return dict(z=float(r.choice([r.uniform(-0.5, 4), 0.0])), zt=G.incr(r, d["n"], 0, 3), dm=r.normal(size=d["n"]) * 5 + 35)


Contract("dimming_table", PK + "_cosmological_dimming_from_table", dict(z=(), zt=("n",), dm=("n",)), dims=dict(n=2),
         requires=lambda E: [lt(R(-1), E.z), forall(I(0), E.n - 1, lambda i: lt(E.zt(i), E.zt(i + 1)))],
         ensures=lambda E: S.interp(E.z, E.n, E.zt, E.dm) + c("-2.5") * log10(1 + E.z), sample=s_dim_table)

# ---------------------------------------------------------------- tables
TAB = dict(w=("n",), y=("a", "b", "n"), fw=("f", "m"), ft=("f", "m"))
DT = dict(n=2, m=2, a=1, b=1, f=1)


def t_light(E, i, j, k, z):
    return through(E.w, lambda q: E.y(i, j, q), E.n, lambda q: E.fw(k, q), lambda q: E.ft(k, q), E.m, z)


def t_lets(kind):
    def g(E, let):
        let("ref", SArr((E.f,), lambda k: reference(lambda q: E.fw(k, q), lambda q: E.ft(k, q), E.m)))
        if kind == "z":
            let("light", SArr((E.r, E.a, E.b, E.f), lambda s, i, j, k: t_light(E, i, j, k, E.z(s))))
            let("ints", SArr((E.r,), lambda s: K.inv_e(E, E.z(s))))
        else:
            let("light", SArr((E.a, E.b, E.f), lambda i, j, k: t_light(E, i, j, k, E.z if kind == "k" else None)))
    return g


def fa(n, f):
    return forall(I(0), n, f)


def t_req(kind):
    def g(E):
        r = [fa(E.n - 1, lambda i: lt(E.w(i), E.w(i + 1))), lt(R(0), E.w(I(0))),
             fa(E.f, lambda k: fa(E.m, lambda i: lt(R(0), E.fw(k, i)))), fa(E.f, lambda k: lt(R(0), E.ref(k)))]
        if kind == "z":
            r += [fa(E.r, lambda s: fa(E.a, lambda i: fa(E.b, lambda j: fa(E.f, lambda k: lt(R(0), E.light(s, i, j, k))))))]
            r += K.model(E) + [fa(E.r, lambda s: lt(R(0), E.z(s)))]
        else:
            r += [fa(E.a, lambda i: fa(E.b, lambda j: fa(E.f, lambda k: lt(R(0), E.light(i, j, k)))))]
            if kind == "k":
                r.append(lt(R(-1), E.z))
        return r
    return g


def t_hints(kind):
    def g(E, P):
        if kind == "r":
            return
        if kind == "k":
            P.have(lt(R(0), 1 + E.z))
            L.all_k(P, I(0), E.n - 1, lambda i: lt(E.w(i) * (1 + E.z), E.w(i + 1) * (1 + E.z)),
                    lambda Q, i: Q.have(lt(R(0), (E.w(i + 1) - E.w(i)) * (1 + E.z))))
            return
        s, Q = P.fix(0, E.r)
        i, Q = Q.fix(0, E.n - 1)
        Q.have(lt(R(0), (E.w(i + 1) - E.w(i)) * (1 + E.z(s))))
        Q.show(lt(E.w(i) * (1 + E.z(s)), E.w(i + 1) * (1 + E.z(s))))
        P.ctx = P.ctx.assume(fa(E.r, lambda s: fa(E.n - 1, lambda i: lt(E.w(i) * (1 + E.z(s)), E.w(i + 1) * (1 + E.z(s))))))
        s, Q = P.fix(0, E.r)
        K.h_pos_integral(E, Q, E.z(s))
        Q.have(lt(R(0), E.ints(s)), unfold="*")
        d = lambda s: E.ints(s) * (K.C_SPEED / 1000 / 100) / E.h
        Q.have(lt(R(0), d(s))).have(lt(R(0), d(s) * (1 + E.z(s))))
        P.ctx = P.ctx.assume(fa(E.r, lambda q: and_(lt(R(0), E.ints(q)), lt(R(0), d(q)), lt(R(0), d(q) * (1 + E.z(q))))))
        gg = lambda q: K.grid(E.z(q), 256)
        P.ctx = P.ctx.assume(fa(E.r, lambda q: fa(256, lambda i: and_(lt(R(0), 1 + gg(q)(i)), lt(R(0), K.de(E, gg(q)(i))),
                                                                   lt(R(0), K.E2(E, gg(q)(i))), lt(R(0), K.Ez(E, gg(q)(i)))))))
    return g


def t_sample(kind):
    def g(r, d):
        v = sample(r, d)
        vs = [sample(r, d) for _ in range(d["f"])]
        v["fw"] = np.array([x["fw"] for x in vs])
        v["ft"] = np.array([x["ft"] for x in vs])
        lo = v["fw"].min() / 6
        v["w"] = np.sort(r.uniform(lo, v["fw"].max() * 1.2, d["n"]))
        v["w"][0], v["w"][-1] = lo, v["fw"].max() * 1.2
        v["y"] = r.uniform(0.1, 2, (d["a"], d["b"], d["n"])) * 1e-5
        if kind == "z":
            v["z"] = r.uniform(0.01, 4, d["r"])
        else:
            v["z"] = float(r.choice([0.0, r.uniform(0, 2), r.uniform(-0.3, 0)]))
        return v
    return g


def t_mag(E, *ix):
    return mag(E.light(*ix) / E.ref(ix[-1]))


def t_dim(E, s):
    D_ = E.ints(s) * (K.C_SPEED / 1000 / 100) / E.h
    return 5 * log10(D_ * (1 + E.z(s)) * R(10**5)) + c("-2.5") * log10(1 + E.z(s))


Contract("table_rest", PP + "precompute_ssp_restmags", TAB, dims=DT, lets=t_lets("r"), requires=t_req("r"), hints=t_hints("r"), sample=t_sample("r"),
         ensures=lambda E: SArr((E.a, E.b, E.f), lambda i, j, k: t_mag(E, i, j, k)))
Contract("table_kcorrect", PP + "precompute_ssp_restmags_z_kcorrect", dict(TAB, z=()), dims=DT, lets=t_lets("k"), requires=t_req("k"),
         hints=t_hints("k"), sample=t_sample("k"), ensures=lambda E: SArr((E.a, E.b, E.f), lambda i, j, k: t_mag(E, i, j, k)))
Contract("table_obs", PP + "precompute_ssp_obsmags_on_z_table", dict(dict(TAB, z=("r",)), **K.P5), dims=dict(DT, r=1), lets=t_lets("z"),
         requires=t_req("z"), hints=t_hints("z"), sample=t_sample("z"),
         ensures=lambda E: SArr((E.r, E.a, E.b, E.f), lambda s, i, j, k: t_mag(E, s, i, j, k) + t_dim(E, s)))
