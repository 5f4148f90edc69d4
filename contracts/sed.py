"""Contracts: composite stellar populations (dsps/sed)"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, implies, log10, pow10
from . import spec as S
from . import gen as G
from . import lemmas as L

AW = "dsps.sed.stellar_age_weights:"
MW = "dsps.sed.metallicity_weights:"
SW = "dsps.sed.ssp_weights:"
SS = "dsps.sed.stellar_sed:"
smin0 = S.SFR_FLOOR


# ---------------------------------------------------------------- named quantities
def sfh_lets(E, let, smin, pre=""):
    """tables of log cosmic time and log mass formed"""
    if not hasattr(E, "lt"):
        let("lt", SArr((E.n,), lambda i: log10(E.t(i))))
    f = let(pre + "f", SArr((E.n,), S.floored(E.s, smin)))
    ms = let(pre + "ms", SArr((E.n,), lambda i: S.mstar(E.t, f, i)))
    let(pre + "ls", SArr((E.n,), lambda i: log10(ms(i))))


def age_lets(E, let, smin=smin0):
    e = let("e", SArr((E.m + 1,), S.age_edges(E.a, E.m)))
    tb = let("tb", SArr((E.m + 1,), lambda j: S.t_birth(E.tobs, e(j))))
    lb = let("lb", SArr((E.m + 1,), lambda j: log10(tb(j))))
    sfh_lets(E, let, smin)
    mj = let("mj", SArr((E.m + 1,), lambda j: pow10(S.interp(lb(j), E.n, E.lt, E.ls))))
    dm = let("dm", SArr((E.m,), lambda j: mj(j) - mj(j + 1)))
    let("tot", summ(I(0), E.m, dm))
    return lambda j: dm(j) / E.tot


# ---------------------------------------------------------------- preconditions
def sfh_req(E):
    """increasing times after T=0.001 Gyr"""
    return [forall(I(0), E.n - 1, lambda j: lt(E.t[j], E.t[j + 1])), lt(S.TB_MIN, E.t[I(0)])]


def age_req(E):
    return sfh_req(E) + [
        # SSP ages increasing with positive bin widths
        forall(I(0), E.m, lambda j: lt(E.e(j), E.e(j + 1))),
        # the youngest age bin was born after the first tabulated time
        lt(E.t[I(0)], E.tobs - pow10(E.e(I(0)))),
        # the oldest age bin was born before the last tabulated time
        lt(E.tobs - pow10(E.e(E.m)), E.t[E.n - 1])]


# ---------------------------------------------------------------- samplers
def s_sfh(r, d):
    t = G.times(r, d["n"])
    return dict(t=t, s=G.sfh(r, d["n"]))


def s_age(r, d):
    V = s_sfh(r, d)
    V["a"] = G.lgages(r, d["m"])
    t = V["t"]
    m = r.random()
    V["tobs"] = float(r.uniform(t[0] + 1.1e-3 + 10 ** V["a"][0], 1.2 * t[-1] + 0.5)) if m < 0.8 else float(t[r.integers(len(t))] + (0.02 if m < 0.9 else 0))
    return V


def s_met(r, d):
    return dict(z=G.lgmets(r, d["l"]), sig=G.scatter(r))


def s_ssp(r, d):
    V = s_age(r, d)
    V.update(s_met(r, d))
    V["lgz"] = G.lgmet(r)
    return V


def s_sspt(r, d):
    V = s_age(r, d)
    V.update(s_met(r, d))
    V["lgz"] = np.array([G.lgmet(r) for _ in range(d["n"])])
    return V


def s_sed(f):
    def g(r, d):
        V = f(r, d)
        V["flux"] = G.nonneg(r, d["l"] * d["m"] * d["w_"]).reshape(d["l"], d["m"], d["w_"])
        V["smin"] = float(10.0 ** r.uniform(-16, 0)) if r.random() < 0.7 else 1e-14
        return V
    return g


# ---------------------------------------------------------------- ages
A_AGE = dict(t=("n",), s=("n",), a=("m",), tobs=())
D_AGE = dict(n=2, m=3)
AGE_LEMMAS = dict(
    nonnegative_sum_one=L.age_distribution,
    mass_formed_at_that_age=L.age_mass_history,
    older_than_universe_is_zero=L.age_too_old,
)
Contract("age_weights", AW + "calc_age_weights_from_sfh_table", A_AGE, dims=D_AGE, lets=age_lets, requires=age_req,
         ensures=lambda E: SArr((E.m,), lambda j: E.dm(j) / E.tot),
         hints=L.age_facts, sample=s_age, lemmas=AGE_LEMMAS)
Contract("age_weights_floor", AW + "calc_age_weights_from_sfh_table", dict(A_AGE, smin=()), dims=D_AGE,
         lets=lambda E, let: age_lets(E, let, E.smin), requires=lambda E: age_req(E) + [lt(R(0), E.smin)],
         ensures=lambda E: SArr((E.m,), lambda j: E.dm(j) / E.tot),
         hints=L.age_facts, sample=lambda r, d: dict(s_age(r, d), smin=float(10.0 ** r.uniform(-16, 1))))
Contract("logsm_table", AW + "_calc_logsm_table_from_sfh_table", dict(t=("n",), s=("n",), smin=()), dims=dict(n=2),
         lets=lambda E, let: sfh_lets(E, let, E.smin), requires=lambda E: sfh_req(E) + [lt(R(0), E.smin)],
         ensures=lambda E: SArr((E.n,), lambda i: log10(E.ms(i))), hints=L.smh_facts,
         sample=lambda r, d: dict(s_sfh(r, d), smin=float(10.0 ** r.uniform(-16, 1))))


# ---------------------------------------------------------------- metallicities
def met_lets(E, let):
    """lognormal distribution centred on lgz"""
    ze = let("ze", SArr((E.l + 1,), S.met_edges(E.z, E.l)))
    zh = let("zh", SArr((E.l,), S.point_hist(E.lgz, E.sig, ze)))
    let("zt", summ(I(0), E.l, zh))
    return let("mw", SArr((E.l,), S.point_weights(E.lgz, E.sig, ze, E.l, zh, E.zt)))


def mett_lets(E, let):
    """one distribution per SSP age, centred on the metallicity at the time of birth"""
    ze = let("ze", SArr((E.l + 1,), S.met_edges(E.z, E.l)))
    if not hasattr(E, "lt"):
        let("lt", SArr((E.n,), lambda i: log10(E.t(i))))
    tbm = let("tbm", SArr((E.m,), lambda j: S.t_birth(E.tobs, E.a(j))))
    lbm = let("lbm", SArr((E.m,), lambda j: log10(tbm(j))))
    zj = let("zj", SArr((E.m,), lambda j: S.interp(lbm(j), E.n, E.lt, E.lgz)))
    zh = let("zh", SArr((E.m, E.l), lambda j, i: S.point_hist(zj(j), E.sig, ze)(i)))
    zt = let("zt", SArr((E.m,), lambda j: summ(I(0), E.l, lambda i: zh(j, i))))
    return let("mw", SArr((E.m, E.l), lambda j, i: S.point_weights(zj(j), E.sig, ze, E.l, lambda i: zh(j, i), zt(j))(i)))


def met_req(E):
    return [lt(R(0), E.sig), forall(I(0), E.l, lambda j: lt(E.ze(j), E.ze(j + 1)))]


def ltab_req(E):
    return sfh_req(E)


D_MET = dict(l=3)
Contract("lgmet_weights", MW + "calc_lgmet_weights_from_lognormal_mdf", dict(lgz=(), sig=(), z=("l",)), dims=D_MET,
         lets=met_lets, requires=met_req, ensures=lambda E: E.mw, hints=L.met_facts,
         sample=lambda r, d: dict(s_met(r, d), lgz=G.lgmet(r)),
         lemmas=dict(nonnegative_sum_one=L.met_distribution, outside_grid=L.met_outside))
A_METT = dict(t=("n",), lgz=("n",), sig=(), z=("l",), a=("m",), tobs=())
Contract("lgmet_weights_table", MW + "calc_lgmet_weights_from_lgmet_table", A_METT, dims=dict(n=2, l=3, m=1),
         lets=mett_lets, requires=lambda E: met_req(E) + ltab_req(E),
         ensures=lambda E: SArr((E.l, E.m), lambda i, j: E.mw(j, i) / T.i2r(E.m)), hints=L.mett_facts,
         sample=s_sspt, lemmas=dict(each_age_sums_to_1_over_n=L.mett_distribution))


# ---------------------------------------------------------------- joint weights
def joint_lets(E, let, smin=smin0):
    met_lets(E, let)
    age_lets(E, let, smin)
    let("aw", SArr((E.m,), lambda j: E.dm(j) / E.tot))


def joint_facts(E, P):
    L.met_facts(E, P)
    L.age_facts(E, P)
    L.joint_facts(E, P)


def jointt_lets(E, let, smin=smin0):
    mett_lets(E, let)
    age_lets(E, let, smin)
    let("aw", SArr((E.m,), lambda j: E.dm(j) / E.tot))


def jointt_facts(E, P):
    L.mett_facts(E, P)
    L.age_facts(E, P)
    L.jointt_facts(E, P)


D_SSP = dict(n=2, m=3, l=3)
A_SSP = dict(t=("n",), s=("n",), lgz=(), sig=(), z=("l",), a=("m",), tobs=())
A_SSPT = dict(A_SSP, lgz=("n",))
NAMES = ("weights", "lgmet_weights", "age_weights")


def joint_out(E):
    return [SArr((E.l, E.m), lambda i, j: E.mw(i) * E.aw(j)), SArr((E.l,), E.mw), SArr((E.m,), E.aw)]


def jointt_out(E):
    # each column of the metallicity table adds up to 1/m, the joint weights to one
    return [SArr((E.l, E.m), lambda i, j: E.mw(j, i) * E.aw(j)), SArr((E.l, E.m), lambda i, j: E.mw(j, i) / T.i2r(E.m)),
            SArr((E.m,), E.aw)]


floor = lambda E: [lt(R(0), E.smin)]
with_floor = lambda f: (lambda r, d: dict(f(r, d), smin=float(10.0 ** r.uniform(-16, 1))))
for suffix, extra, rate, more, smp in (("", {}, lambda E: smin0, lambda E: [], lambda f: f), ("_floor", dict(smin=()), lambda E: E.smin, floor, with_floor)):
    Contract("ssp_weights" + suffix, SW + "calc_ssp_weights_sfh_table_lognormal_mdf", dict(A_SSP, **extra), dims=D_SSP,
             lets=lambda E, let, rate=rate: joint_lets(E, let, rate(E)), requires=lambda E, more=more: met_req(E) + age_req(E) + more(E),
             ensures=joint_out, hints=joint_facts, sample=smp(s_ssp), outnames=NAMES, lemmas=dict(joint_distribution=L.joint_distribution))
    Contract("ssp_weights_table" + suffix, SW + "calc_ssp_weights_sfh_table_met_table", dict(A_SSPT, **extra), dims=D_SSP,
             lets=lambda E, let, rate=rate: jointt_lets(E, let, rate(E)), requires=lambda E, more=more: met_req(E) + age_req(E) + more(E),
             ensures=jointt_out, hints=jointt_facts, sample=smp(s_sspt), outnames=NAMES, lemmas=dict(joint_distribution=L.jointt_distribution))


# ---------------------------------------------------------------- SED
def sed_lets(base, rate):
    def lets(E, let):
        base(E, let, rate(E))
        let("w", SArr((E.l, E.m), lambda i, j: E.mw(i) * E.aw(j) if base is joint_lets else E.mw(j, i) * E.aw(j)))
        # mass formed by the time of observation
        let("mobs", pow10(S.interp(log10(E.tobs), E.n, E.lt, E.ls)))
        let("unit", SArr((E.w_,), lambda k: summ(I(0), E.l, lambda i: summ(I(0), E.m, lambda j: E.w(i, j) * E.flux(i, j, k)))))
    return lets


def sed_out(base):
    return lambda E: [SArr((E.w_,), lambda k: E.mobs * E.unit(k)), SArr((E.l, E.m), E.w)] + base(E)[1:]


def sed_facts(base):
    def hints(E, P):
        base(E, P)
        P.have(eq(summ(I(0), E.l, lambda i: summ(I(0), E.m, lambda j: E.w(i, j))), R(1)), "total weight", unfold="w")
        P.have(forall(I(0), E.l, lambda i: forall(I(0), E.m, lambda j: le(R(0), E.w(i, j)))), "weights >= 0", unfold="w")
    return hints


SED_NAMES = ("rest_sed",) + NAMES
D_SED = dict(n=2, m=3, l=3, w_=1)
for pre, tgt, A, lets_, out_, hints_, smp in (
        ("rest_sed", "calc_rest_sed_sfh_table_lognormal_mdf", A_SSP, joint_lets, joint_out, joint_facts, s_ssp),
        ("rest_sed_table", "calc_rest_sed_sfh_table_met_table", A_SSPT, jointt_lets, jointt_out, jointt_facts, s_sspt)):
    A2 = {k: v for k, v in A.items() if k != "tobs"}
    A2.update(flux=("l", "m", "w_"), tobs=())
    Contract(pre, SS + tgt, dict(A2, smin=()), dims=D_SED, lets=sed_lets(lets_, lambda E: E.smin),
             requires=lambda E: met_req(E) + age_req(E) + floor(E), ensures=sed_out(out_), hints=sed_facts(hints_), sample=s_sed(smp),
             outnames=SED_NAMES, lemmas=dict(no_negative_light=L.sed_nonneg))
    Contract(pre + "_default", SS + tgt, A2, dims=D_SED, lets=sed_lets(lets_, lambda E: smin0),
             requires=lambda E: met_req(E) + age_req(E), ensures=sed_out(out_), hints=sed_facts(hints_),
             sample=lambda r, d, smp=smp: {k: v for k, v in s_sed(smp)(r, d).items() if k != "smin"},
             outnames=SED_NAMES, lemmas=dict(no_negative_light=L.sed_nonneg))
