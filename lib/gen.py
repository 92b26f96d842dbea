"""Seeded scene generators.  Every random choice comes from the random.Random
given, so a case is a pure function of (seed, property, index)."""
import math, random

def rf(v, nd=6):
    """round to nd significant digits, so that printed cases are short and exact"""
    return float("%.*g" % (nd, v))

def logu(r, a, b):
    return rf(math.exp(r.uniform(math.log(a), math.log(b))))

def hg(g, n):
    return [(2 * l + 1) * g ** l for l in range(n)]

def phase_scalar(r, n_max, kind=None):
    """Legendre coefficients beta_l, beta_0 = 1, of a non-negative phase function."""
    n_max = max(1, n_max)
    kind = kind or r.choice(["hg", "hg", "hg2", "ray", "iso", "mix", "short"])
    n = n_max
    if kind == "iso": return [1.0] if r.random() < .5 or n_max < 2 else [1.0] + [0.0] * (r.randint(2, n_max) - 1)
    if kind == "ray":
        b = [1.0, 0.0, rf(r.uniform(.3, .5))]
        return b[:n_max]
    if kind == "short":
        n = r.randint(1, n_max)
        kind = "hg"
    if kind == "hg":
        g = rf(r.choice([r.uniform(-.4, .85), r.uniform(.3, .8)]), 4)
        c = hg(g, n)
    elif kind == "hg2":
        g1, g2, f = rf(r.uniform(.4, .9), 4), rf(r.uniform(-.6, .2), 4), rf(r.uniform(.5, 1), 4)
        a, b = hg(g1, n), hg(g2, n)
        c = [f * x + (1 - f) * y for x, y in zip(a, b)]
    else:
        g, f = rf(r.uniform(.2, .85), 4), rf(r.uniform(0, 1), 4)
        a = hg(g, n); b = ([1., 0., .48] + [0.] * n)[:n]
        c = [f * x + (1 - f) * y for x, y in zip(a, b)]
    return [rf(x, 10) for x in c]

def phase_vector(r, n_max, kind=None):
    """Six sets in the documented order beta, alpha, zeta, delta, -gamma, -epsilon."""
    kind = kind or r.choice(["ray", "mix", "mix", "aer", "aer"])
    if n_max < 3:
        b = phase_scalar(r, n_max)
        z = [0.0] * len(b)
        return [b, z[:], z[:], z[:], z[:], z[:]]
    dep = r.uniform(0., .1)
    w = (1 - dep) / (1 + dep / 2)
    ray = [[1., 0., .5 * w], [0., 0., 3. * w], [0., 0., 0.], [0., 1.5 * w * .97, 0.],
           [0., 0., math.sqrt(6) / 2 * w], [0., 0., 0.]]
    if kind == "ray":
        return [[rf(x, 10) for x in e] for e in ray]
    n = n_max if r.random() < .7 else r.randint(3, n_max)
    g = rf(r.uniform(.1, .8), 4)
    b = hg(g, n)
    ca, cz, cd, cg, ce = r.uniform(.6, .95), r.uniform(.5, .9), r.uniform(.6, .95), r.uniform(-.15, .25), r.uniform(-.1, .1)
    aer = [b, [0 if l < 2 else ca * b[l] for l in range(n)], [0 if l < 2 else cz * b[l] for l in range(n)],
           [cd * b[l] for l in range(n)], [0 if l < 2 else cg * b[l] for l in range(n)], [0 if l < 2 else ce * b[l] for l in range(n)]]
    if kind == "mix":
        f = r.uniform(.2, .9)
        for e in range(6):
            for l in range(n):
                aer[e][l] = f * aer[e][l] + (1 - f) * (ray[e][l] if l < 3 else 0.)
    return [[rf(float(x), 10) for x in e] for e in aer]

def brdf_kernel(r, name):
    p = []
    if name == "li_sparse": p = [rf(r.uniform(1., 3.), 4), rf(r.uniform(.6, 1.4), 4)]
    if name == "li_dense": p = [rf(r.uniform(1., 3.), 4), rf(r.uniform(.6, 1.4), 4)]
    if name == "hapke": p = [rf(r.uniform(.1, .9), 4), rf(r.uniform(.3, 1.), 4), rf(r.uniform(.02, .3), 4)]
    if name == "rahman": p = [rf(r.uniform(.1, .9), 4), rf(r.uniform(-.4, .2), 4), rf(r.uniform(.5, 1.), 4)]
    if name == "cox_munk": p = [rf(r.uniform(.02, .4), 4), rf(r.uniform(1.3, 1.9), 4)]
    if name == "direct_and_diffuse": p = [rf(r.uniform(0, 1), 4) for _ in range(4)]
    if name == "user_defined": p = [rf(r.uniform(.1, 1), 4), rf(r.uniform(-.1, .5), 4), rf(r.uniform(-.3, .3), 4), rf(r.uniform(0, .3), 4)]
    # ross_thin has no bound at grazing angles: a large factor would reflect more than arrives
    return dict(ampfac=rf(r.uniform(.02, .1 if name == "ross_thin" else .5), 4), params=p)

def thetas(r, n, zero=.15):
    out = []
    while len(out) < n:
        t = 0. if r.random() < zero else rf(r.uniform(0, 85), 5)
        if all(abs(t - u) > .5 for u in out): out.append(t)
    return out

def pade_params(s):
    """scaling power and order that make the Pade approximation accurate for the scene's largest tau / mu"""
    mu = min([math.cos(math.radians(t)) for t in s.get("out_thetas", [])] + [.45 / s["n_quad"] ** 2 if s["n_quad"] > 1 else .2])
    a = max(l["ltau"] for l in s["layers"]) / mu * 2.5
    return [max(0, int(math.ceil(math.log2(max(a, 1e-9))))), 6]

def scene(r, solvers, solar=None, thermal=None, vector=None, n_quad=None, max_layers=5, sfi=None, umus=None,
          kernels=None, levels=None, taus=None, derivs=False, delta_m=None, tms=None, psa=None, no_az=None,
          max_quad=8, tau_max=8., greens=False, tau_min=1e-3, omega_min=0., lc=None, norm_gl=True):
    """A scene the API accepts for every solver in `solvers` (a list)."""
    sset = set(solvers)
    P = lambda v, p: (r.random() < p) if v is None else v
    s = {}
    o = []
    low = {"TWO_STREAM": 1, "FOUR_STREAM": 2, "SIX_STREAM": 3}
    nq = n_quad or next((low[k] for k in solvers if k in low), None) or r.choice([2, 3, 4, 4, 5, 6, 8] if max_quad >= 8 else list(range(1, max_quad + 1)))
    vec_ok = not (sset & set(low))
    ns = 1
    if vec_ok and P(vector, .3): ns = r.choice([2, 3, 3, 4]) if nq <= 6 else 3
    thermal_ok = sset <= {"DOUB_ADD", "EIG_ADD", "EIG_BVP", "PADE_ADD"}
    solar_need = bool(sset & {"MEM_BVP", "SINGLE", "SOS", "TWO_OS"})
    th = thermal_ok and P(thermal, .25)
    so = P(solar, .8 if th else 1.) or solar_need or (not th)
    if so: o.append("SOURCE_SOLAR")
    if th: o.append("SOURCE_THERMAL")
    nl = r.randint(1, max_layers)
    s["n_layers"] = nl
    single = "SINGLE" in sset
    if single or "TWO_OS" in sset: no_az = False if single else no_az
    noaz = P(no_az, .08)
    dm = P(delta_m, .4)
    t = dm and ("TWO_OS" not in sset) and P(tms, .5) and so and not noaz
    if single and dm and not t:
        if so and "TWO_OS" not in sset and tms is not False: t = True; noaz = False
        else: dm = False
    if t: noaz = False
    if dm: o.append("DELTA_M")
    if t: o.append("N_T_TMS")
    if noaz: o.append("NO_AZIMUTHAL")
    if so and P(psa, .15): o.append("PSA")
    mc = 2 * nq + 1 if dm else r.choice([2 * nq, 2 * nq, r.randint(1, 2 * nq), 2 * nq + 3])
    if dm: mc += r.choice([0, 1, 4, 12])
    if ns > 1: mc = max(mc, 3)
    s["max_coef"] = mc
    if norm_gl and r.random() < .2: o.append("QUAD_NORM_GAUS_LEG")
    elif r.random() < .3: o.append("QUAD_DOUB_GAUS_LEG")
    s["n_quad"] = nq; s["n_stokes"] = ns
    if ns > 1 and P(lc, 0.): o += ["PHASE_MATRIX_LC"]
    elif ns > 1 and r.random() < .3: o += ["PHASE_MATRIX_GC"]
    # output
    nt = 0
    sfi_ok = not (sset & {"DOUB_ADD", "EIG_ADD", "MEM_BVP", "PADE_ADD", "SOS"})
    want_u = P(umus, .6)
    need_sfi = bool(sset & set(low))
    if want_u:
        use_sfi = sfi_ok and (need_sfi or P(sfi, .5))
        if use_sfi or not need_sfi:
            nt = r.randint(1, 4)
            if use_sfi: o.append("SFI")
    s["n_out_thetas"] = nt
    if nt: s["out_thetas"] = thetas(r, nt)
    toa_boa = bool(sset & {"DOUB_ADD", "EIG_ADD", "PADE_ADD", "SOS", "TWO_OS"})
    taus_ok = not (sset & {"DOUB_ADD", "EIG_ADD", "PADE_ADD", "SOS"})
    use_taus = taus_ok and "TWO_OS" not in sset and P(taus, .3)
    if use_taus: o.append("OUTPUT_AT_TAUS")
    else: o.append("OUTPUT_AT_LEVELS")
    # optical properties
    layers = []
    for i in range(nl):
        tau = logu(r, tau_min, tau_max)
        om = r.choice([1.0, 0.0 if not th else .01]) if r.random() < .08 else rf(r.uniform(omega_min, 1), 5)
        if om < omega_min: om = 1.0
        if ns == 1: c = [phase_scalar(r, mc)]
        else: c = phase_vector(r, mc)
        layers.append(dict(ltau=tau, omega=om, coef=c))
    s["layers"] = layers
    ttot = sum(l["ltau"] for l in layers)
    if use_taus:
        n = r.randint(1, 3)
        c = set()
        while len(c) < n:
            k = r.random()
            if k < .15: c.add(0.)
            elif k < .3 and nl > 1: c.add(sum(l["ltau"] for l in layers[:r.randint(1, nl - 1)]))
            else: c.add(rf(r.uniform(0, ttot * .999), 8))
        s["out_taus"] = sorted(c)
        s["n_out_levels"] = len(s["out_taus"])
    else:
        if toa_boa: lv = r.choice([[0, nl], [0, nl], [0], [nl]])
        else:
            k = r.randint(1, min(4, nl + 1)); lv = sorted(r.sample(range(nl + 1), k))
        if levels: lv = levels if levels != "all" else list(range(nl + 1))
        s["out_levels"] = lv; s["n_out_levels"] = len(lv)
    # surface
    if kernels is None:
        k = r.random()
        if k < .2: ks = []
        elif k < .6 or "TWO_STREAM" in sset or "FOUR_STREAM" in sset or "SIX_STREAM" in sset: ks = ["lambertian"]
        else: ks = [r.choice(["lambertian", "roujean", "li_sparse", "li_dense", "ross_thin", "ross_thick", "hapke", "rahman", "cox_munk", "user_defined", "direct_and_diffuse"]) for _ in range(r.choice([1, 1, 2]))]
    else: ks = kernels
    s["kernels"] = ks; s["n_kernel_quad"] = max(r.choice([8, 16, 24]), 2 * nq + 12)     # enough for the highest Fourier term
    s["kernel"] = [brdf_kernel(r, k) for k in ks]
    if len(ks) > 1:
        for k in s["kernel"]: k["ampfac"] = rf(k["ampfac"] / len(ks), 4)
    s["F_iso_top"] = rf(r.uniform(0, 2), 4) if r.random() < .2 else 0.
    s["F_iso_bot"] = rf(r.uniform(0, 2), 4) if r.random() < .2 else 0.
    if so:
        s["F_0"] = rf(r.uniform(.2, 5), 4) if r.random() < .7 else 1.
        s["theta_0"] = 0. if r.random() < .08 else rf(r.uniform(0, 84), 5)
        s["phi_0"] = rf(r.uniform(0, 360), 4) if r.random() < .5 else 0.
    if "PSA" in o:
        s["planet_r"] = r.choice([6371., 6371., 3390., 1737.])
        z = [0.]
        for i in range(nl): z.append(z[-1] + rf(r.uniform(.5, 20) * (5 if r.random() < .3 else 1), 4))
        s["levels_z"] = [rf(v, 8) for v in z[::-1]]
    if th:
        b = rf(r.uniform(.1, 2), 4)
        lb = [b]
        for i in range(nl): lb.append(rf(max(0., lb[-1] * r.uniform(.7, 1.5)), 5))
        s["levels_b"] = lb; s["surface_b"] = rf(r.uniform(0, 2), 4)
    s["doub_d_tau"] = 1e-6
    s["pade"] = pade_params(s)
    s["sos"] = [200, .005, 1e-10]
    s["fourier_tol"] = 0.
    if greens: o.append("PART_SOL_GREENS")
    s["options"] = o
    s["solvers"] = list(solvers)
    s["n_derivs"] = 0
    s["phis"] = [rf(r.uniform(0, 360), 5) for _ in range(r.choice([1, 2, 3]))]
    return s
