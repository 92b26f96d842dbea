"""C04: single scattering and two orders of scattering against their definitions."""
from scn import *
import gen, ref, brdf, copy, math
from gen import rf

def scaled_layers(s):
    """the layers that delta-M makes of the scene's, as a scene without delta-M"""
    c = copy.deepcopy(s)
    for l in c["layers"]: l["omega"] = min(l["omega"], 1 - ref.EPS)
    if "DELTA_M" in s["options"]:
        c["options"] = [o for o in c["options"] if o not in ("DELTA_M", "N_T_TMS")]
        for l in c["layers"]:
            d = ref.delta_m(l, 2 * s["n_quad"], s["n_stokes"]); l.update(ltau=d["ltau"], omega=d["omega"], coef=d["coef"])
    return c

def orders(s, kernel_of):
    """sum of the first two orders of scattering, counting surface reflections: the first two coefficients of the response to scaling both"""
    h = .005; n = 6; y = []
    for k in range(1, n + 1):
        c = copy.deepcopy(s)
        for l in c["layers"]: l["omega"] *= h * k
        for q in c["kernel"]: q["ampfac"] *= h * k
        y.append(ref.solve(c, kernel=kernel_of(c))["I_p"])
    A = np.array([[(h * k) ** p for p in range(1, n + 1)] for k in range(1, n + 1)])
    c = np.linalg.solve(A, np.array([v.ravel() for v in y]))
    return c[1].reshape(y[0].shape)

class P(SceneProp):
    id = "C04"
    quick, thorough = 6000, 100000
    rule = ("Random scenes for SINGLE (any angles, levels and optical depths, full phase functions, delta-M with the single-scattering correction, pseudo-spherical beams, radiances entering at the boundaries) "
            "against line-of-sight integrals, and for TWO_OS (with reflecting surfaces) against the first two orders of the reference model. Non-trivial: the scene scatters.")
    def gen(self, r, i, tier):
        if i % 3:
            s = gen.scene(r, ["SINGLE"], max_quad=6, tau_max=8.)
            if any(k not in ("lambertian", "direct_and_diffuse") for k in s["kernels"]):
                n = max(len(l["coef"][0]) for l in s["layers"]) + 1; a = r.uniform(0, 360.)      # enough for an exact mean over azimuth
                s["phis"] = [rf(a + 360. * k / n, 12) for k in range(n)]
                return dict(scene=s, mean=True)
            return dict(scene=s)
        s = gen.scene(r, ["TWO_OS"], max_quad=4, max_layers=3, tau_max=4., vector=None)
        s["F_iso_top"] = s["F_iso_bot"] = 0.
        s["out_levels"] = [0]; s["n_out_levels"] = 1
        return dict(scene=s)
    def single(self, s, case):
        ns = s["n_stokes"]; o = s["options"]
        qx, _ = ref.gauss("norm" if "QUAD_NORM_GAUS_LEG" in o else "doub", s["n_quad"])
        mu = np.array([math.cos(math.radians(t)) for t in s["out_thetas"]]) if s["n_out_thetas"] else qx
        L = []
        for l in s["layers"]:
            l = dict(l, omega=min(l["omega"], 1 - ref.EPS))
            d = ref.delta_m(l, 2 * s["n_quad"], ns) if "DELTA_M" in o else dict(ltau=l["ltau"], omega=l["omega"], f=0.)
            L.append(dict(t=d["ltau"], raw=l["ltau"], om=l["omega"] / (1 - l["omega"] * d["f"]), coef=l["coef"]))
        taus = [l["t"] for l in L]; nl = len(L)
        Tb, sec = ref.beam(s, taus)
        c = np.concatenate([[0.], np.cumsum([l["raw"] for l in L])]); at = np.concatenate([[0.], np.cumsum(taus)])
        if "OUTPUT_AT_TAUS" in o:
            lev = []
            for q in s["out_taus"]:
                k = min(max(int(np.searchsorted(c, q, side="right")) - 1, 0), nl - 1); lev.append((k, (q - c[k]) * taus[k] / L[k]["raw"]))
        else: lev = [(k, 0.) if k < nl else (nl - 1, taus[-1]) for k in s["out_levels"]]
        dphi = np.radians(np.array(s["phis"]) - s.get("phi_0", 0.)); m0 = math.cos(math.radians(s["theta_0"]))
        g = s["F_0"] / (4 * np.pi)
        sgn = np.array([1, 1, ref.USIGN, ref.USIGN][:ns])
        A = {sg: [g * l["om"] * ref.Z_matrix(l["coef"], ns, sg * mu[:, None], np.array(-m0), dphi[None, :])[..., 0] * sgn for l in L] for sg in (1, -1)}
        Ip = np.zeros((len(lev), len(mu), len(dphi), ns)); Im = np.zeros_like(Ip)
        srf = np.zeros((len(mu), len(dphi), ns))
        if s["kernels"]:
            # the beam reflected once, in as many azimuthal terms as the streams resolve
            qf = .5 / (qx * _).sum(); f = qf * m0 * s["F_0"] / np.pi * Tb[nl]; K = brdf.modes(s, s["n_quad"]); m_r = np.concatenate([qx, mu]) if s["n_out_thetas"] else mu
            for m in range(case.get("modes", 1)):
                srf += f * K(m_r, np.array([m0]), m, True)[-len(mu):, 0, :, 0][:, None, :] * np.cos(m * dphi)[None, :, None]
        for i, (k, off) in enumerate(lev):
            for q, u in enumerate(mu):
                def add(I, sg, j, a, b, tau0):
                    # layer j between offsets a and b, seen from optical depth tau0; closed form of the integral
                    if b <= a: return
                    if sg > 0:
                        y = sec[j] + 1 / u; e = math.exp(-sec[j] * a - abs(at[j] + a - tau0) / u) * -math.expm1(-y * (b - a)) / (y * u)
                    else:
                        y = (1 / u - sec[j]) * (b - a); z = 1 - y / 2 if abs(y) < 1e-9 else -math.expm1(-y) / y
                        e = math.exp(-sec[j] * b - abs(tau0 - at[j] - b) / u) * (b - a) / u * z
                    I += A[sg][j][q] * Tb[j] * e
                t0 = at[k] + off
                for j in range(k, nl): add(Ip[i, q], 1, j, off if j == k else 0., taus[j], t0)
                for j in range(0, k + 1): add(Im[i, q], -1, j, 0., off if j == k else taus[j], t0)
                Ip[i, q] += srf[q] * math.exp(-(at[-1] - t0) / u)
                Ip[i, q, :, 0] += s.get("F_iso_bot", 0.) * math.exp(-(at[-1] - t0) / u); Im[i, q, :, 0] += s.get("F_iso_top", 0.) * math.exp(-t0 / u)
        return dict(I_p=Ip, I_m=Im)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        x = xr.run(self.lib, s, sv, ("RADIANCE",))
        if sv == "SINGLE": y = self.single(s, case); tol = 1e-8 if s["n_stokes"] == 1 else 1e-6
        else:
            y = dict(I_p=orders(scaled_layers(s), lambda c: brdf.modes(c, c["n_quad"]) if c["kernels"] else None)); tol = 1e-6
        if case.get("mean"):
            x = {k: v.mean(2, keepdims=True) for k, v in x.items() if v is not None and k in y}; y = {k: v.mean(2, keepdims=True) for k, v in y.items()}
        e = diff(x, y, list(y), max(scale_of(y), floor(s)))
        need(e, tol, "%s against its definition" % sv)
        return {"err " + sv: e[0]}
    def nontrivial(self, case, st):
        return bool(st) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        yield from SceneProp.classify(self, case, st)
