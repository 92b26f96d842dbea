"""C29: the Fourier series in azimuth ends where it has converged to the tolerance, and nowhere else."""
from scn import *
import gen, lin, ref, copy
from c04 import scaled_layers

SOLV = ["EIG_BVP", "EIG_ADD", "EIG_BVP", "PADE_ADD", "MEM_BVP", "DOUB_ADD", "SOS", "EIG_BVP"]


class P(SceneProp):
    id = "C29"
    quick, thorough = 4000, 150000
    rule = ("A random beam-lit scene solved with a random Fourier tolerance, against the partial sums of its series, whose terms are those of the "
            "same scene without a tolerance at evenly spaced azimuths. Non-trivial: the series ends before its last term.")
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], solar=True, max_quad=7, max_layers=4, tau_max=.3 if sv == "SOS" else 4., no_az=False)
        if r.random() < .4: s["theta_0"] = gen.rf(r.choice([r.uniform(0, 8), r.uniform(0, 25)]), 5)      # the terms decrease faster
        if r.random() < .5 and s["out_thetas"] if s["n_out_thetas"] else 0: s["out_thetas"] = sorted(gen.rf(t * r.choice([.1, .4]), 5) for t in s["out_thetas"])
        if r.random() < .35:
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2]))
        if r.random() < .25: s["options"].append("FOUR_CONV_OLD")
        elif "N_T_TMS" in s["options"] and r.random() < .3: s["options"].append("FOUR_CONV_NEW")
        if r.random() < .1: s["options"].append(r.choice(["UPWELLING_OUTPUT", "DOWNWELLING_OUTPUT"]))
        s["phis"] = [gen.rf(r.uniform(0, 360), 5) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        return dict(scene=s, tol=gen.logu(r, 1e-12, 1e-1) if r.random() < .95 else 1e-15)
    def keys(self, s):
        up = "DOWNWELLING_OUTPUT" not in s["options"]; dn = "UPWELLING_OUTPUT" not in s["options"]
        return [k for k, o in (("I_p", up), ("I_m", dn)) if o]
    def series(self, s, sv):
        """terms of the series at the scene's azimuths: {key: [term][level](deriv)[angle][azimuth][stokes]}"""
        nf = s["max_coef"] if s["max_coef"] <= 2 * s["n_quad"] else 2 * s["n_quad"]
        N = 2 * nf + 1; p0 = s.get("phi_0", 0.); n = len(s["phis"])
        t = dict(s, phis=[p0 + 360. * k / N for k in range(N)])
        x = xr.run(self.lib, t, sv, ("RADIANCE",))
        out = {}; al = 2 * np.pi * np.arange(N) / N; d = np.radians(np.array(s["phis"]) - p0)
        for k, v in x.items():
            if v is None or not k.startswith("I_"): continue
            v = np.asarray(v); T = []
            for m in range(nf):
                c = np.tensordot(np.moveaxis(v, -2, -1), np.cos(m * al), 1) * ((1 if m == 0 else 2) / N)
                q = np.tensordot(np.moveaxis(v, -2, -1), np.sin(m * al), 1) * (2 / N if m else 0.)
                T.append(c[..., None, :] * np.cos(m * d)[:, None] + q[..., None, :] * np.sin(m * d)[:, None])
            out[k] = np.array(T)
        return out
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]; tol = case["tol"]
        if near_node(s, 1e-4): return {}
        K = self.keys(s); KL = [k + "_l" for k in K] if "CALC_DERIVS" in s["options"] else []
        s2 = dict(s, fourier_tol=tol)
        a = xr.run(self.lib, s2, sv, ("RADIANCE", "MEAN", "FLUX"))
        full = xr.run(self.lib, s, sv, ("RADIANCE", "MEAN", "FLUX"))
        nt = dict(s, options=[o for o in s["options"] if o not in ("N_T_TMS", "FOUR_CONV_OLD", "FOUR_CONV_NEW")])
        T = self.series(nt, sv)
        # with single-scattering correction the series starts with it
        init = {}
        models = [("", T)]
        if "N_T_TMS" in s["options"]:
            plain = {k: T[k].sum(0) for k in K + KL}
            for k in K + KL: init[k] = np.asarray(full[k]) - plain[k]
            if "FOUR_CONV_OLD" not in s["options"]:
                # ... in full, and each term is without the (truncated) single scattering
                c = scaled_layers(nt); c["options"] = [o for o in c["options"] if o not in ("SFI", "SOURCE_THERMAL") and "DERIV" not in o]; c["n_derivs"] = 0; c["max_coef"] = 2 * s["n_quad"]; c["solvers"] = ["SINGLE"]
                if "OUTPUT_AT_TAUS" in c["options"]: c["out_taus"] = self.scaled_taus(s, c)
                c["F_iso_top"] = c["F_iso_bot"] = 0.; c["kernels"] = []; c["kernel"] = []
                S = self.series(c, "SINGLE")
                for k in K:
                    n = min(len(S[k]), len(T[k])); T[k][:n] -= S[k][:n]; init[k] = init[k] + S[k].sum(0)
                KL = []                                  # judged through the sum only
                if any(k != "lambertian" for k in s["kernels"]) and not case.get("strict"):
                    # known finding: the terms lose the reflected beam of m > 0
                    c = dict(c, kernels=s["kernels"], kernel=s["kernel"], solvers=["EIG_BVP"], layers=[dict(l, omega=0., coef=[[1.]] + [[0.]] * (len(l["coef"]) - 1)) for l in c["layers"]])
                    S = self.series(c, "EIG_BVP"); T2 = {k: T[k].copy() for k in K}
                    for k in K:
                        n = min(len(S[k]), len(T[k])); T2[k][1:n] -= S[k][1:n]
                    models.append(("less the reflected beam of m > 0", T2))
        sc = max(scale_of(full), floor(s)); nf = len(T[K[0]])
        nf2 = 1 if s["n_stokes"] == 1 and (s.get("theta_0") == 0. or s.get("out_thetas") == [0.]) else nf
        Z = {k: (np.asarray(a[k])[..., 0] != 0.) | (np.asarray(full[k])[..., 0] != 0.) for k in K}
        best = None; allends = set()
        for name, T in models:
            P = {k: np.cumsum(T[k], 0) + (init[k] if k in init else 0.) for k in K + KL}
            ends = self.ends(T, P, K, nf2, tol, sc, Z); allends |= ends
            for M in sorted(ends):
                e = max(np.abs(np.asarray(a[k]) - P[k][M - 1]).max() / sc for k in K)
                if best is None or e < best[0] - 1e-9: best = (e, M, P, name)
        ends = allends; P = best[2]
        st = dict(err=best[0], end=best[1], of=nf2, ways=len(ends), model=best[3])
        if not best[0] <= 1e-8:
            al = sorted((float(max(np.abs(np.asarray(a[k]) - P[k][M - 1]).max() / sc for k in K)), M) for M in range(1, nf2 + 1))[0]
            raise Fail("%s with a Fourier tolerance of %g: the radiance is not the sum of the first %s of %d terms (differs by %.3g); nearest is the sum of %d (%.3g)" % (sv, tol, "or ".join(str(q) for q in sorted(ends)), nf2, best[0], al[1], al[0]))
        if "N_T_TMS" not in s["options"] or "FOUR_CONV_OLD" in s["options"]:
            for k in KL:
                q = max(np.abs(np.asarray(full[k])).max(), sc); e = np.abs(np.asarray(a[k]) - P[k][best[1] - 1]).max() / q
                if best[1] == nf2 or len(ends) == 1: need((e, k), 2e-6, "%s with a Fourier tolerance of %g: derivatives against the sum of %d terms" % (sv, tol, best[1]))
        if "CALC_DERIVS" in s["options"] and best[1] == nf2 and len(models) == 1:
            for k in [q + "_l" for q in K]: need(diff(a, full, [k]), 2e-6, "%s with a Fourier tolerance of %g that ends no series: derivatives" % (sv, tol))
        need(diff(a, full, [q + k[1:] for q in ("mean", "flux") for k in K], sc), 1e-9, "%s with a Fourier tolerance: mean radiances and fluxes" % sv)
        return st
    def ends(self, T, P, K, nf2, tol, sc, Z):
        """numbers of terms after which the series may end: two terms running below the tolerance everywhere"""
        ends = set(); paths = [(1, 0)]                          # (terms added, run of small ones)
        while paths:
            m, run = paths.pop()
            if m >= nf2: ends.add(nf2); continue
            lo = hi = 0.
            for k in K:
                num, den = np.abs(T[k][m][..., 0]), np.abs(P[k][m][..., 0]); u = 1e-12 * sc
                unsure = den < 10 * u
                if (unsure & (Z[k] | (num >= 10 * u))).any(): hi = np.inf        # noise, or a sum that cancels
                e_lo = np.where(unsure, 0., np.maximum(num - u, 0) / np.maximum(den + u, 1e-300)); e_hi = np.where(unsure, 0., (num + u) / np.maximum(den - u, 1e-300))
                lo = max(lo, e_lo.max()); hi = max(hi, e_hi.max())
            if lo < tol * (1 + 1e-7):
                if run + 1 >= 2: ends.add(m + 1)
                else: paths.append((m + 1, run + 1))
            if hi >= tol * (1 - 1e-7): paths.append((m + 1, 0))
        return ends
    def scaled_taus(self, s, c):
        t0 = np.concatenate([[0.], np.cumsum([l["ltau"] for l in s["layers"]])]); t1 = np.concatenate([[0.], np.cumsum([l["ltau"] for l in c["layers"]])])
        return [float(np.interp(q, t0, t1)) for q in s["out_taus"]]
    def nontrivial(self, case, st): return "err" in st and st["end"] < st["of"]
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]
        if "err" in st: yield "ends early" if st["end"] < st["of"] else "all terms"
        if st.get("model"): yield "known finding: " + st["model"]
        if st.get("ways", 1) > 1: yield "more than one end possible"
        yield from SceneProp.classify(self, case, st)
