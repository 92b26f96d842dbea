"""C24: adjoint derivatives equal the linearized (forward) ones; what the adjoint cannot do is refused."""
from scn import *
import gen, lin, copy

SOLV = ["EIG_BVP", "EIG_ADD", "EIG_BVP", "EIG_ADD", "EIG_BVP", "SINGLE"]
OTHER = ["DOUB_ADD", "MEM_BVP", "PADE_ADD", "SOS", "TWO_OS"]
KINDS = ["ltau", "omega", "coef", "layers", "layers", "one_layer", "kernel", "zero"]

class P(SceneProp):
    id = "C24"
    quick, thorough = 3000, 80000
    rule = ("A random scene with one to four directions in input space (thicknesses, albedos, phase coefficients, factors of kernels); the "
            "derivatives by xrtm_radiance_2() of a model with REVERSE_DERIVS against those by xrtm_radiance() of a model without, "
            "often for a second atmosphere set on the same model. Non-trivial: the adjoint was accepted and a derivative is not zero.")
    TOL = 1e-5
    def gen(self, r, i, tier):
        sv = r.choice(SOLV) if r.random() < .96 else r.choice(OTHER)
        odd = r.random() < .1                                    # may ask for what is not supported
        kw = dict(tau_max=.3) if sv == "SOS" else dict(tau_max=r.choice([2., 5.]))
        if not odd and sv != "SINGLE": kw["thermal"] = False
        s = gen.scene(r, [sv], max_quad=5, max_layers=4, omega_min=.02, tau_min=5e-3, **kw)
        if not odd and sv == "EIG_BVP" and s["n_out_thetas"] and "SFI" in s["options"]: s["options"].remove("SFI")
        for l in s["layers"]:
            if .99 < l["omega"] < 1.: l["omega"] = .99
        if r.random() < .25 and sv != "SINGLE" and "NO_AZIMUTHAL" not in s["options"]:
            s["fourier_tol"] = 10. ** r.uniform(-15, -1)
            if "N_T_TMS" in s["options"] and r.random() < .5: s["options"].append(r.choice(["FOUR_CONV_OLD", "FOUR_CONV_NEW"]))
        if sv == "EIG_ADD" and r.random() < .45:
            o = r.choice(["STACK_REUSE_ADDING", "SAVE_LAYER_R_T_S", "TOP_DOWN_ADDING", "BOTTOM_UP_ADDING", "BOTTOM_UP_ADDING"])
            if "_ADDING" not in o or o[0] == "S": s["options"].append(o)
            elif s["n_out_levels"] == 1 and "OUTPUT_AT_TAUS" not in s["options"]:
                s["options"].append(o); s["out_levels"] = [s["n_layers"] if o[0] == "T" else 0]
        lin.add_derivs(r, s, None, KINDS + (["all", "source"] if odd else []))
        if not odd:
            for d in s["derivs"]: self.restrict(s, d)
        t = None
        if r.random() < .4:
            t = copy.deepcopy(s)
            for l in t["layers"]:
                l["ltau"] = gen.rf(l["ltau"] * r.choice([1., r.uniform(.3, 3.)]), 6)
                if 0 < l["omega"] < .99: l["omega"] = gen.rf(l["omega"] * r.uniform(.3, 1.), 5)
                l["coef"] = [[v * (1. if (e, q) == (0, 0) else f) for q, v in enumerate(row)] for f in [r.uniform(.5, 1.)] for e, row in enumerate(l["coef"])]
            if "OUTPUT_AT_TAUS" in t["options"]:
                k = min(1., sum(l["ltau"] for l in t["layers"]) / sum(l["ltau"] for l in s["layers"])) * .999
                t["out_taus"] = [gen.rf(v * k, 12) for v in s["out_taus"]]
            t["derivs"] = [lin.direction(r, t, r.choice(KINDS)) for _ in range(t["n_derivs"])]
            for d in t["derivs"]:
                d.setdefault("ampfac", [0.] * len(t["kernels"])); self.restrict(t, d)
                d.setdefault("params", [[0.] * len(k["params"]) for k in t["kernel"]])
                for k in ("F_iso_top", "F_iso_bot"): d[k] = 0.
        return dict(scene=s, then=t)
    def restrict(self, s, d):
        """only what the adjoint supports"""
        if d.get("params"): d["params"] = [[0.] * len(p) for p in d["params"]]
        if d.get("ampfac") and any(k != "lambertian" for k in s["kernels"]): d["ampfac"] = [0. for k in s["kernels"]]
    def supported(self, s):
        sv = s["solvers"][0]
        if sv not in SOLV: return False
        if sv != "SINGLE" and "SOURCE_THERMAL" in s["options"]: return False
        if sv == "EIG_BVP" and "SFI" in s["options"] and s["n_out_thetas"]: return False
        for d in s["derivs"]:
            if d.get("F_iso_top") or d.get("F_iso_bot"): return False
            if any(v for p in d.get("params") or [] for v in p): return False
            if any(d.get("ampfac") or []) and any(k != "lambertian" for k in s["kernels"]): return False
        return True
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]
        if near_node(s, 1e-4): return {}
        rev = lambda c: dict(c, options=["REVERSE_DERIVS"] + c["options"])
        st = dict(refused=0, seen=0, second=0, e=0.)
        with xr.X(self.lib, rev(s)) as x:
            for n, c in enumerate([s, case.get("then")]):
                if c is None: break
                x.s = rev(c); x.setup()
                ok = self.supported(c)
                try: o = x.solve(sv, ("RADIANCE",), which=12)
                except xr.XErr: o = None
                if ok and o is None: raise Fail("adjoint derivatives of %s were refused" % sv)
                if not ok:
                    if o is not None: raise Fail("adjoint derivatives that are not supported (%s) were given" % sv)
                    st["refused"] += 1; continue
                f = xr.run(self.lib, c, sv, ("RADIANCE",), which=2)
                sc = scale_of({k: f[k] for k in ("I_p", "I_m")})
                need(diff({k: f[k] for k in ("I_p", "I_m")}, o, ["I_p", "I_m"]), 1e-9, "radiances with adjoint and with forward derivatives, %s" % sv)
                for j in range(c["n_derivs"]):
                    a = {"derivative of " + k: f[k + "_l"][:, j] for k in ("I_p", "I_m")}; b = {"derivative of " + k: o[k + "_l"][:, j] for k in ("I_p", "I_m")}
                    size = max(float(np.nanmax(np.abs(a[k]))) for k in a)
                    e = diff(a, b, scale=max(size, 1e-3 * sc, 1e-5 * (c.get("F_0") or 0.)))
                    st["e"] = max(st["e"], e[0])
                    need(e, self.TOL, "adjoint against forward derivative %d, %s%s" % (j, sv, ", second atmosphere" if n else ""))
                    if size > 1e-9 * sc: st["seen"] = 1
                st["second"] += n
        return st
    def shrinks(self, case):
        if case.get("then"): yield dict(case, then=None); yield dict(case, scene=case["then"], then=None)
        else: yield from SceneProp.shrinks(self, case)
    def nontrivial(self, case, st): return bool(st.get("seen"))
    def classify(self, case, st):
        yield from SceneProp.classify(self, case, st)
        yield "solver " + case["scene"]["solvers"][0]
        if st.get("refused"): yield "refused"
        if st.get("second"): yield "second atmosphere"
        for d in case["scene"]["derivs"]: yield "direction " + d.get("kind", "shrunk")
