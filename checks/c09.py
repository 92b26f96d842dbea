"""C09: what is asked for does not change what is returned for it."""
from scn import *
import gen, lin, copy, math
from gen import rf

SOLV = ["EIG_BVP", "EIG_ADD", "MEM_BVP", "SINGLE", "PADE_ADD", "EIG_BVP", "TWO_OS", "SOS", "DOUB_ADD"]
NOLEV = ("EIG_ADD", "PADE_ADD", "DOUB_ADD", "SOS", "TWO_OS")

class P(SceneProp):
    id = "C09"
    quick, thorough = 20000, 150000
    rule = ("A random scene is solved asking for everything (levels or optical depths, angles, azimuths, quantities) and again asking for a random part of it through a random entry point; the part "
            "has to be the same numbers. Non-trivial: the part is smaller than the whole and the scene scatters.")
    TOL, TOLD = 1e-9, 1e-6
    def gen(self, r, i, tier):
        sv = SOLV[i % len(SOLV)]
        s = gen.scene(r, [sv], max_quad=6, tau_max=.3 if sv == "SOS" else 8., levels=[0, 0] if 0 else None)
        nl = s["n_layers"]
        if "OUTPUT_AT_LEVELS" in s["options"]:
            s["out_levels"] = [0, nl] if sv in NOLEV else list(range(nl + 1)); s["n_out_levels"] = len(s["out_levels"])
        if s["n_out_thetas"]: s["n_out_thetas"] = r.randint(2, 5); s["out_thetas"] = gen.thetas(r, s["n_out_thetas"])
        s["pade"] = gen.pade_params(s)
        s["phis"] = [rf(r.uniform(0, 360), 5) for _ in range(r.randint(1, 5))]
        d = r.random() < .4
        if d:
            for l in s["layers"]:
                if .99 < l["omega"] < 1.: l["omega"] = .99
            lin.add_derivs(r, s, nd=r.choice([1, 2, 3]))
        sub = lambda n: sorted(r.sample(range(n), r.randint(1, n)))
        lv = sub(s["n_out_levels"])
        if "OUTPUT_AT_LEVELS" in s["options"] and sv in NOLEV and lv == []: lv = [0]
        th = sub(s["n_out_thetas"]) if s["n_out_thetas"] else []
        ph = sub(len(s["phis"])); r.shuffle(ph)
        if th and r.random() < .5: r.shuffle(th)
        mode = r.choice(["sub", "sub", "sub", "rad", "rad", "mean", "flux", "taus", "drop_thetas", "per_theta"])
        if sv == "SINGLE" and mode in ("mean", "flux", "drop_thetas"): mode = "rad"
        if mode == "taus" and ("OUTPUT_AT_TAUS" in s["options"] or sv in NOLEV): mode = "sub"
        if mode == "drop_thetas" and not th: mode = "sub"
        if sv == "TWO_OS" and "SFI" in s["options"] and mode in ("drop_thetas", "mean", "flux"): mode = "rad"     # fills user angles only
        outs = ["RADIANCE"] if sv == "SINGLE" else r.choice([["RADIANCE"], ["MEAN"], ["FLUX"], ["RADIANCE", "MEAN"], ["MEAN", "FLUX"], ["RADIANCE", "FLUX"], ["RADIANCE", "MEAN", "FLUX"]])
        return dict(scene=s, lv=lv, th=th, ph=ph, mode=mode, outs=outs)
    def check(self, case):
        s = case["scene"]; sv = s["solvers"][0]; mode = case["mode"]
        if near_node(s, 1e-4): return {}
        full = ["RADIANCE"] if sv == "SINGLE" else ["RADIANCE", "MEAN", "FLUX"]
        a = xr.run(self.lib, s, sv, full)
        nt = s["n_out_thetas"] or s["n_quad"]
        lv = [v for v in case["lv"] if v < s["n_out_levels"]] or [0]
        th = [v for v in case["th"] if v < s["n_out_thetas"]] or list(range(nt)) if s["n_out_thetas"] else list(range(nt))
        ph = [v for v in case["ph"] if v < len(s["phis"])] or [0]
        c = copy.deepcopy(s); what = 1; outs = case["outs"]
        c["n_out_levels"] = len(lv)
        key = "out_levels" if "OUTPUT_AT_LEVELS" in s["options"] else "out_taus"
        c[key] = [s[key][v] for v in lv]
        c["phis"] = [s["phis"][v] for v in ph]
        if s["n_out_thetas"]: c["out_thetas"] = [s["out_thetas"][v] for v in th]; c["n_out_thetas"] = len(th)
        if mode == "taus":
            t = [0.]
            for l in s["layers"]: t.append(t[-1] + l["ltau"])
            c["options"] = [("OUTPUT_AT_TAUS" if o == "OUTPUT_AT_LEVELS" else o) for o in c["options"]]
            c["out_taus"] = [t[v] for v in c["out_levels"]]
        if mode == "drop_thetas":
            c["n_out_thetas"] = 0; c.pop("out_thetas")
            if "SFI" in c["options"]: c["options"].remove("SFI")
            outs = [o for o in outs if o != "RADIANCE"] or ["FLUX"]
        if mode == "rad": what, outs = 2, ["RADIANCE"]
        if mode == "mean": what, outs = 3, ["MEAN"]
        if mode == "flux": what, outs = 4, ["FLUX"]
        ph2 = None; full_ph = None
        if mode == "per_theta" and nt > 1 and len(s["phis"]) > 0:
            # each angle with azimuths of its own: the lists are rotated copies of one another
            n = len(ph); ph2 = [[s["phis"][ph[(k + q) % n]] for q in range(n)] for k in range(len(th))]
        b = xr.run(self.lib, c, sv, outs, phis=ph2 or c["phis"], which=what)
        st = {"err": 0., "err_l": 0.}
        sc = max(scale_of(a), floor(s))
        for k, v in b.items():
            w = a[k]
            w = w[lv]
            if k[0] == "I":
                ax = 2 if k.endswith("_l") else 1
                w = np.take(w, th, axis=ax)
                if ph2:
                    n = len(ph); w = np.stack([np.take(np.take(w, q, axis=ax), [ph[(q + j) % n] for j in range(n)], axis=ax) for q in range(len(th))], axis=ax)
                else: w = np.take(w, ph, axis=ax + 1)
            e = diff({k: v}, {k: w}, [k], scale=sc) if not k.endswith("_l") else self.dl(k, v, w, a[k], sc)
            l = k.endswith("_l")
            need(e, self.TOLD if l else self.TOL, "%s %s of a part (%s) against the same of the whole" % (sv, k, mode))
            n = "err_l" if l else "err"; st[n] = max(st[n], e[0])
        st["part"] = 1 if (len(lv) < s["n_out_levels"] or len(th) < nt or len(ph) < len(s["phis"]) or mode != "sub") else 0
        return st
    def dl(self, k, v, w, full, sc):
        sc = max(float(np.nanmax(np.abs(full))) if full.size else 0., sc * 1e-3, 1e-300)
        d = np.abs(v - w) / sc
        if not np.isfinite(d).all(): return float("inf"), "%s not finite" % k
        if not d.size: return 0., None
        j = np.unravel_index(int(d.argmax()), d.shape)
        return float(d.max()), "%s%s: %.15g vs %.15g" % (k, tuple(int(q) for q in j), v[j], w[j])
    def nontrivial(self, case, st):
        return bool(st.get("part")) and any(l["omega"] > .01 for l in case["scene"]["layers"])
    def classify(self, case, st):
        yield case["scene"]["solvers"][0]; yield "mode " + case["mode"]
        yield from SceneProp.classify(self, case, st)
