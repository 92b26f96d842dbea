"""An independent reference for plane-parallel (pseudo-spherical) radiative transfer.

Discrete ordinates with the user angles as zero-weight nodes; every layer's
reflection, transmission and source come from a matrix exponential of a thin
sublayer and doubling; layers are put together with the interaction principle.
Phase matrices are made in the scattering plane from Wigner d functions, turned
to the meridian planes and Fourier-analysed numerically.  Nothing here is shared
with the library (no Legendre recursions over m, no eigenproblems).
"""
import math
import numpy as np
from scipy.linalg import expm
from functools import lru_cache

PI = math.pi

# ------------------------------------------------------------- quadrature
@lru_cache(None)
def gauss(kind, n):
    if kind == "norm":
        x, w = np.polynomial.legendre.leggauss(2 * n)
        return x[n:].copy(), w[n:].copy()
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2

# ------------------------------------------------- scattering-plane functions
def legendre_all(c, n):
    """P_l(c), l = 0..n-1"""
    out = [np.ones_like(c), c]
    for l in range(2, n):
        out.append(((2 * l - 1) * c * out[-1] - (l - 1) * out[-2]) / l)
    return out[:n]

def d_all(m, n, c, nl):
    """Wigner d^l_{mn}(theta) for (m,n) in {(2,2),(2,-2),(0,2)} by recursion in l from l = 2."""
    z = np.zeros_like(c)
    out = [z, z]
    if nl < 3: return out[:nl]
    if (m, n) == (2, 2): d2 = ((1 + c) / 2) ** 2
    elif (m, n) == (2, -2): d2 = ((1 - c) / 2) ** 2
    else: d2 = math.sqrt(6) / 4 * (1 - c * c)
    out.append(d2)
    p0, p1 = z, d2
    for l in range(2, nl - 1):
        a = l * math.sqrt((l + 1.) ** 2 - m * m) * math.sqrt((l + 1.) ** 2 - n * n)
        b = (2 * l + 1) * (l * (l + 1.) * c - m * n)
        e = (l + 1) * math.sqrt(l * l - m * m) * math.sqrt(l * l - n * n)
        p0, p1 = p1, (b * p1 - e * p0) / a
        out.append(p1)
    return out

def F_elems(coef, c):
    n = len(coef[0])
    P = legendre_all(c, n)
    a1 = sum(b * p for b, p in zip(coef[0], P))
    if len(coef) == 1: return a1,
    D22, D2m, D02 = d_all(2, 2, c, n), d_all(2, -2, c, n), d_all(0, 2, c, n)
    s = sum((a + z) * d for a, z, d in zip(coef[1], coef[2], D22)) + 0 * c
    t = sum((a - z) * d for a, z, d in zip(coef[1], coef[2], D2m)) + 0 * c
    a4 = sum(b * p for b, p in zip(coef[3], P))
    b1 = -sum(b * d for b, d in zip(coef[4], D02)) + 0 * c
    b2 = sum(b * d for b, d in zip(coef[5], D02)) + 0 * c
    return a1, (s + t) / 2, (s - t) / 2, a4, b1, b2

def Z_matrix(coef, ns, mu, mup, dphi):
    """Phase matrix from direction mup to mu (signed: > 0 upward), azimuth difference dphi;
    broadcast over the arguments; shape (..., ns, ns)."""
    mu, mup, dphi = np.broadcast_arrays(mu, mup, dphi)
    st, stp = np.sqrt(np.maximum(0, 1 - mu * mu)), np.sqrt(np.maximum(0, 1 - mup * mup))
    c = np.clip(mu * mup + st * stp * np.cos(dphi), -1, 1)
    e = F_elems(coef, c)
    if ns == 1: return e[0][..., None, None]
    a1, a2, a3, a4, b1, b2 = e
    # rotation angles by vectors: meridian-plane bases and the scattering-plane normal
    def vec(m, s, p): return np.stack([s * np.cos(p), s * np.sin(p), m], -1)
    z0 = np.zeros_like(dphi)
    k, kp = vec(mu, st, dphi), vec(mup, stp, z0)
    def basis(m, s, p):
        th = np.stack([m * np.cos(p), m * np.sin(p), -s], -1)      # e_theta
        ph = np.stack([-np.sin(p), np.cos(p), 0 * p], -1)          # e_phi
        return th, ph
    th, ph = basis(mu, st, dphi); thp, php = basis(mup, stp, z0)
    nrm = np.cross(kp, k); L = np.linalg.norm(nrm, axis=-1)
    ok = L > 1e-7
    nrm = np.where(ok[..., None], nrm / np.where(ok, L, 1.)[..., None], php)
    # parallel direction in scattering plane: l = n x k  (so that (l, n) is right-handed about k like (theta, phi))
    lp, l = np.cross(nrm, kp), np.cross(nrm, k)
    ca, sa = (thp * lp).sum(-1), (php * lp).sum(-1)      # l' = ca th' + sa ph'
    cb, sb = (th * l).sum(-1), (ph * l).sum(-1)
    c2a, s2a = ca * ca - sa * sa, 2 * ca * sa
    c2b, s2b = cb * cb - sb * sb, 2 * cb * sb
    # Stokes into scattering frame: Q' = c2 Q + s2 U, U' = -s2 Q + c2 U
    sh = dphi.shape
    R1 = np.zeros(sh + (4, 4)); R2 = np.zeros(sh + (4, 4)); F = np.zeros(sh + (4, 4))
    R1[..., 0, 0] = R1[..., 3, 3] = 1; R1[..., 1, 1] = R1[..., 2, 2] = c2a; R1[..., 1, 2] = s2a; R1[..., 2, 1] = -s2a
    R2[..., 0, 0] = R2[..., 3, 3] = 1; R2[..., 1, 1] = R2[..., 2, 2] = c2b; R2[..., 1, 2] = -s2b; R2[..., 2, 1] = s2b
    F[..., 0, 0], F[..., 1, 1], F[..., 2, 2], F[..., 3, 3] = a1, a2, a3, a4
    F[..., 0, 1] = F[..., 1, 0] = b1
    F[..., 2, 3] = b2; F[..., 3, 2] = -b2
    return (R2 @ F @ R1)[..., :ns, :ns]

USIGN = 1.     # sign of U and V relative to the basis above

def Z_modes(coef, ns, mus, mups, n_modes):
    """Fourier modes, list over m of (cos, sin) arrays (len(mus), len(mups), ns, ns):
    Z(dphi) = sum_m C_m cos(m dphi) + S_m sin(m dphi)"""
    L = len(coef[0])
    n = max(2 * (max(L, n_modes) + 2), 8)
    ph = 2 * PI * np.arange(n) / n
    Z = Z_matrix(coef, ns, np.asarray(mus)[:, None, None], np.asarray(mups)[None, :, None], ph[None, None, :])
    f = np.fft.rfft(Z, axis=2) / n
    out = []
    for m in range(n_modes):
        k = 1. if m == 0 else 2.
        if m < f.shape[2]: out.append((k * f[:, :, m].real, -k * f[:, :, m].imag))
        else: out.append((np.zeros_like(f[:, :, 0].real),) * 2)
    return out

def mode_matrix(cs, ns):
    """Combined operator on (I,Q cos; U,V sin) amplitudes, diffuse: shape (a, b, ns, ns)"""
    C, S = cs
    W = C.copy()
    if ns > 2:
        W[..., :2, 2:] = -S[..., :2, 2:]
        W[..., 2:, :2] = S[..., 2:, :2]
    return W

# ------------------------------------------------------------------- surfaces
def brdf(name, p, mui, mur, dphi):
    """Kernel values, incident cosine mui, reflected mur, azimuth difference of propagation (0 = forward)."""
    ti, tr = np.arccos(mui), np.arccos(mur)
    si, sr = np.sin(ti), np.sin(tr)
    if name == "lambertian": return np.ones(np.broadcast(mui, mur, dphi).shape)
    raise KeyError(name)

# ---------------------------------------------------------------- PSA geometry
def beam(s, taus):
    """(transmission at levels, mean secant per layer)"""
    mu0 = math.cos(math.radians(s["theta_0"]))
    n = len(taus)
    if "PSA" not in s["options"]:
        T = np.exp(-np.concatenate([[0], np.cumsum(taus)]) / mu0)
        return T, [1 / mu0] * n
    z, R = s["levels_z"], s["planet_r"]
    s0 = math.sin(math.radians(s["theta_0"]))
    T = [1.]
    for i in range(1, n + 1):
        rp = R + z[i]; b = rp * s0
        path = 0.
        for j in range(i):
            ru, rl = R + z[j], R + z[j + 1]
            path += taus[j] * (math.sqrt(ru * ru - b * b) - math.sqrt(max(0., rl * rl - b * b))) / (ru - rl)
        T.append(math.exp(-path))
    sec = []
    for i in range(n):
        sec.append((math.log(T[i]) - math.log(T[i + 1])) / taus[i] if T[i + 1] > 0 else 1 / mu0)
    return np.array(T), sec

EPS = 1e-5      # the library's documented-by-code distance kept from conservative scattering and from mu_0 on a node

def adjusted_mu0(s, mu):
    m = math.cos(math.radians(s["theta_0"]))
    for b in mu:
        a = b - m
        if -EPS < a < 0.: return b + EPS if b + EPS <= 1. else b - EPS
        if 0. <= a < EPS: return b - EPS
    return m

# ---------------------------------------------------------------------- solver
def delta_m(l, M, ns):
    c = [list(e) + [0.] * max(0, M + 1 - len(e)) for e in l["coef"]]
    f = c[0][M] / (2 * M + 1)
    om, t = l["omega"], l["ltau"]
    out = []
    for k, e in enumerate(c):
        if k in (0, 1, 2, 3): out.append([(v - f * (2 * q + 1) * (1 if (k in (0, 3) or q >= 2) else 0)) / (1 - f) for q, v in enumerate(e[:M])])
        else: out.append([v / (1 - f) for v in e[:M]])
    return dict(ltau=t * (1 - om * f), omega=om * (1 - f) / (1 - om * f), coef=out, f=f)

def star(top, bot):
    """each: dict Rt (reflection of light from above), Rb, Tt (down), Tb (up), Su (source up at top), Sd; S arrays (n,k)"""
    n = top["Rt"].shape[0]; I = np.eye(n)
    K = np.linalg.inv(I - top["Rb"] @ bot["Rt"])      # down at interface
    d_in = K @ top["Tt"]; d_up = K @ top["Rb"] @ bot["Tb"]
    d_s = K @ (top["Sd"] + top["Rb"] @ bot["Su"])
    return dict(Rt=top["Rt"] + top["Tb"] @ bot["Rt"] @ d_in,
                Tb=top["Tb"] @ (bot["Tb"] + bot["Rt"] @ d_up),
                Tt=bot["Tt"] @ d_in,
                Rb=bot["Rb"] + bot["Tt"] @ d_up,
                Su=top["Su"] + top["Tb"] @ (bot["Su"] + bot["Rt"] @ d_s),
                Sd=bot["Sd"] + bot["Tt"] @ d_s)

def layer_rts(tau, mu, Wpp, Wpm, Wmp, Wmm, sp, sm, sec, th):
    """R,T and sources of a homogeneous layer.  sp, sm: beam source up/down per unit beam at the top;
    th: emission vector (1 - omega) on Stokes I or None.  Source columns: beam, Planck constant, Planck linear in tau."""
    N = len(mu)
    Mi = 1 / mu
    G = np.zeros((2 * N + 3, 2 * N + 3))
    G[:N, :N] = Mi[:, None] * (np.eye(N) - Wpp); G[:N, N:2 * N] = -Mi[:, None] * Wpm
    G[N:2 * N, :N] = Mi[:, None] * Wmp; G[N:2 * N, N:2 * N] = -Mi[:, None] * (np.eye(N) - Wmm)
    b, o, t = 2 * N, 2 * N + 1, 2 * N + 2
    if sp is not None:
        G[:N, b] = -Mi * sp; G[N:2 * N, b] = Mi * sm
        G[b, b] = -sec
    if th is not None:
        G[:N, o] = -Mi * th; G[N:2 * N, o] = Mi * th
        G[:N, t] = -Mi * th; G[N:2 * N, t] = Mi * th
        G[t, o] = 1.           # t' = 1
    k = max(0, int(math.ceil(math.log2(max(tau * max(Mi.max(), sec if sp is not None else 0.) * 2, 1e-9)))))
    h = tau / 2. ** k
    E = expm(G * h)
    E11, E12, E21, E22 = E[:N, :N], E[:N, N:2 * N], E[N:2 * N, :N], E[N:2 * N, N:2 * N]
    # bottom = E top; known: I+ bottom, I- top
    Tb = np.linalg.inv(E11)
    Rt = -Tb @ E12
    Rb = E21 @ Tb
    Tt = E22 - E21 @ Tb @ E12
    # columns: beam amplitude 1; Planck 1 constant; Planck with slope 1 (zero at the top)
    X = np.zeros((2 * N, 3)); X[:, 0] = E[:2 * N, b]; X[:, 1] = E[:2 * N, o]; X[:, 2] = E[:2 * N, t]
    # state o=1,t=0 gives response of 1 + nothing: with G[t,o]=1, t grows, so column o mixes constant and slope 1
    const = np.zeros((2 * N, 3))
    Xo = X.copy()
    # response to constant 1 with t = 0 and no growth equals column t (t has no dynamics of its own)
    Xc = X[:, 2]                    # source th * t, t constant 1
    Xl = X[:, 1] - X[:, 2]          # o = 1: th * (1 + tau); minus constant
    if th is not None: S = np.stack([X[:, 0], Xc, Xl], 1)
    else: S = np.stack([X[:, 0], 0 * Xc, 0 * Xc], 1)
    Su = -Tb @ S[:N]
    Sd = S[N:] + E21 @ Su
    L = dict(Rt=Rt, Tb=Tb, Tt=Tt, Rb=Rb, Su=Su, Sd=Sd)
    for _ in range(k):
        f = math.exp(-sec * h) if sp is not None else 0.
        Mx = np.array([[f, 0, 0], [0, 1, h], [0, 0, 1.]])
        lo = dict(L); lo["Su"] = L["Su"] @ Mx; lo["Sd"] = L["Sd"] @ Mx
        L = star(L, lo)
        h *= 2
    return L

def solve(s, phis=None, kernel=None, max_modes=None):
    """Radiances (I_p, I_m) (n_lev, n_thetas, n_phis, ns), fluxes and means like the library's.
    kernel(mu_r array, mu_i array, m) -> Fourier mode m of the surface reflection operator (Lambertian by default)."""
    o = s["options"]; ns = s["n_stokes"]; nq = s["n_quad"]
    solar, thermal = "SOURCE_SOLAR" in o, "SOURCE_THERMAL" in o
    qx, qw = gauss("norm" if "QUAD_NORM_GAUS_LEG" in o else "doub", nq)
    um = np.array([math.cos(math.radians(t)) for t in s.get("out_thetas", [])]) if s["n_out_thetas"] else np.array([])
    mu = np.concatenate([qx, um]); w = np.concatenate([qw, 0 * um]); N = len(mu)
    n_four = s["max_coef"] if s["max_coef"] <= 2 * nq else 2 * nq
    if "NO_AZIMUTHAL" in o: n_four = 1
    M = 2 * nq
    layers = []
    s = dict(s, layers=[dict(l, omega=min(l["omega"], 1 - EPS)) for l in s["layers"]])
    for l in s["layers"]:
        if "DELTA_M" in o: d = delta_m(l, M, ns)
        else: d = dict(ltau=l["ltau"], omega=l["omega"], coef=[list(e[:M]) for e in l["coef"]], f=0.)
        d["full"] = l["coef"]; d["raw"] = l["ltau"]
        layers.append(d)
    nl = len(layers)
    taus = [l["ltau"] for l in layers]
    lb = s.get("levels_b") or [0.] * (nl + 1)
    mu0 = adjusted_mu0(s, mu) if solar else 1.
    if solar: s = dict(s, theta_0=math.degrees(math.acos(min(1., mu0))))
    F0 = s["F_0"] if solar else 0.
    if solar: Tb_, sec = beam(s, taus)
    else: Tb_, sec = np.ones(nl + 1), [1.] * nl
    # ---- list of pieces: split layers at out_taus
    pieces = []          # (layer, tau start offset, thickness)
    outs = []            # index of level among piece boundaries
    if "OUTPUT_AT_TAUS" in o:
        raw = np.concatenate([[0.], np.cumsum([l["raw"] for l in layers])])
        cuts = {}
        for t in s["out_taus"]:
            k = int(np.searchsorted(raw, t, side="right")) - 1
            k = min(max(k, 0), nl - 1)
            off = (t - raw[k]) * (layers[k]["ltau"] / layers[k]["raw"])
            cuts.setdefault(k, []).append(off)
        bnd = []
        for k in range(nl):
            edges = [0.] + [c for c in sorted(cuts.get(k, [])) if 0 < c < taus[k]] + [taus[k]]
            for c in cuts.get(k, []):
                pass
            for a, b in zip(edges[:-1], edges[1:]): pieces.append((k, a, b - a))
        for t in s["out_taus"]:
            k = min(max(int(np.searchsorted(raw, t, side="right")) - 1, 0), nl - 1)
            off = (t - raw[k]) * (layers[k]["ltau"] / layers[k]["raw"])
            best = None
            for q, (kk, a, th) in enumerate(pieces):
                if kk == k and abs(a - off) <= 1e-13 + 1e-12 * off: best = q; break
            if best is None: best = max(q for q, p in enumerate(pieces) if p[0] == k) + 1
            outs.append(best)
    else:
        pieces = [(k, 0., taus[k]) for k in range(nl)]
        outs = list(s["out_levels"])
    np_ = len(pieces)
    beamT = []
    for k, a, th in pieces: beamT.append(Tb_[k] * math.exp(-sec[k] * a))
    beamT.append(Tb_[nl])
    phis = s["phis"] if phis is None else phis
    phis = np.array(phis, float)
    nt = s["n_out_thetas"] or nq
    isel = np.arange(nq, nq + nt) if s["n_out_thetas"] else np.arange(nq)
    Ip = np.zeros((len(outs), nt, len(phis), ns)); Im = np.zeros_like(Ip)
    full0 = {}
    mod = [(Z_modes(l["coef"], ns, mu, mu, n_four), Z_modes(l["coef"], ns, mu, -mu, n_four),
            Z_modes(l["coef"], ns, -mu, mu, n_four), Z_modes(l["coef"], ns, -mu, -mu, n_four),
            Z_modes(l["coef"], ns, mu, [-mu0], n_four), Z_modes(l["coef"], ns, -mu, [-mu0], n_four)) for l in layers]
    lam = None
    if kernel is None and s["kernels"]:
        assert all(k == "lambertian" for k in s["kernels"]), "reference needs a kernel"
        lam = sum(k["ampfac"] for k in s["kernel"])
    flat = lambda A: A.transpose(0, 2, 1, 3).reshape(A.shape[0] * ns, A.shape[1] * ns)
    muv = np.repeat(mu, ns)
    first = np.zeros(N * ns); first[::ns] = 1.
    flux = None
    qf = .5 / (qx * qw).sum()
    for m in range(n_four):
        d = 2. if m == 0 else 1.
        rts = {}
        L = []
        for (k, a, th) in pieces:
            l = layers[k]; z = mod[k]
            W = [flat(mode_matrix(z[q][m], ns) * w[None, :, None, None]) * l["omega"] / 4 * d for q in range(4)]
            sp = sm = None
            if solar:
                # unpolarised beam: column 0; (I,Q) from cos, (U,V) from sin
                def col(cs):
                    C, S = cs; v = C[:, 0, :, 0].copy()
                    if ns > 2: v[:, 2:] = S[:, 0, 2:, 0]
                    return v.reshape(-1)
                g = l["omega"] * F0 / (4 * PI)
                sp, sm = g * col(z[4][m]), g * col(z[5][m])
            e = first * (1 - l["omega"]) if thermal and m == 0 else None
            q = layer_rts(th, muv, W[0], W[1], W[2], W[3], sp, sm, sec[k], e)
            B0 = lb[k] + (lb[k + 1] - lb[k]) * a / taus[k]; B1 = (lb[k + 1] - lb[k]) / taus[k]
            c = np.array([Tb_[k] * math.exp(-sec[k] * a) if solar else 0., B0, B1])
            q["Su"] = (q["Su"] @ c)[:, None]; q["Sd"] = (q["Sd"] @ c)[:, None]
            L.append(q)
        n = N * ns
        # surface
        Rs = np.zeros((n, n)); Ss = np.zeros(n)
        if kernel is not None:
            K = kernel(mu, mu, m, False)          # (N,N,ns,ns) mode coefficient of rho: f = sum_m K_m cos(m dphi)
            Rs = flat(K * (w * mu)[None, :, None, None]) * d * qf
            if solar: Ss = kernel(mu, np.array([mu0]), m, True)[:, 0, :, 0].reshape(-1) * qf * mu0 * F0 / PI * Tb_[nl]
        elif lam is not None and m == 0:
            for i in range(N):
                for j in range(N): Rs[i * ns, j * ns] = 2 * qf * lam * mu[j] * w[j]
            Ss[::ns] = qf * 2 * lam * mu0 * F0 / (2 * PI) * Tb_[nl]
        if m == 0:
            Ss[::ns] += s.get("F_iso_bot", 0.)
            if thermal and s["kernels"]:
                em = 1. - Rs[:, ::ns].reshape(N, ns, -1)[:, 0, :].sum(1) if (kernel is not None or lam is not None) else np.ones(N)
                Ss[::ns] += s["surface_b"] * em
        Itop = first * s.get("F_iso_top", 0.) if m == 0 else np.zeros(n)
        # sweep up from the surface: reflectance and source below each boundary
        Rl = [None] * (np_ + 1); Sl = [None] * (np_ + 1)
        Rl[np_], Sl[np_] = Rs, Ss
        for q in range(np_ - 1, -1, -1):
            a = L[q]
            K = np.linalg.inv(np.eye(n) - a["Rb"] @ Rl[q + 1])
            Rl[q] = a["Rt"] + a["Tb"] @ Rl[q + 1] @ K @ a["Tt"]
            Sl[q] = a["Su"][:, 0] + a["Tb"] @ (Sl[q + 1] + Rl[q + 1] @ K @ (a["Sd"][:, 0] + a["Rb"] @ Sl[q + 1]))
        dn = Itop; D = [dn]; U = [Rl[0] @ dn + Sl[0]]
        for q in range(np_):
            a = L[q]
            K = np.linalg.inv(np.eye(n) - a["Rb"] @ Rl[q + 1])
            dn = K @ (a["Tt"] @ dn + a["Sd"][:, 0] + a["Rb"] @ Sl[q + 1])
            D.append(dn); U.append(Rl[q + 1] @ dn + Sl[q + 1])
        cphi = np.cos(m * np.radians(phis - s.get("phi_0", 0.))); sphi = np.sin(m * np.radians(phis - s.get("phi_0", 0.)))
        for io, q in enumerate(outs):
            for A, V in ((Ip, U[q]), (Im, D[q])):
                v = V.reshape(N, ns)[isel]
                A[io, :, :, :2] += v[:, None, :2] * cphi[None, :, None]
                if ns > 2: A[io, :, :, 2:] += USIGN * v[:, None, 2:] * sphi[None, :, None]
        if m == 0:
            flux = [(U[q].reshape(N, ns)[:nq, 0], D[q].reshape(N, ns)[:nq, 0], beamT[q] if solar else 0.) for q in outs]
    if "N_T_TMS" in o and solar:
        dI = tms(s, layers, pieces, outs, Tb_, sec, mu[isel], mu0, F0, phis, ns, n_four)
        Ip += dI[0]; Im += dI[1]
    r = dict(I_p=Ip, I_m=Im)
    r["flux_p"] = np.array([2 * PI * (qx * qw * u).sum() for u, d_, b in flux])
    r["flux_m"] = np.array([2 * PI * (qx * qw * d_).sum() + mu0 * F0 * b for u, d_, b in flux])
    r["mean_p"] = np.array([(qw * u).sum() / 2 for u, d_, b in flux])
    r["mean_m"] = np.array([(qw * d_).sum() / 2 + F0 * b / (4 * PI) for u, d_, b in flux])
    return r

def ss_fields(amp_up, amp_dn, pieces, outs, Tb_, sec, taus, mu):
    """Line-of-sight integrals of a beam source; amp_*: (nlayers, nmu, nphi, ns)"""
    np_ = len(pieces)
    shape = amp_up[0].shape
    up = [np.zeros(shape)]; cur = np.zeros(shape)
    m = mu[:, None, None]
    for (k, a, th) in reversed(pieces):
        b = Tb_[k] * math.exp(-sec[k] * a)
        # integral_0^th exp(-sec t) exp(-t/mu) dt/mu
        x = sec[k] * m + 1
        g = b * (1 - np.exp(-th * (sec[k] + 1 / m))) / x
        cur = cur * np.exp(-th / m) + amp_up[k] * g
        up.append(cur)
    up = up[::-1]
    dn = [np.zeros(shape)]; cur = np.zeros(shape)
    for (k, a, th) in pieces:
        b = Tb_[k] * math.exp(-sec[k] * a)
        # integral_0^th exp(-sec t) exp(-(th-t)/mu) dt/mu = (e^{-sec th} - e^{-th/mu}) / (1 - sec mu)
        y = (1 / m - sec[k]) * th
        g = b * np.exp(-sec[k] * th) * th / m * np.where(np.abs(y) < 1e-9, 1 - y / 2, -np.expm1(-y) / np.where(y == 0, 1, y))
        cur = cur * np.exp(-th / m) + amp_dn[k] * g
        dn.append(cur)
    return [up[q] for q in outs], [dn[q] for q in outs]

def tms(s, layers, pieces, outs, Tb_, sec, mu, mu0, F0, phis, ns, n_four):
    dphi = np.radians(phis - s.get("phi_0", 0.))
    au, ad = [], []
    for l, raw in zip(layers, s["layers"]):
        def col(coef, sg):
            Z = Z_matrix(coef, ns, sg * mu[:, None], np.array(-mu0), dphi[None, :])[..., 0]
            if ns > 2: Z = Z * np.array([1, 1, USIGN, USIGN][:ns])
            return Z
        om_t = raw["omega"] / (1 - raw["omega"] * l["f"])        # full phase function, scaled optical thickness
        g = F0 / (4 * PI)
        au.append(g * (om_t * col(l["full"], 1) - l["omega"] * col(l["coef"], 1)))
        ad.append(g * (om_t * col(l["full"], -1) - l["omega"] * col(l["coef"], -1)))
    u, d = ss_fields(au, ad, pieces, outs, Tb_, sec, [l["ltau"] for l in layers], mu)
    return np.array(u), np.array(d)
