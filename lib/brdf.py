"""Surface reflection kernels from the published formulas (Roujean 1992, Wanner 1995, Rahman 1993, Hapke 1993, Cox-Munk), as functions of
the cosines of incidence and reflection and the relative azimuth.  The library measures the azimuth so that the hot spot is at zero."""
import numpy as np
PI = np.pi

def dist(ti, tr, phi): return np.sqrt(np.maximum(ti * ti + tr * tr - 2 * ti * tr * np.cos(phi), 0.))

def phase(ci, cr, phi):
    si, sr = np.sqrt(1 - ci * ci), np.sqrt(1 - cr * cr)
    c = np.clip(ci * cr + si * sr * np.cos(phi), -1., 1.)
    return c, np.arccos(c)

def tan(c): return np.sqrt(1 - c * c) / c

def roujean(ci, cr, phi, p):
    ti, tr = tan(ci), tan(cr); a = np.abs(phi)
    return ((PI - a) * np.cos(a) + np.sin(a)) * ti * tr / (2 * PI) - (ti + tr + dist(ti, tr, phi)) / PI

def li(ci, cr, phi, p):
    """primed angles of spheroidal crowns; overlap of the shadows"""
    ti, tr = p[0] * tan(ci), p[0] * tan(cr)
    ai, ar = np.arctan(ti), np.arctan(tr)
    cx = np.cos(ai) * np.cos(ar) + np.sin(ai) * np.sin(ar) * np.cos(phi)
    sec = 1 / np.cos(ai) + 1 / np.cos(ar)
    ct = p[1] * np.sqrt(dist(ti, tr, phi) ** 2 + (ti * tr * np.sin(phi)) ** 2) / sec
    t = np.arccos(np.minimum(ct, 1.))
    O = (t - np.sin(t) * np.cos(t)) * sec / PI
    return cx, 1 / np.cos(ar), sec, O

def li_sparse(ci, cr, phi, p):
    cx, sr, sec, O = li(ci, cr, phi, p)
    return O - sec + .5 * (1 + cx) * sr

def li_dense(ci, cr, phi, p):
    cx, sr, sec, O = li(ci, cr, phi, p)
    return (1 + cx) * sr / (sec - O) - 2

def ross_thin(ci, cr, phi, p):
    c, x = phase(ci, cr, phi)
    return ((PI / 2 - x) * c + np.sin(x)) / (ci * cr) - PI / 2

def ross_thick(ci, cr, phi, p):
    c, x = phase(ci, cr, phi)
    return ((PI / 2 - x) * c + np.sin(x)) / (ci + cr) - PI / 4

def hapke(ci, cr, phi, p):
    w, B0, h = p; c, x = phase(ci, cr, phi)
    H = lambda m: (1 + 2 * m) / (1 + 2 * m * np.sqrt(1 - w))
    return w / 4 / (ci + cr) * ((1 + B0 * h / (h + np.tan(x / 2))) * (1 + c / 2) + H(ci) * H(cr) - 1)

def rahman(ci, cr, phi, p):
    r0, g, k = p; c, x = phase(ci, cr, phi)
    F = (1 - g * g) / (1 + g * g + 2 * g * c) ** 1.5        # forward scattering of the vegetation seen from the hot spot: cos(pi - x) = -c
    G = dist(tan(ci), tan(cr), phi)
    return r0 * (ci * cr * (ci + cr)) ** (k - 1) * F * (1 + (1 - r0) / (1 + G))

def cox_munk(ci, cr, phi, p):
    s2, n2 = p; c, x = phase(ci, cr, phi)
    ct = np.cos(x / 2); q = np.sqrt(n2 - 1 + ct * ct)
    R = .5 * (((n2 * ct - q) / (n2 * ct + q)) ** 2 + ((ct - q) / (ct + q)) ** 2)
    g = np.minimum((ci + cr) / (2 * ct), 1.)                # cosine of the slope
    return R * np.exp(-(1 / g ** 2 - 1) / s2) / (4 * PI * ci * cr * s2 * g ** 4)

def user_defined(ci, cr, phi, p):
    si, sr = np.sqrt(1 - ci * ci), np.sqrt(1 - cr * cr)
    return p[0] + p[1] * ci * cr + p[2] * si * sr * np.cos(phi) + p[3] * np.sin(phi) ** 2 * si * sr

def lambertian(ci, cr, phi, p): return 1. + 0 * ci * cr * phi

def rho(s, ci, cr, phi):
    return sum(k["ampfac"] * globals()[n](ci, cr, phi, k["params"]) for n, k in zip(s["kernels"], s["kernel"]) if n != "direct_and_diffuse")

def modes(s, nq):
    """kernel(mu_r, mu_i, m, beam) for ref.solve; mu_r holds nq streams, then user angles"""
    x, w = np.polynomial.legendre.leggauss(s["n_kernel_quad"]); ph = PI * (x + 1) / 2; w = w / 2
    ns = s["n_stokes"]
    def K(mr, mi, m, beam):
        out = np.zeros((len(mr), len(mi), ns, ns))
        f = rho(s, np.asarray(mi)[None, :, None], np.asarray(mr)[:, None, None], ph[None, None, :])
        if not np.isscalar(f): out[..., 0, 0] = (f * w * np.cos(m * ph)).sum(-1) * (1. if m == 0 else 2.)
        if m == 0:
            for n, k in zip(s["kernels"], s["kernel"]):
                if n == "direct_and_diffuse":
                    p = k["params"]
                    out[:nq, :, 0, 0] += k["ampfac"] * (p[1] if beam else p[3]); out[nq:, :, 0, 0] += k["ampfac"] * (p[0] if beam else p[2])
        return out
    return K
