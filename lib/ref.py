"""Independent reference implementations (plain floats / numpy), written from the mathematics.

Nothing in this module imports the package under test.
"""

from __future__ import annotations
import math
import numpy as np

# ---------------------------------------------------------------- model constants (README, paper)
ENTROPY = 10.0
TRANSFER = 0.5
SHEAR = 0.5
AUSTENITE_RATE = 5.0
HYPER_POWER = 3


# ---------------------------------------------------------------- constitutive laws
def det2(F):
    return F[0][0] * F[1][1] - F[0][1] * F[1][0]


def inv_t(F):
    J = det2(F)
    return np.array([[F[1][1], -F[1][0]], [-F[0][1], F[0][0]]]) / J


def w_aust(F):
    F = np.asarray(F, float)
    J = det2(F)
    return float((F * F).sum() - 2.0 - 2.0 * math.log(J) + (J - 1.0) ** 2)


def w_mart(F):
    F = np.asarray(F, float)
    J = det2(F)
    i1 = (F * F).sum()
    return float((i1 / J - 2.0 - SHEAR**2) ** 2 + (J * J + 1.0 / (J * J) - 2.0) ** 2)


def wells_magnitude(F):
    """Size of the terms that cancel in the two energies near their wells."""
    F = np.asarray(F, float)
    J = det2(F)
    i1 = (F * F).sum()
    return float(i1 + 3.0 + J * J + (i1 / J + 2.25) ** 2 + (J * J + 1.0 / (J * J) + 2.0) ** 2)


def dw_aust(F):
    F = np.asarray(F, float)
    J = det2(F)
    return 2.0 * F - 2.0 * inv_t(F) + 2.0 * (J - 1.0) * J * inv_t(F)


def dw_mart(F):
    F = np.asarray(F, float)
    J = det2(F)
    it = inv_t(F)
    i1 = (F * F).sum()
    first = 2.0 * (i1 / J - 2.0 - SHEAR**2) * (2.0 * F / J - i1 / J * it)
    second = 2.0 * (J * J + 1.0 / (J * J) - 2.0) * (2.0 * J * J - 2.0 / (J * J)) * it
    return first + second


def austenite(theta):
    return -math.expm1(-AUSTENITE_RATE * theta)


def energy_weight(theta):
    """a(t) - t a'(t)."""
    e = math.exp(-AUSTENITE_RATE * theta)
    return 1.0 - e - AUSTENITE_RATE * theta * e


def energy_weight_antiderivative(theta):
    k = AUSTENITE_RATE
    e = math.exp(-k * theta)
    return theta * (1.0 + e) - 2.0 * (1.0 - e) / k


def w_total(F, theta):
    a = austenite(theta)
    return a * w_aust(F) + (1.0 - a) * w_mart(F)


def sym_rate(Fp, F):
    Fp = np.asarray(Fp, float)
    d = np.asarray(F, float) - Fp
    return d.T @ Fp + Fp.T @ d


def dissipation(Fp, F):
    c = sym_rate(Fp, F)
    return 0.5 * float((c * c).sum())


def conductivity(F):
    F = np.asarray(F, float)
    it = inv_t(F)
    return det2(F) * it.T @ it


# ---------------------------------------------------------------- quadrature
_s15 = math.sqrt(15.0)
_a1 = (6.0 - _s15) / 21.0
_a2 = (6.0 + _s15) / 21.0
_w1 = (155.0 - _s15) / 1200.0
_w2 = (155.0 + _s15) / 1200.0
# weights add up to one, points are barycentric (l1, l2, l3)
MID3 = [
    (1 / 3, (2 / 3, 1 / 6, 1 / 6)),
    (1 / 3, (1 / 6, 2 / 3, 1 / 6)),
    (1 / 3, (1 / 6, 1 / 6, 2 / 3)),
]
RADON7 = [(9 / 40, (1 / 3, 1 / 3, 1 / 3))]
for _a, _w in ((_a1, _w1), (_a2, _w2)):
    for _k in range(3):
        _l = [_a, _a, _a]
        _l[_k] = 1.0 - 2.0 * _a
        RADON7.append((_w, tuple(_l)))


def duffy(n=8):
    """High order rule on the reference triangle (weights add up to one)."""
    x, w = np.polynomial.legendre.leggauss(n)
    x = (x + 1) / 2
    w = w / 2
    out = []
    for xi, wi in zip(x, w):
        for yj, wj in zip(x, w):
            # (u, v) = (xi, yj (1 - xi)), jacobian (1 - xi); area 1/2
            out.append((2.0 * wi * wj * (1.0 - xi), (1.0 - xi - yj * (1 - xi), xi, yj * (1 - xi))))
    return out


# ---------------------------------------------------------------- meshes
def area(p, q, r):
    return 0.5 * ((q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1]))


def p1_gradient_matrix(p, q, r):
    """2x3 matrix mapping nodal values to the gradient of the affine interpolation."""
    A = np.array([[1.0, p[0], p[1]], [1.0, q[0], q[1]], [1.0, r[0], r[1]]])
    # local coordinates for conditioning
    o = np.array([p[0], p[1]])
    B = np.array([[q[0] - o[0], q[1] - o[1]], [r[0] - o[0], r[1] - o[1]]])
    D = np.array([[-1.0, 1.0, 0.0], [-1.0, 0.0, 1.0]])
    return np.linalg.solve(B, D)


# ---------------------------------------------------------------- discrete energies, P1
class Total:
    """A sum that also keeps the magnitude of what was added, to scale comparison tolerances."""

    def __init__(self):
        self.value = 0.0
        self.scale = 0.0
        self.magnitude = 0.0  # of the terms that cancel within a density

    def add(self, x):
        self.value += x
        self.scale += abs(x)

    def wells(self, weight, F):
        self.magnitude += weight * wells_magnitude(F)

    def tolerance(self, rel=1e-9, rounding=1e-12):
        return rel * self.scale + rounding * self.magnitude + 1e-300


def p1_strain(points, tri, y):
    G = p1_gradient_matrix(*[points[i] for i in tri])  # 2x3
    Y = np.array([y[i] for i in tri])  # 3x2
    return (G @ Y).T  # F[c][d] = d y_c / d x_d


def mech_p1(points, triangles, neumann_edges, y_prev, y, theta, fps, traction):
    """Elastic energy at the previous temperature + fps * dissipation - work of the traction.

    traction maps a vertex to its nodal traction vector.
    """
    t = Total()
    for tri in triangles:
        A = abs(area(*[points[i] for i in tri]))
        F = p1_strain(points, tri, y)
        Fp = p1_strain(points, tri, y_prev)
        wa, wm = w_aust(F), w_mart(F)
        t.wells(A, F)
        for w, l in MID3:
            th = sum(li * theta[i] for li, i in zip(l, tri))
            a = austenite(th)
            t.add(A * w * a * wa)
            t.add(A * w * (1 - a) * wm)
        t.add(fps * A * dissipation(Fp, F))
    for i, j in neumann_edges:
        length = math.hypot(points[i][0] - points[j][0], points[i][1] - points[j][1])
        gi, gj = traction(i), traction(j)
        for c in range(2):
            t.add(-length * 0.5 * (gi[c] + gj[c]) * 0.5 * (y[i][c] + y[j][c]))
    return t


def thermal_density(t, weight, Fp, F, thp, th, grad, fps):
    """Adds the thermal energy density at one quadrature point."""
    grad = np.asarray(grad)
    t.add(weight * float(grad @ conductivity(Fp) @ grad))
    t.add(-weight * 2.0 * dissipation(Fp, F) * fps**2 * th)
    cpl = austenite(thp) * (dw_aust(Fp) - dw_mart(Fp))
    rate = (np.asarray(F) - np.asarray(Fp)) * fps
    t.scale += weight * abs(austenite(thp) * th) * float(
        ((np.abs(dw_aust(Fp)) + np.abs(dw_mart(Fp))) * np.abs(rate)).sum()
    )
    t.add(-weight * float((cpl * rate).sum()) * th)
    t.add(weight * fps * ENTROPY / 2.0 * (th - thp) ** 2)
    t.scale += weight * fps * ENTROPY / 2.0 * (th**2 + thp**2) * 1e-3
    ga = energy_weight_antiderivative(th)
    t.wells(weight * fps * abs(ga), F)
    t.wells(weight * fps * abs(energy_weight(thp) * th), Fp)
    t.add(weight * fps * ga * w_aust(F))
    t.add(-weight * fps * ga * w_mart(F))
    t.scale += weight * fps * th * (abs(w_aust(F)) + abs(w_mart(F)))
    gp = energy_weight(thp)
    t.add(-weight * fps * gp * w_aust(Fp) * th)
    t.add(weight * fps * gp * w_mart(Fp) * th)


def thermal_p1(points, triangles, boundary_edges, y_prev, y, th_prev, th, fps, external):
    t = Total()
    for tri in triangles:
        P = [points[i] for i in tri]
        A = abs(area(*P))
        F = p1_strain(points, tri, y)
        Fp = p1_strain(points, tri, y_prev)
        grad = p1_gradient_matrix(*P) @ np.array([th[i] for i in tri])
        for w, l in MID3:
            a = sum(li * th_prev[i] for li, i in zip(l, tri))
            b = sum(li * th[i] for li, i in zip(l, tri))
            thermal_density(t, A * w, Fp, F, a, b, grad, fps)
    for i, j in boundary_edges:
        length = math.hypot(points[i][0] - points[j][0], points[i][1] - points[j][1])
        t.add(length * TRANSFER / 2.0 * (0.5 * (th[i] + th[j]) - external) ** 2)
    return t


# ---------------------------------------------------------------- Bell's triangle
_EXP = [(i, j) for d in range(6) for i in range(d, -1, -1) for j in [d - i]]  # 21 monomials


def _mono(x, y, dx=0, dy=0):
    """Row of values of d^dx d^dy of the 21 monomials of degree <= 5."""
    row = np.zeros(len(_EXP))
    for n, (i, j) in enumerate(_EXP):
        if i < dx or j < dy:
            continue
        c = math.factorial(i) // math.factorial(i - dx) * (math.factorial(j) // math.factorial(j - dy))
        row[n] = c * x ** (i - dx) * y ** (j - dy)
    return row


class Bell:
    """The quintic with cubic normal derivatives on the edges, determined by its nodal 2-jets.

    Coefficients are found by solving the 21 defining linear conditions in scaled local coordinates.
    """

    def __init__(self, vertices):
        V = np.array([[float(p[0]), float(p[1])] for p in vertices])
        self.o = V.mean(axis=0)
        self.h = max(np.linalg.norm(V[i] - V[(i + 1) % 3]) for i in range(3))
        L = (V - self.o) / self.h
        rows = []
        for v in L:
            for d in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)):
                rows.append(_mono(v[0], v[1], *d))
        for k in range(3):
            p, q = L[k], L[(k + 1) % 3]
            e = (q - p) / np.linalg.norm(q - p)
            n = np.array([-e[1], e[0]])
            # the quartic part of the normal derivative along the edge vanishes:
            # its fourth finite difference over five points is zero
            row = np.zeros(len(_EXP))
            for s, c in zip(np.linspace(0, 1, 5), (1, -4, 6, -4, 1)):
                x = p + s * (q - p)
                row += c * (n[0] * _mono(x[0], x[1], 1, 0) + n[1] * _mono(x[0], x[1], 0, 1))
            rows.append(row)
        M = np.array(rows)
        rhs = np.zeros((21, 18))
        scale = [1.0, self.h, self.h, self.h**2, self.h**2, self.h**2]
        for i in range(18):
            rhs[i, i] = scale[i % 6]
        self.cond = np.linalg.cond(M)
        self.C = np.linalg.solve(M, rhs)  # 21 x 18
        self._cache = {}

    def rows(self, x, y):
        """Rows mapping the 18 parameters to u, u_x, u_y, u_xx, u_xy, u_yy at the point."""
        X = (np.array([x, y]) - self.o) / self.h
        out = []
        for d in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)):
            out.append(_mono(X[0], X[1], *d) @ self.C / self.h ** (d[0] + d[1]))
        return np.array(out)

    def jet(self, params, x, y):
        return self.rows(x, y) @ np.asarray(params, float)


# ---------------------------------------------------------------- discrete energies, regularized
class C1Field:
    """Strains and second gradients of a C1 deformation at the quadrature points of a fine mesh."""

    def __init__(self, points, triangles, fine_points, fine_triangles, rule):
        self.rows = []  # (weight * area, fine tri, barycentric, coarse tri, 6x18)
        bells = [(t, Bell([points[i] for i in t])) for t in triangles]
        for ft in fine_triangles:
            P = [fine_points[i] for i in ft]
            A = abs(area(*P))
            c = np.mean(np.array([[p[0], p[1]] for p in P]), axis=0)
            home = None
            for t, b in bells:
                if _inside([points[i] for i in t], c):
                    home = (t, b)
                    break
            if home is None:
                raise ValueError("fine triangle outside the coarse mesh")
            for w, l in rule:
                x = sum(li * p[0] for li, p in zip(l, P))
                y = sum(li * p[1] for li, p in zip(l, P))
                self.rows.append((w * A, ft, l, home[0], home[1].rows(x, y)))

    def evaluate(self, y):
        """y has shape (N, 2, 6); yields (weight, fine tri, barycentric, F, second gradient)."""
        out = []
        for w, ft, l, ct, R in self.rows:
            j = [R @ np.concatenate([y[i][c] for i in ct]) for c in range(2)]
            F = np.array([[j[0][1], j[0][2]], [j[1][1], j[1][2]]])
            G = np.array([[[a[3], a[4]], [a[4], a[5]]] for a in j])
            out.append((w, ft, l, F, G))
        return out


def _inside(tri, p):
    A = area(*tri)
    for k in range(3):
        q = list(tri)
        q[k] = p
        if area(*q) / A < 1e-9:
            return False
    return True


def mech_c1(field, y_prev, y, theta, fps, regularization):
    t = Total()
    for (w, ft, l, F, G), (_, _, _, Fp, _) in zip(field.evaluate(y), field.evaluate(y_prev)):
        th = sum(li * theta[i] for li, i in zip(l, ft))
        a = austenite(th)
        t.wells(w, F)
        t.add(w * a * w_aust(F))
        t.add(w * (1 - a) * w_mart(F))
        t.add(w * fps * dissipation(Fp, F))
        t.add(w * regularization * math.sqrt(float((G * G).sum())) ** HYPER_POWER)
    return t


def thermal_c1(field, fine_points, y_prev, y, th_prev, th, fps):
    t = Total()
    for (w, ft, l, F, _), (_, _, _, Fp, _) in zip(field.evaluate(y), field.evaluate(y_prev)):
        a = sum(li * th_prev[i] for li, i in zip(l, ft))
        b = sum(li * th[i] for li, i in zip(l, ft))
        grad = p1_gradient_matrix(*[fine_points[i] for i in ft]) @ np.array([th[i] for i in ft])
        thermal_density(t, w, Fp, F, a, b, grad, fps)
    return t


# ---------------------------------------------------------------- rectangular meshes
def lattice(nx, ny, h):
    """Points of the (nx+1) x (ny+1) lattice."""
    return [(i * h, j * h) for j in range(ny + 1) for i in range(nx + 1)]
