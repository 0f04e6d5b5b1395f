"""C12: pseudospectral terms are the exact Galerkin terms of their equations.

States are trigonometric polynomials.  Every quadratic (cubic) term is decided
by enumerating all pairs (triples) of basis modes and comparing with exact
convolution sums of integer wavenumbers; linear terms and solves by all
impulses; conservation laws by all triples.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import forcings
from jax_cfd.base import grids
from jax_cfd.spectral import equations
from jax_cfd.spectral import forcings as sforcings
from jax_cfd.spectral import time_stepping as ts
from jax_cfd.spectral import utils

PROPERTY = 'C12'
RULE = ('all impulses for linear terms; all pairs of real basis modes for quadratic terms and all triples for cubic ones, '
        'on every listed grid, against exact sums over integer wavenumbers')
BOUNDS = 'up to 16 points per axis in 1-D, 8x12 (quick) and 16x8 (thorough) in 2-D'
ASSUMPTIONS = ['an even number of points per axis (a multiple of four for the 3/2 rule); other sizes are refused or documented as unsupported',
               'states without a Nyquist component where a term is nonlinear']
TOL = dict(rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- 1-D helpers
def real_basis_1d(n, kmax):
  """(integer wavenumber -> coefficient) vectors of 1, cos kx, sin kx."""
  out = []
  for k in range(kmax + 1):
    for part in ((1.,) if k == 0 else (.5, .5j)):
      c = np.zeros(2 * kmax + 1, complex)
      c[kmax + k] += part
      if k:
        c[kmax - k] += np.conj(part)
      out.append(c)
  return out


def conv(a, b):
  return np.convolve(a, b)


def to_rfft(c, n):
  """rfft array (numpy normalisation) of centred coefficients, |k| < n/2."""
  kmax = (len(c) - 1) // 2
  out = np.zeros(n // 2 + 1, complex)
  for k in range(0, min(kmax, n // 2) + 1):
    out[k] = c[kmax + k] * n
  return out


def combos(n, degree):
  """Coefficient vectors deciding every form of the given degree."""
  words = set()
  for idx in itertools.combinations_with_replacement(range(n), degree):
    w = np.zeros(n)
    for i in set(idx):
      w[i] = 1.
    words.add(tuple(w))
    if degree == 3 and len(set(idx)) == 2:
      w = w.copy()
      w[idx[1]] = 2.
      words.add(tuple(w))
      w[idx[1]] = -1.
      words.add(tuple(w))
  return [np.array(w) for w in sorted(words)]


def check_implicit(rec, eq, shape, key, wrap=None):
  """implicit_solve inverts (1 - dt * implicit_terms), mode by mode."""
  size = int(np.prod(shape))
  imp = jnp.asarray((np.eye(size) * (1 - .5j)).reshape((size,) + shape))
  w = wrap or (lambda x: x)
  un = (lambda s: s[0]) if wrap else (lambda s: s)
  for dt in (0., 1e-3, .1, 2., -.01):
    f = jax.jit(jax.vmap(lambda x: un(eq.implicit_solve(w(x), dt)) - dt * un(eq.implicit_terms(w(un(eq.implicit_solve(w(x), dt)))))))
    rec.state(key, 'implicit', dt)
    rec.step(size)
    if rec.close(f(imp), imp, f'{key} implicit_solve dt={dt}', 'x - dt L x', rtol=1e-7, atol=1e-9):
      rec.trace(size)


def unit_1d(rec, eqname, n, length, smooth):
  grid = grids.Grid((n,), domain=((.5, .5 + length),))
  w = 2 * np.pi / length
  key = f'{eqname} n={n} L={length:.3g} smooth={smooth}'
  ks = np.arange(n // 2 + 1)
  wrap = None
  if eqname == 'ks':
    eq = equations.KuramotoSivashinsky(grid, smooth=smooth)
    lin = (w * ks) ** 2 - (w * ks) ** 4
  else:
    nu = .3
    eq = equations.BurgersEquation(nu, grid)
    lin = -nu * (w * ks) ** 2
    wrap = lambda x: (x, .25)
  un = (lambda s: s[0]) if wrap else (lambda s: s)
  wr = wrap or (lambda x: x)
  eye = jnp.asarray(np.eye(len(ks)) * (1 + 2j))
  rec.state(key, 'linear')
  rec.step(len(ks))
  if rec.close(jax.vmap(lambda x: un(eq.implicit_terms(wr(x))))(eye), np.diag(lin) * (1 + 2j), f'{key} linear', 'implicit terms', **TOL):
    rec.trace(len(ks))
  check_implicit(rec, eq, (len(ks),), key, wrap)
  # nonlinear: without the 3/2 rule, only fields whose products do not alias.
  kmax = n // 2 - 1 if smooth else (n // 2 - 1) // 2
  basis = real_basis_1d(n, kmax)
  kk = np.arange(-2 * kmax, 2 * kmax + 1)
  coeffs = combos(len(basis), 2)
  xs, want = [], []
  for c in coeffs:
    u = sum(a * b for a, b in zip(c, basis))
    xs.append(to_rfft(u, n))
    if eqname == 'ks':
      full = -.5 * 1j * w * kk * conv(u, u)
    else:
      full = -conv(u, 1j * w * np.arange(-kmax, kmax + 1) * u)
    want.append(to_rfft(full, n))
  got = np.asarray(jax.jit(jax.vmap(lambda x: un(eq.explicit_terms(wr(x)))))(jnp.asarray(xs)))
  rec.step(len(xs))
  for c, g, e in zip(coeffs, got, want):
    rec.state(key, tuple(c))
    # the Nyquist mode of the product carries no phase; compare below it
    if rec.close(g[:-1], e[:-1], f'{key} explicit', f'modes {np.flatnonzero(c).tolist()}', rtol=1e-9, atol=1e-8):
      rec.trace()
    rec.outcome(g)
  # momentum and energy, for each triple of modes: u u_x does no work on u.
  for c in combos(len(basis), 3):
    u = sum(a * b for a, b in zip(c, basis))
    x = to_rfft(u, n)
    xs.append(x)
  x3 = jnp.asarray(xs[len(coeffs):])
  n3 = np.asarray(jax.jit(jax.vmap(lambda x: un(eq.explicit_terms(wr(x)))))(x3))
  rec.step(len(x3))
  work = np.real(np.sum((np.asarray(x3).conj() * n3)[:, 1:-1], 1)) * 2 + np.real(np.asarray(x3)[:, 0] * n3[:, 0])
  rec.close(n3[:, 0], 0 * n3[:, 0], f'{key} momentum', 'mean of the nonlinear term', atol=1e-8)
  if rec.close(work, 0 * work, f'{key} energy', 'work of the nonlinear term', atol=1e-6):
    rec.trace(len(x3))
  if wrap:
    out = eq.explicit_terms((x3[0], .3)), eq.implicit_terms((x3[0], .3)), eq.implicit_solve((x3[0], .3), .1)
    rec.expect(float(out[0][1]) == 1. and float(out[1][1]) == 0. and abs(float(out[2][1]) - .3) < 1e-12, f'{key} time',
               'the clock advances by one per unit time')
  rec.sample(dict(equation=eqname, n=n))


def unit_nls(rec, n, length, smooth):
  grid = grids.Grid((n,), domain=((-1., -1. + length),))
  eq = equations.NonlinearSchrodinger(grid, smooth=smooth)
  w = 2 * np.pi / length
  key = f'nls n={n} L={length:.3g} smooth={smooth}'
  ks = np.fft.fftfreq(n, 1 / n)
  eye = jnp.asarray(np.eye(n) * (1 + 2j))
  # psi_t = -i psi_xx / 8
  if rec.close(jax.vmap(eq.implicit_terms)(eye), np.diag(1j * (w * ks) ** 2 / 8) * (1 + 2j), f'{key} linear', 'implicit terms', **TOL):
    rec.trace(n)
  rec.step(n)
  check_implicit(rec, eq, (n,), key)
  modes = list(range(-(n // 2), n // 2)) if smooth else list(range(-((n // 2 - 1) // 3), (n // 2 - 1) // 3 + 1))
  lo = -n // 2
  coeffs, xs, want = [], [], []
  for idx in itertools.combinations_with_replacement(modes, 3):
    for ph in ((1, 1, 1), (1, 1j, 1), (1, 1, 1j), (1, -1, 2j)):
      coeffs.append((idx, ph))
      c = np.zeros(n, complex)
      for k, p in zip(idx, ph):
        c[k - lo] += p
      x = np.zeros(n, complex)
      for i, v in enumerate(c):
        x[(i + lo) % n] = v * n
      xs.append(x)
      # |psi|^2 psi: modes a + b - c
      cube = np.convolve(np.convolve(c, c), c[::-1].conj())
      base = lo + lo - (lo + n - 1)
      e = np.zeros(n, complex)
      for k in range(lo, lo + n):
        e[k % n] = -.5j * cube[k - base] * n
      want.append(e)
  got = np.asarray(jax.jit(jax.vmap(eq.explicit_terms))(jnp.asarray(xs)))
  rec.step(len(xs))
  for c, g, e, x in zip(coeffs, got, want, xs):
    rec.state(key, c)
    ok = rec.close(g, e, f'{key} explicit', f'modes {c}', rtol=1e-9, atol=1e-7)
    ok &= rec.expect(abs(np.real(np.vdot(x, g))) <= 1e-6 * (1 + abs(np.vdot(x, x))), f'{key} mass', f'the cubic term changes the mass, modes {c}')
    rec.trace(ok)
    rec.outcome(g)


def unit_transforms(rec, n):
  """The padded and truncated transforms themselves, on all impulses."""
  key = f'transforms n={n}'
  kmax = n // 2 - 1
  xs_fine = np.arange(3 * n // 2) / (3 * n // 2) * 2 * np.pi
  for i, c in enumerate(real_basis_1d(n, kmax)):
    rec.state(key, 'rfft', i)
    rec.step(2)
    k = np.arange(-kmax, kmax + 1)
    want = np.real(np.exp(1j * np.outer(xs_fine, k)) @ c)
    up = utils.padded_irfft(jnp.asarray(to_rfft(c, n)))
    ok = rec.close(up, want, key, f'padded_irfft of mode {i}')
    ok &= rec.close(utils.truncated_rfft(up), to_rfft(c, n), key, f'truncated_rfft of mode {i}')
    rec.trace(ok)
    rec.outcome(up)
  x2 = np.arange(2 * n) / (2 * n) * 2 * np.pi
  for k in range(-n // 2, n // 2):
    rec.state(key, 'fft', k)
    rec.step(2)
    x = np.zeros(n, complex)
    x[k % n] = n * (1 + 2j)
    up = utils.padded_ifft_2x(jnp.asarray(x))
    ok = rec.close(up, (1 + 2j) * np.exp(1j * k * x2), key, f'padded_ifft_2x of mode {k}')
    ok &= rec.close(utils.truncated_fft_2x(up), x, key, f'truncated_fft_2x of mode {k}')
    # higher modes are discarded
    hi = (1 - 1j) * np.exp(1j * (k + n if k < 0 else k - n) * x2)
    ok &= rec.close(utils.truncated_fft_2x(jnp.asarray(hi)), 0 * x, key, f'truncated_fft_2x of the discarded mode {k}')
    rec.trace(ok)
  # modes above the cut are discarded by the 2/3 rule
  for k in range(n // 2 + 1, 3 * n // 4):
    rec.state(key, 'cut', k)
    hi = np.cos(k * xs_fine) + np.sin(k * xs_fine)
    rec.close(utils.truncated_rfft(jnp.asarray(hi)), np.zeros(n // 2 + 1), key, f'truncated_rfft of the discarded mode {k}')


# ---------------------------------------------------------------- 2-D helpers
def basis_2d(kx, ky):
  """Centred coefficient arrays of all real modes with |k| <= (kx, ky)."""
  out = []
  for a in range(-kx, kx + 1):
    for b in range(ky + 1):
      if b == 0 and a < 0:
        continue
      for part in ((1.,) if (a, b) == (0, 0) else (.5, .5j)):
        c = np.zeros((2 * kx + 1, 2 * ky + 1), complex)
        c[kx + a, ky + b] += part
        if (a, b) != (0, 0):
          c[kx - a, ky - b] += np.conj(part)
        out.append(c)
  return out


def to_rfft2(c, shape):
  n, m = shape
  kx, ky = (c.shape[0] - 1) // 2, (c.shape[1] - 1) // 2
  out = np.zeros((n, m // 2 + 1), complex)
  for a in range(-kx, kx + 1):
    for b in range(ky + 1):
      out[a % n, b] += c[kx + a, ky + b] * n * m
  return out


def conv2(a, b):
  s = (a.shape[0] + b.shape[0] - 1, a.shape[1] + b.shape[1] - 1)
  return np.fft.ifft2(np.fft.fft2(a, s=s) * np.fft.fft2(b, s=s))


def galerkin(c, w, bx, by):
  """Coefficients of -(v . grad) omega, truncated to |k| <= (bx, by)."""
  kx, ky = (c.shape[0] - 1) // 2, (c.shape[1] - 1) // 2
  a = w[0] * np.arange(-kx, kx + 1)[:, None] + 0 * c.real
  b = w[1] * np.arange(-ky, ky + 1)[None] + 0 * c.real
  k2 = a ** 2 + b ** 2
  k2[kx, ky] = 1
  psi = c / k2
  psi[kx, ky] = 0
  u, v = 1j * b * psi, -1j * a * psi
  full = -(conv2(u, 1j * a * c) + conv2(v, 1j * b * c))
  fx, fy = (full.shape[0] - 1) // 2, (full.shape[1] - 1) // 2
  bx, by = min(bx, fx), min(by, fy)
  return full[fx - bx:fx + bx + 1, fy - by:fy + by + 1]


DOM = {'square': ((0., 2 * np.pi), (0., 2 * np.pi)), 'box': ((-1., 2.), (.5, 1.7))}


def unit_ns(rec, shape, dom, smooth, part=0, parts=1):
  domain = DOM[dom]
  grid = grids.Grid(shape, domain=domain)
  w = [2 * np.pi / (b - a) for a, b in domain]
  nu, drag = .2, .3
  eq = equations.NavierStokes2D(nu, grid, drag=drag, smooth=smooth)
  key = f'ns {shape} {dom} smooth={smooth}'
  n, m = shape
  kx = w[0] * np.fft.fftfreq(n, 1 / n)[:, None]
  ky = w[1] * np.arange(m // 2 + 1)[None]
  lin = -nu * (kx ** 2 + ky ** 2) - drag
  size = n * (m // 2 + 1)
  if part == 0:
    eye = jnp.asarray(np.eye(size).reshape((size, n, m // 2 + 1)) * (1 - 1j))
    if rec.close(jax.vmap(eq.implicit_terms)(eye), np.asarray(eye) * lin, f'{key} linear', 'viscosity and drag', **TOL):
      rec.trace(size)
    rec.step(size)
    check_implicit(rec, eq, (n, m // 2 + 1), key)
    # velocity of a vorticity: solenoidal, no mean flow, and its curl is the vorticity.
    solve = utils.vorticity_to_velocity(grid)
    u, v = jax.vmap(solve)(eye)
    mesh = grid.rfft_mesh()
    rec.close(np.broadcast_to(kx, (n, m // 2 + 1)), 2 * np.pi * np.asarray(mesh[0]), f'{key} mesh', 'wavenumbers x', **TOL)
    rec.close(np.broadcast_to(ky, (n, m // 2 + 1)), 2 * np.pi * np.asarray(mesh[1]), f'{key} mesh', 'wavenumbers y', **TOL)
    div = 1j * kx * np.asarray(u) + 1j * ky * np.asarray(v)
    curl = np.array(utils.spectral_curl_2d(mesh, (u, v)))
    want = np.array(eye)
    want[0, 0, 0] = 0
    rec.state(key, 'velocity')
    rec.step(size)
    ok = rec.close(div, 0 * div, f'{key} velocity', 'divergence') & rec.close(curl, want, f'{key} velocity', 'curl of the velocity', **TOL)
    ok &= rec.close(np.asarray(u)[:, 0, 0], np.zeros(size), f'{key} velocity', 'mean flow')
    ok &= rec.close(1j * kx * np.asarray(eye) - 1j * ky * (2 * np.asarray(eye)), utils.spectral_curl_2d(mesh, (2 * eye, eye)), f'{key} curl', 'spectral_curl_2d', **TOL)
    rec.trace(ok)
    mask = np.asarray(utils.brick_wall_filter_2d(grid))
    ints = np.abs(np.fft.fftfreq(n, 1 / n))[:, None] + 0 * ky, np.arange(m // 2 + 1)[None] + 0 * kx
    want = ((3 * ints[0] < n) & (3 * ints[1] < m)).astype(float)
    rec.state(key, 'filter')
    rec.close(mask, want, f'{key} filter', 'two thirds rule')
  # Galerkin term: |k| < n/3 with the 2/3 rule, |k| <= n/4 - 1/2 without it
  bx, by = ((n - 1) // 3, (m - 1) // 3) if smooth else ((n // 2 - 1) // 2, (m // 2 - 1) // 2)
  basis = basis_2d(bx, by)
  flat = np.array([to_rfft2(b, shape) for b in basis])
  f = jax.jit(jax.vmap(eq.explicit_terms))
  coeffs = combos(len(basis), 2)[part::parts]
  xs = np.array([np.tensordot(c, flat, 1) for c in coeffs])
  got = np.asarray(f(jnp.asarray(xs)))
  rec.step(len(xs))
  keep = (bx, by) if smooth else (2 * bx, 2 * by)
  for c, g in zip(coeffs, got):
    e = to_rfft2(galerkin(np.tensordot(c, np.array(basis), 1), w, *keep), shape)
    rec.state(key, tuple(c))
    if rec.close(g, e, f'{key} explicit', f'modes {np.flatnonzero(c).tolist()}', rtol=1e-9, atol=1e-8):
      rec.trace()
    rec.outcome(g)
  # energy and enstrophy: every triple of modes (of a smaller band when large)
  small = [i for i, b in enumerate(basis) if np.abs(b).sum() > 0][:13 if parts > 1 or len(basis) > 30 else len(basis)]
  tri = combos(len(small), 3)[part::parts]
  xs = np.array([np.tensordot(c, flat[small], 1) for c in tri])
  g = np.asarray(f(jnp.asarray(xs)))
  rec.step(len(xs))
  weight = np.full((n, m // 2 + 1), 2.)
  weight[:, 0] = 1
  k2 = kx ** 2 + ky ** 2
  k2 = np.where(k2 == 0, 1, k2)
  ens = np.sum(weight * np.real(xs.conj() * g), (1, 2)) / (n * m) ** 2
  ene = np.sum(weight * np.real(xs.conj() * g) / k2, (1, 2)) / (n * m) ** 2
  ok = rec.close(ens, 0 * ens, f'{key} enstrophy', 'production by advection', atol=1e-8)
  ok &= rec.close(ene, 0 * ene, f'{key} energy', 'production by advection', atol=1e-8)
  rec.trace(len(xs) if ok else 0)
  rec.sample(dict(shape=shape, modes=len(basis)))


def unit_symmetry(rec, shape):
  """The terms commute with shifts, reflections and (squares) rotations.

  All sums of two impulses of real vorticity, also beyond the retained band.
  """
  n, m = shape
  grid = grids.Grid(shape, domain=((0., 2 * np.pi * n / 8), (0., 2 * np.pi * m / 8)))
  moves = {
      'shift x': lambda a: np.roll(a, 1, 0), 'shift y': lambda a: np.roll(a, 1, 1),
      'mirror x': lambda a: -np.roll(a[::-1], 1, 0), 'mirror y': lambda a: -np.roll(a[:, ::-1], 1, 1),
  }
  if n == m:
    moves['rotate'] = lambda a: np.roll(np.rot90(a), 1, 0)
  nyq = lambda a: np.fft.irfft2(np.fft.rfft2(a) * no_nyquist(shape), s=shape)
  for smooth in (True, False):
    eq = equations.NavierStokes2D(.1, grid, smooth=smooth)
    rhs = jax.jit(jax.vmap(lambda z: jnp.fft.irfft2(eq.explicit_terms(jnp.fft.rfft2(z)), s=shape)))
    rhs_hat = jax.jit(jax.vmap(lambda z: eq.explicit_terms(jnp.fft.rfft2(z))))
    fields = []
    for i, j in itertools.product(range(n), range(m)):
      if (i, j) == (0, 0):
        continue
      a = np.zeros(shape)
      a[0, 0] = 1
      a[i, j] = -.5
      a[(i + 1) % n, j] += 1
      fields.append(nyq(a))
    base = np.asarray(rhs(jnp.asarray(fields)))
    hat = np.asarray(rhs_hat(jnp.asarray(fields)))
    rec.step(len(fields))
    # the term is the transform of a real field (conjugate modes are kept together)
    if smooth:
      rec.close(np.fft.rfft2(np.fft.irfft2(hat, s=shape)), hat, f'symmetry {shape} real', 'the term is a real field', atol=1e-8)
    for name, mv in moves.items():
      moved = np.asarray(rhs(jnp.asarray([mv(a) for a in fields])))
      rec.step(len(fields))
      for q, (a, b) in enumerate(zip(moved, base)):
        rec.state(shape, smooth, name, q)
        e = mv(b)
        if not smooth:
          a, e = nyq(a), nyq(e)
        if rec.close(a, e, f'symmetry {shape} smooth={smooth} {name}', f'field {q}', rtol=1e-9, atol=1e-8):
          rec.trace()
        rec.outcome(a)


def no_nyquist(shape):
  n, m = shape
  k = np.ones((n, m // 2 + 1))
  k[n // 2] = 0
  k[:, -1] = 0
  return k


def unit_steps(rec):
  """Complete steps: exact decay on single shells, forcing, drag, filters."""
  shape = (8, 8)
  grid = grids.Grid(shape, domain=DOM['square'])
  n = 8
  steppers = {'backward_forward_euler': lambda z: 1 / (1 - z), 'crank_nicolson_rk2': lambda z: (1 + z / 2) / (1 - z / 2),
              'crank_nicolson_rk4': None, 'imex_rk_sil3': None}
  kx, ky = np.fft.fftfreq(n, 1 / n), np.arange(n // 2 + 1)
  for name, growth in steppers.items():
    for nu, drag, dt in itertools.product((.0, .1), (0., .4), (.05, .4)):
      eq = equations.NavierStokes2D(nu, grid, drag=drag)
      step = jax.jit(jax.vmap(getattr(ts, name)(eq, dt)))
      states, lam = [], []
      for a in range(-2, 3):
        for b in range(0, 3):
          if (a, b) == (0, 0) or (b == 0 and a < 0):
            continue
          for ph in (1, 1j):
            c = np.zeros((5, 5), complex)
            c[2 + a, 2 + b] += ph / 2
            c[2 - a, 2 - b] += np.conj(ph) / 2
            if a and b:  # a second mode on the same shell
              c[2 - a, 2 + b] += .3
              c[2 + a, 2 - b] += .3
            states.append(to_rfft2(c, shape))
            lam.append(-nu * (a * a + b * b) - drag)
      s = jnp.asarray(states)
      lam = np.array(lam)
      key = f'decay {name} nu={nu} drag={drag} dt={dt}'
      for it in range(3):
        s = step(s)
        rec.step(len(lam))
      # the scalar stability function of the stepper, from the scalar equation
      class Lin(ts.ImplicitExplicitODE):
        def explicit_terms(self, y):
          return 0 * y
        def implicit_terms(self, y):
          return lam * y
        def implicit_solve(self, y, k):
          return y / (1 - k * lam)
      g = np.asarray(getattr(ts, name)(Lin(), dt)(np.ones(len(lam)))) if growth is None else growth(lam * dt)
      rec.state(key)
      if rec.close(s, np.array(states) * (g ** 3)[:, None, None], key, 'eddies of one wavelength decay without interacting', rtol=1e-8, atol=1e-8):
        rec.trace(len(lam))
      rec.outcome(s)
  # forcing enters as its curl, evaluated on the velocity of the state
  rng = np.random.RandomState(0)
  for c in basis_2d(2, 2):
    x = to_rfft2(c, shape)
    seen = []
    def forcing(g):
      def fn(v):
        seen.append(v)
        return (grids.GridArray(2 * v[0].data + v[1].data ** 2, v[0].offset, g), grids.GridArray(.5 * v[1].data - v[0].data, v[1].offset, g))
      return fn
    eqf = equations.NavierStokes2D(.1, grid, forcing_fn=forcing)
    eq0 = equations.NavierStokes2D(.1, grid)
    got = np.asarray(eqf.explicit_terms(jnp.asarray(x)) - eq0.explicit_terms(jnp.asarray(x)))
    k2 = (kx[:, None] ** 2 + ky[None] ** 2)
    k2[0, 0] = 1
    psi = x / k2
    psi[0, 0] = 0
    u, v = np.fft.irfft2(1j * ky[None] * psi), np.fft.irfft2(-1j * kx[:, None] * psi)
    fu, fv = np.fft.rfft2(2 * u + v ** 2), np.fft.rfft2(.5 * v - u)
    want = 1j * kx[:, None] * fv - 1j * ky[None] * fu
    rec.state('forcing', tuple(c.ravel()))
    rec.step()
    if rec.close(got, want, 'forcing curl', 'forcing term', **TOL) & rec.close(seen[0][0].data, u, 'forcing velocity', 'u', **TOL) & rec.close(seen[0][1].data, v, 'forcing velocity', 'v', **TOL):
      rec.trace()
  g16 = grids.Grid((12, 12), domain=DOM['square'])
  for smooth in (True, False):
    eq = equations.ForcedNavierStokes2D(.01, g16, smooth)
    z = np.fft.irfft2(np.asarray(eq.explicit_terms(jnp.zeros((12, 7), complex))), s=(12, 12))
    y = np.arange(12) / 12 * 2 * np.pi
    rec.state('kolmogorov', smooth)
    rec.close(z, np.broadcast_to(-4 * np.cos(4 * y), (12, 12)), 'forced flow', 'curl of sin(4y)', **TOL)
    imp = np.asarray(eq.implicit_terms(jnp.ones((12, 7), complex)))
    k2 = np.fft.fftfreq(12, 1 / 12)[:, None] ** 2 + np.arange(7)[None] ** 2
    rec.close(imp, -.01 * k2 - .1 + 0j, 'forced flow', 'viscosity and drag', **TOL)
  # filters
  for sh, dom in (((8, 8), 'square'), ((8, 12), 'square'), ((12, 8), 'box')):
    g = grids.Grid(sh, domain=DOM[dom])
    filt = np.asarray(utils.circular_filter_2d(g))
    mx, my = [np.asarray(a) for a in g.rfft_mesh()]
    r = np.sqrt(mx ** 2 + my ** 2)
    order = np.argsort(r.ravel())
    rec.state('circular', sh, dom)
    ok = rec.expect(np.all(filt[r <= .65 * my.max()] == 1), 'circular filter', 'modes within the circle are kept')
    ok &= rec.expect(np.all((filt >= 0) & (filt <= 1)), 'circular filter', 'range')
    ok &= rec.expect(np.all(np.diff(filt.ravel()[order]) <= 1e-12), 'circular filter', 'decreasing')
    cut = r > .65 * my.max()
    ok &= rec.close(filt[cut], np.exp(-23.6 * (r[cut] - .65 * my.max()) ** 4), 'circular filter', 'roll-off', **TOL)
    filtered = utils.filter_step(lambda s: 2 * s + 1, jnp.asarray(filt))(jnp.ones(filt.shape))
    ok &= rec.close(filtered, 3 * filt, 'filter_step', 'filter applied after the step', **TOL)
    rec.trace(ok)
  for nn, alpha, order in itertools.product((4, 6, 8), (1e-6, .1), (1, 2)):
    eye = np.eye(nn * nn).reshape(-1, nn, nn)
    got = jax.vmap(lambda s: utils.exponential_filter(s, alpha, order))(jnp.asarray(eye))
    kk = np.sqrt(np.fft.fftfreq(nn)[:, None] ** 2 + np.fft.rfftfreq(nn)[None] ** 2)
    want = np.fft.irfft2(np.exp(np.log(alpha) * kk ** (2 * order)) * np.fft.rfft2(eye), s=(nn, nn))
    rec.state('exponential', nn, alpha, order)
    rec.step(nn * nn)
    if rec.close(got, want, f'exponential filter {nn} {alpha} {order}', 'filter', **TOL):
      rec.trace(nn * nn)


def unit_forced_burgers(rec):
  grid = grids.Grid((16,), domain=((0., 2 * np.pi),))
  fine = grids.Grid((32,), domain=((0., 2 * np.pi),))
  seen = {}
  for seed, t in itertools.product(range(4), (0., .3, 10.)):
    key = f'random forcing seed={seed} t={t}'
    rec.state(key)
    rec.step(3)
    f = np.asarray(sforcings.random_forcing_module(grid, seed)(t))
    again = np.asarray(sforcings.random_forcing_module(grid, seed)(t))
    ff = np.asarray(sforcings.random_forcing_module(fine, seed)(t))
    ok = rec.close(f, again, key, 'same seed and time', atol=0, rtol=0)
    ok &= rec.close(ff[::2], f, key, 'independent of the resolution', rtol=1e-5, atol=1e-5)
    hat = np.abs(np.fft.rfft(ff))
    ok &= rec.expect(np.all(hat[[0, 1, 2] + list(range(7, 17))] < 1e-4) and hat[3:7].max() > 1e-3, key, f'wavenumbers 3 to 6 only: {hat}')
    ok &= rec.expect(np.abs(ff).max() <= 10, key, 'amplitude')
    ok &= rec.expect(all(not np.allclose(f, o) for o in seen.values()), key, 'the force depends on seed and time')
    eq = equations.ForcedBurgersEquation(.1, grid, seed)
    eq0 = equations.BurgersEquation(.1, grid)
    x = jnp.asarray(np.fft.rfft(np.sin(2 * np.arange(16) / 16 * 2 * np.pi)))
    d = np.asarray(eq.explicit_terms((x, t))[0] - eq0.explicit_terms((x, t))[0])
    ok &= rec.close(d, np.fft.rfft(f), key, 'the force is added at the time of the state', rtol=1e-5, atol=1e-5)
    rec.trace(ok)
    rec.outcome(f)
    seen[(seed, t)] = f
  # custom module, with the clock carried by the stepper
  mod = lambda g, seed: (lambda t: jnp.cos(g.axes((0,))[0]) * t + seed)
  eq = equations.ForcedBurgersEquation(0., grid, 3, mod)
  for name in ('backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk4'):
    step = getattr(ts, name)(eq, .125)
    s = (jnp.zeros(9, complex), 0.)
    for i in range(1, 4):
      s = step(s)
      rec.state('clock', name, i)
      rec.step()
      rec.close(s[1], .125 * i, f'clock {name}', 'time of the state', atol=1e-12)
    rec.close(np.asarray(s[0])[0] / 16, .375 * 3, f'clock {name}', 'momentum added by a constant force', atol=1e-9)


def units(tier):
  th = tier == 'thorough'
  out = []
  for n in (4, 8, 12) + ((16,) if th else ()):
    for name, length, smooth in itertools.product(('ks', 'burgers'), (2 * np.pi, 3.), (True, False)):
      if name == 'burgers' and not smooth:
        continue
      out.append((f'{name}-{n}-{length:.2f}-{smooth}', unit_1d, dict(eqname=name, n=n, length=length, smooth=smooth)))
    out.append((f'transforms-{n}', unit_transforms, dict(n=n)))
  for n in (4, 6, 8) + ((12,) if th else ()):
    for smooth in (True, False):
      out.append((f'nls-{n}-{smooth}', unit_nls, dict(n=n, length=3. if n == 6 else 2 * np.pi, smooth=smooth)))
  for sh, dom, smooth in (((8, 8), 'square', True), ((8, 8), 'box', True), ((8, 8), 'square', False), ((12, 8), 'box', False),
                          ((8, 12), 'square', True), ((12, 8), 'square', True), ((6, 10), 'box', True)):
    parts = 3 if 12 in sh else 1
    for p in range(parts):
      out.append((f'ns-{sh}-{dom}-{smooth}-{p}', unit_ns, dict(shape=sh, dom=dom, smooth=smooth, part=p, parts=parts)))
  if th:
    for p in range(8):
      out.append((f'ns-big-{p}', unit_ns, dict(shape=(16, 8), dom='square', smooth=True, part=p, parts=8)))
      out.append((f'ns-bigger-{p}', unit_ns, dict(shape=(14, 12), dom='box', smooth=True, part=p, parts=8)))
  for sh in ((6, 6), (8, 8), (8, 12), (10, 8)) + (((16, 16),) if th else ()):
    out.append((f'symmetry-{sh}', unit_symmetry, dict(shape=sh)))
  out += [('steps', unit_steps, {}), ('burgers-forced', unit_forced_burgers, {})]
  return out
