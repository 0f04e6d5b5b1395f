"""C23: forcings and eddy-viscosity closures.

Forcings are affine in the velocity: every Fourier mode and unit velocity
decide them.  The eddy-viscosity acceleration is bilinear in the viscosity
tensor and the velocity: all pairs (unit viscosity, unit velocity) decide it.
"""
import functools
import itertools
import os

import gin
import haiku as hk
import jax
import jax.numpy as jnp
import jax_cfd.ml  # pylint: disable=unused-import
import numpy as np
from checks.C16 import run as hk_run
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import filter_utils
from jax_cfd.base import forcings
from jax_cfd.base import grids
from jax_cfd.base import subgrid_models
from jax_cfd.ml import forcings as mforcings
from jax_cfd.ml import interpolations
from jax_cfd.ml import physics_specifications
from jax_cfd.ml import viscosities
from mc import lin

PROPERTY = 'C23'
RULE = ('state = (grid, forcing or closure configuration, Fourier mode / unit velocity / unit viscosity); transition = one evaluation of the real forcing '
        'or closure; validated when every component equals the formula evaluated at its own offset with explicit loops')
BOUNDS = ('periodic grids of 3-8 cells per axis in 1-3 dimensions with unequal steps; every offset pair of a half-integer set; every Fourier mode against every band; all '
          'pairs (unit viscosity entry, unit velocity) on 4x3, 3x3x3 (sampled per component) grids')
ASSUMPTIONS = ['float64, tolerance 1e-9 (conjugate gradients run to 1e-12)', 'bands coincide with a wavenumber only for modes along an axis of a unit domain with 2^n cells (exact in floating point)',
               'closures are defined for periodic domains only (others must be refused)']
TOL = dict(rtol=1e-9, atol=1e-9)
TAU = 2 * np.pi


def centers(grid, offset):
  axes = [lo + (np.arange(n) + o) * h for n, o, h, (lo, _) in zip(grid.shape, offset, grid.step, grid.domain)]
  return np.meshgrid(*axes, indexing='ij')


def periodic(grid):
  return boundaries.periodic_boundary_conditions(grid.ndim)


def velocity(arrays, grid, offsets=None):
  offsets = offsets or grid.cell_faces
  bc = periodic(grid)
  return tuple(grids.GridVariable(grids.GridArray(jnp.asarray(a), o, grid), bc) for a, o in zip(arrays, offsets))


def check_force(rec, got, want, offsets, grid, key):
  ok = rec.expect(len(got) == len(want), key, f'number of components {len(got)} != {len(want)}')
  for i, (f, w) in enumerate(zip(got, want)):
    ok &= rec.expect(isinstance(f, grids.GridArray), key, f'component {i} is {type(f)}')
    ok &= rec.expect(tuple(f.offset) == tuple(offsets[i]), key, f'offset of component {i}: {f.offset} != {offsets[i]}')
    ok &= rec.expect(f.grid == grid, key, f'grid of component {i}')
    ok &= rec.close(np.asarray(f.data) + np.zeros(grid.shape), w, key, f'component {i}', **TOL)
  return ok


def kol_ref(grid, scale, k, swap, offsets):
  out = [np.zeros(grid.shape) for _ in range(grid.ndim)]
  comp, ax = (1, 0) if swap else (0, 1)
  out[comp] = scale * np.sin(k * centers(grid, offsets[comp])[ax])
  return out


def tg_ref(grid, scale, k):
  n, m = grid.shape[:2]
  def mesh(o):
    return np.meshgrid((np.arange(n) + o[0]) * TAU / n, (np.arange(m) + o[1]) * TAU / m, indexing='ij')
  x, y = mesh((1, .5))
  u = scale * np.cos(k * x) * np.sin(k * y)
  x, y = mesh((.5, 1))
  v = -scale * np.sin(k * x) * np.cos(k * y)
  if grid.ndim == 2:
    return [u, v]
  ones = np.ones(grid.shape)
  return [u[..., None] * ones, v[..., None] * ones, 0 * ones]


def unit_kolmogorov(rec, shape, domain):
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  cands = [grid.cell_faces, (grid.cell_center,) * nd, ((0.,) * nd,) * nd, tuple(tuple((i + j) % 2 * .5 + .25 * i for j in range(nd)) for i in range(nd))]
  vs = [lin.generic(shape, i) for i in range(nd)]
  for offs, scale, k, swap, lc in itertools.product([None] + cands, (0., 1., -2.5), (1, 2, 3), (False, True), (0., -.1, 2.)):
    key = f'kolmogorov {shape} offsets={offs} scale={scale} k={k} swap={swap} linear={lc}'
    o = offs or grid.cell_faces
    want = kol_ref(grid, scale, k, swap, o)
    v = velocity(vs, grid, o)
    if lc == 0.:
      rec.state(key)
      rec.step()
      rec.trace(check_force(rec, forcings.kolmogorov_forcing(grid, scale, k, swap, offs)(v), want, o, grid, key))
    rec.state('ml', key)
    rec.step()
    want = [w + lc * a for w, a in zip(want, vs)]
    rec.trace(check_force(rec, mforcings.kolmogorov_forcing(grid, scale, k, lc, swap, offs)(v), want, o, grid, 'ml ' + key))
  if nd == 2:
    o = ((0., 0.), (0., 0.))
    v = velocity(vs, grid, o)
    rec.trace(check_force(rec, mforcings.spectral_kolmogorov_forcing(grid)(v), kol_ref(grid, 1., 4, False, o), o, grid, f'spectral kolmogorov {shape}'))
    rec.step()


def unit_taylor_green(rec, shape, domain):
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  vs = [lin.generic(shape, i) for i in range(nd)]
  v = velocity(vs, grid)
  for scale, k, lc in itertools.product((0., 1., -1.5), (1, 2, 3), (0., -.002, 2.)):
    want = tg_ref(grid, scale, k)
    key = f'taylor-green {shape} scale={scale} k={k} linear={lc}'
    rec.state(key)
    rec.step(2)
    if lc == 0.:
      rec.trace(check_force(rec, forcings.taylor_green_forcing(grid, scale, k)(v), want, grid.cell_faces, grid, key))
    want = [w + lc * a for w, a in zip(want, vs)]
    rec.trace(check_force(rec, mforcings.taylor_green_forcing(grid, scale, k, lc)(v), want, grid.cell_faces, grid, 'ml ' + key))
  # the 1-D case is refused by both constant forcings
  g1 = grids.Grid((4,))
  rec.raises(lambda: forcings.taylor_green_forcing(g1), 'taylor-green 1d', 'one-dimensional forcing')
  rec.raises(lambda: forcings.kolmogorov_forcing(g1), 'kolmogorov 1d', 'one-dimensional forcing')


def unit_linear(rec, shape):
  grid = grids.Grid(shape, domain=[(0., 1. + .3 * i) for i in range(len(shape))])
  nd = len(shape)
  n = int(np.prod(shape))
  units_ = np.concatenate([np.zeros((1, nd * n)), np.eye(nd * n), lin.generic((1, nd * n))]).reshape((-1, nd) + tuple(shape))
  def apply(f):
    return lambda x: jnp.stack([a.data for a in f(velocity(list(x), grid))])
  for c in (0., 1., -.3):
    want = c * units_
    for nm, f in (('linear', forcings.linear_forcing(grid, c)), ('ml linear', mforcings.linear_forcing(grid, c))):
      key = f'{nm} {shape} {c}'
      rec.state(key)
      rec.step(len(units_))
      if rec.close(jax.vmap(apply(f))(jnp.asarray(units_)), want, key, 'c u', **TOL):
        rec.trace(len(units_))
      check_force(rec, f(velocity(list(units_[-1]), grid)), want[-1], grid.cell_faces, grid, key)
  for nm, f in (('none', forcings.no_forcing(grid)), ('ml none', mforcings.no_forcing(grid))):
    rec.step(len(units_))
    rec.state(nm, shape)
    if rec.close(jax.vmap(apply(f))(jnp.asarray(units_)), 0 * units_, f'{nm} {shape}', 'zero', **TOL):
      rec.trace(len(units_))
    check_force(rec, f(velocity(list(units_[-1]), grid)), 0 * units_[-1], grid.cell_faces, grid, nm)
  if nd == 1:
    return
  # sums: every multiset of at most three summands, in every order
  terms = [('linear2', forcings.linear_forcing(grid, 2.), lambda v: [2. * a for a in v]),
           ('none', forcings.no_forcing(grid), lambda v: [0. * a for a in v]),
           ('kol', forcings.kolmogorov_forcing(grid, 1.5, 2), lambda v: kol_ref(grid, 1.5, 2, False, grid.cell_faces)),
           ('swapped', forcings.kolmogorov_forcing(grid, -1., 1, True), lambda v: kol_ref(grid, -1., 1, True, grid.cell_faces))]
  va = [lin.generic(shape, i) for i in range(nd)]
  v = velocity(va, grid)
  for r in (1, 2, 3, 4):
    for combo in itertools.product(terms, repeat=r) if r < 4 else itertools.permutations(terms):
      key = f'sum {shape} {[c[0] for c in combo]}'
      want = [sum(ws) for ws in zip(*[c[2](va) for c in combo])]
      for nm, sm in (('', forcings.sum_forcings), ('ml ', mforcings.sum_forcings)):
        rec.state(nm + key)
        rec.step()
        rec.trace(check_force(rec, sm(*[c[1] for c in combo])(v), want, grid.cell_faces, grid, nm + key))
  # simple turbulence
  for mag, k, lc, typ in itertools.product((0., 2.), (1, 3), (0., -.5), ('kolmogorov', 'taylor_green', None)):
    key = f'simple turbulence {shape} {mag} {k} {lc} {typ}'
    kw = {} if typ is None else dict(forcing_type=typ)
    ref = tg_ref(grid, mag, k) if typ == 'taylor_green' else kol_ref(grid, mag, k, False, grid.cell_faces)
    want = [w + lc * a for w, a in zip(ref, va)]
    rec.state(key)
    rec.step()
    rec.trace(check_force(rec, forcings.simple_turbulence_forcing(grid, mag, k, lc, **kw)(v), want, grid.cell_faces, grid, key))
  for bad in ('', 'Kolmogorov', 'unknown'):
    rec.raises(lambda: forcings.simple_turbulence_forcing(grid, forcing_type=bad), f'unknown type {bad!r}', 'unknown forcing', (ValueError,))  # pylint: disable=cell-var-from-loop


def modes(shape):
  """All real Fourier modes: (integer wavevector with signs, cos field, sin field)."""
  idx = np.meshgrid(*[np.arange(n) for n in shape], indexing='ij')
  for m in itertools.product(*[range(n) for n in shape]):
    k = tuple(a if a <= n / 2 else a - n for a, n in zip(m, shape))
    ph = sum(TAU * a * i / n for a, i, n in zip(m, idx, shape))
    yield k, np.cos(ph), np.sin(ph)


def unit_filter(rec, shape, domain):
  """filter(): every mode is multiplied by density(|k|), the mean is removed."""
  grid = grids.Grid(shape, domain=domain)
  lengths = [hi - lo for lo, hi in grid.domain]
  dens = {'quad': lambda k: 1. + k ** 2, 'exp': lambda k: jnp.exp(-k), 'singular': lambda k: 1 / k}
  ms = list(modes(shape))
  fields = np.array([c for _, c, _ in ms] + [s for _, _, s in ms])
  mag = np.array([np.sqrt(sum((TAU * a / l) ** 2 for a, l in zip(k, lengths))) for k, _, _ in ms] * 2)
  for name, d in dens.items():
    with np.errstate(divide='ignore'):
      amp = np.where(mag > 0, np.asarray(d(jnp.where(mag > 0, mag, 1.))), 0.)
    want = amp.reshape((-1,) + (1,) * len(shape)) * fields
    got = jax.vmap(lambda x: filter_utils.filter(d, x, grid))(jnp.asarray(fields))  # pylint: disable=cell-var-from-loop
    for i, (k, _, _) in enumerate(ms * 2):
      rec.state('filter', name, shape, k, i)
    rec.step(len(fields))
    if rec.close(got, want, f'filter {name} {shape} {domain}', 'mode times density', **TOL):
      rec.trace(len(fields))
    f = forcings.filtered_forcing(d, grid)
    nd = len(shape)
    for comp in range(nd):
      def one(x):
        arrays = [x if j == comp else 0 * x for j in range(nd)]  # pylint: disable=cell-var-from-loop
        return jnp.stack([a.data for a in f(velocity(arrays, grid))])  # pylint: disable=cell-var-from-loop
      out = np.zeros((len(fields), nd) + tuple(shape))
      out[:, comp] = want
      rec.step(len(fields))
      if rec.close(jax.vmap(one)(jnp.asarray(fields)), out, f'filtered forcing {name} {shape} component {comp}', 'each component by itself', **TOL):
        rec.trace(len(fields))
    arrays = [lin.generic(shape, i) for i in range(nd)]
    res = f(velocity(arrays, grid))
    rec.expect(all(a.offset == o and a.grid == grid for a, o in zip(res, grid.cell_faces)), f'filtered forcing {name} {shape}', 'offsets and grid')


def unit_bands(rec, shape, domain):
  """filtered_linear_forcing: coefficient inside the band (inclusive), 0 outside and on the mean."""
  grid = grids.Grid(shape, domain=domain)
  lengths = [hi - lo for lo, hi in grid.domain]
  nd = len(shape)
  ms = list(modes(shape))
  fields = np.array([c for _, c, _ in ms] + [s for _, _, s in ms])
  wav = np.array([np.sqrt(sum((a / l) ** 2 for a, l in zip(k, lengths))) for k, _, _ in ms] * 2)
  exact = all(l == 1. for l in lengths) and all(n & (n - 1) == 0 for n in shape)
  axis_mode = np.array([sum(a != 0 for a in k) <= 1 for k, _, _ in ms] * 2)
  levels = sorted({0., .5, 1., 1.3, 1.6, 2., 2.3, 3., 99.})
  for lo, hi in itertools.product(levels, repeat=2):
    if lo > hi and (lo, hi) != (2., 1.):
      continue
    tie = (np.abs(wav - lo) < 1e-9) | (np.abs(wav - hi) < 1e-9)
    use = (~tie) | ((wav == 0) | (axis_mode if exact else False))
    amp = np.where((wav > 0) & (wav >= lo) & (wav <= hi), 1., 0.)
    for c in (1., -.25):
      for nm, f in (('', forcings.filtered_linear_forcing(lo, hi, c, grid)), ('ml ', mforcings.filtered_linear_forcing(grid, c, lo, hi))):
        def one(x):
          out = f(velocity([x * (i + 1) for i in range(nd)], grid))  # pylint: disable=cell-var-from-loop
          return jnp.stack([a.data for a in out])
        got = np.asarray(jax.vmap(one)(jnp.asarray(fields)))
        want = c * amp.reshape((-1,) + (1,) * (nd + 1)) * np.stack([fields * (i + 1) for i in range(nd)], 1)
        rec.state(nm, 'band', shape, lo, hi, c)
        rec.step(int(use.sum()))
        if rec.close(got[use], want[use], f'{nm}band {shape} {domain} {lo}-{hi} c={c}', 'modes inside the band only', **TOL):
          rec.trace(int(use.sum()))
  # default band of the ml module
  f = mforcings.filtered_linear_forcing(grid, 2.)
  use = np.abs(wav - 4) > 1e-9
  amp = np.where((wav > 0) & (wav <= 4), 2., 0.)
  got = np.asarray(jax.vmap(lambda x: jnp.stack([a.data for a in f(velocity([x] * nd, grid))]))(jnp.asarray(fields)))
  rec.step()
  rec.close(got[use][:, 0], (amp.reshape((-1,) + (1,) * nd) * fields)[use], f'ml band default {shape}', 'wavenumbers up to 4', **TOL)


def unit_vorticity_space(rec, n, domain):
  """Forcing in vorticity space is the curl of the velocity forcing, mode by mode."""
  grid = grids.Grid((n, n), domain=domain)
  lx, ly = (hi - lo for lo, hi in grid.domain)
  x, y = centers(grid, (0., 0.))
  kx = TAU * np.fft.fftfreq(n, lx / n)[:, None]
  ky = TAU * np.fft.rfftfreq(n, ly / n)[None]
  def curl(u, v):
    return np.fft.irfft2(1j * kx * np.fft.rfft2(v) - 1j * ky * np.fft.rfft2(u), s=(n, n))
  ms = [(k, c, s) for k, c, s in modes((n, n)) if all(abs(a) < n / 2 for a in k)]
  fields = np.array([c for _, c, _ in ms] + [s for _, _, s in ms])
  zero = np.array([k == (0, 0) for k, _, _ in ms] * 2)
  for scale, k, lc, swap in itertools.product((0., 1., -2.), (1, 2), (0., -.3), (False, True)):
    mod = functools.partial(mforcings.kolmogorov_forcing, scale=scale, wavenumber=k, linear_coefficient=lc, swap_xy=swap)
    fn = mforcings.vorticity_space_forcing(grid, mod)
    got = np.asarray(jax.vmap(fn)(jnp.asarray(fields)[..., None]))
    ref = kol_ref(grid, scale, k, swap, ((0., 0.), (0., 0.)))
    base = curl(*ref)
    want = base + lc * np.where(zero[:, None, None], 0., fields)
    key = f'vorticity space {n} {domain} scale={scale} k={k} lc={lc} swap={swap}'
    rec.state(key)
    rec.step(len(fields))
    got = got.reshape(want.shape) if got.size == want.size else got
    if rec.close(got, want, key, 'curl of the force', rtol=1e-8, atol=1e-8):
      rec.trace(len(fields))
    if lc == 0. and k * (lx if swap else ly) / TAU < n / 2:  # resolved: analytic curl
      ana = scale * k * np.cos(k * x) if swap else -scale * k * np.cos(k * y)
      rec.close(base, ana, key, 'analytic curl', rtol=1e-8, atol=1e-8)


def unit_configs(rec):
  """Every physics configuration file yields the declared constants and forcing."""
  root = os.path.join(os.path.dirname(physics_specifications.__file__), 'physics_configs')
  grid = grids.Grid((4, 5), domain=((0., TAU), (0., TAU)))
  va = [lin.generic((4, 5), i) for i in range(2)]
  v = velocity(va, grid)
  table = {
      'kolmogorov_forcing': (1., .001, [a - .1 * b for a, b in zip(kol_ref(grid, 1., 4, False, grid.cell_faces), va)]),
      'linear_forcing': (1., .000665, [.05 * a for a in va]),
      'no_forcing': (1., .001, [0 * a for a in va]),
      'taylor_green_forcing': (1., .001, [a - .002 * b for a, b in zip(tg_ref(grid, .05, 3), va)]),
  }
  for name, (rho, nu, want) in table.items():
    with gin.unlock_config():
      gin.clear_config()
      gin.parse_config_file(os.path.join(root, name + '.gin'))
      specs = physics_specifications.get_physics_specs()
      rec.state(name)
      rec.step()
      ok = rec.expect((specs.density, specs.viscosity) == (rho, nu), name, f'{specs}')
      ok &= check_force(rec, specs.forcing_module(grid)(v), want, grid.cell_faces, grid, name)
      rec.trace(ok)
      # later bindings override the file
      gin.bind_parameter('NavierStokesPhysicsSpecs.density', 3.)
      rec.expect(physics_specifications.get_physics_specs().density == 3., name, 'override')
      gin.clear_config()
  with gin.unlock_config():
    gin.parse_config_file(os.path.join(root, 'kuramoto_sivashinsky.gin'))
    specs = physics_specifications.get_physics_specs()
    rec.expect(isinstance(specs, physics_specifications.KsPhysicsSpecs) and specs.forcing_module is None, 'kuramoto_sivashinsky', f'{specs}')
    rec.state('ks')
    rec.trace()
    gin.clear_config()


# ---------------------------------------------------------------- closures


def fwd(a, ax, h):
  return (np.roll(a, -1, ax) - a) / h


def bwd(a, ax, h):
  return (a - np.roll(a, 1, ax)) / h


def strain(v, steps):
  nd = len(v)
  ax = lambda i: v[0].ndim - nd + i
  return [[.5 * (fwd(v[i], ax(j), steps[j]) + fwd(v[j], ax(i), steps[i])) for j in range(nd)] for i in range(nd)]


def strain_offsets(nd):
  faces = np.eye(nd) * .5 + .5
  return [[tuple(faces[i] + .5 * np.eye(nd)[j]) for j in range(nd)] for i in range(nd)]


def evm_ref(v, nu, steps):
  """v: nd arrays; nu[i][j]: arrays; leading batch axes allowed."""
  nd = len(steps)
  s = strain(v, steps)
  ax = lambda j: v[0].ndim - nd + j
  return [sum(bwd(2 * nu[i][j] * s[i][j], ax(j), steps[j]) for j in range(nd)) for i in range(nd)]


def to_offset(a, src, dst):
  """Linear interpolation between offsets that differ by multiples of 1/2."""
  nd = len(src)
  for i, (s, d) in enumerate(zip(src, dst)):
    ax = a.ndim - nd + i
    k = d - s
    lo, fr = int(np.floor(k)), k - np.floor(k)
    a = (1 - fr) * np.roll(a, -lo, ax) + fr * np.roll(a, -lo - 1, ax)
  return a


def smag_ref(v, steps, cs, to_offset=to_offset):
  nd = len(steps)
  s = strain(v, steps)
  offs = strain_offsets(nd)
  cen = (.5,) * nd
  c = [[to_offset(s[i][j], offs[i][j], cen) for j in range(nd)] for i in range(nd)]
  mag = np.sqrt(2 * sum(c[i][j] * c[j][i] for i in range(nd) for j in range(nd)))
  delta = np.prod(steps) ** (1 / nd)
  nu = (cs * delta) ** 2 * mag
  return [[to_offset(nu, cen, offs[i][j]) for j in range(nd)] for i in range(nd)]


def real_strain(v, grid):
  """The strain tensor with real metadata, data from the reference."""
  nd = grid.ndim
  s = strain([np.asarray(a) for a in v], grid.step)
  offs = strain_offsets(nd)
  return grids.GridArrayTensor([[grids.GridArray(jnp.asarray(s[i][j]), offs[i][j], grid) for j in range(nd)] for i in range(nd)])


def vel_words(shape):
  nd = len(shape)
  n = nd * int(np.prod(shape))
  return np.concatenate([np.eye(n), -2 * np.eye(n)[: n // 2], [lin.generic((n,), k) for k in range(3)]]).reshape((-1, nd) + tuple(shape))


def unit_smagorinsky(rec, shape, domain):
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  words = vel_words(shape)
  offs = strain_offsets(nd)
  specs = physics_specifications.NavierStokesPhysicsSpecs(None, 1., .1)
  def ml(s, v, cs):
    fn = viscosities.smagorinsky_viscosity(grid, .1, specs, cs=cs)
    return fn(s, v)
  for cs in (0., .2, 1.):
    def model(x, which):
      v = velocity(list(x), grid)
      nd_ = range(nd)
      s = [[.5 * ((jnp.roll(x[i], -1, j) - x[i]) / grid.step[j] + (jnp.roll(x[j], -1, i) - x[j]) / grid.step[i]) for j in nd_] for i in nd_]
      s_ij = grids.GridArrayTensor([[grids.GridArray(s[i][j], offs[i][j], grid) for j in nd_] for i in nd_])
      if which == 'base':
        nu = subgrid_models.smagorinsky_viscosity(s_ij, v, dt=.1, cs=cs)  # pylint: disable=cell-var-from-loop
      elif which == 'ml':
        f = hk.transform(lambda: ml(s_ij, v, cs))  # pylint: disable=cell-var-from-loop
        nu = f.apply({}, None)
      leaves = [nu[i, j] for i in nd_ for j in nd_]
      return jnp.stack([getattr(l, 'data', l) for l in leaves])
    want = smag_ref([words[:, i] for i in range(nd)], grid.step, cs)
    want = np.stack([want[i][j] for i in range(nd) for j in range(nd)], 1)
    for which in ('base', 'ml'):
      got = jax.jit(jax.vmap(functools.partial(model, which=which)))(jnp.asarray(words))
      key = f'smagorinsky {which} {shape} cs={cs}'
      for i in range(len(words)):
        rec.state(key, i)
      rec.step(len(words))
      if rec.close(got, want, key, '(cs Delta)^2 |S|', rtol=1e-8, atol=1e-8):
        rec.trace(len(words))
      rec.expect(bool(np.all(np.asarray(got) >= 0)), key, 'viscosity is never negative')
    # any interpolation: here the neighbour above, twice as large inwards, three times outwards
    def odd_offset(a, src, dst):
      if tuple(src) == tuple(dst):
        return a
      return (2. if tuple(dst) == (.5,) * nd else 3.) * np.roll(
          a, [-int(np.ceil(d - s)) for s, d in zip(src, dst)], tuple(range(a.ndim - nd, a.ndim)))

    def odd_fn(c, offset, v, dt):
      seen.append((dt, len(v)))
      if tuple(c.offset) == tuple(offset):
        return c
      data = (2. if tuple(offset) == grid.cell_center else 3.) * jnp.roll(
          c.data, [-int(np.ceil(d - s)) for s, d in zip(c.offset, offset)], tuple(range(nd)))
      return grids.GridVariable(grids.GridArray(data, offset, grid), c.bc)

    def odd_model(x, which):
      v = velocity(list(x), grid)
      s_ij = real_strain_of(x)
      if which == 'base':
        nu = subgrid_models.smagorinsky_viscosity(s_ij, v, dt=.1, cs=cs, interpolate_fn=odd_fn)  # pylint: disable=cell-var-from-loop
      else:
        nu = hk.transform(lambda: viscosities.smagorinsky_viscosity(  # pylint: disable=g-long-lambda
            grid, .1, specs, cs=cs, interpolation_module=lambda *a, **k: odd_fn)(s_ij, v)).apply({}, None)  # pylint: disable=cell-var-from-loop
      return jnp.stack([getattr(nu[i, j], 'data', nu[i, j]) for i in range(nd) for j in range(nd)])

    def real_strain_of(x):
      s = [[.5 * ((jnp.roll(x[i], -1, j) - x[i]) / grid.step[j] + (jnp.roll(x[j], -1, i) - x[j]) / grid.step[i]) for j in range(nd)] for i in range(nd)]
      return grids.GridArrayTensor([[grids.GridArray(s[i][j], offs[i][j], grid) for j in range(nd)] for i in range(nd)])
    odd = smag_ref([words[:, i] for i in range(nd)], grid.step, cs, odd_offset)
    odd = np.stack([odd[i][j] for i in range(nd) for j in range(nd)], 1)
    for which in ('base', 'ml'):
      key = f'smagorinsky {which} {shape} cs={cs} own interpolation'
      rec.state(key)
      rec.step(len(words))
      seen = []
      done, got = rec.attempt(lambda: jax.jit(jax.vmap(functools.partial(odd_model, which=which)))(jnp.asarray(words)), key, 'viscosity')  # pylint: disable=cell-var-from-loop
      if done and rec.close(got, odd, key, 'viscosity with the given interpolation', rtol=1e-8, atol=1e-8) and rec.expect(
          nd == 1 or seen and set(seen) == {(.1, nd)}, key, f'interpolation was called with {set(seen)}'):
        rec.trace()
    # the assembled acceleration
    evm = functools.partial(subgrid_models.evm_model, viscosity_fn=functools.partial(subgrid_models.smagorinsky_viscosity, dt=None, cs=cs))
    def accel(x):
      return jnp.stack([a.data for a in evm(velocity(list(x), grid))])  # pylint: disable=cell-var-from-loop
    def accel_ml(x):
      def f():
        return viscosities.eddy_viscosity_model(grid, .1, specs, viscosity_model=functools.partial(viscosities.smagorinsky_viscosity, cs=cs))(velocity(list(x), grid))  # pylint: disable=cell-var-from-loop
      return jnp.stack([a.data for a in hk.transform(f).apply({}, None)])
    vs = [words[:, i] for i in range(nd)]
    want = np.stack(evm_ref(vs, smag_ref(vs, grid.step, cs), grid.step), 1)
    for which, f in (('base', accel), ('ml', accel_ml)):
      got = np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(words)))
      key = f'smagorinsky acceleration {which} {shape} cs={cs}'
      rec.state(key)
      rec.step(len(words))
      if rec.close(got, want, key, 'div(2 nu S)', rtol=1e-8, atol=1e-8):
        rec.trace(len(words))
      rec.close(got.sum(tuple(range(2, 2 + nd))), np.zeros((len(words), nd)), key, 'momentum', atol=1e-7)
      rec.expect(bool(np.all((got * words).sum(tuple(range(1, 2 + nd))) <= 1e-9)), key, 'the closure never adds energy')
    res = evm(velocity(list(words[-1]), grid))
    rec.expect(all(a.offset == o and a.grid == grid for a, o in zip(res, grid.cell_faces)), f'evm metadata {shape}', f'offsets {[a.offset for a in res]}')


def unit_bilinear(rec, shape, domain, full):
  """evm_model for every (unit viscosity, unit velocity) pair."""
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  n = int(np.prod(shape))
  def accel(nu, x):
    def visc(s_ij, v):
      del v
      nus = [nu[i * nd + j] for i in range(nd) for j in range(nd)]
      return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(s_ij), nus)
    return jnp.stack([a.data for a in subgrid_models.evm_model(velocity(list(x), grid), visc)])
  nus = np.eye(nd * nd * n)
  vs = np.eye(nd * n)
  if not full:
    nus = np.concatenate([nus[:: 7], lin.generic((2, nd * nd * n))])
    vs = np.concatenate([vs[:: 3], lin.generic((2, nd * n), 1)])
  else:
    nus = np.concatenate([nus, lin.generic((1, nd * nd * n))])
    vs = np.concatenate([vs, lin.generic((1, nd * n), 1)])
  nus = nus.reshape((-1, nd * nd) + tuple(shape))
  vs = vs.reshape((-1, nd) + tuple(shape))
  f = jax.jit(jax.vmap(jax.vmap(accel, (None, 0)), (0, None)))
  for part in np.array_split(np.arange(len(nus)), max(1, len(nus) // 64)):
    got = np.asarray(f(jnp.asarray(nus[part]), jnp.asarray(vs)))
    nn = nus[part][:, None]
    vv = [np.broadcast_to(vs[None, :, i], (len(part), len(vs)) + tuple(shape)) for i in range(nd)]
    want = np.stack(evm_ref(vv, [[nn[:, :, i * nd + j] for j in range(nd)] for i in range(nd)], grid.step), 2)
    rec.state('bilinear', shape, int(part[0]))
    rec.step(got.shape[0] * got.shape[1])
    if rec.close(got, want, f'evm bilinear {shape} part {part[0]}', 'div(2 nu S)', **TOL):
      rec.trace(got.shape[0] * got.shape[1])


def unit_refusals(rec):
  kinds = {'channel': boundaries.channel_flow_boundary_conditions(2), 'dirichlet': boundaries.dirichlet_boundary_conditions(2),
           'neumann': boundaries.neumann_boundary_conditions(2)}
  grid = grids.Grid((4, 3))
  arrays = [lin.generic((4, 3), i) for i in range(2)]
  for name, bc in kinds.items():
    for mixed in (False, True):
      bcs = (periodic(grid), bc) if mixed else (bc, bc)
      v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(a), o, grid), b) for a, o, b in zip(arrays, grid.cell_faces, bcs))
      visc = functools.partial(subgrid_models.smagorinsky_viscosity, cs=.2)
      key = f'refusal {name} mixed={mixed}'
      rec.state(key)
      rec.step(3)
      rec.raises(lambda: subgrid_models.smagorinsky_viscosity(real_strain(arrays, grid), v), key, 'viscosity', (ValueError,))  # pylint: disable=cell-var-from-loop
      rec.raises(lambda: subgrid_models.evm_model(v, visc), key, 'closure', (ValueError,))  # pylint: disable=cell-var-from-loop
      rec.raises(lambda: subgrid_models.implicit_evm_solve_with_diffusion(v, .1, .1, functools.partial(subgrid_models.evm_model, viscosity_fn=visc)),  # pylint: disable=cell-var-from-loop
                 key, 'implicit solve', (ValueError,))
      rec.trace()


def unit_implicit(rec, shape, domain):
  """Frozen viscosity: (1 - dt (evm + nu laplacian)) v' = v for every v."""
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  n = int(np.prod(shape))
  eye = np.eye(nd * n).reshape((-1, nd) + tuple(shape))
  cen = (.5,) * nd
  offs = strain_offsets(nd)
  cases = itertools.product(('zero', 'unit', 'generic'), (0., .3), (.05, .7)) if nd == 2 else [('generic', .3, .05), ('generic', 0., .7), ('unit', .3, .7)]
  for kind, nu, dt in cases:
    cell = {'zero': np.zeros(shape), 'unit': np.eye(n)[n // 2].reshape(shape) * .5, 'generic': 1. + np.abs(lin.generic(shape))}[kind]
    tensor = [[to_offset(cell, cen, offs[i][j]) for j in range(nd)] for i in range(nd)]
    vs = [eye[:, i] for i in range(nd)]
    acc = evm_ref(vs, [[t[None] for t in row] for row in tensor], grid.step)
    lap = [sum((np.roll(a, 1, d + 1) + np.roll(a, -1, d + 1) - 2 * a) / grid.step[d] ** 2 for d in range(nd)) for a in vs]
    mat = np.stack([a + nu * l for a, l in zip(acc, lap)], 1).reshape(nd * n, nd * n).T
    want = np.linalg.solve(np.eye(nd * n) - dt * mat, np.eye(nd * n)).T.reshape(eye.shape)
    def visc(s_ij, v):
      del v
      return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(s_ij), [jnp.asarray(tensor[i][j]) for i in range(nd) for j in range(nd)])  # pylint: disable=cell-var-from-loop
    model = functools.partial(subgrid_models.evm_model, viscosity_fn=visc)
    def solve(x):
      out = subgrid_models.implicit_evm_solve_with_diffusion(velocity(list(x), grid), nu, dt, model, cg_kwargs=dict(tol=1e-12, atol=1e-12))  # pylint: disable=cell-var-from-loop
      return jnp.stack([u.data for u in out])
    key = f'implicit {shape} {kind} nu={nu} dt={dt}'
    rec.state(key)
    rec.step(len(eye))
    if rec.close(jax.jit(jax.vmap(solve))(jnp.asarray(eye)), want, key, 'inverse of 1 - dt (evm + nu laplacian)', rtol=1e-8, atol=1e-8):
      rec.trace(len(eye))
    out = subgrid_models.implicit_evm_solve_with_diffusion(velocity(list(eye[0]), grid), nu, dt, model)
    rec.close(np.stack([u.data for u in out]), want[0], key, 'default tolerance', rtol=1e-4, atol=1e-4)
    rec.expect(all(u.offset == o and u.bc == periodic(grid) for u, o in zip(out, grid.cell_faces)), key, 'metadata')


def unit_solvers(rec, density):
  """Assembled Smagorinsky solvers against the plain solver with the closure as an external force."""
  grid = grids.Grid((4, 4), domain=((0., 1.), (0., 1.5)))
  words = vel_words((4, 4))[::5] * .2
  nu, dt, cs = .02, .05, .3
  external = forcings.kolmogorov_forcing(grid, .7, 1)
  for forced, step_name in itertools.product((False, True), (None,)):
    ext = external if forced else None
    les = subgrid_models.explicit_smagorinsky_navier_stokes(dt=dt, cs=cs, forcing=ext, density=density, viscosity=nu, grid=grid)
    def ref_force(v):
      visc = functools.partial(subgrid_models.smagorinsky_viscosity, cs=cs)
      acc = subgrid_models.evm_model(v, visc)
      out = tuple(density * a for a in acc)
      if ext is not None:  # pylint: disable=cell-var-from-loop
        out = tuple(a + b for a, b in zip(out, ext(v)))  # pylint: disable=cell-var-from-loop
      return out
    plain = equations.semi_implicit_navier_stokes(density=density, viscosity=nu, dt=dt, grid=grid, forcing=ref_force)
    def go(f, x):
      v = velocity(list(x), grid)
      for _ in range(2):
        v = f(v)
      return jnp.stack([u.data for u in v])
    key = f'explicit smagorinsky density={density} forced={forced}'
    rec.state(key, step_name)
    rec.step(2 * len(words))
    a = jax.jit(jax.vmap(functools.partial(go, les)))(jnp.asarray(words))
    b = jax.jit(jax.vmap(functools.partial(go, plain)))(jnp.asarray(words))
    if rec.close(a, b, key, 'two steps', rtol=1e-8, atol=1e-8):
      rec.trace(len(words))
    # without a closure the implicit solver is the implicit diffusion solver
    imp = subgrid_models.implicit_smagorinsky_navier_stokes(dt=dt, cs=0., density=density, viscosity=nu, grid=grid, forcing=ext)
    base = equations.implicit_diffusion_navier_stokes(density=density, viscosity=nu, dt=dt, grid=grid, forcing=ext, diffusion_solve=diffusion.solve_fast_diag)
    key = f'implicit smagorinsky cs=0 density={density} forced={forced}'
    rec.state(key)
    rec.step(2 * len(words))
    a = jax.jit(jax.vmap(functools.partial(go, imp)))(jnp.asarray(words))
    b = jax.jit(jax.vmap(functools.partial(go, base)))(jnp.asarray(words))
    if rec.close(a, b, key, 'two steps', rtol=1e-4, atol=1e-5):
      rec.trace(len(words))


def unit_learned(rec, shape, domain):
  """Learned viscosities with a stand-in network: pointwise linear maps of the inputs."""
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  words = vel_words(shape)
  offs = strain_offsets(nd)
  cen = (.5,) * nd
  specs = physics_specifications.NavierStokesPhysicsSpecs(None, 1., .125)
  uniq = len({o for row in offs for o in row})
  for which, factory in (('scalar', viscosities.learned_scalar_viscosity), ('gradients', viscosities.learned_scalar_viscosity_from_gradients),
                         ('tensor', viscosities.learned_tensor_viscosity)):
    for scale in (0., .5):
      calls = []
      def tower(num_out, ndim, name=None):
        calls.append((num_out, ndim))  # pylint: disable=cell-var-from-loop
        def net(x):
          calls.append(x.shape)  # pylint: disable=cell-var-from-loop
          w = 1. + jnp.arange(x.shape[-1])[:, None] + 10. * jnp.arange(num_out)[None]
          return x.dot(w) + .5 + jnp.arange(num_out)
        return net
      def model(x):
        s = [[.5 * ((jnp.roll(x[i], -1, j) - x[i]) / grid.step[j] + (jnp.roll(x[j], -1, i) - x[j]) / grid.step[i]) for j in range(nd)] for i in range(nd)]
        s_ij = grids.GridArrayTensor([[grids.GridArray(s[i][j], offs[i][j], grid) for j in range(nd)] for i in range(nd)])
        def f():
          fn = factory(grid, .1, specs, viscosity_scale=scale, tower_factory=tower)  # pylint: disable=cell-var-from-loop
          return fn(s_ij, velocity(list(x), grid))
        nu = hk.transform(f).apply({}, None)
        return jnp.stack([nu[i, j] if not hasattr(nu[i, j], 'data') or isinstance(nu[i, j], jax.Array) else nu[i, j].data for i in range(nd) for j in range(nd)])
      key = f'learned {which} {shape} scale={scale}'
      got = np.asarray(jax.jit(jax.vmap(model))(jnp.asarray(words)))
      rec.state(key)
      rec.step(len(words))
      vs = [words[:, i] for i in range(nd)]
      if which == 'scalar':
        inputs = vs
      elif which == 'gradients':
        s = strain(vs, grid.step)
        inputs = [to_offset(s[i][j], offs[i][j], cen) for i in range(nd) for j in range(nd)]
      else:
        inputs = vs
      lead = (1,) if which != 'tensor' else (uniq,)
      rec.expect(calls[0] == lead + (nd,), key, f'network is built with {calls[0]}')
      rec.expect(calls[1] == tuple(shape) + (len(inputs),), key, f'network input {calls[1]}')
      sc = scale + 1e-6
      def channel(c):
        return sc * (sum((1. + i + 10. * c) * a for i, a in enumerate(inputs)) + .5 + c)  # pylint: disable=cell-var-from-loop
      if which != 'tensor':
        nu = channel(0)
        want = np.stack([to_offset(nu, cen, offs[i][j]) for i in range(nd) for j in range(nd)], 1)
        ok = rec.close(got, want, key, 'one viscosity, interpolated', rtol=1e-8, atol=1e-9)
      else:
        # offsets <-> channels is a bijection, equal for every input
        ok = True
        chosen = {}
        for p, (i, j) in enumerate(itertools.product(range(nd), repeat=2)):
          hits = [c for c in range(uniq) if np.allclose(got[:, p], channel(c), rtol=1e-8, atol=1e-9 * max(sc, 1e-3))]
          ok &= rec.expect(len(hits) == 1, key, f'entry {i}{j} is not one channel: {hits}')
          if hits:
            ok &= rec.expect(chosen.setdefault(offs[i][j], hits[0]) == hits[0], key, f'entries at {offs[i][j]} differ')
        ok &= rec.expect(len(set(chosen.values())) == uniq, key, f'channels {chosen}')
      if ok:
        rec.trace(len(words))
      rec.outcome(got)
  # eddy_viscosity_model passes the viscosity of the physics as default scale
  seen = []
  def visc_module(g, dt, p, viscosity_scale):
    seen.append((g, dt, p, viscosity_scale))
    def fn(s_ij, v):
      return jax.tree_util.tree_map(lambda s: jnp.ones(grid.shape), s_ij)
    return fn
  for vs in (None, 0., .75):
    def f():
      return viscosities.eddy_viscosity_model(grid, .1, specs, viscosity_scale=vs, viscosity_model=visc_module)(velocity(list(words[-1]), grid))  # pylint: disable=cell-var-from-loop
    out = hk.transform(f).apply({}, None)
    rec.step()
    rec.expect(seen[-1] == (grid, .1, specs, .125 if vs is None else vs), f'eddy model {shape} {vs}', f'{seen[-1]}')
    ones = [[np.ones(shape)] * nd] * nd
    rec.close(np.stack([a.data for a in out]), np.stack(evm_ref(list(words[-1]), ones, grid.step)), f'eddy model {shape} {vs}', 'unit viscosity', **TOL)


def units(tier):
  th = tier == 'thorough'
  out = []
  box = lambda *l: tuple((.25 * i, .25 * i + x) for i, x in enumerate(l))
  for shape, dom in (((4, 5), box(1., 1.7)), ((4, 4), box(TAU, TAU)), ((3, 4, 5), box(1., 1.7, TAU))):
    out.append((f'kolmogorov-{shape}', unit_kolmogorov, dict(shape=shape, domain=dom)))
    out.append((f'taylor-green-{shape}', unit_taylor_green, dict(shape=shape, domain=dom)))
  for shape in ((5,), (4, 3), (3, 2, 4)):
    out.append((f'linear-{shape}', unit_linear, dict(shape=shape)))
  for shape, dom in (((8,), ((0., 1.),)), ((5,), ((0., 3.),)), ((4, 6), box(1., 2.5)), ((5, 4), box(TAU, TAU)), ((3, 4, 5), box(1., 1.3, 1.7))) + ((((6, 5, 4), box(1., 1.3, 1.7)), ((9, 8), box(2., 3.))) if th else ()):
    out.append((f'filter-{shape}', unit_filter, dict(shape=shape, domain=dom)))
  for shape, dom in (((8,), ((0., 1.),)), ((8, 4), ((0., 1.), (0., 1.))), ((5, 6), box(1.4, .9)), ((4, 4, 4), ((0., 1.),) * 3)) + ((((8, 8), ((0., 1.),) * 2),) if th else ()):
    out.append((f'bands-{shape}', unit_bands, dict(shape=shape, domain=dom)))
  for n, dom in ((4, ((0., TAU),) * 2), (6, ((0., TAU),) * 2), (8, ((0., TAU),) * 2), (6, ((0., TAU), (0., 2 * TAU)))):
    out.append((f'vorticity-space-{n}-{dom[1][1]:.1f}', unit_vorticity_space, dict(n=n, domain=dom)))
  out.append(('configs', unit_configs, {}))
  for shape, dom in (((4, 5), box(1., 1.7)), ((3, 3), box(1., 1.)), ((3, 3, 4), box(1., 1.3, 1.7))) + ((((6, 5), box(1., 1.)), ((4, 3, 5), box(1., 2., 1.5))) if th else ()):
    out.append((f'smagorinsky-{shape}', unit_smagorinsky, dict(shape=shape, domain=dom)))
    out.append((f'learned-{shape}', unit_learned, dict(shape=shape, domain=dom)))
  for shape, full in (((4, 3), True), ((3, 3, 3), False)) + ((((4, 5), True), ((3, 3, 4), True)) if th else ()):
    out.append((f'bilinear-{shape}-{full}', unit_bilinear, dict(shape=shape, domain=box(*(1., 1.3, 1.7)[:len(shape)]), full=full)))
  out.append(('refusals', unit_refusals, {}))
  for shape in ((4, 3), (3, 3, 3)) + (((6, 5),) if th else ()):
    out.append((f'implicit-{shape}', unit_implicit, dict(shape=shape, domain=box(*(1., 1.3, 1.7)[:len(shape)]))))
  for rho in (1., 2.5):
    out.append((f'solvers-{rho}', unit_solvers, dict(density=rho)))
  return out
