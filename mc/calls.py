"""A catalogue of real calls: name -> make(c) -> fn(k), grouped by part.

make(c) builds an operation of the code under test for the configuration c;
fn(k) applies it to the k-th data of that configuration.  Everything, grids and
data included, is built anew by every call.
"""
import copy
import dataclasses
import functools
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd import collocated
from jax_cfd.base import advection
from jax_cfd.base import array_utils
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import fast_diagonalization
from jax_cfd.base import filter_utils
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import forcings
from jax_cfd.base import funcutils
from jax_cfd.base import grids
from jax_cfd.base import initial_conditions
from jax_cfd.base import interpolation
from jax_cfd.base import pressure
from jax_cfd.base import resize
from jax_cfd.base import subgrid_models
from jax_cfd.base import time_stepping
from jax_cfd.base import validation_problems
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import diffusion as cdiffusion
from jax_cfd.collocated import equations as cequations
from jax_cfd.collocated import initial_conditions as cinitial
from jax_cfd.collocated import pressure as cpressure
from jax_cfd.spectral import equations as sequations
from jax_cfd.spectral import forcings as sforcings
from jax_cfd.spectral import time_stepping as sts
from jax_cfd.spectral import utils as sutils
from mc import lin


@dataclasses.dataclass(frozen=True)
class Config:
  """One assignment of every parameter a call may depend on."""
  name: str
  shape: tuple = (4, 6)
  step: tuple = (.5, .8)
  origin: tuple = (0., 0.)
  data: int = 0
  nu: float = .3
  dt: float = .1
  rho: float = 2.
  wall: float = .25
  dtype: str = 'float64'
  seed: int = 0
  wave: int = 2
  width: int = 3
  steps: int = 2

  @property
  def nd(self):
    return len(self.shape)

  def grid(self, shape=None, factor=1):
    shape = self.shape if shape is None else shape
    step = (self.step + (.6,))[:len(shape)]
    origin = (self.origin + (.5,))[:len(shape)]
    return grids.Grid(tuple(n // factor for n in shape), domain=[(o, o + h * n) for o, h, n in zip(origin, step, shape)])

  def square(self):
    return dataclasses.replace(self, step=(self.step[0],) * 2)

  def array(self, k, i=0, shape=None):
    return jnp.asarray(lin.generic(tuple(self.shape if shape is None else shape), self.data + 5 * k + i).astype(self.dtype))

  def bc(self, kind, nd=None):
    nd = nd or self.nd
    if kind == 'periodic':
      return boundaries.periodic_boundary_conditions(nd)
    if kind == 'dirichlet':
      return boundaries.dirichlet_boundary_conditions(nd, tuple((self.wall * (i + 1), -.5) for i in range(nd)))
    if kind == 'neumann':
      return boundaries.neumann_boundary_conditions(nd, tuple((self.wall * (i + 1), -.5) for i in range(nd)))
    if kind == 'wall':
      return boundaries.dirichlet_boundary_conditions(nd)
    if kind == 'insulated':
      return boundaries.neumann_boundary_conditions(nd)
    if kind == 'tapered':
      return boundaries.ConstantBoundaryConditions([('dirichlet', 'neumann')] * nd, [(0., 0.)] * nd)
    if kind == 'half':
      return boundaries.periodic_and_neumann_boundary_conditions()
    return boundaries.channel_flow_boundary_conditions(nd)

  def scalar(self, kind, k=0, offset=None, shape=None):
    grid = self.grid(shape)
    return grids.GridVariable(grids.GridArray(self.array(k, 3, shape), grid.cell_center if offset is None else offset, grid), self.bc(kind, grid.ndim))

  def velocity(self, kind, k=0, shape=None, collocate=False, scale=1.):
    grid = self.grid(shape)
    out = []
    for i, o in enumerate(grid.cell_faces):
      x = scale * self.array(k, i, shape)
      if kind != 'periodic' and (kind != 'channel' or i == 1):  # nothing crosses the wall
        x = x.at[(slice(None),) * i + (-1,)].set(0)
      out.append(grids.GridVariable(grids.GridArray(x, grid.cell_center if collocate else o, grid), self.bc(kind, grid.ndim)))
    return tuple(out)


WATCHED = []  # (argument, copy of it before the call)


def watched(x):
  return watch(np.array(x))


def watch(x):
  WATCHED.append((x, copy.deepcopy(x)))
  return x


BASE = Config('base')
VARIATIONS = [
    ('first step', dict(step=(.7, .8))), ('last step', dict(step=(.5, .9))), ('origin', dict(origin=(1., -2.))), ('data', dict(data=2)), ('nu', dict(nu=.05)),
    ('dt', dict(dt=.2)), ('rho', dict(rho=.5)), ('wall', dict(wall=-1.)), ('shape', dict(shape=(6, 4))), ('single', dict(dtype='float32')), ('seed', dict(seed=1)),
    ('wave', dict(wave=3)), ('width', dict(width=2)), ('steps', dict(steps=3)), ('swapped', dict(shape=(6, 4), step=(.8, .5)))]
SINGLE = [BASE] + [dataclasses.replace(BASE, name=n, **kw) for n, kw in VARIATIONS]
# Parameters that hardly meet in one computation change together.
TOGETHER = (('first step',), ('last step',), ('origin',), ('swapped',), ('nu', 'seed'), ('dt', 'wave'), ('wall', 'single'), ('rho', 'data'), ('width', 'steps'))
JOINT = [BASE] + [dataclasses.replace(BASE, name=' and '.join(ns), **{k: v for n in ns for k, v in dict(VARIATIONS)[n].items()}) for ns in TOGETHER]

GROUPS = {g: {} for g in ('fields', 'elliptic', 'solvers', 'spectral', 'layers', 'networks', 'models', 'data')}


PLAIN = set()


def call(group, name):
  def register(make):
    assert name not in GROUPS[group], name
    GROUPS[group][name] = make
    return make
  return register


def plain(group, name, fn):
  """fn(c, k): nothing is built before the call."""
  PLAIN.add((group, name))
  call(group, name)(lambda c: functools.partial(fn, c))


# ------------------------------------------------------------------- base
for kind_ in ('periodic', 'dirichlet', 'neumann', 'channel', 'half'):
  K = dict(kind=kind_)
  plain('fields', f'differences {kind_}', lambda c, k, kind=kind_: [f(c.scalar(kind, k)) for f in (fd.central_difference, fd.forward_difference, fd.backward_difference, fd.laplacian)])
  plain('fields', f'gradient tensor {kind_}', lambda c, k, kind=kind_: fd.gradient_tensor(c.velocity(kind, k, collocate=kind in ('neumann', 'half'))))
  plain('fields', f'divergence {kind_}', lambda c, k, kind=kind_: (fd.divergence(c.velocity(kind if kind in ('periodic', 'channel', 'dirichlet') else 'wall', k)), fd.centered_divergence(c.velocity(kind, k, collocate=True)), fd.curl_2d(c.velocity(kind if kind in ('periodic', 'channel', 'dirichlet') else 'wall', k))))
  plain('fields', f'shift {kind_}', lambda c, k, kind=kind_: [c.scalar(kind, k).shift(s, a) for a in range(2) for s in (-1, 1)])
  plain('fields', f'trim and pad {kind_}', lambda c, k, kind=kind_: [c.bc(kind).trim_boundary(c.scalar(kind, k).array), c.bc(kind).pad_all(c.scalar(kind, k).array, ((1, 1), (1, 1)))])
  plain('fields', f'impose {kind_}', lambda c, k, kind=kind_: [c.bc(kind).impose_bc(c.scalar(kind, k).array), [c.bc(kind).values(a, c.grid()) for a in range(2)] if kind != 'periodic' else 0])
  plain('fields', f'interpolate {kind_}', lambda c, k, kind=kind_: [interpolation.linear(c.scalar(kind, k), o) for o in c.grid().cell_faces])
  plain('fields', f'advection flux conditions {kind_}', lambda c, k, kind=kind_: [boundaries.get_advection_flux_bc_from_velocity_and_scalar(u, c.scalar(kind, k), i)
                                                                              for i, u in enumerate(c.velocity('wall' if kind != 'periodic' else kind, k))] if kind in ('periodic', 'dirichlet') else 0)
  plain('fields', f'pressure conditions {kind_}', lambda c, k, kind=kind_: boundaries.get_pressure_bc_from_velocity(c.velocity(kind, k)))
  plain('fields', f'diffuse {kind_}', lambda c, k, kind=kind_: [diffusion.diffuse(c.scalar(kind, k), c.nu)] + ([cdiffusion.diffuse(c.scalar(kind, k), c.nu)] if kind == 'periodic' else []))
plain('fields', 'curl 3d', lambda c, k: fd.curl_3d(c.velocity('periodic', k, c.shape + (2,))))
plain('fields', 'grid', lambda c, k: [(g.shape, g.step, g.domain, g.ndim, g.cell_center, g.cell_faces, repr(g), hash(g) == hash(c.grid()), g == c.grid(), g == BASE.grid()) for g in [c.grid()]])
plain('fields', 'axes', lambda c, k: (c.grid().axes(), c.grid().axes((0.,) * 2), c.grid().mesh(), c.grid().mesh((1.,) * 2)))
plain('fields', 'frequencies', lambda c, k: (c.grid().fft_axes(), c.grid().rfft_axes(), c.grid().rfft_mesh()))
plain('fields', 'evaluate on mesh', lambda c, k: c.grid().eval_on_mesh(lambda x, y: jnp.sin(x) + c.nu * y))
plain('fields', 'masks', lambda c, k: grids.domain_interior_masks(c.grid()))
plain('fields', 'consistency', lambda c, k: (grids.averaged_offset(*c.velocity('periodic', k)), grids.control_volume_offsets(c.velocity('periodic', k)[0]), grids.consistent_grid(*c.velocity('wall', k)),
                                           grids.unique_boundary_conditions(*c.velocity('wall', k)), boundaries.consistent_boundary_conditions(*c.velocity('channel', k))))
plain('fields', 'mixed grids', lambda c, k: grids.consistent_grid(c.scalar('periodic', k), BASE.scalar('periodic', k)))
plain('fields', 'mixed conditions', lambda c, k: grids.unique_boundary_conditions(c.scalar('dirichlet', k), BASE.scalar('dirichlet', k)))
plain('fields', 'mixed offsets', lambda c, k: grids.consistent_offset(*c.velocity('periodic', k)))
plain('fields', 'arithmetic', lambda c, k: [u.array * 2. + c.nu - u.array ** 2 for u in c.velocity('periodic', k)])
plain('fields', 'applied', lambda c, k: (grids.applied(jnp.where)(c.scalar('periodic', k).array > 0, c.scalar('periodic', k).array, c.scalar('periodic', k + 1).array), jnp.sin(c.scalar('periodic', k).data)))
for scheme_ in ('advect_linear', 'advect_upwind', 'advect_van_leer', 'advect_van_leer_using_limiters', 'advect_step_semilagrangian'):
  plain('fields', scheme_, lambda c, k, f=getattr(advection, scheme_): f(c.scalar('periodic', k), c.velocity('periodic', k), c.dt))
plain('fields', 'advect_van_leer wall', lambda c, k: advection.advect_van_leer(c.scalar('dirichlet', k), c.velocity('wall', k), c.dt))
plain('fields', 'convect_linear', lambda c, k: (advection.convect_linear(c.velocity('periodic', k)), cadvection.convect_linear(c.velocity('periodic', k, collocate=True))))
plain('fields', 'collocated advect', lambda c, k: cadvection.advect_linear(c.scalar('periodic', k), c.velocity('periodic', k, collocate=True), c.dt))
for scheme_ in ('upwind', 'lax_wendroff'):
  plain('fields', 'interpolate ' + scheme_, lambda c, k, f=getattr(interpolation, scheme_): [f(c.scalar('periodic', k), o, c.velocity('periodic', k), c.dt) for o in c.grid().cell_faces])
call('fields', 'tvd')(lambda c: lambda k: [interpolation.apply_tvd_limiter(interpolation.lax_wendroff)(c.scalar('periodic', k), o, c.velocity('periodic', k), c.dt) for o in c.grid().cell_faces])
plain('fields', 'point', lambda c, k: [interpolation.point_interpolation(jnp.array([.33 + c.nu, .9]), c.scalar('periodic', k).array, order=o, mode=m) for o in (0, 1) for m in ('nearest', 'wrap')])
plain('fields', 'time steps', lambda c, k: (advection.stable_time_step(1.5, c.dt, c.grid()), diffusion.stable_time_step(c.nu, c.grid()), equations.stable_time_step(1.5, .5, c.nu, c.grid()),
                                          equations.stable_time_step(1.5, .5, c.nu, c.grid(), True), equations.dynamic_time_step(c.velocity('periodic', k), .5, c.nu, c.grid())))
plain('elliptic', 'split', lambda c, k: (array_utils.split_axis((c.array(k), c.array(k, 1)), 0), array_utils.split_axis(c.array(k), 1, True), array_utils.split_along_axis(c.array(k), c.width, 1),
                                     array_utils.slice_along_axis((c.array(k), c.array(k, 1)), 0, c.wave), array_utils.unstack(c.array(k), 0), array_utils.concat_along_axis(watch([c.array(k), c.array(k, 1)]), 0)))
plain('elliptic', 'refused ranks', lambda c, k: array_utils.slice_along_axis((c.array(k), c.array(k, 0, (3,) + c.shape)), 0, c.wave))
plain('elliptic', 'block reduce', lambda c, k: [array_utils.block_reduce(c.array(k), (2, w), f) for f in (jnp.mean, jnp.max) for w in (1, 2)])
plain('elliptic', 'block reduce width', lambda c, k: array_utils.block_reduce(c.array(k), (2, c.width), jnp.mean))
plain('elliptic', 'laplacian matrix', lambda c, k: [array_utils.laplacian_matrix(n, h) for n, h in zip(c.shape, c.step)])
for kind_ in ('periodic', 'wall', 'insulated', 'channel', 'tapered'):
  plain('elliptic', f'laplacian matrix {kind_}', lambda c, k, kind=kind_: [array_utils.laplacian_matrix_w_boundaries(c.grid(), o, c.bc(kind))
                                                                       for o in ((c.grid().cell_center,) if kind in ('insulated', 'tapered') else (c.grid().cell_center,) + c.grid().cell_faces)])
plain('elliptic', 'orthogonal factors', lambda c, k: array_utils.gram_schmidt_qr(c.array(k)[:4, :4] + 3 * jnp.eye(4)))
call('elliptic', 'interp1d')(lambda c: lambda k: [array_utils.interp1d(jnp.arange(6.) * c.dt, c.array(k, 0, (6,)), fill_value=f)(jnp.array([-.1, .13, .2, .9])) for f in ('constant_extrapolate', 'extrapolate', c.nu)])
plain('elliptic', 'filter', lambda c, k: filter_utils.filter(lambda q: jnp.exp(-c.nu * q ** 2), c.array(k), c.grid()))
for name_ in ('fast_diag', 'fast_diag_channel_flow'):
  plain('elliptic', 'pressure ' + name_, lambda c, k, f=getattr(pressure, 'solve_' + name_): f(c.velocity('channel', k)) if 'channel' in f.__name__ else [f(c.velocity(b, k)) for b in ('periodic', 'channel', 'wall')])
plain('elliptic', 'pressure implementations', lambda c, k: [pressure.solve_fast_diag(c.velocity('periodic', k), implementation=i) for i in ('matmul', 'fft', 'rfft')])
for kind_ in ('periodic', 'wall', 'channel'):
  plain('elliptic', f'projection {kind_}', lambda c, k, kind=kind_: [pressure.projection(c.velocity(kind, k)), pressure.projection(c.velocity(kind, k), functools.partial(pressure.solve_cg, atol=1e-10, rtol=1e-10, maxiter=c.width + 3))])
  plain('elliptic', f'diffusion solve {kind_}', lambda c, k, kind=kind_: [diffusion.solve_fast_diag(c.velocity(kind, k), c.nu, c.dt)] + ([diffusion.solve_cg(c.velocity(kind, k), c.nu, c.dt)] if kind == 'periodic' else []))
plain('elliptic', 'collocated projection', lambda c, k: cpressure.projection(c.velocity('periodic', k, collocate=True), functools.partial(cpressure.solve_cg, atol=1e-10, rtol=1e-10)))


def _operators(c, circulant):
  out = [lin.generic((n, n), i + c.data) * c.nu for i, n in enumerate((4, 3))]
  if circulant:
    return watch([array_utils.laplacian_matrix(n, h) for n, h in zip((4, 6), c.step)])
  return watch([(a + a.T) for a in out])


for impl_ in ('matmul', 'fft', 'rfft'):
  call('elliptic', f'pseudoinverse {impl_}')(lambda c, impl=impl_: (lambda f: lambda k: f(c.array(k, 0, (4, 6))))(
      fast_diagonalization.pseudoinverse(_operators(c, True), np.dtype(c.dtype), hermitian=True, circulant=True, implementation=impl)))
  call('elliptic', f'transform {impl_}')(lambda c, impl=impl_: (lambda f: lambda k: f(c.array(k, 0, (4, 6))))(
      fast_diagonalization.transform(lambda v: jnp.exp(c.nu * v), _operators(c, True), np.dtype(c.dtype), hermitian=True, circulant=True, implementation=impl)))
for kind_ in ('wall', 'insulated', 'channel', 'tapered'):
  call('elliptic', f'transform {kind_}')(lambda c, kind=kind_: (lambda f: lambda k: f(c.array(k)))(fast_diagonalization.transform(
      lambda v: jnp.exp(c.nu * v), watch(array_utils.laplacian_matrix_w_boundaries(c.grid(), c.grid().cell_center, c.bc(kind))), np.dtype(c.dtype), hermitian=True, implementation='matmul')))
call('elliptic', 'transform hermitian')(lambda c: (lambda f: lambda k: f(c.array(k, 0, (4, 3))))(
    fast_diagonalization.transform(lambda v: jnp.exp(c.nu * v), _operators(c, False), np.dtype(c.dtype), hermitian=True, implementation='matmul')))
call('elliptic', 'refused transform')(lambda c: fast_diagonalization.transform(jnp.exp, _operators(c, True), np.dtype(c.dtype), implementation='matmul'))
FORCES = {
    'kolmogorov': lambda c, g: forcings.kolmogorov_forcing(g, c.nu, c.wave), 'kolmogorov swapped': lambda c, g: forcings.kolmogorov_forcing(g, c.nu, c.wave, swap_xy=True),
    'kolmogorov centered': lambda c, g: forcings.kolmogorov_forcing(g, c.nu, c.wave, offsets=((.5, .5),) * 2), 'taylor green': lambda c, g: forcings.taylor_green_forcing(g, c.nu, c.wave),
    'linear': lambda c, g: forcings.linear_forcing(g, c.nu), 'none': lambda c, g: forcings.no_forcing(g),
    'sum': lambda c, g: forcings.sum_forcings(forcings.linear_forcing(g, c.nu), forcings.kolmogorov_forcing(g, c.nu, c.wave)),
    'simple kolmogorov': lambda c, g: forcings.simple_turbulence_forcing(g, c.nu, c.wave, -.1), 'simple taylor green': lambda c, g: forcings.simple_turbulence_forcing(g, c.nu, c.wave, -.1, 'taylor_green'),
    'refused type': lambda c, g: forcings.simple_turbulence_forcing(g, c.nu, c.wave, -.1, 'unknown'),
    'filtered': lambda c, g: forcings.filtered_forcing(lambda q: jnp.exp(-c.nu * q), g), 'band': lambda c, g: forcings.filtered_linear_forcing(1., 3. * c.wave, c.nu, g)}
for name_, f_ in FORCES.items():
  call('elliptic', 'forcing ' + name_)(lambda c, f=f_: (lambda force: lambda k: force(c.velocity('periodic', k)))(f(c, c.grid())))
plain('elliptic', 'downsample', lambda c, k: [resize.downsample_staggered_velocity(c.grid(), c.grid(factor=2), v) for v in (c.velocity('periodic', k), tuple(u.array for u in c.velocity('periodic', k)))])
plain('elliptic', 'downsample arrays', lambda c, k: resize.downsample_staggered_velocity(c.grid(), c.grid(factor=2), tuple(u.data for u in c.velocity('periodic', k))))
plain('elliptic', 'downsample component', lambda c, k: [resize.downsample_staggered_velocity_component(c.array(k), d, 2) for d in range(2)])
plain('elliptic', 'top hat', lambda c, k: [resize.top_hat_downsample(c.grid(), c.grid(factor=2), c.velocity('periodic', k) + (c.scalar('periodic', k),), filter_size=s) for s in (None, 2, 4, 2 * c.wave)])
plain('elliptic', 'refused downsampling', lambda c, k: resize.downsample_staggered_velocity(c.grid(), grids.Grid((3, 5), domain=c.grid().domain), c.velocity('periodic', k)))
plain('elliptic', 'random velocity', lambda c, k: initial_conditions.filtered_velocity_field(jax.random.PRNGKey(c.seed + k), c.grid((8, 8)), c.nu + 1, c.wave, c.steps))
plain('elliptic', 'random collocated velocity', lambda c, k: cinitial.filtered_velocity_field(jax.random.PRNGKey(c.seed + k), c.grid((4, 4)), c.nu + 1, c.wave, 1))
plain('elliptic', 'given velocity', lambda c, k: initial_conditions.initial_velocity_field((lambda x, y: jnp.sin(c.wave * x + k) * jnp.cos(y), lambda x, y: c.nu * x + y * 0), c.grid(), iterations=c.steps))
plain('elliptic', 'given wall velocity', lambda c, k: initial_conditions.initial_velocity_field((lambda x, y: jnp.sin(c.wave * x + k) * jnp.cos(y), lambda x, y: c.nu * x + y * 0), c.grid(), (c.bc('wall'),) * 2, iterations=c.steps))
plain('elliptic', 'wrap', lambda c, k: initial_conditions.wrap_variables(watch([c.array(k), c.array(k, 1)]), c.grid(), (c.bc('periodic'), c.bc('dirichlet'))))
plain('elliptic', 'refused array', lambda c, k: c.bc('periodic').impose_bc(grids.GridArray(c.array(k)[:, :3], (.5, .5), c.grid())))
plain('elliptic', 'refused offset', lambda c, k: interpolation.linear(c.scalar('dirichlet', k), (.5 + c.dt, .5)))
plain('elliptic', 'refused differences', lambda c, k: fd.divergence(c.velocity('periodic', k)[:1]))
plain('elliptic', 'refused grid', lambda c, k: grids.Grid(c.shape, step=c.step, domain=c.grid().domain))


# ---------------------------------------------------------------- solvers
def _convect(c, name):
  return None if name is None else (advection.convect_linear if name == 'linear' else lambda v: tuple(getattr(advection, name)(u, v, c.dt) for u in v))


def _smagorinsky(c):
  return functools.partial(subgrid_models.evm_model, viscosity_fn=functools.partial(subgrid_models.smagorinsky_viscosity, dt=c.dt, cs=c.nu))


SOLVERS = {
    'explicit periodic': ('periodic', lambda c: equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), forcing=forcings.kolmogorov_forcing(c.grid(), c.nu, c.wave))),
    'explicit linear': ('periodic', lambda c: equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=_convect(c, 'linear'), time_stepper=time_stepping.classic_rk4)),
    'explicit upwind': ('periodic', lambda c: equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=_convect(c, 'advect_upwind'), time_stepper=time_stepping.heun_rk2)),
    'explicit midpoint': ('periodic', lambda c: equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), time_stepper=time_stepping.midpoint_rk2)),
    'explicit channel': ('channel', lambda c: equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=lambda v: tuple(advection.advect_van_leer(u, v, c.dt) for u in v))),
    'implicit periodic': ('periodic', lambda c: equations.implicit_diffusion_navier_stokes(c.rho, c.nu, c.dt, c.grid(), forcing=forcings.linear_forcing(c.grid(), -c.nu))),
    'implicit box': ('wall', lambda c: equations.implicit_diffusion_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=lambda v: tuple(advection.advect_van_leer(u, v, c.dt) for u in v))),
    'explicit smagorinsky': ('periodic', lambda c: subgrid_models.explicit_smagorinsky_navier_stokes(
        c.dt, c.nu, None, density=c.rho, viscosity=c.nu, grid=c.grid(), convect=_convect(c, 'linear'))),
    'implicit smagorinsky': ('periodic', lambda c: subgrid_models.implicit_smagorinsky_navier_stokes(
        c.dt, c.nu, density=c.rho, viscosity=c.nu, grid=c.grid(), convect=_convect(c, 'linear')))}
for name_, (kind_, f_) in SOLVERS.items():
  call('solvers', name_)(lambda c, f=f_, kind=kind_: (lambda step: lambda k: step(c.velocity(kind, k)))(f(c)))
  if name_ in ('explicit periodic', 'implicit box', 'explicit smagorinsky'):
    call('solvers', 'compiled ' + name_)(lambda c, f=f_, kind=kind_: (lambda step: lambda k: step(c.velocity(kind, k)))(jax.jit(f(c))))
call('solvers', 'collocated')(lambda c: (lambda step: lambda k: step(c.velocity('periodic', k, collocate=True)))(cequations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid())))
call('solvers', 'explicit terms')(lambda c: (lambda f: lambda k: f(c.velocity('periodic', k)))(equations.navier_stokes_explicit_terms(c.rho, c.nu, c.dt, c.grid(), forcing=forcings.linear_forcing(c.grid(), c.nu))))
call('solvers', 'tableau')(lambda c: (lambda f: lambda k: f(c.velocity('periodic', k)))(time_stepping.navier_stokes_rk(
    time_stepping.ButcherTableau(a=watch([[c.nu]]), b=watch([1 - c.nu, c.nu])), time_stepping.ExplicitNavierStokesODE(lambda v: tuple(u.bc.impose_bc(-c.nu * u.array) for u in v), pressure.projection), c.dt)))
call('solvers', 'evm')(lambda c: (lambda f: lambda k: f(c.velocity('periodic', k)))(_smagorinsky(c)))
plain('solvers', 'implicit evm', lambda c, k: subgrid_models.implicit_evm_solve_with_diffusion(c.velocity('periodic', k), c.nu, c.dt, _smagorinsky(c)))
call('solvers', 'repeated')(lambda c: (lambda f: lambda k: f(c.array(k)))(funcutils.repeated(lambda x: jnp.sin(x) * c.nu, c.steps)))
call('solvers', 'trajectory')(lambda c: (lambda f: lambda k: f({'x': c.array(k), 'v': c.velocity('periodic', k)}))(funcutils.trajectory(
    lambda s: jax.tree_util.tree_map(lambda x: x + c.dt * jnp.sin(x), s), c.steps, lambda s: s['x'], start_with_input=c.wave == 3)))
call('solvers', 'solver trajectory')(lambda c: (lambda f: lambda k: f(c.velocity('periodic', k)))(funcutils.trajectory(
    funcutils.repeated(equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=_convect(c, 'linear')), 2), c.steps)))


def _initializing(c, k):
  with funcutils.init_context():
    out = funcutils.trajectory(lambda s: s + c.dt, c.steps)(c.array(k))
  return out


plain('solvers', 'initializing', _initializing)


def _failing(c, k):
  def step(s):
    raise KeyError(c.name)
  with funcutils.init_context():
    return funcutils.trajectory(step, c.steps)(c.array(k))


plain('solvers', 'failing initialization', _failing)
plain('solvers', 'failing step', lambda c, k: funcutils.trajectory(lambda s: s[c.wave:], c.steps)(c.array(k)))
plain('solvers', 'scan', lambda c, k: funcutils.scan(lambda s, x: (s + x, s * c.nu), c.array(k)[0], c.array(k, 1)))
for n_ in ('velocity', 'pressure', 'force'):
  call('solvers', 'taylor green ' + n_)(lambda c, n=n_: (lambda p: lambda k: getattr(p, n)(k * c.dt) if n == 'velocity' else getattr(p, n)(k * c.dt) if hasattr(p, n) else 0)(
      validation_problems.TaylorGreen(c.shape, density=c.rho, viscosity=c.nu, kx=c.wave, ky=c.width)))
for n_, d_ in itertools.product(('velocity', 'drag'), ('jvp', 'vjp')):
  def _derivative(c, k, n, d):
    step = equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=_convect(c, 'linear'))
    v = c.velocity('periodic', k)
    if n == 'drag':
      f = lambda a: tuple(u.data for u in equations.semi_implicit_navier_stokes(c.rho, c.nu, c.dt, c.grid(), convect=_convect(c, 'linear'), forcing=forcings.linear_forcing(c.grid(), a))(v))
      x = jnp.asarray(-c.nu)
    else:
      f = lambda a: tuple(u.data for u in step(tuple(grids.GridVariable(grids.GridArray(b, u.offset, u.grid), u.bc) for b, u in zip(a, v))))
      x = tuple(u.data for u in v)
    if d == 'jvp':
      return jax.jvp(f, (x,), (jax.tree_util.tree_map(jnp.ones_like, x),))
    out, back = jax.vjp(f, x)
    return back(out)
  plain('solvers', f'{d_} of the {n_}', functools.partial(_derivative, n=n_, d=d_))


# --------------------------------------------------------------- spectral
def _hat(c, k, shape):
  return jnp.fft.rfftn(c.array(k, 0, shape).astype('float64'))


SPECTRAL = {
    'navier stokes': ((6, 6), lambda c: sequations.NavierStokes2D(c.nu, c.grid((6, 6)), drag=c.dt, smooth=c.wave == 2)),
    'forced': ((6, 6), lambda c: sequations.ForcedNavierStokes2D(c.nu, c.grid((6, 6)), c.wave == 2)),
    'linear forced': ((6, 6), lambda c: sequations.NavierStokes2D(c.nu, c.grid((6, 6)), forcing_fn=lambda g: forcings.linear_forcing(g, c.nu))),
    'kuramoto sivashinsky': ((8,), lambda c: sequations.KuramotoSivashinsky(c.grid((8,)), c.wave == 2)),
    'burgers': ((8,), lambda c: sequations.BurgersEquation(c.nu, c.grid((8,)), c.seed)),
    'forced burgers': ((8,), lambda c: sequations.ForcedBurgersEquation(c.nu, c.grid((8,)), c.seed)),
    'schrodinger': ((8,), lambda c: sequations.NonlinearSchrodinger(c.grid((8,)), c.wave == 2))}


def _state(name, shape, c, k):
  if name == 'schrodinger':
    return jnp.fft.fft(c.array(k, 0, shape).astype('float64') + 1j * c.array(k, 1, shape).astype('float64'))
  return (_hat(c, k, shape), jnp.asarray(k * c.dt)) if 'burgers' in name else _hat(c, k, shape)


for (name_, (shape_, f_)), step_ in itertools.product(SPECTRAL.items(), ('backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk4', 'imex_rk_sil3', 'crank_nicolson_rk3')):
  if step_ in ('crank_nicolson_rk3', 'imex_rk_sil3') and name_ not in ('navier stokes', 'kuramoto sivashinsky'):
    continue
  call('spectral', f'{name_} {step_}')(lambda c, name=name_, shape=shape_, f=f_, s=step_: (lambda step: lambda k: step(_state(name, shape, c, k)))(getattr(sts, s)(f(c), c.dt)))
for name_, (shape_, f_) in SPECTRAL.items():
  call('spectral', f'{name_} terms')(lambda c, name=name_, shape=shape_, f=f_: (lambda eq: lambda k: [eq.explicit_terms(_state(name, shape, c, k)), eq.implicit_terms(_state(name, shape, c, k)),
                                                                                                   eq.implicit_solve(_state(name, shape, c, k), c.dt)])(f(c)))
call('spectral', 'tableau')(lambda c: (lambda step: lambda k: step(_hat(c, k, (6, 6))))(sts.imex_runge_kutta(
    sts.ImExButcherTableau(a_ex=[[c.nu]], a_im=[[c.dt, c.nu]], b_ex=[.5, .5], b_im=[.25, .75]), sequations.NavierStokes2D(c.nu, c.grid((6, 6))), c.dt)))
call('spectral', 'low storage')(lambda c: (lambda step: lambda k: step(_hat(c, k, (6, 6))))(sts.low_storage_runge_kutta_crank_nicolson(
    [0, c.nu, 1], [0, -c.dt], [c.nu, 1 - c.nu], sequations.NavierStokes2D(c.nu, c.grid((6, 6))), c.dt)))
plain('spectral', 'refused tableau', lambda c, k: sts.low_storage_runge_kutta_crank_nicolson([0, 1], [0, -c.dt], [c.nu], sequations.NavierStokes2D(c.nu, c.grid((6, 6))), c.dt))
plain('spectral', 'transforms 1d', lambda c, k: (sutils.truncated_rfft(c.array(k, 0, (12,))), sutils.padded_irfft(_hat(c, k, (8,))), sutils.truncated_fft_2x(c.array(k, 0, (12,))), sutils.padded_ifft_2x(_hat(c, k, (8,)))))
for n_ in ('circular', 'brick_wall'):
  plain('spectral', f'{n_} filter', lambda c, k, f=getattr(sutils, n_ + '_filter_2d'): f(c.grid((6, 6))))
plain('spectral', 'exponential filter', lambda c, k: sutils.exponential_filter(c.array(k, 0, (6, 6)), alpha=c.nu, order=c.wave))
call('spectral', 'velocity of vorticity')(lambda c: (lambda f: lambda k: f(_hat(c, k, (6, 6))))(sutils.vorticity_to_velocity(c.grid((6, 6)))))
plain('spectral', 'curl', lambda c, k: sutils.spectral_curl_2d(c.grid((6, 6)).rfft_mesh(), (_hat(c, k, (6, 6)), _hat(c, k + 1, (6, 6)))))
call('spectral', 'filtered step')(lambda c: (lambda f: lambda k: f(_hat(c, k, (6, 6))))(sutils.filter_step(lambda x: c.nu * x, sutils.circular_filter_2d(c.grid((6, 6))))))
call('spectral', 'random forcing')(lambda c: (lambda f: lambda k: f(k * c.dt))(sforcings.random_forcing_module(c.grid((8,)), c.seed, c.width)))
plain('spectral', 'downsample', lambda c, k: [resize.downsample_spectral(None, c.grid(s), _hat(c, k, (8, 8))) for s in ((4, 4), (3, 5))])


# --------------------------------------------------------- machine learning
def _weights(params, k):
  leaves, tree = jax.tree_util.tree_flatten(params)
  return jax.tree_util.tree_unflatten(tree, [jnp.asarray(lin.generic(x.shape, i + k) * .3).astype(x.dtype) for i, x in enumerate(leaves)])


def module(group, name, build, inputs):
  """build(c) -> fn inside haiku; inputs(c, k): its arguments."""
  def make(c):
    f = hk.without_apply_rng(hk.transform(lambda *a: build(c)(*a)))
    drawn = f.init(jax.random.PRNGKey(c.seed), *inputs(c, 0))
    params = _weights(drawn, c.seed)
    def fn(k):
      return (drawn if k == 0 else 0, f.apply(params, *inputs(c, k)))
    return fn
  call(group, name)(make)


@functools.lru_cache(None)
def ml():
  """Imported late: gin and the physics configurations are slow to load."""
  from jax_cfd.ml import advections, decoders, diffusions, encoders, equations as mequations, forcings as mforcings, interpolations, layers, layers_util, metrics  # pylint: disable=g-import-not-at-top
  from jax_cfd.ml import model_builder, model_utils, networks, physics_specifications as specs_lib, pressures, tiling, time_integrators, towers, train_utils, viscosities  # pylint: disable=g-import-not-at-top
  image = lambda c, k, n=2: (c.array(k, 0, c.shape + (n,)),)
  # layers
  for layout in (None, (1, 1), (2, 1)):
    module('layers', f'periodic convolution {layout}', lambda c, l=layout: layers.PeriodicConv2D(2, (c.width, 3), tile_layout=l), image)
    plain('layers', f'patches {layout}', lambda c, k, l=layout: [layers_util.extract_patches(c.array(k)[..., None], (c.width, 2), m, l) for m in ('roll', 'conv')] + [
        layers_util.fused_extract_patches(c.array(k)[..., None], [(2, 3), (2, 3)], l)])
    plain('layers', f'convolution {layout}', lambda c, k, l=layout: layers_util.periodic_convolution(c.array(k)[..., None], c.array(k, 1, (c.width, 2, 1, 2)), tile_layout=l))
  module('layers', 'dilated convolution', lambda c: layers.PeriodicConv2D(2, (2, 2), rate=c.wave), image)
  module('layers', 'convolution 1d', lambda c: layers.PeriodicConv1D(2, (c.width,)), lambda c, k: (c.array(k, 0, (6, 2)),))
  module('layers', 'convolution 3d', lambda c: layers.PeriodicConv3D(1, (c.width, 2, 1)), lambda c, k: (c.array(k, 0, (4, 3, 2, 1)),))
  module('layers', 'transpose convolution', lambda c: layers.PeriodicConvTranspose2D(2, (c.width, 2), stride=c.wave), image)
  module('layers', 'open convolution', lambda c: layers.NonPeriodicConv1D(2, (c.width,)), lambda c, k: (c.array(k, 0, (8, 2)),))
  module('layers', 'mirror convolution', lambda c: lambda *u: layers.MirrorConv2D(2, (3, c.width))(u), lambda c, k: c.velocity('insulated', k, collocate=True))
  plain('layers', 'rescale', lambda c, k: layers.rescale_to_range(c.array(k), -c.nu, 1., (0, 1)))
  plain('layers', 'stencils', lambda c, k: (layers_util.get_stencils((c.width, 3), (c.dt, .5), c.step), layers_util.get_roll_and_shift((.5, 0.), (1., c.dt))))
  for method in layers_util.Method:
    plain('layers', f'constraints {method.name}', lambda c, k, m=method: layers_util.polynomial_accuracy_constraints(
        [np.arange(-1., c.width - 1.) * c.dt, np.arange(-1., 2.) * c.dt], m, (1, 0), 1, c.dt))
    plain('layers', f'coefficients {method.name}', lambda c, k, m=method: layers_util.polynomial_accuracy_coefficients([np.arange(-1., c.width - 1.) * c.dt, np.arange(-1., 2.) * c.dt], m, (k % 2, 1), 1, c.dt))
    call('layers', f'constraint {method.name}')(lambda c, m=method: (lambda p: lambda k: p(c.array(k, 0, c.shape + (p.subspace_size,))))(
        layers.PolynomialConstraint([np.arange(-1., c.width - 1.) * c.dt, np.arange(-1., 2.) * c.dt], (1, 0), m, (c.dt, c.dt))))
  plain('layers', 'refused constraint', lambda c, k: layers.PolynomialConstraint([np.arange(c.width - 2.)], (2,), layers_util.Method.FINITE_VOLUME, (c.dt,)))
  tower = lambda n: functools.partial(towers.forward_tower_factory, n, 2, num_hidden_channels=3, num_hidden_layers=1)()
  module('layers', 'spatial derivative', lambda c: layers.SpatialDerivative((c.width, 2), (.5, .5), (1., .5), (1, 0), tower, (c.dt,) * 2), lambda c, k: image(c, k, 1))
  call('layers', 'derivative of logits')(lambda c: (lambda d: lambda k: d(c.array(k)[..., None], c.array(k, 1, c.shape + (d.subspace_size,))))(
      layers.SpatialDerivativeFromLogits((c.width, 3), (.5, .5), (1., .5), (1, 0), (c.dt,) * 2)))
  def _fused(c, k):
    ds = {i: layers.SpatialDerivativeFromLogits((c.width, 3), (.5, .5), (1., .5), (i, 1 - i), (c.dt,) * 2) for i in range(2)}
    out = layers.fuse_spatial_derivative_layers(ds, c.array(k, 1, c.shape + (sum(d.subspace_size for d in ds.values()),)))
    return {i: f(c.array(k)[..., None]) for i, f in out.items()}
  plain('layers', 'fused derivatives', _fused)
  plain('layers', 'tiles', lambda c, k: (tiling.space_to_batch(image(c, k)[0], (2, 1)), tiling.batch_to_space(tiling.space_to_batch(image(c, k)[0], (2, 2)), (2, 2)), tiling.halo_exchange_pad(
      tiling.space_to_batch(image(c, k)[0], (2, 1)), (2, 1), ((1, 1), (c.width - 2, 1)))))
  plain('layers', 'refused tiles', lambda c, k: tiling.space_to_batch(image(c, k)[0], (3, 4)))
  # networks
  spec = lambda c: specs_lib.NavierStokesPhysicsSpecs(functools.partial(mforcings.kolmogorov_forcing, scale=c.nu, wavenumber=c.wave, linear_coefficient=-.1), c.rho, c.nu)
  args = lambda c: (c.grid(), c.dt, spec(c))
  small = functools.partial(towers.forward_tower_factory, num_hidden_channels=3, num_hidden_layers=1)
  module('networks', 'tower', lambda c: towers.forward_tower_factory(2, 2, num_hidden_channels=3, kernel_size=c.width, num_hidden_layers=c.steps - 1, rates=c.wave - 1), image)
  module('networks', 'scaled tower', lambda c: towers.forward_tower_factory(2, 2, num_hidden_channels=3, num_hidden_layers=1, inputs_scale_fn=functools.partial(towers.fixed_scale, rescaled_one=c.nu),
                                                                         output_scale_fn=functools.partial(towers.scale_to_range, min_value=-c.dt, max_value=2.)), image)
  module('networks', 'flexible tower', lambda c: towers.forward_flex_tower_factory(2, 2, (3,), ((c.width, 3),), (c.wave - 1,), (1,)), image)
  module('networks', 'residual tower', lambda c: towers.residual_block_tower_factory(2, 2, num_blocks=c.steps, block_factory=small), image)
  module('networks', 'mlp', lambda c: towers.MlpTowerFactory(2, 2, 4, c.steps), lambda c, k: image(c, k))
  v1 = lambda c, k: (c.velocity('periodic', k),)
  module('networks', 'velocity corrector', lambda c: networks.velocity_corrector_network(*args(c), tower_factory=small), v1)
  module('networks', 'flux corrector', lambda c: networks.flux_corrector_network(*args(c), tower_factory=small), v1)
  module('networks', 'stack', lambda c: networks.stack_aligned_field(*args(c)), v1)
  module('networks', 'neighbors', lambda c: networks.stack_aligned_field_with_neighbors(*args(c), n_neighbors=c.wave - 1), v1)
  module('networks', 'split', lambda c: networks.split_to_aligned_field(*args(c)), image)
  module('networks', 'split divergence', lambda c: networks.aligned_field_from_split_divergence(*args(c)), lambda c, k: image(c, k, 4))
  module('networks', 'interpolate variables', lambda c: networks.interpolate_gridvar(*args(c)), v1)
  module('networks', 'latent encoder', lambda c: encoders.latent_encoder(*args(c), tower_factory=small, num_latent_dims=c.width, n_frames=c.wave),
         lambda c, k: (tuple(c.array(k, i, (4,) + c.shape) for i in range(2)),))
  module('networks', 'aligned latent encoder', lambda c: encoders.aligned_latent_encoder(*args(c), tower_factory=small, num_latent_dims=2, n_frames=c.wave),
         lambda c, k: (tuple(c.array(k, i, (4,) + c.shape) for i in range(2)),))
  module('networks', 'latent decoder', lambda c: decoders.latent_decoder(*args(c), tower_factory=small), image)
  module('networks', 'aligned latent decoder', lambda c: decoders.aligned_latent_decoder(*args(c), tower_factory=small), v1)
  frames = lambda c, k: (tuple(c.array(k, i, (4,) + c.shape) for i in range(2)),)
  for n in ('aligned_array_encoder', 'collocated_to_staggered_encoder', 'slice_last_state_encoder', 'vorticity_encoder', 'vorticity_velocity_encoder', 'spectral_vorticity_encoder'):
    module('networks', n, lambda c, f=getattr(encoders, n): f(*args(c)), frames)
  for n in ('slice_last_n_state_encoder', 'stack_last_n_state_encoder'):
    module('networks', n, lambda c, f=getattr(encoders, n): f(*args(c), n=c.wave), frames)
  module('networks', 'aligned_array_decoder', lambda c: decoders.aligned_array_decoder(*args(c)), v1)
  module('networks', 'staggered_to_collocated_decoder', lambda c: decoders.staggered_to_collocated_decoder(*args(c)), v1)
  module('networks', 'channels_split_decoder', lambda c: decoders.channels_split_decoder(*args(c)), image)
  module('networks', 'vorticity_decoder', lambda c: decoders.vorticity_decoder(*args(c)), lambda c, k: (c.array(k)[..., None],))
  module('networks', 'spectral_vorticity_decoder', lambda c: decoders.spectral_vorticity_decoder(*args(c)), lambda c, k: (jnp.fft.rfftn(c.array(k)),))
  # models
  faces = lambda c: c.grid().cell_faces
  for n in ('linear', 'upwind', 'lax_wendroff'):
    module('models', 'interpolation ' + n, lambda c, f=getattr(interpolations, n): lambda v, s: [f(*args(c), v=v)(s, o, v, c.dt) for o in faces(c)], lambda c, k: (c.velocity('periodic', k), c.scalar('periodic', k)))
  module('models', 'interpolation transformed', lambda c: lambda v, s: [interpolations.transformed(*args(c), v=v)(s, o, v, c.dt) for o in faces(c)], lambda c, k: (c.velocity('periodic', k), c.scalar('periodic', k)))
  sq = lambda f: lambda c, *rest: f(c.square(), *rest)
  def learned(c, patch, fused, anisotropic=False):
    cls = interpolations.anisotropic_learned_interpolation if anisotropic else interpolations.FusedLearnedInterpolation
    def apply(v):
      interp = cls(c.grid(), c.dt, spec(c), v, stencil_size=c.width + 1, tower_factory=small, extract_patch_method=patch, fuse_constraints=fused, fuse_patches=fused)
      return [interp(u, o, v, c.dt) for u in v for o in grids.control_volume_offsets(u)]
    return apply
  for patch, fused, aniso in (('roll', False, False), ('conv', False, True), ('roll', True, False)):
    module('models', f'learned interpolation {patch} {fused}', sq(lambda c, p=patch, z=fused, a=aniso: learned(c, p, z, a)), sq(v1))
  module('models', 'individual interpolation', sq(lambda c: lambda v: interpolations.IndividualLearnedInterpolation(*args(c), v=v, stencil_size=c.width + 1, tower_factory=small)(v[0], v[1].offset, v, c.dt)), sq(v1))
  interp = dict(c_interpolation_module=interpolations.upwind, u_interpolation_module=interpolations.linear)
  module('models', 'modular advection', lambda c: lambda v, s: advections.modular_advection(*args(c), **interp)(s, v, c.dt), lambda c, k: (c.velocity('periodic', k), c.scalar('periodic', k)))
  module('models', 'self advection', lambda c: lambda v: advections.self_advection(*args(c))(v), v1)
  module('models', 'modular self advection', sq(lambda c: lambda v: tuple(advections.modular_self_advection(*args(c), interpolation_module=interpolations.FusedLearnedInterpolation, v=v, tags=('u', 'c'), stencil_size=c.width + 1, tower_factory=small)(u, v, c.dt) for u in v)), sq(v1))
  module('models', 'diffusion', lambda c: lambda v: (diffusions.diffuse(*args(c))(v[0], c.nu), diffusions.solve_fast_diag(*args(c))(v, c.nu, c.dt), diffusions.solve_cg(*args(c))(v, c.nu, c.dt)), v1)
  module('models', 'implicit evm', lambda c: lambda v: diffusions.implicit_evm_solve_with_diffusion(*args(c))(v, c.nu, c.dt), v1)
  module('models', 'pressure', lambda c: lambda v: [pressure.projection(v, solve=f(*args(c))) for f in (pressures.fast_diagonalization, pressures.conjugate_gradient)], v1)
  module('models', 'eddy viscosity', lambda c: viscosities.eddy_viscosity_model(*args(c), viscosity_model=functools.partial(viscosities.smagorinsky_viscosity, cs=c.dt)), v1)
  for n in ('learned_scalar_viscosity', 'learned_scalar_viscosity_from_gradients', 'learned_tensor_viscosity'):
    module('models', n, lambda c, f=getattr(viscosities, n): viscosities.eddy_viscosity_model(*args(c), viscosity_model=functools.partial(f, tower_factory=small)), v1)
  for n, kw in (('kolmogorov_forcing', dict(scale=.7)), ('taylor_green_forcing', dict(scale=.7)), ('linear_forcing', dict(scale=-.2)), ('filtered_linear_forcing', dict(scale=-.2)), ('no_forcing', {})):
    call('models', n)(lambda c, f=getattr(mforcings, n), kw=kw: (lambda g: lambda k: g(c.velocity('periodic', k)))(
        f(c.grid(), **dict(kw, **({'wavenumber': c.wave, 'linear_coefficient': c.nu} if 'wavenumber' in f.__code__.co_varnames or 'kolm' in f.__name__ or 'taylor' in f.__name__ else {})))))
  call('models', 'vorticity forcing')(lambda c: (lambda f: lambda k: f(c.array(k, 0, (6, 6, 1))))(mforcings.vorticity_space_forcing(c.grid((6, 6)), functools.partial(mforcings.kolmogorov_forcing, scale=c.nu, wavenumber=c.wave))))
  for n in ('semi_implicit_navier_stokes', 'implicit_diffusion_navier_stokes'):
    module('models', n, lambda c, f=getattr(mequations, n): mequations.modular_navier_stokes_model(*args(c), equation_solver=f, convection_module=functools.partial(
        advections.self_advection, advection_module=functools.partial(advections.modular_advection, **interp)), pressure_module=pressures.fast_diagonalization), v1)
  module('models', 'learned model', sq(lambda c: mequations.modular_navier_stokes_model(*args(c), equation_solver=mequations.semi_implicit_navier_stokes, convection_module=functools.partial(
      advections.self_advection, advection_module=functools.partial(advections.modular_self_advection, interpolation_module=functools.partial(
          interpolations.FusedLearnedInterpolation, tags=('u', 'c'), stencil_size=c.width + 1, tower_factory=small))), acceleration_modules=(viscosities.eddy_viscosity_model,))), sq(v1))
  for n in ('learned_corrector', 'learned_corrector_v2'):
    module('models', n, lambda c, f=getattr(mequations, n): f(*args(c), lambda g, d, s: lambda v: tuple(u.bc.impose_bc(u.array * c.nu) for u in v), lambda g, d, s: lambda v: tuple(u.bc.impose_bc(u.array ** 2) for u in v)), v1)
  module('models', 'derivative network', lambda c: mequations.time_derivative_network_model(c.grid(), c.dt, spec(c), (lambda g, d, s: small(2, 2),)), image)
  spectral_spec = lambda c: specs_lib.SpectralNavierStokesPhysicsSpecs(None, c.nu, c.dt, c.wave == 2)
  module('models', 'spectral model', lambda c: mequations.modular_spectral_step_fn(c.grid((6, 6)), c.dt, spectral_spec(c), do_filter_step=c.width == 3), lambda c, k: (_hat(c, k, (6, 6)),))
  class Model(model_builder.DynamicalSystem):
    def encode(self, x):
      return x[0][-1]
    def decode(self, x):
      return (x,)
    def advance(self, x):
      return x + self.dt * hk.Linear(x.shape[-1])(x) + self.physics_specs.viscosity
  module('models', 'dynamical system', lambda c: lambda x: model_utils.decoded_trajectory_with_inputs(Model(*args(c)), c.steps)(x, c.steps, c.wave), lambda c, k: ((c.array(k, 0, (5,) + c.shape),),))
  module('models', 'repeated', lambda c: lambda x: model_builder.repeated(lambda y: jnp.sin(y) * c.nu, c.steps)(x), lambda c, k: (c.array(k),))
  module('models', 'integrator', lambda c: lambda x: time_integrators.euler_integrator(lambda s: -c.nu * s, x, c.dt, c.steps), lambda c, k: (c.array(k),))
  pair = lambda c, k: (tuple(c.array(k, i, (3,) + c.shape) for i in range(2)), tuple(c.array(k, i + 7, (3,) + c.shape) for i in range(2)))
  plain('models', 'losses', lambda c, k: (metrics.l2_loss_cumulative(*pair(c, k), c.wave, c.nu), metrics.l2_loss_single_step(*pair(c, k), c.wave - 1, c.nu), metrics.correlation_single_step(*pair(c, k), c.steps - 1)))
  for n in ('local_mean', 'local_sum'):
    call('models', n)(lambda c, f=getattr(metrics, n): (lambda g: lambda k: g(*pair(c, k)))(f(lambda a, b: jnp.sum((a[0] - b[0]) ** 2) * c.nu)))
  def _training(c):
    traj = lambda p, v: (None, tuple(p['a'] * x for x in v))
    step = train_utils.train_step(train_utils.loss_and_gradient(traj, functools.partial(metrics.l2_loss_cumulative, scale=c.nu)), lambda i, g, s: jax.tree_util.tree_map(lambda a, b: a - c.dt * b / (i + 1), s, g), lambda s: s)
    return lambda k: step((k, {'a': jnp.asarray(.5 + c.nu)}), pair(c, k)[0])
  call('models', 'training step')(_training)
  plain('models', 'noise', lambda c, k: train_utils.add_noise_to_input_frame(pair(c, k)[0], jax.random.PRNGKey(c.seed), scale=c.nu))
  def _stream(c, k):
    draws = train_utils.preprocess(iter([pair(c, k + i)[0] for i in range(3)]), iter(jax.random.split(jax.random.PRNGKey(c.seed), 3)), functools.partial(train_utils.add_noise_to_input_frame, scale=c.nu))
    return [next(draws) for _ in range(2)]
  plain('models', 'stream', _stream)
  plain('models', 'streaming mean', lambda c, k: train_utils.streaming_mean((pair(c, k + i)[0] for i in range(c.steps)), lambda b: {'m': jnp.mean(b[0]), 's': jnp.sum(b[1]) * c.nu}))
  plain('models', 'refused batches', lambda c, k: train_utils.streaming_mean(iter([]), lambda b: {'m': c.nu}))


@functools.lru_cache(None)
def data():
  """Datasets, evaluation and images."""
  import xarray  # pylint: disable=g-import-not-at-top
  xarray.Dataset.chunk = lambda self, *args, **kwargs: self  # dask is not installed
  from jax_cfd.data import evaluation, visualization, xarray_utils as xru  # pylint: disable=g-import-not-at-top
  def dataset(c, k, models=False, square=True, size=4):
    shape = (size, size) if square else c.shape
    dims = (('model',) if models else ()) + ('sample', 'time', 'x', 'y')
    size = ((3,) if models else ()) + (2, 4) + shape
    grid = grids.Grid(shape, domain=[(o, o + h * n) for o, h, n in zip(c.origin, (c.step[0],) * 2 if square else c.step, shape)])
    coords = dict(zip(('x', 'y'), grid.axes(grid.cell_center)), time=np.arange(4) * c.dt, sample=np.arange(2))
    if models:
      coords['model'] = ['learned', 'other', 'ground_truth']
    return watch(xarray.Dataset({n: (dims, np.array(c.array(k, i, size))) for i, n in enumerate('uv')}, coords, {'ndim': 2, 'domain_size': 2 * np.pi, 'save_grid_size': 4}))
  def line(c, k, dims=('time', 'sample', 'x', 'model')):
    size = dict(time=4, sample=2, x=8, model=2, kx=5, dx=4)
    coords = dict(time=np.arange(4) * c.dt * 5, sample=np.arange(2), x=(np.arange(8) + .5) * c.step[0], model=['learned', 'ground_truth'])
    return watch(xarray.Dataset({'u': (dims, np.array(c.array(k, 0, tuple(size[d] for d in dims))))}, {d: v for d, v in coords.items() if d in dims}, {'ndim': 1}))
  for n in ('vorticity_2d', 'enstrophy_2d', 'speed', 'kinetic_energy', 'energy_spectrum'):
    plain('data', n, lambda c, k, f=getattr(xru, n): f(dataset(c, k, square=False)))
  plain('data', 'isotropic spectrum', lambda c, k: [xru.isotropic_energy_spectrum(dataset(c, k, size=8)), xru.isotropic_energy_spectrum(dataset(c, k, size=8), ('time', 'sample'))])
  for m in ('binsum', 'interpolation'):
    plain('data', 'isotropize ' + m, lambda c, k, m=m: xru.isotropize(abs(xru.fourier_transform(dataset(c, k, size=8).u)), m))
  plain('data', 'fourier transform', lambda c, k: xru.fourier_transform(dataset(c, k, square=False).u))
  plain('data', 'spatial correlation', lambda c, k: [xru.velocity_spatial_correlation(dataset(c, k, square=False), a) for a in 'xy'])
  plain('data', 'autocorrelation', lambda c, k: (xru.spatial_autocorrelation(dataset(c, k).u, 'y'), evaluation.temporal_autocorrelation(line(c, k))))
  plain('data', 'normalize', lambda c, k: xru.normalize(dataset(c, k).u, ('x', 'y')))
  plain('data', 'construct', lambda c, k: xru.velocity_trajectory_to_xarray(tuple(c.array(k, i, (3,) + c.shape) for i in range(2)), c.grid(), watch(np.arange(3) * c.dt), watch({'a': c.nu})))
  plain('data', 'coordinates', lambda c, k: xarray.Dataset(coords=xru.construct_coords(c.grid(), np.arange(3) * c.dt)))
  plain('data', 'grid of attributes', lambda c, k: xru.grid_from_attrs(watch({'domain_size': c.nu, 'ndim': c.wave, 'save_grid_size': 4 + k})))
  plain('data', 'errors', lambda c, k: evaluation.absolute_error(dataset(c, k, True).u))
  plain('data', 'correlation', lambda c, k: evaluation.state_correlation(dataset(c, k, True).u))
  plain('data', 'quantiles', lambda c, k: evaluation.approximate_quantiles(abs(dataset(c, k)), [c.nu, .9]))
  plain('data', 'average', lambda c, k: evaluation.average(dataset(c, k).u, 2))
  def summary(c, k):
    return evaluation.compute_summary_dataset(dataset(c, k, size=8), dataset(c, k + 1, size=8), (.1, c.nu))
  plain('data', 'summary', summary)
  for n, a, d in (('energy_spectrum_metric', .5, ('sample', 'time', 'kx')), ('u_x_correlation_metric', .3, ('sample', 'time', 'dx')), ('u_t_correlation_metric', .3, ('time', 'sample', 'x', 'model'))):
    call('data', n)(lambda c, f=getattr(evaluation, n), a=a, d=d: (lambda g: lambda k: [g(jnp.asarray(a.u.values), jnp.asarray(b.u.values)) if 'u_t' in f.__name__ else g(a, b)
                                                                                            for a, b in [(abs(line(c, k, d)), abs(line(c, k + 1, d)))]])(f(a * (1 + c.nu))))
  plain('data', 'images', lambda c, k: [np.asarray(i) for i in visualization.trajectory_to_images(watched(c.array(k, 0, (3,) + c.shape)), longest_side=12 * c.width)])
  plain('data', 'facet', lambda c, k: [np.asarray(i) for i in visualization.horizontal_facet([visualization.trajectory_to_images(watched(c.array(k, j, (2,) + c.shape)), longest_side=24) for j in range(2)], c.dt)])
  plain('data', 'resized', lambda c, k: [visualization.resize_image(i, 8 * c.wave).size for i in visualization.trajectory_to_images(watched(c.array(k, 0, (1,) + c.shape)), longest_side=12)])


def load(group):
  """The calls of one group."""
  if group in ('layers', 'networks', 'models'):
    ml()
  elif group == 'data':
    data()
  return GROUPS[group]


class _Tracked(Config):
  """Notes which parameters are read."""
  def __getattribute__(self, name):
    if name in _FIELDS:
      READ.add(name)
    return super().__getattribute__(name)


READ = set()
_FIELDS = {f.name for f in dataclasses.fields(Config)} - {'name'}


def fields_read(make):
  """The parameters one call reads."""
  c = _Tracked('base')
  READ.clear()
  try:
    make(c)(0)
  except Exception:  # pylint: disable=broad-except
    pass
  return sorted(READ)


def relevant(reads, c):
  """Whether configuration c differs from the base in a parameter that is read."""
  return reads is None or c is BASE or any(getattr(c, f) != getattr(BASE, f) for f in reads)
