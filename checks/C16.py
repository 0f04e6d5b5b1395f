"""C16: models assembled from modules are the solvers they are made of.

Encoders and decoders are linear maps and are decided by pushing every unit
impulse of every input frame (or every Fourier mode) through the real modules.
The assembled step models are polynomial of degree two in the state (upwind:
piecewise), so they are compared with the base equations on every impulse and
every pair of impulses, and along histories of repeated steps.
"""
import functools
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd import spectral
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations as base_equations
from jax_cfd.base import forcings as base_forcings
from jax_cfd.base import grids
from jax_cfd.base import interpolation as base_interpolation
from jax_cfd.base import pressure
from jax_cfd.base import subgrid_models
from jax_cfd.ml import advections
from jax_cfd.ml import decoders
from jax_cfd.ml import diffusions
from jax_cfd.ml import encoders
from jax_cfd.ml import equations
from jax_cfd.ml import forcings
from jax_cfd.ml import interpolations
from jax_cfd.ml import model_builder
from jax_cfd.ml import physics_specifications as specs_lib
from jax_cfd.ml import pressures
from jax_cfd.ml import time_integrators
from jax_cfd.ml import viscosities
from mc import lin

PROPERTY = 'C16'
RULE = ('state = (module, configuration, input word or mode, number of steps); transition = one real encode, decode or model step; validated when the '
        'result equals the reference map or the base equations')
BOUNDS = ('encoders: grids up to 4x6 and 3x2x4, trajectories of 1-4 frames, every impulse of every frame, every time axis; steppers: every single '
          'impulse and every pair of impulses on 4x4 (3-d: singles), histories of 3 steps, every listed combination of solver, interpolation, pressure, forcing, density')
ASSUMPTIONS = ['spectral encoders and decoders are used with even grid sizes and fields without Nyquist modes']
DT = .05


def run(build, *xs):
  """Builds a haiku function inside a transform and applies it."""
  f = hk.without_apply_rng(hk.transform(build))
  params = f.init(jax.random.PRNGKey(0), *xs)
  return f.apply(params, *xs)


def grid_of(shape):
  return grids.Grid(shape, domain=tuple((0., n * s) for n, s in zip(shape, (.5, .8, .25))))


def stub_tower(weights):
  """A tower that mixes channels with a fixed matrix and records its sizes."""
  calls = []

  def factory(num_channels, ndim, name=None):
    calls.append((num_channels, ndim))
    return lambda x: x @ jnp.asarray(weights(x.shape[-1], num_channels))
  return factory, calls


def mix(i, o):
  return np.array([[1. + 2 * a - 3 * b + a * b for b in range(o)] for a in range(i)]).reshape(i, o)


def average(grid, offset_from, offset_to):
  """Matrix of periodic linear interpolation between half-integer offsets."""
  n = int(np.prod(grid.shape))
  m = np.eye(n).reshape(grid.shape + (n,))
  for ax, (a, b) in enumerate(zip(offset_from, offset_to)):
    if b == a + .5:
      m = .5 * (m + np.roll(m, -1, ax))
    elif b == a - .5:
      m = .5 * (m + np.roll(m, 1, ax))
  return m.reshape(n, n)


class Combo:
  def __init__(self, offsets, bcs):
    self._o, self._b = offsets, bcs

  def combo_offsets(self):
    return self._o

  def combo_boundaries(self):
    return self._b


def unit_aligned(rec, shape, frames):
  """Encoders and decoders of aligned data."""
  grid = grid_of(shape)
  ndim = len(shape)
  n = int(np.prod(shape))
  k = 3
  base = specs_lib.BasePhysicsSpecs(None)
  offs = [(.5,) * ndim, (0.,) * ndim, (1.,) + (.5,) * (ndim - 1)]
  dirichlet = boundaries.dirichlet_boundary_conditions(ndim)
  periodic = boundaries.periodic_boundary_conditions(ndim)
  cases = [('default', base, None, grid.cell_faces, (periodic,) * ndim), ('offsets', base, tuple(offs), offs, (periodic,) * k),
           ('combo', Combo(tuple(offs[:2]), (boundaries.neumann_boundary_conditions(ndim), periodic)), None, offs[:2], (boundaries.neumann_boundary_conditions(ndim), periodic)),
           ('combo walls', Combo((offs[0], offs[2]), (dirichlet, dirichlet)), offs, (offs[0], offs[2]), (dirichlet, dirichlet))]
  for name, spec, data_offsets, want_offs, want_bc in cases:
    encode = encoders.aligned_array_encoder(grid, DT, spec, data_offsets)
    decode = decoders.aligned_array_decoder(grid, DT, spec)
    count = len(want_offs)
    for t in range(frames):
      for c in range(count):
        key = f'aligned {name} {shape} frames={frames} impulse in frame {t} component {c}'
        rec.state(key)
        rec.step(2 * n)
        eye = np.zeros((n, count, frames) + shape)
        eye[:, c, t] = np.eye(n).reshape((n,) + shape)
        meta = {}

        def fn(x):
          s = encode(tuple(x))
          meta['s'] = [(u.offset, u.grid, u.bc) for u in s]
          return tuple(u.data for u in s), decode(s), decoders.identity_decoder(grid, DT, spec)(s)
        done, out = rec.attempt(lambda: jax.vmap(fn)(jnp.asarray(eye)), key, 'encode')
        if not done:
          continue
        state, back, same = out
        ok = rec.expect(meta['s'] == list(zip(map(tuple, want_offs), [grid] * count, want_bc)), key, f"metadata {meta['s']}")
        for j in range(count):
          want = (np.eye(n) if (j == c and t == frames - 1) else np.zeros((n, n))).reshape((n,) + shape).copy()
          if name == 'combo walls' and j == 1:
            want[:, -1] = 0  # data on the wall takes the wall value
          ok &= rec.close(np.asarray(state[j]), want, key, f'state component {j}', rtol=0)
          ok &= rec.close(np.asarray(back[j]), want, key, f'decoded component {j}', rtol=0)
          ok &= rec.close(np.asarray(same[j].data), want, key, 'identity decoder', rtol=0)
        rec.trace(bool(ok))
        rec.outcome(np.asarray(state[c]))
  # collocated data
  enc = encoders.collocated_to_staggered_encoder(grid, DT, base)
  dec = decoders.staggered_to_collocated_decoder(grid, DT, base)
  for c in range(ndim):
    key = f'collocated {shape} component {c}'
    eye = np.zeros((n, ndim, frames) + shape)
    eye[:, c, -1] = np.eye(n).reshape((n,) + shape)
    meta = {}

    def fn2(x):
      s = enc(tuple(x))
      meta['s'] = [(u.offset, u.grid, u.bc) for u in s]
      return tuple(u.data for u in s), dec(s)
    rec.state(key)
    rec.step(2 * n)
    s, d = jax.vmap(fn2)(jnp.asarray(eye))
    to = average(grid, grid.cell_center, grid.cell_faces[c])
    back = average(grid, grid.cell_faces[c], grid.cell_center)
    ok = rec.expect(meta['s'] == [(o, grid, periodic) for o in grid.cell_faces], key, 'metadata')
    for j in range(ndim):
      ok &= rec.close(np.asarray(s[j]).reshape(n, n), to.T * (j == c), key, f'staggered component {j}')
      ok &= rec.close(np.asarray(d[j]).reshape(n, n), (back @ to).T * (j == c), key, f'collocated component {j}')
    rec.trace(bool(ok))
    rec.outcome(np.asarray(s[c]))


def unit_slices(rec):
  """Encoders that slice and stack the last frames along any time axis."""
  grid = grid_of((4, 6))
  spec = specs_lib.BasePhysicsSpecs(None)
  for frames in (1, 2, 3, 4):
    for axis in (0, 1, 2, -1, -3):
      shape = [4, 6]
      shape.insert(axis % 3, frames)
      xs = tuple(lin.generic(tuple(shape), i) for i in range(2))
      for tree, what in ((xs, 'tuple'), ({'a': xs[0], 'b': (xs[1],)}, 'dict'), ((xs[0],), 'single')):
        key = f'slice last frames={frames} axis={axis} {what}'
        rec.state(key)
        rec.step()
        done, out = rec.attempt(lambda: encoders.slice_last_state_encoder(grid, DT, spec, axis)(tree), key, 'encode')
        if done:
          rec.trace(all([rec.close(np.asarray(a), np.take(b, -1, axis), key, 'last frame', rtol=0) for a, b in zip(jax.tree.leaves(out), jax.tree.leaves(tree))]))
        for n in range(1, frames + 1):
          key = f'last n={n} of {frames} axis={axis} {what}'
          rec.state(key)
          rec.step(2)
          moved = [np.moveaxis(b, axis, -1)[..., -n:] for b in jax.tree.leaves(tree)]
          done, out = rec.attempt(lambda: encoders.slice_last_n_state_encoder(grid, DT, spec, n, axis)(tree), key, 'slice')
          ok = done and rec.expect(jax.tree.structure(out) == jax.tree.structure(tree), key, 'structure')
          if ok:
            ok = all([rec.close(np.asarray(a), b, key, 'last n frames', rtol=0) for a, b in zip(jax.tree.leaves(out), moved)])
          done, out = rec.attempt(lambda: encoders.stack_last_n_state_encoder(grid, DT, spec, n, axis)(tree), key, 'stack')
          if done:
            ok &= rec.close(np.asarray(out), np.concatenate(moved, -1), key, 'stacked frames', rtol=0)
          rec.trace(bool(ok and done))
          if n == frames:
            rec.outcome(np.concatenate(moved, -1))
          if axis == 0 and what == 'tuple':
            for latent in (1, 2, 3):
              key = f'latent n={n} of {frames} dims={latent}'
              rec.state(key)
              stacked = np.concatenate(moved, -1)
              want = stacked @ mix(2 * n, latent)
              tower, calls = stub_tower(mix)
              got = run(lambda x: encoders.latent_encoder(grid, DT, spec, tower, latent, n)(x), tree)
              ok = rec.close(np.asarray(got), want, key, 'latent') & rec.expect(set(calls) == {(latent, 2)}, key, f'tower built as {calls}')
              for offs in (None, ((0., 0.), (.5, .5), (1., 0.))):
                got = run(lambda x: encoders.aligned_latent_encoder(grid, DT, spec, tower, latent, n, data_offsets=offs)(x), tree)
                use = offs or grid.cell_faces
                ok &= rec.expect(len(got) == min(latent, len(use)), key, 'number of variables')
                for i, g in enumerate(got):
                  ok &= rec.expect(g.offset == use[i] and g.grid == grid and g.bc == boundaries.periodic_boundary_conditions(2), key, 'metadata')
                  ok &= rec.close(np.asarray(g.data), want[..., i], key, 'aligned latent')
              rec.trace(bool(ok))
  # decoders
  for ch in (1, 2, 3):
    x = lin.generic((4, 6, ch))
    key = f'channels {ch}'
    rec.state(key)
    out = decoders.channels_split_decoder(grid, DT, spec)(jnp.asarray(x))
    ok = rec.expect(isinstance(out, tuple) and len(out) == ch, key, 'number of components')
    ok &= all([rec.close(np.asarray(o), x[..., i], key, 'component', rtol=0) for i, o in enumerate(out)])
    for comps in (None, 1, 3):
      tower, calls = stub_tower(mix)
      want = x @ mix(ch, comps or 2)
      out = run(lambda z: decoders.latent_decoder(grid, DT, spec, tower, comps)(z), jnp.asarray(x))
      ok &= rec.expect(len(out) == (comps or 2) and set(calls) == {(comps or 2, 2)}, key, f'latent decoder sizes {calls}')
      ok &= all([rec.close(np.asarray(o), want[..., i], key, 'latent decoder') for i, o in enumerate(out)])
      vs = tuple(grids.GridArray(jnp.asarray(x[..., i]), (.5, .5), grid) for i in range(ch))
      out = run(lambda z: decoders.aligned_latent_decoder(grid, DT, spec, tower, comps)(z), vs)
      ok &= rec.expect(len(out) == (comps or 2), key, 'aligned latent decoder sizes')
      ok &= all([rec.close(np.asarray(o), want[..., i], key, 'aligned latent decoder') for i, o in enumerate(out)])
    rec.trace(bool(ok))


def unit_vorticity(rec, shape, domain):
  """Velocity <-> vorticity: every mode below the Nyquist frequency."""
  grid = grids.Grid(shape, domain=domain)
  spec = specs_lib.BasePhysicsSpecs(None)
  x, y = grid.mesh((0., 0.))
  lx, ly = (b - a for a, b in domain)
  us, vs, ws, keys = [], [], [], []
  for kx in range(-(shape[0] // 2) + 1, shape[0] // 2):
    for ky in range(0, shape[1] // 2):
      if (kx, ky) == (0, 0) or (ky == 0 and kx < 0):
        continue
      for ph in (0., .7):
        a, b = 2 * np.pi * kx / lx, 2 * np.pi * ky / ly
        arg = a * x + b * y + ph
        # stream function cos(arg); u = dpsi/dy, v = -dpsi/dx
        us.append(-b * np.sin(arg))
        vs.append(a * np.sin(arg))
        ws.append((a * a + b * b) * np.cos(arg))
        keys.append((kx, ky, ph))
  us, vs, ws = map(np.array, (us, vs, ws))
  mean = np.array([(i % 3 - 1.) for i in range(len(us))])[:, None, None]
  mods = {n: (getattr(encoders, n)(grid, DT, spec), d and getattr(decoders, d)(grid, DT, spec)) for n, d in
          (('vorticity_encoder', 'vorticity_decoder'), ('spectral_vorticity_encoder', 'spectral_vorticity_decoder'), ('vorticity_velocity_encoder', None))}
  for frames in (1, 3):
    stack = lambda u: np.concatenate([np.broadcast_to(lin.generic(shape), (len(u), frames - 1) + shape), u[:, None]], 1)
    traj = (jnp.asarray(stack(us + mean)), jnp.asarray(stack(vs - 2 * mean)))
    for name, (enc, dec) in mods.items():
      def fn(u, v):
        s = enc((u, v))
        return s, dec(s) if dec else ()
      s, back = jax.vmap(fn)(*traj)
      rec.step(2 * len(us))
      s = np.asarray(s)
      if name == 'spectral_vorticity_encoder':
        real, want = np.fft.irfft2(s), ws
      elif name == 'vorticity_encoder':
        real, want = s, ws[..., None]
      else:
        real, want = s, np.stack([us + mean, vs - 2 * mean, ws], -1)
      for i, k in enumerate(keys):
        key = f'{name} {shape} {domain} frames={frames} mode={k}'
        rec.state(key)
        ok = rec.close(real[i], want[i], key, 'vorticity', atol=1e-9, rtol=1e-10)
        if dec:
          ok &= rec.expect(len(back) == 2, key, 'two components')
          # the mean flow is not seen by the vorticity
          ok &= rec.close(np.asarray(back[0])[i], us[i], key, 'u', atol=1e-9, rtol=1e-10) & rec.close(np.asarray(back[1])[i], vs[i], key, 'v', atol=1e-9, rtol=1e-10)
        rec.trace(bool(ok))
        if frames == 1:
          rec.outcome(np.round(real[i], 6))


INTERPS = {
    'linear': (interpolations.linear, lambda dt: lambda c, v, _: advection.advect_general(c, v, base_interpolation.linear, base_interpolation.linear, dt)),
    'upwind': (interpolations.upwind, lambda dt: lambda c, v, _: advection.advect_upwind(c, v, dt)),
    'lax_wendroff': (interpolations.lax_wendroff, lambda dt: lambda c, v, _: advection.advect_general(c, v, base_interpolation.linear, base_interpolation.lax_wendroff, dt)),
    'van_leer': (interpolations.transformed, lambda dt: lambda c, v, _: advection.advect_general(
        c, v, base_interpolation.linear, base_interpolation.apply_tvd_limiter(base_interpolation.lax_wendroff, base_interpolation.van_leer_limiter), dt)),
}
FORCINGS = {
    'none': (forcings.no_forcing, lambda g: None),
    'kolmogorov': (functools.partial(forcings.kolmogorov_forcing, scale=.7, wavenumber=1, linear_coefficient=-.3),
                   lambda g: base_forcings.simple_turbulence_forcing(g, .7, 1, -.3)),
    'linear': (functools.partial(forcings.linear_forcing, scale=.4), lambda g: lambda v: tuple(.4 * u.array for u in v)),
    'filtered': (functools.partial(forcings.filtered_linear_forcing, scale=.4, lower_wavenumber=0, upper_wavenumber=2), lambda g: base_forcings.filtered_linear_forcing(0, 2, .4, g)),
}
PRESSURES = {'fd': (pressures.fast_diagonalization, pressure.solve_fast_diag), 'cg': (pressures.conjugate_gradient, functools.partial(pressure.solve_cg, atol=1e-5, maxiter=32))}


def input_words(shape, ndim, pairs):
  """All single impulses of all components, and all (or neighbouring) pairs."""
  n = ndim * int(np.prod(shape))
  out = [np.zeros(n)]
  for i in range(n):
    x = np.zeros(n)
    x[i] = 1.
    out.append(x)
  if pairs:
    for i, j in itertools.combinations(range(n), 2):
      x = np.zeros(n)
      x[i], x[j] = 1., -.5
      out.append(x)
  out.append(np.concatenate([lin.generic(shape, k).ravel() for k in range(ndim)]))
  return np.array(out).reshape((-1, ndim) + shape)


def unit_stepper(rec, shape, solver, interp, forcing, press, density, pairs, evm=False):
  ndim = len(shape)
  grid = grid_of(shape)
  nu = .03
  spec = specs_lib.NavierStokesPhysicsSpecs(FORCINGS[forcing][0], density, nu)
  bc = boundaries.periodic_boundary_conditions(ndim)
  make = {'semi': equations.semi_implicit_navier_stokes, 'implicit': equations.implicit_diffusion_navier_stokes,
          'implicit_cg': functools.partial(equations.implicit_diffusion_navier_stokes, diffusion_module=diffusions.solve_cg),
          'implicit_evm': functools.partial(equations.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
              diffusions.implicit_evm_solve_with_diffusion, atol=1e-5, maxiter=64))}[solver]
  # accelerations of one's own: proportional to the velocity, and of each component's own size
  pull = lambda v: tuple(-.2 * u.array for u in v)
  shove = lambda v: tuple(grids.GridArray((i + 1.) * jnp.ones_like(u.data), u.offset, u.grid) for i, u in enumerate(v))
  drag = lambda grid, dt, specs, v=None, **kw: pull
  push = lambda grid, dt, specs, v=None, **kw: shove
  advance = functools.partial(
      equations.modular_navier_stokes_model, equation_solver=make,
      convection_module=functools.partial(advections.self_advection, advection_module=functools.partial(
          advections.modular_advection, c_interpolation_module=INTERPS[interp][0])),
      pressure_module=PRESSURES[press][0],
      acceleration_modules=((viscosities.eddy_viscosity_model,) if evm else ()) + ((push, drag) if evm == 'several' else ()))
  conv = INTERPS[interp][1](DT)
  convect = lambda v: tuple(conv(u, v, DT) for u in v)
  force = FORCINGS[forcing][1](grid)
  if evm:
    evm_fn = functools.partial(subgrid_models.evm_model, viscosity_fn=functools.partial(subgrid_models.smagorinsky_viscosity, dt=DT, cs=.2))
    # an acceleration: the equations divide only forces by the density
    evm_force = lambda v: tuple(density * a for a in evm_fn(v))
    if evm == 'several':
      evm_force = lambda v: tuple(density * (a + b + c) for a, b, c in zip(evm_fn(v), pull(v), shove(v)))
    force = evm_force if force is None else base_forcings.sum_forcings(force, evm_force)
  args = dict(density=density, viscosity=nu, dt=DT, grid=grid, convect=convect, pressure_solve=PRESSURES[press][1], forcing=force)
  if solver == 'semi':
    want_step = base_equations.semi_implicit_navier_stokes(**args)
  else:
    ds = {'implicit': diffusion.solve_fast_diag, 'implicit_cg': functools.partial(diffusion.solve_cg, atol=1e-5, rtol=1e-5, maxiter=64),
          'implicit_evm': functools.partial(subgrid_models.implicit_evm_solve_with_diffusion, configured_evm_model=functools.partial(
              subgrid_models.evm_model, viscosity_fn=functools.partial(subgrid_models.smagorinsky_viscosity, dt=DT, cs=.2)), cg_kwargs=dict(atol=1e-5, maxiter=64))}[solver]
    want_step = base_equations.implicit_diffusion_navier_stokes(diffusion_solve=ds, **args)

  def model(x):
    m = model_builder.ModularStepModel(grid, DT, spec, advance_module=advance, encoder_module=encoders.aligned_array_encoder, decoder_module=decoders.aligned_array_decoder)
    s = m.encode(tuple(jnp.stack([0 * c + 3., c]) for c in x))
    out = [s]
    for _ in range(3):
      out.append(m.advance(out[-1]))
    final, traj = m.trajectory(s, 3, post_process_fn=m.decode)
    final2, _ = m.trajectory(s, 1, 3)
    return [m.decode(o) for o in out], traj, m.decode(final), m.decode(final2), [o for o in out[1:]]
  f = hk.without_apply_rng(hk.transform(model))
  words = input_words(shape, ndim, pairs)
  key0 = f'{solver} {interp} {forcing} {press} density={density} evm={evm} {shape}'
  done, params = rec.attempt(lambda: f.init(None, jnp.asarray(words[0])), key0, 'building')
  if not done:
    return
  rec.expect(not jax.tree.leaves(params), key0, 'a model without learned parts has parameters')
  batch = jnp.asarray(words)
  done, got = rec.attempt(lambda: jax.jit(jax.vmap(lambda x: f.apply(params, x)))(batch), key0, 'stepping')
  if not done:
    return
  states, traj, final, final2, raw = got

  def reference(x):
    s = tuple(grids.GridVariable(grids.GridArray(c, o, grid), bc) for c, o in zip(x, grid.cell_faces))
    out = [s]
    for _ in range(3):
      out.append(want_step(out[-1]))
    return [tuple(u.data for u in o) for o in out]
  want = jax.jit(jax.vmap(reference))(batch)
  for k in range(4):
    rec.step(len(words))
    for c in range(ndim):
      g, w = np.asarray(states[k][c]), np.asarray(want[k][c])
      bad = np.flatnonzero(~(np.abs(g - w).reshape(len(words), -1).max(1) <= 1e-9))
      if len(bad):
        rec.fail(f'{key0} steps={k} component {c} word {bad[0]}', f'{len(bad)} of {len(words)} words differ; first by {np.abs(g[bad[0]] - w[bad[0]]).max()}')
        return
      rec.outcome(np.round(g[len(words) // 2], 8))
      if k:
        rec.close(np.asarray(traj[c])[:, k - 1], w, key0, f'trajectory frame {k}', atol=1e-9)
        o = raw[k - 1][c]
        rec.expect(o.offset == grid.cell_faces[c] and o.grid == grid and o.bc == bc, key0, 'metadata of the stepped state')
  for c in range(ndim):
    rec.close(np.asarray(final[c]), np.asarray(want[3][c]), key0, 'final state', atol=1e-9)
    rec.close(np.asarray(final2[c]), np.asarray(want[3][c]), key0, 'inner steps', atol=1e-9)
  for i in range(len(words)):
    rec.state(key0, i)
  rec.trace(len(words))
  # anything but grid variables is refused
  rec.raises(lambda: run(lambda x: advance(grid, DT, spec)(tuple(x)), jnp.asarray(words[1])), key0 + ' raw', 'raw arrays as state', (ValueError,))


def unit_spectral(rec, shape):
  """The spectral step module is the spectral solver, filtered on request."""
  grid = grids.Grid(shape, domain=((0., 2 * np.pi), (0., 2 * np.pi)))
  words = input_words(shape, 1, True)[:, 0]
  words -= words.mean((1, 2), keepdims=True)
  hats = jnp.fft.rfft2(jnp.asarray(words))
  for drag, smooth, fm in itertools.product((0., .1), (True, False), (None, forcings.spectral_kolmogorov_forcing)):
    spec = specs_lib.SpectralNavierStokesPhysicsSpecs(fm, .02, drag, smooth)
    eq = spectral.equations.NavierStokes2D(.02, grid, drag=drag, smooth=smooth, forcing_fn=fm)
    for sname in ('crank_nicolson_rk4', 'crank_nicolson_rk2'):
      stepper = getattr(spectral.time_stepping, sname)
      base = stepper(eq, DT)
      for filt in (False, True):
        key = f'spectral {shape} drag={drag} smooth={smooth} forced={fm is not None} {sname} filter={filt}'
        mod = lambda x: equations.modular_spectral_step_fn(grid, DT, spec, do_filter_step=filt, time_stepper=stepper)(x)
        f = hk.without_apply_rng(hk.transform(mod))
        f.init(None, hats[0])
        got = np.asarray(jax.jit(jax.vmap(lambda h: f.apply({}, h)))(hats))

        def ref(h):
          out = base(h)
          if filt:
            kx, ky = grid.rfft_mesh()
            # exponential filter of the full spectrum, order 2, alpha 1e-6
            out = jnp.fft.rfft2(spectral.utils.exponential_filter(jnp.fft.irfft2(out)))
          return out
        want = np.asarray(jax.jit(jax.vmap(ref))(hats))
        rec.step(len(hats))
        ok = rec.close(got, want, key, 'spectral step', atol=1e-10)
        for i in range(len(hats)):
          rec.state(key, i)
        if ok:
          rec.trace(len(hats))
        rec.outcome(np.round(got[3], 8))


def unit_correctors(rec):
  """Correctors, integrators and the derivative model: exact compositions."""
  grid = grid_of((3, 2))
  spec = specs_lib.BasePhysicsSpecs(lambda g: lambda v: tuple((i + 1.) * u.array for i, u in enumerate(v)))
  bc = boundaries.periodic_boundary_conditions(2)
  variable = lambda x: tuple(grids.GridVariable(grids.GridArray(jnp.asarray(c), o, grid), bc) for c, o in zip(x, grid.cell_faces))
  solver_of = {'affine': lambda s: jax.tree.map(lambda x: 2 * x - 1, s), 'square': lambda s: jax.tree.map(lambda x: x * x, s), 'roll': lambda s: jax.tree.map(lambda x: jnp.roll(x, 1, 0), s)}
  corr_of = {'zero': lambda s: jax.tree.map(jnp.zeros_like, s[:2]), 'scale': lambda s: jax.tree.map(lambda x: 3 * x, s[:2]), 'cube': lambda s: jax.tree.map(lambda x: x ** 3, s[:2]),
             'last': lambda s: jax.tree.map(lambda x: x + 1, s[-2:])}
  for (sn, solve), (cn, corr) in itertools.product(solver_of.items(), corr_of.items()):
    for dt in (.1, 2.):
      for w in itertools.product((0., 1., -.5), repeat=2):
        s = variable([np.full((3, 2), w[0]) + np.arange(6).reshape(3, 2) / 8, np.full((3, 2), w[1])])
        seen = []

        def base_module(g, d, p):
          seen.append(('solver', g == grid, d, p is spec))
          return solve

        def corr_module(g, d, p):
          seen.append(('corrector', g == grid, d, p is spec))
          return corr
        nxt = solve(s)
        wants = {'learned_corrector': jax.tree.map(lambda a, b: a + b, nxt, corr(nxt)),
                 'learned_corrector_v2': jax.tree.map(lambda a, b: a + dt * b, nxt, corr(s)),
                 'learned_corrector_v3': jax.tree.map(lambda a, b: a + dt * b, nxt, corr(tuple(s) + tuple(nxt)))}
        for name, want in wants.items():
          key = f'{name} {sn} {cn} dt={dt} {w}'
          rec.state(key)
          rec.step()
          seen.clear()
          got = run(lambda x: getattr(equations, name)(grid, dt, spec, base_module, corr_module)(x), s)
          ok = rec.expect(jax.tree.structure(got) == jax.tree.structure(want), key, 'structure')
          ok = ok and all([rec.close(np.asarray(a), np.asarray(b), key, 'state') for a, b in zip(jax.tree.leaves(got), jax.tree.leaves(want))])
          ok &= rec.expect(set(seen) == {('solver', True, dt, True), ('corrector', True, dt, True)}, key, f'modules built with {seen}')
          rec.trace(bool(ok))
          rec.outcome([np.asarray(x) for x in jax.tree.leaves(got)])
        got = equations.identity_model(grid, dt, spec)(s)
        rec.expect(got is s, 'identity', 'identity model')
  for steps in range(0, 5):
    for dt in (.1, 1.):
      for name, deriv in (('linear', lambda s: jax.tree.map(lambda x: -x, s)), ('quadratic', lambda s: jax.tree.map(lambda x: x * x, s)), ('constant', lambda s: jax.tree.map(jnp.ones_like, s))):
        s = variable(lin.generic((2, 3, 2)))
        key = f'euler {name} dt={dt} steps={steps}'
        rec.state(key)
        final, traj = run(lambda x: time_integrators.euler_integrator(deriv, x, dt, steps), s)
        x, want = s, []
        for _ in range(steps):
          x = jax.tree.map(lambda a, b: a + dt * b, x, deriv(x))
          want.append(x)
        ok = all([rec.close(np.asarray(a), np.asarray(b), key, 'final') for a, b in zip(jax.tree.leaves(final), jax.tree.leaves(x))])
        for i, wi in enumerate(want):
          ok &= all([rec.close(np.asarray(a)[i], np.asarray(b), key, f'frame {i}') for a, b in zip(jax.tree.leaves(traj), jax.tree.leaves(wi))])
        ok &= rec.expect(all(a.shape[0] == steps for a in jax.tree.leaves(traj)), key, 'number of frames')
        rec.trace(bool(ok))
  for mods in itertools.chain.from_iterable(itertools.product((0, 1, 2), repeat=k) for k in (1, 2, 3)):
    fns = [lambda x: x, lambda x: 2 * x + 1, lambda x: x * x]
    for dt in (.1, .5):
      key = f'derivative model modules={mods} dt={dt}'
      rec.state(key)
      rec.step()
      x = jnp.asarray(np.moveaxis(lin.generic((2, 3, 2)), 0, -1))
      got = run(lambda z: equations.time_derivative_network_model(grid, dt, spec, tuple((lambda g, d, p, m=m: fns[m]) for m in mods))(z), x)
      y = x
      for m in mods:
        y = fns[m](y)
      rec.trace(rec.close(np.asarray(got), np.asarray(x + dt * (y + x * jnp.asarray([1., 2.]))), key, 'step'))


def units(tier):
  th = tier == 'thorough'
  out = []
  for shape, frames in (((4, 6), 1), ((4, 6), 3), ((3, 2, 4), 2), ((3, 5), 2)):
    out.append((f'aligned-{shape}-{frames}', unit_aligned, dict(shape=shape, frames=frames)))
  out.append(('slices', unit_slices, {}))
  pi2 = (0., 2 * np.pi)
  for shape, dom in (((8, 8), (pi2, pi2)), ((6, 8), (pi2, (0., 1.))), ((8, 4), ((-1., 2.), (0., 3.)))):
    out.append((f'vorticity-{shape}', unit_vorticity, dict(shape=shape, domain=dom)))
  combos = [('semi', 'linear', 'none', 'fd', 1.), ('semi', 'upwind', 'kolmogorov', 'fd', 2.), ('implicit', 'linear', 'kolmogorov', 'fd', 2.), ('implicit', 'van_leer', 'linear', 'fd', 1.),
            ('implicit_cg', 'upwind', 'filtered', 'cg', .5), ('semi', 'lax_wendroff', 'linear', 'cg', 2.), ('semi', 'van_leer', 'filtered', 'fd', .5), ('implicit', 'upwind', 'none', 'cg', 1.)]
  if th:
    combos = sorted(set(combos) | set((s, i, f, p, d) for s in ('semi', 'implicit', 'implicit_cg') for i in INTERPS for f in FORCINGS for p in PRESSURES for d in (1., 2.)))
  for c in combos:
    out.append((f'stepper-{c}', unit_stepper, dict(shape=(4, 4), solver=c[0], interp=c[1], forcing=c[2], press=c[3], density=c[4], pairs=True)))
  out.append(('stepper-evm', unit_stepper, dict(shape=(4, 4), solver='semi', interp='linear', forcing='linear', press='fd', density=1., pairs=True, evm=True)))
  out.append(('stepper-evm-dense', unit_stepper, dict(shape=(4, 4), solver='semi', interp='linear', forcing='linear', press='fd', density=2., pairs=False, evm=True)))
  out.append(('stepper-several', unit_stepper, dict(shape=(4, 4), solver='semi', interp='linear', forcing='linear', press='fd', density=2., pairs=False, evm='several')))
  out.append(('stepper-implicit-evm', unit_stepper, dict(shape=(4, 4), solver='implicit_evm', interp='linear', forcing='none', press='fd', density=1., pairs=False)))
  out.append(('stepper-3d', unit_stepper, dict(shape=(3, 4, 2), solver='implicit', interp='upwind', forcing='kolmogorov', press='fd', density=2., pairs=th)))
  out.append(('stepper-3d-semi', unit_stepper, dict(shape=(2, 3, 4), solver='semi', interp='van_leer', forcing='linear', press='fd', density=1., pairs=th)))
  out.append(('spectral', unit_spectral, dict(shape=(8, 8) if th else (4, 4))))
  out.append(('correctors', unit_correctors, {}))
  return out
