"""C09: a Navier-Stokes step is its Runge-Kutta stages, projected every time.

Part one explores every explicit tableau over a coefficient alphabet with an
instrumented ODE and monitors the call sequence.  Part two compares complete
steps of the assembled solvers (convection, diffusion, forcing, projection,
implicit diffusion; staggered and collocated; walls) with a dense model.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import pressure
from jax_cfd.base import time_stepping as ts
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import equations as cequations
from jax_cfd.collocated import pressure as cpressure

from checks.C03 import reference_projection
from checks.C06 import advect_ref
from checks.C06 import variable
from checks.C08 import solve_ref
from mc import lin
from mc import ref_fv

PROPERTY = 'C09'
P, D, N = ref_fv.P, ref_fv.D, ref_fv.N
RULE = ('all explicit tableaus with up to 3 stages over a coefficient alphabet, '
        'each executed with a monitor on the calls of the terms and of the '
        'projection; all combinations of terms x schemes x steppers x velocity '
        'histories against a dense model of the step')
BOUNDS = 'tableaus up to 3 stages (and the named 4-stage one); grids up to 12 cells; up to 3 consecutive steps'
ASSUMPTIONS = ['float64, tolerance 1e-8']
STEPS = (0.5, 0.8, 0.25)


class Monitor:
  """Records the interleaving of explicit terms and projections."""

  def __init__(self):
    self.log = []

  def terms(self, u):
    self.log.append(('F', np.array(u['a']), np.array(u['b'][0])))
    return dict(a=u['a'] ** 2 - u['b'][0], b=(3 * u['a'] + 0.5 * u['b'][0],))

  def project(self, u):
    self.log.append(('P', np.array(u['a']), np.array(u['b'][0])))
    m = (u['a'] + u['b'][0]) / 2 + 0.25
    return dict(a=m, b=(m,))


def rk_reference(a, b, dt, u0):
  """Independent evaluation of the scheme; returns (result, call log)."""
  log = []

  def terms(x, y):
    log.append(('F', x, y))
    return np.array([x ** 2 - y, 3 * x + .5 * y])

  def project(z):
    log.append(('P', z[0], z[1]))
    return np.full(2, z.mean() + .25)
  u = np.array(u0, float)
  ks = [terms(*u)]
  for row in a:
    z = u.copy()
    for w, k in zip(row, ks):
      z = z + dt * w * k
    ks.append(terms(*project(z)))
  z = u.copy()
  for w, k in zip(b, ks):
    z = z + dt * w * k
  return project(z), log


def run_tableau(rec, key, make, a, b, states=((1., 2.), (-.5, .25)), dts=(0.5, -.25)):
  for u0 in states:
    for dt in dts:
      mon = Monitor()
      ode = ts.ExplicitNavierStokesODE(mon.terms, mon.project)
      kk = f'{key} u0={u0} dt={dt}'
      done, out = rec.attempt(lambda: make(ode, dt)(dict(a=jnp.float64(u0[0]), b=(jnp.float64(u0[1]),))), kk, 'step')
      if not done:
        continue
      want, log = rk_reference(a, b, dt, u0)
      rec.step(len(log))
      got = np.array([out['a'], out['b'][0]])
      good = rec.close(got, want, kk, 'state after one step')
      calls = ''.join(c for c, _, _ in mon.log)
      ref = ''.join(c for c, _, _ in log)
      good &= rec.expect(calls.endswith('P'), kk, 'the step does not end with a projection')
      good &= rec.expect(calls.count('P') >= 1 and all(
          x == 'P' for x, y in zip(calls, calls[1:]) if y == 'F'), kk,
          f'terms evaluated on an unprojected stage: {calls} (expected {ref})')
      # every state the explicit terms see is one of the reference stages
      seen = [v for c, *v in mon.log if c == 'F']
      allowed = np.array([v for c, *v in log if c == 'F'])
      for s in seen:
        good &= rec.expect(np.abs(allowed - np.array(s)).max(1).min() < 1e-9, kk,
                           f'explicit terms evaluated at {s}, not a stage of the scheme')
      rec.outcome(got)
      if good:
        rec.trace()


def unit_tableaus(rec, stages, alphabet, part=0, parts=1):
  na = stages * (stages - 1) // 2
  for i, w in enumerate(itertools.product(alphabet, repeat=na + stages)):
    if i % parts != part:
      continue
    a, k = [], 0
    for s in range(1, stages):
      a.append(list(w[k:k + s]))
      k += s
    b = list(w[k:])
    rec.state(w)
    run_tableau(rec, f'tableau a={a} b={b}',
                lambda ode, dt: ts.navier_stokes_rk(ts.ButcherTableau(a=a, b=b), ode, dt), a, b,
                states=((1., 2.),), dts=(0.5,))
  rec.sample(dict(a=a, b=b))


NAMED = {
    'forward_euler': ([], [1.]),
    'midpoint_rk2': ([[.5]], [0., 1.]),
    'heun_rk2': ([[1.]], [.5, .5]),
    'classic_rk4': ([[.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}
ORDER = {'forward_euler': 1, 'midpoint_rk2': 2, 'heun_rk2': 2, 'classic_rk4': 4}


def unit_named(rec):
  for name, (a, b) in NAMED.items():
    rec.state(name)
    run_tableau(rec, name, getattr(ts, name), a, b, states=tuple(itertools.product((-1., 0., .5, 2.), repeat=2)),
                dts=(0., .1, .5, 1.))
    # linear problem: the stability polynomial is the truncated exponential
    for z in (-2., -1., -.5, 0., .25, 1., 2.):
      ode = ts.ExplicitNavierStokesODE(lambda u: z * u, lambda u: u)
      got = float(getattr(ts, name)(ode, 1.0)(jnp.float64(1.)))
      want = sum(z ** k / np.prod(range(1, k + 1)) for k in range(ORDER[name] + 1))
      rec.state(name, z)
      rec.step()
      if rec.close(got, want, f'{name} linear z={z}', 'amplification'):
        rec.trace()
      rec.outcome(got)
  for na, nb in itertools.product(range(4), repeat=2):
    a, b = [[1.] * (i + 1) for i in range(na)], [1.] * nb
    rec.state('shape', na, nb)
    rec.step()
    if na + 1 != nb:
      rec.raises(lambda: ts.ButcherTableau(a=a, b=b), f'tableau {na} {nb}', 'inconsistent', (ValueError,))
    else:
      ts.ButcherTableau(a=a, b=b)


# ---------------------------------------------------------------- full solvers


def flow(shape, kinds, tang):
  grid = grids.Grid(shape, step=STEPS[:len(shape)])
  return grid, ref_fv.velocity_fields(shape, grid.step, kinds, tang, (0., 0.))


def velocities(fields, proj, free, base, count):
  """Admissible divergence-free velocities: signed pairs of a basis."""
  n = len(base)
  xs = [lin.generic((n,), k) * s for k in range(4) for s in (1., -.6)]
  eye = np.eye(n)[free]
  stride = max(1, len(eye) ** 2 // count)
  pairs = [(i, j) for i in range(len(eye)) for j in range(len(eye))][::stride]
  xs += [eye[i] - 2 * eye[j] for i, j in pairs]
  return proj(np.array(xs) * free + base * ~free)


def stage_terms(fields, vs, conv, nu, force, dt):
  n = fields[0].size
  out = np.zeros_like(vs)
  for i, f in enumerate(fields):
    x = vs[:, i * n:(i + 1) * n]
    a, b = f.laplacian()
    out[:, i * n:(i + 1) * n] = advect_ref(conv, f, x, fields, vs, dt)
    if nu is not None:
      out[:, i * n:(i + 1) * n] += nu * (x @ a.T + b)
  if force is not None:
    out = out + force(vs)
  return out


CONV = {
    'default': (None, 'van_leer'),
    'linear': (lambda dt: advection.convect_linear, 'linear'),
    'van_leer': (lambda dt: lambda v: tuple(advection.advect_van_leer(u, v, dt) for u in v), 'van_leer'),
    'upwind': (lambda dt: lambda v: tuple(advection.advect_upwind(u, v, dt) for u in v), 'upwind'),
}
STEPPERS = {'default': None, 'midpoint_rk2': ts.midpoint_rk2, 'heun_rk2': ts.heun_rk2, 'classic_rk4': ts.classic_rk4}


def unit_solver(rec, shape, kinds, tang, convs, steppers, count=40, nsteps=2):
  ndim = len(shape)
  grid, fields = flow(shape, kinds, tang)
  base, _, free = ref_fv.free_basis(fields)
  proj, dmat, dvec = reference_projection(fields, free, base)
  vs = velocities(fields, proj, free, base, count)
  n = fields[0].size
  split = lambda x: tuple(variable(grid, f, x[i * n:(i + 1) * n]) for i, f in enumerate(fields))
  join = lambda v: jnp.concatenate([u.data.ravel() for u in v])
  fconst = lin.generic((ndim * n,), 9)

  def forcing_const(v):
    return tuple(grids.GridArray(jnp.asarray(fconst[i * n:(i + 1) * n]).reshape(shape), f.offset, grid)
                 for i, f in enumerate(fields))

  def forcing_lin(v):
    return tuple(-0.7 * u.array for u in v)
  forcings = {'none': (None, None), 'const': (forcing_const, lambda v: fconst),
              'linear': (forcing_lin, lambda v: -.7 * v)}
  wall = lambda x: x * free + base * ~free
  for conv in convs:
    mk, model = CONV[conv]
    full = ((None, 1., 'none'), (.1, 2., 'const'), (.1, 1., 'linear'), (0., 1., 'none'))
    for visc, density, fname in full:
      dt = .05
      rf, nf = forcings[fname]
      nu = None if visc is None else visc / density
      force = None if nf is None else (lambda v, nf=nf: nf(v) / density)
      kw = dict(density=density, viscosity=visc, dt=dt, grid=grid, forcing=rf)
      if mk is not None:
        kw['convect'] = mk(dt)

      def check(name, step_fn, ref_step, kind):
        key = f'{kind} shape={shape} axes={kinds} tangential={tang} convect={conv} visc={visc} density={density} forcing={fname} stepper={name}'
        rec.state(key)

        def fn(x):
          def body(v, _):
            v = step_fn(v)
            meta = [(tuple(u.offset), u.bc.types, u.grid) for u in v]
            assert meta == [(f.offset, f.types, grid) for f in fields], meta
            return v, join(v)
          return jax.lax.scan(body, split(x), None, nsteps)[1]
        done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(vs))), key, 'step')
        rec.step(len(vs) * nsteps)
        if not done:
          return
        x = vs
        good = True
        for s in range(nsteps):
          x = ref_step(x)
          good &= rec.close(out[:, s], x, key, f'velocity after step {s + 1}', atol=1e-8)
          div = out[:, s] @ dmat.T + dvec
          good &= rec.close(div, np.zeros_like(div), key, 'divergence', atol=1e-8)
          good &= rec.close(out[:, s][:, ~free], np.broadcast_to(base[~free], out[:, s][:, ~free].shape), key, 'wall values')
        rec.outcome(out)
        if good:
          rec.trace(len(vs))

      for sname in steppers:
        if sname != 'default' and fname != 'const':
          continue
        a, b = NAMED['forward_euler' if sname == 'default' else sname]

        def ref_step(x):
          terms = lambda y: stage_terms(fields, y, model, nu, force, dt)
          ks = [terms(x)]
          for row in a:
            ks.append(terms(proj(wall(x + dt * sum(w * k for w, k in zip(row, ks))))))
          return proj(wall(x + dt * sum(w * k for w, k in zip(b, ks))))
        extra = {} if STEPPERS[sname] is None else dict(time_stepper=STEPPERS[sname])
        check(sname, equations.semi_implicit_navier_stokes(**kw, **extra), ref_step, 'explicit')
      if visc is not None and fname != 'linear':

        def ref_implicit(x):
          y = wall(x + dt * stage_terms(fields, x, model, None, force, dt))
          z = np.concatenate([solve_ref(f, y[:, i * n:(i + 1) * n], nu * dt) for i, f in enumerate(fields)], 1)
          return proj(z)
        check('implicit', equations.implicit_diffusion_navier_stokes(**kw), ref_implicit, 'implicit')
  rec.sample(dict(shape=shape, kinds=kinds, velocities=len(vs)))


def unit_collocated(rec, shape):
  ndim = len(shape)
  grid = grids.Grid(shape, step=STEPS[:ndim])
  f = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim)
  n = f.size
  cen = [f.central(i)[0] for i in range(ndim)]
  dmat = np.concatenate(cen, 1)
  g = np.concatenate(cen, 0)
  q = np.linalg.pinv(dmat @ g, rcond=1e-10)
  proj = lambda x: x - x @ dmat.T @ q.T @ g.T
  lap = sum(c @ c for c in cen)
  vs = proj(np.concatenate([lin.generic((1, n * ndim), k) for k in range(6)] + [np.eye(n * ndim)[::2] - np.eye(n * ndim)[1::2][:1]]))
  split = lambda x: tuple(variable(grid, f, x[i * n:(i + 1) * n]) for i in range(ndim))
  dt = .05
  fconst = lin.generic((ndim * n,), 9)

  def forcing(v):
    return tuple(grids.GridArray(jnp.asarray(fconst[i * n:(i + 1) * n]).reshape(shape), f.offset, grid) for i in range(ndim))

  def terms(x, nu, force):
    q = x.reshape(-1, ndim, n)
    out = np.concatenate([-sum((q[:, i] * q[:, j]) @ cen[j].T for j in range(ndim)) for i in range(ndim)], 1)
    if nu is not None:
      out = out + nu * np.concatenate([q[:, i] @ lap.T for i in range(ndim)], 1)
    return out + force
  solver = lambda v, q0: cpressure.solve_cg(v, q0, rtol=1e-13, atol=1e-13)
  for visc, density, force in ((None, 1., None), (.1, 2., forcing), (.1, 1., None)):
    key = f'collocated shape={shape} visc={visc} density={density} forcing={force is not None}'
    rec.state(key)
    step = cequations.semi_implicit_navier_stokes(density, visc, dt, grid, convect=cadvection.convect_linear,
                                                  pressure_solve=solver, forcing=force)

    def fn(x):
      v, _ = jax.lax.scan(lambda v, _: (step(v), None), split(x), None, 2)
      return jnp.concatenate([u.data.ravel() for u in v])
    done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(vs))), key, 'step')
    rec.step(2 * len(vs))
    if done:
      x = vs
      for _ in range(2):
        x = proj(x + dt * terms(x, None if visc is None else visc / density, 0 if force is None else fconst / density))
      if rec.close(out, x, key, 'velocity after two steps', atol=1e-7):
        rec.trace(len(vs))
      rec.outcome(out)


def unit_sum_fields(rec):
  for k in range(1, 4):
    trees = [(jnp.full(3, float(i)), dict(x=jnp.float64(10 * i))) for i in range(1, k + 1)]
    rec.state(k)
    rec.step()
    r = equations.sum_fields(*trees)
    tot = k * (k + 1) / 2
    good = rec.close(r[0], np.full(3, tot), f'sum_fields {k}', 'array')
    good &= rec.close(r[1]['x'], 10 * tot, f'sum_fields {k}', 'dict')
    rec.outcome(tot)
    if good:
      rec.trace()


def units(tier):
  th = tier == 'thorough'
  out = [('named', unit_named, {}), ('sum', unit_sum_fields, {})]
  out.append(('tab-1', unit_tableaus, dict(stages=1, alphabet=(0., 1., -1., .5))))
  out.append(('tab-2', unit_tableaus, dict(stages=2, alphabet=(0., 1., -1., .5))))
  al = (0., 1., -.5)
  parts = 6 if th else 4
  for p in range(parts):
    out.append((f'tab-3-{p}', unit_tableaus, dict(stages=3, alphabet=al + ((.25,) if th else ()), part=p, parts=parts)))
  nos = ((D, D), (0., 0.))
  free = ((N, N), (0., 0.))
  allc = ('default', 'linear', 'van_leer', 'upwind')
  out.append(('ns-p2-a', unit_solver, dict(shape=(3, 4), kinds='pp', tang=nos, convs=allc[:2], steppers=('default', 'classic_rk4'))))
  out.append(('ns-p2-b', unit_solver, dict(shape=(4, 3), kinds='pp', tang=nos, convs=allc[2:], steppers=('default', 'midpoint_rk2', 'heun_rk2'))))
  for i, t in enumerate((nos, free)):
    for s, k in (((3, 4), 'pw'), ((4, 3), 'wp'), ((3, 3), 'ww')):
      out.append((f'ns-{k}-{i}', unit_solver, dict(shape=s, kinds=k, tang=t, convs=('van_leer',),
                                                   steppers=('default', 'heun_rk2') if i else ('default', 'classic_rk4'))))
  out.append(('ns-3d', unit_solver, dict(shape=(2, 3, 2), kinds='ppp', tang=nos, convs=('default',), steppers=('default',), count=10)))
  out.append(('ns-3dw', unit_solver, dict(shape=(2, 3, 3), kinds='pwp', tang=nos, convs=('van_leer',), steppers=('default',), count=10)))
  out.append(('colloc-1', unit_collocated, dict(shape=(3, 4))))
  out.append(('colloc-2', unit_collocated, dict(shape=(5, 3))))
  if th:
    out.append(('ns-p2-c', unit_solver, dict(shape=(4, 4), kinds='pp', tang=nos, convs=allc, steppers=tuple(STEPPERS), count=300, nsteps=3)))
    out.append(('ns-ww-c', unit_solver, dict(shape=(4, 4), kinds='ww', tang=nos, convs=('van_leer',), steppers=tuple(STEPPERS), count=300, nsteps=3)))
  return out
