"""C10: implicit-explicit time steps are the stages of their scheme.

All small implicit-explicit tableaus and low-storage coefficient sets over an
alphabet are executed on an instrumented ODE whose calls are monitored and
whose results are compared with an independent evaluation of the scheme.
"""
import itertools

import jax.numpy as jnp
import numpy as np
from jax_cfd.spectral import time_stepping as ts

PROPERTY = 'C10'
RULE = ('all coefficient assignments over an alphabet for 1-3 stage tableaus and '
        'low-storage schemes, each run on a monitored nonlinear ODE with a '
        'non-commuting implicit part; named schemes with their published coefficients')
BOUNDS = 'up to 3 stages over alphabets, named schemes with up to 5 stages, 2 component complex states, up to 3 steps'
ASSUMPTIONS = ['float64 / complex128, tolerance 1e-9']
LAM = np.array([[-1., .5], [.25, -2. + .5j]])


def explicit(y):
  return np.array([y[0] * y[1] + .3, np.conj(y[0]) - .5 * y[1] ** 2])


class ODE(ts.ImplicitExplicitODE):
  """Two component ODE on a pytree state, recording its calls."""

  def __init__(self):
    self.log = []

  def _pack(self, y):
    return dict(a=y[0], b=(y[1],))

  def _unpack(self, s):
    return np.array([s['a'], s['b'][0]], complex)

  def explicit_terms(self, state):
    y = self._unpack(state)
    self.log.append(('F', y))
    return self._pack(explicit(y))

  def implicit_terms(self, state):
    y = self._unpack(state)
    self.log.append(('G', y))
    return self._pack(LAM @ y)

  def implicit_solve(self, state, step_size):
    y = self._unpack(state)
    self.log.append(('S', complex(step_size)))
    return self._pack(np.linalg.solve(np.eye(2) - step_size * LAM, y))


def solve(y, k):
  return np.linalg.solve(np.eye(2) - k * LAM, y)


def ref_imex(t, y0, dt):
  a_ex, a_im, b_ex, b_im = t
  ys = [y0]
  for i in range(1, len(b_ex)):
    z = y0.copy()
    for j in range(i):
      z = z + dt * a_ex[i - 1][j] * explicit(ys[j]) + dt * a_im[i - 1][j] * (LAM @ ys[j])
    ys.append(solve(z, dt * a_im[i - 1][i]))
  out = y0.copy()
  for y, e, m in zip(ys, b_ex, b_im):
    out = out + dt * e * explicit(y) + dt * m * (LAM @ y)
  return out, ys


def ref_low(alphas, betas, gammas, u, dt):
  h = np.zeros(2)
  ys = [u]
  for k in range(len(betas)):
    h = explicit(u) + betas[k] * h
    mu = .5 * dt * (alphas[k + 1] - alphas[k])
    u = solve(u + gammas[k] * dt * h + mu * (LAM @ u), mu)
    ys.append(u)
  return u, ys


def ref_euler(u, dt):
  return solve(u + dt * explicit(u), dt), [u]


def ref_cn2(u, dt):
  g = u + .5 * dt * (LAM @ u)
  h1 = explicit(u)
  u1 = solve(g + dt * h1, .5 * dt)
  return solve(g + .5 * dt * (h1 + explicit(u1)), .5 * dt), [u, u1]


def compare(rec, key, make, ref, states, dts, nsteps=1):
  for y0 in states:
    for dt in dts:
      ode = ODE()
      kk = f'{key} y0={y0} dt={dt}'
      done, step = rec.attempt(lambda: make(ode, dt), kk, 'construct')
      if not done:
        return
      y = np.array(y0, complex)
      s = dict(a=y[0], b=(y[1],))
      good = True
      for _ in range(nsteps):
        done, s = rec.attempt(lambda: step(s), kk, 'step')
        if not done:
          good = False
          break
        y, stages = ref(y, dt)
        rec.step(len(ode.log))
        good &= rec.close(np.array([s['a'], s['b'][0]]), y, kk, 'state')
        allowed = np.array(stages)
        for c, v in ode.log:
          if c == 'F' and np.abs(allowed - v).max(1).min() > 1e-8:
            good = False
            rec.fail(kk, f'explicit terms evaluated at {v}, not a stage of the scheme')
        ode.log.clear()
        rec.outcome(np.round(y, 6))
      if good:
        rec.trace()


STATES = ((1., 2.), (-.5 + .25j, .75j))


def unit_imex(rec, stages, alphabet, part=0, parts=1):
  nex = stages * (stages - 1) // 2
  nim = nex + stages - 1
  for i, w in enumerate(itertools.product(alphabet, repeat=nex + nim + 2 * stages)):
    if i % parts != part:
      continue
    w = list(w)
    a_ex, a_im, k = [], [], 0
    for s in range(1, stages):
      a_ex.append(w[k:k + s])
      k += s
    for s in range(1, stages):
      a_im.append(w[k:k + s + 1])
      k += s + 1
    t = (a_ex, a_im, w[k:k + stages], w[k + stages:])
    rec.state(w)
    compare(rec, f'imex {t}', lambda ode, dt: ts.imex_runge_kutta(ts.ImExButcherTableau(*t), ode, dt),
            lambda y, dt: ref_imex(t, y, dt), STATES[1:], (.25,))
  rec.sample(dict(tableau=t))


def unit_low(rec, stages, alphabet):
  for w in itertools.product(alphabet, repeat=3 * stages):
    alphas = [0.] + list(np.cumsum(w[:stages]))
    betas, gammas = list(w[stages:2 * stages]), list(w[2 * stages:])
    rec.state(w)
    compare(rec, f'low-storage {alphas} {betas} {gammas}',
            lambda ode, dt: ts.low_storage_runge_kutta_crank_nicolson(alphas, betas, gammas, ode, dt),
            lambda y, dt: ref_low(alphas, betas, gammas, y, dt), STATES[1:], (.25,))
  rec.sample(dict(alphas=alphas, betas=betas, gammas=gammas))


RK3 = ([0, 1 / 3, 3 / 4, 1], [0, -5 / 9, -153 / 128], [1 / 3, 15 / 16, 8 / 15])
RK4 = ([0, 0.1496590219993, 0.3704009573644, 0.6222557631345, 0.9582821306748, 1],
       [0, -0.4178904745, -1.192151694643, -1.697784692471, -1.514183444257],
       [0.1496590219993, 0.3792103129999, 0.8229550293869, 0.6994504559488, 0.1530572479681])
SIL3 = ([[1 / 3], [1 / 6, 1 / 2], [1 / 2, -1 / 2, 1]],
        [[1 / 6, 1 / 6], [1 / 3, 0, 1 / 3], [3 / 8, 0, 3 / 8, 1 / 4]],
        [1 / 2, -1 / 2, 1, 0], [3 / 8, 0, 3 / 8, 1 / 4])
NAMED = {
    'backward_forward_euler': (ref_euler, 1, 1),
    'crank_nicolson_rk2': (ref_cn2, 2, 2),
    'crank_nicolson_rk3': (lambda y, dt: ref_low(*RK3, y, dt), 3, 2),
    'crank_nicolson_rk4': (lambda y, dt: ref_low(*RK4, y, dt), 4, 2),
    'imex_rk_sil3': (lambda y, dt: ref_imex(SIL3, y, dt), 3, 2),
}


class Scalar(ts.ImplicitExplicitODE):
  """y' = z y (explicit) + w y (implicit)."""

  def __init__(self, z, w):
    self.z, self.w = z, w

  def explicit_terms(self, y):
    return self.z * y

  def implicit_terms(self, y):
    return self.w * y

  def implicit_solve(self, y, k):
    return y / (1 - k * self.w)


class Nonlinear(Scalar):
  """y' = -y^2 + time as a second component."""

  def explicit_terms(self, y):
    return np.array([-y[0] ** 2 + np.cos(y[1]), 1.0])

  def implicit_terms(self, y):
    return 0 * y

  def implicit_solve(self, y, k):
    return y


def unit_named(rec):
  for name, (ref, p_ex, p_im) in NAMED.items():
    make = getattr(ts, name)
    rec.state(name)
    compare(rec, name, make, ref, tuple(itertools.product((0., 1., -.5 + .5j), repeat=2)), (0., .1, .5, -.2), nsteps=3)
    grow = lambda z, w: complex(make(Scalar(z, w), 1.0)(np.complex128(1.)))
    # polynomial degree p_ex agreement with exp: errors of order p_ex + 1
    for z in (1., -1., 1j, -1 + 1j):
      for part, order in (('explicit', p_ex), ('implicit', p_im), ('both', min(p_ex, p_im))):
        e = []
        for h in (.04, .02):
          zz, ww = {'explicit': (z * h, 0), 'implicit': (0, z * h), 'both': (z * h, -.7 * h)}[part]
          e.append(abs(grow(zz, ww) - np.exp(zz + ww)))
        key = f'{name} order {part} z={z}'
        rec.state(key)
        rec.step(2)
        rate = np.log2(e[0] / e[1]) if e[1] > 1e-13 else 99.
        if rec.expect(rate > order + .8, key, f'local error falls like h^{rate:.2f}, scheme of order {order}'):
          rec.trace()
        rec.outcome(round(min(rate, 9), 1))
    # nonlinear problem, global error
    e = []
    ref_n = 4000
    y = np.array([.3, 0.])
    f = lambda y: np.array([-y[0] ** 2 + np.cos(y[1]), 1.])
    h = 1. / ref_n
    for _ in range(ref_n):
      k1 = f(y); k2 = f(y + h / 2 * k1); k3 = f(y + h / 2 * k2); k4 = f(y + h * k3)
      y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    for n in (10, 20):
      step = make(Nonlinear(0, 0), 1. / n)
      u = np.array([.3, 0.])
      for _ in range(n):
        u = step(u)
      e.append(abs(u[0] - y[0]))
      rec.step(n)
    rate = np.log2(e[0] / e[1])
    key = f'{name} nonlinear order'
    rec.state(key)
    # SIL3 is of third order only for linear problems (Whitaker and Kar 2013).
    p_nl = 2 if name == 'imex_rk_sil3' else p_ex
    if rec.expect(rate > p_nl - .35, key, f'global error falls like h^{rate:.2f}, scheme of order {p_nl}'):
      rec.trace()
    # A-stable enough: stiff implicit part never amplifies
    for w in (-.1, -1., -10., -1e4, -5j, 5j):
      key = f'{name} stiff w={w}'
      rec.state(key)
      rec.step()
      if name == 'imex_rk_sil3' and isinstance(w, complex):
        continue
      rec.expect(abs(grow(0, w)) <= 1 + 1e-9, key, f'amplification {abs(grow(0, w))}')


def unit_reject(rec):
  eq = Scalar(0, 0)
  for na, nb, ng in itertools.product(range(5), repeat=3):
    rec.state('low', na, nb, ng)
    rec.step()
    mk = lambda: ts.low_storage_runge_kutta_crank_nicolson([.1 * i for i in range(na)], [.1] * nb, [.1] * ng, eq, .1)
    key = f'low-storage lengths {na} {nb} {ng}'
    if na - 1 == nb == ng:
      rec.attempt(mk, key, 'consistent lengths')
    else:
      rec.raises(mk, key, 'mismatched coefficients', (ValueError,))
    rec.outcome((na - 1 == nb == ng))
  for w in itertools.product(range(4), repeat=4):
    nax, nai, nbx, nbi = w
    rec.state('imex', w)
    rec.step()
    mk = lambda: ts.ImExButcherTableau(a_ex=[[0.] * (i + 1) for i in range(nax)], a_im=[[0.] * (i + 2) for i in range(nai)],
                                       b_ex=[0.] * nbx, b_im=[0.] * nbi)
    key = f'imex lengths {w}'
    if nax + 1 == nai + 1 == nbx == nbi:
      rec.attempt(mk, key, 'consistent lengths')
    else:
      rec.raises(mk, key, 'mismatched tableau', (ValueError,))


def unit_jax(rec):
  """Jitted on arrays, as used by the spectral solvers."""
  import jax
  for name, (ref, _, _) in NAMED.items():
    key = f'{name} on arrays'
    rec.state(key)

    class A(ts.ImplicitExplicitODE):

      def explicit_terms(self, s):
        return dict(a=s['a'] * s['b'][0] + .3, b=(jnp.conj(s['a']) - .5 * s['b'][0] ** 2,))

      def implicit_terms(self, s):
        return dict(a=LAM[0, 0] * s['a'] + LAM[0, 1] * s['b'][0], b=(LAM[1, 0] * s['a'] + LAM[1, 1] * s['b'][0],))

      def implicit_solve(self, s, k):
        m = np.linalg.inv(np.eye(2) - k * LAM)
        return dict(a=m[0, 0] * s['a'] + m[0, 1] * s['b'][0], b=(m[1, 0] * s['a'] + m[1, 1] * s['b'][0],))
    ys = np.array(list(itertools.product((0., 1., .5j, -1.), repeat=2)), complex)
    step = jax.jit(getattr(ts, name)(A(), .2))
    s = step(step(dict(a=jnp.asarray(ys[:, 0]), b=(jnp.asarray(ys[:, 1]),))))
    want = np.array([ref(ref(y, .2)[0], .2)[0] for y in ys])
    rec.step(2 * len(ys))
    if rec.close(np.stack([s['a'], s['b'][0]], 1), want, key, 'state'):
      rec.trace(len(ys))
    rec.outcome(want)


def units(tier):
  th = tier == 'thorough'
  out = [('named', unit_named, {}), ('reject', unit_reject, {}), ('jax', unit_jax, {})]
  out.append(('imex-1', unit_imex, dict(stages=1, alphabet=(0., 1., -.5, .25))))
  for p in range(4):
    out.append((f'imex-2-{p}', unit_imex, dict(stages=2, alphabet=(0., 1., -.5) + ((.25,) if th else ()), part=p, parts=4)))
  for p in range(8):
    out.append((f'imex-3-{p}', unit_imex, dict(stages=3, alphabet=(0., .5), part=p, parts=8)))
  out.append(('low-1', unit_low, dict(stages=1, alphabet=(0., 1., -.5, .25))))
  out.append(('low-2', unit_low, dict(stages=2, alphabet=(0., 1., -.5))))
  out.append(('low-3', unit_low, dict(stages=3, alphabet=(0.5, -.25) if not th else (0., .5, -.25))))
  return out
