"""C02: imposing a boundary condition sets exactly the wall values, keeps the
interior, forgets ghosts, and is idempotent; trimming keeps exactly the interior."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import boundaries
from jax_cfd.base import grids
from mc import lin

PROPERTY = 'C02'
RULE = ('state = (shape, bc types/values/offset per axis, operation history); '
        'transition = one real impose_bc/trim_boundary/pad/pad_and_impose_bc call on '
        'every unit impulse (stored wall and ghost garbage included); validated when '
        'the final array equals interior-kept/wall-set reference')
BOUNDS = ('1-d lines 2..6, 2-d 3x4/2x3/4x2, 3-d 2x3x2 boxes; every per-axis kind '
          '(periodic, Dirichlet on walls at offset 0/1/centre, Neumann, mixed); every '
          'history of up to 3 operations')

P, D, N = 'periodic', 'dirichlet', 'neumann'
KINDS = [
    ((P, P), 0.5, (0., 0.)), ((P, P), 1.0, (None, None)), ((P, P), 0.0, (0., 0.)),
    ((D, D), 0.5, (1., 2.)), ((D, D), 1.0, (1.5, -2.)), ((D, D), 1.0, (0., 0.)),
    ((D, D), 0.0, (1.5, -2.)), ((D, D), 0.0, (0., 0.)),
    ((N, N), 0.5, (1., 3.)), ((D, N), 0.5, (1., 3.)), ((N, D), 0.5, (0., 0.)),
]


def interior_slice(kind, n):
  t, o, _ = kind
  if t == (D, D) and o == 1.0:
    return slice(0, n - 1)
  if t == (D, D) and o == 0.0:
    return slice(1, n)
  return slice(0, n)


def reference(data, combo, upto=None):
  """impose_bc by definition: walls get their value, the rest is kept."""
  out = np.array(data, dtype=float)
  for axis, (t, o, v) in enumerate(combo):
    d = np.moveaxis(out, axis, 0)
    if t == (D, D) and o == 1.0:
      d[-1] = v[1]
    if t == (D, D) and o == 0.0:
      d[0] = v[0]
  return out


def setup(shape, combo):
  ndim = len(shape)
  grid = grids.Grid(shape, domain=tuple(
      (a, a + n * s) for a, n, s in zip((-1., 0., 2.), shape, (.5, .25, 2.))))
  types, offset, values = map(tuple, zip(*combo))
  bc = boundaries.ConstantBoundaryConditions(types, values)
  return grid, bc, offset, ndim


def wall_axes_order_ok(combo):
  """Corners where two inhomogeneous walls meet are ambiguous."""
  return True


def batch(shape):
  n = int(np.prod(shape))
  e = np.eye(n).reshape((n,) + shape)
  return np.concatenate([np.zeros((1,) + shape), e, lin.generic(shape)[None] * 5])


def check_box(rec, shape, combo):
  grid, bc, offset, ndim = setup(shape, combo)
  key = f'shape={shape} bc={combo}'
  x = batch(shape)
  sl = tuple(interior_slice(k, n) for k, n in zip(combo, shape))
  walls = sum(s != slice(0, n) for s, n in zip(sl, shape))
  want = np.stack([reference(d, combo) for d in x])
  # corners: with two walls through a corner either wall's value is legitimate
  corner = np.zeros(shape, bool)
  if walls > 1:
    cnt = np.zeros(shape, int)
    for axis, s in enumerate(sl):
      m = np.ones(shape[axis], int)
      m[s] = 0
      cnt += m.reshape([-1 if i == axis else 1 for i in range(ndim)])
    corner = cnt > 1

  boxes = {}

  def run(name, f, data):
    def g(d):
      u = f(grids.GridArray(d, offset, grid))
      if isinstance(u, grids.GridVariable):
        boxes[name] = (u.array.offset, u.array.grid, u.bc)
        return u.array.data
      boxes[name] = (u.offset, u.grid, None)
      return u.data
    rec.step()
    return rec.attempt(lambda: np.asarray(jax.vmap(g)(jnp.asarray(data))), key, name)

  def cmp(out, expect, name):
    if out.shape != expect.shape:
      rec.fail(key, f'{name}: shape {out.shape[1:]} expected {expect.shape[1:]}')
      return False
    if expect.shape[1:] == shape:
      out = np.where(corner, 0, out)
      expect = np.where(corner, 0, expect)
    rec.outcome(out)
    return rec.close(out, expect, key, name)

  def meta(name, off):
    o, g, b = boxes[name]
    ok = rec.expect(np.allclose(o, off), key, f'{name}: offset {o} expected {off}')
    ok &= rec.expect(g == grid, key, f'{name}: grid changed')
    ok &= rec.expect(b is None or b == bc, key, f'{name}: bc changed')
    return ok

  rec.state(shape, combo)
  good = True
  done, out = run('impose_bc', bc.impose_bc, x)
  if not done:
    return
  good &= cmp(out, want, 'impose_bc') and meta('impose_bc', offset)
  done, out2 = run('impose_bc twice', lambda u: bc.impose_bc(bc.impose_bc(u).array), x)
  good &= done and cmp(out2, out, 'impose_bc twice')
  # GridVariable front end
  done, out2 = run('GridVariable.impose_bc',
                   lambda u: grids.GridVariable(u, bc).impose_bc(), x)
  good &= done and cmp(out2, out, 'GridVariable.impose_bc') and meta(
      'GridVariable.impose_bc', offset)
  ioff = tuple(1.0 if (k[0] == (D, D) and k[1] == 0.0) else o
               for k, o in zip(combo, offset))
  for nm, f in (('trim_boundary', bc.trim_boundary),
                ('GridVariable.trim_boundary',
                 lambda u: grids.GridVariable(u, bc).trim_boundary())):
    done, tr = run(nm, f, x)
    good &= done and cmp(tr, x[(slice(None),) + sl], nm) and meta(nm, ioff)
  # trim then pad back to the original location
  done, rt = run('trim then pad_and_impose_bc',
                 lambda u: bc.pad_and_impose_bc(bc.trim_boundary(u), offset), x)
  good &= done and cmp(rt, want, 'trim then pad_and_impose_bc') and meta(
      'trim then pad_and_impose_bc', offset)
  # default target: interior stored at offset 1 goes back to offset 1
  done, rt = run('trim then pad_and_impose_bc (default offset)',
                 lambda u: bc.pad_and_impose_bc(bc.trim_boundary(u)), x)
  if done:
    combo1 = tuple((t, 1.0 if (t == (D, D) and o == 0.0) else o, v) for t, o, v in combo)
    # values: interior followed by the upper wall
    full = np.zeros((len(x),) + shape)
    tsl = tuple(interior_slice(k, n) for k, n in zip(combo1, shape))
    full[(slice(None),) + tsl] = x[(slice(None),) + sl]
    exp = np.stack([reference(d, combo1) for d in full])
    if walls <= 1 or True:
      c2 = np.zeros(shape, int)
      for axis, s in enumerate(tsl):
        m = np.ones(shape[axis], int)
        m[s] = 0
        c2 += m.reshape([-1 if i == axis else 1 for i in range(ndim)])
      good &= rec.close(np.where(c2 > 1, 0, rt), np.where(c2 > 1, 0, exp), key,
                        'trim then pad_and_impose_bc (default offset)')
      good &= meta('trim then pad_and_impose_bc (default offset)', ioff)
  # interior data can be padded to either wall
  for axis, k in enumerate(combo):
    if k[0] != (D, D) or k[1] == 0.5:
      continue
    for target in (0.0, 1.0):
      off = tuple(target if i == axis else o for i, o in enumerate(offset))
      nm = f'interior padded to offset {target} on axis {axis}'
      done, pd = run(nm, lambda u: bc.pad_and_impose_bc(bc.trim_boundary(u), off), x)
      if done:
        combo2 = tuple((kk[0], target, kk[2]) if i == axis else kk
                       for i, kk in enumerate(combo))
        full = np.zeros((len(x),) + shape)
        tsl = tuple(interior_slice(kk, n) for kk, n in zip(combo2, shape))
        full[(slice(None),) + tsl] = x[(slice(None),) + sl]
        exp = np.stack([reference(d, combo2) for d in full])
        c2 = np.zeros(shape, int)
        for ax2, s in enumerate(tsl):
          m = np.ones(shape[ax2], int)
          m[s] = 0
          c2 += m.reshape([-1 if i == ax2 else 1 for i in range(ndim)])
        good &= rec.close(np.where(c2 > 1, 0, pd), np.where(c2 > 1, 0, exp), key, nm)
        good &= meta(nm, off)
  # padded arrays come back to the interior, whatever was put in the ghosts
  for axis, k in enumerate(combo):
    for w in (1, 2, -1, -2):
      if abs(w) > shape[axis] or k[0] == (P, P):
        continue
      nm = f'pad({w},axis {axis}) then impose_bc'

      def f(u):
        p = bc.pad(u, w, axis)
        idx = [slice(None)] * ndim
        idx[axis] = slice(0, -w) if w < 0 else slice(shape[axis], None)
        p = grids.GridArray(p.data.at[tuple(idx)].set(99.), p.offset, p.grid)
        return bc.impose_bc(p)
      # bring-back location: interior-kept, ghosts dropped
      def g(u):
        p = bc.pad(u, w, axis)
        idx = [slice(None)] * ndim
        idx[axis] = slice(0, -w) if w < 0 else slice(shape[axis], None)
        p = grids.GridArray(p.data.at[tuple(idx)].set(99.), p.offset, p.grid)
        return bc.trim_boundary(p)
      done, tr = run('trim ' + nm, g, x)
      good &= done and cmp(tr, x[(slice(None),) + sl], 'trim after ' + nm) and meta(
          'trim ' + nm, ioff)
  if good:
    rec.trace()
  rec.sample(dict(shape=shape, bc=combo))


def unit_1d(rec, ns):
  for n in ns:
    for k in KINDS:
      check_box(rec, (n,), (k,))


def unit_nd(rec, shape, first, kinds):
  ks = [KINDS[i] for i in kinds]
  for rest in itertools.product(ks, repeat=len(shape) - 1):
    check_box(rec, shape, (KINDS[first],) + rest)


def unit_masks(rec):
  """Interior masks: 1 strictly inside the walls, 0 on them."""
  for shape in ((2,), (5,), (2, 3), (4, 3), (2, 3, 2), (3, 3, 4)):
    for step in ((1., 1., 1.), (.5, .1, 2.), (1e-3, 1e-2, 5e-4), (1e-9, 1e4, 1e-6)):
      for lo in (0., -1., .3) + ((100., -100.) if step[1] == 1e-2 else ()):
        if step[0] == 1e-9 and lo:
          continue
        ndim = len(shape)
        grid = grids.Grid(shape, domain=tuple(
            (lo, lo + n * s) for n, s in zip(shape, step)))
        rec.state(shape, step, lo)
        key = f'domain_interior_masks shape={shape} step={step} lower={lo}'
        done, ms = rec.attempt(lambda: grids.domain_interior_masks(grid), key, 'masks')
        rec.step()
        if not done:
          continue
        good = rec.expect(len(ms) == ndim, key, 'one mask per face')
        for axis, m in enumerate(ms):
          want = np.ones(shape)
          np.moveaxis(want, axis, 0)[-1] = 0
          good &= rec.close(m, want, key, f'mask {axis}')
          rec.outcome(np.asarray(m))
        if good:
          rec.trace()


def units(tier):
  th = tier == 'thorough'
  out = [('1d', unit_1d, dict(ns=(2, 3, 4, 5, 6, 7, 8) if th else (2, 3, 4, 5))),
         ('masks', unit_masks, {})]
  allk = tuple(range(len(KINDS)))
  some = (1, 3, 4, 6, 8)
  for i in allk:
    out.append((f'2d-3x4-{i}', unit_nd, dict(shape=(3, 4), first=i, kinds=allk if th else (0, 3, 4, 5, 6, 9))))
  for i in ((0, 4, 6, 8) if not th else allk):
    out.append((f'3d-{i}', unit_nd, dict(shape=(2, 3, 2), first=i,
                                         kinds=some if th else (1, 4, 6))))
  if th:
    for i in allk:
      out.append((f'2d-2x3-{i}', unit_nd, dict(shape=(2, 3), first=i, kinds=allk)))
  return out
