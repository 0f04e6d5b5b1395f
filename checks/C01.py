"""C01: boundary extension.  Every value obtained past the edge of a field is
the one its boundary condition defines, for every history of shifts and pads."""
import collections
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import boundaries
from jax_cfd.base import grids
from mc import lin
from mc import ref_bc

PROPERTY = 'C01'
RULE = ('state = (grid shape, bc types and values, offset, mode, index window '
        'held by the array); transition = one real shift/pad/trim/trim_boundary/'
        'impose_bc call, run on every unit impulse of the field at once; a trace '
        'is validated when data, shape and offset equal the reference extension')
BOUNDS = ('1-d: every line of 2..6 cells (thorough 2..8), every legal (bc, offset), '
          'homogeneous and inhomogeneous, both padding modes, all widths up to the '
          'line length, all histories up to depth 3 (thorough 4); n-d: every axis of 2-d/3-d '
          'boxes with every combination of bc kinds')

P, D, N = 'periodic', 'dirichlet', 'neumann'
SIDES = [(P, P)] + list(itertools.product((D, N), repeat=2))
OFFSETS = (0.5, 0.0, 1.0)


def make_bc(types, values):
  if all(v == (0.0, 0.0) for v in values):
    return boundaries.HomogeneousBoundaryConditions(types)
  return boundaries.ConstantBoundaryConditions(types, values)


def legal(t, o):
  return ref_bc.compatible(t[0], t[1], o)


def eval_op(bc, grid, offset, op, shape):
  """Affine map (b, A) and offset of a real operation on a field."""
  box = {}

  def f(d):
    out = op(grids.GridArray(d, offset, grid))
    if isinstance(out, grids.GridVariable):
      box['bc'] = out.bc
      out = out.array
    box['offset'] = out.offset
    box['grid'] = out.grid
    return out.data
  b, a, ok = lin.affine(f, shape)
  return b, a, ok, box


def expected_1axis(shape, axis, window, line):
  """Reference affine map selecting `window` of indices along axis."""
  out_shape = shape[:axis] + (len(window),) + shape[axis + 1:]
  a = np.zeros(out_shape + shape)
  b = np.zeros(out_shape)
  rows = [line.matrix_row(i) for i in window]
  for idx in np.ndindex(*out_shape):
    row, const = rows[idx[axis]]
    b[idx] = const
    for j in np.nonzero(row)[0]:
      src = idx[:axis] + (int(j),) + idx[axis + 1:]
      a[idx + src] += row[j]
  return b, a


def compare(rec, key, got, want, offset_want, box, ok, line=None):
  b, a = got
  rb, ra = want
  if line is not None:
    b, a = on_fields_with_wall_values(b, a, line)
    rb, ra = on_fields_with_wall_values(rb, ra, line)
  good = rec.expect(ok, key, 'operation is not affine in the field')
  good &= rec.close(b, rb, key, 'constant part')
  if good:
    good &= rec.close(a, ra, key, 'linear part')
  good &= rec.expect(
      len(box['offset']) == len(offset_want) and
      np.allclose(box['offset'], offset_want), key,
      f"offset {box['offset']} != expected {offset_want}")
  rec.outcome(a)
  rec.outcome(b)
  return good


def unit_single(rec, n, h):
  for t in SIDES:
    for o in OFFSETS:
      if not legal(t, o):
        continue
      for vals in [(0.0, 0.0), (1.25, -2.5), (None, None)]:
        if t == (P, P) and vals == (1.25, -2.5):
          continue
        if vals[0] is None and t != (P, P):
          continue
        bc = make_bc((t,), (vals,))
        grid = grids.Grid((n,), domain=((-1.0, -1.0 + n * h),))
        for mode in ('mirror', 'extend'):
          line = ref_bc.Line(n, o, t[0], t[1], vals[0] or 0., vals[1] or 0., h, mode)
          rec.state(n, t, o, vals, mode)
          top = 2 * n if t == (P, P) else n
          if mode == 'mirror' and o != 0.5:
            top = n - 1
          for k in range(-top, top + 1):
            key = f'{t[0]}/{t[1]} n={n} offset={o} values={vals} mode={mode} h={h}'
            # shift
            ck = f'shift({k}) {key}'
            done, r = rec.attempt(
                lambda: eval_op(bc, grid, (o,), lambda u: bc.shift(u, k, 0, mode=mode), (n,)),
                ck, 'shift')
            rec.step()
            if done:
              want = expected_1axis((n,), 0, range(k, n + k), line)
              if compare(rec, ck, r[:2], want, (o + k,), r[3], r[2], line):
                rec.trace()
            # pad with an int
            ck = f'pad({k}) {key}'
            done, r = rec.attempt(
                lambda: eval_op(bc, grid, (o,), lambda u: bc.pad(u, k, 0, mode=mode), (n,)),
                ck, 'pad')
            rec.step()
            if done:
              lo, hi = min(k, 0), n + max(k, 0)
              want = expected_1axis((n,), 0, range(lo, hi), line)
              if compare(rec, ck, r[:2], want, (o + lo,), r[3], r[2], line):
                rec.trace()
          # two sided pads
          for w in itertools.product(range(0, min(3, n)), repeat=2):
            ck = f'pad({w}) {key}'
            done, r = rec.attempt(
                lambda: eval_op(bc, grid, (o,), lambda u: bc.pad(u, w, 0, mode=mode), (n,)),
                ck, 'pad')
            rec.step()
            if done:
              want = expected_1axis((n,), 0, range(-w[0], n + w[1]), line)
              if compare(rec, ck, r[:2], want, (o - w[0],), r[3], r[2], line):
                rec.trace()
      rec.sample(dict(n=n, bc=t, offset=o))


def on_fields_with_wall_values(b, a, line):
  """Restricts an affine map to fields whose wall entries hold the wall value."""
  b, a = b.copy(), a.copy()
  if line.o != 0.5 and line.lo != P:
    for i in range(line.n):
      if i + int(line.o) in (0, line.n):
        b += a[..., i] * line.extend(i)[1]
        a[..., i] = 0
  return b, a


def unit_history(rec, n, depth):
  """Breadth-first search over operation histories on one line."""
  h = 0.5
  for t in SIDES:
    for o in OFFSETS:
      if not legal(t, o):
        continue
      for vals in [(0.0, 0.0), (1.25, -2.5)]:
        if t == (P, P) and vals != (0.0, 0.0):
          continue
        bc = make_bc((t,), (vals,))
        grid = grids.Grid((n,), step=h)
        for mode in ('extend', 'mirror'):
          if mode == 'mirror' and vals != (0., 0.):
            continue
          line = ref_bc.Line(n, o, t[0], t[1], vals[0], vals[1], h, mode)
          walls = [i for i in range(n) if t != (P, P) and o != 0.5 and i + int(o) in (0, n)]
          x0 = lin.generic((n,))
          for i in walls:   # start from a field that respects its condition
            x0[i] = line.extend(i)[1]
          basis = np.concatenate([x0[None], x0[None] + np.array(
              [e for j, e in enumerate(np.eye(n)) if j not in walls])])

          def expected(win):
            rows = [line.matrix_row(i) for i in win]
            m = np.array([r for r, _ in rows])
            c = np.array([c for _, c in rows])
            return basis.dot(m.T) + c
          start = (0, n)
          seen = {start: []}
          frontier = collections.deque([(start, basis, (o,))])
          dist = {start: 0}
          while frontier:
            win, data, off = frontier.popleft()
            if dist[win] >= depth:
              continue
            for name, arg, nwin in successors(win, n, o, t, mode):
              if nwin is None or nwin[1] - nwin[0] < 1:
                continue
              key = (f'history {seen[win] + [(name, arg)]} {t[0]}/{t[1]} n={n} '
                     f'offset={o} values={vals} mode={mode}')
              box = {}

              def f(d):
                u = grids.GridArray(d, off, grid)
                if name == 'shift':
                  u = bc.shift(u, arg, 0, mode=mode)
                elif name == 'pad':
                  u = bc.pad(u, arg, 0, mode=mode)
                elif name == 'trim':
                  u = bc.trim(u, arg, 0)
                elif name == 'trim_boundary':
                  u = bc.trim_boundary(u)
                elif name == 'impose_bc':
                  u = bc.impose_bc(u).array
                box['o'] = u.offset
                return u.data
              done, out = rec.attempt(
                  lambda: np.asarray(jax.vmap(f)(jnp.asarray(data))), key, name)
              rec.step()
              if not done:
                continue
              want = expected(range(*nwin))
              good = rec.close(out, want, key, 'values')
              good &= rec.expect(np.isclose(box['o'][0], o + nwin[0]), key,
                                 f"offset {box['o']} expected {o + nwin[0]}")
              rec.outcome(out)
              rec.state(n, t, o, vals, mode, nwin)
              if good:
                rec.trace()
              if good and nwin not in seen:
                seen[nwin] = seen[win] + [(name, arg)]
                dist[nwin] = dist[win] + 1
                frontier.append((nwin, out, box['o']))
          rec.sample(dict(n=n, bc=t, offset=o, windows=len(seen),
                          example=max(seen.values(), key=len)))


def successors(win, n, o, t, mode):
  """Enabled operations on an array holding the index window `win`."""
  lo, hi = win
  size = hi - lo
  per = t == (P, P)
  maxdepth = (n - 1 if mode == 'mirror' else n)
  # cells that carry information the condition does not define
  if per:
    full = size >= n
    can_low = can_high = full
  elif o == 0.5:
    inner_lo, inner_hi = 0, n
    full = lo <= 0 and hi >= n
    can_low = can_high = full
    if mode == 'extend':
      # one-sided: only the cells next to the wall are needed
      can_high = size >= n and lo <= n - 1 and hi >= n
      can_low = size >= n and lo <= 0 and hi >= 1
  else:
    inner_lo, inner_hi = 1 - int(o), n - int(o)
    full = lo <= inner_lo and hi >= inner_hi and size >= n
    can_low = can_high = full

  out = []
  for k in (-2, -1, 1, 2):
    if (k < 0 and not can_low) or (k > 0 and not can_high):
      continue
    nlo, nhi = (lo + k, hi) if k < 0 else (lo, hi + k)
    if not per and (nlo < -maxdepth or nhi > n + maxdepth):
      continue
    if per and (nlo < -2 * n or nhi > 3 * n):
      continue
    out.append(('pad', k, (nlo, nhi)))
    out.append(('shift', k, (lo + k, hi + k)))
  for w in ((1, 1), (2, 1), (0, 2)):
    nlo, nhi = lo - w[0], hi + w[1]
    if can_low and can_high and full:
      if per and (nlo < -2 * n or nhi > 3 * n):
        continue
      if not per and (nlo < -maxdepth or nhi > n + maxdepth):
        continue
      out.append(('pad', w, (nlo, nhi)))
  # trimming may not drop information (except through shift)
  if lo < 0:
    out.append(('trim', -1, (lo + 1, hi)))
  if hi > n:
    out.append(('trim', 1, (lo, hi - 1)))
  if full and not per and lo <= 0:
    if o == 0.5:
      if lo <= 0 and hi >= n:
        out.append(('trim_boundary', None, (0, n)))
        out.append(('impose_bc', None, (0, n)))
    elif size >= n and lo <= 0 and hi >= n - int(o):
      out.append(('trim_boundary', None, (inner_lo, inner_hi)))
      if (lo, hi) == (0, n):
        out.append(('impose_bc', None, (0, n)))
  return out


def unit_nd(rec, shape, axis, widths):
  """One axis of a box; every other axis gets every kind of condition."""
  ndim = len(shape)
  steps = (0.5, 2.0, 0.25)[:ndim]
  lows = (-1.0, 3.0, 0.5)[:ndim]
  domain = tuple((l, l + n * s) for l, n, s in zip(lows, shape, steps))
  grid = grids.Grid(shape, domain=domain)
  others = [i for i in range(ndim) if i != axis]
  okinds = [((P, P), (None, None)), ((P, P), (0.0, 0.0)), ((D, D), (3.0, 4.0)),
            ((N, D), (0.0, -1.0)), ((N, N), (0.0, 0.0))]
  for t in SIDES:
    for o in OFFSETS:
      if not legal(t, o):
        continue
      for vals in [(0.0, 0.0), (1.5, -0.5)]:
        if t == (P, P) and vals != (0., 0.):
          continue
        for combo in itertools.product(okinds, repeat=len(others)):
          if ndim == 3 and len({c for c in combo}) == 1 and combo[0][0] == (N, N):
            pass
          types = [None] * ndim
          values = [None] * ndim
          offset = [None] * ndim
          types[axis], values[axis], offset[axis] = t, vals, o
          for i, (ct, cv) in zip(others, combo):
            types[i], values[i] = ct, cv
            offset[i] = 1.0 if ct == (D, D) else 0.5
          bc = boundaries.ConstantBoundaryConditions(tuple(types), tuple(values))
          for mode in ('extend', 'mirror'):
            line = ref_bc.Line(shape[axis], o, t[0], t[1], vals[0], vals[1],
                               grid.step[axis], mode)
            for k in widths:
              if mode == 'mirror' and o != .5 and abs(k) > shape[axis] - 1:
                continue
              if abs(k) > shape[axis]:
                continue
              key = (f'shift({k}) axis={axis} shape={shape} types={types} '
                     f'values={values} offset={offset} mode={mode}')
              rec.state(shape, axis, tuple(types), tuple(values), tuple(offset), mode, k)
              done, r = rec.attempt(
                  lambda: eval_op(bc, grid, tuple(offset),
                                  lambda u: bc.shift(u, k, axis, mode=mode), shape),
                  key, 'shift')
              rec.step()
              if not done:
                continue
              want = expected_1axis(shape, axis,
                                    range(k, shape[axis] + k), line)
              woff = list(offset)
              woff[axis] += k
              good = compare(rec, key, r[:2], want, tuple(woff), r[3], r[2])
              good &= rec.expect(r[3]['grid'] == grid, key, 'grid changed')
              if good:
                rec.trace()
              rec.sample(dict(key=key))


def unit_var(rec):
  """GridVariable.shift, default mode, axis handling, pad_all, values()."""
  for shape in ((3,), (2, 3), (2, 3, 2)):
    ndim = len(shape)
    grid = grids.Grid(shape, step=(0.5, 0.25, 2.0)[:ndim])
    raw = lin.generic(shape)
    kinds = [((P, P), 0.5, (0., 0.)), ((P, P), 1.0, (0., 0.)),
             ((D, D), 0.5, (1., 2.)), ((D, D), 1.0, (1., 2.)),
             ((D, D), 0.0, (0., 0.)), ((N, D), 0.5, (-1., 2.)), ((N, N), 0.5, (1., 3.))]
    for combo in itertools.product(kinds, repeat=ndim):
      if ndim == 3 and len(set(combo)) == 1 and combo[0] != kinds[3]:
        continue
      types, offset, values = map(tuple, zip(*combo))
      bc = boundaries.ConstantBoundaryConditions(types, values)
      rec.state(shape, combo)
      data = raw.copy()      # a field that respects its condition on the walls
      for axis in range(ndim):
        d = np.moveaxis(data, axis, 0)
        if types[axis] == (D, D) and offset[axis] == 1.0:
          d[-1] = values[axis][1]
        if types[axis] == (D, D) and offset[axis] == 0.0:
          d[0] = values[axis][0]
      u = grids.GridVariable(grids.GridArray(jnp.asarray(data), offset, grid), bc)
      key = f'variable shape={shape} types={types} offset={offset} values={values}'
      for axis in range(ndim):
        line = ref_bc.Line(shape[axis], offset[axis], *types[axis], *values[axis],
                           grid.step[axis], 'extend')
        for k in (-1, 1):
          done, s = rec.attempt(lambda: u.shift(k, axis), key, 'GridVariable.shift')
          rec.step()
          if not done:
            continue
          b, a = expected_1axis(shape, axis, range(k, shape[axis] + k), line)
          good = rec.close(s.data, b + lin.apply(a, data), key, f'u.shift({k},{axis})')
          wo = list(offset)
          wo[axis] += k
          good &= rec.expect(np.allclose(s.offset, wo), key, f'offset {s.offset}')
          rec.outcome(s.data)
          if good:
            rec.trace()
        done, v = rec.attempt(lambda: bc.values(axis, grid), key, 'values')
        rec.step()
        if done:
          sh = shape[:axis] + shape[axis + 1:]
          if types[axis] == (P, P):
            rec.expect(v == (None, None), key, f'boundary value along a periodic axis {axis}: {v}')
            continue
          for got, want in zip(v, values[axis]):
            rec.close(got, np.full(sh, want), key, f'boundary value axis {axis}')
      # pad_all = extension along each axis in turn
      width = ((1, 1), (1, 2), (1, 1))[:ndim]
      for mode in ('extend', 'mirror'):
        done, out = rec.attempt(lambda: bc.pad_all(u.array, width, mode=mode), key, 'pad_all')
        rec.step()
        if not done:
          continue
        x = data
        wo = list(offset)
        for axis in range(ndim):
          line = ref_bc.Line(shape[axis], offset[axis], *types[axis], *values[axis],
                             grid.step[axis], mode)
          win = list(range(-width[axis][0], shape[axis] + width[axis][1]))
          rows = [line.matrix_row(i) for i in win]
          m = np.array([r for r, _ in rows])
          c = np.array([c for _, c in rows])
          x = np.moveaxis(np.tensordot(m, np.moveaxis(x, axis, 0), axes=1)
                          + c.reshape((-1,) + (1,) * (ndim - 1)), 0, axis)
          wo[axis] -= width[axis][0]
        good = rec.close(out.data, x, key, f'pad_all {mode}')
        good &= rec.expect(np.allclose(out.offset, wo), key, f'pad_all offset {out.offset}')
        if good:
          rec.trace()
    rec.sample(dict(shape=shape))


def unit_refuse(rec):
  """Arrays that do not hold every interior value are refused."""
  for shape in ((3,), (4,), (5,), (3, 4), (4, 3), (2, 3, 4)):
    ndim = len(shape)
    grid = grids.Grid(shape, step=0.5)
    for axis in range(ndim):
      n = shape[axis]
      for t in SIDES:
        for o in OFFSETS:
          if not legal(t, o):
            continue
          types = [(P, P)] * ndim
          values = [(None, None)] * ndim
          types[axis] = t
          values[axis] = (0., 0.) if t == (P, P) else (1.25, -2.5)
          bc = make_bc(types, values)
          offset = [.5] * ndim
          offset[axis] = o
          interior = n - 1 if t[1] == D and o == 1 else n
          for m in range(1, n + 1):
            sh = list(shape)
            sh[axis] = m
            u = grids.GridArray(jnp.ones(sh), tuple(offset), grid)
            for name, op in (('pad', lambda: bc.pad(u, 1, axis)), ('pad lower', lambda: bc.pad(u, -1, axis)),
                             ('trim_boundary', lambda: bc.trim_boundary(u)), ('impose_bc', lambda: bc.impose_bc(u)),
                             ('pad_and_impose_bc', lambda: bc.pad_and_impose_bc(u))):
              key = f'{name} of {m} values shape={shape} axis={axis} {t} offset={o}'
              rec.step()
              rec.state(shape, axis, t, o, m, name)
              if m < interior:
                rec.raises(op, key, 'interior values missing', (ValueError,))
              else:
                rec.attempt(op, key, 'complete interior')
              rec.outcome((name, m < interior))
              rec.trace()


def unit_jit(rec):
  """The same answers under jit, in the default precision, and in a loop."""
  for n in (3, 4):
    grid = grids.Grid((n,), step=0.5)
    for t in SIDES:
      for o in OFFSETS:
        if not legal(t, o):
          continue
        vals = (0., 0.) if t == (P, P) else (1.25, -2.5)
        bc = make_bc((t,), (vals,))
        data = lin.generic((n,)).astype(np.float32)
        line = ref_bc.Line(n, o, t[0], t[1], vals[0], vals[1], .5, 'extend')
        for k in (-2, -1, 1, 2):
          key = f'jit shift({k}) {t} n={n} offset={o}'
          u = grids.GridVariable(grids.GridArray(jnp.asarray(data), (o,), grid), bc)
          done, s = rec.attempt(
              lambda: jax.jit(lambda v: v.shift(k, 0))(u), key, 'jit shift')
          rec.step()
          rec.state(n, t, o, k)
          if not done:
            continue
          b, a = expected_1axis((n,), 0, range(k, n + k), line)
          good = rec.close(s.data, b + a.dot(data), key, 'jit', rtol=1e-5, atol=1e-5)
          good &= rec.expect(s.dtype == np.float32, key, f'dtype {s.dtype}')
          good &= rec.expect(np.allclose(s.offset, (o + k,)), key, 'offset')
          rec.outcome(s.data)
          if good:
            rec.trace()


def units(tier):
  thorough = tier == 'thorough'
  out = []
  for n in range(2, 9 if thorough else 6):
    out.append((f'single-n{n}', unit_single, dict(n=n, h=0.5)))
    out.append((f'history-n{n}', unit_history,
                dict(n=n, depth=4 if thorough else 2 + (n < 4))))
  if thorough:
    out.append(('single-h2', unit_single, dict(n=4, h=2.0)))
  shapes = [(3, 2), (2, 4)]
  if thorough:
    shapes += [(3, 3), (5, 2)]
  for s in shapes:
    for ax in range(2):
      out.append((f'nd-{s}-{ax}', unit_nd,
                  dict(shape=s, axis=ax, widths=(-2, -1, 1, 2))))
  for ax in range(3):
    out.append((f'nd-3d-{ax}', unit_nd,
                dict(shape=(3, 2, 2), axis=ax,
                     widths=(-2, -1, 1, 2) if thorough else (-1, 2))))
  out.append(('variable', unit_var, {}))
  out.append(('refuse', unit_refuse, {}))
  out.append(('jit', unit_jit, dict(x64=False)))
  return out
