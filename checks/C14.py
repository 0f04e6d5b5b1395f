"""C14: array utilities agree with their definition on every small input.

Slicing, splitting, concatenation and block reduction are explored as
histories of operations on nested trees against a plain NumPy list model;
orthogonalisation over every small integer matrix; table interpolation over
every small table, permutation, position and extension mode.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import array_utils as au

PROPERTY = 'C14'
RULE = ('state = contents of a tree after a history of split/concat/slice operations, or one matrix, or one table x position x mode; transition = one '
        'real call; validated when the outcome equals the NumPy model')
BOUNDS = ('trees of 1-3 arrays with up to 4 dimensions and 4 entries per axis, every axis (negative too) and index, histories up to depth 3 '
          '(thorough 4); matrices with entries in {-1,0,1,2} up to 4x2 and {-1,0,1} 3x3; tables with 2-4 knots in {0..4}, all permutations, all half-integer positions in and around')
ASSUMPTIONS = ['matrices have full column rank', 'the knots of a table are distinct']

SHAPES = ((3,), (2, 3), (3, 1), (2, 4, 3), (2, 1, 3, 2))


def distinct(shape, k=0):
  n = int(np.prod(shape))
  return (np.arange(n, dtype=np.float64) + 100 * k + .5).reshape(shape)


def trees(shape):
  a, b, c = (distinct(shape, k) for k in range(3))
  return [a, (a,), (a, b), {'x': a, 'y': (b, c)}, [a, {'z': b}]]


def leaves(t):
  return jax.tree.leaves(t)


def same(rec, got, want, key, what):
  ok = rec.expect(jax.tree.structure(got) == jax.tree.structure(want), key, f'{what}: structure {jax.tree.structure(got)}')
  if not ok:
    return False
  return all([rec.close(np.asarray(x), y, key, what, rtol=0) for x, y in zip(leaves(got), leaves(want))])


def unit_slicing(rec, shape):
  nd = len(shape)
  for ti, t in enumerate(trees(shape)):
    jt = jax.tree.map(jnp.asarray, t)
    for axis in range(-nd, nd):
      n = shape[axis]
      take = lambda x, s: x[tuple(s if j == axis % nd else slice(None) for j in range(nd))]
      idxs = list(range(-n, n)) + [slice(a, b, s) for a in (None, 0, 1, -1) for b in (None, n, n - 1, -1, n + 2) for s in (None, 2, -1)]
      for idx in idxs:
        key = f'slice {shape} tree {ti} axis {axis} {idx}'
        rec.state(key)
        rec.step()
        done, out = rec.attempt(lambda: au.slice_along_axis(jt, axis, idx), key, 'slice')
        rec.trace(done and same(rec, out, jax.tree.map(lambda x: take(x, idx), t), key, 'slice'))
        rec.outcome([np.asarray(x).tolist() for x in leaves(out)] if done else None)
      for i in range(-n - 1, n + 2):
        key = f'split {shape} tree {ti} axis {axis} at {i}'
        rec.state(key)
        rec.step()
        done, out = rec.attempt(lambda: au.split_along_axis(jt, i, axis), key, 'split')
        if done:
          want = tuple(jax.tree.map(lambda x: take(x, s), t) for s in (slice(0, i), slice(i, None)))
          ok = same(rec, tuple(out), want, key, 'split')
          ok &= same(rec, au.concat_along_axis(out, axis), t, key, 'rejoined')
          rec.trace(bool(ok))
      for keep in (False, True):
        key = f'split_axis {shape} tree {ti} axis {axis} {keep}'
        rec.state(key)
        rec.step()
        done, out = rec.attempt(lambda: au.split_axis(jt, axis, keep), key, 'split_axis')
        if done:
          want = tuple(jax.tree.map(lambda x: take(x, slice(i, i + 1) if keep else i), t) for i in range(n))
          ok = rec.expect(isinstance(out, tuple) and len(out) == n, key, 'number of slices')
          ok = ok and same(rec, out, want, key, 'slices')
          if keep:
            ok = ok and same(rec, au.concat_along_axis(out, axis), t, key, 'rejoined')
          rec.trace(bool(ok))
      out = au.unstack(jnp.asarray(leaves(t)[0]), axis)
      same(rec, out, tuple(take(leaves(t)[0], i) for i in range(n)), f'unstack {shape} axis {axis}', 'unstack')
    for bad in (nd, -nd - 1):
      rec.raises(lambda: au.slice_along_axis(jt, bad, 0), f'slice {shape} axis {bad}', 'axis outside the array', (ValueError,))
      rec.raises(lambda: au.split_along_axis(jt, 1, bad), f'split {shape} axis {bad}', 'axis outside the array', (ValueError,))
  # arrays of different rank: the same axis of each, on request only
  mixed = (jnp.asarray(distinct(shape)), jnp.asarray(distinct((2,) + shape)))
  rec.raises(lambda: au.slice_along_axis(mixed, -1, 0), f'slice {shape} mixed', 'different ranks', (ValueError,))
  rec.raises(lambda: au.split_along_axis(mixed, 1, -1), f'split {shape} mixed', 'different ranks', (ValueError,))
  for axis in (0, -1):
    for s in (0, slice(0, 1)):
      out = au.slice_along_axis(mixed, axis, s, expect_same_dims=False)
      for x, y in zip(out, mixed):
        rec.close(np.asarray(x), np.take(np.asarray(y), [0] if isinstance(s, slice) else 0, axis), f'slice {shape} mixed axis {axis}', 'slice')
    a, b = au.split_along_axis(mixed, 1, axis, expect_same_dims=False)
    same(rec, au.concat_along_axis([a, b], axis), tuple(map(np.asarray, mixed)), f'split {shape} mixed axis {axis}', 'rejoined')
  rec.raises(lambda: au.split_axis((jnp.zeros((2, 3)), jnp.zeros((3, 3))), 0), 'split_axis unequal', 'unequal sizes', (ValueError,))


def unit_histories(rec, depth):
  """Histories of split, take-one-part, join on trees, against a NumPy model."""
  base = {'x': distinct((2, 3)), 'y': (distinct((4, 3), 1),)}
  ops = [('part', a, i, side) for a, i in ((0, 1), (1, 1), (1, 2), (-1, -1)) for side in (0, 1)] + \
        [('join', a) for a in (0, 1)] + [('rotate', a, i) for a in (0, 1) for i in (1, 2)] + [('restack', a) for a in (0, 1)]

  def model(t, op):
    if op[0] == 'part':
      s = slice(0, op[2]) if op[3] == 0 else slice(op[2], None)
      return jax.tree.map(lambda x: x[s] if op[1] % 2 == 0 else x[:, s], t)
    if op[0] == 'join':
      return jax.tree.map(lambda x: np.concatenate([x, 2 * x], op[1]), t)
    if op[0] == 'rotate':
      return jax.tree.map(lambda x: np.concatenate([np.split(x, [op[2]], op[1])[1], np.split(x, [op[2]], op[1])[0]], op[1]), t)
    return jax.tree.map(lambda x: np.flip(x, op[1]), t)

  def real(t, op):
    if op[0] == 'part':
      return au.split_along_axis(t, op[2], op[1])[op[3]]
    if op[0] == 'join':
      return au.concat_along_axis([t, jax.tree.map(lambda x: 2 * x, t)], op[1])
    if op[0] == 'rotate':
      return au.concat_along_axis(au.split_along_axis(t, op[2], op[1])[::-1], op[1])
    sizes = {x.shape[op[1]] for x in leaves(t)}
    if len(sizes) > 1:
      rec.raises(lambda: au.split_axis(t, op[1], True), 'history unequal', 'unequal sizes', (ValueError,))
      return jax.tree.map(lambda x: jnp.flip(x, op[1]), t)
    return au.concat_along_axis(au.split_axis(t, op[1], keep_dims=True)[::-1], op[1])
  frontier = [((), base, jax.tree.map(jnp.asarray, base))]
  for _ in range(depth):
    new = []
    for hist, m, r in frontier:
      for op in ops:
        if any(x.shape[op[1]] == 0 for x in leaves(m)) or max(x.size for x in leaves(m)) > 60:
          continue
        h = hist + (op,)
        m2 = model(m, op)
        rec.step()
        done, r2 = rec.attempt(lambda: real(r, op), f'history {h}', 'operation')
        if not done:
          continue
        if rec.state([np.asarray(x).tolist() for x in leaves(m2)]):
          new.append((h, m2, r2))
        rec.trace(same(rec, r2, m2, f'history {h}', 'contents'))
        rec.outcome([np.asarray(x) for x in leaves(m2)])
    frontier = new


def unit_blocks(rec, shape):
  nd = len(shape)
  x = distinct(shape)
  divisors = [[d for d in range(1, n + 1) if n % d == 0] for n in shape]
  for block in itertools.product(*divisors):
    split = x.reshape(sum(([n // b, b] for n, b in zip(shape, block)), []))
    bl = np.moveaxis(split, range(0, 2 * nd, 2), range(nd))
    inner = tuple(range(nd, 2 * nd))
    for name, f, want in (('mean', jnp.mean, bl.mean(inner)), ('sum', jnp.sum, bl.sum(inner)), ('max', jnp.max, bl.max(inner)), ('min', jnp.min, bl.min(inner)),
                          ('first', lambda a: a[(0,) * nd], bl[(Ellipsis,) + (0,) * nd]), ('last', lambda a: a[(-1,) * nd], bl[(Ellipsis,) + (-1,) * nd]),
                          ('whole', lambda a: a, bl), ('shape', lambda a: jnp.asarray(a.shape), np.broadcast_to(np.array(block), [n // b for n, b in zip(shape, block)] + [nd]))):
      key = f'block {shape}/{block} {name}'
      rec.state(key)
      rec.step()
      done, out = rec.attempt(lambda: au.block_reduce(jnp.asarray(x), block, f), key, 'block_reduce')
      rec.trace(done and rec.close(np.asarray(out), want, key, 'blocks'))
      rec.outcome(want)
    for ax in range(nd):
      for bad in range(1, shape[ax] + 2):
        if shape[ax] % bad:
          rec.raises(lambda: au.block_reduce(jnp.asarray(x), block[:ax] + (bad,) + block[ax + 1:], jnp.mean), f'block {shape}/{block} {bad}', 'indivisible', (ValueError,))


def unit_qr(rec, rows, cols, alphabet):
  mats = np.array(list(itertools.product(alphabet, repeat=rows * cols)), float).reshape(-1, rows, cols)
  grams = np.einsum('nij,nik->njk', mats, mats)
  mats = mats[np.linalg.det(grams) > .5]
  fn = jax.jit(jax.vmap(au.gram_schmidt_qr))
  q, r = map(np.asarray, fn(jnp.asarray(mats)))
  rec.step(len(mats))
  key = f'qr {rows}x{cols}'
  for i in range(len(mats)):
    rec.state(key, i)
  ok = rec.expect(q.shape == (len(mats), rows, cols) and r.shape == (len(mats), cols, cols), key, 'shapes')

  def each(a, b, what):
    bad = np.flatnonzero(np.abs(a - b).reshape(len(mats), -1).max(1) > 1e-10)
    if len(bad):
      rec.fail(f'{key} {mats[bad[0]].tolist()}', f'{what}: got {a[bad[0]].tolist()}; {len(bad)} matrices')
    return not len(bad)
  ok &= each(np.einsum('nij,njk->nik', q, r), mats, 'product')
  ok &= each(np.einsum('nij,nik->njk', q, q), np.broadcast_to(np.eye(cols), r.shape), 'orthonormal columns')
  ok &= each(np.tril(r, -1), 0 * r, 'upper triangular')
  ok &= rec.expect(np.all(np.einsum('nii->ni', r) > 0), key, 'positive diagonal')
  if ok:
    rec.trace(len(mats))
  for x in r[::max(1, len(r) // 50)]:
    rec.outcome(np.round(x, 6))
  if cols == 1:
    return
  # the same through a batch of one, and per precision argument
  for p in (jax.lax.Precision.DEFAULT, jax.lax.Precision.HIGH):
    a, b = au.gram_schmidt_qr(jnp.asarray(mats[-1]), p)
    rec.close(np.asarray(a), q[-1], key, f'precision {p}')
    rec.close(np.asarray(b), r[-1], key, f'precision {p}')


def table_ref(x, y, pos, fill):
  """Reference for one position on sorted knots: weights on knots, or the fill."""
  n = len(x)
  w = np.zeros(n)
  if fill == 'constant_extrapolate':
    pos = min(max(pos, x[0]), x[-1])
  elif fill != 'extrapolate' and not x[0] <= pos <= x[-1]:
    return None
  i = min(max(sum(k <= pos for k in x), 1), n - 1)
  s = (pos - x[i - 1]) / (x[i] - x[i - 1])
  w[i - 1], w[i] = 1 - s, s
  return w


def unit_interp(rec, n):
  positions = np.arange(-3, 13) / 2.
  for knots in itertools.combinations(range(5), n):
    xs = np.array(knots, float) * .75 - .5
    pos = positions * .75 - .5
    for fill in ('extrapolate', 'constant_extrapolate', float('nan'), 0., -7.25, 3):
      ws = [table_ref(xs, None, p, fill) for p in pos]
      for perm in itertools.permutations(range(n)):
        ordered = perm == tuple(range(n))
        perm = np.array(perm)
        for flag in ((True, False) if ordered else (False,)):
          y = np.eye(n)[perm]          # impulses: y[:, j] is the table of knot j
          key = f'table knots={knots} order={perm.tolist()} fill={fill} sorted={flag}'
          rec.state(key)
          rec.step(n)
          done, out = rec.attempt(lambda: np.asarray(au.interp1d(jnp.asarray(xs[perm]), jnp.asarray(y), axis=0, fill_value=fill, assume_sorted=flag)(jnp.asarray(pos))), key, 'interp1d')
          if not done:
            continue
          want = np.array([np.full(n, fill) if w is None else w for w in ws], float)
          rec.trace(rec.close(out, want, key, 'weights') and rec.expect(np.array_equal(np.isnan(out), np.isnan(want)), key, 'fill'))
          rec.outcome(out)
  # layouts: any axis of any table, any shape of positions
  xs = np.array([0., 1., 1.5, 4.][:n])
  for shape in ((n,), (n, 2), (2, n), (2, n, 3), (3, 2, n)):
    for axis in [a for a in range(-len(shape), len(shape)) if shape[a] == n]:
      y = distinct(shape) ** 2
      orders = [None, np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), 1)]
      for pshape, order in itertools.product(((), (1,), (5,), (2, 2), (2, 3), (2, 1, 3), (3, 1, 3)), orders):
        p = np.linspace(-.7, 4.9, max(1, int(np.prod(pshape)))).reshape(pshape)
        if order is not None and len(pshape) > 2:
          continue
        kn, tab = (xs, y) if order is None else (xs[order], np.take(y, order, axis))
        kw = {} if order is None else dict(assume_sorted=False)
        for fill in ('extrapolate', 'constant_extrapolate', 2.5):
          key = f'layout table={shape} axis={axis} positions={pshape} fill={fill} order={order}'
          rec.state(key)
          rec.step()
          done, out = rec.attempt(lambda: np.asarray(au.interp1d(kn, tab, axis, fill, **kw)(p)), key, 'interp1d')
          if not done:
            continue
          ya = np.moveaxis(y, axis, 0)
          rows = []
          for q in p.ravel():
            w = table_ref(xs, None, q, fill)
            rows.append(np.full(ya.shape[1:], fill) if w is None else np.tensordot(w, ya, 1))
          want = np.array(rows).reshape(pshape + ya.shape[1:])
          want = np.moveaxis(want, range(len(pshape)), range(axis % len(shape), axis % len(shape) + len(pshape)))
          rec.trace(rec.close(out, want, key, 'values'))
          rec.outcome(out)
  for what, f in (('fill name', lambda: au.interp1d(xs, xs, fill_value='nearest')), ('fill shape', lambda: au.interp1d(xs, xs, fill_value=np.zeros(2))),
                  ('2-d knots', lambda: au.interp1d(xs[None], xs)), ('one knot', lambda: au.interp1d(xs[:1], xs[:1])), ('scalar table', lambda: au.interp1d(xs, 1.)),
                  ('length', lambda: au.interp1d(xs, np.zeros(n + 1))), ('length axis', lambda: au.interp1d(xs, np.zeros((n, n + 1)), axis=1))):
    rec.step()
    rec.raises(f, f'rejects {what}', what, (ValueError,))


def units(tier):
  th = tier == 'thorough'
  out = [(f'slicing-{s}', unit_slicing, dict(shape=s)) for s in SHAPES]
  out.append(('histories', unit_histories, dict(depth=4 if th else 3)))
  out += [(f'blocks-{s}', unit_blocks, dict(shape=s)) for s in ((6,), (4, 6), (2, 4, 3), (2, 2, 1, 2))]
  a4, a3 = (-1, 0, 1, 2), (-1, 0, 1)
  for r, c, a in ((2, 1, a4), (2, 2, a4), (3, 2, a4), (3, 3, a3), (1, 1, (-2, .5, 1, 3))) + (((4, 2, a4), (4, 3, (0, 1, -1))) if th else ()):
    out.append((f'qr-{r}x{c}', unit_qr, dict(rows=r, cols=c, alphabet=a)))
  out += [(f'interp-{n}', unit_interp, dict(n=n)) for n in (2, 3, 4)]
  return out
