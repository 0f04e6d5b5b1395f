"""Deciding (affine) linear operators by enumerating every unit impulse."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np


def affine(f, shape, dtype=np.float64, probe=True):
  """Returns (b, A, ok): f(x) == b + A.x for arrays x of `shape`.

  f maps one array to one array.  A has shape (*out, *shape); every one of the
  prod(shape) unit impulses is pushed through the real operator.  ok is False
  when two generic (non-basis) inputs do not agree with b + A.x, i.e. when the
  operator is not affine.
  """
  n = int(np.prod(shape))
  basis = np.concatenate([np.zeros((1, n)), np.eye(n)]).reshape((n + 1,) + tuple(shape))
  g = generic(shape)
  xs = np.concatenate([basis, g[None], g[::-1][None] * 3 - 7]).astype(dtype)
  ys = np.asarray(jax.vmap(f)(jnp.asarray(xs)))
  b = ys[0]
  a = ys[1:n + 1] - b
  am = np.moveaxis(a, 0, -1).reshape(b.shape + tuple(shape))
  ok = True
  if probe:
    for i in (n + 1, n + 2):
      pred = b + a.reshape(n, -1).T.dot(xs[i].ravel()).reshape(b.shape)
      tol = 1e-8 if dtype == np.float64 else 1e-3
      ok &= bool(np.allclose(pred, ys[i], rtol=tol,
                             atol=tol * (1 + np.abs(pred).max(initial=0))))
  return b, am, ok


def generic(shape, k=0):
  """A fixed, generic (no symmetry, distinct values) field."""
  n = int(np.prod(shape))
  i = np.arange(n, dtype=np.float64)
  v = np.mod((i + 1 + 13 * k) * 0.61803398875 * 7 + (i + 2) ** 2 * 0.3247179, 2.0) - 0.9
  out = np.round(v * 64) / 64 + i / 1024. if n < 2000 else v
  return out.reshape(shape)


def apply(a, x):
  k = np.ndim(x)
  return np.tensordot(a, x, axes=k)


def impulses(shape):
  n = int(np.prod(shape))
  return np.eye(n).reshape((n,) + tuple(shape))


def words(alphabet, n):
  return np.array(list(itertools.product(alphabet, repeat=n)), dtype=np.float64)
