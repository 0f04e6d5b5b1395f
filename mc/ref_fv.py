"""Reference staggered-grid operators as explicit dense matrices (numpy only)."""
import itertools

import numpy as np

P, D, N = 'periodic', 'dirichlet', 'neumann'


def shift_matrix(n, k, lo, hi, vlo, vhi, offset, h, mode='extend'):
  """Affine (S, s): S x + s is x seen from k cells further along one line."""
  from mc import ref_bc
  line = ref_bc.Line(n, offset, lo, hi, vlo or 0., vhi or 0., h, mode)
  rows = [line.matrix_row(i + k) for i in range(n)]
  return np.array([r for r, _ in rows]), np.array([c for _, c in rows])


def along(mat, shape, axis):
  """Lifts a line matrix to the box as a dense (prod, prod) matrix."""
  out = np.eye(1)
  for i, n in enumerate(shape):
    out = np.kron(out, mat if i == axis else np.eye(n))
  return out


def along_vec(vec, shape, axis):
  sh = [1] * len(shape)
  sh[axis] = shape[axis]
  return np.broadcast_to(np.reshape(vec, sh), shape).ravel().copy()


class Field:
  """bc description of one scalar: types, values per axis, offset."""

  def __init__(self, shape, steps, types, values, offset):
    self.shape, self.steps = tuple(shape), tuple(steps)
    self.types, self.values, self.offset = types, values, offset
    self.size = int(np.prod(shape))

  def shift(self, axis, k):
    m, c = shift_matrix(self.shape[axis], k, *self.types[axis],
                        *self.values[axis], self.offset[axis], self.steps[axis])
    return along(m, self.shape, axis), along_vec(c, self.shape, axis)

  def backward(self, axis):
    s, c = self.shift(axis, -1)
    h = self.steps[axis]
    return (np.eye(self.size) - s) / h, -c / h

  def forward(self, axis):
    s, c = self.shift(axis, 1)
    h = self.steps[axis]
    return (s - np.eye(self.size)) / h, c / h

  def central(self, axis):
    s, c = self.shift(axis, 1)
    t, d = self.shift(axis, -1)
    h = self.steps[axis]
    return (s - t) / (2 * h), (c - d) / (2 * h)

  def laplacian(self):
    a = np.zeros((self.size, self.size))
    b = np.zeros(self.size)
    for axis in range(len(self.shape)):
      s, c = self.shift(axis, 1)
      t, d = self.shift(axis, -1)
      h2 = self.steps[axis] ** 2
      a += (s + t - 2 * np.eye(self.size)) / h2
      b += (c + d) / h2
    return a, b


def velocity_fields(shape, steps, axes_kind, tangential, normal_values):
  """Fields of a staggered velocity.

  axes_kind[a]: 'p' or 'w'; tangential: per-axis (types, values) used by the
  components that are cell centred along a walled axis.
  """
  ndim = len(shape)
  out = []
  for comp in range(ndim):
    types, values, offset = [], [], []
    for ax in range(ndim):
      offset.append(1.0 if ax == comp else 0.5)
      if axes_kind[ax] == 'p':
        types.append((P, P))
        values.append((0.0, 0.0))
      elif ax == comp:
        types.append((D, D))
        values.append(normal_values)
      else:
        types.append(tangential[0])
        values.append(tangential[1])
    out.append(Field(shape, steps, tuple(types), tuple(values), tuple(offset)))
  return out


def free_mask(field):
  """True for entries the boundary condition leaves free."""
  m = np.ones(field.shape, bool)
  for ax, (t, o) in enumerate(zip(field.types, field.offset)):
    if t == (D, D) and o != 0.5:
      mm = np.moveaxis(m, ax, 0)
      mm[-1 if o == 1.0 else 0] = False
  return m.ravel()


def wall_values(field):
  """The field holding wall values on wall entries and 0 elsewhere."""
  x = np.zeros(field.shape)
  for ax, (t, o, v) in enumerate(zip(field.types, field.offset, field.values)):
    if t == (D, D) and o != 0.5:
      xx = np.moveaxis(x, ax, 0)
      if o == 1.0:
        xx[-1] = v[1]
      else:
        xx[0] = v[0]
  return x.ravel()


def free_basis(fields):
  """All fields respecting their conditions: base + every free unit impulse."""
  sizes = [f.size for f in fields]
  tot = sum(sizes)
  base = np.concatenate([wall_values(f) for f in fields])
  mask = np.concatenate([free_mask(f) for f in fields])
  e = np.eye(tot)[mask]
  return base, np.concatenate([base[None], base[None] + e]), mask
