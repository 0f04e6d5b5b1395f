"""Reference model of boundary extension: plain index arithmetic, no arrays.

A field on n cells along one axis with offset o carries values at positions
(i + o) * h for i in [0, n).  `extend(i)` is the value the field takes at any
integer index i under a boundary condition, written from the mathematical
definition of the condition:

  periodic    u(x + L) = u(x)
  dirichlet   the linear interpolant takes the value v on the wall
  neumann     the one-sided difference across the wall equals v
"""


class Line:
  """Values of one line of cells, as functions index -> affine expression.

  An affine expression is (dict cell->coef, const).
  """

  def __init__(self, n, offset, lo, hi, vlo, vhi, h, mode):
    self.n, self.o, self.lo, self.hi = n, offset, lo, hi
    self.vlo, self.vhi, self.h, self.mode = vlo, vhi, h, mode

  def extend(self, i):
    n, o, mode = self.n, self.o, self.mode
    cell = lambda j: ({j: 1.0}, 0.0)
    if self.lo == 'periodic':
      return cell(i % n)
    if o == 0.5:
      if 0 <= i < n:
        return cell(i)
      low = i < 0
      depth = (-1 - i) if low else (i - n)      # 0 for the first ghost cell
      src = depth if mode == 'mirror' else 0
      j = src if low else n - 1 - src
      t = self.lo if low else self.hi
      v = self.vlo if low else self.vhi
      if t == 'dirichlet':
        return ({j: -1.0}, 2 * v)
      sign = -1.0 if low else 1.0
      return ({j: 1.0}, sign * self.h * v)
    # values on cell edges: positions i + o, walls at position 0 and n
    assert self.lo == self.hi == 'dirichlet'
    p = i + int(o)
    if 0 < p < n:
      return cell(i)
    low = p <= 0
    depth = -p if low else p - n               # 0 is the wall itself
    v = self.vlo if low else self.vhi
    if depth == 0 or mode == 'extend':
      return ({}, v)
    q = depth if low else n - depth            # mirrored position
    if q <= 0 or q >= n:
      raise ValueError('mirror depth exceeds the interior')
    return ({q - int(o): -1.0}, v)

  def matrix_row(self, i):
    import numpy as np
    coef, const = self.extend(i)
    row = np.zeros(self.n)
    for j, c in coef.items():
      row[j] += c
    return row, const


def compatible(lo, hi, offset):
  """Whether the condition is defined for data with this offset."""
  if lo == 'periodic':
    return True
  if offset == 0.5:
    return True
  return lo == 'dirichlet' and hi == 'dirichlet'
