"""C20: labelled datasets, spectra, spatial statistics and images.

Transforms and statistics are linear or quadratic in the data: unit fields,
all pairs of unit fields (via generic fields) and every single Fourier mode
decide them; every reported number is recomputed with explicit loops.
"""
import io
import itertools

import jax.numpy as jnp
import matplotlib as mpl
import numpy as np
import PIL.Image as Image
import xarray
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.data import visualization
from jax_cfd.data import xarray_utils as xru
from mc import lin

PROPERTY = 'C20'
RULE = ('state = (dataset layout, grid shape, Fourier mode or unit field, options); transition = one call of a data or evaluation function; validated when every '
        'coordinate and every value equals the one recomputed from the definition by explicit loops')
BOUNDS = ('grids of 4-9 cells per axis in 1-3 dimensions (odd and even), every Fourier mode, every unit field of the small grids, all layouts with and without time, '
          'sample and model dimensions, all attribute branches; images up to 6x5')
ASSUMPTIONS = ['xarray, pandas, numpy.fft, matplotlib and PIL are trusted']
DIMS = ('x', 'y', 'z')
VEL = ('u', 'v', 'w')


def g(shape, k):
  return lin.generic(shape, k)


def dataset(grid, lead, k=0, positive=False, names=None, attrs=None, times=None):
  """Dataset with generic velocities; lead: ordered dict dim -> size."""
  dims = tuple(lead) + DIMS[:grid.ndim]
  shape = tuple(lead.values()) + grid.shape
  coords = {d: ax for d, ax in zip(DIMS, grid.axes(grid.cell_center))}
  if 'time' in lead:
    coords['time'] = np.arange(lead['time']) * 0.5 if times is None else times
  if 'sample' in lead:
    coords['sample'] = np.arange(lead['sample'])
  return xarray.Dataset({n: (dims, g(shape, k + i)) for i, n in enumerate(names or VEL[:grid.ndim])}, coords, attrs)


def make_grid(shape, anis=False):
  return grids.Grid(shape, domain=[(0.25 * i, 0.25 * i + 2 * np.pi * ((1, 1.3, 0.85)[i] if anis else 1.)) for i in range(len(shape))])


# ------------------------------------------------------------ construction
def unit_construct(rec, ndim):
  shape = (4, 3, 2)[:ndim]
  grid = make_grid(shape, True)
  bc = boundaries.periodic_boundary_conditions(ndim)
  ntime, nsample = 3, 2
  for with_grid, nscalar, samples, form, prefix, with_time, attrs in itertools.product(
      (True, False), (0, 1), (False, True), ('array', 'gridarray', 'variable'), ('', 'p_'), (True, False), (None, {'ndim': ndim, 'a': 1})):
    if nscalar and not with_grid:
      continue  # the number of velocity components is then unknown
    key = f'{ndim}-d grid={with_grid} scalars={nscalar} samples={samples} {form} prefix={prefix!r} time={with_time} attrs={attrs is not None}'
    rec.state(key)
    lead = ((nsample,) if samples else ()) + (ntime,)
    raw = [g(lead + shape, i) for i in range(nscalar + ndim)]
    offsets = [(0.25,) * ndim] * nscalar + [o for o in grid.cell_faces]
    traj = raw
    if form != 'array':
      traj = [grids.GridArray(a, o, grid) for a, o in zip(raw, offsets)]
    if form == 'variable':
      # GridVariable carries its array verbatim, also with leading axes
      ok, traj = rec.attempt(lambda: [grids.GridVariable(a, bc) for a in traj], key, 'wrap')
      if not ok:
        continue
    times = np.array([0., 0.5, 2.]) if with_time else None
    ok, ds = rec.attempt(lambda: xru.velocity_trajectory_to_xarray(
        tuple(traj), grid if with_grid else None, times, attrs, samples=samples, prefix_name=prefix), key, 'velocity_trajectory_to_xarray')
    if not ok:
      continue
    rec.step()
    names = ['c'][:nscalar] + list(VEL[:ndim])
    good = rec.expect(set(ds.data_vars) == {prefix + n for n in names}, key, f'variables {sorted(ds.data_vars)}')
    dims = (('sample',) if samples else ()) + ('time',) + DIMS[:ndim]
    for n, a, o, i in zip(names, raw, offsets, range(9)):
      if prefix + n not in ds:
        continue
      var = ds[prefix + n]
      good &= rec.expect(var.dims == dims, key, f'{n} has dimensions {var.dims}')
      good &= rec.close(var.values, a, key, f'values of {n}', 1e-6, 1e-6)
      if i >= nscalar:
        if with_grid:
          good &= rec.expect(tuple(var.attrs.get('offset', ())) == tuple(grid.cell_faces[i - nscalar]), key, f'offset of {n}: {var.attrs}')
      elif form != 'array':
        good &= rec.expect(tuple(var.attrs.get('offset', ())) == tuple(o), key, f'offset of {n}: {var.attrs}')
    wantcoords = (set(DIMS[:ndim]) if with_grid else set()) | ({'time'} if with_time else set()) | ({'sample'} if samples else set())
    good &= rec.expect(set(ds.coords) == wantcoords, key, f'coordinates {sorted(ds.coords)}')
    if with_grid:
      for j, d in enumerate(DIMS[:ndim]):
        lo, h = grid.domain[j][0], grid.step[j]
        good &= rec.close(ds[d].values, lo + (np.arange(shape[j]) + 0.5) * h, key, f'coordinate {d}')
    if with_time:
      good &= rec.close(ds['time'].values, times, key, 'time')
    if samples:
      good &= rec.expect(list(ds['sample'].values) == list(range(nsample)), key, 'sample ids')
    good &= rec.expect(dict(ds.attrs) == (attrs or {}), key, f'attributes {ds.attrs}')
    rec.trace(bool(good))


def unit_attrs(rec):
  for ndim, size in itertools.product((1, 2, 3), (1, 4, 7)):
    for kind, dom in itertools.product(('domain_size', 'legacy', 'both'), (1., 2., 2.5)):
      key = f'square {ndim}-d size {size} {kind} {dom}'
      attrs = dict(ndim=ndim, save_grid_size=size)
      if kind in ('domain_size', 'both'):
        attrs['domain_size'] = dom
      if kind in ('legacy', 'both'):
        attrs['domain_size_multiple'] = dom * (3 if kind == 'both' else 1)
      if kind != 'legacy':
        attrs['aspect_ratio'] = 7.  # only meaningful for rectangles
      rec.state(key)
      ok, grid = rec.attempt(lambda: xru.grid_from_attrs(attrs), key, 'grid_from_attrs')
      if not ok:
        continue
      rec.step()
      want = 2 * np.pi * dom if kind == 'legacy' else dom
      good = rec.expect(grid.shape == (size,) * ndim, key, f'shape {grid.shape}')
      good &= rec.close(np.array(grid.domain), np.array([(0., want)] * ndim), key, 'domain')
      rec.trace(bool(good))
    key = f'square {ndim}-d size {size} no domain'
    rec.state(key)
    rec.trace(bool(rec.raises(lambda: xru.grid_from_attrs(dict(ndim=ndim, save_grid_size=size)), key, 'no domain', (ValueError,))))
  for nx, ny, aspect in itertools.product((2, 5), (2, 3), (0.5, 1., 4.)):
    key = f'rectangle {nx}x{ny} aspect {aspect}'
    rec.state(key)
    ok, grid = rec.attempt(lambda: xru.grid_from_attrs(dict(ndim=2, save_grid_size_x=nx, save_grid_size_y=ny, aspect_ratio=aspect)), key, 'grid_from_attrs')
    if ok:
      rec.step()
      good = rec.expect(grid.shape == (nx, ny), key, f'shape {grid.shape}')
      good &= rec.close(np.array(grid.domain), np.array([(0., aspect), (0., 1.)]), key, 'domain')
      rec.trace(bool(good))


# -------------------------------------------------------- pointwise statistics
def unit_pointwise(rec, shape):
  """Vorticity, enstrophy, speed and energy of every unit field and a generic one."""
  grid = make_grid(shape, True)
  ndim = grid.ndim
  bc = boundaries.periodic_boundary_conditions(ndim)
  fields = [tuple(np.asarray(im) if j == c else np.zeros(shape) for j in range(ndim)) for c in range(ndim) for im in lin.impulses(shape)]
  fields.append(tuple(g(shape, j) for j in range(ndim)))
  coords = {d: ax for d, ax in zip(DIMS, grid.axes(grid.cell_center))}
  for lead in ((), ('time',), ('sample', 'time')):
    block = np.array(fields)  # n, comp, ...
    lshape = {(): (), ('time',): (len(fields),), ('sample', 'time'): (1, len(fields))}[lead]
    blocks = [f for f in block] if not lead else [np.moveaxis(block, 1, 0).reshape((ndim,) + lshape + shape)]
    for n, b in enumerate(blocks):
      for order in ('C', 'T'):
        dims = lead + DIMS[:ndim]
        ds = xarray.Dataset({VEL[i]: (dims, b[i]) for i in range(ndim)}, coords)
        if order == 'T':
          if n % 5 or not lead and n:
            continue
          ds = ds.transpose(*dims[::-1])  # results must not depend on the order of dimensions
        key = f'{shape} lead={lead} field {n} order {order}'
        rec.state(key)
        energy = sum(b[i] ** 2 for i in range(ndim)) / 2
        ok, out = rec.attempt(lambda: (xru.kinetic_energy(ds), xru.speed(ds)), key, 'energy')
        good = ok
        if ok:
          rec.step(2)
          good &= rec.close(out[0].transpose(*dims).values, energy, key, 'kinetic energy')
          good &= rec.close(out[1].transpose(*dims).values, np.sqrt(2 * energy), key, 'speed')
          good &= rec.expect((out[0].name, out[1].name) == ('kinetic_energy', 'speed'), key, 'names')
        if ndim == 2:
          u, v = b
          dx, dy = grid.step
          want = (np.roll(v, -1, -2) - v) / dx - (np.roll(u, -1, -1) - u) / dy
          ok, out = rec.attempt(lambda: (xru.vorticity_2d(ds), xru.enstrophy_2d(ds)), key, 'vorticity')
          good &= ok
          if ok:
            rec.step(2)
            good &= rec.close(out[0].transpose(*dims).values, want, key, 'vorticity')
            good &= rec.close(out[1].transpose(*dims).values, want ** 2 / 2, key, 'enstrophy')
            good &= rec.expect((out[0].name, out[1].name) == ('vorticity', 'enstrophy'), key, 'names')
            for d in dims:
              if d in coords:
                good &= rec.close(out[0][d].values, coords[d], key, f'coordinate {d} of the vorticity')
          if not lead:
            vv = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(a), o, grid), bc) for a, o in zip(b, grid.cell_faces))
            good &= rec.close(out[0].transpose(*dims).values, np.asarray(fd.curl_2d(vv).data), key, 'vorticity differs from curl_2d of the solver')
        rec.trace(bool(good))


# ------------------------------------------------------------------- spectra
def unit_fourier(rec, shape):
  """Every Fourier mode lands on its own wavenumber."""
  grid = make_grid(shape, True)
  ndim = grid.ndim
  n = int(np.prod(shape))
  x = grid.mesh(grid.cell_center)
  dims = DIMS[:ndim]
  coords = {d: ax for d, ax in zip(dims, grid.axes(grid.cell_center))}
  freqs = [np.arange(-(m // 2), m - m // 2) for m in shape]
  base = [2 * np.pi / (hi - lo) for lo, hi in grid.domain]
  idx = np.meshgrid(*[np.arange(m) for m in shape], indexing='ij')
  modes = list(itertools.product(*freqs))
  data = np.array([np.exp(2j * np.pi * sum(i * k / m for i, k, m in zip(idx, mode, shape))) for mode in modes])
  for lead, order in itertools.product(((), ('mode',), ('mode', 'time')), ('first', 'last', 'reversed')):
    if not lead:
      if order != 'first':
        continue
      arrays = [(i, xarray.DataArray(data[i], dims=dims, coords=coords)) for i in range(len(modes))]
    else:
      d = data if len(lead) == 1 else np.stack([data, 2 * data], 1)
      arr = xarray.DataArray(d, dims=lead + dims, coords=coords, name='f')
      arr = {'first': lambda: arr, 'last': lambda: arr.transpose(*(dims + lead)), 'reversed': lambda: arr.transpose(*(lead + dims)[::-1])}[order]()
      arrays = [(None, arr)]
    for i, arr in arrays:
      key = f'{shape} lead={lead} {order} mode {i}'
      rec.state(key)
      ok, out = rec.attempt(lambda: xru.fourier_transform(arr), key, 'fourier_transform')
      if not ok:
        continue
      rec.step()
      kd = tuple('k' + d for d in dims)
      good = rec.expect(set(out.dims) == set(lead + kd), key, f'dimensions {out.dims}')
      for d, f, b in zip(kd, freqs, base):
        good &= rec.close(out[d].values, f * b, key, f'wavenumbers {d}')
      out = out.transpose(*(lead + kd)).values
      which = range(len(modes)) if i is None else [i]
      want = np.zeros((len(which),) + shape, complex)
      for j, w in enumerate(which):
        want[(j,) + tuple(k - f[0] for k, f in zip(modes[w], freqs))] = n
      if not lead:
        want = want[0]
      elif len(lead) == 2:
        want = np.stack([want, 2 * want], 1)
      good &= rec.close(out, want, key, 'spectrum of single modes')
      rec.trace(bool(good))
  # Parseval for the energy of generic velocities
  for lead in (dict(), dict(time=2), dict(sample=2, time=3)):
    key = f'{shape} energy spectrum lead={lead}'
    rec.state(key)
    ds = dataset(grid, lead)
    ok, out = rec.attempt(lambda: xru.energy_spectrum(ds), key, 'energy_spectrum')
    if not ok:
      continue
    rec.step()
    kd = tuple('k' + d for d in dims)
    good = rec.close(out.sum(kd).values, n * xru.kinetic_energy(ds).sum(dims).values, key, 'Parseval: total energy')
    want = sum(np.abs(np.fft.fftshift(np.fft.fftn(ds[c].values, axes=range(-ndim, 0)), axes=range(-ndim, 0))) ** 2 for c in VEL[:ndim]) / 2
    good &= rec.close(out.transpose(*(tuple(lead) + kd)).values, want, key, 'energy spectrum')
    rec.trace(bool(good))
  del x


def unit_binsum(rec, shape, anis):
  """Every reported shell holds exactly the energy of its wavenumbers."""
  grid = make_grid(shape, anis)
  ndim = grid.ndim
  ax = [np.fft.fftshift(np.fft.fftfreq(m, 1 / m)) * 2 * np.pi / (hi - lo) for m, (lo, hi) in zip(shape, grid.domain)]
  kd = xru.XR_WAVENUMBER_DIMS[:ndim]
  spacing = max(a[1] - a[0] for a in ax)
  kmax = min(a.max() for a in ax)
  radius = np.sqrt(sum(m ** 2 for m in np.meshgrid(*ax, indexing='ij')))
  n = int(np.prod(shape))
  energy = np.eye(n).reshape((n,) + shape)
  shell = np.ceil(radius / spacing - 0.5 - 1e-12).astype(int)  # (j - 1/2, j + 1/2] belongs to j
  ties = np.abs((radius / spacing) % 1 - 0.5) < 1e-9
  for lead, order in itertools.product((('mode',), ('mode', 'time')), ('first', 'last')):
    key = f'{shape} anisotropic={anis} lead={lead} {order}'
    rec.state(key)
    e = energy if len(lead) == 1 else np.stack([energy, 3 * energy], 1)
    arr = xarray.DataArray(e, dims=lead + kd, coords=dict(zip(kd, ax)), name='e')
    if order == 'last':
      arr = arr.transpose(*(kd + lead))
    ok, out = rec.attempt(lambda: xru.isotropize(arr, method='binsum'), key, 'isotropize')
    if not ok:
      continue
    rec.step(n)
    labels = out['k'].values
    m = len(labels)
    good = rec.expect(set(out.dims) == set(lead + ('k',)), key, f'dimensions {out.dims}')
    good &= rec.close(labels, spacing * np.arange(1, m + 1), key, 'shell labels')
    # Only complete shells, and all those well inside the resolved range.
    good &= rec.expect(m * spacing <= kmax + 1e-9 and (m + 1.5) * spacing >= kmax - 1e-9, key, f'{m} shells for largest wavenumber {kmax / spacing} spacings')
    want = np.zeros((n, m))
    for i, s in enumerate(shell.ravel()):
      if 1 <= s <= m:
        want[i, s - 1] = 1.
    got = out.transpose(*(lead + ('k',))).values
    if len(lead) == 2:
      good &= rec.close(got[:, 1], 3 * got[:, 0], key, 'homogeneous')
      got = got[:, 0]
    free = ~ties.ravel()
    good &= rec.close(got[free], want[free], key, 'energy of a single wavenumber')
    good &= rec.expect(np.all(got[~free].sum(-1) <= 1 + 1e-9), key, 'energy counted twice')
    rec.trace(bool(good))
  for i in range(n):
    rec.state(f'{shape} anisotropic={anis} wavenumber {i}')
  if ndim != 2:
    key = f'{shape} default method'
    rec.state(key)
    arr = xarray.DataArray(1 + energy[0], dims=kd, coords=dict(zip(kd, ax)), name='e')
    ok, out = rec.attempt(lambda: xru.isotropize(arr), key, 'isotropize')
    good = ok and rec.close(out.values, xru.isotropize(arr, method='binsum').values, key, 'default method is binsum')
    good &= rec.raises(lambda: xru.isotropize(arr, method='interpolation'), key, 'interpolation', (ValueError,))
    rec.trace(bool(good))
  key = f'{shape} refusals'
  arr = xarray.DataArray(1 + energy[0], dims=kd, coords=dict(zip(kd, ax)), name='e')
  good = rec.raises(lambda: xru.isotropize(arr, method='nothing'), key, 'unknown method', (ValueError,))
  good &= rec.raises(lambda: xru.isotropize(arr.rename({d: 'a' + d for d in kd})), key, 'no wavenumbers', (ValueError,))
  rec.trace(bool(good))


def unit_interpolation(rec, shape):
  """Exact for log-linear energies, and equal to a look-up for 'nearest'."""
  grid = make_grid(shape, False)
  kd = xru.XR_WAVENUMBER_DIMS[:2]
  ax = [np.fft.fftshift(np.fft.fftfreq(m, 1 / m)) for m in shape]
  kx, ky = np.meshgrid(*ax, indexing='ij')
  kmax = min(a.max() for a in ax)
  for a, b, quad, lead in itertools.product((0., 0.4, -0.7), (0., 0.3), (7, 12, 100), (False, True)):
    key = f'{shape} a={a} b={b} points={quad} lead={lead}'
    rec.state(key)
    e = np.exp(a * kx + b * ky)
    arr = xarray.DataArray(e if not lead else np.stack([e, 5 * e]), dims=(('time',) if lead else ()) + kd, coords=dict(zip(kd, ax)), name='e')
    args = dict(method='interpolation', num_quadrature_points=quad) if quad != 100 else {}
    ok, out = rec.attempt(lambda: xru.isotropize(arr, **args), key, 'isotropize')
    if not ok:
      continue
    rec.step()
    k = out['k'].values
    m = len(k)
    good = rec.close(k, np.arange(1, m + 1), key, 'wavenumbers')
    good &= rec.expect(m <= kmax + 1e-9 and m + 1.5 >= kmax, key, f'{m} wavenumbers')
    th = 2 * np.pi * np.arange(quad) / quad
    want = np.array([2 * np.pi * q * np.mean(np.exp(a * q * np.cos(th) + b * q * np.sin(th))) for q in k])
    got = out.transpose(*((('time',) if lead else ()) + ('k',))).values
    good &= rec.close(got, np.stack([want, 5 * want]) if lead else want, key, 'angle average')
    rec.trace(bool(good))
  # wavenumbers of unequal spacing: the coarser spacing sets the levels
  for sx, sy in ((1., 2.), (2., 1.), (.75, 1.5), (3., 2.)):
    key = f'{shape} spacings {sx}, {sy}'
    rec.state(key)
    a, b = .2, -.1
    e = np.exp(a * sx * kx + b * sy * ky)
    arr = xarray.DataArray(e, dims=kd, coords=dict(zip(kd, (ax[0] * sx, ax[1] * sy))), name='e')
    ok, out = rec.attempt(lambda: xru.isotropize(arr, method='interpolation', num_quadrature_points=9), key, 'isotropize')
    rec.step()
    if not ok:
      continue
    k, top, dk = out['k'].values, min(ax[0].max() * sx, ax[1].max() * sy), max(sx, sy)
    good = rec.close(k, dk * np.arange(1, len(k) + 1), key, 'wavenumbers')
    good &= rec.expect(len(k) * dk <= top + 1e-9 and (len(k) + 1.5) * dk >= top, key, f'{len(k)} wavenumbers')
    th = 2 * np.pi * np.arange(9) / 9
    want = np.array([2 * np.pi * q * np.mean(np.exp(a * q * np.cos(th) + b * q * np.sin(th))) for q in k])
    good &= rec.close(out.values, want, key, 'angle average')
    rec.trace(bool(good))
  e = np.exp(g(shape, 2))
  arr = xarray.DataArray(e, dims=kd, coords=dict(zip(kd, ax)), name='e')
  for quad in (5, 11):
    key = f'{shape} nearest {quad}'
    rec.state(key)
    ok, out = rec.attempt(lambda: xru.isotropize(arr, 'interpolation', 'nearest', quad), key, 'isotropize')
    if not ok:
      continue
    rec.step()
    good = True
    for q, value in zip(out['k'].values, out.values):
      vals = []
      for t in range(quad):
        p = (q * np.cos(2 * np.pi * t / quad), q * np.sin(2 * np.pi * t / quad))
        if any(abs(abs(c) % 1 - 0.5) < 1e-6 for c in p):
          vals = None
          break
        vals.append(e[tuple(int(np.argmin(np.abs(a - c))) for a, c in zip(ax, p))])
      if vals is not None:
        good &= rec.close(value, 2 * np.pi * q * np.mean(vals), key, f'nearest at {q}')
    rec.trace(bool(good))
  # composition
  for lead, avg in ((dict(time=3), ('time',)), (dict(sample=2, time=3), ('sample',)), (dict(sample=2, time=3), ('sample', 'time')), (dict(time=2), ())):
    key = f'{shape} isotropic spectrum {lead} {avg}'
    rec.state(key)
    ds = dataset(grid, lead)
    ok, out = rec.attempt(lambda: xru.isotropic_energy_spectrum(ds, avg), key, 'isotropic_energy_spectrum')
    if ok:
      rec.step()
      spec = sum(np.abs(np.fft.fftshift(np.fft.fft2(ds[c].values), axes=(-1, -2))) ** 2 for c in 'uv') / 2
      rest = tuple(d for d in lead if d not in avg)
      spec = spec.mean(axis=tuple(i for i, d in enumerate(lead) if d in avg))
      # the number of shells may hang on rounding of the labels: use the real ones
      real = xru.fourier_transform(ds['u'])
      want = xru.isotropize(xarray.DataArray(spec, dims=rest + kd, coords={d: real[d].values for d in kd}, name='e')).transpose(*(rest + ('k',)))
      rec.trace(bool(rec.close(out.transpose(*(rest + ('k',))).values, want.values, key, 'average before the angle average')))


def unit_groupby(rec):
  """Binned sums of every assignment of four cells to bins."""
  bins = np.array([0., 1., 2., 4.])
  labels = np.array([10., 20., 30.])
  positions = [-1., 0., 0.5, 1., 1.5, 3., 5.]  # below, edge (open), in, edge (closed), in, in, above
  values = np.array([1., 10., 100., 1000.])
  for where in itertools.product(positions, repeat=4):
    key = f'groups {where}'
    rec.state(key)
    arr = xarray.DataArray(np.stack([values, 2 * values]).reshape(2, 2, 2), dims=('t', 'a', 'b'))
    grp = xarray.DataArray(np.array(where).reshape(2, 2), dims=('a', 'b'), name='r')
    ok, out = rec.attempt(lambda: xru.groupby_bins_sum(arr, grp, bins, labels), key, 'groupby_bins_sum')
    if not ok:
      continue
    rec.step()
    want = np.array([sum(v for v, p in zip(values, where) if lo < p <= hi) for lo, hi in zip(bins[:-1], bins[1:])])
    good = rec.expect(out.dims == ('t', 'r_bins'), key, f'dimensions {out.dims}')
    good &= rec.close(out.values, np.stack([want, 2 * want]), key, 'binned sums') and rec.close(out['r_bins'].values, labels, key, 'labels')
    rec.trace(bool(good))


def unit_correlation(rec, n):
  """Spatial autocorrelation of every word over {-1, 0, 2} and in every axis."""
  words = np.array(list(itertools.product((-1., 0., 2.), repeat=n)))
  x = 0.5 + 0.25 * np.arange(n) + 3.
  arr = xarray.DataArray(words, dims=('word', 'x'), coords={'x': x})
  key = f'words of length {n}'
  ok, out = rec.attempt(lambda: xru.spatial_autocorrelation(arr), key, 'spatial_autocorrelation')
  for w in words:
    rec.state(key, tuple(w))
  if ok:
    rec.step(len(words))
    m = n // 2
    want = np.array([[sum(w[i] * w[(i + d) % n] for i in range(n)) / n for d in range(m)] for w in words])
    good = rec.close(out.transpose('word', 'dx').values, want, key, 'autocorrelation')
    good &= rec.close(out['dx'].values, 0.25 * np.arange(m), key, 'displacements')
    rec.trace(len(words) if good else 0)
  for axis, shape in itertools.product('xyz', ((4, 3, 5), (6, 4), (5,))):
    ndim = len(shape)
    if 'xyz'.index(axis) >= ndim:
      continue
    grid = make_grid(shape, True)
    for lead in (dict(), dict(time=2), dict(sample=2, time=2)):
      key = f'{shape} axis {axis} lead {lead}'
      rec.state(key)
      ds = dataset(grid, lead)
      ok, out = rec.attempt(lambda: xru.velocity_spatial_correlation(ds, axis), key, 'velocity_spatial_correlation')
      if not ok:
        continue
      rec.step()
      good = rec.expect(set(out.data_vars) == {f'{c}_{axis}_correlation' for c in VEL[:ndim]}, key, f'names {sorted(out.data_vars)}')
      ai = 'xyz'.index(axis)
      for c in VEL[:ndim]:
        a = ds[c].values
        pos = len(lead) + ai
        m = shape[ai] // 2
        cols = [(a * np.roll(a, -d, pos)).sum(pos) / shape[ai] for d in range(m)]
        want = np.stack(cols, -1)
        rest = tuple(lead) + tuple(d for d in DIMS[:ndim] if d != axis)
        name = f'{c}_{axis}_correlation'
        if name in out:
          good &= rec.close(out[name].transpose(*(rest + ('d' + axis,))).values, want, key, name)
          good &= rec.close(out['d' + axis].values, grid.step[ai] * np.arange(m), key, 'displacements')
      rec.trace(bool(good))


# -------------------------------------------------------------------- images
def unit_images(rec):
  cmaps = [mpl.colormaps['viridis'], mpl.colormaps['gray'], None]
  for rows, cols, n, cm_i, norm_kind in itertools.product((1, 2, 5), (1, 3, 6), (1, 3), range(3), ('default', 'custom')):
    traj = g((n, rows, cols), rows + cols)
    key = f'{n} frames {rows}x{cols} cmap {cm_i} norm {norm_kind}'
    rec.state(key)
    calls = []
    def norm_fn(image, i):
      calls.append((np.array(image), i))
      return mpl.colors.Normalize(vmin=-0.5 - i, vmax=0.75 + i)
    kw = {} if norm_kind == 'default' else dict(compute_norm_fn=norm_fn)
    if cmaps[cm_i] is not None:
      kw['cmap'] = cmaps[cm_i]
    ok, imgs = rec.attempt(lambda: visualization.trajectory_to_images(traj, **kw), key, 'trajectory_to_images')
    if not ok:
      continue
    rec.step(n)
    cmap = cmaps[cm_i] if cmaps[cm_i] is not None else visualization.sns.cm.icefire
    good = rec.expect(len(imgs) == n, key, f'{len(imgs)} images')
    for i, im in enumerate(imgs):
      if norm_kind == 'default':
        lim = np.quantile(np.abs(traj[i]), 0.999)
        lo, hi = -lim, lim
      else:
        lo, hi = -0.5 - i, 0.75 + i
      want = cmap(np.clip((traj[i] - lo) / (hi - lo), 0, 1), bytes=True)
      arr = np.asarray(im)
      good &= rec.expect(im.size == (cols, rows), key, f'image size {im.size}')
      # out-of-range values take the over/under colours: equal to the ends here
      good &= rec.expect(arr.shape == want.shape and np.abs(arr.astype(int) - want.astype(int)).max() <= 2, key, f'pixels of frame {i}')
    if norm_kind == 'custom':
      good &= rec.expect([c[1] for c in calls] == list(range(n)) and all(np.array_equal(c[0], t) for c, t in zip(calls, traj)), key, 'norm calls')
    rec.trace(bool(good))
    for side in (1, 4, 12, 60):
      k2 = f'{key} longest side {side}'
      rec.state(k2)
      short = round(min(rows, cols) * side / max(rows, cols))
      if short == 0:
        continue
      ok, big = rec.attempt(lambda: visualization.trajectory_to_images(traj, longest_side=side, **kw), k2, 'resized')
      if ok:
        rec.step(n)
        want = (side, short) if cols >= rows else (short, side)
        good = True
        for i, im in enumerate(big):
          good &= rec.expect(im.size == want, k2, f'size {im.size} instead of {want}')
          if side % max(rows, cols) == 0 and (side // max(rows, cols)) >= 1:
            f = side // max(rows, cols)
            good &= rec.expect(np.array_equal(np.asarray(im), np.kron(np.asarray(imgs[i]).astype(int), np.ones((f, f, 1), int))), k2, 'enlarged pixels')
        rec.trace(bool(good))


def unit_facet(rec):
  for n_series, frames, w, h, rel in itertools.product((1, 2, 3, 4), (1, 2), (4, 10), (1, 3), (0., 0.1, 0.25, 0.5, 1.)):
    for rgb in (None, (1, 2, 3)):
      key = f'{n_series} series of {frames} frames {w}x{h} separation {rel} colour {rgb}'
      rec.state(key)
      series = [[(((np.arange(h * w * 3).reshape(h, w, 3) * 7 + 31 * s + 11 * f) % 251)).astype(np.uint8) for f in range(frames)] for s in range(n_series)]
      kw = {} if rgb is None else dict(separation_rgb=rgb)
      ok, out = rec.attempt(lambda: visualization.horizontal_facet([[Image.fromarray(a) for a in s] for s in series], rel, **kw), key, 'horizontal_facet')
      if not ok:
        continue
      rec.step()
      sep = np.broadcast_to(np.array(rgb or (255, 255, 255), np.uint8), (h, round(w * rel), 3))
      good = rec.expect(len(out) == frames, key, f'{len(out)} frames')
      for f, im in enumerate(out):
        parts = []
        for s in range(n_series):
          parts += [series[s][f]] + ([sep] if s < n_series - 1 else [])
        want = np.concatenate(parts, 1)
        good &= rec.expect(np.array_equal(np.asarray(im), want), key, f'frame {f}')
      rec.trace(bool(good))


def unit_movie(rec):
  for frames, duration, loop in itertools.product((1, 2, 4), (50., 150., None), (0, 3, None)):
    key = f'{frames} frames duration {duration} loop {loop}'
    rec.state(key)
    arrays = [np.full((4, 5, 3), 40 * (i + 1), np.uint8) for i in range(frames)]
    for i, a in enumerate(arrays):
      a[i % 4, i % 5] = (255, 0, 0)
    buf = io.BytesIO()
    kw = {k: v for k, v in (('duration', duration), ('loop', loop)) if v is not None}
    ok, _ = rec.attempt(lambda: visualization.save_movie([Image.fromarray(a) for a in arrays], buf, format='GIF', **kw), key, 'save_movie')
    if not ok:
      continue
    rec.step()
    im = Image.open(io.BytesIO(buf.getvalue()))
    good = rec.expect(getattr(im, 'n_frames', 1) == frames, key, f'{getattr(im, "n_frames", 1)} frames in the file')
    for i in range(min(frames, getattr(im, 'n_frames', 1))):
      im.seek(i)
      good &= rec.expect(np.array_equal(np.asarray(im.convert('RGB')), arrays[i]), key, f'frame {i} of the movie')
      if frames > 1:
        good &= rec.expect(abs(im.info.get('duration', 0) - (150. if duration is None else duration)) < 1e-6, key, f'duration {im.info.get("duration")}')
        good &= rec.expect(im.info.get('loop') == (0 if loop is None else loop), key, f'loop {im.info.get("loop")}')
    rec.trace(bool(good))


def units(tier):
  big = tier == 'thorough'
  us = []
  for ndim in (1, 2, 3):
    us.append((f'construct/{ndim}d', unit_construct, dict(ndim=ndim)))
  us.append(('attrs', unit_attrs, {}))
  for shape in [(5,), (4, 3), (3, 3, 2)] + ([(9,), (6, 5), (4, 4, 3)] if big else []):
    us.append((f'pointwise/{shape}', unit_pointwise, dict(shape=shape)))
  for shape in [(4,), (5,), (8,), (9,), (4, 4), (5, 4), (4, 5), (5, 3), (4, 3, 5), (2, 4, 3)] + ([(16,), (9, 8), (7, 7), (5, 6, 4), (6, 6, 6)] if big else []):
    us.append((f'fourier/{shape}', unit_fourier, dict(shape=shape)))
  for shape in [(8,), (9,), (10,), (8, 8), (9, 9), (10, 8), (8, 12), (8, 8, 8), (7, 6, 8)] + ([(n,) for n in range(11, 33)] + [(n, m) for n in range(8, 17, 3) for m in range(8, 15, 2)] + [(8, 9, 10), (10, 10, 10)] if big else []):
    for anis in (False, True):
      us.append((f'binsum/{shape}/{"anisotropic" if anis else "isotropic"}', unit_binsum, dict(shape=shape, anis=anis)))
  for shape in [(8, 8), (9, 9), (8, 11), (12, 10)] + ([(16, 16), (17, 15), (20, 24)] if big else []):
    us.append((f'interpolation/{shape}', unit_interpolation, dict(shape=shape)))
  us.append(('groupby', unit_groupby, {}))
  for n in (4, 5, 6, 7) + ((8, 9) if big else ()):
    us.append((f'correlation/{n}', unit_correlation, dict(n=n)))
  us.append(('images', unit_images, {}))
  us.append(('facet', unit_facet, {}))
  us.append(('movie', unit_movie, {}))
  return us
