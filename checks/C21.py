"""C21: training losses, error scores and summary tables.

Losses are sums over cells: unit differences, every time slice and every
layout of time and batch axes decide them. Scores with thresholds are explored
on every pair of words of values below, at and above the threshold; summary
tables are recomputed number by number.
"""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import xarray
from checks.C20 import DIMS, VEL, dataset, g, make_grid
from jax_cfd.data import evaluation
from jax_cfd.data import xarray_utils as xru
from jax_cfd.ml import metrics

PROPERTY = 'C21'
RULE = ('state = (metric, axes layout, time slice, reduction, data word); transition = one evaluation of the real metric; validated when it equals the '
        'explicit loop over examples, components and cells')
BOUNDS = ('up to 3 components, 3 examples, 4 times and 2 space axes with every position of the time and batch axes; every pair of words of length 2 for thresholded '
          'scores; summaries for 1-3 dimensions with all averaging dimensions')
ASSUMPTIONS = ['xarray and numpy are trusted', 'dask is not installed: Dataset.chunk is replaced with the identity', 'time and batch axes are given as non-negative numbers']


# -------------------------------------------------------------------- losses
def unit_losses(rec, ncomp, space):
  nt, nb = 4, 3
  for time_axis, batch_axis in itertools.permutations(range(2 + len(space)), 2):
    shape = [None] * (2 + len(space))
    shape[time_axis], shape[batch_axis] = nt, nb
    rest = iter(space)
    shape = tuple(n if n is not None else next(rest) for n in shape)
    x = [g(shape, i) for i in range(ncomp)]
    y = [g(shape, 7 + i) for i in range(ncomp)]
    tx, ty = tuple(jnp.asarray(a) for a in x), tuple(jnp.asarray(a) for a in y)
    # canonical: (time, batch, component, cells)
    canon = lambda arrs: np.stack([np.moveaxis(a, (time_axis, batch_axis), (0, 1)).reshape(nt, nb, -1) for a in arrs], 2)
    cx, cy = canon(x), canon(y)
    sq = (cx - cy) ** 2
    for scale in (1, 0.5, 3.):
      for n in (None, 0, 1, 2, 3, 4):
        key = f'cumulative {ncomp}x{shape} time axis {time_axis} n={n} scale {scale}'
        rec.state(key)
        ok, out = rec.attempt(lambda: metrics.l2_loss_cumulative(tx, ty, n, scale, time_axis), key, 'l2_loss_cumulative')
        rec.step()
        rec.trace(bool(ok and rec.close(out, scale * sq[:n].sum(), key, 'cumulative loss')))
      for n in range(nt):
        key = f'single {ncomp}x{shape} time axis {time_axis} n={n} scale {scale}'
        rec.state(key)
        ok, out = rec.attempt(lambda: metrics.l2_loss_single_step(tx, ty, n, scale, time_axis), key, 'l2_loss_single_step')
        rec.step()
        rec.trace(bool(ok and rec.close(out, scale * sq[n].sum(), key, 'single-step loss')))
    if time_axis == 0:
      key = f'defaults {ncomp}x{shape}'
      rec.state(key)
      rec.trace(bool(rec.close(metrics.l2_loss_cumulative(tx, ty), sq.sum(), key, 'default cumulative loss')
                     and rec.close(metrics.l2_loss_single_step(tx, ty, 2), sq[2].sum(), key, 'default single-step loss')))
    for n in range(nt):
      key = f'correlation {ncomp}x{shape} time axis {time_axis} batch axis {batch_axis} n={n}'
      rec.state(key)
      kw = {} if (time_axis, batch_axis) == (0, 1) else dict(time_axis=time_axis, batch_axis=batch_axis)
      ok, out = rec.attempt(lambda: metrics.correlation_single_step(tx, ty, n, **kw), key, 'correlation_single_step')
      a, b = cx[n].reshape(nb, -1), cy[n].reshape(nb, -1)
      cos = [(p * q).sum() / np.sqrt((p ** 2).sum() * (q ** 2).sum()) for p, q in zip(a, b)]
      rec.step()
      good = ok and rec.close(out, np.mean(cos), key, 'mean cosine of the examples')
      # perfect and opposite predictions
      ok, out = rec.attempt(lambda: (metrics.correlation_single_step(tx, tx, n, **kw), metrics.correlation_single_step(tx, jax.tree.map(lambda v: -3 * v, tx), n, **kw)), key, 'correlation_single_step')
      good = good and ok and rec.close(np.array(out), np.array([1., -1.]), key, 'correlation of equal and opposite trajectories')
      rec.trace(bool(good))


def unit_impulses(rec, ncomp):
  """Every unit difference contributes once, in its own slice only."""
  shape = (3, 2, 2)
  zero = tuple(jnp.zeros(shape) for _ in range(ncomp))
  for c, pos in itertools.product(range(ncomp), np.ndindex(shape)):
    key = f'unit difference in component {c} at {pos}'
    rec.state(key)
    t = tuple(z.at[pos].set(2.) if i == c else z for i, z in enumerate(zero))
    ok, out = rec.attempt(lambda: [metrics.l2_loss_single_step(*pair, n) for n in range(3) for pair in ((t, zero), (zero, t))]
                          + [metrics.l2_loss_cumulative(*pair, n) for n in range(4) for pair in ((t, zero), (zero, t))], key, 'losses')
    rec.step(14)
    want = [4. * (pos[0] == n) for n in range(3) for _ in range(2)] + [4. * (pos[0] < n) for n in range(4) for _ in range(2)]
    rec.trace(bool(ok and rec.close(np.array(out), np.array(want), key, 'losses of a unit difference')))


def unit_reduce(rec):
  """Reductions of per-example metrics, local and distributed."""
  nb = 3
  metric = lambda a, b, w: jnp.sum((a[0] - b[0]) ** 2 * w[0]) + 2 * jnp.sum(a[1] * w[1])
  for axis, space in itertools.product((0, 1, 2), ((2, 3), (1, 2))):
    mk = lambda k: tuple(np.moveaxis(g((nb,) + space, k + i), 0, axis) for i in range(2))
    args = [mk(0), mk(3), mk(6)]
    per = np.array([metric(*[tuple(jnp.asarray(v.take(i, axis)) for v in a) for a in args]) for i in range(nb)])
    jargs = [tuple(jnp.asarray(v) for v in a) for a in args]
    for name, fn, want in (('mean', metrics.local_mean, per.mean()), ('sum', metrics.local_sum, per.sum()),
                           ('max', functools.partial(metrics.local_reduce, reduction_function=jnp.max), per.max())):
      key = f'local {name} batch axis {axis} {space}'
      rec.state(key)
      ok, out = rec.attempt(lambda: fn(metric, batch_axis=axis)(*jargs), key, 'local reduction')
      rec.step()
      good = ok and rec.close(out, want, key, 'reduced metric')
      if axis == 0:
        ok, out = rec.attempt(lambda: fn(metric)(*jargs), key, 'local reduction')
        good = good and ok and rec.close(out, want, key, 'default batch axis')
      rec.trace(bool(good))
    if axis:
      continue
    for name, fn, want in (('mean', metrics.distributed_mean, per.mean()), ('sum', metrics.distributed_sum, per.sum()),
                           ('max', functools.partial(metrics.distributed_reduce, reduction_function=jax.lax.pmax), per.max())):
      for axis_name in (None, 'batch', 'other'):
        key = f'distributed {name} axis {axis_name} {space}'
        rec.state(key)
        red = fn(metric) if axis_name is None else fn(metric, axis_name=axis_name)
        ok, out = rec.attempt(lambda: jax.vmap(red, axis_name=axis_name or 'batch')(*jargs), key, 'distributed reduction')
        rec.step()
        rec.trace(bool(ok and rec.close(out, np.full(nb, want), key, 'every device has the reduced metric')))


# ---------------------------------------------------------------- evaluation
def np_normalize(a, axes):
  return a / np.sqrt((a ** 2).sum(axis=axes, keepdims=True))


def unit_errors(rec):
  """Errors, correlations, thresholds and averages against loops."""
  models = ['learned', 'other', 'ground_truth']
  base = dict(model=3, sample=2, time=3, x=4, y=3)
  full = ('model', 'sample', 'time', 'x', 'y')
  for order, sizes in itertools.chain(
      ((o, base) for o in (full, ('x', 'model', 'y', 'time', 'sample'), ('time', 'y', 'model', 'x'), ('model', 'x'))),
      ((full, {**base, **one}) for one in (dict(sample=1), dict(time=1), dict(sample=1, time=1), dict(x=1)))):
    arr = xarray.DataArray(g(tuple(sizes[d] for d in order), 1), dims=order, coords={'model': models}, name='q')
    for ev, tg in itertools.permutations(models, 2):
      key = f'{order} {sizes} {ev} against {tg}'
      rec.state(key)
      a = arr.values.take(models.index(ev), order.index('model'))
      b = arr.values.take(models.index(tg), order.index('model'))
      rest = tuple(d for d in order if d != 'model')
      args = () if (ev, tg) == ('learned', 'ground_truth') else (ev, tg)
      ok, out = rec.attempt(lambda: evaluation.absolute_error(arr, *args), key, 'absolute_error')
      good = ok and rec.close(out.transpose(*rest).values, abs(a - b), key, 'absolute error') and rec.expect(out.name == 'q_error', key, f'name {out.name}')
      for thr in (0., 0.3, 1.):
        # include the exact boundary: threshold equal to one of the errors
        t = abs(a - b).ravel()[1] if thr == 0.3 else thr
        ok, out = rec.attempt(lambda: evaluation.below_error_threshold(arr, xarray.DataArray(t), ev, tg), key, 'below_error_threshold')
        good &= ok and rec.expect(np.array_equal(out.transpose(*rest).values, abs(a - b) <= t), key, f'threshold {t}')
      if 'sample' in order and 'time' in order:
        # the state is everything that is neither sample nor time
        for nsd, avg in ((('sample', 'time'), ('sample',)), (('sample', 'time'), ()), (('sample', 'time'), ('sample', 'time')), (('time', 'sample', 'x'), ('sample', 'x'))):
          axes = tuple(i for i, d in enumerate(rest) if d not in nsd)
          want = (np_normalize(a, axes) * np_normalize(b, axes)).sum(axes)
          left = [d for d in rest if d in nsd]
          want = want.mean(axis=tuple(i for i, d in enumerate(left) if d in avg))
          left = [d for d in left if d not in avg]
          kw = {} if (nsd, avg) == (('sample', 'time'), ('sample',)) else dict(non_state_dims=nsd, non_state_dims_to_average=avg)
          ok, out = rec.attempt(lambda: evaluation.state_correlation(arr, ev, tg, **kw), key, 'state_correlation')
          good &= ok and rec.close(out.transpose(*left).values, want, key, f'state correlation {nsd} {avg}') and rec.expect(out.name == 'q_correlation', key, f'name {out.name}')
          rec.step()
      for ndim, nsd in itertools.product((1, 2), ((), ('sample',), ('sample', 'time'), ('time',))):
        sel = arr.sel(model=ev, drop=True)
        dims = [d for d in rest if d in nsd or d in 'xyz'[:ndim]]
        want = a.mean(axis=tuple(rest.index(d) for d in dims))
        left = [d for d in rest if d not in dims]
        ok, out = rec.attempt(lambda: evaluation.average(sel, ndim, nsd), key, 'average')
        good &= ok and rec.close(out.transpose(*left).values, want, key, f'average over {dims}')
        rec.step()
        good &= rec.raises(lambda: evaluation.average(sel * 1j, ndim, nsd), key, 'complex average', (ValueError,))
      for sd in itertools.chain.from_iterable(itertools.combinations(rest, r) for r in (1, 2)):
        ok, out = rec.attempt(lambda: xru.normalize(arr.sel(model=ev), sd), key, 'normalize')
        good &= ok and rec.close(out.transpose(*rest).values, np_normalize(a, tuple(rest.index(d) for d in sd)), key, f'normalize {sd}')
        rec.step()
      rec.trace(bool(good))


def metric_ref(a, b, thr, log):
  """Loop reference of the spectrum and correlation metrics over the last axis."""
  out = np.zeros(a.shape[:-1])
  for i in np.ndindex(a.shape[:-1]):
    for p, q in zip(a[i], b[i]):
      size = q if log else abs(q)
      mine = p if log else abs(p)
      if size > thr:
        out[i] += abs(np.log(p) - np.log(q)) if log else abs(p - q)
      elif size < thr and mine > thr:
        out[i] += abs(np.log(p)) if log else abs(p)
  return out


def unit_metrics(rec):
  """Every pair of words of values below, at and above the threshold."""
  for log in (True, False):
    alphabet = (0.05, 0.25, 0.5, 2., 3.) if log else (-2., -0.25, 0.25, 0.5, 2.)
    pairs = list(itertools.product(itertools.product(alphabet, repeat=2), repeat=2))
    a = np.array([p[0] for p in pairs])
    b = np.array([p[1] for p in pairs])
    for thr in (0.1, 0.5, 1., 2.5) if log else (0.1, 0.5, 1.):
      key = f'{"spectrum" if log else "correlation"} metric threshold {thr}'
      for p in pairs:
        rec.state(key, p)
      dim = 'kx' if log else 'dx'
      fn = (evaluation.energy_spectrum_metric if log else evaluation.u_x_correlation_metric)(thr)
      mk = lambda v: xarray.DataArray(v[:, None], dims=('time', 'sample', dim))
      ok, out = rec.attempt(lambda: fn(mk(a), mk(b)), key, 'metric')
      want = metric_ref(a, b, thr, log)
      good = ok and rec.close(out.values, want, key, 'metric', 1e-6, 1e-6)
      # mean over samples
      half = len(pairs) // 2
      mk2 = lambda v: xarray.DataArray(v[:2 * half].reshape(2, half, 2), dims=('sample', 'time', dim))
      ok, out = rec.attempt(lambda: fn(mk2(a), mk2(b)), key, 'metric')
      good &= ok and rec.close(out.values, want[:2 * half].reshape(2, half).mean(0), key, 'metric averaged over samples', 1e-6, 1e-6)
      rec.step(2 * len(pairs))
      if not log:
        fn = evaluation.u_t_correlation_metric(thr)
        ok, out = rec.attempt(lambda: fn(jnp.asarray(a), jnp.asarray(b)), key, 'u_t metric')
        good &= ok and rec.close(np.asarray(out), want.mean(), key, 'u_t metric', 1e-6, 1e-6)
      rec.trace(len(pairs) if good else 0)


def unit_temporal(rec, dt, nt):
  """All lags of every unit impulse pair (generic fields) and words in time."""
  sub = max(1, int(1. / dt))
  for k, t0 in itertools.product(range(3), (0., 5.)):
    key = f'dt={dt} nt={nt} field {k} start {t0}'
    rec.state(key)
    a = g((nt, 2, 3, 2), k)  # time, sample, x, model
    time = t0 + dt * np.arange(nt)
    ds = xarray.Dataset({'u': (('time', 'sample', 'x', 'model'), a)},
                        {'time': time, 'sample': np.arange(2), 'x': np.arange(3) * .5, 'model': ['p', 'q']})
    if k == 1:
      ds = ds.transpose('model', 'x', 'sample', 'time')
    ok, out = rec.attempt(lambda: evaluation.temporal_autocorrelation(ds), key, 'temporal_autocorrelation')
    if not ok:
      continue
    rec.step()
    lags = list(range(0, nt, sub))
    want = np.zeros((len(lags), 2, 3, 2))
    for i, d in enumerate(lags):
      for t in range(d, nt):
        want[i] += a[t] * a[t - d] / nt
    good = rec.close(out.t_corr.values, want, key, 'autocorrelation', 1e-6, 1e-6)
    good &= rec.close(out['dt'].values, dt * np.array(lags), key, 'time differences')
    good &= rec.expect(out.t_corr.dims == ('time', 'sample', 'x', 'model'), key, f'dimensions {out.t_corr.dims}')
    rec.trace(bool(good))


# ------------------------------------------------------------------- summary
def unit_summary(rec, ndim, nonspatial, late, quantiles=(0.1, 1.0)):
  """Every variable of the summary recomputed from the raw arrays."""
  shape = {1: (8,), 2: (8, 8), 3: (4, 4, 4)}[ndim]
  grid = make_grid(shape)
  lead = dict(sample=2, time=4)
  times = np.array([0., 0.5, 1., 501.]) if late else np.arange(4) * 0.5
  attrs = dict(ndim=ndim)
  a = dataset(grid, lead, 0, attrs=attrs, times=times)
  b = dataset(grid, lead, 5, attrs=attrs, times=times)
  key = f'{ndim}-d averaging {nonspatial} late={late}'
  rec.state(key)
  old = xarray.Dataset.chunk
  xarray.Dataset.chunk = lambda self, *args, **kwargs: self
  try:
    kw = {} if (nonspatial == ('sample',) and quantiles == (0.1, 1.0)) else dict(quantile_thresholds=quantiles, non_spatial_dims=nonspatial)
    ok, out = rec.attempt(lambda: evaluation.compute_summary_dataset(a, b, **kw), key, 'compute_summary_dataset')
  finally:
    xarray.Dataset.chunk = old
  if not ok:
    return
  rec.step()
  nt = 3 if late else 4
  dims = DIMS[:ndim]
  raw = [[np.asarray(d[c].values)[:, :nt] for c in VEL[:ndim]] for d in (a, b)]  # sample,time,space
  pairs = {}
  for i, c in enumerate(VEL[:ndim]):
    pairs[c] = (raw[0][i], raw[1][i], dims)
  pairs['kinetic_energy'] = tuple(sum(f ** 2 for f in r) / 2 for r in raw) + (dims,)
  pairs['speed'] = tuple(np.sqrt(sum(f ** 2 for f in r)) for r in raw) + (dims,)
  fax = tuple(range(2, 2 + ndim))
  spec = tuple(sum(np.abs(np.fft.fftshift(np.fft.fftn(f, axes=fax), axes=fax)) ** 2 for f in r) / 2 for r in raw)
  kd = tuple('k' + d for d in dims)
  freq = [np.fft.fftshift(np.fft.fftfreq(m, 1 / m)) for m in shape]
  pairs['energy_spectrum'] = spec + (kd,)
  custom = {}
  if ndim == 1:
    m = shape[0] // 2
    corr = tuple(np.stack([(r[0] * np.roll(r[0], -d, 2)).mean(2) for d in range(m)], -1) for r in raw)
    pairs['u_x_correlation'] = corr + (('dx',),)
    custom['u_x_correlation'] = metric_ref(corr[0], corr[1], 0.5, False).mean(0)
    pos = freq[0] >= 0
    for thr in (0.001, 0.01, 0.1, 1.0, 10):
      custom['energy_spectrum_%f' % thr] = metric_ref(spec[0][..., pos], spec[1][..., pos], thr, True).mean(0)
    sub = max(1, int(1 / (times[1] - times[0])))
    tc = []
    for r in raw:
      f = np.moveaxis(r[0], 1, 0)
      tc.append(np.stack([sum(f[t] * f[t - d] for t in range(d, nt)) / nt for d in range(0, nt, sub)]))
    custom['autocorrelation'] = np.full((nt,), metric_ref(tc[0], tc[1], 0.5, False).mean())
  if ndim == 2:
    vort = []
    for u, v in raw:
      vort.append((np.roll(v, -1, 2) - v) / grid.step[0] - (np.roll(u, -1, 3) - u) / grid.step[1])
    pairs['vorticity'] = tuple(vort) + (dims,)
    pairs['enstrophy'] = tuple(w ** 2 / 2 for w in vort) + (dims,)
    iso = []
    left = tuple(d for d in ('sample', 'time') if d not in nonspatial)
    real = xru.fourier_transform(a['u'])
    for s in spec:
      s = s.mean(axis=tuple(i for i, d in enumerate(('sample', 'time')) if d in nonspatial))
      iso.append(xru.isotropize(xarray.DataArray(s, dims=left + kd, coords={d: real[d].values for d in kd}, name='e')).transpose(*(left + ('k',))).values)
    pairs['energy_spectrum'] = tuple(iso) + (('k',), left)
  good = True
  seen = set()
  for name, entry in pairs.items():
    p, q, sdims = entry[:3]
    ldims = entry[3] if len(entry) > 3 else ('sample', 'time')
    alld = ldims + sdims
    red = tuple(i for i, d in enumerate(alld) if d in nonspatial or d in dims)
    left = [d for d in alld if d not in nonspatial and d not in dims]
    def cmp(label, want):
      nonlocal good
      seen.add(label)
      if not rec.expect(label in out, key, f'{label} missing'):
        good = False
        return
      got = out[label].transpose(*[d for d in left])
      good &= rec.close(got.values, want, key, label, 1e-6, 1e-7)
    cmp(f'{name}_mean', p.mean(axis=red))
    cmp(f'{name}_error', abs(p - q).mean(axis=red))
    for qt in quantiles:
      both = np.stack([p, q])
      if 'time' in ldims:
        both = both.take(0, 1 + ldims.index('time'))
        thr = np.quantile(both, qt)
        cmp(f'{name}_within_q={qt}', (abs(p - q) <= thr).mean(axis=red))
      else:
        seen.add(f'{name}_within_q={qt}')
    if name in VEL + ('vorticity',):
      sax = tuple(range(2, p.ndim))
      want = (np_normalize(p, sax) * np_normalize(q, sax)).sum(sax).mean(0)
      seen.add(f'{name}_correlation')
      if rec.expect(f'{name}_correlation' in out, key, f'{name}_correlation missing'):
        good &= rec.close(out[f'{name}_correlation'].values, want, key, f'{name}_correlation', 1e-6, 1e-7)
  for name, want in custom.items():
    seen.add(name)
    if rec.expect(name in out, key, f'{name} missing'):
      good &= rec.close(out[name].values, want, key, name, 1e-5, 1e-6)
  good &= rec.expect(set(out.data_vars) == seen, key, f'variables differ: {sorted(set(out.data_vars) ^ seen)}')
  rec.trace(bool(good))


def units(tier):
  big = tier == 'thorough'
  us = []
  for ncomp, space in [(1, (2,)), (2, (2, 3)), (3, (2, 1))] + ([(3, (2, 2, 2)), (2, (3, 2, 2))] if big else []):
    us.append((f'losses/{ncomp}/{space}', unit_losses, dict(ncomp=ncomp, space=space)))
  for ncomp in (1, 2):
    us.append((f'impulses/{ncomp}', unit_impulses, dict(ncomp=ncomp)))
  us.append(('reduce', unit_reduce, {}))
  us.append(('errors', unit_errors, {}))
  us.append(('metrics', unit_metrics, {}))
  for dt, nt in [(0.25, 9), (0.5, 6), (1., 5), (2., 4), (0.3, 7), (0.6, 6)] + ([(0.125, 20), (0.2, 33)] if big else []):
    us.append((f'temporal/{dt}/{nt}', unit_temporal, dict(dt=dt, nt=nt)))
  for ndim in (1, 2, 3):
    for nonspatial in (('sample',), ('sample', 'time'), ()):
      for late in (False, True):
        us.append((f'summary/{ndim}d/{"+".join(nonspatial)}/{"late" if late else "early"}', unit_summary,
                   dict(ndim=ndim, nonspatial=nonspatial, late=late, quantiles=(0.1, 1.0) if not late else (0.3, 0.5, 0.9))))
  return us
