"""C13: grid metadata algebra - offsets, grids and boundaries are never lost.

All small grids, offsets, operand combinations of every supported ufunc, all
tuples of arrays for the consistency functions and all words of boundary
types are enumerated; geometry and results are compared with plain NumPy.
"""
import itertools
import operator

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import grids

PROPERTY = 'C13'
RULE = ('all grids of a list x constructor forms x offsets; every supported ufunc x operand kinds x operand metadata; all tuples '
        'up to length 3 for consistency functions; all words of boundary types, values and directions for derived conditions; '
        'container round trips through every jax transformation')
BOUNDS = 'grids up to 3 dimensions and 4 cells per axis; tuples up to length 3; boundary words over periodic, Dirichlet, Neumann with 3 values'
ASSUMPTIONS = []
P, D, N = 'periodic', 'dirichlet', 'neumann'

SHAPES = ((1,), (2,), (4,), (2, 3), (3, 2), (4, 1), (2, 3, 2), (2, 1, 3))
LOWS, WIDTHS = (0., -1.5, .25), (1., 3., .7)
OFFS = (0., .5, 1., -.5, 1.5, .25)


def unit_geometry(rec):
  for shape in SHAPES:
    nd = len(shape)
    for lo, wid in itertools.product(LOWS, WIDTHS):
      domain = tuple((lo + .5 * i, lo + .5 * i + wid * (i + 1)) for i in range(nd))
      g = grids.Grid(shape, domain=domain)
      key = f'grid {shape} {domain}'
      step = tuple((b - a) / n for (a, b), n in zip(domain, shape))
      rec.state(key)
      ok = rec.expect(g.shape == shape and g.ndim == nd and g.domain == domain and np.allclose(g.step, step), key, f'{g}')
      ok &= rec.expect(g.cell_center == (.5,) * nd, key, 'cell_center')
      ok &= rec.expect(g.cell_faces == tuple(tuple(1. if i == j else .5 for i in range(nd)) for j in range(nd)), key, f'cell_faces {g.cell_faces}')
      same = grids.Grid(list(shape), domain=[list(d) for d in domain])
      ok &= rec.expect(g == same and hash(g) == hash(same), key, 'equal grids compare and hash equal')
      for off in (None,) + tuple(itertools.product(OFFS[:4 if nd > 1 else 6], repeat=nd)):
        if off and nd == 3 and sum(o not in (.5, 1.) for o in off) > 1:
          continue
        o = off if off is not None else (.5,) * nd
        rec.step(2)
        axes = g.axes(off) if off is not None else g.axes()
        want = [domain[i][0] + (np.arange(shape[i]) + o[i]) * step[i] for i in range(nd)]
        ok &= rec.expect(len(axes) == nd, key, 'number of axes')
        for i in range(nd):
          ok &= rec.close(axes[i], want[i], key, f'axes {off}', rtol=1e-12, atol=1e-12)
        mesh = g.mesh(off)
        for m, w in zip(mesh, np.meshgrid(*want, indexing='ij')):
          ok &= rec.close(m, w, key, f'mesh {off}', rtol=1e-12, atol=1e-12)
        a = g.eval_on_mesh(lambda *x: sum((i + 1) * v for i, v in enumerate(x)), off)
        ok &= rec.expect(a.offset == tuple(o) and a.grid == g, key, 'eval_on_mesh metadata')
        ok &= rec.close(a.data, sum((i + 1) * v for i, v in enumerate(np.meshgrid(*want, indexing='ij'))), key, 'eval_on_mesh', rtol=1e-12, atol=1e-12)
        rec.outcome(axes[0])
        c = grids.GridArray(jnp.zeros(shape), tuple(o), g)
        cv = grids.control_volume_offsets(c)
        ok &= rec.expect(cv == tuple(tuple(o[i] + .5 * (i == j) for i in range(nd)) for j in range(nd)), key, f'control_volume_offsets {cv}')
      data = tuple(jnp.full(shape, float(i)) for i in range(nd))
      for i, s in enumerate(g.stagger(data)):
        ok &= rec.expect(s.offset == g.cell_faces[i] and s.grid == g and float(s.data.ravel()[0]) == i, key, 'stagger')
      tree = g.center({'a': data[0], 'b': (data[-1],)})
      ok &= rec.expect(tree['a'].offset == g.cell_center and tree['b'][0].grid == g and float(tree['b'][0].data.ravel()[0]) == nd - 1, key, 'center')
      ff, rf = g.fft_axes(), g.rfft_axes()
      for i in range(nd):
        ok &= rec.close(ff[i], np.fft.fftfreq(shape[i], step[i]), key, 'fft_axes')
        w = np.fft.rfftfreq(shape[i], step[i]) if i == nd - 1 else np.fft.fftfreq(shape[i], step[i])
        ok &= rec.close(rf[i], w, key, 'rfft_axes')
      for m, w in zip(g.rfft_mesh(), np.meshgrid(*[np.asarray(r) for r in rf], indexing='ij')):
        ok &= rec.close(m, w, key, 'rfft_mesh')
      rec.trace(ok)
    # constructor forms and refusals
    for st in (1, .5, 2.):
      key = f'grid {shape} step {st}'
      want = tuple((0., st * n) for n in shape)
      rec.state(key)
      forms = [grids.Grid(shape, step=st), grids.Grid(shape, step=(st,) * nd), grids.Grid(shape, domain=want)]
      if st == 1:
        forms.append(grids.Grid(shape))
      if len(set(shape)) == 1:
        forms.append(grids.Grid(shape, domain=st * shape[0]))
      for f in forms:
        rec.step()
        rec.expect(f == forms[0] and f.domain == want and np.allclose(f.step, st), key, f'{f}')
    for length in (1, 3, .7, 2 * np.pi):
      key = f'grid {shape} domain of length {length} along every axis'
      rec.state(key)
      rec.step()
      f = grids.Grid(shape, domain=length)
      rec.expect(f == grids.Grid(shape, domain=((0., length),) * nd) and f.domain == ((0., float(length)),) * nd
                 and np.allclose(f.step, [length / n for n in shape]), key, f'{f}')
    for steps in itertools.permutations((.5, 2, .25)):
      steps = steps[:nd]
      key = f'grid {shape} steps {steps}'
      rec.state(key)
      rec.step()
      f = grids.Grid(shape, step=steps)
      rec.expect(f == grids.Grid(shape, step=list(steps)) and f.domain == tuple(
          (0., float(s * n)) for s, n in zip(steps, shape)) and np.allclose(f.step, steps), key, f'{f}')
    rec.raises(lambda: grids.Grid(shape, step=1., domain=1.), f'grid {shape}', 'both step and domain', (TypeError,))
    rec.raises(lambda: grids.Grid(shape, domain=((0., 1.),) * (nd + 1)), f'grid {shape}', 'domain of other length', (ValueError,))
    rec.raises(lambda: grids.Grid(shape, step=(1.,) * (nd + 1)), f'grid {shape}', 'step of other length', (ValueError,))
    rec.raises(lambda: grids.Grid(shape, domain=((0., 1., 2.),) * nd), f'grid {shape}', 'bounds that are no pairs', (ValueError,))
    rec.raises(lambda: grids.Grid(tuple(n + .5 for n in shape)), f'grid {shape}', 'fractional shape', (TypeError,))
    rec.raises(lambda: grids.Grid(shape).axes((.5,) * (nd + 1)), f'grid {shape}', 'offset of other length', (ValueError,))


UNARY = ['negative', 'absolute', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sign', 'square', 'floor', 'ceil', 'isnan',
         'isfinite', 'reciprocal', 'log1p', 'expm1', 'arctan', 'logical_not', 'positive', 'rint', 'modf', 'frexp']
BINARY = ['add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'arctan2', 'hypot', 'mod', 'remainder',
          'floor_divide', 'fmax', 'fmin', 'greater', 'less', 'equal', 'not_equal', 'greater_equal', 'less_equal', 'logical_and',
          'logical_or', 'logical_xor', 'copysign', 'divmod', 'float_power', 'heaviside', 'fmod', 'logaddexp']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '**': operator.pow, '//': operator.floordiv,
       '%': operator.mod, '>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le}


def unit_arithmetic(rec, offset):
  g = grids.Grid((2, 3), domain=((0., 1.), (0., 3.)))
  other = grids.Grid((2, 3), domain=((0., 1.), (0., 2.)))
  a = np.array([[.5, -1.25, 2.], [3., .1, -.3]])
  b = np.array([[1.5, 2., -.5], [.25, 4., 1.]])
  A, B = (grids.GridArray(jnp.asarray(x), offset, g) for x in (a, b))

  def good(got, want, key):
    outs = got if isinstance(got, tuple) else (got,)
    wants = want if isinstance(want, tuple) else (want,)
    ok = rec.expect(len(outs) == len(wants), key, 'number of results')
    for x, w in zip(outs, wants):
      if not rec.expect(isinstance(x, grids.GridArray), key, f'result is {type(x)}'):
        return False
      ok &= rec.expect(x.offset == offset and x.grid == g, key, f'metadata {x.offset} {x.grid}')
      ok &= rec.expect(x.shape == w.shape and x.dtype == x.data.dtype, key, 'shape and dtype')
      ok &= rec.close(np.asarray(x.data), np.asarray(w), key, 'values', rtol=1e-12, atol=1e-12)
    rec.outcome(np.asarray(outs[0].data))
    return ok
  with np.errstate(all='ignore'):
    for name in UNARY:
      f = getattr(np, name)
      rec.state(offset, name)
      rec.step()
      okk, got = rec.attempt(lambda: f(A), f'{name}', 'unary ufunc')
      if okk:
        rec.trace(good(got, f(a), f'{name} {offset}'))
    for name in BINARY:
      f = getattr(np, name)
      for kind, y, w in (('grid array', B, b), ('scalar', 1.5, 1.5), ('int', 2, 2), ('numpy', b, b), ('jax', jnp.asarray(b), b), ('0-d', jnp.asarray(2.), 2.)):
        rec.state(offset, name, kind)
        rec.step(2)
        key = f'{name} {kind} {offset}'
        okk, got = rec.attempt(lambda: f(A, y), key, 'binary ufunc')
        ok = okk and good(got, f(a, w), key)
        if kind != 'jax':  # jax arrays on the left dispatch to jax
          okk, got = rec.attempt(lambda: f(y, A), key + ' reversed', 'binary ufunc')
          ok = ok and okk and good(got, f(w, a), key + ' reversed')
        rec.trace(bool(ok))
    for name, op in OPS.items():
      for kind, y, w in (('grid array', B, b), ('scalar', 1.5, 1.5), ('int', 2, 2), ('numpy', b, b), ('jax', jnp.asarray(b), b)):
        rec.state(offset, 'op', name, kind)
        rec.step(2)
        key = f'operator {name} {kind} {offset}'
        ok = good(op(A, y), op(a, w), key)
        if kind in ('scalar', 'int'):
          ok &= good(op(y, A), op(w, a), key + ' reversed')
        rec.trace(bool(ok))
      if name in ('+', '-', '*', '/'):
        iop = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}[name]
        good(iop(A, B), op(a, b), f'inplace {name}')
        good(A, a + 0, f'inplace {name} leaves the operand')
  good(-A, -a, 'neg')
  good(abs(A), abs(a), 'abs')
  good(+A, a, 'pos')
  # mismatches are refused whatever the function and the order
  C = grids.GridArray(jnp.asarray(b), tuple(o + .5 for o in offset), g)
  E = grids.GridArray(jnp.asarray(b), offset, other)
  bc = boundaries.periodic_boundary_conditions(2)
  V = grids.GridVariable(B, bc)
  for name in BINARY:
    f = getattr(np, name)
    rec.step(6)
    rec.state(offset, name, 'reject')
    for x, y in ((A, C), (C, A)):
      rec.raises(lambda: f(x, y), f'{name} offsets', 'different offsets', (grids.InconsistentOffsetError,))
    for x, y in ((A, E), (E, A)):
      rec.raises(lambda: f(x, y), f'{name} grids', 'different grids', (grids.InconsistentGridError,))
    for x, y in ((A, V), (V, A), (A, [1.]), (A, 'x')):
      rec.raises(lambda: f(x, y), f'{name} operand', f'operand {type(y)}', (TypeError,))
  for m in (np.add.reduce, np.add.accumulate, np.multiply.outer):
    rec.raises((lambda: m(A, A)) if m == np.multiply.outer else (lambda: m(A)), 'ufunc methods', 'method of a ufunc', (TypeError,))
  # applied and where
  f3 = grids.applied(lambda x, y, z=0.: x * 2 + y ** 2 + z)
  for args, kw, w in (((A, B), {}, 2 * a + b ** 2), ((A, 3.), {}, 2 * a + 9), ((2., A), {}, 4 + a ** 2), ((A, B), dict(z=B), 2 * a + b ** 2 + b),
                      ((1., 2.), dict(z=A), 6 + a), ((A, B), dict(z=5), 2 * a + b ** 2 + 5)):
    rec.step()
    rec.trace(good(f3(*args, **kw), w, 'applied'))
  for x, y in ((A, C), (C, A)):
    rec.raises(lambda: f3(x, y), 'applied', 'different offsets', (grids.InconsistentOffsetError,))
    rec.raises(lambda: f3(x, 1., z=y), 'applied', 'different offsets', (grids.InconsistentOffsetError,))
    rec.raises(lambda: grids.where(A > 0, x, y), 'where', 'different offsets', (grids.InconsistentOffsetError,))
  rec.raises(lambda: f3(A, E), 'applied', 'different grids', (grids.InconsistentGridError,))
  rec.raises(lambda: f3(A, V), 'applied', 'a GridVariable', (ValueError,))
  rec.raises(lambda: f3(A, 1., z=V), 'applied', 'a GridVariable', (ValueError,))
  for x, y, wx, wy in ((A, B, a, b), (A, 0., a, 0.), (1., B, 1., b)):
    rec.trace(good(grids.where(A > B, x, y), np.where(a > b, wx, wy), 'where'))


def unit_consistency(rec):
  g = [grids.Grid((2, 2)), grids.Grid((2, 2), domain=3.), grids.Grid((2, 3))]
  offs = [(.5, .5), (1., .5), (0., .25)]
  bcs = [boundaries.periodic_boundary_conditions(2), boundaries.dirichlet_boundary_conditions(2), boundaries.dirichlet_boundary_conditions(2, ((0., 1.), (0., 0.)))]
  pool = [(o, gr, b) for o in range(3) for gr in range(3) for b in range(3)]
  mk = lambda t: grids.GridVariable(grids.GridArray(jnp.zeros(g[t[1]].shape), offs[t[0]], g[t[1]]), bcs[t[2]])
  small = [p for p in pool if sum(x > 0 for x in p) <= 1]
  for n in (1, 2, 3):
    for w in itertools.product(pool if n < 3 else small, repeat=n):
      rec.state(w)
      rec.step(4)
      vs = [mk(t) for t in w]
      arrs = [v.array for v in vs]
      key = f'consistency {w}'
      ok = True
      for fn, idx, vals, err, objs in ((grids.consistent_offset, 0, offs, grids.InconsistentOffsetError, (vs, arrs)),
                                       (grids.consistent_grid, 1, g, grids.InconsistentGridError, (vs, arrs)),
                                       (grids.unique_boundary_conditions, 2, bcs, grids.InconsistentBoundaryConditionsError, (vs,))):
        for ob in objs:
          if len({t[idx] for t in w}) == 1:
            ok &= rec.expect(fn(*ob) == vals[w[0][idx]], key, fn.__name__)
          else:
            ok &= rec.raises(lambda: fn(*ob), key, fn.__name__, (err,))
      av = grids.averaged_offset(*vs)
      ok &= rec.expect(isinstance(av, tuple) and np.allclose(av, np.mean([offs[t[0]] for t in w], axis=0)), key, f'averaged_offset {av}')
      rec.trace(bool(ok))
      rec.outcome(av)
  # a variable must be a grid array with as many boundary pairs as dimensions
  for nd, nb in itertools.product((1, 2, 3), repeat=2):
    gr = grids.Grid((2,) * nd)
    arr = grids.GridArray(jnp.zeros(gr.shape), gr.cell_center, gr)
    mkv = lambda: grids.GridVariable(arr, boundaries.periodic_boundary_conditions(nb))
    rec.state('ndim', nd, nb)
    if nd == nb:
      v = mkv()
      rec.expect(v.shape == arr.shape and v.dtype == arr.dtype and v.offset == arr.offset and v.grid == gr and v.data is arr.data, 'GridVariable', 'attributes')
    else:
      rec.raises(mkv, f'GridVariable {nd} {nb}', 'dimension mismatch', (ValueError,))
  rec.raises(lambda: grids.GridVariable(jnp.zeros((2,)), boundaries.periodic_boundary_conditions(1)), 'GridVariable', 'raw array', (ValueError,))
  rec.raises(lambda: grids.GridVariable(mkv(), boundaries.periodic_boundary_conditions(3)), 'GridVariable', 'nested variable', (ValueError,))


PAIRS = [(P, P)] + list(itertools.product((D, N), repeat=2))


def unit_conditions(rec):
  """Constructors, predicates and derived boundary conditions."""
  val = ((0., 0.), (1., -2.), (.5, 0.))
  for nd in (1, 2, 3):
    gr = grids.Grid(tuple(range(2, 2 + nd)))
    for ctor, kind in ((boundaries.periodic_boundary_conditions, P), (boundaries.dirichlet_boundary_conditions, D), (boundaries.neumann_boundary_conditions, N)):
      for vals in (None,) + tuple(itertools.product(val, repeat=nd)):
        if kind == P and vals is not None:
          continue
        bc = ctor(nd) if vals is None else ctor(nd, vals)
        check_bc(rec, bc, ((kind, kind),) * nd, vals, gr, f'{ctor.__name__} {nd} {vals}')
    if nd >= 2:
      for vals in (None,) + val:
        full = None if vals is None else ((None, None), vals) + ((None, None),) * (nd - 2)
        bc = boundaries.channel_flow_boundary_conditions(nd) if vals is None else boundaries.channel_flow_boundary_conditions(nd, full)
        check_bc(rec, bc, ((P, P), (D, D)) + ((P, P),) * (nd - 2), full, gr, f'channel {nd} {vals}')
        if nd == 2:
          bc = boundaries.periodic_and_neumann_boundary_conditions(vals)
          check_bc(rec, bc, ((P, P), (N, N)), full, gr, f'periodic_and_neumann {vals}')
          bc = boundaries.periodic_and_dirichlet_boundary_conditions(vals)
          check_bc(rec, bc, ((P, P), (D, D)), full, gr, f'periodic_and_dirichlet {vals}')
          bc = boundaries.periodic_and_dirichlet_boundary_conditions(vals, periodic_axis=1)
          check_bc(rec, bc, ((D, D), (P, P)), None if vals is None else (vals, (None, None)), gr, f'periodic_and_dirichlet axis 1 {vals}')
  # predicates and pressure conditions: all tuples of type words
  gr = grids.Grid((2, 2))
  mk = lambda t: grids.GridVariable(grids.GridArray(jnp.zeros((2, 2)), gr.cell_center, gr), boundaries.HomogeneousBoundaryConditions(t))
  words = list(itertools.product(PAIRS, repeat=2))
  for t in words:
    for ax in range(2):
      rec.state('is_periodic', t, ax)
      rec.expect(boundaries.is_periodic_boundary_conditions(mk(t), ax) == (t[ax] == (P, P)), f'is_periodic {t} {ax}', 'answer')
  for n in (1, 2):
    for ts in itertools.product(words, repeat=n):
      vs = [mk(t) for t in ts]
      rec.state('tuple', ts)
      rec.step(3)
      key = f'boundaries {ts}'
      ok = rec.expect(boundaries.has_all_periodic_boundary_conditions(*vs) == all(p == (P, P) for t in ts for p in t), key, 'has_all_periodic')
      per = [{t[ax] == (P, P) for t in ts} for ax in range(2)]
      if any(len(s) > 1 for s in per):
        ok &= rec.raises(lambda: boundaries.consistent_boundary_conditions(*vs), key, 'inconsistent conditions', (grids.InconsistentBoundaryConditionsError,))
        ok &= rec.raises(lambda: boundaries.get_pressure_bc_from_velocity(vs), key, 'inconsistent conditions', (grids.InconsistentBoundaryConditionsError,))
      else:
        want = tuple('periodic' if True in s else 'nonperiodic' for s in per)
        ok &= rec.expect(boundaries.consistent_boundary_conditions(*vs) == want, key, 'consistent_boundary_conditions')
        pbc = boundaries.get_pressure_bc_from_velocity(vs)
        ok &= rec.expect(pbc == boundaries.HomogeneousBoundaryConditions(tuple((P, P) if w == 'periodic' else (N, N) for w in want)), key, f'pressure {pbc}')
        hash(pbc)
      rec.trace(bool(ok))
      rec.outcome(ok)
  # flux conditions: all words of (velocity, scalar) conditions on both axes
  for uw, direction in itertools.product(words, range(2)):
    for cw in itertools.product(PAIRS, repeat=2):
      if any((a == (P, P)) != (b == (P, P)) for a, b in zip(uw, cw)):
        continue
      for cv in (((0., 0.), (0., 0.)), ((0., 1.), (0., 0.)), ((0., 0.), (2., 0.))):
        u = mk(uw)
        cvals = tuple((None, None) if t == (P, P) else v for t, v in zip(cw, cv))
        c = grids.GridVariable(u.array, boundaries.ConstantBoundaryConditions(cw, cvals))
        key = f'flux u={uw} c={cw} {cv} direction={direction}'
        rec.state(key)
        rec.step()
        types, values, refuse = [], [], False
        for ax in range(2):
          if uw[ax] == (P, P):
            types.append((P, P))
            values.append((None, None))
          elif ax != direction:
            types.append((D, D))
            values.append((0., 0.))
          else:
            tt = []
            for s in range(2):
              if uw[ax][s] == D:
                tt.append(D)
              elif cw[ax][s] == N and cvals[ax][s] == 0.:
                tt.append(N)
              else:
                refuse = True
            types.append(tuple(tt))
            values.append((0., 0.))
        call = lambda: boundaries.get_advection_flux_bc_from_velocity_and_scalar(u, c, direction)
        if refuse:
          rec.raises(call, key, 'time dependent flux', (NotImplementedError,))
        else:
          okk, got = rec.attempt(call, key, 'flux conditions')
          if okk:
            rec.trace(rec.expect(got == boundaries.ConstantBoundaryConditions(tuple(types), tuple(values)), key, f'{got}')
                      and rec.attempt(lambda: hash(got), key, 'hash')[0])
            rec.outcome((types, values))
  u = grids.GridVariable(u.array, boundaries.dirichlet_boundary_conditions(2, ((0., 1.), (0., 0.))))
  rec.raises(lambda: boundaries.get_advection_flux_bc_from_velocity_and_scalar(u, mk(((D, D), (D, D))), 0), 'flux moving wall', 'porous wall', (NotImplementedError,))


def check_bc(rec, bc, types, vals, gr, key):
  rec.state(key)
  rec.step()
  ok = rec.expect(tuple(tuple(t) for t in bc.types) == types, key, f'types {bc.types}')
  want = ((0., 0.),) * len(types) if vals is None else vals
  for ax, (t, w) in enumerate(zip(types, want)):
    got = bc.values(ax, gr)
    if t == (P, P):
      ok &= rec.expect(got == (None, None), key, f'values along the periodic axis {ax}: {got}')
      continue
    ok &= rec.expect(tuple(bc.bc_values[ax]) == tuple(w), key, f'bc_values {bc.bc_values}')
    for s in range(2):
      ok &= rec.close(got[s], np.full([n for i, n in enumerate(gr.shape) if i != ax], w[s]), key, f'values {ax} {s}')
  ok &= rec.attempt(lambda: hash(bc), key, 'hash')[0]
  rec.trace(bool(ok))
  rec.outcome(types)


def unit_containers(rec):
  """Arrays, variables and tensors pass unchanged through transformations."""
  g = grids.Grid((2, 3), domain=((0., 1.), (-1., 2.)))
  g2 = grids.Grid((3, 2))
  bcs = [boundaries.periodic_boundary_conditions(2), boundaries.dirichlet_boundary_conditions(2, ((0., 1.), (2., 3.))), boundaries.neumann_boundary_conditions(2)]
  rng = np.random.RandomState(0)
  leaves = []
  for gr, off in ((g, (.5, .5)), (g, (1., .5)), (g2, (0., 1.))):
    arr = grids.GridArray(jnp.asarray(rng.rand(*gr.shape)), off, gr)
    leaves.append(arr)
    leaves += [grids.GridVariable(arr, b) for b in bcs]
  fresh = lambda k: [grids.GridArray(jnp.asarray(rng.rand(*g.shape)), (.5, .25 * i), g) for i in range(k)]
  tensors = [grids.GridArrayTensor([[leaves[0], leaves[4]], [leaves[4], leaves[0]]]), grids.GridArrayTensor([leaves[0], leaves[4]])]
  for shape in ((1,), (3,), (2, 2), (2, 3), (3, 1), (2, 2, 2), (2, 3, 2)):
    box = np.empty(shape, object)
    for i, x in zip(np.ndindex(*shape), fresh(int(np.prod(shape)))):
      box[i] = x
    tensors.append(grids.GridArrayTensor(box))
  trees = [(x,) for x in leaves] + [(x, y) for x in leaves for y in leaves[::3]] + [({'a': x, 'b': [y]},) for x in leaves[:4] for y in leaves[4:]] + [(t,) for t in tensors] + [(t, leaves[1]) for t in tensors]

  def meta(t):
    out = []
    for x in jax.tree.leaves(t, is_leaf=lambda z: isinstance(z, (grids.GridArray, grids.GridVariable, grids.GridArrayTensor))):
      if isinstance(x, grids.GridVariable):
        out.append((type(x), x.offset, x.grid, x.bc))
      elif isinstance(x, grids.GridArray):
        out.append((type(x), x.offset, x.grid))
      else:
        out.append((type(x), x.shape, [(type(y), getattr(y, 'offset', None), getattr(y, 'grid', None)) for y in x.ravel()]))
    return out

  def datas(t):  # by attribute and position, not by flattening
    if isinstance(t, (tuple, list)):
      return [x for y in t for x in datas(y)]
    if isinstance(t, dict):
      return [x for k in sorted(t) for x in datas(t[k])]
    if isinstance(t, grids.GridArrayTensor):
      return [t[i].data for i in np.ndindex(*t.shape)]
    return [t.data if isinstance(t, grids.GridArray) else t.array.data]

  def same(x, y, f=lambda v: v):
    a, b = datas(x), datas(y)
    return len(a) == len(b) and all(np.allclose(np.asarray(p), f(np.asarray(q))) for p, q in zip(a, b))
  double = jax.jit(lambda t: jax.tree.map(lambda x: 2 * x, t))
  for i, t in enumerate(trees):
    key = f'container {i}'
    rec.state(key)
    rec.step(5)
    flat, td = jax.tree.flatten(t)
    back = jax.tree.unflatten(td, flat)
    ok = rec.expect(meta(back) == meta(t) and same(back, t), key, 'flatten and unflatten')
    rec.expect(all(isinstance(x, jax.Array) for x in flat), key, 'leaves are arrays')
    out = double(t)
    ok &= rec.expect(meta(out) == meta(t) and same(out, t, lambda v: 2 * v), key, 'jit')
    if i % 4 == 0:
      out, frames = jax.lax.scan(lambda c, _: (jax.tree.map(lambda x: x + 1, c), c), t, None, length=3)
      ok &= rec.expect(meta(out) == meta(t) and same(out, t, lambda v: v + 3), key, 'scan carry')
      ok &= rec.expect(meta(frames) == meta(t), key, 'scan frames')
      batch = jax.tree.map(lambda x: jnp.stack([x, 2 * x]), t)
      out = jax.vmap(lambda u: jax.tree.map(lambda x: x * x, u))(batch)
      ok &= rec.expect(meta(out) == meta(t) and same(jax.tree.map(lambda x: x[1], out), t, lambda v: 4 * v * v), key, 'vmap')
      grad = jax.grad(lambda u: sum(jnp.sum(x ** 2) for x in jax.tree.leaves(u)))(t)
      ok &= rec.expect(meta(grad) == meta(t) and same(grad, t, lambda v: 2 * v), key, 'grad')
    # structures of different metadata are different structures
    for j, o in enumerate(trees[:len(leaves)]):
      if i < len(leaves) and i != j:
        ok &= rec.expect(jax.tree.structure(o) != td, key, f'equal structure for different metadata {j}')
    rec.trace(bool(ok))
    rec.outcome(td)
  # tensor algebra: pointwise matrix operations on 2x2 and 3x3 tensors
  for n in (2, 3):
    vals = rng.rand(n, n, 2, 3) - .5
    other = rng.rand(n, n, 2, 3) - .5
    T = grids.GridArrayTensor([[grids.GridArray(jnp.asarray(vals[i, j]), (.5, .5), g) for j in range(n)] for i in range(n)])
    U = grids.GridArrayTensor([[grids.GridArray(jnp.asarray(other[i, j]), (.5, .5), g) for j in range(n)] for i in range(n)])
    arr = lambda q: np.array([[np.asarray(q[i, j].data) for j in range(n)] for i in range(n)])
    key = f'tensor {n}'
    rec.state(key)
    ok = rec.close(arr(T + U), vals + other, key, 'sum') & rec.close(arr(T.T), vals.swapaxes(0, 1), key, 'transpose')
    ok &= rec.close(arr((T + T.T) / 2.), (vals + vals.swapaxes(0, 1)) / 2, key, 'symmetric part')
    ok &= rec.close(arr(T.dot(U)), np.einsum('ijxy,jkxy->ikxy', vals, other), key, 'product')
    ok &= rec.close(np.trace(T).data, np.einsum('iixy->xy', vals), key, 'trace')
    ok &= rec.close(arr(-2 * (T * U)), -2 * vals * other, key, 'scaled elementwise product')
    ok &= rec.close(np.sqrt(np.trace(T.dot(T.T))).data, np.sqrt(np.einsum('ijxy,ijxy->xy', vals, vals)), key, 'norm')
    ok &= rec.expect((T + U)[0, 0].offset == (.5, .5) and isinstance(T + U, grids.GridArrayTensor), key, 'metadata')
    rec.trace(bool(ok))


def units(tier):
  out = [('geometry', unit_geometry, {}), ('consistency', unit_consistency, {}), ('conditions', unit_conditions, {}), ('containers', unit_containers, {})]
  for o in ((.5, .5), (1., .5), (0., 1.)):
    out.append((f'arithmetic-{o}', unit_arithmetic, dict(offset=o)))
  return out
