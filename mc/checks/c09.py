"""C09: compressing a dense array into the TT format."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m

ID = 'C09'
BOUND = ('every {0,1} array of shapes (2),(2,2),(2,3),(3,2),(2,2,2),(1,2,2),(2,1,2),(2,2,1),(3,3),(2,1,1,2) and every {-1,0,1} '
         '2x2 array with caps 1,2; generic, integer, graded-spectrum, low-rank, tiny, huge and zero arrays of every shape d<=4 over {1,2,3} '
         'and matrix shapes d<=3 over six pairs, with caps 1,2,3, default, None, infinity and per-rank lists; single axes '
         'to d=12, mode 40; invalid caps; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['oracle: TT-SVD guarantee (squared error at most the sum over unfoldings of the cut-off squared singular values), '
               'computed with NumPy SVDs of the unfoldings']


def per_rank_caps(d):
  out = []
  for p in itertools.product((1, 2, 4), repeat=d - 1):
    out.append([1] + list(p) + [1])
  return out


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for shape in ([2], [2, 2], [2, 3], [3, 2], [2, 2, 2], [1, 2, 2], [2, 1, 2], [2, 2, 1], [3, 3], [2, 1, 1, 2]):
    n = int(np.prod(shape))
    for v in range(2 ** n):
      out.append(['bits', shape, v])
  for v in itertools.product((-1, 0, 1), repeat=4):
    out.append(['tern', list(v)])
  if deep:
    for v in range(2 ** 12):
      out.append(['bits', [2, 3, 2], v])
  for d in (1, 2, 3, 4):
    for shape in itertools.product((1, 2, 3), repeat=d):
      caps = [1, 2, 3, 'default', None, 'inf'] + (per_rank_caps(d) if d <= 3 else [[1, 2, 1, 3, 1], [1, 1, 4, 2, 1], [1, 3, 3, 1, 1]])
      for cap in caps:
        out.append(['arr', list(shape), cap, 'float64'])
      for cap in (2, None):
        out.append(['arr', list(shape), cap, 'float32'])
  for s in lib.axial_tensors():
    for cap in (1, 2, 3, 5, 'default', None):
      out.append(['arr', s[1], cap, 'float64'])
    out.append(['arr', s[1], 4, 'float32'])
  for d in (1, 2, 3):
    pairs = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) if d < 3 else ((1, 2), (2, 1), (2, 2), (3, 2))
    for ps in itertools.product(pairs, repeat=d):
      caps = [1, 2, 3, 'default', None, 'inf'] + (per_rank_caps(d) if d == 2 else [[1, 2, 4, 1], [1, 3, 1, 1]] if d == 3 else [])
      for cap in caps:
        out.append(['mat', [p[0] for p in ps], [p[1] for p in ps], cap, 'float64'])
      out.append(['mat', [p[0] for p in ps], [p[1] for p in ps], 2, 'float32'])
  for s in lib.axial_matrices():
    for cap in (1, 2, 4, None, 'default'):
      out.append(['mat', s[1][0], s[1][1], cap, 'float64'])
  for m in ([2], [3, 2], [2, 1, 3], [2, 2, 2]):
    out.append(['vec', m])
  out.append(['bad'])
  return out + contexts.cases(ID, tier)


def caparg(cap):
  if cap == 'inf':
    return {'max_tt_rank': np.inf}, np.inf
  if cap == 'default':
    return {}, 10
  return {'max_tt_rank': cap}, cap


FACTOR = {'tiny': 2. ** -40, 'huge': 2. ** 40}


def arrays(shape, dt):
  """Named arrays of the shape: generic, integer, graded, exactly low rank, zero."""
  n = int(np.prod(shape))
  d = len(shape)
  yield 'real', lib.reals(shape, 71)
  yield 'int', lib.ints(shape, 72)
  if dt == 'float64':
    yield 'zero', np.zeros(shape)
    for r in (1, 2):
      s = spec_t(shape, [1] + [r] * (d - 1) + [1])
      yield 'rank%d' % r, lib.np_dense(lib.np_cores(s, 73, 'r'), False, False)
    g = lib.reals(shape, 74)
    for k in range(d):  # decaying along every axis: graded spectrum
      g = g * (0.01 ** np.arange(shape[k])).reshape([-1 if i == k else 1 for i in range(d)])
    yield 'graded', g
    yield 'scaled', lib.reals(shape, 75) * 1e4
  yield 'tiny', lib.reals(shape, 75) * FACTOR['tiny']
  yield 'huge', lib.reals(shape, 75) * FACTOR['huge']


def check(ctx, tt, dense, s, cap, dt, what, factor=1.):
  """factor: a power of two by which value and reference are divided first."""
  d = lib.ndims(s)
  caps = lib.full_caps(cap, d)
  ach = lib.max_ranks(s)
  mr = [min(c, a) if 0 < k < d else 1 for k, (c, a) in enumerate(zip(caps, ach))]
  lib.expect_tt(ctx, tt, None, s, what, dt, max_ranks=mr, value=False)
  got = lib.dense_of(tt) / factor
  dense = dense / factor
  lib.expect_quasi_optimal(ctx, got, dense, s, caps, what, dt)
  lib.expect_quasi_optimal(ctx, lib.npy(lib.t3f.full(tt)).astype(np.float64) / factor, dense, s, caps, what, dt)
  ctx.step()


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  ctx.state(str(case))
  if kind in ('bits', 'tern'):
    if kind == 'bits':
      shape = case[1]
      n = int(np.prod(shape))
      a = np.array([case[2] >> k & 1 for k in range(n)], np.float64).reshape(shape)
    else:
      shape = [2, 2]
      a = np.array(case[1], np.float64).reshape(2, 2)
    s = spec_t(shape, [1] * (len(shape) + 1))
    for cap in (1, 2, 10):
      check(ctx, t3f.to_tt_tensor(a, cap), a, s, cap, 'float64', 'to_tt_tensor(%s, %s)' % (a.tolist(), cap))
  elif kind == 'arr':
    _, shape, cap, dt = case
    s = spec_t(shape, [1] * (len(shape) + 1))
    kw, c = caparg(cap)
    for name, a in arrays(shape, dt):
      a = a.astype(dt)
      x = a if name != 'int' else tf.constant(a)
      before = a.copy()
      tt = t3f.to_tt_tensor(x, **kw)
      what = 'to_tt_tensor(%s %s, %s)' % (name, shape, kw)
      check(ctx, tt, a.astype(np.float64), s, c, dt, what, FACTOR.get(name, 1.))
      ctx.check(np.array_equal(a, before), 'to_tt_tensor changed its argument')
      ctx.state((str(case), name))
      if cap is None:
        check(ctx, t3f.to_tt_tensor(x, epsilon=0., **kw), a.astype(np.float64), s, c, dt, what, FACTOR.get(name, 1.))
  elif kind == 'mat':
    _, rows, cols, cap, dt = case
    s = spec_m(rows, cols, [1] * (len(rows) + 1))
    kw, c = caparg(cap)
    shape2 = lib.dense_shape(s)
    for name, a in arrays(shape2, dt):
      if name.startswith('rank'):  # low TT-rank, not low matrix rank
        r = int(name[4:])
        s2 = spec_m(rows, cols, [1] + [r] * (len(rows) - 1) + [1])
        a = lib.np_dense(lib.np_cores(s2, 76, 'r'), True, False)
      a = a.astype(dt)
      shape_arg = [[rows, cols], (tuple(rows), tuple(cols)), np.array([rows, cols])][(len(name) + len(rows)) % 3]
      tt = t3f.to_tt_matrix(a if name != 'int' else tf.constant(a), shape_arg, **kw)
      check(ctx, tt, a.astype(np.float64), s, c, dt, 'to_tt_matrix(%s %s, %s)' % (name, [rows, cols], kw), FACTOR.get(name, 1.))
      ctx.state((str(case), name))
  elif kind == 'vec':
    m = case[1]
    n = int(np.prod(m))
    one = [1] * len(m)
    v = lib.reals((n, 1), 77)
    check(ctx, t3f.to_tt_matrix(v, (m, None)), v, spec_m(m, one, one + [1]), 10, 'float64', 'to_tt_matrix(column %s)' % m)
    check(ctx, t3f.to_tt_matrix(v.T.copy(), (None, m)), v.T, spec_m(one, m, one + [1]), 10, 'float64', 'to_tt_matrix(row %s)' % m)
  else:
    for d in (1, 2, 3):
      a = lib.reals([2] * d, 78)
      m = lib.reals([2 ** d, 2 ** d], 79)
      sh = [[2] * d, [2] * d]
      bad = [{'max_tt_rank': 0}, {'max_tt_rank': -2}, {'max_tt_rank': [1] * d}, {'max_tt_rank': [1] * (d + 2)},
             {'max_tt_rank': 2, 'epsilon': -0.1}] + [{'max_tt_rank': [1] + [2] * (d - 1) + [0]}]
      if d == 1:
        bad = [b for b in bad if b.get('max_tt_rank') != [1]]
      for kw in bad:
        lib.expect_raises(ctx, lambda: t3f.to_tt_tensor(a, **kw), 'to_tt_tensor d=%d %s' % (d, kw), ValueError)
        lib.expect_raises(ctx, lambda: t3f.to_tt_matrix(m, sh, **kw), 'to_tt_matrix d=%d %s' % (d, kw), ValueError)
        ctx.step(2)
      # Every non-negative accuracy is accepted.
      for eps in (0., 0, 1e-13, None, 0.5, 1., 3):
        for cap in (1, 2, 16):
          t, tm = t3f.to_tt_tensor(a, max_tt_rank=cap, epsilon=eps), t3f.to_tt_matrix(m, sh, max_tt_rank=cap, epsilon=eps)
          if eps is None or eps < 1e-12:
            check(ctx, t, a, spec_t([2] * d, [1] * (d + 1)), cap, 'float64', 'to_tt_tensor d=%d cap %s epsilon=%s' % (d, cap, eps))
            check(ctx, tm, m, spec_m(sh[0], sh[1], [1] * (d + 1)), cap, 'float64', 'to_tt_matrix d=%d cap %s epsilon=%s' % (d, cap, eps))
