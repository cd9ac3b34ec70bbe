"""C05: matrix products and transposition."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_m, rank_choices

ID = 'C05'
BOUND = ('TT x TT: d=1 all (n,m,k) in {1,2,3}^3, d=2 all triples over {1,2} (and six with 3) per factor with ranks {1,2,3} of both '
         'operands, d=3 five triples with ranks {1,2}; batch pairs over {single,1,2,3}; TT x dense and dense x TT with '
         '1..4 dense columns/rows; transposition of the same matrices; single axes to d=9, mode 40, rank 17, batch 33; '
         'tiny, huge, badly balanced, all-zero and variable operands in every pair; integer, half precision and complex types; all {-1,0,1} entries of rank-1 2x2 products; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: NumPy matrix products of the dense matrices']

BP = [(None, None), (2, 2), (None, 2), (2, None), (1, 3), (3, 1), (1, 1), (None, 1), (1, None), (3, 3), (None, 3), (1, 2)]
T2 = [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2),
      (3, 2, 1), (1, 3, 2), (2, 1, 3), (3, 2, 2), (2, 3, 2), (2, 2, 3)]


def cases(tier):
  deep = tier == 'thorough'
  out = []

  def mm(tr, ra, rb, bps, dts=('float64',)):
    for (ba, bb) in bps:
      for dt in dts:
        out.append(['mm', [list(t) for t in tr], list(ra), list(rb), ba, bb, dt])

  for t in itertools.product((1, 2, 3), repeat=3):
    mm([t], [1, 1], [1, 1], BP, ('float64', 'float32'))
  for tr in itertools.product(T2, repeat=2):
    for ra in (1, 2, 3):
      for rb in (1, 2, 3):
        mm(tr, [1, ra, 1], [1, rb, 1], BP)
  T3 = [(1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 3, 1)]
  for tr in itertools.product(T3, repeat=3):
    for ra in rank_choices(3, (1, 2)):
      for rb in rank_choices(3, (1, 2)):
        mm(tr, ra, rb, BP if deep else [(None, None), (3, None), (2, 2), (1, 3)])
  if deep:
    for tr in itertools.product(T3[:4], repeat=4):
      for ra in rank_choices(4, (1, 2)):
        for rb in rank_choices(4, (1, 2)):
          mm(tr, ra, rb, [(None, None), (2, None)])
  seq = [(2, 3, 2), (1, 2, 3), (3, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 1)]
  for d in range(3, 7):
    mm(seq[:d], [1, 2, 3, 1, 2, 2][:d] + [1], [1, 3, 2, 2, 1, 3][:d] + [1], BP, ('float64', 'float32'))
    mm([(2, 2, 2)] * d, [1] + [2] * (d - 1) + [1], [1] + [2] * (d - 1) + [1], BP[:6])
  for n in (4, 5, 6, 8, 10):
    for pos in range(3):
      t = [2, 3, 2]
      t[pos] = n
      mm([t, (2, 1, 3)], [1, 2, 1], [1, 3, 1], BP)
      mm([(2, 1, 3), t], [1, 3, 1], [1, 2, 1], BP)
    mm([(n, n, n), (2, 2, 2)], [1, 2, 1], [1, 2, 1], BP[:4])
  for r in (4, 5, 6, 8, 9):
    for q in (1, 2, r):
      mm([(2, 3, 2), (2, 2, 3)], [1, r, 1], [1, q, 1], BP)
      mm([(2, 3, 2), (2, 2, 3)], [1, q, 1], [1, r, 1], BP)
      mm([(2, 1, 2), (2, 2, 1), (1, 2, 2)], [1, r, 2, 1], [1, 2, q, 1], BP[:3])
  for b in (4, 5, 7, 16, 17, 33):
    for p in ((b, b), (None, b), (b, None), (1, b), (b, 1)):
      mm([(2, 3, 2), (2, 1, 3)], [1, 2, 1], [1, 3, 1], [p], ('float64', 'float32'))
  # TT x dense, dense x TT, transpose
  mats = lib.small_matrices((1, 2), lib.mode_pairs((1, 2, 3)), (1, 2, 3)) + \
      lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2), (3, 2)), (1, 2)) + \
      lib.axial_matrices()
  for s in mats:
    for k in (1, 2, 3, 4, 7, 17):
      out.append(['dense', s, k, 'float64'])
    out.append(['dense', s, 5, 'float32'])
    for b in (None, 1, 2, 3):
      out.append(['t', lib.with_batch(s, b), 'float64'])
    out.append(['t', lib.with_batch(s, 4), 'float32'])
  for s in lib.axial_matrices() + lib.small_matrices((1, 2)):
    for b in (5, 9, 17, 33):
      out.append(['t', lib.with_batch(s, b), 'float64'])
  for tr, ra, rb in (([(2, 3, 1)], [1, 1], [1, 1]), ([(2, 3, 2), (1, 2, 3)], [1, 2, 1], [1, 3, 1]),
                     ([(2, 1, 2), (2, 3, 1), (1, 2, 2)], [1, 2, 3, 1], [1, 3, 2, 1])):
    for ba, bb in BP[:6]:
      for ka, kb in itertools.product(lib.VARIANTS, repeat=2):
        out.append(['special', [list(t) for t in tr], ra, rb, ba, bb, ka, kb, 'float64'])
        if ka == kb or 'i' in (ka, kb):
          out.append(['special', [list(t) for t in tr], ra, rb, ba, bb, ka, kb, 'float32'])
      for dt in ('int32', 'int64', 'float16', 'complex64', 'complex128'):
        out.append(['special', [list(t) for t in tr], ra, rb, ba, bb, 'i', 'i', dt])
  for v in itertools.product((-1, 0, 1), repeat=4):
    out.append(['values', list(v)])
  return out + contexts.cases(ID, tier)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  if case[0] == 'mm':
    _, tr, ra, rb, ba, bb, dt = case
    sa = spec_m([t[0] for t in tr], [t[1] for t in tr], ra, ba)
    sb = spec_m([t[1] for t in tr], [t[2] for t in tr], rb, bb)
    a, da, ca = lib.make(sa, 21, 'i', dt)
    b, db, cb = lib.make(sb, 22, 'i', dt)
    ctx.state((str(sa), dt))
    ctx.state((str(sb), dt))
    batch = None if ba is None and bb is None else max(ba or 1, bb or 1)
    ref = np.matmul(da, db)
    if batch is not None and ref.ndim == 2:
      ref = ref[None]
    rs = ['m', [sa[1][0], sb[1][1]], None, batch]
    lib.expect_tt(ctx, t3f.matmul(a, b), ref, rs, 'matmul(%s, %s)' % (sa, sb), dt,
                  max_ranks=[x * y for x, y in zip(ra, rb)])
    ctx.step()
    lib.unchanged(ctx, a, ca, 'matmul')
    lib.unchanged(ctx, b, cb, 'matmul')
  elif case[0] == 'special':
    _, tr, ra, rb, ba, bb, ka, kb, dt = case
    sa = spec_m([t[0] for t in tr], [t[1] for t in tr], ra, ba)
    sb = spec_m([t[1] for t in tr], [t[2] for t in tr], rb, bb)
    a, da, ca = lib.make(sa, 25, ka, dt)
    b, db, cb = lib.make(sb, 26, kb, dt)
    ctx.state(str(case))
    batch = None if ba is None and bb is None else max(ba or 1, bb or 1)
    ref = np.matmul(da, db)
    if batch is not None and ref.ndim == 2:
      ref = ref[None]
    na, nb = lib.core_scale(ca), lib.core_scale(cb)
    what = '%s' % (case[1:],)
    rs = ['m', [sa[1][0], sb[1][1]], None, batch]
    lib.expect_tt(ctx, t3f.matmul(a, b), ref, rs, 'matmul' + what, dt, scale=na * nb)
    lib.expect_tt(ctx, t3f.transpose(a), np.swapaxes(da, -1, -2), ['m', sa[1][::-1], None, ba], 'transpose' + what, dt, scale=na)
    ctx.step(2)
    D = lib.tf_dtype(dt)
    for c in (1., 2. ** -40, 2. ** 40, 0.) if dt in ('float32', 'float64') else (1., 1j) if dt[0] == 'c' else (1.,):
      if ba is None and kb == 'i':
        right, left = c * lib.ints((da.shape[1], 3), 5), c * lib.ints((2, da.shape[0]), 6)
        lib.expect_value(ctx, t3f.matmul(a, tf.constant(right, D)), da.dot(right), 'matmul dense' + what, dt, scale=na * abs(c) * 10)
        lib.expect_value(ctx, t3f.matmul(tf.constant(left, D), a), left.dot(da), 'matmul dense' + what, dt, scale=na * abs(c) * 10)
        ctx.step(2)
    lib.unchanged(ctx, a, ca, 'matmul')
    lib.unchanged(ctx, b, cb, 'matmul')
  elif case[0] == 'dense':
    _, s, k, dt = case
    a, da, ca = lib.make(s, 23, 'i', dt)
    ctx.state((str(s), k, dt))
    right = lib.ints((da.shape[1], k), 5 + k)
    left = lib.ints((k, da.shape[0]), 6 + k)
    D = lib.tf_dtype(dt)
    lib.expect_value(ctx, t3f.matmul(a, tf.constant(right, D)), da.dot(right), 'matmul(%s, dense %d)' % (s, k), dt)
    lib.expect_value(ctx, t3f.matmul(tf.constant(left, D), a), left.dot(da), 'matmul(dense %d, %s)' % (k, s), dt)
    ctx.step(2)
    lib.unchanged(ctx, a, ca, 'matmul')
  elif case[0] == 't':
    _, s, dt = case
    a, da, ca = lib.make(s, 24, 'i', dt)
    ctx.state(('t', str(s), dt))
    ref = np.swapaxes(da, -1, -2)
    rs = ['m', [s[1][1], s[1][0]], None, s[3]]
    at = t3f.transpose(a)
    lib.expect_tt(ctx, at, ref, rs, 'transpose(%s)' % s, dt, max_ranks=s[2])
    lib.expect_tt(ctx, t3f.transpose(at), da, s, 'transpose twice(%s)' % s, dt, max_ranks=s[2])
    ctx.step(2)
    if s[3] is None:
      I = np.eye(da.shape[0])
      lib.expect_value(ctx, t3f.matmul(at, tf.constant(I, lib.tf_dtype(dt))), da.T, 'transpose * identity(%s)' % s, dt)
      ctx.step()
    lib.unchanged(ctx, a, ca, 'transpose')
  else:
    v = np.array(case[1], dtype=np.float64)
    vals = np.array(list(itertools.product((-1., 0., 1.), repeat=4)))
    n = len(vals)
    c1 = np.array([[1., 2.], [3., -1.]])
    a = t3f.TensorTrain([v.reshape(1, 2, 2, 1), c1.reshape(1, 2, 2, 1)])
    b = t3f.TensorTrainBatch([np.tile(c1.T.reshape(1, 1, 2, 2, 1), (n, 1, 1, 1, 1)), vals.reshape(n, 1, 2, 2, 1)])
    da = np.kron(v.reshape(2, 2), c1)
    db = np.stack([np.kron(c1.T, x.reshape(2, 2)) for x in vals])
    lib.expect_tt(ctx, t3f.matmul(a, b), np.matmul(da, db), ['m', [[2, 2], [2, 2]], None, n], 'matmul values')
    lib.expect_tt(ctx, t3f.matmul(b, a), np.matmul(db, da), ['m', [[2, 2], [2, 2]], None, n], 'matmul values')
    ctx.step(2)
    ctx.state(str(case))
