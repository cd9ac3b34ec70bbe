"""C10: rounding."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C10'
BOUND = ('tensors d<=3 modes {1,2,3} ranks {1,2,3} and {1,4}, d=4 modes {1,2,3} ranks {2}, matrices d<=2 six pairs ranks {1,2,3}, d=3 '
         'three pairs; batch single,1,2,3; caps 1,2,3,None,infinity,absent and per-rank lists; generic, integer, zero, '
         'rank-deficient and graded values, differing between batch elements; single axes to d=12, mode 40, rank 33, batch 64; '
         'sums x+x and x-x; tiny, huge, badly balanced and variable objects; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['oracle: TT-SVD guarantee computed with NumPy SVDs of the unfoldings of every batch element']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  wide = lib.small_tensors((4,), (2, 3), (3,))
  specs = wide + lib.small_tensors((1, 2, 3)) + lib.small_tensors((2, 3), (2, 3), (4,)) + \
      lib.small_tensors((4,), (1, 2, 3) if deep else (1, 2), (2,)) + \
      lib.small_matrices((1, 2), rank_values=(1, 2, 3)) + lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2)), (1, 2))
  for s in specs:
    d = lib.ndims(s)
    caps = ['absent', 1, 2, 3, None, 'inf']
    if d == 2:
      caps += [[1, k, 1] for k in (1, 2, 3, 4)]
    elif d == 3:
      caps += [[1] + list(p) + [1] for p in itertools.product((1, 2, 3, 4) if deep else (1, 2, 3), repeat=2)]
    elif d == 4:
      caps = caps if s not in wide else []
      caps += [[1, 1, 2, 3, 1], [1, 2, 1, 2, 1], [1, 3, 2, 1, 1], [1, 2, 3, 2, 1], [1, 2, 3, 3, 1], [1, 3, 3, 2, 1], [1, 3, 2, 3, 1]]
    if d >= 3 and 'inf' in caps:
      caps.remove('inf')
    for cap in caps:
      bs = (None, 1, 2, 3) if d <= 2 or deep else ((None, 2) if isinstance(cap, list) or cap == 'absent' else (None, 1, 3))
      for b in bs:
        out.append(['obj', lib.with_batch(s, b), cap, 'float64'])
    if d <= 3:
      for b in (None, 2):
        out.append(['obj', lib.with_batch(s, b), 2, 'float32'])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for cap in ('absent', 1, 2, 3, 5, None):
      for b in (None, 1, 4, 9):
        out.append(['obj', lib.with_batch(s, b), cap, 'float64'])
    d = lib.ndims(s)
    up = [min(k, d - k) + 1 for k in range(1, d)]
    for cap in (range(1, d), range(d - 1, 0, -1), up, [2 + k % 3 for k in range(d - 1)], [5 if k == d // 2 else 2 for k in range(1, d)],
                [2 if k == d // 2 else 5 for k in range(1, d)]):
      for b in (None, 3) if d > 1 else ():
        out.append(['obj', lib.with_batch(s, b), [1] + list(cap) + [1], 'float64'])
    out.append(['obj', lib.with_batch(s, 3), 3, 'float32'])
  for s, b in lib.far_batches():
    for cap in ('absent', 1, 2):
      out.append(['obj', lib.with_batch(s, b), cap, 'float64'])
  for s in lib.small_tensors((2, 3), (2, 3), (2,)) + lib.small_matrices((2,), ((2, 2), (2, 3)), (2,)):
    for b in (None, 1, 2):
      out.append(['sum', lib.with_batch(s, b)])
  for s in lib.special_specs() + [spec_t([3, 3, 3], [1, 3, 3, 1]), spec_m([2, 3], [3, 2], [1, 5, 1])]:
    for b in (None, 1, 3, 5):
      for k in lib.VARIANTS[:-1]:
        for cap in (1, 2, None):
          for dt in ('float64', 'float32'):
            out.append(['special', lib.with_batch(s, b), k, cap, dt])
  out.append(['bad'])
  return out + contexts.cases(ID, tier)


def rk(cap):
  if cap == 'absent':
    return {}, None
  if cap == 'inf':
    return {'max_tt_rank': np.inf}, None
  return {'max_tt_rank': cap}, cap


def check(ctx, res, dense, s, in_ranks, cap, dt, what, scale):
  d = lib.ndims(s)
  caps = lib.full_caps(cap, d)
  ach = lib.clip_ranks(lib.with_ranks(s, in_ranks))[2]
  mr = [min(c, a) if 0 < k < d else 1 for k, (c, a) in enumerate(zip(caps, ach))]
  # upper bounds: the cap, the input ranks, what the shape can achieve
  lib.expect_tt(ctx, res, None, s, what, dt, max_ranks=mr, value=False)
  got = lib.dense_of(res)
  for i in range(s[3] or 1):
    lib.expect_quasi_optimal(ctx, got if s[3] is None else got[i], dense if s[3] is None else dense[i],
                             lib.with_batch(s, None), caps, '%s element %d' % (what, i), dt, scale=scale)
  ctx.step()


def objects(s, dt):
  kinds = ('i', 'r', 'z') if dt == 'float64' else ('r',)
  for k in kinds:
    tt, dense, cores = lib.make(s, 81, k, dt)
    yield k, tt, dense, cores
  if dt == 'float64':
    cores = [c * (0.05 ** np.arange(c.shape[-1])) if i < lib.ndims(s) - 1 else c
             for i, c in enumerate(lib.np_cores(s, 82, 'r'))]
    yield 'graded', lib.build(s, cores), lib.np_dense(cores, s[0] == 'm', s[3] is not None), cores
    cores = [np.ones_like(c) if i % 2 else c for i, c in enumerate(lib.np_cores(s, 83, 'i'))]
    yield 'deficient', lib.build(s, cores), lib.np_dense(cores, s[0] == 'm', s[3] is not None), cores


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  ctx.state(str(case))
  if case[0] == 'obj':
    _, s, cap, dt = case
    kw, c = rk(cap)
    for name, tt, dense, cores in objects(s, dt):
      what = 'round(%s %s, %s)' % (name, s, kw)
      sc = float(np.prod([np.sqrt(np.max(np.sum(x.reshape((s[3] or 1), -1) ** 2, 1))) for x in cores]))
      check(ctx, t3f.round(tt, **kw), dense, s, s[2], c, dt, what, sc)
      ctx.state((str(case), name))
      lib.unchanged(ctx, tt, cores, 'round')
  elif case[0] == 'special':
    # Everything is compared after division by the power of two of the value.
    _, s, k, cap, dt = case
    for vk in ('i', 'r'):
      tt, dense, cores = lib.make(s, 86, k.replace('i', vk), dt)
      f = lib.special_scale(k)
      res = t3f.round(tt, max_tt_rank=cap)
      back = lib.build(s, [lib.npy(c).astype(np.float64) / (f if i == 0 else 1.) for i, c in enumerate(res.tt_cores)])
      lib.expect_tt(ctx, res, None, s, 'round%s' % (case[1:],), dt, value=False)
      check(ctx, lib.t3f.cast(back, lib.tf_dtype(dt)) if dt == 'float32' else back, dense / f, s, s[2], cap, dt,
            'round(%s %s)' % (vk, case[1:]), lib.core_scale(cores) / f)
      lib.unchanged(ctx, tt, cores, 'round')
  elif case[0] == 'sum':
    s = case[1]
    tt, dense, cores = lib.make(s, 84, 'r')
    d = lib.ndims(s)
    dbl = [1] + [2 * r for r in s[2][1:-1]] + [1]
    for what, x, ref in (('x + x', tt + tt, 2 * dense), ('x - x', tt - tt, 0 * dense), ('x + (-2) * x', tt + (-2.) * tt, -dense)):
      for cap in (None, max(s[2]), 2 * max(s[2])):
        check(ctx, t3f.round(x, max_tt_rank=cap), ref, s, dbl, cap, 'float64', 'round(%s, %s)' % (what, cap), 10.)
  else:
    for d in (1, 2, 3):
      for b in (None, 2):
        for s in (spec_t([2] * d, [1] + [2] * (d - 1) + [1], b), spec_m([2] * d, [1] * d, [1] + [2] * (d - 1) + [1], b)):
          tt = lib.make(s, 85)[0]
          for kw in ({'max_tt_rank': 0}, {'max_tt_rank': -1}, {'max_tt_rank': [1] * d}, {'max_tt_rank': [1] * (d + 2)},
                     {'max_tt_rank': 2, 'epsilon': -1e-3}, {'max_tt_rank': [1] * d + [0]}):
            if kw['max_tt_rank'] == [1]:
              continue
            lib.expect_raises(ctx, lambda: t3f.round(tt, **kw), 'round(%s, %s)' % (s, kw), ValueError)
            ctx.step()
          # Every non-negative accuracy is accepted.
          _, dense, cores = lib.make(s, 85)
          sc = float(np.prod([np.sqrt(np.max(np.sum(x.reshape((s[3] or 1), -1) ** 2, 1))) for x in cores]))
          for eps in (0., 0, 1e-13, None, 0.5, 1., 3):
            for cap in (None, 1, 2):
              r = t3f.round(tt, max_tt_rank=cap, epsilon=eps)
              if eps is None or eps < 1e-12:
                check(ctx, r, dense, s, s[2], cap, 'float64', 'round(%s, %s, epsilon=%s)' % (s, cap, eps), sc)
