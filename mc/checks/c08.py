"""C08: rewriting the representation keeps the value."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m

ID = 'C08'
BOUND = ('tensors d<=3 modes {1,2,3} ranks {1,2,3}, d=4 modes {1,2} ranks {1,2}; matrices d<=2 all pairs over {1,2,3} ranks {1,2,3}, '
         'd=3 four pairs; batch single,1,2,3; ranks above the achievable ones included; integer, real, all-zero and '
         'rank-deficient values; single axes to d=12, mode 40, rank 33, batch 64; both directions; tiny, huge, badly balanced and variable objects; all {-1,0,1} cores of tiny shapes, cores scaled by all combinations of 2^-300, 1, 2^300; '
         'float64 and float32; orthogonalization of complex objects and casts between seven dtypes')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: dense value of the input; orthogonality is measured on the returned cores']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  specs = lib.small_tensors((1, 2, 3)) + lib.small_tensors((4,), (1, 2), (1, 2)) + \
      lib.small_matrices((1, 2), lib.mode_pairs((1, 2, 3)), (1, 2, 3)) + \
      lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2), (3, 1)))
  if deep:
    specs += lib.small_tensors((4,), (1, 2, 3), (1, 2, 3)) + lib.small_tensors((5,), (1, 2), (1, 2))
  for s in specs:
    big = lib.ndims(s) >= 4 or (s[0] == 'm' and lib.ndims(s) == 3)
    for b in (None, 2) if big else (None, 1, 2, 3):
      out.append(['obj', lib.with_batch(s, b), 'float64'])
    if lib.ndims(s) <= 2 or s[0] == 't' and lib.ndims(s) == 3:
      out.append(['obj', lib.with_batch(s, None), 'float32'])
      out.append(['obj', lib.with_batch(s, 2), 'float32'])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for b in (None, 1, 4, 5, 9):
      for dt in ('float64', 'float32'):
        out.append(['obj', lib.with_batch(s, b), dt])
  for s, b in lib.far_batches():
    out.append(['obj', lib.with_batch(s, b), 'float64'])
  for s in lib.special_specs():
    for b in (None, 1, 3, 5):
      for k in lib.VARIANTS[:-1]:
        for dt in ('float64', 'float32'):
          out.append(['special', lib.with_batch(s, b), k, dt])
  for d in (1, 2, 3, 4, 5, 6):
    for s in (spec_t([2] * d, [1] + [2] * (d - 1) + [1]), lib.spec_m([2] * d, [1, 2] * (d // 2) + [1] * (d % 2), [1] + [2] * (d - 1) + [1])):
      for b in (None, 2):
        out.append(['extreme', lib.with_batch(s, b)])
  for shape, r in (((2,), 1), ((2, 2), 1), ((1, 2), 2), ((2, 1), 2), ((2, 1, 2), 1), ((1, 1, 1), 2)):
    out.append(['values', list(shape), r])
  for s in lib.special_specs():
    for b in (None, 1, 3):
      for dt in ('float16', 'float32', 'float64', 'int32', 'int64', 'complex64', 'complex128'):
        out.append(['typed', lib.with_batch(s, b), dt])
  return out + contexts.cases(ID, tier)


def gram_ok(ctx, core, left, tol, what):
  m = core.reshape(-1, core.shape[-1]) if left else core.reshape(core.shape[0], -1).T
  g = m.T.dot(m)
  ctx.check(np.max(np.abs(g - np.eye(len(g)))) < tol, lambda: '%s: core is not orthogonal: %s' % (what, g))


def check_orth(ctx, res, d, dt, left, what):
  tol = 1e-9 if dt == 'float64' else 1e-4
  cores = [lib.npy(c).astype(np.float64) for c in res.tt_cores]
  for k in (range(d - 1) if left else range(1, d)):
    if lib.is_batch(res):
      for i in range(cores[k].shape[0]):
        gram_ok(ctx, cores[k][i], left, tol, '%s core %d of element %d' % (what, k, i))
    else:
      gram_ok(ctx, cores[k], left, tol, '%s core %d' % (what, k))


def all_on(ctx, tt, dense, cores, s, dt, vk):
  t3f, tf = lib.t3f, lib.tf
  d = lib.ndims(s)
  # Rounding errors are relative to the size of the cores, not of the (maybe cancelling) value.
  sc = float(np.prod([max(1., np.sqrt(np.sum(c ** 2))) for c in cores])) if vk != 'z' else 1.
  cap = lib.clip_ranks(s)[2]
  # QR in one direction only clips from one side
  m = [int(np.prod(x)) for x in lib.modes(s)]
  left_cap, right_cap = list(s[2]), list(s[2])
  for i in range(1, d):
    left_cap[i] = min(left_cap[i], left_cap[i - 1] * m[i - 1])
  for i in range(d - 1, 0, -1):
    right_cap[i] = min(right_cap[i], right_cap[i + 1] * m[i])
  for left in ((True, False) if s[3] is None else (True,)):
    what = 'orthogonalize_tt_cores(%s, %s, left_to_right=%s)' % (s, vk, left)
    res = t3f.orthogonalize_tt_cores(tt, left_to_right=left)
    lib.expect_tt(ctx, res, dense, s, what, dt, max_ranks=left_cap if left else right_cap, scale=sc)
    check_orth(ctx, res, d, dt, left, what)
    ctx.step()
    ctx.state((str(s), dt, vk, left))
  if s[3] is None:
    res = t3f.orthogonalize_tt_cores(tt)
    lib.expect_tt(ctx, res, dense, s, 'orthogonalize_tt_cores default', dt, scale=sc)
    check_orth(ctx, res, d, dt, True, 'orthogonalize_tt_cores default')
    ctx.step()
  for kw in ({}, {'epsilon': 1e-3}, {'epsilon': 1e-12}):
    res = t3f.renormalize_tt_cores(tt, **kw)
    what = 'renormalize_tt_cores(%s, %s, %s)' % (s, vk, kw)
    lib.expect_tt(ctx, res, dense, s, what, dt, max_ranks=s[2], scale=sc)
    ctx.step()
    eps = kw.get('epsilon', 1e-8)
    rc = [lib.npy(c).astype(np.float64) for c in res.tt_cores]
    for i in range(s[3] or 1):
      ns = [np.sqrt(np.sum((c if s[3] is None else c[i]) ** 2)) for c in cores]
      if min(ns) ** 2 > 4 * eps:
        new = [np.sqrt(np.sum((c if s[3] is None else c[i]) ** 2)) for c in rc]
        geo = np.exp(np.mean(np.log(ns)))
        ctx.check(np.allclose(new, geo, rtol=1e-8 if dt == 'float64' else 1e-3),
                  lambda: '%s: norms of the cores of element %d are %s, expected all %s' % (what, i, new, geo))
  for to in ('float32', 'float64') + (('int32', 'int64') if vk == 'i' else ()):
    res = t3f.cast(tt, lib.tf_dtype(to))
    lib.expect_tt(ctx, res, dense, s, 'cast(%s, %s)' % (s, to), to, max_ranks=s[2],
                  tol=1e-5 if to == 'float32' or dt == 'float32' else 1e-12, scale=sc)
    ctx.check(res.get_tt_ranks().as_list() == list(s[2]), 'cast changed the TT-ranks of %s' % s)
    for c, ref in zip(res.tt_cores, cores):
      ctx.check(np.allclose(lib.npy(c).astype(np.float64), ref, rtol=1e-6, atol=1e-7), 'cast changed the cores of %s' % s)
    back = t3f.cast(res, lib.tf_dtype(dt))
    lib.expect_tt(ctx, back, dense, s, 'cast back(%s, %s)' % (s, to), dt, tol=1e-5 if to == 'float32' or dt == 'float32' else 1e-12,
                  scale=sc)
    ctx.step(2)
  lib.unchanged(ctx, tt, cores, 'rewriting')


def special(ctx, case):
  t3f = lib.t3f
  _, s, k, dt = case
  tt, dense, cores = lib.make(s, 63, k.replace('i', 'r'), dt)
  d = lib.ndims(s)
  sc = lib.core_scale(cores)
  ctx.state(str(case))
  for left in ((True, False) if s[3] is None else (True,)):
    res = t3f.orthogonalize_tt_cores(tt, left)
    lib.expect_tt(ctx, res, dense, s, 'orthogonalize_tt_cores%s' % (case[1:],), dt, scale=sc)
    check_orth(ctx, res, d, dt, left, 'orthogonalize_tt_cores%s' % (case[1:],))
  # The default epsilon is compared with squared core norms: far below it the scale is not balanced.
  eps = 1e-8 if k != 'i+tiny' and k != 'i+unbalanced' else 1e-30
  res = t3f.renormalize_tt_cores(tt, epsilon=eps)
  lib.expect_tt(ctx, res, dense, s, 'renormalize_tt_cores%s' % (case[1:],), dt, scale=sc)
  for i in range(s[3] or 1):
    one = lambda c: c if s[3] is None else c[i]
    ns = [np.sqrt(np.sum(one(c) ** 2)) for c in cores]
    new = [np.sqrt(np.sum(one(lib.npy(c).astype(np.float64)) ** 2)) for c in res.tt_cores]
    geo = np.exp(np.mean(np.log(ns)))
    ctx.check(np.allclose(new, geo, rtol=1e-8 if dt == 'float64' else 1e-3),
              lambda: 'renormalize_tt_cores%s: norms of the cores of element %d are %s, expected all %s' % (case[1:], i, new, geo))
  for to in ('float32', 'float64'):
    lib.expect_tt(ctx, t3f.cast(tt, lib.tf_dtype(to)), dense, s, 'cast%s' % (case[1:],), to, scale=sc,
                  tol=1e-5 if 'float32' in (to, dt) else 1e-12)
  ctx.step(4)
  lib.unchanged(ctx, tt, cores, 'rewriting')


def typed(ctx, case):
  """Complex objects (orthogonalization, casts) and casts between all types."""
  t3f = lib.t3f
  _, s, dt = case
  tt, dense, cores = lib.make(s, 65, 'i', dt)
  d = lib.ndims(s)
  ctx.state(str(case))
  if dt[0] == 'c':
    for left in ((True, False) if s[3] is None else (True,)):
      what = 'orthogonalize_tt_cores%s %s' % (case[1:], left)
      res = t3f.orthogonalize_tt_cores(tt, left)
      lib.expect_tt(ctx, res, dense, s, what, dt, scale=lib.core_scale(cores))
      for k in range(d - 1) if left else range(1, d):
        for i in range(s[3] or 1):
          c = lib.wide(lib.npy(res.tt_cores[k]))
          c = c if s[3] is None else c[i]
          c = c.reshape(-1, c.shape[-1]) if left else c.reshape(c.shape[0], -1).T
          ctx.check(lib.close(c.conj().T.dot(c), np.eye(c.shape[1]), tol=1e-9 if dt == 'complex128' else 1e-4), '%s core %d' % (what, k))
      ctx.step()
  for to in ('float16', 'float32', 'float64', 'int32', 'int64', 'complex64', 'complex128'):
    if dt[0] == 'c' and to[0] != 'c':
      continue
    res = t3f.cast(tt, lib.tf_dtype(to))
    lib.expect_tt(ctx, res, dense, s, 'cast%s to %s' % (case[1:], to), to, max_ranks=s[2], scale=lib.core_scale(cores))
    for c, ref in zip(res.tt_cores, cores):
      ctx.check(np.array_equal(lib.wide(lib.npy(c)), ref), 'cast%s to %s changed the cores' % (case[1:], to))
    ctx.step()
  lib.unchanged(ctx, tt, cores, 'rewriting')


def extreme(ctx, case):
  """Cores multiplied by 2^-300, 1 or 2^300 in all combinations: the norms
  become equal although their product is far outside the range of the dtype."""
  s = case[1]
  d = lib.ndims(s)
  base = lib.np_cores(s, 64, 'r')
  dense = lib.np_dense(base, s[0] == 'm', s[3] is not None)
  sc = lib.core_scale(base)
  for pattern in itertools.product((-300, 0, 300), repeat=d):
    other = pattern[::-1] if s[3] is not None else pattern
    cores = []
    for k, c in enumerate(base):
      c = c.copy()
      if s[3] is None:
        c *= 2. ** pattern[k]
      else:
        c[0] *= 2. ** pattern[k]
        c[1] *= 2. ** other[k]
      cores.append(c)
    res = lib.t3f.renormalize_tt_cores(lib.build(s, cores), epsilon=1e-300)
    ctx.step()
    ctx.state((str(s), pattern))
    back = [lib.npy(c) * 2. ** (-sum(pattern) / float(d)) for c in res.tt_cores]
    for i in range(s[3] or 1):
      ns = [np.linalg.norm(c if s[3] is None else c[i]) for c in back]
      ctx.check(np.allclose(ns, np.exp(np.mean([np.log(np.linalg.norm(c if s[3] is None else c[i])) for c in base])), rtol=1e-8),
                lambda: 'renormalize_tt_cores of %s with cores scaled by 2^%s: norms %s' % (s, pattern, ns))
    got = lib.np_dense(back, s[0] == 'm', s[3] is not None)
    ctx.check(np.all(np.abs(got - dense) <= 1e-10 * max(sc, 1.)), lambda: 'renormalize_tt_cores of %s with cores scaled by 2^%s changes the value' % (s, pattern))
  ctx.outcome(str(case))


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  if case[0] == 'typed':
    return typed(ctx, case)
  if case[0] == 'extreme':
    return extreme(ctx, case)
  if case[0] == 'special':
    special(ctx, case)
    return
  if case[0] == 'obj':
    _, s, dt = case
    kinds = ['i', 'r', 'z', 'def'] if dt == 'float64' else ['r', 'z']
    for vk in kinds:
      if vk == 'def':  # repeated slices: rank deficient, and one tiny core
        cores = [np.ones_like(c) if k % 2 == 0 else c * 1e-6 for k, c in enumerate(lib.np_cores(s, 62, 'r'))]
        tt = lib.build(s, cores, dt)
        dense = lib.np_dense(cores, s[0] == 'm', s[3] is not None)
      else:
        tt, dense, cores = lib.make(s, 61, vk, dt)
      all_on(ctx, tt, dense, cores, s, dt, vk)
  else:
    _, shape, r = case
    d = len(shape)
    s = spec_t(shape, [1] + [r] * (d - 1) + [1])
    shp = lib.core_shapes(s)
    sizes = [int(np.prod(c)) for c in shp]
    vals = np.array(list(itertools.product((-1., 0., 1.) if sum(sizes) <= 6 else (0., 1.), repeat=sum(sizes))))
    off = np.cumsum([0] + sizes)
    cores = [vals[:, off[k]:off[k + 1]].reshape((len(vals),) + shp[k]) for k in range(d)]
    bs = lib.with_batch(s, len(vals))
    dense = lib.np_dense(cores, False, True)
    bt = lib.build(bs, cores)
    res = t3f.orthogonalize_tt_cores(bt)
    lib.expect_tt(ctx, res, dense, bs, 'orthogonalize all values')
    check_orth(ctx, res, d, 'float64', True, 'orthogonalize all values')
    lib.expect_tt(ctx, t3f.renormalize_tt_cores(bt), dense, bs, 'renormalize all values')
    for i in range(len(vals)):
      x = lib.build(s, [c[i] for c in cores])
      for left in (True, False):
        res = t3f.orthogonalize_tt_cores(x, left)
        lib.expect_tt(ctx, res, dense[i], s, 'orthogonalize values %s' % vals[i])
        check_orth(ctx, res, d, 'float64', left, 'orthogonalize values %s' % vals[i])
      lib.expect_tt(ctx, t3f.renormalize_tt_cores(x), dense[i], s, 'renormalize values %s' % vals[i])
      ctx.state((str(shape), r, i))
      ctx.step(3)
