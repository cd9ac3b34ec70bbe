"""C11: approximate sums of many TT-objects."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m

ID = 'C11'
BOUND = ('1..7 (and 8, 9, 11) summands; tensors d<=3 modes {1,2,3} ranks {1,2}, d=4 modes {2}; matrices d<=2 six pairs, d=3 one; list of single '
         'objects or batches; summation over the batch axis without weights, with 1-D weights and with B x N weights, N in {1,2,3}; '
         'weights as list, array, tensor with zero and negative entries; caps: large enough, exactly enough for a sum that '
         'lies in a low-rank family (exactly, and up to small terms), and too small (two summands: exact TT-SVD guarantee); tiny, huge, badly balanced, all-zero '
         'and variable summands and weights; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['exactness is demanded when the cap admits every partial sum; otherwise rank caps and an error bound']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  specs = lib.small_tensors((1, 2), (1, 2, 3), (1, 2)) + lib.small_tensors((3,), (1, 2, 3) if deep else (1, 2), (1, 2)) + \
      [spec_t([3, 2, 4], [1, 2, 3, 1]), spec_t([2, 2, 2, 2], [1, 2, 2, 2, 1]), spec_t([2, 3, 1, 2], [1, 1, 2, 2, 1]),
       spec_t([2, 1, 2, 2, 2], [1, 2, 1, 2, 2, 1])] + \
      lib.small_matrices((1, 2), ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)), (1, 2)) + \
      [spec_m([2, 1, 2], [1, 3, 2], [1, 2, 2, 1]), spec_m([2, 2, 2], [2, 2, 2], [1, 2, 2, 1])]
  for s in specs:
    big = lib.ndims(s) >= 3
    for n in (1, 2, 3, 4, 5, 6, 7) + (() if big else (8, 9, 11)):
      out.append(['add_n', s, n, None, 'float64'])
      out.append(['red', s, n, 0, 'float64'])
      out.append(['red', s, n, 'w', 'float64'])
      for N in (1, 2, 3):
        out.append(['red', s, n, N, 'float64'])
      if n in (2, 3, 5):
        out.append(['add_n', s, n, 2, 'float64'])
        out.append(['add_n', s, n, 1, 'float64'])
        out.append(['add_n', s, n, None, 'float32'])
        for w in (0, 'w', 1, 2):
          out.append(['red', s, n, w, 'float32'])
    out.append(['bad', s])
  for s in [spec_t([2] * 6, [1, 2, 2, 2, 2, 2, 1]), spec_t([2, 1, 2, 3, 1, 2], [1, 2, 1, 2, 3, 2, 1]), spec_t([5, 2, 6], [1, 2, 3, 1]),
            spec_t([2, 6], [1, 2, 1]), spec_t([3, 4, 3], [1, 5, 3, 1]), spec_m([5, 2], [1, 6], [1, 2, 1])]:
    for n in (2, 3, 4, 5):
      out.append(['add_n', s, n, None, 'float64'])
      for b in (3, 4, 5):
        out.append(['add_n', s, n, b, 'float64'])
      for w in (0, 'w', 4, 5):
        out.append(['red', s, n, w, 'float64'])
  for s in (spec_t([3, 2], [1, 2, 1]), spec_m([2, 1], [1, 3], [1, 1, 1]), spec_t([2, 2, 2], [1, 1, 2, 1])):
    for n in (8, 9, 10, 12, 13, 15, 16, 17, 31, 33):
      out.append(['add_n', s, n, None, 'float64'])
      for w in (0, 'w', 2):
        out.append(['red', s, n, w, 'float64'])
    for N in (6, 9, 17):
      out.append(['red', s, 3, N, 'float64'])
  for s in lib.special_specs():
    for ks in itertools.product(lib.VARIANTS, repeat=2):
      for b in (None, 3, 5):
        out.append(['special', s, list(ks), b])
  return out + contexts.cases(ID, tier)


def weights(n, N, salt):
  w = lib.reals((n, N), 90 + salt)
  w = np.round(w * 8) / 4.
  if n > 1:
    w[0, 0] = 0.
    w[-1] = -1.5
  return w


def family(s, n, pos=-1):
  """Objects that share all cores but one: every combination keeps the ranks."""
  base = lib.np_cores(lib.with_batch(s, None), 91, 'r')
  base = [c.astype(np.float32).astype(np.float64) for c in base]
  pos = pos % len(base)
  own = [lib.reals(base[pos].shape, 92 + i).astype(np.float32).astype(np.float64) for i in range(n)]
  return [base[:pos] + [o] + base[pos + 1:] for o in own]


NOISE = 1e-4


def perturbed(s, n, pos):
  """The family plus small rank-1 terms: cores, and the norms of the terms."""
  d = lib.ndims(s)
  out, norms = [], []
  for i, cores in enumerate(family(s, n, pos)):
    noise = lib.np_cores(lib.with_ranks(lib.with_batch(s, None), [1] * (d + 1)), 300 + i, 'r')
    noise[0] = noise[0] * NOISE
    norms.append(float(np.linalg.norm(lib.np_dense(noise, s[0] == 'm', False))))
    res = []
    for k, (a, b) in enumerate(zip(cores, noise)):
      la, ra = a.shape[0], a.shape[-1]
      c = np.zeros((1 if k == 0 else la + 1,) + a.shape[1:-1] + (1 if k == d - 1 else ra + 1,))
      c[:la, ..., :ra] += a
      c[(0 if k == 0 else la):, ..., (0 if k == d - 1 else ra):] += b
      res.append(c)
    out.append(res)
  return out, norms


def cap_of(s):
  return max(s[2])


def near(ctx, res, ref, s, norms, what):
  """Dropping the small terms would cost sum(norms); roundings may lose a
  dimension-dependent factor at each level of the summation."""
  d, n = lib.ndims(s), len(norms)
  lib.expect_tt(ctx, res, None, s, what, value=False, max_ranks=[cap_of(s)] * (d + 1))
  err = float(np.linalg.norm(lib.dense_of(res) - ref))
  bound = sum(norms) * (1 + np.sqrt(d)) ** (1 + int(np.ceil(np.log2(n)))) + 1e-9
  ctx.check(err <= bound, lambda: '%s: error %g, dropping the small terms would cost %g' % (what, err, sum(norms)))
  ctx.step()


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  ctx.state(str(case))
  s = case[1]
  d = lib.ndims(s)
  is_m = s[0] == 'm'
  if case[0] == 'add_n':
    _, s, n, b, dt = case
    sb = lib.with_batch(s, b)
    objs = [lib.make(sb, 93 + i, 'i', dt) for i in range(n)]
    ref = sum(o[1] for o in objs)
    # Rounding errors are relative to the size of the cores, not of the (maybe cancelling) value.
    sc = sum(float(np.prod([max(1., np.sqrt(np.sum(c ** 2))) for c in o[2]])) for o in objs)
    enough = n * max(s[2])
    for arg in ([o[0] for o in objs], tuple(o[0] for o in objs)):
      lib.expect_tt(ctx, t3f.approximate.add_n(arg, max_tt_rank=enough), ref, sb, 'add_n(%s x %d)' % (sb, n), dt,
                    max_ranks=[enough] * (d + 1), scale=sc)
      ctx.step()
    for cap in (None, 10 ** 6, np.int64(enough), [enough] * (d + 1)) if dt == 'float64' and d > 1 else ():
      lib.expect_tt(ctx, t3f.approximate.add_n([o[0] for o in objs], cap), ref, sb, 'add_n(%s x %d, cap %s)' % (sb, n, cap), dt,
                    max_ranks=[enough] * (d + 1), scale=sc)
      ctx.step()
    for cap in (1, 2):
      res = t3f.approximate.add_n([o[0] for o in objs], max_tt_rank=cap)
      lib.expect_tt(ctx, res, None, sb, 'add_n(%s x %d, cap %d)' % (sb, n, cap), dt, value=False,
                    max_ranks=[cap if n > 1 else max(cap, max(s[2]))] * (d + 1))
      err = np.linalg.norm(lib.dense_of(res) - ref)
      tot = sum(np.linalg.norm(o[1]) for o in objs)
      ctx.check(err <= 2 * d * tot + 1e-6, lambda: 'add_n(%s x %d, cap %d): error %g' % (sb, n, cap, err))
      ctx.step()
    fam = family(s, n)
    tts = [lib.build(lib.with_batch(s, None), c, dt) for c in fam]
    fref = sum(lib.np_dense(c, is_m, False) for c in fam)
    cap = max(s[2])
    lib.expect_tt(ctx, t3f.approximate.add_n(tts, max_tt_rank=cap), fref, lib.with_batch(s, None), 'add_n(family %s x %d)' % (s, n),
                  dt, max_ranks=[cap] * (d + 1), scale=10. * n)
    ctx.step()
    if n == 2 and b is None:  # a single rounding: the exact guarantee
      for cap in (1, 2, 3):
        res = t3f.approximate.add_n([o[0] for o in objs], max_tt_rank=cap)
        lib.expect_quasi_optimal(ctx, lib.dense_of(res), ref, s, [cap] * (d + 1), 'add_n(%s x 2, cap %d)' % (s, cap), dt, scale=sc)
        ctx.step()
    if dt == 'float64' and n > 1:
      for pos in (-1, 0):
        pc, norms = perturbed(s, n, pos)
        pref = sum(lib.np_dense(c, is_m, False) for c in pc)
        res = t3f.approximate.add_n([lib.build(lib.with_ranks(s, [1] + [r + 1 for r in s[2][1:-1]] + [1]), c) for c in pc], max_tt_rank=cap_of(s))
        near(ctx, res, pref, s, norms, 'add_n(perturbed family %s x %d)' % (s, n))
    for o in objs:
      lib.unchanged(ctx, o[0], o[2], 'add_n')
  elif case[0] == 'red':
    _, s, n, w, dt = case
    sb = lib.with_batch(s, n)
    fam = family(s, n)
    fc = [np.stack([c[k] for c in fam]) for k in range(d)]
    for name, (tt, dense, cores) in (('gen', lib.make(sb, 94, 'i', dt)),
                                     ('fam', (lib.build(sb, fc, dt), lib.np_dense(fc, is_m, True), fc))):
      if w == 0:
        forms, ref, out = [{}, {'coef': None}], dense.sum(0), lib.with_batch(s, None)
      elif w == 'w':
        W = weights(n, 1, 5)[:, 0]
        forms = [{'coef': W}, {'coef': W.tolist()}, {'coef': tf.constant(W, lib.tf_dtype(dt))}]
        ref, out = np.tensordot(W, dense, 1), lib.with_batch(s, None)
      else:
        W = weights(n, w, 7)
        forms = [{'coef': W}, {'coef': W.tolist()}, {'coef': tf.constant(W, lib.tf_dtype(dt))}]
        ref, out = np.tensordot(W.T, dense, 1), lib.with_batch(s, w)
      sc = 2. * n * float(np.prod([max(1., np.sqrt(np.max(np.sum(c.reshape(n, -1) ** 2, 1)))) for c in cores]))
      # an odd level is padded with a zero object, so ranks can double once more than log2(n)
      enough = max(s[2]) * 2 ** int(np.ceil(np.log2(n))) if name == 'gen' else max(s[2])
      for kw in forms:
        res = t3f.approximate.reduce_sum_batch(tt, max_tt_rank=enough, **kw)
        lib.expect_tt(ctx, res, ref, out, 'reduce_sum_batch(%s %s, %s)' % (name, sb, w), dt, max_ranks=[enough] * (d + 1), scale=sc)
        ctx.step()
      for cap in (None, 10 ** 6, np.int64(enough), [enough] * (d + 1)) if dt == 'float64' and d > 1 and w != 'w' else ():
        res = t3f.approximate.reduce_sum_batch(tt, cap, **forms[0])
        lib.expect_tt(ctx, res, ref, out, 'reduce_sum_batch(%s %s, %s, cap %s)' % (name, sb, w, cap), dt,
                      max_ranks=None if name == 'fam' else [enough] * (d + 1), scale=sc)
        ctx.step()
      if name == 'gen':
        for cap in (1, 2):
          res = t3f.approximate.reduce_sum_batch(tt, max_tt_rank=cap, **forms[0])
          lib.expect_tt(ctx, res, None, out, 'reduce_sum_batch(%s, %s, cap %d)' % (sb, w, cap), dt, value=False,
                        max_ranks=[cap if n > 1 else max(cap, max(s[2]))] * (d + 1))
          err = np.linalg.norm(lib.dense_of(res) - ref)
          tot = 4 * np.sum(np.sqrt(np.sum(dense.reshape(n, -1) ** 2, 1)))
          ctx.check(err <= 4 * d * tot + 1e-6, lambda: 'reduce_sum_batch(%s, %s, cap %d): error %g' % (sb, w, cap, err))
          ctx.step()
      lib.unchanged(ctx, tt, cores, 'reduce_sum_batch')
    if dt == 'float64' and n > 1 and w in (0, 'w'):
      for pos in (-1, 0):
        pc, norms = perturbed(s, n, pos)
        W = weights(n, 1, 5)[:, 0] if w == 'w' else np.ones(n)
        pt = lib.build(lib.with_batch(lib.with_ranks(s, [1] + [r + 1 for r in s[2][1:-1]] + [1]), n), [np.stack([c[k] for c in pc]) for k in range(d)])
        pref = sum(x * lib.np_dense(c, is_m, False) for x, c in zip(W, pc))
        res = t3f.approximate.reduce_sum_batch(pt, cap_of(s), **({} if w == 0 else {'coef': W}))
        near(ctx, res, pref, s, [abs(x) * y for x, y in zip(W, norms)], 'reduce_sum_batch(perturbed family %s x %d)' % (s, n))
  elif case[0] == 'special':
    _, s, ks, b = case
    sb = lib.with_batch(s, b)
    objs = [lib.make(sb, 96 + i, k, 'float64') for i, k in enumerate(ks + ['z', ks[0]])]
    ref = sum(o[1] for o in objs)
    sc = sum(lib.core_scale(o[2]) for o in objs)
    cap = 4 * max(s[2])
    lib.expect_tt(ctx, t3f.approximate.add_n([o[0] for o in objs], max_tt_rank=cap), ref, sb, 'add_n%s' % (case[1:],), scale=sc)
    ctx.step()
    for o in objs:
      lib.unchanged(ctx, o[0], o[2], 'add_n')
    if b is not None:
      tt, dense, cores = objs[0]
      cap = max(s[2]) * 2 ** int(np.ceil(np.log2(b)))
      sc = b * lib.core_scale(cores)
      lib.expect_tt(ctx, t3f.approximate.reduce_sum_batch(tt, cap), dense.sum(0), lib.with_batch(s, None), 'reduce_sum_batch%s' % (case[1:],),
                    scale=sc)
      for c in (1., 2. ** -40, 2. ** 40, 0.):
        W = c * weights(b, 3, 9)
        lib.expect_tt(ctx, t3f.approximate.reduce_sum_batch(tt, cap, W), np.tensordot(W.T, dense, 1), lib.with_batch(s, 3),
                      'reduce_sum_batch weights%s' % (case[1:],), scale=2 * c * sc)
        lib.expect_tt(ctx, t3f.approximate.reduce_sum_batch(tt, cap, W[:, 0]), np.tensordot(W[:, 0], dense, 1), lib.with_batch(s, None),
                      'reduce_sum_batch weights%s' % (case[1:],), scale=2 * c * sc)
        ctx.step(2)
      lib.unchanged(ctx, tt, cores, 'reduce_sum_batch')
  else:
    tt = lib.make(lib.with_batch(s, 3), 95)[0]
    for bad in (np.ones((2, 2)), np.ones((4, 3)), np.ones((3, 2, 1))):
      lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 2, coef=bad), 'reduce_sum_batch with weights %s' % (bad.shape,),
                        ValueError)
      ctx.step()
    for bad in (np.ones(2), np.ones(4)):
      lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 2, coef=bad), 'reduce_sum_batch with weights %s' % (bad.shape,))
      ctx.step()
