"""C04: elementwise arithmetic of TT-objects is arithmetic of the tensors."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C04'
BOUND = ('tensors: d<=2 modes in {1,2,3} and d=3 modes in {1,2,3} with both operands\' inner ranks in '
         '{1,2,3}, d=4 modes {1,2} ranks {1,2}; matrices d<=2 six mode pairs, d=3 three mode pairs; '
         'batch pairs over {single,1,2,3} that may broadcast; one axis at a time up to d=8, mode 16, '
         'rank 12, batch 7; scalars from a fixed list; tiny, huge, badly balanced, all-zero and variable operands in every pair; integer, half precision and complex types; all {-1,0,1} valued rank-1/rank-2 cores of '
         'the tiny shapes; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = [
    'outside the all-values sub-space the entries are one fixed integer assignment per structure',
    'reference model: dense NumPy arithmetic on the contraction of the TT-cores',
]

BP_ALL = [(None, None), (2, 2), (None, 2), (2, None), (1, 3), (3, 1), (1, 1),
          (None, 1), (1, None), (None, 3), (3, None), (1, 2), (2, 1), (3, 3)]
BP_SHORT = BP_ALL[:6]
BP_LONG = BP_ALL + [(4, 4), (5, None), (None, 5), (7, 7), (1, 4), (5, 1)]
SCALARS = [0, 1, -1, 2, -3, 0., 1., -1., 0.5, -0.25, 7., 1e-3, -1e3, 2.5]


def cases(tier):
  deep = tier == 'thorough'
  out = []

  def pair(spec, rb, bps, dtypes):
    for (ba, bb) in bps:
      for dt in dtypes:
        out.append(['pair', lib.with_batch(spec, ba), list(rb), bb, dt])

  for s in lib.small_tensors((1, 2)):
    for rb in rank_choices(lib.ndims(s), (1, 2, 3)):
      pair(s, rb, BP_ALL, ['float64', 'float32'])
  for s in lib.small_matrices((1, 2), rank_values=(1, 2, 3)):
    for rb in rank_choices(lib.ndims(s), (1, 2, 3)):
      pair(s, rb, BP_ALL, ['float64'])
  for s in lib.small_tensors((3,)):
    for rb in rank_choices(3, (1, 2, 3) if deep else (1, 3)):
      pair(s, rb, BP_ALL if deep else BP_SHORT, ['float64'])
  for s in lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2)) if not deep else ((1, 2), (2, 1), (2, 2), (3, 2))):
    for rb in rank_choices(3, (1, 2)):
      pair(s, rb, BP_SHORT, ['float64'])
  for s in lib.small_tensors((4,), (1, 2), (1, 2)):
    for rb in rank_choices(4, (1, 2)):
      pair(s, rb, BP_SHORT if deep else [(None, None), (2, None), (1, 3)], ['float64'])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for rb in lib.uniq([s[2][::-1], [1] * len(s[2]), s[2]]):
      pair(s, rb, BP_LONG, ['float64'])
    pair(s, s[2][::-1], BP_SHORT, ['float32'])
  for s, b in lib.far_batches():
    pair(s, s[2][::-1], [(b, b), (None, b), (b, None), (1, b), (b, 1)], ['float64'])
  num = []
  base = lib.small_tensors((1, 2, 3), (1, 2, 3), (1, 2)) + lib.small_matrices((1, 2)) + \
      lib.small_tensors((4,), (2,), (1, 2)) + lib.axial_tensors() + lib.axial_matrices()
  for s in base:
    for b in (None, 1, 3):
      for dt in ('float64', 'float32'):
        num.append(['scalar', lib.with_batch(s, b), dt])
  for s, b in lib.far_batches():
    num.append(['scalar', lib.with_batch(s, b), 'float64'])
  out += num
  for s in lib.special_specs():
    rb = s[2][::-1]
    for ba, bb in BP_SHORT:
      for ka, kb in itertools.product(lib.VARIANTS, repeat=2):
        out.append(['special', lib.with_batch(s, ba), ka, rb, bb, kb, 'float64'])
        if ka == kb or 'i' in (ka, kb):
          out.append(['special', lib.with_batch(s, ba), ka, rb, bb, kb, 'float32'])
      for dt in ('int32', 'int64', 'float16', 'complex64', 'complex128'):
        out.append(['special', lib.with_batch(s, ba), 'i', rb, bb, 'i', dt])
  for shape, r in (((1, 1), 1), ((2, 1), 1), ((1, 2), 1), ((1, 1), 2), ((2, 2), 1)):
    vals = (-1, 0, 1) if shape != (2, 2) else (0, 1, -1)
    n = shape[0] * r + r * shape[1]
    for v in itertools.product(vals, repeat=n):
      out.append(['values', list(shape), r, list(v)])
  return out + contexts.cases(ID, tier)


def _all_values(shape, r):
  n = shape[0] * r + r * shape[1]
  v = np.array(list(itertools.product((-1., 0., 1.), repeat=n)))
  c1 = v[:, :shape[0] * r].reshape(-1, 1, shape[0], r)
  c2 = v[:, shape[0] * r:].reshape(-1, r, shape[1], 1)
  return [c1, c2]


def bcast(a, ba, b, bb):
  """Reference broadcasting: dense arrays with a leading batch axis."""
  res_batch = None
  if ba is not None or bb is not None:
    res_batch = max(ba or 1, bb or 1)
    a = a if ba is not None else a[None]
    b = b if bb is not None else b[None]
  return a, b, res_batch


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  if case[0] == 'pair':
    _, sa, rb, bb, dt = case
    sb = lib.with_batch(lib.with_ranks(sa, rb), bb)
    a, da, ca = lib.make(sa, 1, 'i', dt)
    b, db, cb = lib.make(sb, 2, 'i', dt)
    ctx.state(('in', str(sa), dt))
    ctx.state(('in', str(sb), dt))
    xa, xb, rbatch = bcast(da, sa[3], db, bb)
    rs = [sa[0], sa[1], None, rbatch]
    d = lib.ndims(sa)
    sum_r = [1] + [x + y for x, y in zip(sa[2][1:-1], rb[1:-1])] + [1]
    prod_r = [x * y for x, y in zip(sa[2], rb)]
    for what, f, ref, mr in (
        ('add', lambda: t3f.add(a, b), xa + xb, sum_r),
        ('a + b', lambda: a + b, xa + xb, sum_r),
        ('a - b', lambda: a - b, xa - xb, sum_r),
        ('multiply', lambda: t3f.multiply(a, b), xa * xb, prod_r),
        ('a * b', lambda: a * b, xa * xb, prod_r)):
      if what in ('a + b', 'a * b') and d > 2:
        continue
      lib.expect_tt(ctx, f(), ref, rs, '%s(%s, %s)' % (what, sa, sb), dt, max_ranks=mr)
      ctx.step()
    lib.unchanged(ctx, a, ca, 'arithmetic')
    lib.unchanged(ctx, b, cb, 'arithmetic')
  elif case[0] == 'special':
    _, sa, ka, rb, bb, kb, dt = case
    sb = lib.with_batch(lib.with_ranks(sa, rb), bb)
    a, da, ca = lib.make(sa, 4, ka, dt)
    b, db, cb = lib.make(sb, 5, kb, dt)
    ctx.state(str(case))
    xa, xb, rbatch = bcast(da, sa[3], db, bb)
    rs = [sa[0], sa[1], None, rbatch]
    na, nb = lib.core_scale(ca), lib.core_scale(cb)
    what = '(%s %s, %s %s)' % (sa, ka, sb, kb)
    todo = [('a + b', lambda: a + b, xa + xb, na + nb), ('add', lambda: t3f.add(a, b), xa + xb, na + nb),
            ('a * b', lambda: a * b, xa * xb, na * nb), ('multiply', lambda: t3f.multiply(a, b), xa * xb, na * nb)]
    if dt[0] in 'fc':
      todo += [('a - b', lambda: a - b, xa - xb, na + nb)]
    for name, f, ref, sc in todo:
      lib.expect_tt(ctx, f(), ref, rs, name + what, dt, scale=sc)
      ctx.step()
    if dt[0] in 'fc' and kb == 'i':
      rs = [sa[0], sa[1], None, sa[3]]
      for c in (2.5, -1, 0) + (() if dt == 'float16' else (2. ** -30, 2. ** 30)):
        for name, f in (('a * c', lambda: a * c), ('c * a', lambda: c * a), ('multiply', lambda: t3f.multiply(a, c))):
          lib.expect_tt(ctx, f(), da * c, rs, '%s %r%s' % (name, c, what), dt, scale=na * abs(c))
          ctx.step()
      lib.expect_tt(ctx, -a, -da, rs, '-a' + what, dt, scale=na)
      lib.expect_tt(ctx, a - a, 0 * da, rs, 'a - a' + what, dt, scale=na)
      lib.expect_tt(ctx, a + a, 2 * da, rs, 'a + a' + what, dt, scale=na)
      lib.expect_tt(ctx, a * a, da * da, rs, 'a * a' + what, dt, scale=na * na)
      ctx.step(4)
    lib.unchanged(ctx, a, ca, 'arithmetic')
    lib.unchanged(ctx, b, cb, 'arithmetic')
  elif case[0] == 'scalar':
    _, s, dt = case
    a, da, ca = lib.make(s, 3, 'i', dt)
    ctx.state(('in', str(s), dt))
    rs = [s[0], s[1], None, s[3]]
    lib.expect_tt(ctx, -a, -da, rs, '-a(%s)' % s, dt, max_ranks=s[2])
    ctx.step()
    for c in SCALARS:
      lib.expect_tt(ctx, t3f.multiply(a, c), da * c, rs, 'multiply(%s, %r)' % (s, c), dt, max_ranks=s[2])
      ctx.step()
    for c in (-2.5, 3):
      for what, f in (('a * c', lambda: a * c), ('c * a', lambda: c * a),
                      ('a * tf', lambda: a * tf.constant(c, lib.tf_dtype(dt))),
                      ('a * np', lambda: a * np.float32(c))):
        lib.expect_tt(ctx, f(), da * c, rs, '%s(%s, %r)' % (what, s, c), dt, max_ranks=s[2])
        ctx.step()
    lib.unchanged(ctx, a, ca, 'multiply by a number')
  else:
    _, shape, r, v = case
    cores = _all_values(shape, r)
    n = cores[0].shape[0]
    sb = spec_t(shape, [1, r, 1], n)
    b = lib.build(sb, cores)
    db = lib.np_dense(cores, False, True)
    v = np.array(v, dtype=np.float64)
    ca = [v[:shape[0] * r].reshape(1, shape[0], r), v[shape[0] * r:].reshape(r, shape[1], 1)]
    sa = spec_t(shape, [1, r, 1])
    a = lib.build(sa, ca)
    da = lib.np_dense(ca, False, False)
    ctx.state(('val', str(case)))
    rs = ['t', shape, None, n]
    for what, f, ref in (('a + B', lambda: a + b, da + db), ('B + a', lambda: b + a, da + db),
                         ('a - B', lambda: a - b, da - db), ('B - a', lambda: b - a, db - da),
                         ('a * B', lambda: a * b, da * db), ('B * a', lambda: b * a, da * db)):
      lib.expect_tt(ctx, f(), ref, rs, what)
      ctx.step()
