"""C07: operations along the batch axis."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C07'
BOUND = ('tensors d<=3 modes {1,2,3}, matrices d<=2 six mode pairs, ranks {1,2,3} (both operands), batch sizes {1,2,3} on both '
         'sides; with a matrix in between: d<=3, rows != columns; concatenation of 1..4 batches of sizes {1,2,3}; '
         'tiny, huge, badly balanced, all-zero and variable operands in every combination, integer types; '
         'weights {-1,0,1,2}^B for B<=3 and fixed lists beyond; single axes to d=12, mode 40, rank 33, batch 64; '
         'float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: NumPy on the dense batch arrays',
               'with a matrix in between the batches hold column vectors (as documented)']


def cases(tier):
  deep = tier == 'thorough'
  out = []

  def pair(s, rb, bs, dts=('float64',)):
    for p, q in bs:
      for dt in dts:
        out.append(['pair', lib.with_batch(s, p), list(rb), q, dt])
  B2 = list(itertools.product((1, 2, 3), repeat=2))
  for s in lib.small_tensors((1, 2)) + lib.small_matrices((1, 2), rank_values=(1, 2, 3)):
    for rb in rank_choices(lib.ndims(s), (1, 2, 3)):
      pair(s, rb, B2)
      pair(s, rb, [(2, 3)], ('float32',))
  for s in lib.small_tensors((3,)) + lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2))):
    for rb in rank_choices(3, (1, 2, 3) if deep else (1, 2)):
      pair(s, rb, B2 if deep else [(1, 1), (1, 3), (2, 1), (3, 2), (2, 2)])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for rb in lib.uniq([s[2][::-1], [1] * len(s[2])]):
      pair(s, rb, B2 + [(4, 9), (9, 4), (7, 1)])
    pair(s, s[2][::-1], [(5, 4)], ('float32',))
  for s, b in lib.far_batches():
    pair(s, s[2][::-1], [(b, 2), (3, b), (b, b), (1, b)])
    out.append(['concat', s, [b, 2], 'float64'])
    out.append(['concat', s, [1, b, b], 'float64'])
    out.append(['weights', lib.with_batch(s, b), 'float64'])
  for s in (spec_t([2, 3], [1, 2, 1]), spec_m([2, 1], [1, 3], [1, 2, 1])):
    for n in range(5, 12):
      out.append(['concat', s, [1 + (k * k) % 3 for k in range(n)], 'float64'])

  def mat(ps, rA, rb, rc, bs=B2, dt='float64'):
    for p, q in bs:
      out.append(['mat', [list(x) for x in ps], list(rA), list(rb), list(rc), p, q, dt])
  six = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2))
  for d in (1, 2):
    for ps in itertools.product(six, repeat=d):
      for rA, rb, rc in itertools.product(rank_choices(d, (1, 2)), rank_choices(d, (1, 2, 3)), rank_choices(d, (1, 2, 3))):
        mat(ps, rA, rb, rc, B2 if d == 1 or deep else [(1, 1), (1, 2), (3, 2)])
  for ps in itertools.product(((1, 2), (2, 1), (2, 2), (3, 2)), repeat=3):
    for rA in rank_choices(3, (1, 2)):
      mat(ps, rA, [1, 2, 3, 1], [1, 3, 2, 1], [(1, 1), (2, 3), (3, 1)])
  for d in range(3, 7):
    ps = [(2, 3), (1, 2), (3, 1), (2, 2), (1, 2), (2, 1)][:d]
    for dt in ('float64', 'float32'):
      mat(ps, ([1, 2, 3, 2, 1, 2][:d] + [1]), ([1, 3, 1, 2, 2, 3][:d] + [1]), ([1, 2, 2, 1, 3, 1][:d] + [1]), B2 + [(5, 7)], dt)
  for n in (4, 5, 7, 10):
    mat([(n, 2), (2, 3)], [1, 2, 1], [1, 3, 1], [1, 2, 1])
    mat([(2, n), (3, 2)], [1, 2, 1], [1, 3, 1], [1, 2, 1])
    mat([(2, 3), (3, 2)], [1, n, 1], [1, 3, 1], [1, 2, 1])
    mat([(2, 3), (3, 2)], [1, 2, 1], [1, n, 1], [1, n, 1])
  # square matrices: gram_matrix with a matrix
  for d in range(1, 7):
    for ns in ([2] * d, [2, 3, 1, 2, 1, 2][:d], [1, 2, 3, 1, 2, 2][:d], [3, 2, 2, 1, 1, 2][:d]):
      for dt in ('float64', 'float32'):
        mat([(n, n) for n in ns], [1, 2, 3, 2, 1, 2][:d] + [1], [1, 3, 2, 3, 2, 3][:d] + [1], [1, 2, 2, 1, 3, 1][:d] + [1],
            B2 + [(4, 5), (5, 4)], dt)
  for n in (3, 4, 5, 6, 8, 10):
    mat([(n, n), (2, 2)], [1, 2, 1], [1, 3, 1], [1, 2, 1])
    mat([(2, 2), (1, 1), (n, n)], [1, 2, 3, 1], [1, 3, 2, 1], [1, 2, 2, 1])
    mat([(2, 2), (3, 3)], [1, n, 1], [1, 3, 1], [1, 2, 1])
    mat([(2, 2), (3, 3)], [1, 2, 1], [1, n, 1], [1, 2, 1])
  # special values
  for s in lib.special_specs():
    for p, q in ((1, 1), (2, 3), (4, 5), (1, 4)):
      for ka, kb in itertools.product(lib.VARIANTS, repeat=2):
        for dt in ('float64', 'float32') if ka == kb or 'i' in (ka, kb) else ('float64',):
          out.append(['special', lib.with_batch(s, p), ka, q, kb, dt])
      for dt in ('int32', 'int64'):
        out.append(['special', lib.with_batch(s, p), 'i', q, 'i', dt])
  for ks in itertools.product(lib.VARIANTS, repeat=3):
    for p, q in ((1, 2), (2, 3), (5, 4)):
      out.append(['xmat', list(ks), p, q])
  some = lib.small_tensors((1, 2, 3), (1, 2, 3), (1, 2)) + lib.small_matrices((1, 2)) + lib.axial_tensors() + lib.axial_matrices()
  for s in some:
    small = lib.ndims(s) <= 2 and max(s[2]) <= 3
    for n in (1, 2, 3, 4):
      for sizes in itertools.product((1, 2, 3), repeat=n):
        if n >= 3 and not (small and n == 3 or deep or sizes in ((3, 1, 2), (2, 2, 2), (1, 3, 2, 1), (2, 1, 1, 3))):
          continue
        out.append(['concat', s, list(sizes), 'float64'])
    out.append(['concat', s, [2, 3], 'float32'])
    for sizes in ([4], [5], [4, 5], [5, 1, 4], [9, 2]):
      out.append(['concat', s, sizes, 'float64'])
    for b in (1, 2, 3, 4, 5, 9):
      out.append(['weights', lib.with_batch(s, b), 'float64'])
    out.append(['weights', lib.with_batch(s, 3), 'float32'])
  for s in lib.small_tensors((1, 2, 3), (2, 3), (2,)) + lib.small_matrices((2,), ((2, 3), (2, 2)), (2,)):
    out.append(['badconcat', s])
  return out + contexts.cases(ID, tier)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  ctx.state(str(case))
  if kind == 'pair':
    _, sa, rb, q, dt = case
    sb = lib.with_batch(lib.with_ranks(sa, rb), q)
    a, da, ca = lib.make(sa, 51, 'i', dt)
    b, db, cb = lib.make(sb, 52, 'i', dt)
    fa, fb = da.reshape(sa[3], -1), db.reshape(q, -1)
    sc = 1 + np.max(np.abs(fa).dot(np.abs(fb).T))
    lib.expect_value(ctx, t3f.pairwise_flat_inner(a, b), fa.dot(fb.T), 'pairwise_flat_inner(%s, %s)' % (sa, sb), dt, scale=sc)
    lib.expect_value(ctx, t3f.gram_matrix(a), fa.dot(fa.T), 'gram_matrix(%s)' % sa, dt, scale=1 + np.max(fa.dot(fa.T)))
    ctx.step(2)
    lib.unchanged(ctx, a, ca, 'pairwise_flat_inner')
    lib.unchanged(ctx, b, cb, 'pairwise_flat_inner')
  elif kind == 'special':
    _, sa, ka, q, kb, dt = case
    sb = lib.with_batch(sa, q)
    a, da, ca = lib.make(sa, 66, ka, dt)
    b, db, cb = lib.make(sb, 67, kb, dt)
    fa, fb = da.reshape(sa[3], -1), db.reshape(q, -1)
    what = '%s' % (case[1:],)
    na, nb = lib.core_scale(ca), lib.core_scale(cb)
    lib.expect_value(ctx, t3f.pairwise_flat_inner(a, b), fa.dot(fb.T), 'pairwise_flat_inner' + what, dt, scale=na * nb)
    lib.expect_value(ctx, t3f.gram_matrix(a), fa.dot(fa.T), 'gram_matrix' + what, dt, scale=na * na)
    lib.expect_tt(ctx, t3f.concat_along_batch_dim([a, b]), np.concatenate([da, db]), lib.with_batch(sa, sa[3] + q),
                  'concat_along_batch_dim' + what, dt, scale=max(na, nb))
    ctx.step(3)
    for c in (1., 2. ** -40, 2. ** 40) if dt[0] == 'f' and kb == 'i' else (1.,):
      w = c * lib.ints((sa[3],), 4)
      ref = da * w.reshape((sa[3],) + (1,) * (da.ndim - 1))
      lib.expect_tt(ctx, t3f.multiply_along_batch_dim(a, tf.constant(w, lib.tf_dtype(dt))), ref, sa,
                    'multiply_along_batch_dim' + what, dt, scale=na * c * 2)
      ctx.step()
    lib.unchanged(ctx, a, ca, 'operation along the batch axis')
    lib.unchanged(ctx, b, cb, 'operation along the batch axis')
  elif kind == 'xmat':
    _, ks, p, q = case
    A, dA, cA = lib.make(spec_m([2, 3], [3, 1], [1, 2, 1]), 68, ks[0])
    b, db, cb = lib.make(spec_m([2, 3], [1, 1], [1, 3, 1], p), 69, ks[1])
    c, dc, cc = lib.make(spec_m([3, 1], [1, 1], [1, 2, 1], q), 70, ks[2])
    fb, fc = db[:, :, 0], dc[:, :, 0]
    lib.expect_value(ctx, t3f.pairwise_flat_inner(b, c, A), fb.dot(dA).dot(fc.T), 'pairwise_flat_inner with matrix%s' % (case[1:],),
                     scale=lib.core_scale(cA, cb, cc))
    G = t3f.matmul(A, t3f.transpose(A))
    lib.expect_value(ctx, t3f.gram_matrix(b, G), fb.dot(dA).dot(dA.T).dot(fb.T), 'gram_matrix with matrix%s' % (case[1:],),
                     scale=lib.core_scale(cA, cA, cb, cb))
    ctx.step(2)
  elif kind == 'mat':
    _, ps, rA, rb, rc, p, q, dt = case
    d = len(ps)
    one = [1] * d
    A, dA, cA = lib.make(spec_m([x[0] for x in ps], [x[1] for x in ps], rA), 53, 'i', dt)
    b, db, cb = lib.make(spec_m([x[0] for x in ps], one, rb, p), 54, 'i', dt)
    c, dc, cc = lib.make(spec_m([x[1] for x in ps], one, rc, q), 55, 'i', dt)
    fb, fc = db[:, :, 0], dc[:, :, 0]
    sc = 1 + np.max(np.abs(fb).dot(np.abs(dA)).dot(np.abs(fc).T))
    lib.expect_value(ctx, t3f.pairwise_flat_inner(b, c, A), fb.dot(dA).dot(fc.T), 'pairwise_flat_inner with matrix%s' % (case[1:],),
                     dt, scale=sc)
    ctx.step()
    if all(x[0] == x[1] for x in ps):
      lib.expect_value(ctx, t3f.gram_matrix(b, A), fb.dot(dA).dot(fb.T), 'gram_matrix with matrix%s' % (case[1:],), dt,
                       scale=1 + np.max(np.abs(fb).dot(np.abs(dA)).dot(np.abs(fb).T)))
      ctx.step()
    for x, y in ((A, cA), (b, cb), (c, cc)):
      lib.unchanged(ctx, x, y, 'pairwise_flat_inner')
  elif kind == 'concat':
    _, s, sizes, dt = case
    obj = [lib.make(lib.with_batch(s, n), 60 + i, 'i', dt) for i, n in enumerate(sizes)]
    ref = np.concatenate([o[1] for o in obj])
    for arg in ([o[0] for o in obj], tuple(o[0] for o in obj)):
      lib.expect_tt(ctx, t3f.concat_along_batch_dim(arg), ref, lib.with_batch(s, sum(sizes)),
                    'concat_along_batch_dim(%s, %s)' % (s, sizes), dt, max_ranks=s[2])
      ctx.step()
    if len(sizes) == 1:
      lib.expect_tt(ctx, t3f.concat_along_batch_dim(obj[0][0]), ref, lib.with_batch(s, sizes[0]),
                    'concat_along_batch_dim(%s)' % s, dt, max_ranks=s[2])
      ctx.step()
    for o in obj:
      lib.unchanged(ctx, o[0], o[2], 'concat_along_batch_dim')
  elif kind == 'weights':
    _, s, dt = case
    a, da, ca = lib.make(s, 56, 'i', dt)
    B = s[3]
    ws = [list(w) for w in itertools.product((-1., 0., 1., 2.), repeat=B)] if B <= 2 else \
        [lib.ints((B,), k).tolist() for k in range(6)] + [[0.] * B, [-0.5] * B, [0.1 * (i + 1) for i in range(B)]]
    for k, w in enumerate(ws):
      W = np.array(w)
      ref = da * W.reshape((B,) + (1,) * (da.ndim - 1))
      forms = [w, W, tf.constant(W, lib.tf_dtype(dt))] if k < 3 else [w]
      for f in forms:
        lib.expect_tt(ctx, t3f.multiply_along_batch_dim(a, f), ref, s, 'multiply_along_batch_dim(%s, %s)' % (s, w), dt,
                      max_ranks=s[2])
        ctx.step()
    lib.unchanged(ctx, a, ca, 'multiply_along_batch_dim')
  else:
    s = case[1]
    a = lib.make(lib.with_batch(s, 2), 57)[0]
    d = lib.ndims(s)
    bad = [lib.make(s, 58)[0]]
    if d > 1:
      for k in range(1, d):
        r = list(s[2])
        r[k] += 1
        bad.append(lib.make(lib.with_batch(lib.with_ranks(s, r), 2), 58)[0])
    for row in range(2 if s[0] == 'm' else 1):
      for k in range(d):
        if s[0] == 't':
          sh = list(s[1])
          sh[k] += 1
        else:
          sh = [list(x) for x in s[1]]
          sh[row][k] += 1
        bad.append(lib.make([s[0], sh, s[2], 2], 58)[0])
    for x in bad:
      for lst in ([a, x], [x, a], [a, a, x]):
        lib.expect_raises(ctx, lambda: t3f.concat_along_batch_dim(lst), 'concat of incompatible objects %s' % (s,), ValueError)
        ctx.step()
