"""C06: inner products, norms and bilinear forms."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C06'
BOUND = ('inner products: tensors d<=3 modes {1,2,3}, matrices d<=2 six mode pairs, ranks {1,2,3} of both operands, d=3 matrices three pairs '
         'ranks {1,2}, batch pairs over {single,1,2,3}; sparse operand: every subset of positions of tiny shapes, all '
         'positions of the small ones; norms in both modes of the same objects, zero objects included; forms with one '
         'and two matrices d<=3, rows != columns, every single/batch choice of the vectors; single axes to d=12, mode '
         '40, rank 33, batch 64; tiny, huge, badly balanced, all-zero and variable operands in every combination, integer types; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: NumPy sums over the dense arrays',
               'bilinear forms: the matrices are single objects and the vectors have one column (as documented)']

BP = [(None, None), (2, 2), (None, 2), (2, None), (1, 3), (3, 1), (1, 1), (None, 1), (1, None), (3, 3), (None, 3), (2, 1)]


def cases(tier):
  deep = tier == 'thorough'
  out = []

  def inner(s, rb, bps, dts=('float64',)):
    for ba, bb in bps:
      for dt in dts:
        out.append(['inner', lib.with_batch(s, ba), list(rb), bb, dt])

  for s in lib.small_tensors((1, 2)):
    for rb in rank_choices(lib.ndims(s), (1, 2, 3)):
      inner(s, rb, BP, ('float64', 'float32'))
  for s in lib.small_matrices((1, 2), rank_values=(1, 2, 3)):
    for rb in rank_choices(lib.ndims(s), (1, 2, 3)):
      inner(s, rb, BP)
  for s in lib.small_tensors((3,)):
    for rb in rank_choices(3, (1, 2, 3)):
      inner(s, rb, BP if deep else BP[:5:2] + BP[3:4])
  for s in lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2), (3, 2)) if deep else ((1, 2), (2, 1), (2, 2))):
    for rb in rank_choices(3, (1, 2)):
      inner(s, rb, BP if deep else BP[:6])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for rb in lib.uniq([s[2][::-1], [1] * len(s[2]), s[2]]):
      inner(s, rb, BP + [(5, 5), (9, None), (None, 7), (1, 4)])
    inner(s, s[2][::-1], BP[:4], ('float32',))
  for s, b in lib.far_batches():
    inner(s, s[2][::-1], [(b, b), (None, b), (b, None), (1, b), (b, 1)])
    out.append(['norm', lib.with_batch(s, b), 'float64'])
  norm_specs = lib.small_tensors((1, 2, 3)) + lib.small_matrices((1, 2), rank_values=(1, 2, 3)) + \
      lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2))) + lib.small_tensors((4,), (1, 2), (1, 2)) + \
      lib.axial_tensors() + lib.axial_matrices()
  for s in norm_specs:
    for b in (None, 1, 2, 3, 6):
      for dt in ('float64', 'float32'):
        out.append(['norm', lib.with_batch(s, b), dt])
  for s in lib.small_tensors((1, 2, 3)) + lib.small_matrices((1, 2), rank_values=(1, 2, 3)) + \
      lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2))) + lib.axial_tensors() + lib.axial_matrices():
    out.append(['sparse', s])
  for s in (spec_t([2], [1, 1]), spec_t([2, 2], [1, 2, 1]), spec_t([3, 2], [1, 2, 1]), spec_t([2, 1, 2], [1, 2, 3, 1]),
            spec_t([2, 2, 2], [1, 2, 2, 1]), spec_m([2], [2], [1, 1]), spec_m([2, 1], [1, 2], [1, 2, 1]),
            spec_m([1, 2], [3, 1], [1, 2, 1]), spec_m([2, 1, 2], [1, 2, 1], [1, 2, 2, 1])):
    n = int(np.prod(lib.dense_shape(s)))
    for mask in range(2 ** n):
      out.append(['subset', s, mask])
  # bilinear forms
  V = [(None, None), (2, 2), (None, 3), (3, None), (1, 1), (None, 1), (1, None), (4, 4)]

  def form(pairs, rA, rb, rc, vs=V, dt='float64'):
    for bb, bc in vs:
      out.append(['form', [list(p) for p in pairs], list(rA), list(rb), list(rc), bb, bc, dt])

  six = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2))
  for d in (1, 2):
    for ps in itertools.product(six, repeat=d):
      for rA, rb, rc in itertools.product(rank_choices(d, (1, 2)), rank_choices(d, (1, 2, 3)), rank_choices(d, (1, 2, 3))):
        form(ps, rA, rb, rc, V if d == 1 or deep else V[:5])
  for ps in itertools.product(((1, 2), (2, 1), (2, 2)), repeat=3):
    for rA in rank_choices(3, (1, 2)):
      form(ps, rA, [1, 2, 3, 1], [1, 3, 2, 1])
  for d in range(3, 7):
    ps = [(2, 3), (1, 2), (3, 1), (2, 2), (1, 2), (2, 1)][:d]
    form(ps, ([1, 2, 3, 2, 1, 2][:d] + [1]), ([1, 3, 1, 2, 2, 3][:d] + [1]), ([1, 2, 2, 1, 3, 1][:d] + [1]))
    form(ps, ([1, 2, 3, 2, 1, 2][:d] + [1]), ([1, 3, 1, 2, 2, 3][:d] + [1]), ([1, 2, 2, 1, 3, 1][:d] + [1]), dt='float32')
  for n in (4, 5, 7, 10):
    form([(n, 2), (2, 3)], [1, 2, 1], [1, 3, 1], [1, 2, 1])
    form([(2, n), (3, 2)], [1, 2, 1], [1, 3, 1], [1, 2, 1])
    form([(2, 3), (3, 2)], [1, n, 1], [1, 3, 1], [1, 2, 1])
    form([(2, 3), (3, 2)], [1, 2, 1], [1, n, 1], [1, 2, 1])
    form([(2, 3), (3, 2)], [1, 2, 1], [1, 3, 1], [1, n, 1])

  def form2(tr, rx, rA, rB, ry, vs=V, dt='float64'):
    for bx, by in vs:
      out.append(['form2', [list(t) for t in tr], list(rx), list(rA), list(rB), list(ry), bx, by, dt])

  for t in itertools.product((1, 2, 3), repeat=3):
    form2([t], [1, 1], [1, 1], [1, 1], [1, 1])
  for tr in itertools.product(((1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 2), (3, 2, 1)), repeat=2):
    for r in itertools.product((1, 2, 3), repeat=4):
      form2(tr, [1, r[0], 1], [1, r[1], 1], [1, r[2], 1], [1, r[3], 1], V[:4] if not deep else V)
  for tr in itertools.product(((1, 2, 2), (2, 1, 2), (2, 2, 1)), repeat=3):
    form2(tr, [1, 2, 3, 1], [1, 3, 2, 1], [1, 2, 2, 1], [1, 1, 3, 1])
  for d in range(3, 7):
    tr = [(2, 3, 2), (1, 2, 3), (3, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 1)][:d]
    for dt in ('float64', 'float32'):
      form2(tr, [1, 2, 3, 2, 1, 2][:d] + [1], [1, 3, 2, 1, 2, 2][:d] + [1], [1, 2, 2, 2, 3, 1][:d] + [1],
            [1, 1, 3, 2, 2, 3][:d] + [1], V + [(5, 5), (7, None), (None, 6)], dt)
    form2([(2, 2, 2)] * d, [1] + [2] * (d - 1) + [1], [1] + [2] * (d - 1) + [1], [1] + [2] * (d - 1) + [1],
          [1] + [2] * (d - 1) + [1], V)
  two = [(2, 3, 2), (3, 2, 2)]
  for n in (4, 5, 6, 8, 10):
    for pos in range(6):
      tr = [list(t) for t in two]
      tr[pos // 3][pos % 3] = n
      form2(tr, [1, 2, 1], [1, 3, 1], [1, 2, 1], [1, 3, 1], V[:5])
    for pos in range(4):
      r = [2, 3, 2, 3]
      r[pos] = n
      form2(two, [1, r[0], 1], [1, r[1], 1], [1, r[2], 1], [1, r[3], 1], V[:5])
      form2([(2, 1, 2), (1, 3, 2), (2, 2, 1)], [1, 2, r[0], 1], [1, r[1], 2, 1], [1, 2, r[2], 1], [1, r[3], 3, 1], V[:5])
  # special values
  for s in lib.special_specs():
    for ba, bb in BP[:6]:
      for ka, kb in itertools.product(lib.VARIANTS, repeat=2):
        for dt in ('float64', 'float32') if ka == kb or 'i' in (ka, kb) else ('float64',):
          out.append(['xinner', lib.with_batch(s, ba), ka, s[2][::-1], bb, kb, dt])
      for dt in ('int32', 'int64'):
        out.append(['xinner', lib.with_batch(s, ba), 'i', s[2][::-1], bb, 'i', dt])
    for b in (None, 1, 3, 4, 5):
      for k in lib.VARIANTS:
        for dt in ('float64', 'float32'):
          out.append(['xnorm', lib.with_batch(s, b), k, dt])
  for d in (1, 2, 3):
    ps = [(2, 3), (1, 2), (3, 1)][:d]
    for ks in itertools.product(lib.VARIANTS, repeat=3):
      for bb, bc in V[:4] + [(5, 5)]:
        out.append(['xform', [list(p) for p in ps], bb, bc, list(ks), 'float64'])
        if ks.count('i') >= 2:
          out.append(['xform', [list(p) for p in ps], bb, bc, list(ks), 'float32'])
  return out + contexts.cases(ID, tier)


def flat(x, batch):
  return x.reshape(1, -1) if batch is None else x.reshape(x.shape[0], -1)


def sparse(tf, idx, vals, shape, dt='float64'):
  return tf.SparseTensor(np.asarray(idx, np.int64).reshape(-1, len(shape)), tf.constant(vals, lib.tf_dtype(dt)), shape)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  if kind == 'inner':
    _, sa, rb, bb, dt = case
    sb = lib.with_batch(lib.with_ranks(sa, rb), bb)
    a, da, ca = lib.make(sa, 31, 'i', dt)
    b, db, cb = lib.make(sb, 32, 'i', dt)
    ctx.state((str(sa), str(sb), dt))
    ref = np.sum(flat(da, sa[3]) * flat(db, bb), axis=1)
    scale = np.sqrt(np.max(np.sum(flat(da, sa[3]) ** 2, 1)) * np.max(np.sum(flat(db, bb) ** 2, 1))) + 1
    if sa[3] is None and bb is None:
      ref = ref[0]
    lib.expect_value(ctx, t3f.flat_inner(a, b), ref, 'flat_inner(%s, %s)' % (sa, sb), dt, scale=scale)
    ctx.step()
    lib.unchanged(ctx, a, ca, 'flat_inner')
    lib.unchanged(ctx, b, cb, 'flat_inner')
  elif kind == 'xinner':
    _, sa, ka, rb, bb, kb, dt = case
    sb = lib.with_batch(lib.with_ranks(sa, rb), bb)
    a, da, ca = lib.make(sa, 42, ka, dt)
    b, db, cb = lib.make(sb, 43, kb, dt)
    ctx.state(str(case))
    ref = np.sum(flat(da, sa[3]) * flat(db, bb), axis=1)
    ref = ref[0] if sa[3] is None and bb is None else ref
    lib.expect_value(ctx, t3f.flat_inner(a, b), ref, 'flat_inner%s' % (case[1:],), dt, scale=lib.core_scale(ca, cb))
    ctx.step()
    if sa[3] is None and bb is None and kb == 'i':
      shape = lib.dense_shape(sa)
      idx = np.array(list(itertools.product(*[range(n) for n in shape])))[::2]
      for c in (1., 2. ** -40, 2. ** 40) if dt[0] == 'f' else (1.,):
        vals = c * lib.ints((len(idx),), 78)
        lib.expect_value(ctx, t3f.flat_inner(a, sparse(tf, idx, vals, shape, dt)), np.sum(da[tuple(idx.T)] * vals),
                         'flat_inner with a sparse tensor%s' % (case[1:],), dt, scale=lib.core_scale(ca) * c * len(idx) * 2)
        ctx.step()
    lib.unchanged(ctx, a, ca, 'flat_inner')
    lib.unchanged(ctx, b, cb, 'flat_inner')
  elif kind == 'xnorm':
    _, s, k, dt = case
    a, da, ca = lib.make(s, 44, k, dt)
    ctx.state(str(case))
    ref = np.sum(flat(da, s[3]) ** 2, axis=1)
    ref = ref[0] if s[3] is None else ref
    # Rounding errors of an orthogonalization are relative to the norms of the cores.
    sc = lib.core_scale(ca, ca) + 1e-300
    for diff in (False, True):
      lib.expect_value(ctx, t3f.frobenius_norm_squared(a, differentiable=diff), ref, 'frobenius_norm_squared%s' % (case[1:],),
                       dt, scale=sc)
      got = lib.npy(t3f.frobenius_norm(a, epsilon=0., differentiable=diff)).astype(np.float64)
      ctx.check(lib.close(got ** 2, ref, dt, scale=sc), lambda: 'frobenius_norm%s: %s' % (
          case[1:], lib.describe(got ** 2, ref)))
      ctx.step(2)
    lib.unchanged(ctx, a, ca, 'norm')
  elif kind == 'xform':
    _, ps, bb, bc, ks, dt = case
    d = len(ps)
    one = [1] * d
    A, dA, cA = lib.make(spec_m([p[0] for p in ps], [p[1] for p in ps], [1, 2, 3][:d] + [1]), 45, ks[0], dt)
    b, db, cb = lib.make(spec_m([p[0] for p in ps], one, [1, 3, 2][:d] + [1], bb), 46, ks[1], dt)
    c, dc, cc = lib.make(spec_m([p[1] for p in ps], one, [1, 2, 2][:d] + [1], bc), 47, ks[2], dt)
    ctx.state(str(case))
    ref = np.sum(db * np.matmul(dA, dc), axis=(-1, -2))
    sc = lib.core_scale(cA, cb, cc)
    lib.expect_value(ctx, t3f.bilinear_form(A, b, c), ref, 'bilinear_form%s' % (case[1:],), dt, scale=sc)
    ref2 = np.sum(db * np.matmul(dA.dot(dA.T), db), axis=(-1, -2))
    At = t3f.transpose(A)
    if dt == 'float64' or ks[0] == 'i' or ks[1] == 'i':
      lib.expect_value(ctx, t3f.ops.bilinear_form_two_mat(b, A, At, b), ref2, 'bilinear_form_two_mat%s' % (case[1:],), dt,
                       scale=lib.core_scale(cA, cA, cb, cb))
    ctx.step(2)
    for x, y in ((A, cA), (b, cb), (c, cc)):
      lib.unchanged(ctx, x, y, 'bilinear_form')
  elif kind == 'norm':
    _, s, dt = case
    for vk in ('i', 'r', 'z'):
      a, da, ca = lib.make(s, 33, vk, dt)
      ctx.state(('norm', str(s), dt, vk))
      ref = np.sum(flat(da, s[3]) ** 2, axis=1)
      sc = float(np.max(ref)) if vk != 'z' else 1.
      if s[3] is None:
        ref = ref[0]
      for diff in (False, True):
        what = '(%s, %s, differentiable=%s)' % (s, vk, diff)
        lib.expect_value(ctx, t3f.frobenius_norm_squared(a, differentiable=diff), ref,
                         'frobenius_norm_squared' + what, dt, scale=max(sc, 1e-3))
        lib.expect_value(ctx, t3f.frobenius_norm(a, differentiable=diff), np.sqrt(ref + 1e-5),
                         'frobenius_norm' + what, dt, scale=np.sqrt(max(sc, 1e-3)), tol=1e-8 if dt == 'float64' else 2e-4)
        lib.expect_value(ctx, t3f.frobenius_norm(a, epsilon=0.25, differentiable=diff), np.sqrt(ref + 0.25),
                         'frobenius_norm eps' + what, dt, scale=np.sqrt(max(sc, 1e-3)))
        ctx.step(3)
        if vk != 'z':
          lib.expect_value(ctx, t3f.frobenius_norm(a, epsilon=0., differentiable=diff)**2, ref,
                           'frobenius_norm eps=0' + what, dt, scale=max(sc, 1e-3))
          ctx.step()
      lib.unchanged(ctx, a, ca, 'norm')
  elif kind in ('sparse', 'subset'):
    s = case[1]
    shape = lib.dense_shape(s)
    a, da, ca = lib.make(s, 34, 'i')
    al = np.array(list(itertools.product(*[range(n) for n in shape])))
    if kind == 'subset':
      al = al[[bool(case[2] >> k & 1) for k in range(len(al))]]
      variants = [(al, 'float64')]
    else:
      variants = [(al, 'float64'), (al[::-1], 'float64'), (al[::3], 'float64'), (al[:1], 'float64'), (al, 'float32'),
                  (np.concatenate([al[1::2], al[::2]]), 'float64')]
    ctx.state(str(case))
    for idx, dt in variants:
      vals = lib.ints((len(idx),), 77)
      x = lib.make(s, 34, 'i', dt)[0]
      ref = float(np.sum(da[tuple(idx.T)] * vals)) if len(idx) else 0.
      lib.expect_value(ctx, t3f.flat_inner(x, sparse(tf, idx, vals, shape, dt)), np.float64(ref),
                       'flat_inner(%s, sparse %d)' % (s, len(idx)), dt, scale=1 + np.max(np.abs(da)) * len(idx))
      ctx.step()
    lib.unchanged(ctx, a, ca, 'flat_inner with a sparse tensor')
  elif kind == 'form':
    _, ps, rA, rb, rc, bb, bc, dt = case
    d = len(ps)
    one = [1] * d
    A, dA, cA = lib.make(spec_m([p[0] for p in ps], [p[1] for p in ps], rA), 35, 'i', dt)
    b, db, cb = lib.make(spec_m([p[0] for p in ps], one, rb, bb), 36, 'i', dt)
    c, dc, cc = lib.make(spec_m([p[1] for p in ps], one, rc, bc), 37, 'i', dt)
    ctx.state(str(case))
    ref = np.sum(db * np.matmul(dA, dc), axis=(-1, -2))
    absref = np.max(np.sum(np.abs(db) * np.matmul(np.abs(dA), np.abs(dc)), axis=(-1, -2))) + 1
    lib.expect_value(ctx, t3f.bilinear_form(A, b, c), ref, 'bilinear_form%s' % (case[1:],), dt, scale=absref)
    lib.expect_value(ctx, t3f.quadratic_form(A, b, c), ref, 'quadratic_form%s' % (case[1:],), dt, scale=absref)
    ctx.step(2)
    for x, y in ((A, cA), (b, cb), (c, cc)):
      lib.unchanged(ctx, x, y, 'bilinear_form')
  else:
    _, tr, rx, rA, rB, ry, bx, by, dt = case
    d = len(tr)
    one = [1] * d
    m = [[t[k] for t in tr] for k in range(3)]
    x, dx, cx = lib.make(spec_m(m[0], one, rx, bx), 38, 'i', dt)
    A, dA, cA = lib.make(spec_m(m[0], m[1], rA), 39, 'i', dt)
    B, dB, cB = lib.make(spec_m(m[1], m[2], rB), 40, 'i', dt)
    y, dy, cy = lib.make(spec_m(m[2], one, ry, by), 41, 'i', dt)
    ctx.state(str(case))
    ref = np.sum(dx * np.matmul(dA.dot(dB), dy), axis=(-1, -2))
    absref = np.max(np.sum(np.abs(dx) * np.matmul(np.abs(dA).dot(np.abs(dB)), np.abs(dy)), axis=(-1, -2))) + 1
    lib.expect_value(ctx, t3f.ops.bilinear_form_two_mat(x, A, B, y), ref, 'bilinear_form_two_mat%s' % (case[1:],), dt, scale=absref)
    ctx.step()
    for p, q in ((x, cx), (A, cA), (B, cB), (y, cy)):
      lib.unchanged(ctx, p, q, 'bilinear_form_two_mat')
