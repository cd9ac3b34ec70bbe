"""C13: arithmetic of tangent vectors."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices
from mc.checks import c12

ID = 'C13'
BOUND = ('points as for C12 (tensors d=2,3 modes {1,2,3}, d=4 modes {1,2}, matrices d=2,3, every achievable rank vector over {1,2,3}); '
         'tangent vectors: the projections of ALL elementary tensors, of generic objects in batches single,1,2,3, of sums and '
         'matrix products, and linear combinations of those (depth 3); 1..4 summands, coefficients absent, {-1,0,2}^n and n x B '
         'tables; all elementary per-core deltas; single axes to d=10, mode 40, rank 6, batch 64; tiny, huge, badly balanced, all-zero and variable points and vectors in '
         'every combination; points and objects that are results of 20 other operations; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: dense NumPy arithmetic on the dense tangent vectors',
               'points have exactly the TT-ranks they are stored with']
TOL = c12.TOL


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for s in c12.points(deep):
    for dt in ('float64', 'float32'):
      out.append(['gram', s, dt])
    for p, q in itertools.product((None, 1, 2, 3), repeat=2):
      out.append(['inner', s, p, q])
    for b in (None, 1, 2, 3):
      for n in (1, 2, 3, 4):
        out.append(['add', s, b, n, 'float64'])
    out.append(['add', s, 2, 3, 'float32'])
    for b in (None, 1, 3):
      out.append(['deltas', s, b])
    out.append(['chain', s])
  for s in c12.axial():
    out.append(['gram', s, 'float64'])
    for p, q in ((None, 2), (4, 1), (3, 5)):
      out.append(['inner', s, p, q])
    for b in (None, 2, 5):
      out.append(['add', s, b, 3, 'float64'])
      out.append(['deltas', s, b])
    out.append(['chain', s])
  for s, b in lib.far_batches():
    s = lib.clip_ranks(s)
    if lib.ndims(s) > 1:
      out += [['inner', s, b, 2], ['inner', s, 1, b], ['add', s, b, 2, 'float64'], ['deltas', s, b]]
      if b <= 17:
        out.append(['add', s, 2, b, 'float64'])
  for s in lib.special_points():
    for kp, kv, kw in itertools.product(lib.VARIANTS[:-1], lib.VARIANTS, lib.VARIANTS):
      for p, q in ((None, None), (3, 3)):
        out.append(['special', s, kp, kv, p, kw, q])
  for s in lib.small_tensors((2, 3), (2, 3), (1, 2)) + lib.small_matrices((2,), ((2, 2), (2, 3)), (1, 2)):
    if lib.is_clipped(s):
      out.append(['bad', s])
  for s in lib.origin_specs():
    for b in (None, 3):
      for i in range(c12.NPOINTS):
        out.append(['origin', s, b, i])
  return out + contexts.cases(ID, tier)


def tangent(s, where, U, b, salt, dt='float64', rank=2):
  """(tangent vector, dense rows)"""
  d = lib.ndims(s)
  sw = lib.with_batch(lib.with_ranks(s, [1] + [rank] * (d - 1) + [1]), b)
  what, dw, _ = lib.make(sw, salt, 'r', dt)
  return lib.t3f.project(what, where), dw.reshape(b or 1, -1).dot(U).dot(U.T)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  ctx.state(str(case))
  kind, s = case[0], case[1]
  d = lib.ndims(s)
  N = int(np.prod(lib.dense_shape(s)))
  caps = [1] + [2 * r for r in s[2][1:-1]] + [1]

  def same_space(res, where, what):
    ctx.check(getattr(res, 'projection_on', None) is where, '%s: the result does not say whose tangent space it is in' % what)
    ctx.step()

  if kind == 'gram':
    dt = case[2]
    where, dense, cores, U = lib.point(s, dt)
    P = U.dot(U.T)
    T = t3f.project(lib.build(lib.with_batch(s, N), lib.elementary(s), dt), where)
    lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(T, T), P, 'pairwise_flat_inner_projected(all elementary, %s)' % s, dt,
                     tol=TOL[dt], scale=1.)
    S = t3f.add_n_projected([T, T])
    lib.expect_tt(ctx, S, 2 * P.reshape((N,) + lib.dense_shape(s)), lib.with_batch(s, N), 'add_n_projected(all elementary twice)',
                  dt, tol=TOL[dt], max_ranks=caps, scale=1.)
    same_space(S, where, 'add_n_projected')
    x = t3f.project(where, where)
    sc = 1 + np.linalg.norm(dense)
    lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(T, x), dense.reshape(N, 1), 'pairwise_flat_inner_projected(., x)', dt,
                     tol=TOL[dt], scale=sc)
    lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(x, x), [[np.sum(dense ** 2)]], 'pairwise_flat_inner_projected(x, x)', dt,
                     tol=TOL[dt], scale=sc ** 2)
    ctx.step(3)
    lib.unchanged(ctx, where, cores, 'tangent-space arithmetic')
  elif kind == 'inner':
    _, s, p, q = case
    where, dense, cores, U = lib.point(s)
    v, dv = tangent(s, where, U, p, 131)
    w, dw = tangent(s, where, U, q, 132, rank=3)
    sc = 1 + np.max(np.linalg.norm(dv, axis=1)) * np.max(np.linalg.norm(dw, axis=1))
    lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(v, w), dv.dot(dw.T), 'pairwise_flat_inner_projected(%s x %s on %s)' % (p, q, s),
                     tol=1e-8, scale=sc)
    ctx.step()
  elif kind == 'add':
    _, s, b, n, dt = case
    where, dense, cores, U = lib.point(s, dt, 1)
    tv = [tangent(s, where, U, b, 133 + k, dt, rank=1 + k % 3) for k in range(n)]
    objs = [t for t, _ in tv]
    snap = [[lib.npy(c).copy() for c in t.tt_cores] for t in objs]
    D = np.stack([x for _, x in tv])  # n x B x N
    B = b or 1
    sb = lib.with_batch(s, b)
    sc = 1 + 10 * float(np.sum(np.linalg.norm(D, axis=2)))
    coefs = [None] + ([list(c) for c in itertools.product((-1., 0., 2.), repeat=n)] if n <= 2 else
                      [lib.ints((n,), k).tolist() for k in range(3)] + [np.eye(n)[k].tolist() for k in range(n)])
    if b is not None:
      coefs += [lib.ints((n, b), 9 + k).tolist() for k in range(3)]
    for k, c in enumerate(coefs):
      ca = np.ones((n, 1)) if c is None else np.array(c).reshape(n, -1)
      ref = np.einsum('nb,nbx->bx', np.broadcast_to(ca, (n, B)), D)
      args = [{}] if c is None else [{'coef': c}] + ([{'coef': np.array(c)}, {'coef': tf.constant(c, lib.tf_dtype(dt))}] if k < 4 else [])
      for kw in args:
        res = t3f.add_n_projected(objs, **kw)
        lib.expect_tt(ctx, res, ref.reshape(lib.dense_shape(sb)), sb, 'add_n_projected(%d of %s on %s, %s)' % (n, b, s, c), dt,
                      tol=TOL[dt], max_ranks=caps, scale=sc)
        same_space(res, where, 'add_n_projected')
    for t, sn in zip(objs, snap):
      for c, o in zip(t.tt_cores, sn):
        ctx.check(np.array_equal(lib.npy(c), o), 'add_n_projected changed its operand')
  elif kind == 'deltas':
    _, s, b = case
    where, dense, cores, U = lib.point(s)
    sb = lib.with_batch(s, b)
    v, dv = tangent(s, where, U, b, 135)
    w, dw = tangent(s, where, U, b, 136)
    de, df = t3f.tangent_space_to_deltas(v), t3f.tangent_space_to_deltas(w)
    ctx.check(len(de) == d, 'tangent_space_to_deltas: %d deltas for %d cores' % (len(de), d))
    want = lib.core_shapes(sb)
    for k in range(d):
      ctx.check(tuple(de[k].shape) == tuple(want[k]), lambda: 'delta %d has shape %s, expected %s' % (k, de[k].shape, want[k]))
    flat = lambda xs: np.concatenate([lib.npy(x).reshape(b or 1, -1) for x in xs], 1)
    sc = 1 + np.max(np.linalg.norm(dv, axis=1)) * np.max(np.linalg.norm(dw, axis=1))
    ctx.check(lib.close(np.sum(flat(de) * flat(df), 1), np.sum(dv * dw, 1), tol=1e-8, scale=sc),
              'deltas of %s: inner products differ from those of the tangent vectors' % (s,))
    back = lib.t3f_riemannian().deltas_to_tangent_space(de, where)
    lib.expect_tt(ctx, back, dv.reshape(lib.dense_shape(sb)), sb, 'deltas_to_tangent_space(tangent_space_to_deltas(%s))' % sb,
                  tol=1e-8, max_ranks=caps, scale=1 + np.max(np.linalg.norm(dv, axis=1)))
    same_space(back, where, 'deltas_to_tangent_space')
    for x, y in zip(t3f.tangent_space_to_deltas(back), de):
      ctx.check(lib.close(lib.npy(x), lib.npy(y), tol=1e-8, scale=1 + np.max(np.abs(lib.npy(y)))), 'deltas are not restored')
    ctx.step(4)
    # arbitrary deltas with explicitly given left and right parts: one formula
    left, _, lc = lib.make(s, 137, 'r')
    right, _, rc = lib.make(s, 138, 'r')
    dl = lib.np_cores(sb, 139, 'r')
    ref = 0.
    for k in range(d):
      def pick(i):
        return lc[i] if i < k else rc[i]
      if b is None:
        ref = ref + lib.np_dense([dl[i] if i == k else pick(i) for i in range(d)], s[0] == 'm', False)
      else:
        ref = ref + np.stack([lib.np_dense([dl[i][j] if i == k else pick(i) for i in range(d)], s[0] == 'm', False) for j in range(b)])
    res = lib.t3f_riemannian().deltas_to_tangent_space([tf.constant(x) for x in dl], where, left, right)
    lib.expect_tt(ctx, res, ref, sb, 'deltas_to_tangent_space(deltas, %s, left, right)' % s, max_ranks=caps, scale=10 + np.max(np.abs(ref)))
    same_space(res, where, 'deltas_to_tangent_space')
  elif kind == 'special':
    _, s, kp, kv, p, kw, q = case
    where, dense, cores, U = lib.special_point(s, kp)
    pair = []
    for k, b, salt, r in ((kv, p, 146, 2), (kw, q, 147, 3)):
      sw = lib.with_batch(lib.with_ranks(s, [1] + [r] * (d - 1) + [1]), b)
      what, dw, cw = lib.make(sw, salt, k.replace('i', 'r'))
      pair.append((t3f.project(what, where), dw.reshape(b or 1, -1).dot(U).dot(U.T), lib.core_scale(cw)))
    (v, dv, nv), (w, dw, nw) = pair
    name = '%s' % (case[1:],)
    lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(v, w), dv.dot(dw.T), 'pairwise_flat_inner_projected' + name, tol=1e-8,
                     scale=nv * nw)
    sb = lib.with_batch(s, p)
    for a, b in ((1., 1.), (2. ** -40, 1.), (-1., 2. ** 40)):
      kw_ = {} if a == b else {'coef': [a, b]}
      res = t3f.add_n_projected([v, w], **kw_)
      lib.expect_tt(ctx, res, (a * dv + b * dw).reshape(lib.dense_shape(sb)), sb, 'add_n_projected' + name, tol=1e-8, max_ranks=caps,
                    scale=abs(a) * nv + abs(b) * nw)
      same_space(res, where, 'add_n_projected')
    flat = lambda xs: np.concatenate([lib.npy(x).reshape(p or 1, -1) for x in xs], 1)
    de, df = t3f.tangent_space_to_deltas(v), t3f.tangent_space_to_deltas(w)
    ctx.check(lib.close(np.sum(flat(de) * flat(df), 1), np.sum(dv * dw, 1), tol=1e-8, scale=nv * nw), 'deltas%s: inner products' % name)
    back = lib.t3f_riemannian().deltas_to_tangent_space(de, where)
    lib.expect_tt(ctx, back, dv.reshape(lib.dense_shape(sb)), sb, 'deltas_to_tangent_space(tangent_space_to_deltas%s)' % name,
                  tol=1e-8, max_ranks=caps, scale=nv)
    same_space(back, where, 'deltas_to_tangent_space')
    ctx.step(3)
  elif kind == 'origin':
    # Tangent spaces of points, and vectors from objects, that are results of other operations.
    b = case[2]
    for wn, where, U in lib.origin_points(s)[case[3]:case[3] + 1]:
      caps = [1] + [2 * r for r in where.get_tt_ranks().as_list()[1:-1]] + [1]
      sb = lib.with_batch(s, b)
      vecs = []
      for n, x in lib.origins(s, b):
        dx = lib.dense_of(x).reshape(b or 1, N).dot(U).dot(U.T)
        vecs.append((n, t3f.project(x, where), dx, 1 + float(np.max(np.linalg.norm(dx, axis=1)))))
        if b is None:
          vecs.append((n + ' in a sum', t3f.project_sum(x, where), dx, vecs[-1][3]))
      for k, (n, v, dv, nv) in enumerate(vecs):
        for n2, w, dw, nw in (vecs[k], vecs[0], vecs[1], vecs[k - 1]):
          name = '(%s, %s of %s on %s)' % (n, n2, sb, wn)
          lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(v, w), dv.dot(dw.T), 'pairwise_flat_inner_projected' + name,
                           tol=1e-8, scale=nv * nw)
          res = t3f.add_n_projected([v, w, v], coef=[2., -1., .5])
          lib.expect_tt(ctx, res, (2.5 * dv - dw).reshape(lib.dense_shape(sb)), sb, 'add_n_projected' + name, tol=1e-8,
                        max_ranks=caps, scale=3 * nv + nw)
          same_space(res, where, 'add_n_projected')
          ctx.step()
        de = t3f.tangent_space_to_deltas(v)
        ctx.check(lib.close(sum(np.sum(lib.npy(x).reshape(b or 1, -1) ** 2, 1) for x in de), np.sum(dv ** 2, 1), tol=1e-8,
                            scale=nv * nv), 'deltas%s: inner products' % name)
        back = lib.t3f_riemannian().deltas_to_tangent_space(de, where)
        lib.expect_tt(ctx, back, dv.reshape(lib.dense_shape(sb)), sb, 'deltas_to_tangent_space' + name, tol=1e-8, max_ranks=caps, scale=nv)
        same_space(back, where, 'deltas_to_tangent_space')
        ctx.step()
  elif kind == 'chain':
    where, dense, cores, U = lib.point(s, salt=1)
    v, dv = tangent(s, where, U, None, 141)
    w, dw = tangent(s, where, U, None, 142, rank=1)
    x, dx = t3f.project(where, where), dense.reshape(1, -1)
    ps, d1, _ = lib.make(lib.with_batch(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), 2), 143, 'r')
    y, dy = t3f.project_sum(ps, where, [1., -2.]), (np.array([[1., -2.]]).dot(d1.reshape(2, -1))).dot(U).dot(U.T)
    pool = [(v, dv), (w, dw), (x, dx), (y, dy)]
    if s[0] == 'm':
      A, dA, _ = lib.make(spec_m(s[1][0], s[1][0], [1] + [2] * (d - 1) + [1]), 144, 'r')
      wh, dwh, _ = lib.make(s, 145, 'r')
      pool.append((t3f.project_matmul(wh, where, A), dA.dot(dwh).reshape(1, -1).dot(U).dot(U.T)))
    sc = 50 + 50 * sum(np.linalg.norm(q) for _, q in pool) ** 2
    # every pair: combination, then combination with a third, then products
    for (i, (a, da)), (j, (b, db)) in itertools.product(enumerate(pool), repeat=2):
      r1 = t3f.add_n_projected([a, b], coef=[2., -1.])
      e1 = 2 * da - db
      r2 = t3f.add_n_projected([r1, pool[(i + j) % len(pool)][0], r1], coef=[1., 3., -.5])
      e2 = .5 * e1 + 3 * pool[(i + j) % len(pool)][1]
      lib.expect_tt(ctx, r2, e2.reshape(lib.dense_shape(s)), s, 'nested add_n_projected on %s' % s, tol=1e-8, max_ranks=caps, scale=sc)
      same_space(r2, where, 'add_n_projected')
      for z, dz in ((r1, e1), (r2, e2), (b, db)):
        lib.expect_value(ctx, t3f.pairwise_flat_inner_projected(r2, z), e2.dot(dz.T), 'pairwise_flat_inner_projected(nested)', tol=1e-8, scale=sc)
      back = lib.t3f_riemannian().deltas_to_tangent_space(t3f.tangent_space_to_deltas(r2), where)
      lib.expect_tt(ctx, back, e2.reshape(lib.dense_shape(s)), s, 'deltas of nested', tol=1e-8, max_ranks=caps, scale=sc)
      # the general operations agree
      lib.expect_value(ctx, t3f.flat_inner(r2, b), np.sum(e2 * db), 'flat_inner of tangent vectors', tol=1e-8, scale=sc)
      ctx.state((str(s), i, j))
      ctx.step(8)
  else:
    where, dense, cores, U = lib.point(s)
    v, _ = tangent(s, where, U, None, 151)
    vb, _ = tangent(s, where, U, 2, 151)
    plain = lib.make(s, 152, 'r')[0]
    plainb = lib.make(lib.with_batch(s, 2), 152, 'r')[0]
    other, _, _, U2 = lib.point(s, salt=2)
    foreign = []
    for o, u in ((other, U2),):
      foreign.append((tangent(s, o, u, None, 151)[0], tangent(s, o, u, 2, 151)[0]))
    for x, xb in foreign + [(plain, plainb)]:
      for a, b in ((v, x), (x, v), (vb, xb), (xb, vb)):
        lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner_projected(a, b), 'inner product across tangent spaces', ValueError)
        lib.expect_raises(ctx, lambda: t3f.add_n_projected([a, b]), 'sum across tangent spaces', ValueError)
        lib.expect_raises(ctx, lambda: t3f.add_n_projected([a, a, b], coef=[1., 2., 3.]), 'sum across tangent spaces', ValueError)
        lib.expect_raises(ctx, lambda: t3f.add_n_projected([a, b, a]), 'sum across tangent spaces', ValueError)
        ctx.step(4)
    for x in (plain, plainb):
      lib.expect_raises(ctx, lambda: t3f.add_n_projected([x, x]), 'sum of objects that are not projections', ValueError)
      lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner_projected(x, x), 'inner product of non-projections', ValueError)
      lib.expect_raises(ctx, lambda: t3f.tangent_space_to_deltas(x), 'deltas of an object that is not a projection', ValueError)
      ctx.step(3)
