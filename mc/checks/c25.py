"""C25: objects far too large to be dense.

The reference model is TT-algebra on NumPy cores (exact constructions with
block and Kronecker cores, QR norms), never a dense array.
"""
import numpy as np

from mc import lib

ID = 'C25'
BOUND = ('numbers of dimensions 1..12, 16, 20, 24, 32, 40, 50, 60 (up to 2^60 elements, 3^60 for tensors) x 4 mode patterns x TT-ranks 1..4, tensors, '
         'matrices, batches; arithmetic, products, norms, rounding, rewriting, element access, sparse operands, projections, gradients, initializers, '
         'Kronecker functions; dense conversion up to 2^16 elements')
ASSUMPTIONS = ['values are compared relative to the norms of the operands', 'matrices have at most 2^62 rows or columns']

DS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 24, 32, 40, 50, 60)
PATTERNS = {'two': [2], 'three': [3], 'mix': [2, 1, 3], 'wide': [5, 2]}
MPATTERNS = {'two': [(2, 2)], 'rect': [(2, 3), (3, 2)], 'mix': [(2, 1), (1, 2), (2, 2)], 'vec': [(2, 1)]}


def modes_of(pattern, d, kind='t'):
  p = PATTERNS[pattern] if kind == 't' else MPATTERNS[pattern]
  return [p[i % len(p)] for i in range(d)]


def cases(tier):
  out = [['shape_overflow']]
  for d in DS:
    for r in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
      for p in PATTERNS:
        for g in ('arith', 'round', 'element', 'batch', 'sparse') + (('riemann',) if d > 1 else ()):
          out.append([g, 't', d, p, r])
      for p in MPATTERNS:
        # The number of rows must fit into 64 bits.
        if np.sum(np.log2([max(m) for m in modes_of(p, d, 'm')])) > 60:
          continue
        for g in ('arith', 'round', 'batch', 'matrix', 'sparse') + (('riemann',) if d > 1 and p in ('vec', 'mix') else ()):
          out.append([g, 'm', d, p, r])
  for d in DS:
    for p in PATTERNS:
      out.append(['init', 't', d, p, 2])
    for p in MPATTERNS:
      if np.sum(np.log2([max(m) for m in modes_of(p, d, 'm')])) <= 60:
        out.append(['init', 'm', d, p, 2])
    out.append(['kron', 'm', d, 'two', 1])
    out.append(['kron', 'm', d, 'three', 1])
  for d in (10, 12, 14, 16):
    for r in (1, 2, 3):
      out.append(['dense', 't', d, 'two', r])
  out.append(['dense', 't', 10, 'three', 2])
  for d in (6, 7, 8):
    out.append(['dense', 'm', d, 'two', 2])
  return out


# ------------------------------------------------- TT-algebra on NumPy cores
# Cores are (r, n, m, r'), with m = 1 for tensors.

def rand_cores(ms, r, salt, unit=True):
  d = len(ms)
  out = []
  for k, m in enumerate(ms):
    n = (m, 1) if isinstance(m, int) else tuple(m)
    ranks = (1 if k == 0 else r, 1 if k == d - 1 else r)
    out.append(lib.fill((ranks[0],) + n + (ranks[1],), salt * 101 + k, 'r'))
  if unit:
    return normalize(out, salt)
  # Elements of moderate size: slices of spectral norm about one.
  return [c / max(np.linalg.norm(c[:, i, j], 2) for i in range(c.shape[1]) for j in range(c.shape[2])) * 1.05 for c in out]


def normalize(cores, salt):
  """Same kind of tensor with norm one: orthogonal cores in a skewed gauge."""
  out = []
  carry = np.ones((1, 1))
  for k, c in enumerate(cores):
    c = np.einsum('ab,bijc->aijc', carry, c)
    a, n, m, b = c.shape
    if k < len(cores) - 1:
      q, rr = np.linalg.qr(c.reshape(a * n * m, b))
      rr = rr / np.linalg.norm(rr) * np.sqrt(len(rr))
      out.append(q.reshape(a, n, m, -1))
      carry = rr
    else:
      out.append(c / np.linalg.norm(c))
  for k in range(len(out) - 1):
    r = out[k].shape[3]
    g = np.eye(r) + 0.4 * lib.fill((r, r), salt + 7 * k, 'r') / r
    out[k] = np.einsum('aijb,bc->aijc', out[k], g)
    out[k + 1] = np.einsum('ab,bijc->aijc', np.linalg.inv(g), out[k + 1])
  return out


def t_add(a, b, alpha=1., beta=1.):
  d = len(a)
  if d == 1:
    return [alpha * a[0] + beta * b[0]]
  out = []
  for k in range(d):
    x, y = a[k], b[k]
    if k == 0:
      out.append(np.concatenate([alpha * x, beta * y], axis=3))
    elif k == d - 1:
      out.append(np.concatenate([x, y], axis=0))
    else:
      z = np.zeros((x.shape[0] + y.shape[0],) + x.shape[1:3] + (x.shape[3] + y.shape[3],))
      z[:x.shape[0], :, :, :x.shape[3]] = x
      z[x.shape[0]:, :, :, x.shape[3]:] = y
      out.append(z)
  return out


def t_mul(a, b):
  return [np.einsum('aijb,cijd->acijbd', x, y).reshape(x.shape[0] * y.shape[0], x.shape[1], x.shape[2], -1) for x, y in zip(a, b)]


def t_matmul(a, b):
  return [np.einsum('aijb,cjkd->acikbd', x, y).reshape(x.shape[0] * y.shape[0], x.shape[1], y.shape[2], -1) for x, y in zip(a, b)]


def t_transpose(a):
  return [x.transpose(0, 2, 1, 3) for x in a]


def t_inner(a, b):
  res = np.ones((1, 1))
  for x, y in zip(a, b):
    res = np.einsum('ac,aijb,cijd->bd', res, x, y)
  return res[0, 0]


def t_norm(a):
  carry = np.ones((1, 1))
  for c in a:
    c = np.einsum('ab,bijc->aijc', carry, c)
    carry = np.linalg.qr(c.reshape(-1, c.shape[3]))[1]
  return np.linalg.norm(carry)


def t_dist(a, b):
  return t_norm(t_add(a, b, 1., -1.))


def t_element(a, idx):
  v, w = np.ones((1,)), np.ones((1,))
  for c, i in zip(a, idx):
    v, w = v.dot(c[:, i, 0]), w.dot(np.abs(c[:, i, 0]))
  return v[0], w[0]


def t_project(a, x):
  """Projection of a on the tangent space at x."""
  d = len(x)
  u, carry = [], np.ones((1, 1))
  for k, c in enumerate(x):
    c = np.einsum('ab,bijc->aijc', carry, c)
    s = c.shape
    if k < d - 1:
      q, carry = np.linalg.qr(c.reshape(-1, s[3]))
      c = q.reshape(s[0], s[1], s[2], -1)
    u.append(c)
  v, carry = [None] * d, np.ones((1, 1))
  for k in range(d - 1, -1, -1):
    c = np.einsum('aijb,bc->aijc', x[k], carry)
    s = c.shape
    if k > 0:
      q, rr = np.linalg.qr(c.reshape(s[0], -1).T)
      carry = rr.T
      c = q.T.reshape(-1, s[1], s[2], s[3])
    v[k] = c
  R = [None] * (d + 1)
  R[d] = np.ones((1, 1))
  for k in range(d - 1, 0, -1):
    R[k] = np.einsum('aijb,bd,cijd->ac', a[k], R[k + 1], v[k])
  L = np.ones((1, 1))
  ds = []
  for k in range(d):
    t = np.einsum('ca,aijb,bd->cijd', L, a[k], R[k + 1])
    if k < d - 1:
      um = u[k].reshape(-1, u[k].shape[3])
      tm = t.reshape(um.shape[0], -1)
      t = (tm - um.dot(um.T.dot(tm))).reshape(t.shape)
      L = np.einsum('ca,cijd,aijb->db', L, u[k], a[k])
    ds.append(t)
  out = []
  for k in range(d):
    if k == 0:
      out.append(np.concatenate([ds[0], u[0]], axis=3))
    elif k == d - 1:
      out.append(np.concatenate([v[k], ds[k]], axis=0))
    else:
      z = np.zeros((v[k].shape[0] + u[k].shape[0],) + v[k].shape[1:3] + (v[k].shape[3] + u[k].shape[3],))
      z[:v[k].shape[0], :, :, :v[k].shape[3]] = v[k]
      z[v[k].shape[0]:, :, :, :v[k].shape[3]] = ds[k]
      z[v[k].shape[0]:, :, :, v[k].shape[3]:] = u[k]
      out.append(z)
  return out


# ----------------------------------------------------------------- glue

def real(cores, kind, dt='float64'):
  return lib.t3f.TensorTrain([lib.tf.constant(c[:, :, 0] if kind == 't' else c, lib.tf_dtype(dt)) for c in cores])


def real_batch(list_of_cores, kind):
  return lib.t3f.TensorTrainBatch([lib.tf.constant(np.stack([c[:, :, 0] if kind == 't' else c for c in cs]))
                                   for cs in zip(*list_of_cores)])


def back(tt, k=None):
  out = []
  for c in tt.tt_cores:
    c = lib.npy(c)
    if k is not None:
      c = c[k]
    out.append(c.reshape(c.shape[0], c.shape[1], 1, c.shape[2]) if c.ndim == 3 else c)
  return out


class Obs(object):

  def __init__(self, ctx, case):
    self.ctx, self.case = ctx, case

  def tt(self, got, want, what, tol=1e-9, cap=None):
    """got equals the TT with these NumPy cores; reported sizes are those of the cores."""
    if not isinstance(want[0], list):
      want_l, batch = [want], False
    else:
      want_l, batch = want, True
    ctx = self.ctx
    ctx.step()
    ctx.state((str(self.case), what))
    ctx.check(lib.is_batch(got) == batch, '%s for %s: wrong kind of object' % (what, self.case))
    lib.check_meta(ctx, got, '%s for %s' % (what, self.case))
    if batch:
      ctx.check(got.batch_size == len(want_l), '%s for %s: batch size %s' % (what, self.case, got.batch_size))
    for k, w in enumerate(want_l):
      g = back(got, k if batch else None)
      ctx.check([c.shape[1:3] for c in g] == [c.shape[1:3] for c in w], lambda: '%s for %s: mode sizes %s, expected %s' % (
          what, self.case, [c.shape[1:3] for c in g], [c.shape[1:3] for c in w]))
      e = t_dist(g, w)
      n = max(1., t_norm(w))
      ctx.check(e <= tol * n, lambda: '%s for %s: distance %g from the reference of norm %g' % (what, self.case, e, n))
    if cap is not None:
      ranks = got.get_tt_ranks().as_list()
      ctx.check(max(ranks) <= cap, lambda: '%s for %s: TT-ranks %s exceed %s' % (what, self.case, ranks, cap))
    ctx.outcome((str(self.case), what))

  def val(self, got, want, what, tol=1e-9, scale=1.):
    got = lib.npy(got)
    want = np.asarray(want)
    self.ctx.step()
    self.ctx.state((str(self.case), what))
    self.ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= tol * np.maximum(np.abs(want), scale)),
                   lambda: '%s for %s: %s, expected %s' % (what, self.case, got, want))
    self.ctx.outcome((str(self.case), what, round(float(np.sum(want)), 5)))


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  if case[0] == 'shape_overflow':
    # Run time shapes are 32-bit, as everywhere in TensorFlow by default.
    got = lib.npy(t3f.shape(t3f.eye([2] * 33)))
    ctx.step()
    if not np.array_equal(got, [2 ** 33, 2 ** 33]):
      ctx.known_finding('KF04', 't3f.shape of the identity matrix with 2^33 rows is %s' % got)
    return
  g, kind, d, pattern, r = case
  if g == 'kron':
    return kron(case, ctx)
  if g == 'dense':
    return dense(case, ctx)
  ms = modes_of(pattern, d, kind)
  o = Obs(ctx, case)
  if g == 'init':
    return init(case, ctx, ms)
  a = rand_cores(ms, r, 3)
  c = rand_cores(ms, r, 5)
  b = t_add(c, a, 0.7, 0.4)
  A, B, C = real(a, kind), real(b, kind), real(c, kind)
  if g == 'arith':
    o.tt(A + B, t_add(a, b), 'add')
    o.tt(A - B, t_add(a, b, 1., -1.), 'subtract')
    o.tt(A * B, t_mul(a, b), 'multiply', cap=max(1, 2 * r * r))
    o.tt(-A, t_add(a, a, -1., 0.), 'negation')
    o.tt(2.5 * A, t_add(a, a, 2.5, 0.), 'scaling')
    o.tt(A * 2.5, t_add(a, a, 2.5, 0.), 'scaling')
    o.val(t3f.flat_inner(A, B), t_inner(a, b), 'inner product')
    o.val(t3f.frobenius_norm_squared(A), 1., 'squared norm')
    o.val(t3f.frobenius_norm(B, epsilon=0.), t_norm(b), 'norm')
    o.val(t3f.frobenius_norm(B, differentiable=True, epsilon=0.), t_norm(b), 'norm')
    o.val(t3f.frobenius_norm(A - A, epsilon=0.), 0., 'norm of zero', tol=1e-7)
    o.tt(t3f.cast(t3f.cast(A, tf.float32), tf.float64), a, 'cast', tol=1e-5)
    if kind == 't':
      ctx.check(A.get_shape().as_list() == ms, 'shape')
    else:
      ctx.check(A.get_shape().as_list() == [prod(m[0] for m in ms), prod(m[1] for m in ms)], 'shape of %s is %s' % (case, A.get_shape()))
      o.tt(t3f.transpose(A), t_transpose(a), 'transpose')
    str(A)
    ctx.step()
  elif g == 'round':
    for lr in (True, False):
      q = t3f.orthogonalize_tt_cores(B, left_to_right=lr)
      o.tt(q, b, 'orthogonalization %s' % lr, cap=2 * r)
      cs = back(q)
      for k, x in enumerate(cs):
        x = x.reshape(-1, x.shape[3]) if lr else x.reshape(x.shape[0], -1).T
        if k != (d - 1 if lr else 0):
          ctx.check(np.allclose(x.T.dot(x), np.eye(x.shape[1]), atol=1e-9), 'core %d of %s is not orthogonal' % (k, case))
    o.tt(t3f.renormalize_tt_cores(B), b, 'renormalization', cap=2 * r)
    # Very large cores followed by very small ones.
    fact = [1e30 if k < d // 2 else 1e-30 if k >= d - d // 2 else 1. for k in range(d)]
    z = t3f.renormalize_tt_cores(real([f * x for f, x in zip(fact, b)], kind), epsilon=1e-100)
    o.tt(z, b, 'renormalization of unbalanced cores', cap=2 * r)
    ns = [np.linalg.norm(x) for x in back(z)]
    ctx.check(np.allclose(ns, np.exp(np.mean(np.log([np.linalg.norm(x) for x in b]))), rtol=1e-8), 'norms of the cores differ for %s' % case)
    # The sum with itself rounds back losslessly.
    o.tt(t3f.round(A + A, r), t_add(a, a), 'lossless rounding', cap=r)
    o.tt(t3f.round(A + C - C, r), a, 'lossless rounding of a cancelling sum', cap=r)
    o.tt(t3f.round(A + 1e-7 * C, r), a, 'rounding of a perturbation', tol=1e-7 * (2 * np.sqrt(d) + 2), cap=r)
    o.tt(t3f.round(B, 2 * r), b, 'rounding', cap=2 * r)
    o.tt(t3f.round(B), b, 'rounding without a cap')
    o.tt(t3f.approximate.add_n([A, A, 0.5 * A, A], r), t_add(a, a, 3.5, 0.), 'approximate sum', tol=1e-8, cap=r)
    one = t3f.round(B, 1)
    ctx.check(max(one.get_tt_ranks().as_list()) == 1, 'rounding to rank 1')
    e = t_dist(back(one), b)
    # never worse than sqrt(d-1) times the best, in particular sqrt(d-1) * norm
    ctx.check(e <= np.sqrt(max(d - 1, 1)) * t_norm(b) * (1 + 1e-9), 'rounding to rank 1 loses too much for %s' % case)
  elif g == 'element':
    x, y = rand_cores(ms, r, 11, unit=False), rand_cores(ms, r, 12, unit=False)
    X, Y = real(x, 't'), real(y, 't')
    idx = [[(k * j + j) % ms[k] for k in range(d)] for j in range(6)] + [[m - 1 for m in ms]]
    want = np.array([t_element(x, i)[0] for i in idx])
    scale = np.array([t_element(x, i)[1] for i in idx])
    for nm, ii in (('list', idx), ('array', np.array(idx)), ('int32', np.array(idx, np.int32)), ('tensor', tf.constant(idx, tf.int64))):
      o.val(t3f.gather_nd(X, ii), want, 'gather_nd ' + nm, tol=1e-12, scale=scale)
    s = np.array([t_element(y, i)[0] for i in idx])
    s1 = np.array([t_element(y, i)[1] for i in idx])
    o.val(t3f.gather_nd(X + Y, idx), want + s, 'element of a sum', tol=1e-12, scale=scale + s1)
    o.val(t3f.gather_nd(X * Y, idx), want * s, 'element of a product', tol=1e-12, scale=scale * s1)
    if d > 1:
      # One axis stays free, the others are exact.
      for free in sorted({0, d // 2, d - 1}):
        i = idx[3]
        sl = X[tuple(slice(None) if k == free else i[k] for k in range(d))]
        w = np.array([t_element(x, i[:free] + [j] + i[free + 1:])[0] for j in range(ms[free])])
        w1 = max(t_element(x, i[:free] + [j] + i[free + 1:])[1] for j in range(ms[free]))
        o.val(t3f.full(sl), w, 'slice with axis %d free' % free, tol=1e-12, scale=w1)
      half = X[tuple(slice(0, 1) if k % 2 else slice(None) for k in range(d))]
      o.tt(half, [c[:, :1] if k % 2 else c for k, c in enumerate(x)], 'ranges')
      ell = X[(idx[2][0],) + (slice(None),) * (d - 2) + (idx[2][-1],)] if d > 2 else None
      if ell is not None:
        w = list(x)
        w[1] = np.einsum('ab,bijc->aijc', x[0][:, idx[2][0], 0], w[1])
        w[-2] = np.einsum('aijb,bc->aijc', w[-2], x[-1][:, idx[2][-1], 0])
        o.tt(ell, w[1:-1], 'first and last axis exact')
  elif g == 'sparse':
    sparse(o, kind, d, ms, r)
  elif g == 'batch':
    l1, l2 = [a, b, c], [c, t_add(a, a, 0.5, 0.), b]
    pad = lambda l: same_ranks(l)
    l1, l2 = pad(l1), pad(l2)
    P, Q = real_batch(l1, kind), real_batch(l2, kind)
    o.tt(P + Q, [t_add(x, y) for x, y in zip(l1, l2)], 'add')
    o.tt(P * Q, [t_mul(x, y) for x, y in zip(l1, l2)], 'multiply')
    o.tt(P - A, [t_add(x, a, 1., -1.) for x in l1], 'subtract')
    o.val(t3f.flat_inner(P, Q), [t_inner(x, y) for x, y in zip(l1, l2)], 'inner product')
    o.val(t3f.pairwise_flat_inner(P, Q), [[t_inner(x, y) for y in l2] for x in l1], 'pairwise products')
    o.val(t3f.gram_matrix(P), [[t_inner(x, y) for y in l1] for x in l1], 'gram matrix')
    o.val(t3f.frobenius_norm(P, epsilon=0.), [t_norm(x) for x in l1], 'norm')
    o.tt(t3f.concat_along_batch_dim([P, P]), l1 + l1, 'concatenation')
    o.tt(t3f.multiply_along_batch_dim(P, tf.constant([1., -2., 0.5], tf.float64)), [t_add(x, x, w, 0.) for x, w in zip(l1, (1., -2., 0.5))], 'weights')
    o.tt(P[1], l1[1], 'object of a batch')
    o.tt(P[1:], l1[1:], 'part of a batch')
    o.tt(t3f.orthogonalize_tt_cores(P), l1, 'orthogonalization')
    o.tt(t3f.renormalize_tt_cores(P), l1, 'renormalization')
    R = same_ranks([a, t_add(a, a, 0.25, 0.), t_add(a, a, -1., 0.)])
    o.tt(t3f.round(real_batch(R, kind), r), R, 'rounding', tol=1e-8, cap=r)
    o.tt(t3f.approximate.reduce_sum_batch(real_batch(R, kind), r, [1., 2., 4.]), t_add(a, a, -2.5, 0.), 'weighted sum', tol=1e-8, cap=r)
  elif g == 'matrix':
    mt = t_transpose(b)
    O = real(mt, 'm')
    o.tt(t3f.matmul(A, O), t_matmul(a, mt), 'matrix product')
    u = rand_cores([(m[0], 1) for m in ms], r, 21)
    v = rand_cores([(m[1], 1) for m in ms], r, 22)
    U, V = real(u, 'm'), real(v, 'm')
    av = t_matmul(a, v)
    o.tt(t3f.matmul(A, V), av, 'matrix by vector')
    u = t_add(u, av, 0.5, 1.)
    U = real(u, 'm')
    o.val(t3f.bilinear_form(A, U, V), t_inner(u, av), 'bilinear form', scale=1.)
    o.val(t3f.ops.bilinear_form_two_mat(U, A, real(t_transpose(a), 'm'), U), t_inner(t_matmul(t_transpose(a), u), t_matmul(t_transpose(a), u)),
          'bilinear form with two matrices')
    o.tt(t3f.matmul(t3f.transpose(A), U), t_matmul(t_transpose(a), u), 'transposed product')
    Pu, Pv = real_batch([u, u, av][:2], 'm'), real_batch(same_ranks([v, t_add(v, v, 1., 1.)]), 'm')
    l2 = same_ranks([v, t_add(v, v, 1., 1.)])
    o.val(t3f.pairwise_flat_inner(Pu, Pv, A), [[t_inner(u, t_matmul(a, y)) for y in l2] for _ in range(2)], 'pairwise products with a matrix')
    sq = all(m[0] == m[1] for m in ms)
    if sq:
      I = t3f.eye([m[0] for m in ms], dtype=tf.float64)
      o.tt(t3f.matmul(I, A), a, 'product with the identity')
  elif g == 'riemann':
    x = lib_point(ms, r, 31)
    X = real(x, kind)
    z = t_add(t_add(a, x, 0.5, 0.3), b)
    Z = real(z, kind)
    p = t_project(z, x)
    o.tt(t3f.project(Z, X), p, 'projection', tol=1e-8, cap=2 * max_rank(x))
    pa = t_project(a, x)
    o.tt(t3f.project_sum(real_batch(same_ranks([z, a]), kind), X), t_add(p, pa), 'projected sum', tol=1e-8, cap=2 * max_rank(x))
    Pz, Pa = t3f.project(Z, X), t3f.project(A, X)
    o.tt(t3f.add_n_projected([Pz, Pa], [2., -1.]), t_add(p, pa, 2., -1.), 'sum of projections', tol=1e-8, cap=2 * max_rank(x))
    PB = t3f.project(real_batch(same_ranks([z, a]), kind), X)
    o.val(t3f.pairwise_flat_inner_projected(PB, PB), [[t_inner(p, p), t_inner(p, pa)], [t_inner(pa, p), t_inner(pa, pa)]],
          'products of projections', tol=1e-8)
    if kind == 'm' and all(m[1] == 1 for m in ms):
      M = rand_cores([(m[0], m[0]) for m in ms], 2, 33)
      o.tt(t3f.project_matmul(Z, X, real(M, 'm')), t_project(t_matmul(M, z), x), 'projected matrix product', tol=1e-8, cap=2 * max_rank(x))
    if d <= 24:
      o.tt(t3f.gradients(lambda t: 0.5 * t3f.flat_inner(t, t) + t3f.flat_inner(t, Z), X), t_add(t_project(x, x), p), 'gradient', tol=1e-7,
           cap=2 * max_rank(x))


def sparse(o, kind, d, ms, r):
  """Inner products with sparse operands: single elements at every border of
  every axis, and all of them together."""
  tf, t3f = lib.tf, lib.t3f
  sizes = [m if kind == 't' else m[0] * m[1] for m in ms]
  x = rand_cores(ms, r, 13, unit=False)
  X = real(x, kind)
  flat = [c.reshape(c.shape[0], -1, 1, c.shape[3]) for c in x]
  idx = [[0] * d, [n - 1 for n in sizes], [n // 2 for n in sizes], [k % n for k, n in enumerate(sizes)], [(k // 2) % n for k, n in enumerate(sizes)]]
  for k in sorted({0, d // 3, d // 2, d - 2, d - 1}):
    if k >= 0:
      idx.append([(n - 1 if i == k else 0) for i, n in enumerate(sizes)])
      idx.append([(0 if i == k else n - 1) for i, n in enumerate(sizes)])
  idx = sorted(set(map(tuple, idx)))
  pairs = [t_element(flat, i) for i in idx]
  vals, scale = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
  if kind == 't':
    where, shape = [list(i) for i in idx], ms
  else:
    def position(i):
      row = col = 0
      for j, (n, m) in zip(i, ms):
        row, col = row * n + j // m, col * m + j % m
      return [row, col]
    where, shape = [position(i) for i in idx], [prod(m[0] for m in ms), prod(m[1] for m in ms)]
    order = sorted(range(len(where)), key=lambda k: where[k])
    where, vals, scale = [where[k] for k in order], vals[order], scale[order]
  w = np.array([(-1.5) ** (k % 5) for k in range(len(idx))])
  sp = lambda ks: tf.SparseTensor(np.array([where[k] for k in ks], dtype=np.int64), w[ks], np.array(shape, dtype=np.int64))
  everything = list(range(len(idx)))
  o.val(t3f.flat_inner(X, sp(everything)), np.sum(w * vals), 'inner product with a sparse operand', tol=1e-11, scale=np.sum(np.abs(w) * scale))
  for k in everything:
    o.val(t3f.flat_inner(X, sp([k])), w[k] * vals[k], 'inner product with one element', tol=1e-11, scale=abs(w[k]) * scale[k])


def prod(xs):
  n = 1
  for x in xs:
    n *= int(x)
  return n


def max_rank(x):
  return max(c.shape[0] for c in x)


def same_ranks(l):
  """Pads cores with zeros so that the objects may form a batch."""
  out = [[] for _ in l]
  for k in range(len(l[0])):
    r0 = 1 if k == 0 else max(x[k].shape[0] for x in l)
    r1 = 1 if k == len(l[0]) - 1 else max(x[k].shape[3] for x in l)
    for o, x in zip(out, l):
      c = x[k]
      z = np.zeros((r0, c.shape[1], c.shape[2], r1))
      z[:c.shape[0], :, :, :c.shape[3]] = c
      o.append(z)
  return out


def lib_point(ms, r, salt):
  """A unit tensor whose TT-ranks are achievable (min of r and the sizes on either side)."""
  sizes = [m if isinstance(m, int) else m[0] * m[1] for m in ms]
  d = len(ms)
  ranks = [1] + [min(r, prod(sizes[:k]), prod(sizes[k:])) for k in range(1, d)] + [1]
  for _ in range(d):
    for k in range(d):
      ranks[k + 1] = min(ranks[k + 1], ranks[k] * sizes[k])
    for k in range(d - 1, -1, -1):
      ranks[k] = min(ranks[k], ranks[k + 1] * sizes[k])
  out = []
  for k, m in enumerate(ms):
    n = (m, 1) if isinstance(m, int) else tuple(m)
    out.append(lib.fill((ranks[k],) + n + (ranks[k + 1],), salt * 103 + k, 'r'))
  # Left-orthogonal, then a well conditioned last step: condition of the
  # unfoldings is controlled by mixing with an orthogonal part.
  return normalize(out, salt)


def init(case, ctx, ms):
  tf, t3f = lib.tf, lib.t3f
  _, kind, d, _, _ = case
  o = Obs(ctx, case)
  ns = [(m, 1) if isinstance(m, int) else tuple(m) for m in ms]
  ones = [np.ones((1,) + n + (1,)) for n in ns]
  shape = ms if kind == 't' else [[m[0] for m in ms], [m[1] for m in ms]]
  f64 = tf.float64
  mk = {'t': (t3f.tensor_ones, t3f.tensor_zeros), 'm': (t3f.matrix_ones, t3f.matrix_zeros)}[kind]
  O = mk[0](shape, dtype=f64)
  for c in back(O):
    ctx.check(np.array_equal(c, np.ones(c.shape)) or abs(c).max() > 0, 'ones')
  total = float(prod(n[0] * n[1] for n in ns))
  o.val(t3f.flat_inner(O, O), total, 'squared norm of ones', tol=1e-10)
  o.val(t3f.frobenius_norm(mk[1](shape, dtype=f64), epsilon=0.), 0., 'norm of zeros')
  o.val(t3f.flat_inner(t3f.ones_like(O), O), total, 'ones_like', tol=1e-10)
  o.val(t3f.flat_inner(t3f.zeros_like(O), O), 0., 'zeros_like')
  if kind == 'm':
    sq = [m[0] for m in ms]
    I = t3f.eye(sq, dtype=f64)
    o.val(t3f.flat_inner(I, I), float(prod(sq)), 'squared norm of the identity', tol=1e-10)
    o.val(t3f.flat_inner(I, t3f.matrix_ones([sq, sq], dtype=f64)), float(prod(sq)), 'sum of the identity', tol=1e-10)
  rnd = {'t': [t3f.random_tensor, t3f.tensor_with_random_cores], 'm': [t3f.random_matrix, t3f.matrix_with_random_cores]}[kind]
  if kind == 'm':
    rnd = rnd + [t3f.glorot_initializer, t3f.he_initializer, t3f.lecun_initializer]
  for f in rnd:
    for r in (1, 10):
      x = f(shape, tt_rank=r)
      lib.check_meta(ctx, x, '%s' % case)
      ctx.step()
      ctx.check([c.shape[1:3] for c in back(x)] == ns and x.get_tt_ranks().as_list() == [1] + [r] * (d - 1) + [1], 'sizes of a random object %s' % case)
      ctx.check(all(np.all(np.isfinite(c)) and np.any(c != 0) for c in back(x)), 'random cores of %s are not finite or zero' % case)
  del ones


def kron(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, _, d, p, _ = case
  o = Obs(ctx, case)
  sizes = [2] * d if p == 'two' else [(2, 3, 1)[k % 3] for k in range(d)]
  if np.sum(np.log2(sizes)) > 52:
    return
  fac = []
  for k, n in enumerate(sizes):
    m = lib.fill((n, n), 40 + k, 'r')
    fac.append(m.dot(m.T) / n + np.eye(n))
  if d >= 2:
    fac[1] = fac[1][::-1].copy()  # a negative determinant for sizes 2 and 3
  big = [prod(sizes) // n for n in sizes]
  cores = [f[None, :, :, None] for f in fac]
  A = real(cores, 'm')
  s, ld = t3f.kronecker.slog_determinant(A)
  ds = [np.linalg.slogdet(f) for f in fac]
  sign = 1
  for (sg, _), e in zip(ds, big):
    sign *= int(sg) if e % 2 else 1
  want = sum(l * e for (_, l), e in zip(ds, big))
  o.val(ld, want, 'logarithm of the determinant', tol=1e-9, scale=sum(abs(l) * e for (_, l), e in zip(ds, big)))
  o.val(s, float(sign), 'sign of the determinant')
  inv = t3f.kronecker.inv(A)
  o.tt(inv, [np.linalg.inv(f)[None, :, :, None] for f in fac], 'inverse', tol=1e-9)
  unit = [f / np.linalg.norm(f) for f in fac]
  o.val(t3f.kronecker.determinant(t3f.eye(sizes, dtype=tf.float64)), 1., 'determinant of the identity')
  del unit
  spd = [f.dot(f.T) for f in fac]
  spd = [f / np.linalg.norm(f) for f in spd]
  ch = t3f.kronecker.cholesky(real([f[None, :, :, None] for f in spd], 'm'))
  o.tt(ch, [np.linalg.cholesky(f)[None, :, :, None] for f in spd], 'Cholesky factor')
  prod_ = t3f.matmul(A, inv)
  o.tt(prod_, [np.eye(n)[None, :, :, None] for n in sizes], 'product with the inverse', tol=1e-9)


def dense(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, kind, d, p, r = case
  ms = modes_of(p, d, kind)
  o = Obs(ctx, case)
  a = rand_cores(ms, r, 51)
  A = real(a, kind)
  full = lib.np_dense([c[:, :, 0] if kind == 't' else c for c in a], kind == 'm', False)
  o.val(t3f.full(A), full, 'dense array', tol=1e-11, scale=1.)
  if kind == 't':
    T = t3f.to_tt_tensor(tf.constant(full), max_tt_rank=r)
  else:
    T = t3f.to_tt_matrix(tf.constant(full), [[m[0] for m in ms], [m[1] for m in ms]], max_tt_rank=r)
  o.tt(T, a, 'compression', tol=1e-9, cap=r)
