"""C26: automatic differentiation through the operations.

A weighted sum of the entries of a result is a polynomial of degree at most
two in every single entry of every core (or a known function of such
polynomials), so central differences of the dense model with a large step are
exact; they are compared with TensorFlow's gradients entry by entry.
"""
import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m, with_batch

ID = 'C26'
BOUND = ('every differentiable operation x tensors d=1..6 modes 1..3 (and 5), matrices d=1..5, TT-ranks 1..2 (and 3, 4 on single structures), single objects and batches '
         '1, 2 and mixed; derivative with respect to every entry of every core of every argument, to scalars, weights, dense operands; eager and compiled')
ASSUMPTIONS = ['operations documented as based on decompositions are not differentiated, except projection with respect to the projected object']

T = [spec_t([3], [1, 1]), spec_t([1], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([3, 1], [1, 1, 1]), spec_t([2, 2, 2], [1, 2, 2, 1]), spec_t([1, 3, 2], [1, 1, 2, 1]),
     spec_t([2, 3], [1, 3, 1]), spec_t([2, 1, 2, 2], [1, 2, 2, 2, 1]), spec_t([2, 1, 2, 1, 2], [1, 2, 1, 2, 2, 1]), spec_t([1, 2, 1, 2, 1, 2], [1, 1, 2, 2, 2, 2, 1]),
     spec_t([5, 2], [1, 2, 1]), spec_t([2, 5], [1, 4, 1])]
M = [spec_m([2], [3], [1, 1]), spec_m([2, 2], [2, 1], [1, 2, 1]), spec_m([2, 1], [1, 3], [1, 1, 1]), spec_m([1, 2, 2], [2, 1, 2], [1, 2, 2, 1]), spec_m([2, 2], [2, 3], [1, 3, 1]),
     spec_m([2, 1, 2, 1], [1, 2, 1, 2], [1, 2, 2, 2, 1]), spec_m([2, 1, 1, 2, 1], [1, 2, 1, 1, 2], [1, 2, 1, 2, 2, 1])]
SQ = [spec_m([2], [2], [1, 1]), spec_m([2, 2], [2, 2], [1, 2, 1]), spec_m([1, 3], [1, 3], [1, 2, 1]), spec_m([2, 1, 2], [2, 1, 2], [1, 2, 1, 1]),
      spec_m([1, 2, 1, 2], [1, 2, 1, 2], [1, 1, 2, 2, 1])]


def transposed(s):
  return ['m', [s[1][1], s[1][0]], s[2], s[3]]


def vec(s, side, r=2):
  d = lib.ndims(s)
  return spec_m(s[1][side], [1] * d, [1] + [r] * (d - 1) + [1])


def cases(tier):
  out = []
  for s in T + M:
    for b in (None, 1, 2):
      for op in ('full', 'neg', 'scale', 'cast', 'norm2', 'norm', 'self inner', 'self product', 'gather', 'slice', 'transpose', 'l2', 'cores', 'object', 'weights', 'gram',
                 'expand', 'renorm free sum', 'matmul dense', 'dense matmul', 'project', 'project_sum'):
        out.append(['one', op, with_batch(s, b)])
    for bs in ((None, None), (None, 2), (2, None), (2, 2), (1, 2), (2, 1)):
      for op in ('add', 'subtract', 'multiply', 'inner', 'matmul', 'pairwise', 'concat'):
        out.append(['two', op, s, bs])
  for s in SQ + M:
    for bs in ((None, None), (2, None), (None, 2), (2, 2)):
      out.append(['form', s, bs])
    out.append(['form2', s])
    out.append(['pairwise matrix', s])
  for sizes in ([2], [2, 2], [1, 3], [3, 2], [2, 1, 2], [2, 1, 2, 1], [1, 2, 1, 1, 2]):
    for b in (None, 2):
      out.append(['kron', sizes, b])
  for i, o in (([2], [3]), ([2, 2], [2, 1]), ([2, 3], [3, 2]), ([1, 2, 2], [2, 2, 1]), ([2, 1, 2, 1], [1, 2, 1, 2])):
    for act in (None, 'tanh'):
      for bias in (True, False):
        out.append(['layer', i, o, act, bias])
  return out


def numeric(f, arrays):
  """Exact derivative of f (degree <= 2 in each entry) at these arrays."""
  out = []
  for k, a in enumerate(arrays):
    g = np.zeros(a.shape)
    for i in np.ndindex(*a.shape):
      vals = []
      for h in (0.5, -0.5):
        x = [b.copy() if j == k else b for j, b in enumerate(arrays)]
        x[k][i] += h
        vals.append(f(x))
      g[i] = vals[0] - vals[1]
    out.append(g)
  return out


def weights_for(shape, salt=3):
  return lib.fill(tuple(shape) if shape else (1,), 60 + salt, 'r').reshape(shape)


def compare(ctx, case, real, model, arrays, modes=('eager', 'compiled'), tol=1e-9, chain=None):
  """real(list of tensors) -> tensor; model(list of arrays) -> array.  chain maps
  the model value to the factor by which its derivative is multiplied."""
  tf = lib.tf
  val = np.asarray(model(arrays))
  G = weights_for(val.shape)
  if chain is None:
    want = numeric(lambda x: float(np.sum(G * model(x))), arrays)
  else:
    G2 = G * chain(val)
    want = numeric(lambda x: float(np.sum(G2 * model(x))), arrays)

  def grads(ts):
    with tf.GradientTape() as tape:
      for t in ts:
        tape.watch(t)
      y = tf.reduce_sum(tf.constant(G) * real(ts))
    return tape.gradient(y, ts, unconnected_gradients=tf.UnconnectedGradients.ZERO)
  for mode in modes:
    ts = [tf.constant(a) for a in arrays]
    got = grads(ts) if mode == 'eager' else tf.function(grads)(ts)
    ctx.step()
    for k, (g, w) in enumerate(zip(got, want)):
      g = lib.npy(tf.convert_to_tensor(g))
      scale = max([1.] + [np.abs(x).max() for x in want])
      ctx.check(g.shape == w.shape and np.all(np.abs(g - w) <= tol * scale * 100), lambda: '%s (%s): derivative with respect to array %d: %s' % (
          case, mode, k, lib.describe(g, w)))
      ctx.outcome((str(case), k, round(float(np.sum(w)), 6)))
  ctx.state(str(case))


def tt_of(spec, ts):
  return (lib.t3f.TensorTrain if spec[3] is None else lib.t3f.TensorTrainBatch)(list(ts))


def dn(spec, arrays):
  return lib.np_dense(list(arrays), spec[0] == 'm', spec[3] is not None)


def tr(x):
  return np.swapaxes(x, -1, -2)


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  g = case[0]
  if g == 'one':
    return one(case, ctx)
  if g == 'two':
    return two(case, ctx)
  if g == 'form':
    _, s, (bb, bc) = case
    sb, sc = with_batch(vec(s, 0), bb), with_batch(vec(s, 1), bc)
    arrays = lib.np_cores(s, 1, 'r') + lib.np_cores(sb, 2, 'r') + lib.np_cores(sc, 3, 'r')
    d = lib.ndims(s)

    def model(x):
      A, b, c = dn(s, x[:d]), dn(sb, x[d:2 * d]), dn(sc, x[2 * d:])
      r = np.einsum('...ik,ij,...jk->...k', b, A, c)[..., 0]
      return r
    return compare(ctx, case, lambda x: t3f.bilinear_form(tt_of(s, x[:d]), tt_of(sb, x[d:2 * d]), tt_of(sc, x[2 * d:])), model, arrays)
  if g == 'form2':
    s = case[1]
    s2 = transposed(s)
    sx, sy = vec(s, 0), vec(s, 0, 1)
    d = lib.ndims(s)
    arrays = lib.np_cores(sx, 1, 'r') + lib.np_cores(s, 2, 'r') + lib.np_cores(s2, 3, 'r') + lib.np_cores(sy, 4, 'r')
    return compare(ctx, case, lambda x: t3f.ops.bilinear_form_two_mat(tt_of(sx, x[:d]), tt_of(s, x[d:2 * d]), tt_of(s2, x[2 * d:3 * d]), tt_of(sy, x[3 * d:])),
                   lambda x: (dn(sx, x[:d]).T @ dn(s, x[d:2 * d]) @ dn(s2, x[2 * d:3 * d]) @ dn(sy, x[3 * d:]))[0, 0], arrays)
  if g == 'pairwise matrix':
    s = case[1]
    d = lib.ndims(s)
    if d < 2:
      return
    sx, sy = with_batch(vec(s, 0), 2), with_batch(vec(s, 1), 3)
    arrays = lib.np_cores(sx, 1, 'r') + lib.np_cores(sy, 2, 'r') + lib.np_cores(s, 3, 'r')
    return compare(ctx, case, lambda x: t3f.pairwise_flat_inner(tt_of(sx, x[:d]), tt_of(sy, x[d:2 * d]), tt_of(s, x[2 * d:])),
                   lambda x: np.einsum('pik,ij,qjk->pq', dn(sx, x[:d]), dn(s, x[2 * d:]), dn(sy, x[d:2 * d])), arrays)
  if g == 'kron':
    return kron(case, ctx)
  return layer(case, ctx)


def one(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, op, s = case
  b, kind, d = s[3], s[0], lib.ndims(s)
  arrays = lib.np_cores(s, 5, 'r')
  X = lambda x: tt_of(s, x[:d])
  D = lambda x: dn(s, x[:d])
  per = lambda v: (np.sum(v) if b is None else v.reshape(b, -1).sum(1))
  if op == 'full':
    return compare(ctx, case, lambda x: t3f.full(X(x)), D, arrays)
  if op == 'neg':
    return compare(ctx, case, lambda x: t3f.full(-X(x)), lambda x: -D(x), arrays)
  if op == 'scale':
    a = arrays + [np.array(1.7)]
    compare(ctx, case, lambda x: t3f.full(x[d] * X(x)), lambda x: x[d] * D(x), a)
    return compare(ctx, case, lambda x: t3f.full(X(x) * x[d]), lambda x: x[d] * D(x), a)
  if op == 'cast':
    return compare(ctx, case, lambda x: t3f.full(t3f.cast(X(x), tf.float64)), D, arrays)
  if op == 'norm2':
    return compare(ctx, case, lambda x: t3f.frobenius_norm_squared(X(x), differentiable=True), lambda x: per(D(x) ** 2), arrays)
  if op == 'norm':
    eps = 1e-5
    return compare(ctx, case, lambda x: t3f.frobenius_norm(X(x), differentiable=True), lambda x: per(D(x) ** 2), arrays,
                   chain=lambda v: 0.5 / np.sqrt(v + eps))
  if op == 'self inner':
    return compare(ctx, case, lambda x: t3f.flat_inner(X(x), X(x)), lambda x: per(D(x) ** 2), arrays)
  if op == 'self product':
    return compare(ctx, case, lambda x: t3f.full(X(x) * X(x)), lambda x: D(x) ** 2, arrays)
  if op == 'gather':
    if kind == 'm':
      return
    shp = ([] if b is None else [b]) + list(s[1])
    idx = np.array([[n - 1 for n in shp], [0 for n in shp]])
    return compare(ctx, case, lambda x: t3f.gather_nd(X(x), idx), lambda x: np.array([D(x)[tuple(i)] for i in idx]), arrays)
  if op == 'slice':
    if kind == 'm' or d < 2:
      return
    sl = (slice(None),) * (d - 1) + (0,)
    sl2 = (-1,) + (slice(0, 1),) * (d - 1)
    pre = () if b is None else (slice(None),)
    compare(ctx, case, lambda x: t3f.full(X(x)[pre + sl]), lambda x: D(x)[pre + sl], arrays)
    return compare(ctx, case, lambda x: t3f.full(X(x)[pre + sl2]), lambda x: D(x)[pre + sl2], arrays)
  if op == 'transpose':
    if kind == 'm':
      compare(ctx, case, lambda x: t3f.full(t3f.transpose(X(x))), lambda x: tr(D(x)), arrays)
    return
  if op == 'l2':
    # The default regularizer may use a decomposition; the penalty of the cores does not.
    return
  if op == 'cores':
    reg = t3f.cores_regularizer(tf.nn.l2_loss, 3.)
    return compare(ctx, case, lambda x: reg(X(x)), lambda x: 3. * sum(0.5 * np.sum(c ** 2) for c in x), arrays)
  if op in ('object', 'weights', 'gram', 'project_sum') and b is None:
    return
  if op == 'object':
    return compare(ctx, case, lambda x: t3f.full(X(x)[b - 1]), lambda x: D(x)[b - 1], arrays)
  if op == 'weights':
    w = lib.fill((b,), 8, 'r')
    return compare(ctx, case, lambda x: t3f.full(t3f.multiply_along_batch_dim(X(x), x[d])),
                   lambda x: D(x) * x[d].reshape([-1] + [1] * (D(x).ndim - 1)), arrays + [w])
  if op == 'gram':
    return compare(ctx, case, lambda x: t3f.gram_matrix(X(x)), lambda x: D(x).reshape(b, -1) @ D(x).reshape(b, -1).T, arrays)
  if op == 'expand':
    if b is None:
      compare(ctx, case, lambda x: t3f.full(t3f.expand_batch_dim(X(x))), lambda x: D(x)[None], arrays)
    elif b == 1:
      compare(ctx, case, lambda x: t3f.full(t3f.squeeze_batch_dim(X(x))), lambda x: D(x)[0], arrays)
    return
  if op == 'renorm free sum':
    ones = np.ones(lib.dense_shape(with_batch(s, None)))
    return compare(ctx, case, lambda x: t3f.flat_inner(X(x), t3f.ones_like(X(x))), lambda x: per(D(x) * ones), arrays)
  if op in ('matmul dense', 'dense matmul'):
    if kind == 't' or b is not None:
      return
    n, m = lib.dense_shape(s)
    if op == 'matmul dense':
      v = lib.fill((m, 2), 9, 'r')
      return compare(ctx, case, lambda x: t3f.matmul(X(x), x[d]), lambda x: D(x) @ x[d], arrays + [v])
    v = lib.fill((2, n), 9, 'r')
    return compare(ctx, case, lambda x: t3f.matmul(x[d], X(x)), lambda x: x[d] @ D(x), arrays + [v])
  if d < 2:
    return
  where = lib.clip_ranks(with_batch(s, None))
  W, _, _, U = lib.point(where)
  P = lambda z: U.dot(U.T.dot(z.reshape(-1))).reshape(z.shape)
  if op == 'project':
    return compare(ctx, case, lambda x: t3f.full(t3f.project(X(x), W)), lambda x: P(D(x)) if b is None else np.stack([P(z) for z in D(x)]), arrays, tol=1e-8)
  w = lib.fill((b,), 8, 'r')
  compare(ctx, case, lambda x: t3f.full(t3f.project_sum(X(x), W, x[d])), lambda x: P(np.tensordot(x[d], D(x), 1)), arrays + [w], tol=1e-8)


def two(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, op, s, (b1, b2) = case
  d = lib.ndims(s)
  s1 = with_batch(s, b1)
  r2 = [1] + [1] * (d - 1) + [1]
  s2 = with_batch(lib.with_ranks(s, r2), b2)
  if op == 'matmul':
    if s[0] == 't' or 1 in (b1, b2):
      return
    s2 = with_batch(lib.with_ranks(transposed(s), r2), b2)
  if op in ('pairwise', 'concat') and (b1 is None or b2 is None):
    return
  if op == 'concat':
    s2 = with_batch(s, b2)
  arrays = lib.np_cores(s1, 5, 'r') + lib.np_cores(s2, 6, 'r')
  A = lambda x: tt_of(s1, x[:d])
  B = lambda x: tt_of(s2, x[d:])

  def bc(x):
    a, b = dn(s1, x[:d]), dn(s2, x[d:])
    if b1 is not None and b2 is None:
      b = b[None]
    if b1 is None and b2 is not None:
      a = a[None]
    return a, b
  out = b1 if b2 is None else b2 if b1 is None else max(b1, b2)
  if op == 'add':
    return compare(ctx, case, lambda x: t3f.full(A(x) + B(x)), lambda x: bc(x)[0] + bc(x)[1], arrays)
  if op == 'subtract':
    return compare(ctx, case, lambda x: t3f.full(A(x) - B(x)), lambda x: bc(x)[0] - bc(x)[1], arrays)
  if op == 'multiply':
    return compare(ctx, case, lambda x: t3f.full(A(x) * B(x)), lambda x: bc(x)[0] * bc(x)[1], arrays)
  if op == 'inner':
    def model(x):
      p = bc(x)[0] * bc(x)[1]
      return np.sum(p) if out is None else p.reshape(out, -1).sum(1)
    return compare(ctx, case, lambda x: t3f.flat_inner(A(x), B(x)), model, arrays)
  if op == 'matmul':
    return compare(ctx, case, lambda x: t3f.full(t3f.matmul(A(x), B(x))), lambda x: bc(x)[0] @ bc(x)[1], arrays)
  if op == 'pairwise':
    return compare(ctx, case, lambda x: t3f.pairwise_flat_inner(A(x), B(x)), lambda x: dn(s1, x[:d]).reshape(b1, -1) @ dn(s2, x[d:]).reshape(b2, -1).T, arrays)
  compare(ctx, case, lambda x: t3f.full(t3f.concat_along_batch_dim([A(x), B(x)])), lambda x: np.concatenate([dn(s1, x[:d]), dn(s2, x[d:])]), arrays)


def kron(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, sizes, b = case
  d = len(sizes)
  bb = 1 if b is None else b
  fac = [np.stack([lib.fill((n, n), 70 + 5 * k + j, 'r') + 1.5 * np.eye(n) for j in range(bb)]) for k, n in enumerate(sizes)]
  N = int(np.prod(sizes))
  cores = [f[:, None, :, :, None] for f in fac]
  cores = [c[0] for c in cores] if b is None else cores
  dets = [np.linalg.det(f) for f in fac]
  total = np.prod([dt ** (N // n) for dt, n in zip(dets, sizes)], axis=0)
  G = weights_for((bb,))
  for name, f, factor in (('determinant', lambda x: t3f.kronecker.determinant(x), G * total), ('slog', lambda x: t3f.kronecker.slog_determinant(x)[1], G)):
    ts = [tf.constant(c) for c in cores]
    with tf.GradientTape() as tape:
      for t in ts:
        tape.watch(t)
      A = t3f.TensorTrain(ts) if b is None else t3f.TensorTrainBatch(ts)
      y = tf.reduce_sum(tf.constant(G if b is not None else G[0]) * f(A))
    got = tape.gradient(y, ts)
    ctx.step()
    for k, n in enumerate(sizes):
      want = factor[:, None, None] * (N // n) * np.swapaxes(np.linalg.inv(fac[k]), 1, 2)
      g = lib.npy(got[k]).reshape(want.shape)
      ctx.check(np.allclose(g, want, rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max())), lambda: '%s of %s: derivative of core %d: %s' % (name, case, k, lib.describe(g, want)))
      ctx.outcome((str(case), name, k))
  ctx.state(str(case))


def layer(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  _, i, o, act, bias = case
  d = len(i)
  L = t3f.nn.KerasDense(i, o, tt_rank=2, use_bias=bias, activation=act)
  L.build((None, int(np.prod(i))))
  W = L.matrix if hasattr(L, 'matrix') else None
  if W is None:
    return
  ni, no = int(np.prod(i)), int(np.prod(o))
  x = lib.fill((3, ni), 4, 'r').astype(np.float32)
  G = weights_for((3, no))
  cores = list(W.tt_cores)
  vs = cores + ([L.b] if bias and hasattr(L, 'b') else [])
  xt = tf.constant(x)
  with tf.GradientTape() as tape:
    tape.watch(xt)
    y = tf.reduce_sum(tf.constant(G, tf.float32) * L(xt))
  got = tape.gradient(y, [xt] + vs)
  wc = [lib.npy(c).astype(np.float64) for c in cores]
  spec = spec_m(i, o, [c.shape[0] for c in wc] + [1])
  dense = dn(spec, wc)
  bb = lib.npy(L.b).astype(np.float64) if bias and hasattr(L, 'b') else np.zeros(no)
  z = x @ dense + bb
  dz = G if act is None else G * (1 - np.tanh(z) ** 2)
  want = [dz @ dense.T] + numeric(lambda c: float(np.sum(dz * (x @ dn(spec, c)))), wc) + ([dz.sum(0)] if bias and hasattr(L, 'b') else [])
  ctx.step()
  for k, (g, w) in enumerate(zip(got, want)):
    g = lib.npy(g)
    ctx.check(g.shape == w.shape and np.allclose(g, w, rtol=2e-4, atol=2e-4 * (1 + np.abs(w).max())), lambda: '%s: derivative %d: %s' % (case, k, lib.describe(g, w)))
    ctx.outcome((str(case), k))
  ctx.state(str(case))
