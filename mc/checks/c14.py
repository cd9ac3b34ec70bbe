"""C14: Riemannian automatic differentiation."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices
from mc.checks import c12

ID = 'C14'
BOUND = ('points: tensors d=2,3 modes {1,2,3}, d=4 modes {1,2}, matrices d=2,3, every achievable rank vector over {1,2,3}; over-ranked '
         'points for gradients; ten functions of tensors and seven of matrices composed of library operations, with and without the '
         'runtime check, eagerly and in a graph; Hessian times generic vectors of ranks 1..3, the point itself and (d=2, up to 9 '
         'entries) ALL elementary vectors; four representation-dependent functions must be rejected; single axes to d=10, mode 40, rank 6, batch 64; '
         'tiny, huge, badly balanced and variable points times all kinds of vectors; points and vectors that are results of 20 other operations; float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['oracle: orthogonal projector on the range of the Jacobian applied to the analytic dense gradient and Hessian',
               'functions whose gradient does not depend on the point are used for gradients only',
               'float32 without the runtime check']


def sc(x):
  return np.sum(x)


def functions(s, dt='float64'):
  """name -> (function of a TT-object, f(X), gradient(X), Hessian(X)[V] or None)"""
  t3f, tf = lib.t3f, lib.tf
  d = lib.ndims(s)
  c, C, _ = lib.make(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), 141, 'r', dt)
  shp = lib.dense_shape(s)
  F = {}
  F['inner'] = (lambda x: t3f.flat_inner(c, x), lambda X: np.sum(C * X), lambda X: C, None)
  F['norm2'] = (lambda x: 0.5 * t3f.frobenius_norm_squared(x, differentiable=True), lambda X: .5 * np.sum(X ** 2), lambda X: X, lambda X, V: V)
  F['inner2'] = (lambda x: 0.5 * t3f.flat_inner(x, c) ** 2, lambda X: .5 * np.sum(C * X) ** 2, lambda X: np.sum(C * X) * C,
                 lambda X, V: np.sum(C * V) * C)
  F['distance'] = (lambda x: t3f.frobenius_norm_squared(x - c, differentiable=True), lambda X: np.sum((X - C) ** 2), lambda X: 2 * (X - C), lambda X, V: 2 * V)
  F['cubic'] = (lambda x: t3f.flat_inner(t3f.multiply(x, x), x), lambda X: np.sum(X ** 3), lambda X: 3 * X ** 2, lambda X, V: 6 * X * V)
  F['norm'] = (lambda x: t3f.frobenius_norm(x, epsilon=0., differentiable=True), lambda X: np.linalg.norm(X), lambda X: X / np.linalg.norm(X),
               lambda X, V: V / np.linalg.norm(X) - X * np.sum(X * V) / np.linalg.norm(X) ** 3)
  F['dense'] = (lambda x: tf.reduce_sum(tf.exp(t3f.full(x))), lambda X: np.sum(np.exp(X)), lambda X: np.exp(X), lambda X, V: np.exp(X) * V)
  F['scaled'] = (lambda x: t3f.flat_inner(2. * x + c, x * 3.), lambda X: np.sum((2 * X + C) * 3 * X), lambda X: 12 * X + 3 * C,
                 lambda X, V: 12 * V)
  if s[0] == 't':
    idx = np.array(list(np.ndindex(*s[1])))
    idx = idx[::2] if len(idx) > 1 else idx
    y = lib.reals((len(idx),), 142).astype(dt)
    M, Y = np.zeros(shp), np.zeros(shp)
    for k, i in enumerate(idx):
      M[tuple(i)] = 1.
      Y[tuple(i)] = y[k]
    F['completion'] = (lambda x: tf.reduce_sum((t3f.gather_nd(x, idx) - y) ** 2), lambda X: np.sum(M * (X - Y) ** 2),
                       lambda X: 2 * M * (X - Y), lambda X, V: 2 * M * V)
    if d >= 2:
      sl = (slice(0, 1),) + (slice(None),) * (d - 2) + (s[1][-1] - 1,)
      S = np.zeros(shp)
      S[sl] = 1
      F['slice'] = (lambda x: t3f.frobenius_norm_squared(x[sl], differentiable=True), lambda X: np.sum(S * X ** 2), lambda X: 2 * S * X, lambda X, V: 2 * S * V)
  else:
    n, m = shp
    A, DA, _ = lib.make(spec_m(s[1][0], s[1][0], [1] + [2] * (d - 1) + [1]), 143, 'r', dt)
    G = DA.T.dot(DA)
    F['matmul'] = (lambda x: 0.5 * t3f.frobenius_norm_squared(t3f.matmul(A, x), differentiable=True), lambda X: .5 * np.sum(DA.dot(X) ** 2),
                   lambda X: G.dot(X), lambda X, V: G.dot(V))
    F['transpose'] = (lambda x: t3f.flat_inner(t3f.matmul(t3f.transpose(x), t3f.matmul(A, x)), t3f.matmul(t3f.transpose(c), c)),
                      lambda X: np.sum(X.T.dot(DA).dot(X) * C.T.dot(C)),
                      lambda X: DA.dot(X).dot(C.T.dot(C)) + DA.T.dot(X).dot(C.T.dot(C)),
                      lambda X, V: DA.dot(V).dot(C.T.dot(C)) + DA.T.dot(V).dot(C.T.dot(C)))
    W = lib.reals((m, 2), 144).astype(dt)
    F['layer'] = (lambda x: 0.5 * tf.reduce_sum(t3f.matmul(x, tf.constant(W)) ** 2), lambda X: .5 * np.sum(X.dot(W) ** 2),
                  lambda X: X.dot(W).dot(W.T), lambda X, V: V.dot(W).dot(W.T))
    if all(x == 1 for x in s[1][1]):
      F['bilinear'] = (lambda x: t3f.bilinear_form(A, x, x), lambda X: float(X.T.dot(DA).dot(X)[0, 0]), lambda X: (DA + DA.T).dot(X),
                       lambda X, V: (DA + DA.T).dot(V))
      F['quadratic'] = (lambda x: t3f.quadratic_form(A, x, c), lambda X: float(X.T.dot(DA).dot(C)[0, 0]), lambda X: DA.dot(C), None)
  return F


NAMES = {'t': ['inner', 'norm2', 'inner2', 'distance', 'cubic', 'norm', 'dense', 'scaled', 'completion', 'slice'],
         'm': ['inner', 'norm2', 'inner2', 'distance', 'dense', 'scaled', 'matmul', 'transpose', 'layer', 'bilinear', 'quadratic']}


def pts(deep):
  out = c12.points(deep)
  for s in lib.small_matrices((2, 3), ((1, 1), (2, 1), (3, 1)), (1, 2)):
    if lib.is_clipped(s):
      out.append(s)
  return lib.uniq(out)


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for s in pts(deep):
    for f in NAMES[s[0]]:
      if f in ('bilinear', 'quadratic') and any(x != 1 for x in s[1][1]):
        continue
      out.append(['grad', s, f, 'eager'])
      if deep or lib.ndims(s) == 2:
        out.append(['hess', s, f, 'eager'])
      elif f in ('inner2', 'cubic', 'dense', 'completion', 'matmul', 'transpose', 'bilinear'):
        out.append(['hess', s, f, 'eager'])
    if s[0] == 't' and lib.ndims(s) == 2 or deep:
      for f in NAMES[s[0]][:4]:
        out.append(['grad', s, f, 'graph'])
  for s in c12.axial():
    for f in ('norm2', 'inner2', 'distance') + (('completion',) if s[0] == 't' else ('matmul',)):
      out.append(['grad', s, f, 'eager'])
      out.append(['hess', s, f, 'eager'])
  for s in (spec_t([2, 3, 2], [1, 2, 2, 1]), spec_t([3, 3], [1, 2, 1]), spec_m([2, 3], [2, 1], [1, 2, 1])):
    for f in NAMES[s[0]]:
      if f not in ('bilinear', 'quadratic'):
        for m in ('graph', 'function'):
          out.append(['grad', s, f, m])
          out.append(['hess', s, f, m])
  for s in lib.small_tensors((2, 3)) + lib.small_matrices((2,), rank_values=(2, 3)):
    if not lib.is_clipped(s):
      for f in ('norm2', 'inner2', 'distance') + (('completion',) if s[0] == 't' else ('matmul',)):
        out.append(['over', s, f])
  for s in c12.points(deep):
    out.append(['reject', s])
  for s in lib.special_points() + [spec_m([2, 3], [1, 1], [1, 2, 1])]:
    for f in NAMES[s[0]]:
      if f in ('bilinear', 'quadratic') and any(x != 1 for x in s[1][1]):
        continue
      for k in lib.VARIANTS[:-1]:
        if not (f == 'dense' and k == 'i+huge'):
          out.append(['special', s, f, k])
      out.append(['f32', s, f])
  for s in lib.origin_specs():
    for i in range(c12.NPOINTS):
      out.append(['origin', s, i])
  return out + contexts.cases(ID, tier)


def graph(fn, mode, *tts):
  """Runs fn(*tts) and returns an eager TT-object."""
  tf, t3f = lib.tf, lib.t3f
  if mode == 'eager':
    return fn(*tts)
  cores = [list(t.tt_cores) for t in tts]
  keep = {}

  def body(cs):
    res = fn(*[t3f.TensorTrain(c) for c in cs])
    keep['type'] = type(res)
    return list(res.tt_cores)
  if mode == 'function':
    return t3f.TensorTrain(tf.function(body)(cores))
  g = tf.Graph()
  with g.as_default():
    out = body([[tf.constant(x.numpy()) for x in c] for c in cores])
    with tf.compat.v1.Session(graph=g) as sess:
      vals = sess.run(out)
  return t3f.TensorTrain([tf.constant(v) for v in vals])


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  ctx.state(str(case))
  kind, s = case[0], case[1]
  d = lib.ndims(s)
  caps = [1] + [2 * r for r in s[2][1:-1]] + [1]
  shp = lib.dense_shape(s)
  N = int(np.prod(shp))
  if kind in ('grad', 'hess'):
    _, s, name, mode = case
    x, X, cores, U = lib.point(s)
    if mode == 'graph':
      # library operands must live in the same graph
      return run_graph(case, ctx, x, X, U, caps)
    f, fv, g, h = functions(s)[name]
    proj = lambda Z: U.dot(U.T.dot(Z.reshape(-1))).reshape(shp)
    # the value itself first: separates a wrong function from a wrong gradient
    lib.expect_value(ctx, f(x), fv(X), 'function %s at %s' % (name, s), tol=1e-8, scale=1 + abs(fv(X)))
    if kind == 'grad':
      G = g(X)
      for kw in ({}, {'runtime_check': False}, {'runtime_check': True, 'name': 'g'}):
        res = graph(lambda x: t3f.gradients(f, x, **kw), mode, x)
        lib.expect_tt(ctx, res, proj(G), s, 'gradients(%s at %s, %s)' % (name, s, kw), tol=1e-8, max_ranks=caps,
                      scale=1 + np.linalg.norm(G))
        ctx.step()
        if mode == 'eager':
          ctx.check(getattr(res, 'projection_on', None) is x, 'gradients: the result does not say whose tangent space it is in')
    else:
      if h is None:
        return
      vecs = [(lib.make(lib.with_ranks(s, [1] + [r] * (d - 1) + [1]), 145 + r, 'r')[:2]) for r in (1, 2, 3)] + [(x, X)]
      if mode == 'eager':
        # vectors of this and of another tangent space
        y = lib.make(s, 151, 'r')[0]
        vecs += [(v, lib.dense_of(v)) for v in (t3f.project(vecs[1][0], x), t3f.project(vecs[1][0], y), t3f.project(y, y),
                                                t3f.gradients(f, y, runtime_check=False))]
      if mode == 'eager' and N <= 9 and d == 2:
        el = lib.elementary(s)
        vecs += [(lib.build(s, [c[j] for c in el]), np.eye(N)[j].reshape(shp)) for j in range(N)]
      for i, (v, V) in enumerate(vecs):
        H = proj(h(X, proj(V)))
        kw = {'runtime_check': False} if i % 2 else {}
        res = graph(lambda x, v: t3f.hessian_vector_product(f, x, v, **kw), mode, x, v)
        lib.expect_tt(ctx, res, H, s, 'hessian_vector_product(%s at %s)' % (name, s), tol=1e-7, max_ranks=caps,
                      scale=1 + np.linalg.norm(h(X, proj(V))) + np.linalg.norm(g(X)))
        ctx.step()
        if mode == 'eager':
          ctx.check(getattr(res, 'projection_on', None) is x, 'hessian_vector_product: the result does not say whose tangent space it is in')
    lib.unchanged(ctx, x, cores, 'automatic differentiation')
  elif kind in ('special', 'f32'):
    name = case[2]
    dt = 'float64' if kind == 'special' else 'float32'
    if kind == 'special':
      x, X, cores, U = lib.special_point(s, case[3])
      f, fv, g, h = functions(s)[name]
    else:
      x, X, cores, U = lib.point(s, dt)
      f, fv, g, h = functions(s, dt)[name]
    tol = 1e-7 if dt == 'float64' else 5e-3
    proj = lambda Z: U.dot(U.T.dot(Z.reshape(-1))).reshape(shp)
    # The size of X when nothing cancels, and what the same function gives there.
    size = lib.core_scale(cores)
    big = lambda fn, *a: float(np.linalg.norm(fn(np.full(shp, size), *a))) + float(np.linalg.norm(fn(X, *a)))
    gs = big(g) if name not in ('dense', 'norm') else 1 + float(np.linalg.norm(g(X)))
    res = t3f.gradients(f, x, runtime_check=False)
    lib.expect_tt(ctx, res, proj(g(X)), s, 'gradients%s' % (case[1:],), dt, tol=tol, max_ranks=caps, scale=gs)
    ctx.check(getattr(res, 'projection_on', None) is x, 'gradients: the result does not say whose tangent space it is in')
    if dt == 'float64':
      res = t3f.gradients(f, x)
      lib.expect_tt(ctx, res, proj(g(X)), s, 'gradients with the check%s' % (case[1:],), dt, tol=tol, max_ranks=caps, scale=gs)
    ctx.step(2)
    if h is not None:
      for kv in lib.VARIANTS if kind == 'special' else ('i',):
        v, V, cv = lib.make(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), 152, kv.replace('i', 'r'), dt)
        # The Hessian is applied by differentiating <gradient, vector>.
        hs = big(h, np.abs(V) + lib.core_scale(cv)) if name not in ('dense', 'norm') else \
            float(np.linalg.norm(h(X, V))) * 10 + lib.core_scale(cv) / min(1., np.linalg.norm(X))
        res = t3f.hessian_vector_product(f, x, v, runtime_check=False)
        lib.expect_tt(ctx, res, proj(h(X, proj(V))), s, 'hessian_vector_product by %s%s' % (kv, case[1:]), dt, tol=tol, max_ranks=caps,
                      scale=hs)
        ctx.check(getattr(res, 'projection_on', None) is x, 'hessian_vector_product: the result does not say whose tangent space it is in')
        lib.unchanged(ctx, v, cv, 'automatic differentiation')
        ctx.step()
    lib.unchanged(ctx, x, cores, 'automatic differentiation')
  elif kind == 'origin':
    # Points and vectors that are results of other operations.
    for wn, x, U in lib.origin_points(s)[case[2]:case[2] + 1]:
      caps = [1] + [2 * r for r in x.get_tt_ranks().as_list()[1:-1]] + [1]
      X = lib.dense_of(x)
      proj = lambda Z: U.dot(U.T.dot(Z.reshape(-1))).reshape(shp)
      for name in ('inner2', 'distance', 'completion' if s[0] == 't' else 'matmul'):
        f, fv, g, h = functions(s)[name]
        what = '(%s at %s of %s)' % (name, wn, s)
        res = t3f.gradients(f, x)
        lib.expect_tt(ctx, res, proj(g(X)), s, 'gradients' + what, tol=1e-7, max_ranks=caps, scale=1 + np.linalg.norm(g(X)))
        ctx.check(getattr(res, 'projection_on', None) is x, 'gradients: the result does not say whose tangent space it is in')
        ctx.step()
        for n, v in lib.origins(s, None):
          V = lib.dense_of(v)
          res = t3f.hessian_vector_product(f, x, v, runtime_check=False)
          lib.expect_tt(ctx, res, proj(h(X, proj(V))), s, 'hessian_vector_product by %s%s' % (n, what), tol=1e-7, max_ranks=caps,
                        scale=1 + np.linalg.norm(h(X, proj(V))) + np.linalg.norm(g(X)))
          ctx.check(getattr(res, 'projection_on', None) is x, 'hessian_vector_product: the result does not say whose tangent space it is in')
          ctx.step()
  elif kind == 'over':
    name = case[2]
    x, X, cores = lib.make(s, 149, 'r')
    f, fv, g, h = functions(s)[name]
    G = g(X)
    res = t3f.gradients(f, x)
    lib.expect_tt(ctx, res, None, s, 'gradients(over-ranked %s)' % s, max_ranks=caps, value=False)
    got = lib.dense_of(res)
    J = lib.jacobian(cores, s[0] == 'm')
    sc_ = (1 + np.linalg.norm(G)) * (1 + np.prod([np.linalg.norm(c) for c in cores]))
    ctx.check(np.max(np.abs(J.T.dot((got - G).reshape(-1)))) <= 1e-7 * sc_ * max(1, np.max(np.abs(J))),
              'gradients(%s at over-ranked %s): derivative along a tangent direction is wrong' % (name, s))
    ctx.check(np.linalg.norm(got) <= np.linalg.norm(G) * (1 + 1e-8) + 1e-8 * sc_, 'gradients over-ranked: longer than the gradient')
    ctx.step()
  else:
    x, X, cores, U = lib.point(s)
    v = lib.make(s, 148, 'r')[0]
    c0 = [lib.reals(c.shape[:-1] + (1,), 150 + k) for k, c in enumerate(cores)]
    bad = {
        'sum of squares of the cores': lambda x: tf.add_n([tf.reduce_sum(c ** 2) for c in x.tt_cores]),
        'norm of the first core': lambda x: tf.reduce_sum(x.tt_cores[0] ** 2) + 1.,
        'sum of the last core': lambda x: tf.reduce_sum(x.tt_cores[-1] ** 2) * 3. + 0.1,
    }
    # The unit in which the function is measured does not matter.
    for k in (-120, -40, 40, 120):
      bad['2^%d times the norm of the first core' % k] = lambda x, k=k: 2. ** k * (tf.reduce_sum(x.tt_cores[0] ** 2) + 1.)
    for name, f in bad.items():
      # only where the two representations really give different values
      lib.expect_raises(ctx, lambda: t3f.gradients(f, x), 'gradients of a representation-dependent function (%s, %s)' % (name, s),
                        tf.errors.InvalidArgumentError)
      lib.expect_raises(ctx, lambda: t3f.hessian_vector_product(f, x, v), 'Hessian of a representation-dependent function (%s, %s)' % (name, s),
                        tf.errors.InvalidArgumentError)
      ctx.step(2)
    t3f.gradients(bad['sum of squares of the cores'], x, runtime_check=False)
    t3f.hessian_vector_product(bad['sum of squares of the cores'], x, v, runtime_check=False)
    ctx.step(2)


def run_graph(case, ctx, x, X, U, caps):
  """Everything built inside a TF1-style graph and evaluated by a session."""
  t3f, tf = lib.t3f, lib.tf
  kind, s, name, _ = case
  shp = lib.dense_shape(s)
  d = lib.ndims(s)
  proj = lambda Z: U.dot(U.T.dot(Z.reshape(-1))).reshape(shp)
  xc = [c.numpy() for c in x.tt_cores]
  vc = lib.np_cores(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), 147, 'r')
  V = lib.np_dense(vc, s[0] == 'm', False)
  g_ = tf.Graph()
  with g_.as_default():
    f, fv, g, h = functions(s)[name]
    if kind == 'hess' and h is None:
      return
    xs = t3f.TensorTrain([tf.constant(c) for c in xc])
    if kind == 'grad':
      res = t3f.gradients(f, xs)
      ref = proj(g(X))
      scale = 1 + np.linalg.norm(g(X))
    else:
      res = t3f.hessian_vector_product(f, xs, t3f.TensorTrain([tf.constant(c) for c in vc]))
      ref = proj(h(X, proj(V)))
      scale = 1 + np.linalg.norm(h(X, proj(V))) + np.linalg.norm(g(X))
    with tf.compat.v1.Session(graph=g_) as sess:
      vals = sess.run(list(res.tt_cores))
  out = t3f.TensorTrain([tf.constant(v) for v in vals])
  lib.expect_tt(ctx, out, ref, s, '%s(%s at %s) in a graph' % (kind, name, s), tol=1e-7, max_ranks=caps, scale=scale)
  ctx.step()
