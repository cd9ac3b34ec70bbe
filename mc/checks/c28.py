"""C28: optional arguments: omitted, by position, by keyword."""
import itertools

import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m
from mc.checks import c21

ID = 'C28'
BOUND = ('all 70 public functions and constructors x operands (tensors, matrices, batches; sizes for which the defaults matter): every subset of the optional arguments '
         'omitted, every number of optional arguments given by position, every required argument by keyword, every single optional argument with another value in '
         'every calling style; documented meanings of None')
ASSUMPTIONS = ['documented defaults are those of the signatures and docstrings', 'random functions are compared after resetting the seed']

# Not exported at the top level: the parameters' names are not documented API.
POSITIONAL = ('bilinear_form_two_mat', 'deltas_to_tangent_space', 'unravel_index')

O = object()  # no alternative


def obj(spec, salt=1, kind='r'):
  return lib.make(spec, salt, kind, fresh=True)[0]


T = [spec_t([4], [1, 1]), spec_t([2, 3, 2], [1, 2, 3, 1]), spec_t([12, 12], [1, 12, 1])]
M = [spec_m([2], [3], [1, 1]), spec_m([2, 3], [3, 2], [1, 3, 1])]
ANY = T + M + [lib.with_batch(s, 2) for s in T[1:] + M]
POINT = [spec_t([2, 3, 2], [1, 2, 2, 1]), spec_m([2, 3], [2, 1], [1, 2, 1])]


def table():
  """name -> (function, variants, optional): variants are functions making the
  required arguments as (keyword, value) pairs; optional are (keyword, default,
  another value or O)."""
  tf, t3f = lib.tf, lib.t3f
  ops, rie = t3f.ops, lib.t3f_riemannian()
  f32, f64 = tf.float32, tf.float64
  t = {}
  nm = ('name', None, 'another')

  def one(name, fn, arg, specs, *optional):
    t[name] = (fn, [lambda s=s: [(arg, obj(s))] for s in specs], list(optional))

  for fname, arg in (('full', 'tt'), ('ones_like', 'tt'), ('zeros_like', 'tt'), ('tt_ranks', 'tt'), ('shape', 'tt'), ('raw_shape', 'tt'), ('lazy_tt_ranks', 'tt'),
                     ('lazy_shape', 'tt'), ('lazy_raw_shape', 'tt'), ('squeeze_batch_dim', 'tt'), ('expand_batch_dim', 'tt')):
    one(fname, getattr(t3f, fname), arg, ANY, nm)
  for fname in ('batch_size', 'lazy_batch_size'):
    one(fname, getattr(t3f, fname), 'tt', [s for s in ANY if s[3] is not None], nm)
  one('transpose', t3f.transpose, 'tt_matrix', [s for s in ANY if s[0] == 'm'], nm)
  one('frobenius_norm_squared', t3f.frobenius_norm_squared, 'tt', ANY, ('differentiable', False, True), nm)
  t['frobenius_norm'] = (t3f.frobenius_norm, [lambda s=s, k=k: [('tt', obj(s, 1, k))] for s in ANY for k in ('r', 'z')],
                         [('epsilon', 1e-5, 1e-2), ('differentiable', False, True), nm])
  t['renormalize_tt_cores'] = (t3f.renormalize_tt_cores, [lambda s=s, k=k: [('tt', obj(s, 1, k))] for s in ANY for k in ('r', 'i+tiny')],
                               [('epsilon', 1e-8, 1e-2), nm])
  one('orthogonalize_tt_cores', t3f.orthogonalize_tt_cores, 'tt', [s for s in ANY if s[3] is None], ('left_to_right', True, False), nm)
  one('orthogonalize_tt_cores batch', t3f.orthogonalize_tt_cores, 'tt', [s for s in ANY if s[3] is not None], ('left_to_right', True, O), nm)
  one('round', t3f.round, 'tt', ANY, ('max_tt_rank', None, 1), ('epsilon', None, O), nm)
  t['cast'] = (t3f.cast, [lambda s=s, d=d: [('tt', obj(s)), ('dtype', d)] for s in ANY for d in (f32, f64)], [nm])
  t['gather_nd'] = (t3f.gather_nd, [lambda s=s: [('tt', obj(s)), ('indices', np.zeros((3, lib.ndims(s) + (s[3] is not None)), int) + [[0], [1], [1]])]
                                    for s in ANY if s[0] == 't'], [nm])

  def two(name, fn, args, pairs, *optional):
    t[name] = (fn, [lambda a=a, b=b: [(args[0], obj(a, 1)), (args[1], obj(b, 2))] for a, b in pairs], list(optional))
  same = [(s, s) for s in ANY]
  mixed = same + [(s, lib.with_batch(s, 2)) for s in T[1:] + M] + [(lib.with_batch(s, 2), s) for s in T[1:] + M]
  two('add', t3f.add, ('tt_a', 'tt_b'), mixed, nm)
  two('multiply', t3f.multiply, ('tt_left', 'right'), mixed, nm)
  t['multiply by a number'] = (t3f.multiply, [lambda s=s: [('tt_left', obj(s)), ('right', -2.5)] for s in ANY], [nm])
  two('flat_inner', t3f.flat_inner, ('a', 'b'), mixed, nm)
  mm = [(s, ['m', [s[1][1], s[1][0]], s[2], b]) for s in ANY if s[0] == 'm' for b in (s[3],)]
  two('matmul', t3f.matmul, ('a', 'b'), mm, nm)
  cols = lambda s: int(np.prod(s[1][1]))
  rows = lambda s: int(np.prod(s[1][0]))
  t['matmul dense'] = (t3f.matmul, [lambda s=s: [('a', obj(s)), ('b', tf.constant(lib.fill((cols(s), 2), 5, 'r')))] for s in M], [nm])
  t['dense matmul'] = (t3f.matmul, [lambda s=s: [('a', tf.constant(lib.fill((2, rows(s)), 5, 'r'))), ('b', obj(s))] for s in M], [nm])
  vec = lambda s, side, b=None: spec_m(s[1][side], [1] * lib.ndims(s), [1] + [2] * (lib.ndims(s) - 1) + [1], b)
  for fname in ('bilinear_form', 'quadratic_form'):
    t[fname] = (getattr(t3f, fname), [lambda s=s, p=p, q=q: [('A', obj(s)), ('b', obj(vec(s, 0, p), 2)), ('c', obj(vec(s, 1, q), 3))]
                                      for s in M for p, q in ((None, None), (2, None), (None, 2), (2, 2))], [nm])
  t['bilinear_form_two_mat'] = (ops.bilinear_form_two_mat, [lambda s=s: [('x', obj(vec(s, 0), 2)), ('A', obj(s)), ('B', obj(['m', s[1][::-1], s[2], None], 4)), ('y', obj(vec(s, 0), 3))]
                                                            for s in M], [nm])
  bs = [lib.with_batch(s, b) for s in T + M for b in (1, 3)]
  t['concat_along_batch_dim'] = (t3f.concat_along_batch_dim, [lambda s=s: [('tt_list', [obj(s), obj(s, 2)])] for s in bs], [nm])
  t['multiply_along_batch_dim'] = (t3f.multiply_along_batch_dim, [lambda s=s: [('batch_tt', obj(s)), ('weights', tf.constant([2., -1., 3.][:s[3]], f64))] for s in bs], [nm])
  one('gram_matrix', t3f.gram_matrix, 'tt_vectors', bs, ('matrix', None, O), nm)
  two('pairwise_flat_inner', t3f.pairwise_flat_inner, ('tt_1', 'tt_2'), [(s, s) for s in bs], ('matrix', None, O), nm)
  matrix = lambda: obj(spec_m([2, 3], [2, 3], [1, 2, 1]), 7)
  vb = spec_m([2, 3], [1, 1], [1, 2, 1], 2)
  one('gram_matrix of vectors', t3f.gram_matrix, 'tt_vectors', [vb], ('matrix', None, matrix), nm)
  two('pairwise_flat_inner of vectors', t3f.pairwise_flat_inner, ('tt_1', 'tt_2'), [(vb, vb)], ('matrix', None, matrix), nm)

  # Riemannian functions.
  p2 = [(a, w) for w in POINT for a in (w, lib.with_batch(w, 2))]
  two('project', t3f.project, ('what', 'where'), p2)
  two('project_sum', t3f.project_sum, ('what', 'where'), p2, ('weights', None, O))
  two('project_sum of batches', t3f.project_sum, ('what', 'where'), [(lib.with_batch(w, 2), w) for w in POINT], ('weights', None, lambda: tf.constant([2., -1.], f64)))
  wv = spec_m([2, 3], [1, 1], [1, 2, 1])
  t['project_matmul'] = (t3f.project_matmul, [lambda: [('what', obj(wv, 1)), ('where', obj(wv, 2)), ('matrix', matrix())]], [])
  pb = lambda w, k: t3f.project(obj(lib.with_batch(w, 2), k), obj(w, 9))
  t['pairwise_flat_inner_projected'] = (t3f.pairwise_flat_inner_projected, [lambda w=w: [('projected_tt_vectors_1', tie(pb(w, 1), w)), ('projected_tt_vectors_2', tie(pb(w, 2), w))]
                                                                            for w in POINT], [])
  t['add_n_projected'] = (t3f.add_n_projected, [lambda w=w: [('tt_objects', [tie(t3f.project(obj(w, 1), point(w)), w), tie(t3f.project(obj(w, 2), point(w)), w)])] for w in POINT],
                          [('coef', None, [2., -3.])])
  t['tangent_space_to_deltas'] = (t3f.tangent_space_to_deltas, [lambda w=w: [('tt', t3f.project(obj(w, 1), point(w)))] for w in POINT], [nm])
  t['deltas_to_tangent_space'] = (rie.deltas_to_tangent_space, [lambda w=w: [('deltas', t3f.tangent_space_to_deltas(t3f.project(obj(w, 1), point(w)))), ('tt', point(w))] for w in POINT],
                                  [('left', None, O), ('right', None, O), nm])
  good = lambda x: t3f.frobenius_norm_squared(x, differentiable=True)
  bad = lambda x: tf.add_n([tf.reduce_sum(c ** 2) for c in x.tt_cores])
  t['gradients'] = (t3f.gradients, [lambda w=w, f=f: [('func', f), ('x', point(w))] for w in POINT for f in (good, bad)], [nm, ('runtime_check', True, False)])
  t['hessian_vector_product'] = (t3f.hessian_vector_product, [lambda w=w, f=f: [('func', f), ('x', point(w)), ('vector', obj(w, 3))] for w in POINT for f in (good, bad)],
                                 [nm, ('runtime_check', True, False)])

  # Approximate sums, Kronecker products.
  t['add_n'] = (t3f.approximate.add_n, [lambda s=s: [('tt_objects', [obj(s, k) for k in range(3)]), ('max_tt_rank', 2)] for s in ANY], [nm])
  t['reduce_sum_batch'] = (t3f.approximate.reduce_sum_batch, [lambda s=s: [('tt_batch', obj(s)), ('max_tt_rank', 2)] for s in bs if s[3] == 3], [('coef', None, [2., 0., -1.]), nm])
  for fname in ('determinant', 'slog_determinant', 'inv', 'cholesky'):
    t['kronecker.' + fname] = (getattr(t3f.kronecker, fname), [lambda b=b: [('kron_a', kron(b))] for b in (None, 2)], [nm])

  # Initializers.
  dt = ('dtype', f32, f64)
  for fname in ('tensor_ones', 'tensor_zeros', 'eye'):
    t[fname] = (getattr(t3f, fname), [lambda s=s: [('shape', s)] for s in ((4,), (2, 3, 2))], [dt, nm])
  for fname in ('matrix_ones', 'matrix_zeros'):
    t[fname] = (getattr(t3f, fname), [lambda s=s: [('shape', s)] for s in (((2,), (3,)), ((2, 3), (3, 1)), ((2, 3), None))], [dt, nm])
  rank, mean, dev, size = ('tt_rank', 2, 3), ('mean', 0., 1.5), ('stddev', 1., 2.5), ('batch_size', 1, 3)
  zero = ('mean', 0., O)
  for fname, m, b in (('tensor_with_random_cores', mean, 0), ('tensor_batch_with_random_cores', mean, 1), ('random_tensor', zero, 0), ('random_tensor_batch', zero, 1)):
    t[fname] = (getattr(t3f, fname), [lambda s=s: [('shape', s)] for s in ((4,), (5, 3, 5))], [rank] + ([size] if b else []) + [m, dev, dt, nm])
  for fname, m, b in (('matrix_with_random_cores', mean, 0), ('matrix_batch_with_random_cores', mean, 1), ('random_matrix', zero, 0), ('random_matrix_batch', zero, 1)):
    t[fname] = (getattr(t3f, fname), [lambda s=s: [('shape', s)] for s in (((2,), (3,)), ((2, 3), (3, 2)), (None, (3, 2)))], [rank] + ([size] if b else []) + [m, dev, dt, nm])
  for fname in ('glorot_initializer', 'he_initializer', 'lecun_initializer'):
    t[fname] = (getattr(t3f, fname), [lambda s=s: [('shape', s)] for s in (((2,), (3,)), ((2, 3), (3, 2)), ((3, 2), None))], [rank, dt, nm])

  # Decompositions.
  dense = lambda *s: lib.fill(s, 8, 'r')
  t['to_tt_tensor'] = (t3f.to_tt_tensor, [lambda s=s: [('tens', dense(*s))] for s in ((4,), (2, 3, 2), (12, 12), (4, 3, 11, 2))], [('max_tt_rank', 10, 1), ('epsilon', None, O), nm])
  t['to_tt_matrix'] = (t3f.to_tt_matrix, [lambda s=s, h=h: [('mat', dense(*s)), ('shape', h)] for s, h in (
      ((2, 3), [[2], [3]]), ((16, 16), [[4, 4], [4, 4]]), ((12, 1), [[4, 3], None]), ((1, 12), [None, [4, 3]]))], [('max_tt_rank', 10, 1), ('epsilon', None, O), nm])
  t['clean_raw_shape'] = (t3f.clean_raw_shape, [lambda s=s: [('shape', s)] for s in ([2, 3], [[2, 3], [1, 2]], np.array([2, 3]), None, np.array([[2, 3], [3, 1]]))], [nm])
  two('is_batch_broadcasting_possible', t3f.is_batch_broadcasting_possible, ('tt_a', 'tt_b'), mixed)

  # Objects.
  t['TensorTrain'] = (t3f.TensorTrain, [lambda s=s: [('tt_cores', lib.np_cores(s, 1, 'r'))] for s in ANY if s[3] is None],
                      [('shape', None, O), ('tt_ranks', None, O), ('convert_to_tensors', True, O), ('name', 'TensorTrain', 'another')])
  t['TensorTrainBatch'] = (t3f.TensorTrainBatch, [lambda s=s: [('tt_cores', lib.np_cores(s, 1, 'r'))] for s in ANY if s[3] is not None],
                           [('shape', None, O), ('tt_ranks', None, O), ('batch_size', None, O), ('convert_to_tensors', True, O), ('name', 'TensorTrainBatch', 'another')])
  t['assign'] = (t3f.assign, [lambda s=s: [('ref', t3f.get_variable('v', initializer=obj(s))), ('value', obj(s, 2))] for s in ANY],
                 [('validate_shape', None, True), ('use_locking', None, False), ('name', None, 'another')])
  t['get_variable'] = (lambda name, *a, **k: described(t3f.get_variable(name, *a, **k)), [lambda s=s: [('name', 'v'), ('dtype', f64), ('initializer', obj(s))] for s in ANY],
                       [('regularizer', None, O), ('trainable', True, False), ('collections', None, O), ('caching_device', None, O), ('validate_shape', True, O)])
  reg = lambda make: lambda *a, **k: make(*a, **k)(obj(T[1]))
  t['l2_regularizer'] = (reg(t3f.l2_regularizer), [lambda: [('scale', 0.5)]], [('scope', None, 'another')])
  t['cores_regularizer'] = (reg(t3f.cores_regularizer), [lambda: [('core_regularizer', lambda c: tf.reduce_sum(c ** 2)), ('scale', 0.5)]], [('scope', None, 'another')])
  t['KerasDense'] = (layer, [lambda i=i, o=o: [('input_dims', i), ('output_dims', o)] for i, o in (([3], [2]), ([2, 3], [3, 2]), ([2, 2, 2], [1, 2, 2]))],
                     [('tt_rank', 2, 3), ('activation', None, 'relu'), ('use_bias', True, False), ('kernel_initializer', 'glorot', 'he'), ('bias_initializer', 0.1, 0.7)])
  t['unravel_index'] = (t3f.utils.unravel_index, [lambda: [('indices', np.array([0, 3, 5])), ('shape', np.array([2, 3]))]], [])
  return t


_points = {}


def point(w):
  # Tangent vectors of one point: the very same object.
  if str(w) not in _points:
    _points[str(w)] = obj(w, 9)
  return _points[str(w)]


def tie(p, w):
  p.projection_on = point(w)
  return p


def kron(b):
  rng = [np.array([[3., 1.], [1., 2.]]), np.array([[2., 0.5, 0.], [0.5, 3., 1.], [0., 1., 2.]])]
  if b is None:
    return lib.t3f.TensorTrain([a[None, :, :, None] for a in rng])
  return lib.t3f.TensorTrainBatch([np.stack([a, 2 * a])[:, None, :, :, None] for a in rng])


def described(v):
  return [tuple(c.trainable for c in v.tt_cores), v]


def layer(*a, **k):
  x = lib.fill((3, int(np.prod(k['input_dims'] if 'input_dims' in k else a[0]))), 4, 'r').astype(np.float32)
  l = lib.t3f.nn.KerasDense(*a, **k)
  y = l(x)
  return [y, [tuple(w.shape) for w in l.trainable_weights]]


# The table needs TensorFlow; its keys are repeated here to enumerate without it.
NAMES = ('full ones_like zeros_like tt_ranks shape raw_shape lazy_tt_ranks lazy_shape lazy_raw_shape squeeze_batch_dim expand_batch_dim batch_size lazy_batch_size transpose '
         'frobenius_norm_squared frobenius_norm renormalize_tt_cores orthogonalize_tt_cores round cast gather_nd add multiply flat_inner matmul '
         'bilinear_form quadratic_form bilinear_form_two_mat concat_along_batch_dim multiply_along_batch_dim gram_matrix pairwise_flat_inner project '
         'project_sum project_matmul pairwise_flat_inner_projected add_n_projected tangent_space_to_deltas deltas_to_tangent_space gradients hessian_vector_product add_n '
         'reduce_sum_batch kronecker.determinant kronecker.slog_determinant kronecker.inv kronecker.cholesky tensor_ones tensor_zeros eye matrix_ones matrix_zeros '
         'tensor_with_random_cores tensor_batch_with_random_cores random_tensor random_tensor_batch matrix_with_random_cores matrix_batch_with_random_cores random_matrix '
         'random_matrix_batch glorot_initializer he_initializer lecun_initializer to_tt_tensor to_tt_matrix clean_raw_shape is_batch_broadcasting_possible TensorTrain '
         'TensorTrainBatch assign get_variable l2_regularizer cores_regularizer KerasDense unravel_index').split() + [
             'orthogonalize_tt_cores batch', 'multiply by a number', 'matmul dense', 'dense matmul', 'gram_matrix of vectors', 'pairwise_flat_inner of vectors',
             'project_sum of batches']


def cases(tier):
  return [['call', n] for n in NAMES] + [['none', k] for k in ('reduce_sum_batch', 'project_sum', 'add_n_projected', 'pairwise_flat_inner', 'gram_matrix', 'TensorTrain',
                                                               'deltas_to_tangent_space', 'round', 'KerasDense')]


def flat(r):
  """Comparable form of a result."""
  if c21.is_tt(r):
    return [('tt', lib.is_batch(r), r.is_tt_matrix(), r.dtype.base_dtype, str(r.get_raw_shape()), str(r.get_tt_ranks()), getattr(r, 'batch_size', None))] + [
        lib.npy(c) for c in r.tt_cores]
  if isinstance(r, lib.tf.TensorShape):
    return [str(r)]
  if isinstance(r, (list, tuple)):
    out = [type(r).__name__, len(r)]
    for x in r:
      out += flat(x)
    return out
  if r is None or isinstance(r, (bool, str, int, np.dtype, lib.tf.DType)):
    return [r]
  return [lib.npy(lib.tf.convert_to_tensor(r))]


def outcome(fn, args, kw):
  lib.tf.random.set_seed(11)
  try:
    return flat(fn(*args, **kw))
  except Exception as e:  # pylint: disable=broad-except
    return ['raises', repr(e)[:300]]


def raised(r):
  return isinstance(r[0], str) and r[0] == 'raises'


def equal(a, b):
  if raised(a) or raised(b):
    return raised(a) and raised(b)
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if isinstance(x, np.ndarray):
      if not isinstance(y, np.ndarray) or x.shape != y.shape or x.dtype != y.dtype or not np.allclose(x, y, rtol=1e-6 if x.dtype == np.float32 else 1e-11, atol=1e-30, equal_nan=True):
        return False
    elif isinstance(y, np.ndarray) or x != y:
      return False
  return True


def actual(v):
  return v() if callable(v) and not isinstance(v, lib.tf.DType) else v


def call(name, ctx):
  fn, variants, optional = table()[name]
  for vi, make in enumerate(variants):
    defaults = [(k, 'some_name' if (k == 'name' and d is None and name != 'assign') else d) for k, d, _ in optional]
    plans = []  # (positional optional arguments, keyword optional arguments)
    n = len(optional)
    full = dict(defaults)
    for keep in itertools.product((True, False), repeat=n):
      plans.append(((), {k: v for (k, v), q in zip(defaults, keep) if q}))
    for k in range(1, n + 1):
      plans.append((tuple(v for _, v in defaults[:k]), {}))
      plans.append((tuple(v for _, v in defaults[:k]), dict(defaults[k:])))
    want = outcome(fn, [v for _, v in make()], full)
    for pos, kw in plans:
      got = outcome(fn, [v for _, v in make()] + list(pos), dict(kw))
      ctx.step()
      ctx.check(equal(got, want), lambda: '%s (operands %d) called with optional arguments %r %r differs from the explicit call with the documented defaults: %s' % (
          name, vi, pos, kw, got[:2]))
      ctx.state((name, vi, str(pos), str(kw)))
    # Required arguments by keyword, in any order.
    req = make()
    for k in range(0 if name not in POSITIONAL else len(req), len(req) + 1):
      r = make()
      got = outcome(fn, [v for _, v in r[:k]], dict(reversed(r[k:])))
      ctx.step()
      ctx.check(equal(got, want), lambda: '%s (operands %d) with %d arguments by position differs' % (name, vi, k))
    # Another value of one optional argument, in every style.
    for i, (key, _, alt) in enumerate(optional):
      if alt is O:
        continue
      by_kw = outcome(fn, [v for _, v in make()], {key: actual(alt)})
      explicit = outcome(fn, [v for _, v in make()], dict(full, **{key: actual(alt)}))
      by_pos = outcome(fn, [v for _, v in make()] + [v for _, v in defaults[:i]] + [actual(alt)], {})
      ctx.step(3)
      ctx.check(equal(by_kw, explicit) and equal(by_pos, explicit), lambda: '%s (operands %d): %s=%r by keyword, by position and with all other arguments explicit differ' % (
          name, vi, key, alt))
      if key in ('name', 'scope'):
        ctx.check(equal(by_kw, want), lambda: '%s (operands %d): the result depends on the given %s' % (name, vi, key))
    ctx.outcome((name, vi, 'raises' if raised(want) else 'value'))


def close(ctx, a, b, what):
  a, b = [lib.dense_of(x) if c21.is_tt(x) else lib.npy(x) for x in (a, b)]
  ctx.step(2)
  ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-9), what)


def none(what, ctx):
  """Documented meanings of None."""
  tf, t3f = lib.tf, lib.t3f
  f64 = tf.float64
  ctx.state(what)
  if what == 'reduce_sum_batch':
    for s in ANY:
      for b in (1, 2, 3, 4, 5):
        x = obj(lib.with_batch(s, b))
        close(ctx, t3f.approximate.reduce_sum_batch(x, 60), t3f.approximate.reduce_sum_batch(x, 60, [1.] * b), 'reduce_sum_batch without coefficients is not the sum: %s' % s)
  elif what == 'project_sum':
    for w in POINT:
      for b in (1, 2, 3):
        x = obj(lib.with_batch(w, b))
        close(ctx, t3f.project_sum(x, point(w)), t3f.project_sum(x, point(w), tf.ones([b], f64)), 'project_sum without weights is not the sum: %s' % w)
  elif what == 'add_n_projected':
    for w in POINT:
      for n in (1, 2, 3):
        xs = [t3f.project(obj(w, k), point(w)) for k in range(n)]
        close(ctx, t3f.add_n_projected(xs), t3f.add_n_projected(xs, [1.] * n), 'add_n_projected without coefficients is not the sum: %s' % w)
  elif what in ('pairwise_flat_inner', 'gram_matrix'):
    for rows in ([3], [2, 3], [2, 1, 2]):
      s = spec_m(rows, [1] * len(rows), [1] + [2] * (len(rows) - 1) + [1], 2)
      eye = t3f.eye(rows, dtype=f64)
      x, y = obj(s, 1), obj(s, 2)
      if what == 'gram_matrix':
        close(ctx, t3f.gram_matrix(x), t3f.gram_matrix(x, eye), 'gram_matrix without a matrix is not that with the identity')
      else:
        close(ctx, t3f.pairwise_flat_inner(x, y), t3f.pairwise_flat_inner(x, y, eye), 'pairwise_flat_inner without a matrix is not that with the identity')
  elif what == 'TensorTrain':
    for s in ANY:
      cores = lib.np_cores(s, 1, 'r')
      kw = {'shape': s[1], 'tt_ranks': s[2]}
      if s[3] is not None:
        kw['batch_size'] = s[3]
      cls = t3f.TensorTrain if s[3] is None else t3f.TensorTrainBatch
      for keep in itertools.product((0, 1), repeat=len(kw)):
        part = {k: v for (k, v), q in zip(kw.items(), keep) if q}
        ctx.step()
        ctx.check(equal(flat(cls(cores, **part)), flat(cls(cores))), 'inferred sizes of %s differ from given ones %s' % (s, part))
  elif what == 'deltas_to_tangent_space':
    for w in POINT:
      d = t3f.tangent_space_to_deltas(t3f.project(obj(w, 1), point(w)))
      left = t3f.orthogonalize_tt_cores(point(w))
      right = t3f.orthogonalize_tt_cores(left, left_to_right=False)
      r = lib.t3f_riemannian()
      close(ctx, r.deltas_to_tangent_space(d, point(w)), r.deltas_to_tangent_space(d, point(w), left, right), 'deltas_to_tangent_space without the orthogonal bases differs')
  elif what == 'round':
    for s in ANY:
      x = obj(s)
      close(ctx, t3f.round(x), t3f.full(x), 'round without a cap changes %s' % s)
  else:
    for i, o in (([3], [2]), ([2, 3], [3, 2])):
      tf.random.set_seed(3)
      a = layer(i, o)[0]
      tf.random.set_seed(3)
      l = t3f.nn.KerasDense(i, o, activation='linear')
      b = l(lib.fill((3, int(np.prod(i))), 4, 'r').astype(np.float32))
      ctx.step(2)
      ctx.check(np.allclose(lib.npy(a), lib.npy(b), rtol=1e-5), 'no activation is not the linear one')
  ctx.outcome(what)


def run(case, ctx):
  if case[0] == 'call':
    call(case[1], ctx)
  else:
    none(case[1], ctx)
