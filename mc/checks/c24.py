"""C24: index arithmetic, SVD replacement and mode detection utilities."""
import itertools

import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m

ID = 'C24'
BOUND = ('unravel_index: all shapes d<=4 over 1..4, d<=6 over {1,2}, sizes to 100, every linear index, three dtypes, three ways of calling, '
         '42 shapes with up to 2^62 elements at every index next to a power of two or a mode border; '
         'SVD: all sizes 1..5 x 1..5, batches of 0..2 axes, all 0/1/-1 matrices up to 2x3, generic, zero and rank-1 matrices, '
         'all flags, real and complex dtypes; compression, rounding, approximate sums: all small structures and caps, before, during and after the replacement')
ASSUMPTIONS = ['the replacement is documented for eager use only']


# Shapes with up to 2^62 elements.
LARGE = ([[2] * d for d in (16, 20, 24, 25, 30, 31, 32, 33, 40, 52, 53, 54, 60, 62)] + [[3] * d for d in (10, 16, 20, 21, 30, 33, 34, 39)] +
         [[10] * d for d in (7, 8, 9, 10, 15, 16, 17, 18)] + [[2 ** 31 - 1, 3], [3, 2 ** 31 - 1], [2 ** 31, 2 ** 30], [2 ** 20] * 3, [1000003, 1000033, 999983],
                                                             [2 ** 40, 5], [5, 2 ** 40], [2 ** 61], [3, 1, 2 ** 58, 1, 4], [4097] * 5, [2 ** 24 + 1, 3], [7, 2 ** 53 + 1]])


def large_indices(shape):
  """Every index one away from a power of two, from a border of a mode or from
  the ends, and one index with all digits different."""
  n = 1
  for s in shape:
    n *= s
  out = {0, 1, n - 1, n - 2, n // 2, n // 3, 2 * (n // 3) + 1}
  stride = n
  for s in shape:
    stride //= s
    for k in {1, s // 2, s - 1}:
      out.update(k * stride + e for e in (-1, 0, 1))
      out.update(n - k * stride + e for e in (-1, 0, 1))
  for b in range(63):
    out.update(2 ** b + e for e in (-1, 0, 1))
  return sorted(i for i in out if 0 <= i < n)


def digits(i, shape):
  out = []
  for s in reversed(shape):
    out.append(i % s)
    i //= s
  return out[::-1]


def cases(tier):
  out = [['mode']]
  top = 5 if tier == 'thorough' else 4
  for d in range(1, 5):
    for s in itertools.product(range(1, top + 1), repeat=d):
      out.append(['unravel', list(s)])
  for d in (5, 6):
    for s in itertools.product((1, 2), repeat=d):
      out.append(['unravel', list(s)])
  for s in ([100], [7, 6], [10, 10], [1, 64], [13, 5, 3], [64, 1, 2], [3, 1, 1, 50], [2] * 8, [257], [2, 129]):
    out.append(['unravel', s])
  for s in LARGE:
    out.append(['large', s])
  for m in range(1, 6):
    for n in range(1, 6):
      out.append(['svd', m, n, 'gen'])
      out.append(['svd', m, n, 'special'])
      if m * n <= (8 if tier == 'thorough' else 6) and m <= 3 and n <= 4:
        out.append(['svd', m, n, 'all'])
  for s in [spec_t([4], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([3, 2], [1, 2, 1]), spec_t([2, 2, 2], [1, 2, 2, 1]), spec_t([3, 2, 4], [1, 3, 4, 1]),
            spec_t([2, 3, 3, 2], [1, 2, 3, 2, 1]), spec_m([2, 2], [2, 3], [1, 3, 1]), spec_m([2, 1, 2], [1, 3, 2], [1, 2, 3, 1]),
            spec_m([3], [2], [1, 1]), spec_t([1, 1, 3], [1, 1, 1, 1])]:
    for cap in (1, 2, 3, 100):
      out.append(['tt', s, cap])
  return out


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  utils = t3f.utils
  if case[0] == 'mode':
    seen = []
    tf.function(lambda: seen.append(utils.in_eager_mode()))()
    with tf.Graph().as_default():
      seen.append(utils.in_eager_mode())
      with tf.init_scope():
        pass
    seen.append(utils.in_eager_mode())
    ctx.step(3)
    ctx.check([bool(x) for x in seen] == [False, False, True], 'in_eager_mode in a function, a graph and eagerly: %r' % seen)
  elif case[0] == 'unravel':
    shape = case[1]
    n = int(np.prod(shape))
    want = np.stack(np.unravel_index(np.arange(n), shape), axis=1)
    for dt in (None, np.int32, np.int64):
      idx = list(range(n)) if dt is None else np.arange(n, dtype=dt)
      shp = tuple(shape) if dt is None else np.array(shape, dtype=dt)
      ways = [('eager', lambda: utils.unravel_index(idx, shp))]
      if dt is not None:
        ways.append(('tensors', lambda: utils.unravel_index(tf.constant(idx), tf.constant(shp))))
        if len(shape) <= 3 and dt == np.int64:
          f = tf.function(utils.unravel_index, input_signature=[tf.TensorSpec([None], tf.int64), tf.TensorSpec([len(shape)], tf.int64)])
          ways.append(('traced', lambda: f(tf.constant(idx), tf.constant(shp))))
          ways.append(('reversed', lambda: utils.unravel_index(idx[::-1].copy(), shp)[::-1]))
          ways.append(('single', lambda: utils.unravel_index(idx[-1:], shp)))
      for nm, f_ in ways:
        got = lib.npy(f_())
        exp = want[-1:] if nm == 'single' else want
        ctx.step()
        ctx.check(got.shape == exp.shape and np.array_equal(got, exp), lambda: 'unravel_index %s for shape %s: %s, expected %s' % (
            nm, shape, got.tolist()[:20], exp.tolist()[:20]))
    ctx.state(str(shape))
    ctx.outcome(str(shape))
  elif case[0] == 'large':
    shape = case[1]
    idx = large_indices(shape)
    want = np.array([digits(i, shape) for i in idx], dtype=np.int64)
    arr, shp = np.array(idx, dtype=np.int64), np.array(shape, dtype=np.int64)
    f = tf.function(utils.unravel_index, input_signature=[tf.TensorSpec([None], tf.int64), tf.TensorSpec([len(shape)], tf.int64)])
    ways = [('eager', lambda: utils.unravel_index(arr, shp)), ('tensors', lambda: utils.unravel_index(tf.constant(arr), tf.constant(shp))),
            ('traced', lambda: f(tf.constant(arr), tf.constant(shp)))]
    if idx[-1] < 2 ** 31 and max(shape) < 2 ** 31:
      ways.append(('int32', lambda: utils.unravel_index(arr.astype(np.int32), shp.astype(np.int32))))
    for nm, f_ in ways:
      got = lib.npy(f_())
      ctx.step()
      ctx.check(got.shape == want.shape and np.array_equal(got, want), lambda: 'unravel_index %s for shape %s: wrong at %s' % (
          nm, shape, [i for i, g, w in zip(idx, got.tolist(), want.tolist()) if g != w][:5]))
    ctx.state(str(shape))
    ctx.outcome(str(shape))
  elif case[0] == 'svd':
    original = tf.linalg.svd
    mats = [matrices(case)] if case[3] == 'all' else matrices(case)
    try:
      utils.replace_tf_svd_with_np_svd()
      utils.replace_tf_svd_with_np_svd()
      replaced = tf.linalg.svd
      ctx.check(tf.original_svd is original, 'a second replacement loses the original SVD')
      for A in mats:
        R = A
        for dt in (np.float64, np.float32, np.complex128, np.complex64):
          # complex: the real matrix and, entry by entry, other imaginary parts
          A = R if dt in (np.float64, np.float32) else R + 1j * R.reshape(-1)[::-1].reshape(R.shape) * np.arange(1, R.shape[-1] + 1)
          a = tf.constant(A, dt)
          tol = 1e-10 if dt in (np.float64, np.complex128) else 1e-4
          for full in (False, True):
            check_svd(ctx, replaced(a, full_matrices=full), A, full, tol, a.dtype)
            ctx.step()
          check_svd(ctx, replaced(a), A, False, tol, a.dtype)
          s = replaced(a, compute_uv=False)
          ctx.step(2)
          ctx.check(tf.is_tensor(s) and s.dtype == a.dtype.real_dtype and close(lib.npy(s), np.linalg.svd(A, compute_uv=False), tol),
                    'singular values without vectors are wrong')
          ctx.state((str(case), A.shape, str(dt)))
          ctx.outcome((A.shape, round(float(np.sum(lib.npy(s))), 6)))
    finally:
      restore(original)
  else:
    _, spec, cap = case
    original = tf.linalg.svd
    before = results(spec, cap)
    try:
      utils.replace_tf_svd_with_np_svd()
      during = results(spec, cap)
    finally:
      restore(original)
    after = results(spec, cap)
    for k in before:
      ctx.step(3)
      for nm, r in (('with', during), ('after undoing', after)):
        ctx.check(before[k].shape == r[k].shape and np.allclose(before[k], r[k], rtol=1e-7, atol=1e-8 * (1 + np.abs(before[k]).max())),
                  lambda: '%s %s the replaced SVD differs for %s, cap %s: %s' % (k, nm, spec, cap, lib.describe(r[k], before[k])))
      ctx.state((str(case), k))
      ctx.outcome((str(case), k, round(float(np.sum(before[k])), 6)))


def restore(original):
  tf = lib.tf
  tf.linalg.svd = original
  if hasattr(tf, 'original_svd'):
    del tf.original_svd


def matrices(case):
  _, m, n, kind = case
  if kind == 'all':
    return np.array(list(itertools.product((-1., 0., 1.), repeat=m * n))).reshape(-1, m, n)
  gen = lib.np_cores(spec_t([m, n], [1, 3, 1], 6), 5, 'r')
  G = lib.np_dense(gen, False, True)
  G = G + 0.3 * lib.np_dense(lib.np_cores(spec_t([m, n], [1, 5, 1], 6), 6, 'r'), False, True)
  if kind == 'gen':
    return [G[0], G[:1], G[1:4], G.reshape(2, 3, m, n), G.reshape(3, 1, 2, m, n)]
  r1 = np.outer(np.arange(1., m + 1), np.arange(1., n + 1) - 2)
  eye = np.eye(m, n)
  return [np.zeros((m, n)), np.ones((m, n)), r1, eye, -eye, 1e6 * eye + r1, 1e-6 * r1, np.stack([r1, eye]), np.stack([np.zeros((m, n)), eye, r1]),
          np.zeros((2, 1, m, n))]


def close(a, b, tol):
  return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (1 + (np.abs(b).max() if b.size else 0)))


def check_svd(ctx, got, A, full, tol, dtype):
  s, u, v = got
  ctx.check(s.dtype == dtype.real_dtype and u.dtype == dtype and v.dtype == dtype, 'SVD of %s returns dtypes %s %s %s' % (dtype, s.dtype, u.dtype, v.dtype))
  s, u, v = [lib.wide(lib.npy(x)) for x in (s, u, v)]
  m, n = A.shape[-2:]
  k = min(m, n)
  b = A.shape[:-2]
  ctx.check(s.shape == b + (k,) and u.shape == b + (m, m if full else k) and v.shape == b + (n, n if full else k),
            'SVD of shape %s, full_matrices=%s has shapes %s %s %s' % (A.shape, full, s.shape, u.shape, v.shape))
  ctx.check(close(s, np.linalg.svd(A, compute_uv=False), tol), 'singular values of shape %s are wrong' % (A.shape,))
  ut, vt = np.swapaxes(u, -1, -2).conj(), np.swapaxes(v, -1, -2).conj()
  ctx.check(close(ut @ u, np.broadcast_to(np.eye(u.shape[-1]), b + (u.shape[-1],) * 2), tol), 'left vectors of shape %s are not orthonormal' % (A.shape,))
  ctx.check(close(vt @ v, np.broadcast_to(np.eye(v.shape[-1]), b + (v.shape[-1],) * 2), tol), 'right vectors of shape %s are not orthonormal' % (A.shape,))
  ctx.check(close((u[..., :k] * s[..., None, :]) @ vt[..., :k, :], A, tol), 'the product of the factors of shape %s is wrong' % (A.shape,))


def results(spec, cap):
  t3f = lib.t3f
  tt, dense, _ = lib.make(spec, 7, 'r')
  other = lib.make(lib.with_ranks(spec, spec[2]), 8, 'r')[0]
  out = {}
  if spec[0] == 't':
    out['to_tt_tensor'] = lib.dense_of(t3f.to_tt_tensor(lib.tf.constant(dense), max_tt_rank=cap))
  else:
    out['to_tt_matrix'] = lib.dense_of(t3f.to_tt_matrix(lib.tf.constant(dense), spec[1], max_tt_rank=cap))
  out['round'] = lib.dense_of(t3f.round(tt + 0.5 * other, cap))
  out['round batch'] = lib.dense_of(t3f.round(lib.make(lib.with_batch(spec, 2), 9, 'r')[0], cap))
  out['add_n'] = lib.dense_of(t3f.approximate.add_n([tt, other, 2. * tt], cap))
  return out
