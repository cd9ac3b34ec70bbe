"""C23: sequences of operations.

The model state is the dense value of the current object.  Every sequence of
operations up to the depth is run on real objects, each result being the
operand of the next operation, and every object on the way is observed.
"""
import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m

ID = 'C23'
BOUND = ('all sequences of 3 operations for 7 structures, of 2 for the other 7 (thorough: 3 for all, 4 for two) from 20-26 operations per kind; structures (tensors d=1..4, '
         'matrices d=1..3, batches 1..3), float64; TT-ranks on the way at most 40; each object on the way is observed by 8-12 reading operations, the last of three by its value and reported sizes')
ASSUMPTIONS = ['after a lossy rounding the model continues with the rounded value, whose error is checked against the optimal one']

ROOTS = [
    spec_t([3], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([3, 1], [1, 1, 1]), spec_t([2, 2, 2], [1, 2, 2, 1]), spec_t([3, 2, 2], [1, 2, 1, 1]),
    spec_m([2], [2], [1, 1]), spec_m([2, 2], [2, 2], [1, 2, 1]), spec_m([2, 3], [3, 1], [1, 2, 1]), spec_m([1, 2, 2], [2, 1, 2], [1, 2, 2, 1]),
    spec_t([2, 2], [1, 2, 1], 2), spec_t([2, 3, 2], [1, 2, 1, 1], 1), spec_t([3], [1, 1], 3),
    spec_m([2, 2], [2, 2], [1, 2, 1], 2), spec_m([2, 1], [1, 3], [1, 1, 1], 3),
]
MAX_RANK = 40


class S(object):
  """Real object with its model value."""

  def __init__(self, tt, dense, spec):
    self.tt, self.dense, self.spec = tt, dense, spec  # spec: kind, shape, -, batch

  @property
  def batch(self):
    return self.spec[3]


def like(s, tt, dense, batch='same', spec=None):
  spec = spec or s.spec
  return S(tt, dense, [spec[0], spec[1], None, s.spec[3] if batch == 'same' else batch])


def rounding(cap):
  def f(ctx, s, r):
    x = lib.t3f.round(s.tt, cap)
    return lossy(ctx, s, x, cap)
  return f


def lossy(ctx, s, x, cap):
  got = lib.dense_of(x)
  ctx.check(got.shape == s.dense.shape, 'shape after rounding')
  ctx.check(max(x.get_tt_ranks().as_list()) <= cap, 'rounding to %d gives TT-ranks %s' % (cap, x.get_tt_ranks()))
  ds = [(got, s.dense)] if s.batch is None else list(zip(got, s.dense))
  sp = [s.spec[0], s.spec[1], None, None]
  d = len(s.spec[1]) if s.spec[0] == 't' else len(s.spec[1][0])
  for g, e in ds:
    best = lib.tails(lib.interleave(e, sp), [cap] * (d + 1))
    ctx.check(np.linalg.norm(g - e) <= best * (1 + 1e-8) + 1e-9 * (1 + np.linalg.norm(e)), 'rounding loses %g, the bound is %g' % (np.linalg.norm(g - e), best))
  return like(s, x, got)


def mat_only(s):
  return s.spec[0] == 'm'


def square(s):
  return s.spec[0] == 'm' and list(s.spec[1][0]) == list(s.spec[1][1])


def bc(a, sb, b, bb):
  """Aligns a batch with a single object."""
  if sb is not None and bb is None:
    return a, b[None]
  if sb is None and bb is not None:
    return a[None], b
  return a, b


def both(s, r):
  if s.batch is None and r.batch is None:
    return None
  if s.batch is None:
    return r.batch
  if r.batch is None:
    return s.batch
  if s.batch == r.batch or r.batch == 1:
    return s.batch
  return r.batch


def compatible(s, r):
  return s.spec[0] == r.spec[0] and s.spec[1] == r.spec[1] and (s.batch is None or r.batch is None or s.batch == r.batch or 1 in (s.batch, r.batch))


def tr(d):
  return np.swapaxes(d, -1, -2)


def operations():
  """name -> (guard, function(ctx, state, root) -> state)."""
  t3f, tf = lib.t3f, lib.tf
  ops = {}

  def un(name, f, g=None):
    ops[name] = (g or (lambda s, r: True), f)
  un('neg', lambda c, s, r: like(s, -s.tt, -s.dense))
  un('scale', lambda c, s, r: like(s, 0.5 * s.tt, 0.5 * s.dense))
  un('round1', rounding(1))
  un('round2', rounding(2))
  un('round99', lambda c, s, r: like(s, t3f.round(s.tt, 99), s.dense))
  un('orth', lambda c, s, r: like(s, t3f.orthogonalize_tt_cores(s.tt), s.dense))
  un('orth right', lambda c, s, r: like(s, t3f.orthogonalize_tt_cores(s.tt, left_to_right=False), s.dense), lambda s, r: s.batch is None)
  un('renorm', lambda c, s, r: like(s, t3f.renormalize_tt_cores(s.tt), s.dense))
  un('add root', lambda c, s, r: like(s, s.tt + r.tt, np.add(*bc(s.dense, s.batch, r.dense, r.batch)), both(s, r)), compatible)
  un('root minus', lambda c, s, r: like(s, r.tt - s.tt, np.subtract(*bc(r.dense, r.batch, s.dense, s.batch)), both(s, r)), compatible)
  un('times root', lambda c, s, r: like(s, s.tt * r.tt, np.multiply(*bc(s.dense, s.batch, r.dense, r.batch)), both(s, r)), compatible)
  un('double', lambda c, s, r: like(s, s.tt + s.tt, 2 * s.dense))
  un('ones', lambda c, s, r: like(s, s.tt - t3f.ones_like(s.tt), s.dense - 1.))
  un('zeros', lambda c, s, r: like(s, t3f.zeros_like(s.tt) + s.tt, s.dense))
  un('cast', lambda c, s, r: like(s, t3f.cast(s.tt, tf.float64), s.dense))
  un('rewrap', lambda c, s, r: like(s, type(s.tt)(s.tt.tt_cores, s.tt.get_raw_shape(), s.tt.get_tt_ranks()), s.dense))
  un('variable', lambda c, s, r: like(s, t3f.get_variable('v', initializer=s.tt), s.dense))
  un('transpose', lambda c, s, r: like(s, t3f.transpose(s.tt), tr(s.dense), spec=['m', s.spec[1][::-1]]), lambda s, r: mat_only(s))
  un('gram', lambda c, s, r: like(s, t3f.matmul(t3f.transpose(s.tt), s.tt), tr(s.dense) @ s.dense, spec=['m', [s.spec[1][1], s.spec[1][1]]]),
     lambda s, r: mat_only(s))
  un('matmul root', lambda c, s, r: like(s, t3f.matmul(s.tt, r.tt), np.matmul(*bc(s.dense, s.batch, r.dense, r.batch)), both(s, r), ['m', [s.spec[1][0], r.spec[1][1]]]),
     lambda s, r: mat_only(s) and list(s.spec[1][1]) == list(r.spec[1][0]) and (s.batch is None or r.batch is None or s.batch == r.batch))
  un('eye', lambda c, s, r: like(s, t3f.matmul(t3f.eye(s.spec[1][0], dtype=tf.float64), s.tt), s.dense), lambda s, r: mat_only(s))
  un('slice first', lambda c, s, r: S(s.tt[(slice(1, None),) + (slice(None),) * (len(s.spec[1]) - 1)], s.dense[1:], ['t', [s.spec[1][0] - 1] + s.spec[1][1:], None, None]),
     lambda s, r: s.spec[0] == 't' and s.batch is None and s.spec[1][0] > 1)
  un('slice last', lambda c, s, r: S(s.tt[(slice(None),) * (len(s.spec[1]) - 1) + (0,)], s.dense[..., 0], ['t', s.spec[1][:-1], None, None]),
     lambda s, r: s.spec[0] == 't' and s.batch is None and len(s.spec[1]) > 1)
  un('drop first', lambda c, s, r: S(s.tt[(-1,) + (slice(None),) * (len(s.spec[1]) - 1)], s.dense[-1], ['t', s.spec[1][1:], None, None]),
     lambda s, r: s.spec[0] == 't' and s.batch is None and len(s.spec[1]) > 1)
  un('project', project, lambda s, r: r.batch is None and compatible(s, r) and len(lib.raw_shape(s.spec)[0]) > 1 and lib.is_clipped(r.rootspec))
  un('first', lambda c, s, r: like(s, s.tt[0], s.dense[0], None), lambda s, r: s.batch is not None)
  un('tail', lambda c, s, r: like(s, s.tt[1:], s.dense[1:], s.batch - 1), lambda s, r: s.batch is not None and s.batch > 1)
  un('concat', lambda c, s, r: like(s, t3f.concat_along_batch_dim([s.tt, s.tt]), np.concatenate([s.dense, s.dense]), 2 * s.batch),
     lambda s, r: s.batch is not None and s.batch <= 3)
  un('weights', lambda c, s, r: like(s, t3f.multiply_along_batch_dim(s.tt, tf.range(1., s.batch + 1., dtype=tf.float64)),
                                     s.dense * np.arange(1., s.batch + 1.).reshape([-1] + [1] * (s.dense.ndim - 1))), lambda s, r: s.batch is not None)
  un('expand', lambda c, s, r: like(s, t3f.expand_batch_dim(s.tt), s.dense[None], 1), lambda s, r: s.batch is None)
  un('squeeze', lambda c, s, r: like(s, t3f.squeeze_batch_dim(s.tt), s.dense[0] if s.batch == 1 else s.dense, None if s.batch == 1 else s.batch), lambda s, r: s.batch is not None)
  un('reduce', lambda c, s, r: like(s, t3f.approximate.reduce_sum_batch(s.tt, 200), s.dense.sum(0), None), lambda s, r: s.batch is not None)
  return ops


def project(ctx, s, r):
  x = lib.t3f.project(s.tt, r.tt)
  U = r.tangent
  one = lambda z: U.dot(U.T.dot(z.reshape(-1))).reshape(z.shape)
  d = one(s.dense) if s.batch is None else np.stack([one(z) for z in s.dense])
  return like(s, x, d)


def cases(tier):
  out = []
  names = NAMES
  for k, _ in enumerate(ROOTS):
    for a in names:
      out.append([k, a, 'three' if tier == 'thorough' or k in THREE else 'two'])
  if tier == 'thorough':
    for k in (3, 6):
      for a in names:
        for b in names:
          out.append([k, a, b, 'deep'])
  return out


THREE = (0, 1, 3, 6, 7, 9, 13)
NAMES = ['neg', 'scale', 'round1', 'round2', 'round99', 'orth', 'orth right', 'renorm', 'add root', 'root minus', 'times root', 'double', 'ones', 'zeros',
         'cast', 'rewrap', 'variable', 'transpose', 'gram', 'matmul root', 'eye', 'slice first', 'slice last', 'drop first', 'project', 'first', 'tail',
         'concat', 'weights', 'expand', 'squeeze', 'reduce']


def observe(ctx, s, r, path, leaf):
  """Compares everything that can be read from the object with the model."""
  t3f, tf = lib.t3f, lib.tf
  kind, shape, _, batch = s.spec
  what = 'after %s from %s' % (' > '.join(path), r.rootspec)
  ctx.state(tuple(path) + (r.index,))
  ctx.check(lib.is_batch(s.tt) == (batch is not None), '%s: wrong kind of object' % what)
  scale = max(1., float(np.prod([max(1., np.linalg.norm(lib.npy(c))) for c in s.tt.tt_cores])))
  lib.expect_tt(ctx, s.tt, s.dense, [kind, shape, None, batch], what, tol=1e-9, scale=scale)
  if leaf:
    ctx.step()
    return
  lib.expect_value(ctx, t3f.full(s.tt), s.dense, what + ', full', tol=1e-9, scale=scale)
  flat = s.dense.reshape(1 if batch is None else batch, -1)
  sq = (flat ** 2).sum(1)
  sq = sq[0] if batch is None else sq
  lib.expect_value(ctx, t3f.frobenius_norm_squared(s.tt), sq, what + ', norm', tol=1e-9, scale=scale ** 2)
  lib.expect_value(ctx, t3f.flat_inner(s.tt, s.tt), sq, what + ', inner product', tol=1e-9, scale=scale ** 2)
  if kind == 't':
    idx = [n - 1 for n in shape]
    if batch is not None:
      idx = [batch - 1] + idx
    lib.expect_value(ctx, t3f.gather_nd(s.tt, [idx]), np.array([s.dense[tuple(idx)]]), what + ', element', tol=1e-9, scale=scale)
  else:
    n = s.dense.shape[-1]
    if batch is None:
      lib.expect_value(ctx, t3f.matmul(s.tt, tf.eye(n, dtype=tf.float64)), s.dense, what + ', dense product', tol=1e-9, scale=scale)
  if batch is not None:
    lib.expect_value(ctx, t3f.gram_matrix(s.tt), flat @ flat.T, what + ', gram matrix', tol=1e-9, scale=scale ** 2)
    ctx.check(int(t3f.batch_size(s.tt)) == batch and s.tt.batch_size == batch, '%s: batch size %s' % (what, s.tt.batch_size))
  want = ([] if batch is None else [batch]) + (list(shape) if kind == 't' else [int(np.prod(shape[0])), int(np.prod(shape[1]))])
  ctx.check(lib.npy(t3f.shape(s.tt)).tolist() == want, '%s: shape %s' % (what, lib.npy(t3f.shape(s.tt))))
  ctx.check(lib.npy(t3f.tt_ranks(s.tt)).tolist() == s.tt.get_tt_ranks().as_list(), '%s: TT-ranks' % what)
  ctx.step(8)
  ctx.outcome((tuple(path), r.index))


def run(case, ctx):
  spec = ROOTS[case[0]]
  tt, dense, cores = lib.make(spec, 3, 'r')
  root = S(tt, dense, [spec[0], spec[1], None, spec[3]])
  root.rootspec, root.index = spec, case[0]
  if spec[3] is None and lib.is_clipped(spec) and lib.ndims(spec) > 1:
    x, dn, _, U = lib.point(spec)
    root.tt, root.dense, root.tangent = x, dn, U
    cores = [lib.npy(c) for c in x.tt_cores]
  ops = operations()
  assert sorted(ops) == sorted(NAMES)
  depth = {'deep': 4, 'three': 3, 'two': 2}[case[-1]]
  prefix = case[1:-1]

  def apply(s, name, path):
    guard, f = ops[name]
    if not guard(s, root):
      return None
    if name in ('times root', 'gram', 'matmul root', 'double', 'add root', 'root minus', 'concat', 'reduce', 'project'):
      if max(s.tt.get_tt_ranks().as_list()) > (12 if name != 'gram' else 6) or (name == 'reduce' and s.batch > 4):
        return None
    try:
      out = f(ctx, s, root)
    except Exception as e:
      raise AssertionError('%s after %s from %s: %s: %s' % (name, path, spec, type(e).__name__, str(e)[:500]))
    ctx.step()
    if out.dense.size == 0:
      return None
    return out

  def explore(s, path):
    if len(path) == depth:
      return
    for name in ([prefix[len(path)]] if len(path) < len(prefix) else NAMES):
      n = apply(s, name, path)
      if n is None:
        continue
      p = path + [name]
      observe(ctx, n, root, p, len(p) == depth > 2)
      if max(n.tt.get_tt_ranks().as_list()) <= MAX_RANK:
        explore(n, p)

  explore(root, [])
  lib.unchanged(ctx, root.tt, cores, 'a sequence starting with %s' % prefix)
