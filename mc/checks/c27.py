"""C27: distribution of random TT-objects.

The random number generator is the environment: every answer vector it can
give (each draw is mean + stddev or mean - stddev) is enumerated, so that mean
and variance of every entry are computed exactly instead of being estimated.
Draws enter an entry multilinearly and all paths are uncorrelated, hence
two-point draws give the same first two moments as Gaussian ones.
"""
import itertools

import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C27'
BOUND = ('ALL answers of a two-point generator (2^n, n = number of core slots per entry <= 11): tensors and matrices d<=4, ranks with '
         'n<=11 over {1,2,3}, stddev {absent,1,0.5,3}, batch sizes 1..3, glorot/he/lecun for all row and column shapes d<=3 sizes {1,2,3} and '
         'omitted rows or columns; *_with_random_cores mean {absent,0,-1,2.5} x stddev; float64 and float32')
ASSUMPTIONS = ['draws are requested through a normal generator of tf.random or numpy.random; if the implementation uses another '
               'source of randomness the moments are not decided (reported in the outcome count) and only the structure is',
               'fourth and higher moments are not specified']


class Rng(object):
  """Replaces the normal generators; answers = mean + stddev * sign."""

  def __init__(self):
    self.signs = None
    self.k = 0

  def draw(self, shape, mean=0., stddev=1., dtype=None):
    tf = lib.tf
    shape = [int(x) for x in np.array(shape).reshape(-1)]
    eps = self.answer(shape)
    return eps, mean, stddev

  def answer(self, shape):
    """sign depends on the core slot (ranks) only: every entry of the object
    sees its own complete set of draws."""
    d = self.k
    self.k += 1
    n = len(shape)
    off = 1 if self.batch else 0
    if d >= len(self.signs) or n < off + 3 or shape[off] * shape[-1] != len(self.signs[d]):
      self.foreign = True  # not one draw per core
      return np.ones(shape)
    a, b = shape[off], shape[-1]
    sg = self.signs[d].reshape((a, b))
    full = sg.reshape((1,) * off + (a,) + (1,) * (n - off - 2) + (b,))
    return np.broadcast_to(full, shape)

  def install(self):
    tf = lib.tf
    self.saved = (tf.random.normal, tf.compat.v1.random_normal, tf.random.truncated_normal)

    def normal(shape, mean=0.0, stddev=1.0, dtype=tf.float32, seed=None, name=None):
      eps, m, s = self.draw(shape, mean, stddev)
      return tf.cast(m, dtype) + tf.cast(s, dtype) * tf.constant(eps, dtype)
    tf.random.normal = normal
    tf.compat.v1.random_normal = normal

  def remove(self):
    tf = lib.tf
    tf.random.normal, tf.compat.v1.random_normal, _ = self.saved


def slots(ranks):
  return [ranks[i] * ranks[i + 1] for i in range(len(ranks) - 1)]


def cases(tier):
  deep = tier == 'thorough'
  lim = 12 if deep else 10
  out = []
  for d in (1, 2, 3, 4):
    for r in rank_choices(d, (1, 2, 3)):
      if sum(slots(r)) > lim:
        continue
      sh = [2, 1, 3, 2][:d]
      out.append(['random_tensor', sh, r, None])
      out.append(['random_matrix', [sh, [1, 2, 2, 1][:d]], r, None])
      for b in (1, 2, 3):
        if d <= 3:
          out.append(['random_tensor_batch', sh, r, b])
          out.append(['random_matrix_batch', [sh, [1, 2, 2, 1][:d]], r, b])
      if d <= 3 and sum(slots(r)) <= 8:
        out.append(['tensor_with_random_cores', sh, r, None])
        out.append(['matrix_with_random_cores', [sh, [1, 2, 2, 1][:d]], r, None])
        for b in (1, 3):
          out.append(['tensor_batch_with_random_cores', sh, r, b])
          out.append(['matrix_batch_with_random_cores', [sh, [1, 2, 2, 1][:d]], r, b])
  for fn in ('glorot_initializer', 'he_initializer', 'lecun_initializer'):
    for d in (1, 2, 3):
      for r in rank_choices(d, (1, 2)):
        for rows in itertools.product((1, 2, 3), repeat=d):
          for cols in (itertools.product((1, 2, 3), repeat=d) if d < 3 or deep else ((1, 2, 3), (3, 3, 2), (1, 1, 1))):
            if sum(slots(r)) <= 6 or (d == 3 and rows[0] != rows[2] and cols[0] == 1):
              out.append([fn, [list(rows), list(cols)], r, None])
    for d in (1, 2, 3):
      for x in itertools.product((1, 2, 3), repeat=d):
        for sh in ([list(x), None], [None, list(x)]):
          out.append([fn, sh, [1] + [2 if i == 0 else 1 for i in range(d - 1)] + [1], None])
  return out


def run(case, ctx):
  t3f, tf = lib.t3f, lib.tf
  name, shape, ranks, b = case
  ctx.state(str(case))
  fn = getattr(t3f, name)
  if 'initializer' in name:
    rows, cols = [x if x is not None else [1] * len(shape[1 - i]) for i, x in enumerate(shape)]
    n_in, n_out = int(np.prod(rows)), int(np.prod(cols))
    var = {'glorot_initializer': 2. / (n_in + n_out), 'he_initializer': 2. / n_in, 'lecun_initializer': 1. / n_in}[name]
    explore(ctx, case, fn, {}, b, lambda D: (0., var))
    explore(ctx, case, fn, {'dtype': tf.float64}, b, lambda D: (0., var))
  elif 'with_random' in name:
    for mean in (None, 0., -1., 2.5):
      for std in (None, 1., .5, 3.):
        kw = {'dtype': tf.float64}
        if mean is not None:
          kw['mean'] = mean
        if std is not None:
          kw['stddev'] = std
        explore_cores(ctx, case, fn, kw, b, 0. if mean is None else mean, 1. if std is None else std)
  else:
    for std in (None, 1., .5, 3.):
      kw = {} if std is None else {'stddev': std}
      explore(ctx, case, fn, dict(kw, dtype=tf.float64), b, lambda D: (0., 1. if std is None else std ** 2))
      if std == 3.:
        explore(ctx, case, fn, dict(kw, dtype=tf.float32), b, lambda D: (0., 9.))
        explore(ctx, case, fn, dict(kw, dtype=tf.float64, mean=0.), b, lambda D: (0., 9.))


def objects(ctx, case, fn, kw, b):
  """Yields the real object for every answer vector of the generator."""
  name, shape, ranks, _ = case
  sl = slots(ranks)
  n = sum(sl)
  kw = dict(kw, tt_rank=ranks)
  if b is not None:
    kw['batch_size'] = b
  rng = Rng()
  rng.batch = b is not None
  for bits in itertools.product((1., -1.), repeat=n):
    rng.signs = np.split(np.array(bits), np.cumsum(sl)[:-1])
    rng.k = 0
    rng.foreign = False
    rng.install()
    try:
      tt = fn(shape, **kw)
    finally:
      rng.remove()
    if rng.foreign or rng.k != len(sl):
      ctx.outcome(('another source of randomness', name))
      return
    ctx.step()
    yield tt


def explore(ctx, case, fn, kw, b, moments):
  acc = acc2 = 0.
  cnt = 0
  for tt in objects(ctx, case, fn, kw, b):
    D = lib.dense_of(tt)
    acc = acc + D
    acc2 = acc2 + D ** 2
    cnt += 1
  if not cnt:
    return
  m, v = moments(D)
  tol = 1e-8 if kw.get('dtype') == lib.tf.float64 else 1e-4
  mean, var = acc / cnt, acc2 / cnt - (acc / cnt) ** 2
  ctx.check(bool(np.all(np.abs(mean - m) <= tol * np.sqrt(v))), lambda: '%s %s: mean of an entry is %s, expected %s' % (case, kw, mean.reshape(-1)[0], m))
  ctx.check(bool(np.all(np.abs(var - v) <= tol * v)), lambda: '%s %s: variance of an entry is %s, expected %s' % (case, kw, var.reshape(-1)[0], v))
  ctx.outcome((case[0], str(case[1]), round(v, 6)))


def explore_cores(ctx, case, fn, kw, b, m, s):
  acc = acc2 = None
  cnt = 0
  for tt in objects(ctx, case, fn, kw, b):
    C = [lib.npy(c) for c in tt.tt_cores]
    acc = C if acc is None else [x + y for x, y in zip(acc, C)]
    sq = [c ** 2 for c in C]
    acc2 = sq if acc2 is None else [x + y for x, y in zip(acc2, sq)]
    cnt += 1
  if not cnt:
    return
  for x, y in zip(acc, acc2):
    mean, var = x / cnt, y / cnt - (x / cnt) ** 2
    ctx.check(lib.close(mean, np.full(mean.shape, m), tol=1e-8), lambda: '%s %s: mean of a core element is %s' % (case, kw, mean.reshape(-1)[0]))
    ctx.check(lib.close(var, np.full(var.shape, s * s), tol=1e-8), lambda: '%s %s: variance of a core element is %s' % (case, kw, var.reshape(-1)[0]))
