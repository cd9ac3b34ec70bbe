"""Reference model (dense NumPy arrays) and glue to the code under test.

A *spec* describes the structure of a TT-object, a JSON list
    [kind, shape, ranks, batch]
  kind   't' (tensor) or 'm' (matrix)
  shape  [n1..nd] for tensors, [[n1..nd], [m1..md]] for matrices
  ranks  [1, r1, .., 1]
  batch  null for a single object, or the number of objects.
The *reference model* of an object is its dense array: (batch,) + shape for
tensors, (batch,) + (N, M) for matrices.
"""
import functools
import importlib.abc
import importlib.machinery
import itertools
import os
import sys
import warnings

import numpy as np

REPO = '/repo'
tf = None
t3f = None

TOL = {'float64': 1e-10, 'float32': 2e-4, 'int32': 0., 'int64': 0.,
       'float16': 2e-2, 'complex64': 2e-4, 'complex128': 1e-10}


class _FreshLoader(importlib.machinery.SourceFileLoader):
  """Always compiles the source file: bytecode caches are never consulted."""

  def get_code(self, fullname):
    return self.source_to_code(self.get_data(self.path), self.path)


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, name, path, target=None):
    if name != 't3f' and not name.startswith('t3f.'):
      return None
    spec = importlib.machinery.PathFinder.find_spec(
        name, [REPO] if name == 't3f' else path)
    if spec is not None and spec.origin and spec.origin.endswith('.py'):
      spec.loader = _FreshLoader(name, spec.origin)
    return spec


def setup():
  """Imports TensorFlow and the working tree of /repo, once per process."""
  global tf, t3f
  if t3f is not None:
    return
  warnings.filterwarnings('ignore')
  sys.dont_write_bytecode = True
  import tensorflow as _tf
  _tf.config.threading.set_intra_op_parallelism_threads(1)
  _tf.config.threading.set_inter_op_parallelism_threads(1)
  _tf.get_logger().setLevel('ERROR')
  _tf.random.set_seed(1)
  sys.meta_path.insert(0, _Finder())
  import t3f as _t3f
  assert _t3f.__file__.startswith(REPO + '/'), _t3f.__file__
  tf, t3f = _tf, _t3f


# ----------------------------------------------------------------- specs

def spec_t(shape, ranks, batch=None):
  return ['t', list(shape), list(ranks), batch]


def spec_m(rows, cols, ranks, batch=None):
  return ['m', [list(rows), list(cols)], list(ranks), batch]


def with_batch(spec, batch):
  return [spec[0], spec[1], spec[2], batch]


def with_ranks(spec, ranks):
  return [spec[0], spec[1], list(ranks), spec[3]]


def ndims(spec):
  return len(spec[2]) - 1


def modes(spec):
  """Per-core tuple of mode sizes."""
  if spec[0] == 't':
    return [(n,) for n in spec[1]]
  return list(zip(spec[1][0], spec[1][1]))


def raw_shape(spec):
  return [list(spec[1])] if spec[0] == 't' else [list(spec[1][0]), list(spec[1][1])]


def dense_shape(spec):
  s = tuple(spec[1]) if spec[0] == 't' else (int(np.prod(spec[1][0])), int(np.prod(spec[1][1])))
  return s if spec[3] is None else (spec[3],) + s


def core_shapes(spec):
  r = spec[2]
  b = () if spec[3] is None else (spec[3],)
  return [b + (r[i],) + tuple(m) + (r[i + 1],) for i, m in enumerate(modes(spec))]


def rank_choices(d, values):
  """All TT-rank vectors of length d + 1 with inner ranks from values."""
  return [[1] + list(p) + [1] for p in itertools.product(values, repeat=d - 1)]


def max_ranks(spec):
  """Largest achievable TT-ranks for the shape of the spec."""
  m = [int(np.prod(x)) for x in modes(spec)]
  d = len(m)
  return [min(int(np.prod(m[:i], dtype=object)), int(np.prod(m[i:], dtype=object))) for i in range(d + 1)]


def clip_ranks(spec):
  """Reduces the ranks until r_k <= r_{k-1} n_k and r_k <= n_{k+1} r_{k+1}."""
  m = [int(np.prod(x)) for x in modes(spec)]
  r = list(spec[2])
  d = len(m)
  for i in range(1, d):
    r[i] = min(r[i], r[i - 1] * m[i - 1])
  for i in range(d - 1, 0, -1):
    r[i] = min(r[i], r[i + 1] * m[i])
  return with_ranks(spec, r)


def is_clipped(spec):
  return clip_ranks(spec)[2] == list(spec[2])


# ----------------------------------------------------------------- values

_LCG_M = (1 << 61) - 1


def lcg(n, salt):
  """n deterministic integers in [0, 2**31); no randomness anywhere."""
  idx = np.arange(1, n + 1, dtype=np.uint64)
  x = idx * np.uint64(0x9E3779B97F4A7C15) + np.uint64((salt * 0xD1B54A32D192ED03 + 0x632BE59BD9B4E019) & 0xFFFFFFFFFFFFFFFF)
  x ^= x >> np.uint64(30)
  x *= np.uint64(0xBF58476D1CE4E5B9)
  x ^= x >> np.uint64(27)
  x *= np.uint64(0x94D049BB133111EB)
  x ^= x >> np.uint64(31)
  return (x >> np.uint64(33)).astype(np.int64)


def ints(shape, salt, lo=-2, hi=2):
  """Small integers: polynomial identities become exact comparisons."""
  n = int(np.prod(shape))
  v = lcg(n, salt) % (hi - lo + 1) + lo
  return v.reshape(shape).astype(np.float64)


def reals(shape, salt):
  n = int(np.prod(shape))
  v = lcg(n, salt).astype(np.float64) / float(1 << 31)
  return (2 * v - 1).reshape(shape) + 0.0


def fill(shape, salt, kind='i'):
  if kind == 'i':
    return ints(shape, salt)
  if kind == 'r':
    return reals(shape, salt)
  if kind == 'z':
    return np.zeros(shape)
  if kind == 'o':
    return np.ones(shape)
  if kind == 'p':  # positive
    return np.abs(reals(shape, salt)) + 0.25
  raise AssertionError(kind)


VARIANTS = ('i', 'i+tiny', 'i+huge', 'i+unbalanced', 'i+variable', 'z')


def rescale(cores, special):
  """Applies what is special about an object to its cores, in place."""
  if special == 'tiny':
    cores[len(cores) // 2] *= 2. ** -40
  elif special == 'huge':
    cores[-1] *= 2. ** 40
  elif special == 'unbalanced' and len(cores) > 1:
    cores[0] *= 2. ** 30
    cores[-1] *= 2. ** -30
  return cores


def special_scale(kind):
  """The number by which rescale() multiplies the dense value."""
  return {'tiny': 2. ** -40, 'huge': 2. ** 40}.get(kind.partition('+')[2], 1.)


def np_cores(spec, salt=0, kind='i'):
  """kind: a kind of fill() and, after '+', what is special about the object.

  The factors are powers of two: the values stay exact in every float type.
  """
  kind, _, special = kind.partition('+')
  cores = [fill(s, salt * 101 + i * 7 + 3, kind) for i, s in enumerate(core_shapes(spec))]
  return rescale(cores, special)


def typed(cores, dtype, salt):
  """The cores as the dtype can hold them; complex ones get imaginary parts."""
  if dtype == 'float32':
    return [c.astype(np.float32).astype(np.float64) for c in cores]
  if dtype in ('complex64', 'complex128'):
    return [c + 1j * ints(c.shape, salt * 103 + i * 5 + 1) for i, c in enumerate(cores)]
  return cores


def wide(x):
  """The array in double precision, real or complex as it is."""
  x = np.asarray(x)
  return x.astype(np.complex128 if x.dtype.kind == 'c' else np.float64, copy=False)


def core_scale(*all_cores):
  """Product of the norms of the cores: what rounding errors are relative to."""
  return float(np.prod([np.sqrt(np.sum(np.abs(wide(c)) ** 2)) for cores in all_cores for c in cores]))


def np_dense(cores, is_matrix, is_batch):
  """Dense array of a TT-object: the reference model's only definition."""
  cores = [wide(c) for c in cores]
  if is_batch:
    return np.stack([np_dense([c[i] for c in cores], is_matrix, False)
                     for i in range(cores[0].shape[0])]) if cores[0].shape[0] else \
        np.zeros((0,))
  res = cores[0].reshape(-1, cores[0].shape[-1])
  for c in cores[1:]:
    res = res.dot(c.reshape(c.shape[0], -1)).reshape(-1, c.shape[-1])
  if not is_matrix:
    return res.reshape([c.shape[1] for c in cores])
  d = len(cores)
  full = []
  for c in cores:
    full += [c.shape[1], c.shape[2]]
  res = res.reshape(full).transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
  n = int(np.prod([c.shape[1] for c in cores]))
  return res.reshape(n, -1)


def tf_dtype(name):
  return getattr(tf, name)


def build(spec, cores, dtype='float64', explicit=False, variable=False):
  """Real TT-object from NumPy cores."""
  if variable:
    cores = [tf.Variable(c, dtype=tf_dtype(dtype)) for c in cores]
    if spec[3] is None:
      return t3f.TensorTrain(cores, raw_shape(spec), spec[2], convert_to_tensors=False)
    return t3f.TensorTrainBatch(cores, raw_shape(spec), spec[2], spec[3], convert_to_tensors=False)
  cores = [tf.constant(c, dtype=tf_dtype(dtype)) for c in cores]
  if spec[3] is None:
    if explicit:
      return t3f.TensorTrain(cores, raw_shape_arg(spec), spec[2])
    return t3f.TensorTrain(cores)
  if explicit:
    return t3f.TensorTrainBatch(cores, raw_shape_arg(spec), spec[2], spec[3])
  return t3f.TensorTrainBatch(cores)


def raw_shape_arg(spec):
  return spec[1]


@functools.lru_cache(maxsize=6000)
def _make(key, salt, kind, dtype):
  spec = _unfreeze(key)
  cores = np_cores(spec, salt, kind)
  cores = typed(cores, dtype, salt)
  dense = np_dense(cores, spec[0] == 'm', spec[3] is not None)
  dense.setflags(write=False)
  for c in cores:
    c.setflags(write=False)
  return build(spec, cores, dtype, variable=kind.endswith('+variable')), dense, cores


def _freeze(x):
  return tuple(_freeze(i) for i in x) if isinstance(x, (list, tuple)) else x


def _unfreeze(x):
  return [_unfreeze(i) for i in x] if isinstance(x, tuple) else x


def make(spec, salt=0, kind='i', dtype='float64', fresh=False):
  """(real object, dense reference, NumPy cores), cached per structure."""
  if fresh:
    spec = _unfreeze(_freeze(spec))
    cores = np_cores(spec, salt, kind)
    cores = typed(cores, dtype, salt)
    return build(spec, cores, dtype, variable=kind.endswith('+variable')), \
        np_dense(cores, spec[0] == 'm', spec[3] is not None), cores
  if not tf.executing_eagerly():  # an object of a graph must not outlive it
    return _make.__wrapped__(_freeze(spec), salt, kind, dtype)
  return _make(_freeze(spec), salt, kind, dtype)


# ------------------------------------------------------------ observation

def npy(x):
  """NumPy value of a tensor (float64 for comparisons)."""
  if hasattr(x, 'numpy'):
    x = x.numpy()
  return np.asarray(x)


def is_batch(tt):
  return isinstance(tt, t3f.TensorTrainBatch)


def dense_of(tt):
  cores = [npy(c) for c in tt.tt_cores]
  b = is_batch(tt)
  is_matrix = cores[0].ndim - (1 if b else 0) == 4
  return np_dense(cores, is_matrix, b)


def close(actual, expected, dtype='float64', tol=None, scale=None):
  actual = wide(actual)
  expected = wide(expected)
  if actual.shape != expected.shape:
    return False
  if actual.size == 0:
    return True
  tol = TOL[dtype] if tol is None else tol
  s = max(1e-300, float(np.max(np.abs(expected)))) if scale is None else scale
  s = max(s, float(np.max(np.abs(expected))))
  if scale is None:
    s = max(s, 1.)
  d = np.abs(actual - expected)
  return bool(np.all(d <= tol * s))  # False on NaN


def describe(a, e):
  a, e = np.asarray(a), np.asarray(e)
  msg = 'got shape %s, expected shape %s' % (a.shape, e.shape)
  if a.shape == e.shape and a.size:
    d = np.abs(wide(a) - wide(e))
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    msg += '; worst at %s: got %r, expected %r' % (tuple(int(x) for x in i), wide(a)[i], wide(e)[i])
  return msg


def expect_value(ctx, x, expected, what, dtype='float64', tol=None, scale=None,
                 check_dtype=True):
  """A dense result (tf.Tensor) must equal the expected array."""
  if check_dtype and hasattr(x, 'dtype'):
    got = tf.as_dtype(x.dtype).name
    ctx.check(got == dtype, lambda: '%s: dtype %s, expected %s' % (what, got, dtype))
  a = npy(x)
  ctx.check(close(a, expected, dtype, tol, scale),
            lambda: '%s: %s' % (what, describe(a, expected)))
  ctx.outcome((what.split('(')[0], a.shape, round(float(np.sum(a).real), 3) if a.size else 0.))
  return a


def expect_tt(ctx, tt, expected, spec, what, dtype='float64', tol=None,
              max_ranks=None, scale=None, value=True):
  """A TT result: type, metadata, internal consistency and dense value.

  spec: [kind, shape, ranks-or-None, batch]; ranks are not compared unless
  max_ranks is given (then they are upper bounds).
  """
  kind, _, _, batch = spec
  want_type = t3f.TensorTrain if batch is None else t3f.TensorTrainBatch
  ctx.check(isinstance(tt, want_type), lambda: '%s: result is %s, expected %s' % (
      what, type(tt).__name__, want_type.__name__))
  ctx.check(tt.is_tt_matrix() == (kind == 'm'), '%s: tensor/matrix kind is wrong' % what)
  meta = check_meta(ctx, tt, what)
  rs = raw_shape(spec)
  ctx.check(meta['raw_shape'] == rs, lambda: '%s: raw shape %s, expected %s' % (
      what, meta['raw_shape'], rs))
  if batch is not None:
    ctx.check(meta['batch'] == batch, lambda: '%s: batch size %s, expected %s' % (
        what, meta['batch'], batch))
  ctx.check(meta['dtype'] == dtype, lambda: '%s: dtype %s, expected %s' % (
      what, meta['dtype'], dtype))
  if max_ranks is not None:
    ctx.check(len(meta['ranks']) == len(max_ranks) and
              all(r <= m for r, m in zip(meta['ranks'], max_ranks)),
              lambda: '%s: TT-ranks %s exceed %s' % (what, meta['ranks'], list(max_ranks)))
  if value:
    a = dense_of(tt)
    ctx.check(close(a, expected, dtype, tol, scale),
              lambda: '%s: %s' % (what, describe(a, expected)))
    ctx.outcome((what.split('(')[0], tuple(meta['ranks']), a.shape, round(float(np.sum(a).real), 3)))
  ctx.state(('o', kind, str(rs), str(meta['ranks']), batch, dtype))
  return meta


def check_meta(ctx, tt, what):
  """Static metadata must agree with the data it describes (eager object)."""
  b = is_batch(tt)
  cores = tt.tt_cores
  d = len(cores)
  ctx.check(isinstance(cores, tuple) and d >= 1, '%s: tt_cores is not a tuple' % what)
  ctx.check(tt.ndims() == d, '%s: ndims() != number of TT-cores' % what)
  shapes = [tuple(int(x) for x in c.shape) for c in cores]
  off = 1 if b else 0
  nax = len(shapes[0]) - off
  ctx.check(nax in (3, 4) and all(len(s) == len(shapes[0]) for s in shapes),
            lambda: '%s: bad number of core axes %s' % (what, shapes))
  ranks = [s[off] for s in shapes] + [shapes[-1][-1]]
  for i in range(d - 1):
    ctx.check(shapes[i][-1] == shapes[i + 1][off],
              lambda: '%s: neighbouring TT-ranks differ %s' % (what, shapes))
  ctx.check(ranks[0] == 1 and ranks[-1] == 1, '%s: boundary TT-rank is not 1' % what)
  raw = [[s[off + 1 + k] for s in shapes] for k in range(nax - 2)]
  ctx.check(tt.is_tt_matrix() == (nax == 4), '%s: is_tt_matrix() is wrong' % what)
  static_raw = [s.as_list() for s in tt.get_raw_shape()]
  ctx.check(static_raw == raw, lambda: '%s: get_raw_shape() %s, cores say %s' % (
      what, static_raw, raw))
  static_ranks = tt.get_tt_ranks().as_list()
  ctx.check(static_ranks == ranks, lambda: '%s: get_tt_ranks() %s, cores say %s' % (
      what, static_ranks, ranks))
  want = [int(np.prod(r, dtype=object)) for r in raw] if nax == 4 else raw[0]
  bs = None
  if b:
    bs = shapes[0][0]
    ctx.check(all(s[0] == bs for s in shapes), '%s: cores disagree on batch size' % what)
    ctx.check(tt.batch_size == bs, lambda: '%s: batch_size %s, cores say %s' % (
        what, tt.batch_size, bs))
    want = [bs] + want
  got = tt.get_shape().as_list()
  ctx.check(got == want, lambda: '%s: get_shape() %s, expected %s' % (what, got, want))
  dts = {tf.as_dtype(c.dtype).name for c in cores}
  ctx.check(len(dts) == 1, '%s: cores have different dtypes' % what)
  name = tf.as_dtype(tt.dtype).base_dtype.name
  ctx.check({name} == {n.replace('_ref', '') for n in dts}, '%s: dtype is wrong' % what)
  return {'raw_shape': raw, 'ranks': ranks, 'batch': bs, 'dtype': name}


def expect_raises(ctx, fn, what, exc=Exception):
  """fn() must raise; returning anything is a silently wrong answer."""
  try:
    r = fn()
  except exc as e:
    ctx.outcome((what, type(e).__name__))
    return e
  except Exception as e:
    ctx.fail('%s: raised %s (%s), expected %s' % (what, type(e).__name__, str(e)[:200], exc))
  ctx.fail('%s: was accepted and returned %s' % (what, str(r)[:300]))


def unchanged(ctx, tt, cores, what):
  """The operand still has the values it was built from."""
  for c, ref in zip(tt.tt_cores, cores):
    ctx.check(np.array_equal(wide(npy(c)), ref), '%s changed its operand' % what)


# -------------------------------------------------- common spaces of specs

def small_tensors(ds=(1, 2, 3), mode_values=(1, 2, 3), rank_values=(1, 2, 3)):
  out = []
  for d in ds:
    for shape in itertools.product(mode_values, repeat=d):
      for r in rank_choices(d, rank_values):
        out.append(spec_t(shape, r))
  return out


def mode_pairs(values):
  return list(itertools.product(values, repeat=2))


def small_matrices(ds=(1, 2, 3), pairs=((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)),
                   rank_values=(1, 2)):
  out = []
  for d in ds:
    for ms in itertools.product(pairs, repeat=d):
      for r in rank_choices(d, rank_values):
        out.append(spec_m([m[0] for m in ms], [m[1] for m in ms], r))
  return out


def axial_tensors():
  """One axis at a time far beyond the small product."""
  out = []
  for d in range(4, 9):
    out.append(spec_t([2] * d, [1] + [2] * (d - 1) + [1]))
    out.append(spec_t([2, 1, 3, 2, 1, 2, 2, 3][:d], [1] + [2, 3, 1, 2, 4, 2, 3][:d - 1] + [1]))
    out.append(spec_t([3, 2, 1, 2, 2, 1, 2, 2][:d], [1] + [3, 4, 5, 3, 2, 1, 2][:d - 1] + [1]))
  for n in (4, 5, 6, 7, 8, 10, 12, 16):
    for pos in range(3):
      s = [2, 3, 2]
      s[pos] = n
      out.append(spec_t(s, [1, 2, 3, 1]))
    out.append(spec_t([n, n], [1, 2, 1]))
  for r in (4, 5, 6, 7, 8, 9, 12):
    out.append(spec_t([2, 3, 2], [1, r, 2, 1]))
    out.append(spec_t([3, 2, 4], [1, 2, r, 1]))
    out.append(spec_t([3, 3, 3], [1, r, r, 1]))
    out.append(spec_t([4, 5], [1, r, 1]))
  out += [spec_t([2] * 9, [1] + [2] * 8 + [1]), spec_t([2] * 10, [1] + [2] * 9 + [1]), spec_t([2, 1] * 6, [1] + [2, 2, 1, 2, 3, 2, 2, 1, 2, 2, 2] + [1]),
          spec_t([33, 2], [1, 2, 1]), spec_t([2, 33], [1, 2, 1]), spec_t([40], [1, 1]), spec_t([2, 20, 2], [1, 2, 2, 1]), spec_t([2, 2, 24], [1, 2, 3, 1]),
          spec_t([4, 5], [1, 17, 1]), spec_t([2, 3, 2], [1, 16, 20, 1]), spec_t([2, 3], [1, 33, 1])]
  return out


def axial_matrices():
  out = []
  for d in range(3, 7):
    out.append(spec_m([2] * d, [2] * d, [1] + [2] * (d - 1) + [1]))
    out.append(spec_m([2, 1, 3, 2, 1, 2][:d], [1, 2, 2, 1, 3, 2][:d], [1] + [2, 3, 1, 2, 4][:d - 1] + [1]))
  for n in (4, 5, 6, 8, 10):
    out.append(spec_m([n, 2, 2], [2, 3, 1], [1, 2, 3, 1]))
    out.append(spec_m([2, 3], [2, n], [1, 3, 1]))
    out.append(spec_m([n, n], [n, n], [1, 2, 1]))
    out.append(spec_m([2, 3, n], [n, 1, 2], [1, 2, 2, 1]))
  for r in (4, 5, 6, 8, 9):
    out.append(spec_m([2, 3, 2], [3, 2, 1], [1, r, 2, 1]))
    out.append(spec_m([2, 2], [3, 2], [1, r, 1]))
    out.append(spec_m([1, 3, 2], [2, 2, 2], [1, 3, r, 1]))
  out += [spec_m([2, 1, 1, 2, 1, 2, 1], [1, 2, 1, 2, 1, 1, 2], [1, 2, 2, 1, 2, 3, 2, 1]), spec_m([2] * 8, [1] * 8, [1] + [2] * 7 + [1]),
          spec_m([1] * 9, [2, 1, 2, 1, 2, 1, 2, 2, 2], [1] + [2] * 8 + [1]), spec_m([33, 2], [2, 1], [1, 2, 1]), spec_m([2], [40], [1, 1]),
          spec_m([2, 1], [3, 20], [1, 2, 1]), spec_m([2, 2], [3, 2], [1, 17, 1]), spec_m([2, 2, 1], [1, 2, 3], [1, 16, 12, 1])]
  return out


def far_batches():
  """(spec, batch size) with batches far beyond the small product."""
  specs = [spec_t([3], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([2, 1, 3], [1, 2, 2, 1]), spec_t([3, 2, 2, 2], [1, 2, 3, 2, 1]),
           spec_m([2], [3], [1, 1]), spec_m([2, 3], [3, 2], [1, 2, 1]), spec_m([2, 1, 2], [1, 3, 2], [1, 2, 3, 1])]
  return [(s, b) for s in specs for b in (6, 7, 8, 10, 16, 17, 33, 64)]


def special_specs():
  """A few structures combined with every entry of VARIANTS."""
  return [spec_t([3], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([2, 1, 3], [1, 2, 3, 1]),
          spec_t([2, 3, 2, 2], [1, 2, 3, 2, 1]), spec_m([2], [3], [1, 1]), spec_m([2, 3], [3, 1], [1, 2, 1]),
          spec_m([2, 1, 2], [1, 3, 2], [1, 2, 3, 1])]


def uniq(items):
  seen, out = set(), []
  for i in items:
    k = _freeze(i)
    if k not in seen:
      seen.add(k)
      out.append(i)
  return out


# ------------------------------------------------ low-rank approximation oracle

def full_caps(cap, d):
  """Cap argument -> list of d+1 numbers (inf = unrestricted)."""
  if cap is None:
    return [np.inf] * (d + 1)
  if isinstance(cap, (list, tuple)):
    return [np.inf if c is None else c for c in cap]
  return [cap] * (d + 1)


def interleave(dense, spec):
  """Dense single object -> d-way array with merged row/column modes."""
  if spec[0] == 't':
    return dense.reshape(spec[1])
  rows, cols = spec[1]
  d = len(rows)
  x = dense.reshape(list(rows) + list(cols))
  perm = [i for k in range(d) for i in (k, d + k)]
  return x.transpose(perm).reshape([r * c for r, c in zip(rows, cols)])


def tails(arr, caps):
  """Square root of the sum over the unfoldings of the squared singular
  values that ranks `caps` cut off: the TT-SVD quality guarantee."""
  tot = 0.
  d = arr.ndim
  for k in range(1, d):
    s = np.linalg.svd(arr.reshape(int(np.prod(arr.shape[:k])), -1), compute_uv=False)
    c = caps[k]
    if c < len(s):
      tot += float(np.sum(s[int(c):] ** 2))
  return np.sqrt(tot)


def expect_quasi_optimal(ctx, got, dense, spec, caps, what, dtype='float64', scale=None):
  """Single dense objects: error within the TT-SVD bound."""
  a = interleave(np.asarray(dense, np.float64), spec)
  err = float(np.linalg.norm(np.asarray(got, np.float64) - dense))
  nrm = max(float(np.linalg.norm(dense)), 0. if scale is None else scale)
  bound = tails(a, caps) * (1 + (1e-7 if dtype == 'float64' else 1e-3)) + \
      (1e-10 if dtype == 'float64' else 1e-4) * max(nrm, 1e-6)
  ctx.check(err <= bound, lambda: '%s: error %g exceeds the guarantee %g (norm %g)' % (what, err, bound, nrm))
  ctx.outcome((what.split('(')[0], round(err, 4)))


# ------------------------------------------------------ tangent-space oracle

def jacobian(cores, is_matrix):
  """Columns: the dense array with one core replaced by an elementary one."""
  cols = []
  for k, c in enumerate(cores):
    left = np.ones((1, 1))
    for x in cores[:k]:
      left = np.tensordot(left, x, (1, 0)).reshape(-1, x.shape[-1])
    right = np.ones((1, 1))
    for x in cores[k + 1:][::-1]:
      right = np.tensordot(x, right, (x.ndim - 1, 0)).reshape(x.shape[0], -1)
    n = int(np.prod(c.shape[1:-1]))
    # (L, r) x I_n x (s, R): all elementary cores at once
    J = np.einsum('lr,xy,sR->lxRrys', left, np.eye(n), right)
    cols.append(J.reshape(left.shape[0] * n * right.shape[1], -1))
  J = np.concatenate(cols, 1)  # rows are interleaved row/column modes
  if not is_matrix:
    return J
  d = len(cores)
  full = [m for c in cores for m in c.shape[1:3]]
  perm = list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)) + [2 * d]
  m = J.shape[1]
  return J.reshape(full + [m]).transpose(perm).reshape(-1, m)


def manifold_dim(spec):
  r = spec[2]
  return sum(r[i] * int(np.prod(m)) * r[i + 1] for i, m in enumerate(modes(spec))) - \
      sum(x * x for x in r[1:-1])


@functools.lru_cache(maxsize=400)
def _point(key, dtype, salt):
  spec = _unfreeze(key)
  best = None
  for k in range(12):
    cores = np_cores(spec, 900 + salt * 40 + k, 'r')
    if dtype == 'float32':
      cores = [c.astype(np.float32).astype(np.float64) for c in cores]
    J = jacobian(cores, spec[0] == 'm')
    u, s, _ = np.linalg.svd(J, full_matrices=False)
    dim = manifold_dim(spec)
    cond = s[0] / max(s[dim - 1], 1e-300)
    if best is None or cond < best[0]:
      best = (cond, cores, u[:, :dim], s, dim)
    if cond < 20:
      break
  cond, cores, U, s, dim = best
  assert dim == len(s) or s[dim] < 1e-9 * s[0], (spec, s)
  assert cond < 1e5, (spec, cond)
  for c in cores:
    c.setflags(write=False)
  return cores, U, cond


def point(spec, dtype='float64', salt=0):
  """(object, dense, cores, orthonormal basis of its tangent space): a well
  conditioned point whose TT-ranks are exactly those of the spec."""
  cores, U, cond = _point(_freeze(spec), dtype, salt)
  return build(spec, cores, dtype), np_dense(cores, spec[0] == 'm', False), cores, U


def special_point(spec, kind, dtype='float64', salt=0):
  """point() rescaled or held in variables; the tangent space is the same."""
  cores, U, cond = _point(_freeze(spec), dtype, salt)
  cores = rescale([np.array(c) for c in cores], kind.partition('+')[2])
  return build(spec, cores, dtype, variable=kind.endswith('+variable')), np_dense(cores, spec[0] == 'm', False), cores, U


def special_points():
  return [spec_t([2, 3], [1, 2, 1]), spec_t([3, 2, 3], [1, 2, 2, 1]), spec_t([2, 3, 2, 2], [1, 2, 3, 2, 1]),
          spec_m([2, 2], [2, 1], [1, 2, 1]), spec_m([2, 1, 2], [2, 3, 1], [1, 3, 2, 1])]


def elementary(spec):
  """Cores of the batch of all elementary arrays (standard basis order of
  dense_shape) as rank-1 TT-objects."""
  ms = modes(spec)
  shp = dense_shape(with_batch(spec, None))
  n = int(np.prod(shp))
  d = len(ms)
  if spec[0] == 't':
    idx = np.array(list(np.ndindex(*spec[1]))).reshape(n, d)
    out = []
    for k in range(d):
      c = np.zeros((n, 1, spec[1][k], 1))
      c[np.arange(n), 0, idx[:, k], 0] = 1
      out.append(c)
    return out
  rows = np.array(list(np.ndindex(*spec[1][0])))
  cols = np.array(list(np.ndindex(*spec[1][1])))
  ij = np.array(list(np.ndindex(*shp)))
  out = []
  for k in range(d):
    c = np.zeros((n, 1, spec[1][0][k], spec[1][1][k], 1))
    c[np.arange(n), 0, rows[ij[:, 0], k], cols[ij[:, 1], k], 0] = 1
    out.append(c)
  return out


def origin_specs():
  return [spec_t([3, 3], [1, 1, 1]), spec_t([3, 2, 3], [1, 1, 1, 1]), spec_t([2, 3, 3, 2], [1, 1, 1, 1, 1]),
          spec_m([2, 3], [2, 2], [1, 1, 1]), spec_m([2, 2, 2], [2, 1, 2], [1, 1, 1, 1])]


def origins(s, batch, salt=0):
  return _origins(_freeze(s), batch, salt)


def origin_points(s):
  """(name, object, basis of the tangent space) of the usable origins."""
  return _origin_points(_freeze(s))


@functools.lru_cache(maxsize=50)
def _origin_points(s):
  out = [(n, w, tangent_basis(w)) for n, w in _origins(s, None, 1)]
  return [p for p in out if p[2] is not None]


@functools.lru_cache(maxsize=50)
def _origins(s, batch, salt):
  """(name, object): results of other operations as operands, all of one shape.

  batch: None for single objects; otherwise batches of that size.
  """
  s = _unfreeze(s)
  d = ndims(s)
  two = with_ranks(s, [1] + [2] * (d - 1) + [1])
  mk = lambda sp, k, b=batch: make(with_batch(sp, b), 900 + salt + k, 'r')[0]
  a, b, c = mk(two, 1), mk(s, 2), mk(s, 3)
  q, q2 = point(s, 'float64', 1 + salt)[0], point(s, 'float64', 2 + salt)[0]
  tang = t3f.project(a, q)
  out = [('plain', a), ('project', tang), ('project twice', t3f.project(tang, q)), ('project elsewhere', t3f.project(tang, q2)),
         ('add_n_projected', t3f.add_n_projected([tang, t3f.project(b, q)])), ('scaled tangent', 2. * tang),
         ('sum of tangents', tang + 0. * tang), ('rounded tangent', t3f.round(tang, 2)), ('round', t3f.round(a + b, 2)),
         ('sum', b + c), ('product', a * b), ('negative', -a), ('orthogonalized', t3f.orthogonalize_tt_cores(a)),
         ('renormalized', t3f.renormalize_tt_cores(a)), ('cast', t3f.cast(t3f.cast(a, tf.float32), tf.float64)),
         ('from deltas', t3f_riemannian().deltas_to_tangent_space(t3f.tangent_space_to_deltas(tang), q)),
         ('variable', t3f.get_variable('origin', initializer=a)),
         ('variable from tangent', t3f.get_variable('origin', initializer=tang))]
  if batch != 1:
    out.append(('project_sum', t3f.project_sum(mk(two, 4, 2), q, [1., -2.] if batch is None else ints((2, batch), 5, 1, 3))))
  if batch is None:
    big = mk(two, 6, 3)
    out += [('element of a batch', big[1]), ('element of a tangent batch', t3f.project(big, q)[1]),
            ('squeezed', t3f.squeeze_batch_dim(mk(two, 7, 1))), ('right orthogonalized', t3f.orthogonalize_tt_cores(a, left_to_right=False)),
            ('gradient', t3f.gradients(lambda x: t3f.flat_inner(x, a) ** 2, q, runtime_check=False)),
            ('add_n', t3f.approximate.add_n([b, c], 2)), ('reduce_sum_batch', t3f.approximate.reduce_sum_batch(mk(s, 8, 3), 2)),
            ('from dense', t3f.to_tt_tensor(t3f.full(a), max_tt_rank=2) if s[0] == 't' else
             t3f.to_tt_matrix(t3f.full(a), s[1], max_tt_rank=2))]
  else:
    out += [('part of a batch', mk(two, 6, batch + 2)[1:batch + 1]), ('part of a tangent batch', t3f.project(mk(two, 6, batch + 2), q)[1:batch + 1]),
            ('concatenated', t3f.concat_along_batch_dim([t3f.project(mk(two, 6, 1), q), t3f.project(mk(two, 7, batch - 1), q)]) if batch > 1 else a),
            ('weighted', t3f.multiply_along_batch_dim(tang, np.arange(1., batch + 1)))]
    if batch == 1:
      out.append(('expanded', t3f.expand_batch_dim(t3f.project(mk(two, 1, None), q))))
  if s[0] == 'm':
    m = make(spec_m(s[1][0], s[1][0], [1] * (d + 1)), 950 + salt, 'r')[0]
    out += [('transposed', t3f.transpose(t3f.transpose(a))), ('matmul', t3f.matmul(m, a)), ('project_matmul', t3f.project_matmul(a, q, m))]
  return out


def tangent_basis(tt):
  """Orthonormal basis of the tangent space at the object; None if its
  TT-ranks are not minimal (numerically) and there is no tangent space."""
  cores = [np.asarray(npy(c), np.float64) for c in tt.tt_cores]
  r = [c.shape[0] for c in cores] + [1]
  for k in range(1, len(cores)):
    left = right = np.ones((1, 1))
    for c in cores[:k]:
      left = np.tensordot(left, c, (-1, 0)).reshape(-1, c.shape[-1])
    for c in cores[k:][::-1]:
      right = np.tensordot(c, right, (-1, 0)).reshape(c.shape[0], -1)
    sv = np.linalg.svd(left.dot(right), compute_uv=False)
    if r[k] > len(sv) or sv[r[k] - 1] < 1e-4 * sv[0]:
      return None
  dim = sum(c.size for c in cores) - sum(x * x for x in r[1:-1])
  U, sv, _ = np.linalg.svd(jacobian(cores, cores[0].ndim == 4), full_matrices=False)
  if dim > len(sv) or sv[dim - 1] < 1e-4 * sv[0]:
    return None
  return U[:, :dim]


def t3f_riemannian():
  import importlib
  return importlib.import_module('t3f.riemannian')
