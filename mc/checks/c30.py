"""C30: an operation on a batch is the operation on each of its objects."""
import numpy as np

from mc import contexts
from mc import lib
from mc.lib import spec_t, spec_m
from mc.checks import c21

ID = 'C30'
BOUND = ('41 operations x tensors and matrices with d = 1..5 (modes to 8, ranks to 5) x batch sizes 1, 2, 3, 5, 8, 17, 33 (4, 9, 64) x every assignment of single object, batch of one and batch to '
         'the operands x objects of similar size, one zero, one 2^60 times larger at each position, all objects equal')
BOUND += contexts.BOUND
ASSUMPTIONS = ['the operation on single objects is right (decided by the other properties)']

TENSORS = [spec_t([3], [1, 1]), spec_t([1], [1, 1]), spec_t([2, 3], [1, 2, 1]), spec_t([4, 4], [1, 3, 1]), spec_t([2, 3, 2], [1, 2, 2, 1]), spec_t([3, 1, 2], [1, 3, 1, 1]),
           spec_t([2, 2, 2, 2], [1, 2, 3, 2, 1]), spec_t([2, 2, 2, 2, 2], [1, 1, 2, 2, 2, 1]), spec_t([8, 6], [1, 5, 1])]
MATRICES = [spec_m([2], [3], [1, 1]), spec_m([2, 3], [3, 2], [1, 2, 1]), spec_m([2, 2], [2, 2], [1, 3, 1]), spec_m([2, 1, 2], [1, 3, 2], [1, 2, 3, 1]), spec_m([2, 2, 2, 2], [1, 2, 1, 2], [1, 2, 2, 2, 1]),
            spec_m([3, 2], [1, 1], [1, 2, 1])]

# name -> (kinds, number of operands that may be batches)
OPS = {}
for _n in ('full', 'neg', 'scaled', 'norm squared', 'norm', 'norm diff', 'norm squared diff', 'orthogonalize', 'cast', 'round none', 'round 1', 'round 2', 'round caps', 'renormalize',
           'expand'):
  OPS[_n] = ('tm', 1)
for _n in ('gather', 'slice first', 'slice last', 'slice range', 'slice all'):
  OPS[_n] = ('t', 1)
OPS['transpose'] = ('m', 1)
for _n in ('determinant', 'slog', 'inv', 'cholesky'):
  OPS[_n] = ('k', 1)
for _n in ('add', 'subtract', 'multiply', 'flat_inner'):
  OPS[_n] = ('tm', 2)
for _n in ('matmul', 'bilinear', 'bilinear two'):
  OPS[_n] = ('m', 2)
for _n in ('project', 'project sum', 'pairwise', 'pairwise projected', 'concat', 'along batch', 'reduce sum'):
  OPS[_n] = ('tm', -1)
OPS['project_matmul'] = OPS['pairwise matrix'] = ('m', -1)

DATA = ('r', 'zero', 'huge', 'equal')


def cases(tier):
  sizes = (1, 2, 3, 5, 8, 17, 33) if tier == 'quick' else (1, 2, 3, 4, 5, 8, 9, 17, 33, 64)
  out = []
  for nm, (kinds, _) in OPS.items():
    specs = (TENSORS if 't' in kinds else []) + (MATRICES if 'm' in kinds else [])
    if kinds == 'k':
      specs = [spec_m([3], [3], [1, 1]), spec_m([2, 3], [2, 3], [1, 1, 1]), spec_m([2, 1, 2], [2, 1, 2], [1] * 4), spec_m([2, 2, 3, 1], [2, 2, 3, 1], [1] * 5)]
    for s in specs:
      for b in sizes:
        for data in DATA:
          if b == 1 and data != 'r' or b > 5 and data not in ('r', 'huge') or b > 8 and data != 'r' or kinds == 'k' and data == 'zero':
            continue
          if nm in ('slice first', 'slice last') and lib.ndims(s) == 1:
            continue
          out.append([nm, s, b, data])
  return out + contexts.cases(ID, tier)


def table():
  tf, t3f = lib.tf, lib.t3f
  last = lambda x: int(x.get_raw_shape()[0].as_list()[-1]) - 1
  b = lib.is_batch

  def index(f):
    # x[f(d)] of a single object, x[(:,) + f(d)] of a batch.
    return lambda x: x[((slice(None),) if b(x) else ()) + f(x)]

  def gather(x):
    d = x.ndims()
    corner = [n - 1 for n in x.get_raw_shape()[0].as_list()]
    one = np.array([[0] * d, corner, [0] * (d - 1) + corner[-1:]])
    if not b(x):
      return t3f.gather_nd(x, one)
    n = x.batch_size
    idx = np.concatenate([np.repeat(np.arange(n), 3)[:, None], np.tile(one, (n, 1))], 1)
    return tf.reshape(t3f.gather_nd(x, idx), (n, 3))
  return {
      'full': t3f.full, 'neg': lambda x: -x, 'scaled': lambda x: x * 2.5, 'norm squared': t3f.frobenius_norm_squared, 'norm': lambda x: t3f.frobenius_norm(x, epsilon=0.),
      'norm diff': lambda x: t3f.frobenius_norm(x, epsilon=0., differentiable=True), 'norm squared diff': lambda x: t3f.frobenius_norm_squared(x, differentiable=True),
      'orthogonalize': t3f.orthogonalize_tt_cores, 'cast': lambda x: t3f.cast(x, tf.float32), 'round none': lambda x: t3f.round(x), 'round 1': lambda x: t3f.round(x, 1),
      'round 2': lambda x: t3f.round(x, max_tt_rank=2), 'round caps': lambda x: t3f.round(x, [1] + [2 - k % 2 for k in range(x.ndims() - 1)] + [1]),
      'renormalize': lambda x: t3f.renormalize_tt_cores(x, epsilon=0.),
      'expand': lambda x: t3f.squeeze_batch_dim(t3f.expand_batch_dim(x)) if not b(x) else t3f.expand_batch_dim(x),
      'gather': gather,
      'slice first': index(lambda x: (0,) + (slice(None),) * (x.ndims() - 1)), 'slice last': index(lambda x: (slice(None),) * (x.ndims() - 1) + (last(x),)),
      'slice range': index(lambda x: (slice(0, 1),) * x.ndims()), 'slice all': index(lambda x: (slice(None),) * x.ndims()),
      'transpose': t3f.transpose, 'determinant': t3f.kronecker.determinant, 'slog': t3f.kronecker.slog_determinant, 'inv': t3f.kronecker.inv,
      'cholesky': lambda x: t3f.kronecker.cholesky(t3f.matmul(x, t3f.transpose(x))), 'add': t3f.add, 'subtract': lambda x, y: x - y, 'multiply': t3f.multiply,
      'flat_inner': t3f.flat_inner, 'matmul': t3f.matmul,
  }


def cores_of(s, b, data, salt, at):
  """NumPy cores of the objects of a batch."""
  out = []
  for i in range(b):
    cores = [c.copy() for c in lib.np_cores(lib.with_batch(s, None), salt + (0 if data == 'equal' else 17 * i), 'r')]
    if i == at:
      if data == 'zero':
        cores[-1] *= 0.
      elif data == 'huge':
        cores[0] *= 2. ** 60
    out.append(cores)
  return out


def kron_cores(s, b, data, salt, at):
  out = []
  for i in range(b):
    cores = []
    for k, n in enumerate(s[1][0]):
      c = lib.fill((n, n), salt + 5 * k + (0 if data == 'equal' else 17 * i), 'r') + 3. * np.eye(n) * (-1) ** (i + k)
      cores.append(c[None, :, :, None] * (2. ** 20 if data == 'huge' and i == at and k == 0 else 1.))
    out.append(cores)
  return out


def single(cores):
  return lib.t3f.TensorTrain(cores)


def batch(all_cores):
  return lib.t3f.TensorTrainBatch([np.stack([c[k] for c in all_cores]) for k in range(len(all_cores[0]))])


def parts(r, is_batch):
  """List of dense arrays; for batches the first axis runs over the objects."""
  if c21.is_tt(r):
    return [np.asarray(lib.dense_of(r))]
  if isinstance(r, (list, tuple)):
    return [lib.npy(x) for x in r]
  return [lib.npy(r)]


def agree(ctx, got, want, what, scales=None, tol=1e-9):
  """got: result of a batch operation; want: results of the single ones."""
  g = parts(got, True)
  ws = [parts(w, False) for w in want]
  ctx.step(1 + len(want))
  for k, a in enumerate(g):
    ctx.check(a.ndim >= 1 and a.shape[0] == len(ws), lambda: '%s: %s results for %d objects' % (what, a.shape, len(ws)))
    for i, w in enumerate(ws):
      e = w[k]
      ctx.check(a[i].shape == e.shape and a.dtype == e.dtype, lambda: '%s: object %d has shape %s and dtype %s instead of %s and %s' % (what, i, a[i].shape, a.dtype, e.shape, e.dtype))
      t = 1e-5 if a.dtype == np.float32 else tol
      scale = max(np.abs(e[np.isfinite(e)]).max(initial=0.), scales[i] if scales else 0.)
      ctx.check(np.all((np.abs(a[i] - e) <= t * scale) | (a[i] == e)), lambda: '%s: object %d differs from the operation on it alone: %s' % (what, i, lib.describe(a[i], e)))
  if c21.is_tt(got):
    ctx.check(lib.is_batch(got) and got.batch_size == len(want), lambda: '%s: batch size %s' % (what, getattr(got, 'batch_size', None)))


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  nm, s, b, data = case
  kinds, arity = OPS[nm]
  for at in (range(b) if data in ('zero', 'huge') else (0,)):
    if data in ('zero', 'huge') and b > 5 and at not in (0, b // 2, b - 1):
      continue
    one(ctx, nm, kinds, arity, s, b, data, at)
  ctx.outcome((nm, str(s), b, data))


def norms(all_cores):
  return [float(np.prod([np.linalg.norm(c) for c in cs])) for cs in all_cores]


def one(ctx, nm, kinds, arity, s, b, data, at):
  tf, t3f = lib.tf, lib.t3f
  what = '%s of %s x %d (%s at %d)' % (nm, s, b, data, at)
  ctx.state((nm, str(s), b, data, at))
  if arity == 1:
    fn = table()[nm]
    xs = (kron_cores if kinds == 'k' else cores_of)(s, b, data, 3, at)
    if nm == 'renormalize' and data == 'zero':
      return
    sc = norms(xs)
    if nm.startswith('norm squared'):
      sc = [v * v for v in sc]
    if nm in ('determinant', 'slog', 'inv', 'cholesky'):
      sc = None
    agree(ctx, fn(batch(xs)), [fn(single(x)) for x in xs], what, sc)
    return
  if arity == 2:
    both(ctx, nm, s, b, data, at, what)
    return
  xs = cores_of(s, b, data, 3, at)
  ys = cores_of(s, b, 'r', 400, 0)
  sx, sy = norms(xs), norms(ys)
  if nm == 'pairwise':
    for c in (1, 2, b):
      zs = cores_of(s, c, 'r', 500, 0)
      got = lib.npy(t3f.pairwise_flat_inner(batch(xs), batch(zs)))
      ctx.check(got.shape == (b, c), lambda: '%s: shape %s' % (what, got.shape))
      for j in range(c):
        agree(ctx, got[:, j], [t3f.flat_inner(single(x), single(zs[j])) for x in xs], what, [v * norms(zs)[j] for v in sx])
    got = t3f.gram_matrix(batch(xs))
    for j in range(b):
      agree(ctx, got[:, j], [t3f.flat_inner(single(x), single(xs[j])) for x in xs], what + ' gram', [v * sx[j] for v in sx])
  elif nm == 'concat':
    for c in range(1, b):
      agree(ctx, t3f.concat_along_batch_dim([batch(xs[:c]), batch(xs[c:])]), [single(x) for x in xs], what, sx)
    agree(ctx, t3f.concat_along_batch_dim([batch([x]) for x in xs]), [single(x) for x in xs], what, sx)
    for i in range(b):
      agree(ctx, t3f.expand_batch_dim(batch(xs)[i]), [single(xs[i])], what + ' element', sx[i:i + 1])
      agree(ctx, batch(xs)[i:], [single(x) for x in xs[i:]], what + ' range', sx[i:])
  elif nm == 'along batch':
    w = [(-1.5) ** k * (k != 1) for k in range(b)]
    agree(ctx, t3f.multiply_along_batch_dim(batch(xs), tf.constant(w, tf.float64)), [single(x) * v for x, v in zip(xs, w)], what, sx)
  elif nm == 'reduce sum':
    cap = 60
    want = sum(np.asarray(lib.dense_of(single(x))) for x in xs)
    got = t3f.approximate.reduce_sum_batch(batch(xs), cap)
    agree(ctx, t3f.expand_batch_dim(got), [tf.constant(want)], what, [sum(sx)])
  elif lib.ndims(s) < 2:
    return
  elif nm in ('project', 'project sum', 'pairwise projected'):
    where = lib.clip_ranks(s)
    w = single(lib.np_cores(where, 77, 'r'))
    alone = [t3f.project(single(x), w) for x in xs]
    if nm == 'project':
      agree(ctx, t3f.project(batch(xs), w), alone, what, sx, 1e-8)
    elif nm == 'project sum':
      want = sum(np.asarray(lib.dense_of(p)) for p in alone)
      agree(ctx, t3f.expand_batch_dim(t3f.project_sum(batch(xs), w)), [tf.constant(want)], what, [sum(sx)], 1e-8)
      m = np.array([[1., -2.], [0., 3.], [2., 0.5], [-1., 1.], [0.25, 4.]])[np.arange(b) % 5]
      got = t3f.project_sum(batch(xs), w, tf.constant(m))
      want = [tf.constant(sum(v * np.asarray(lib.dense_of(p)) for v, p in zip(m[:, k], alone))) for k in range(2)]
      agree(ctx, got, want, what + ' weights', [4 * sum(sx)] * 2, 1e-8)
    else:
      p, q = t3f.project(batch(xs), w), t3f.project(batch(ys), w)
      got = lib.npy(t3f.pairwise_flat_inner_projected(p, q))
      for j in range(b):
        pj = t3f.project(single(ys[j]), w)
        agree(ctx, got[:, j], [t3f.flat_inner(a, pj) for a in alone], what, [v * sy[j] for v in sx], 1e-8)
  elif nm in ('project_matmul', 'pairwise matrix'):
    rows = s[1][0]
    vec = spec_m(rows, [1] * len(rows), s[2])
    matrix = single(lib.np_cores(spec_m(rows, rows, s[2]), 55, 'r'))
    vs = cores_of(vec, b, data, 3, at)
    us = cores_of(vec, b, 'r', 400, 0)
    sm = float(np.prod([np.linalg.norm(c) for c in matrix.tt_cores]))
    if nm == 'project_matmul':
      w = single(lib.np_cores(lib.clip_ranks(vec), 77, 'r'))
      agree(ctx, t3f.project_matmul(batch(vs), w, matrix), [t3f.project_matmul(single(v), w, matrix) for v in vs], what, [v * sm for v in norms(vs)], 1e-8)
    elif int(np.prod(rows)) > 1:
      got = lib.npy(t3f.pairwise_flat_inner(batch(vs), batch(us), matrix))
      for j in range(b):
        agree(ctx, got[:, j], [t3f.bilinear_form(matrix, single(v), single(us[j])) for v in vs], what, [v * sm * norms(us)[j] for v in norms(vs)])


def both(ctx, nm, s, b, data, at, what):
  """Two operands, each a single object, a batch of one or the batch."""
  t3f = lib.t3f
  other = s
  if nm == 'matmul':
    other = ['m', [s[1][1], s[1][0]], s[2], None]
  elif nm.startswith('bilinear'):
    d = lib.ndims(s)
    rows, cols = (s[1][0], s[1][1]) if nm == 'bilinear' else (s[1][0], s[1][0])
    r = [1] + [2] * (d - 1) + [1]
    A, B = single(lib.np_cores(s, 55, 'r')), single(lib.np_cores(['m', [s[1][1], s[1][0]], s[2], None], 66, 'r'))
    s, other = spec_m(rows, [1] * d, r), spec_m(cols, [1] * d, r)
    sm = float(np.prod([np.linalg.norm(c) for c in A.tt_cores])) * (float(np.prod([np.linalg.norm(c) for c in B.tt_cores])) if nm != 'bilinear' else 1.)
  fn = {'bilinear': lambda x, y: t3f.bilinear_form(A, x, y), 'bilinear two': lambda x, y: t3f.ops.bilinear_form_two_mat(x, A, B, y)}.get(nm) or table()[nm]
  xs, ys = cores_of(s, b, data, 3, at), cores_of(other, b, data if data == 'equal' else 'r', 400, 0)
  forms = ('single', 'one', 'batch')
  for fx in forms:
    for fy in forms:
      if fx == fy == 'single':
        continue
      if nm == 'bilinear' and {fx, fy} == {'one', 'batch'} and b > 1:
        continue  # broadcasting of batches is not documented for bilinear forms
      if nm == 'bilinear two' and fy != 'single':
        continue
      x = {'single': lambda: single(xs[0]), 'one': lambda: batch(xs[:1]), 'batch': lambda: batch(xs)}[fx]()
      y = {'single': lambda: single(ys[0]), 'one': lambda: batch(ys[:1]), 'batch': lambda: batch(ys)}[fy]()
      n = b if 'batch' in (fx, fy) else 1
      pair = [(xs[i if fx == 'batch' else 0], ys[i if fy == 'batch' else 0]) for i in range(n)]
      sc = [norms([p])[0] for p, _ in pair], [norms([q])[0] for _, q in pair]
      scale = [max(p, q) for p, q in zip(*sc)] if nm in ('add', 'subtract') else [p * q for p, q in zip(*sc)]
      if nm.startswith('bilinear'):
        scale = [v * sm for v in scale]
      agree(ctx, fn(x, y), [fn(single(p), single(q)) for p, q in pair], '%s, operands %s and %s' % (what, fx, fy), scale)
