"""C21: traced execution (tf.function, graphs) equals eager execution.

Every operation is traced with every pattern of statically unknown sizes and
the one trace is then run on several concrete structures fitting the pattern;
the dense value must be the one the eager operation gives.
"""
import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m, with_batch

ID = 'C21'
CHUNK = 1
BOUND = ('all operations x all patterns of unknown sizes (none; batch; one mode, each position; all modes; one TT-rank, each position; all '
         'TT-ranks; everything; one operand only; dense and sparse arguments of hidden size; tf.function and v1 graph with placeholders) x structures d=1..3 (tensors, matrices, batches); each trace run on all of 4-6 '
         'concrete structures fitting it (modes, ranks and batch sizes 1..4); float64, and float32 for known sizes')
ASSUMPTIONS = ['combinations of operation and unknown sizes listed in UNSUPPORTED may raise instead (they must not give a wrong value)']


def tens(shape, r=2, batch=None):
  return spec_t(shape, [1] + [r] * (len(shape) - 1) + [1], batch)


def mat(rows, cols, r=2, batch=None):
  return spec_m(rows, cols, [1] + [r] * (len(rows) - 1) + [1], batch)


# A family: list of tuples of specs; the first is the base, the others give
# concrete structures for the unknown sizes.  A family member is described by
# (modes variant, rank variant, batch variant).
MODES = {
    't1': [[3], [1], [4], [2]], 't2': [[2, 3], [3, 1], [1, 4], [4, 2]], 't3': [[3, 2, 2], [2, 1, 3], [1, 1, 4], [2, 3, 3]],
}
ROWS = {'m1': [[2], [3], [1], [1]], 'm2': [[2, 3], [3, 1], [1, 2], [3, 2]], 'm3': [[2, 1, 2], [1, 2, 1], [3, 1, 1], [2, 2, 3]]}
COLS = {'m1': [[3], [1], [2], [1]], 'm2': [[3, 2], [1, 2], [2, 2], [1, 3]], 'm3': [[1, 2, 2], [2, 1, 1], [1, 1, 3], [1, 2, 1]]}
RANKS = {1: [[1, 1]], 2: [[1, 2, 1], [1, 1, 1], [1, 3, 1]], 3: [[1, 2, 2, 1], [1, 1, 3, 1], [1, 3, 1, 1], [1, 1, 1, 1]]}
BATCHES = [2, 1, 3]


def variants(role, fam, pattern):
  """Concrete specs of an operand with this role for a pattern, base first."""
  d = int(fam[1])
  batch = 'b' in role
  if '@' in pattern:  # only this operand varies, and only in ways the others need not follow
    pattern = pattern.split('@')[0]
    if pattern in ('batch', 'all', 'mode'):
      pattern = {'all': 'rank'}.get(pattern, 'known')
  vm = free(pattern, 'mode')
  vr = free(pattern, 'rank')
  vb = pattern in ('batch', 'all', 'gall')
  out = []
  nm = 4 if vm else 1
  nr = len(RANKS[d]) if vr else 1
  nb = 3 if vb and batch else 1
  for k in range(max(nm, nr, nb) + (1 if nm > 1 and nr > 1 else 0)):
    m, r, b = k % nm, k % nr, k % nb
    ranks = keep(RANKS[d][0], RANKS[d][r], pattern, 'rank', d)
    if fam[0] == 't':
      shape = keep(MODES[fam][0], MODES[fam][m], pattern, 'mode', d)
      s = spec_t(shape, ranks)
    else:
      rows = keep(ROWS[fam][0], ROWS[fam][m], pattern, 'mode', d)
      cols = keep(COLS[fam][0], COLS[fam][m], pattern, 'mode', d)
      if 'T' in role:
        rows, cols = cols, rows
      if 'S' in role or 'K' in role:
        cols = rows
      if 'V' in role:
        cols = [1] * d
      s = spec_m(rows, cols, ranks if 'K' not in role else [1] * (d + 1))
    if 'W' in role:  # a point of a manifold: achievable ranks
      s = lib.clip_ranks(s)
    out.append(with_batch(s, BATCHES[b]) if batch else with_batch(s, 1) if '1' in role else s)
  return out


def free(pattern, what):
  return pattern in ('all', 'gall') or pattern.startswith(what)


def keep(base, other, pattern, what, d):
  """Only the sizes that are unknown in the pattern may vary."""
  if pattern.startswith(what) and pattern != what:
    k = int(pattern[len(what):])
    return [o if i == k else b for i, (b, o) in enumerate(zip(base, other))]
  return other if free(pattern, what) else base


def pattern_of(pattern, k):
  """The pattern of operand k; in 'p@j' all operands but j are fully known."""
  if '@' not in pattern:
    return pattern
  return pattern if pattern.endswith('@%d' % k) else 'known'


def signature(spec, pattern, dt, one=False):
  pattern = pattern.split('@')[0]
  tf = lib.tf
  d = lib.ndims(spec)
  off = 0 if spec[3] is None else 1
  out = []
  for i, s in enumerate(lib.core_shapes(spec)):
    s = list(s)
    if off and not one and pattern in ('batch', 'all', 'gall'):
      s[0] = None
    if free(pattern, 'mode') and pattern in ('mode', 'mode%d' % i, 'all', 'gall'):
      for k in range(off + 1, len(s) - 1):
        s[k] = None
    for k, ax in ((i, off), (i + 1, -1)):
      if 0 < k < d and pattern in ('rank', 'rank%d' % k, 'all', 'gall'):
        s[ax] = None
    out.append(tf.TensorSpec(s, lib.tf_dtype(dt)))
  return out


# Objects are required to have equal static shapes (an unknown size does not
# match a known one), and known batch sizes to decide about broadcasting.
SHAPES_COMPARED = ('add', 'add b', 'subtract', 'subtract b', 'multiply', 'multiply b', 'add_n',
                   'composition', 'concat', 'deltas', 'deltas two', 'gradient', 'hessian', 'pairwise matrix', 'project',
                   'project b', 'multiply by one', 'add b by one', 'project_matmul', 'project_matmul b', 'project_sum', 'project_sum w', 'projected inner', 'projected sum')
MIXED_UNSUPPORTED = {
    'mode': SHAPES_COMPARED,
    'all': SHAPES_COMPARED + ('flat_inner b', 'matmul b'),
    'batch': ('add b', 'flat_inner b', 'matmul b', 'project b',
              'project_matmul b', 'project_sum w', 'projected inner', 'subtract b'),
    'rank': ('concat', 'deltas', 'gradient', 'hessian'),
}


def ops():
  """name -> (function, roles, families, patterns that may raise)."""
  t3f, tf = lib.t3f, lib.tf
  out = {}

  def add(name, fn, roles, fams='t1 t2 t3 m1 m2 m3', unsupported=()):
    for k, r in enumerate(roles if isinstance(roles[0], (list, tuple)) else [roles]):
      out['%s/%d' % (name, k)] = (fn, list(r), fams.split(), set(unsupported))
  one = [['x'], ['xb']]
  for nm, fn in (('full', t3f.full), ('neg', lambda x: -x), ('scaled', lambda x: 2. * x), ('scaled right', lambda x: x * 3.),
                 ('norm squared', t3f.frobenius_norm_squared), ('norm', t3f.frobenius_norm),
                 ('norm diff', lambda x: t3f.frobenius_norm(x, differentiable=True)),
                 ('norm squared diff', lambda x: t3f.frobenius_norm_squared(x, differentiable=True)),
                 ('orthogonalize', t3f.orthogonalize_tt_cores), ('cast', lambda x: t3f.cast(t3f.cast(x, tf.float32), tf.float64)),
                 ('lazy_shape', t3f.lazy_shape), ('lazy_raw_shape', t3f.lazy_raw_shape), ('lazy_tt_ranks', t3f.lazy_tt_ranks),
                 ('shape', t3f.shape), ('raw_shape', t3f.raw_shape), ('tt_ranks', t3f.tt_ranks),
                 ('round', lambda x: t3f.round(x, 2)), ('round1', lambda x: t3f.round(x, 1)), ('round none', lambda x: t3f.round(x)),
                 ('round eps', lambda x: t3f.round(x, 2, epsilon=0.))):
    add(nm, fn, one)
  # Unequal caps per rank.
  for nm, caps in (('round 12', [1, 2]), ('round 21', [2, 1]), ('round 31', [3, 1])):
    add(nm, lambda x, caps=caps: t3f.round(x, [1] + caps + [1]), one, 't3 m3')
  add('renormalize', t3f.renormalize_tt_cores, [['x']])
  add('renormalize b', t3f.renormalize_tt_cores, [['xb']], unsupported=('batch', 'all', 'gall'))
  for nm, fn in (('ones_like', t3f.ones_like), ('zeros_like', t3f.zeros_like)):
    add(nm, fn, one, unsupported=('batch', 'mode', 'mode0', 'mode1', 'mode2', 'all', 'gall'))
  for nm, fn in (('add', t3f.add), ('subtract', lambda a, b: a - b), ('multiply', t3f.multiply), ('flat_inner', t3f.flat_inner)):
    add(nm, fn, [['x', 'x'], ['xb', 'x'], ['x', 'xb']])
    # Two statically unknown batch sizes are documented as not broadcastable.
    add(nm + ' b', fn, [['xb', 'xb']], unsupported=() if nm == 'multiply' else ('batch', 'all', 'gall'))
  add('orthogonalize right', lambda x: t3f.orthogonalize_tt_cores(x, left_to_right=False), ['x'])
  add('gather', lambda x: t3f.gather_nd(x, np.zeros((2, x.ndims()), np.int64)), ['x'], 't1 t2 t3')
  add('gather dynamic', lambda x: t3f.gather_nd(x, t3f.raw_shape(x) - 1), ['x'], 't1 t2 t3')
  add('gather b', lambda x: t3f.gather_nd(x, np.zeros((2, x.ndims() + 1), np.int64)), ['xb'], 't1 t2 t3')
  add('slice', lambda x: x[:, 0], ['x'], 't2')
  add('slice 2', lambda x: x[0:1, :, 0], ['x'], 't3')
  add('slice b', lambda x: x[0], ['xb'])
  add('slice b range', lambda x: x[0:1], ['xb'])
  add('slice b axes', lambda x: x[:, 0, :], ['xb'], 't2')
  add('transpose', t3f.transpose, one, 'm1 m2 m3')
  add('matmul', t3f.matmul, [['x', 'xT'], ['xb', 'xT'], ['x', 'xTb']], 'm1 m2 m3')
  add('matmul b', t3f.matmul, [['xb', 'xTb']], 'm1 m2 m3', unsupported=('batch', 'all', 'gall'))
  add('matmul dense', lambda x: t3f.matmul(x, t3f.full(t3f.transpose(x))), ['x'], 'm1 m2 m3')
  add('dense matmul', lambda x: t3f.matmul(t3f.full(t3f.transpose(x)), x), ['x'], 'm1 m2 m3')
  add('bilinear', t3f.bilinear_form, [['xS', 'xV', 'xV'], ['xS', 'xVb', 'xVb'], ['xS', 'xV', 'xVb'], ['xS', 'xVb', 'xV']], 'm1 m2 m3')
  add('bilinear two', t3f.ops.bilinear_form_two_mat, [['xV', 'xS', 'xS', 'xV'], ['xVb', 'xS', 'xS', 'xV']], 'm1 m2 m3')
  add('pairwise', t3f.pairwise_flat_inner, ['xb', 'xb'])
  add('gram', t3f.gram_matrix, ['xb'])
  # 'with a shape defined on compilation' is demanded by the error message.
  add('pairwise matrix', t3f.pairwise_flat_inner, ['xVb', 'xVb', 'xS'], 'm2 m3', unsupported=('mode', 'mode0', 'mode1', 'mode2', 'all', 'gall'))
  add('concat', lambda a, b: t3f.concat_along_batch_dim([a, b]), ['xb', 'xb'])
  add('along batch', lambda a: t3f.multiply_along_batch_dim(a, tf.range(1., 1. + tf.cast(t3f.batch_size(a), tf.float64), dtype=tf.float64)), ['xb'])
  add('add_n', lambda a, b, c: t3f.approximate.add_n([a, b, c], 3), ['x', 'x', 'x'])
  dyn = ('batch', 'mode', 'mode0', 'mode1', 'mode2', 'rank', 'rank1', 'rank2', 'all', 'gall')
  unknown_modes = ('mode', 'mode0', 'mode1', 'mode2', 'all', 'gall')
  for nm, fn in (('reduce_sum', lambda a: t3f.approximate.reduce_sum_batch(a, 3)),
                 ('reduce_sum coef', lambda a: t3f.approximate.reduce_sum_batch(a, 3, [1., -2.]))):
    add(nm, fn, ['xb'], 't3', tuple(p for p in dyn if p not in ('mode0', 'mode2')))
    add(nm + ' two', fn, ['xb'], 't2 m2', ('batch', 'all', 'gall'))
  add('project', t3f.project, ['x', 'xW'], 't2 t3 m2')
  add('project b', t3f.project, ['xb', 'xW'], 't2 t3 m2', ('batch', 'all', 'gall'))
  add('project_sum', t3f.project_sum, ['xb', 'xW'], 't2 t3 m2')
  add('project_sum w', lambda a, b, c: t3f.project_sum(a, b, t3f.pairwise_flat_inner(a, c)), ['xb', 'xW', 'xb'], 't2 t3 m2', ('batch', 'all', 'gall'))
  add('project_matmul', t3f.project_matmul, ['xV', 'xVW', 'xS'], 'm2 m3')
  add('project_matmul b', t3f.project_matmul, ['xVb', 'xVW', 'xS'], 'm2 m3', ('batch', 'all', 'gall'))
  add('projected inner', lambda a, b, w: t3f.pairwise_flat_inner_projected(t3f.project(a, w), t3f.project(b, w)), ['xb', 'xb', 'xW'], 't2 t3 m2',
      ('batch', 'all', 'gall'))
  add('projected sum', lambda a, b, w: t3f.add_n_projected([t3f.project(a, w), t3f.project(b, w)], [2., -1.]), ['x', 'x', 'xW'], 't2 t3 m2')
  rie = ('mode', 'mode0', 'mode1', 'mode2', 'rank', 'rank1', 'rank2', 'all', 'gall')
  for nm, fams, uns in (('deltas', 't3', rie), ('deltas two', 't2 m2', ('gall',))):
    add(nm, lambda a, w: t3f.riemannian.deltas_to_tangent_space(t3f.tangent_space_to_deltas(t3f.project(a, w)), w), ['x', 'xW'], fams, uns)
  add('gradient', lambda w, a: t3f.gradients(lambda x: 0.5 * t3f.flat_inner(x, x) + t3f.flat_inner(x, a), w), ['xW', 'x'], 't2 t3 m2', rie)
  add('hessian', lambda w, a: t3f.hessian_vector_product(lambda x: 0.5 * t3f.flat_inner(x, x) ** 2, w, t3f.project(a, w)), ['xW', 'x'], 't2 t3', rie)
  kr = ('mode', 'mode0', 'mode1', 'mode2', 'rank', 'rank1', 'rank2', 'all', 'gall')
  for nm, fn in (('determinant', t3f.kronecker.determinant), ('slog', t3f.kronecker.slog_determinant), ('inv', t3f.kronecker.inv)):
    add(nm, fn, [['xK'], ['xKb']], 'm1 m2 m3', kr)
  add('cholesky', lambda a: t3f.kronecker.cholesky(t3f.matmul(a, t3f.transpose(a))), ['xK'], 'm1 m2 m3', kr)
  add('cholesky b', lambda a: t3f.kronecker.cholesky(t3f.matmul(a, t3f.transpose(a))), ['xKb'], 'm1 m2 m3', kr + ('batch',))
  # Compositions: objects with unknown static sizes are used further.
  add('composition', lambda a, b: t3f.full(t3f.round(b + 2. * b * a, 3)), [['x', 'x'], ['xb', 'x']], 't1 t2 t3 m2')
  add('composition 2', lambda a, b: t3f.flat_inner(t3f.matmul(a, b), t3f.transpose(t3f.matmul(t3f.transpose(b), t3f.transpose(a)))), ['x', 'xT'], 'm1 m2')
  # The static sizes are additionally hidden from the decomposition.
  def hide(x):
    return tf.compat.v1.placeholder_with_default(x, [None] * x.shape.rank)
  for nm, src in (('', lambda x: x), (' hidden', hide)):
    for cap in (1, 2, 9):
      add('to_tt %d%s' % (cap, nm), lambda a, src=src, cap=cap: t3f.to_tt_tensor(src(t3f.full(a)), max_tt_rank=cap), ['x'], 't1 t2 t3')
    for caps in ([1, 2], [2, 1], [3, 1], [2, 3]):
      add('to_tt %d%d%s' % (caps[0], caps[1], nm), lambda a, src=src, caps=caps: t3f.to_tt_tensor(src(t3f.full(a)), max_tt_rank=[1] + caps + [1]),
          ['x'], 't3')
    for cap in (1, 2):
      add('to_tt_matrix %d%s' % (cap, nm), lambda a, src=src, cap=cap: t3f.to_tt_matrix(
          src(t3f.full(a)), [s.as_list() for s in a.get_raw_shape()], max_tt_rank=cap), ['x'], 'm1 m2 m3', unknown_modes)
    for caps in ([1, 2], [2, 1], [3, 1], [2, 3]):
      add('to_tt_matrix %d%d%s' % (caps[0], caps[1], nm), lambda a, src=src, caps=caps: t3f.to_tt_matrix(
          src(t3f.full(a)), [s.as_list() for s in a.get_raw_shape()], max_tt_rank=[1] + caps + [1]), ['x'], 'm3', unknown_modes)
  # Dense and sparse arguments whose sizes are hidden, completely or in part.
  def hide1(x, k):
    return tf.compat.v1.placeholder_with_default(x, [None if i == k else n for i, n in enumerate(x.shape.as_list())])

  def corners(x):
    return tf.stack([tf.zeros([x.ndims()], tf.int64), tf.cast(t3f.raw_shape(x)[0], tf.int64) - 1, tf.zeros([x.ndims()], tf.int64)])
  add('matmul dense hidden', lambda x: t3f.matmul(x, hide(t3f.full(t3f.transpose(x)))), ['x'], 'm1 m2 m3')
  add('dense hidden matmul', lambda x: t3f.matmul(hide(t3f.full(t3f.transpose(x))), x), ['x'], 'm1 m2 m3')
  for k in (0, 1):
    add('matmul dense hidden %d' % k, lambda x, k=k: t3f.matmul(x, hide1(t3f.full(t3f.transpose(x)), k)), ['x'], 'm1 m2 m3')
    add('dense hidden %d matmul' % k, lambda x, k=k: t3f.matmul(hide1(t3f.full(t3f.transpose(x)), k), x), ['x'], 'm1 m2 m3')
  add('gather hidden number', lambda x: t3f.gather_nd(x, hide1(corners(x), 0)), ['x'], 't1 t2 t3')
  add('gather b hidden', lambda x: t3f.gather_nd(x, hide1(tf.concat([tf.zeros((3, 1), tf.int64), corners(x)], 1), 0)), ['xb'], 't1 t2 t3')
  def sparse(x, h):
    val = tf.constant([2., -1.], x.dtype)
    if x.is_tt_matrix():
      ix = tf.stack([tf.zeros([2], tf.int64), tf.cast(t3f.shape(x), tf.int64) - 1])
      sh = t3f.shape(x)
    else:
      ix, sh = corners(x)[:2], t3f.raw_shape(x)[0]
    return tf.SparseTensor(h(ix), hide1(val, 0) if h is not ident else val, tf.cast(sh, tf.int64))
  ident = lambda x: x
  for nm, h in (('', ident), (' hidden number', lambda x: hide1(x, 0))):
    add('sparse inner' + nm, lambda x, h=h: t3f.flat_inner(x, sparse(x, h)), ['x'], 't1 t2 t3')
    add('sparse matrix inner' + nm, lambda x, h=h: t3f.flat_inner(x, sparse(x, h)), ['x'], 'm1 m2 m3', unknown_modes)
  add('along batch hidden', lambda a: t3f.multiply_along_batch_dim(
      a, hide(tf.range(1., 1. + tf.cast(t3f.batch_size(a), tf.float64), dtype=tf.float64))), ['xb'])
  add('scaled hidden', lambda x: hide(tf.constant(-2., x.dtype)) * x, one)
  add('scaled by inner', lambda x: t3f.multiply(x, t3f.flat_inner(x, x)), ['x'])
  # A batch of one object, known to be one, stretches to any batch size.
  add('multiply by one', t3f.multiply, [['xb', 'x1'], ['x1', 'xb']])
  for nm, fn in (('add', t3f.add), ('flat_inner', t3f.flat_inner)):
    add(nm + ' b by one', fn, [['xb', 'x1'], ['x1', 'xb']])
  add('matmul b by one', t3f.matmul, [['xb', 'xT1'], ['x1', 'xTb']], 'm1 m2 m3')
  return out


FAM_OF = None


def static_ops():
  """Names, families and number of operations without importing t3f."""
  global FAM_OF
  if FAM_OF is None:
    class _Any(object):

      def __getattr__(self, name):
        return _Any()

      def __call__(self, *a, **k):
        return _Any()
    saved = lib.t3f, lib.tf
    lib.t3f, lib.tf = _Any(), _Any()
    try:
      FAM_OF = {k: (v[1], v[2]) for k, v in ops().items()}
    finally:
      lib.t3f, lib.tf = saved
  return FAM_OF


def cases(tier):
  out = []
  for name, (roles, fams) in static_ops().items():
    for fam in fams:
      d = int(fam[1])
      pats = ['known', 'f32', 'graph']
      if any('b' in r for r in roles):
        pats.append('batch')
      pats += ['mode', 'all']
      if d > 1:
        pats.append('rank')
      if tier == 'thorough':
        pats.append('gall')
      if d == 3 or tier == 'thorough':
        pats += ['mode%d' % k for k in range(d)]
        pats += ['rank%d' % k for k in range(1, d)]
      if len(roles) > 1:
        # One operand has unknown sizes, the others are known.
        for k, r in enumerate(roles):
          pats += ['%s@%d' % (p, k) for p in (['batch'] if 'b' in r else []) + ['mode'] + (['rank'] if d > 1 else []) + ['all']]
      for p in pats:
        out.append([name, fam, p])
  return out


def wrap(spec, cores):
  return (lib.t3f.TensorTrain if spec[3] is None else lib.t3f.TensorTrainBatch)(list(cores))


def is_tt(r):
  return isinstance(r, (lib.t3f.TensorTrain, lib.t3f.TensorTrainBatch))


def parts(r):
  """Flattened tensors of a result."""
  if is_tt(r):
    return list(r.tt_cores)
  if isinstance(r, (list, tuple)):
    return [x for y in r for x in parts(y)]
  return [r]


def values(form, arrs):
  """Dense values: forms are 'tt', 'ttb' or 'x' per result."""
  if form in ('tt', 'ttb'):
    b = form == 'ttb'
    return [lib.np_dense(arrs, arrs[0].ndim - b == 4, b)]
  return [np.asarray(a) for a in arrs]


def form_of(r):
  if is_tt(r):
    return 'ttb' if lib.is_batch(r) else 'tt'
  return 'x'


def run(case, ctx):
  tf, t3f = lib.tf, lib.t3f
  name, fam, pattern = case
  fn, roles, _, unsupported = ops()[name]
  dt = 'float32' if pattern == 'f32' else 'float64'
  if pattern == 'f32' and ('cast' in name or 'along' in name):
    return
  vs = [variants(r, fam, pattern_of(pattern, k)) for k, r in enumerate(roles)]
  n = max(len(v) for v in vs)
  base = [v[0] for v in vs]
  sigs = [signature(s, pattern_of(pattern, k), dt, '1' in roles[k]) for k, s in enumerate(base)]
  meta = {}
  may_raise = pattern in unsupported or name.split('/')[0] in MIXED_UNSUPPORTED.get(pattern.split('@')[0] if '@' in pattern else '', ())
  ctx.state(str(case))

  def body(*cores):
    r = fn(*[wrap(s, c) for s, c in zip(base, cores)])
    meta['form'] = form_of(r)
    if is_tt(r):
      meta['static'] = ([s.as_list() for s in r.get_raw_shape()], r.get_tt_ranks().as_list(), r.get_shape().as_list(),
                        r.batch_size if lib.is_batch(r) else None, str(r))
    return parts(r)

  try:
    if pattern in ('graph', 'gall'):
      g = tf.Graph()
      with g.as_default():
        phs = [[tf.compat.v1.placeholder(s.dtype, s.shape) for s in sg] for sg in sigs]
        outs = [tf.convert_to_tensor(o) for o in body(*phs)]
      sess = tf.compat.v1.Session(graph=g, config=tf.compat.v1.ConfigProto(
          intra_op_parallelism_threads=1, inter_op_parallelism_threads=1))

      def traced(arrs):
        return sess.run(outs, {p: a for ps, as_ in zip(phs, arrs) for p, a in zip(ps, as_)})
    else:
      f = tf.function(body, input_signature=[tuple(s) for s in sigs])
      f.get_concrete_function()

      def traced(arrs):
        return [lib.npy(x) for x in f(*[tuple(tf.constant(a, lib.tf_dtype(dt)) for a in as_) for as_ in arrs])]
  except Exception:  # pylint: disable=broad-except
    if may_raise:
      ctx.outcome((name, pattern, 'not supported'))
      return
    raise
  for k in range(n):
    specs = [v[k % len(v)] for v in vs]
    if any(not sig.shape.is_compatible_with(sh) for sg, s in zip(sigs, specs) for sig, sh in zip(sg, lib.core_shapes(s))):
      continue  # achievable ranks of this structure do not fit the traced ones
    made = [lib.make(s, 3 + i, 'r', dt) for i, s in enumerate(specs)]
    eager = fn(*[m[0] for m in made])
    want = values(form_of(eager), [lib.npy(x) for x in parts(eager)])
    ctx.step(2)
    try:
      got_parts = [np.asarray(x) for x in traced([m[2] for m in made])]
    except Exception:  # pylint: disable=broad-except
      if may_raise:
        ctx.outcome((name, pattern, 'not supported at run time'))
        continue
      raise
    what = '%s traced with pattern %s, run on %s' % (name, pattern, specs)
    ctx.check(meta['form'] == form_of(eager), '%s: kind of the result is %s, eager gives %s' % (what, meta['form'], form_of(eager)))
    got = values(meta['form'], got_parts)
    ctx.check(len(got) == len(want), '%s: %d results, eager gives %d' % (what, len(got), len(want)))
    for a, e in zip(got, want):
      tol = 2e-3 if dt == 'float32' or 'cast' in name else 1e-8
      scale = max([1.] + [float(np.prod([np.linalg.norm(c) for c in m[2]])) for m in made])
      ctx.check(a.dtype.kind == e.dtype.kind and lib.close(a, e, tol=tol, scale=max(scale, np.max(np.abs(e)) if e.size else 0.)),
                lambda: '%s: %s' % (what, lib.describe(a, e)))
      ctx.outcome((name, pattern, a.shape, round(float(np.sum(a)), 4)))
    if 'static' in meta:
      # Static information must be true of every run.
      raw, ranks, shape, batch, _ = meta['static']
      b = meta['form'] == 'ttb'
      shapes = [list(c.shape)[1:] if b else list(c.shape) for c in got_parts]
      act_raw = [[s[1 + i] for s in shapes] for i in range(len(shapes[0]) - 2)]
      act_ranks = [s[0] for s in shapes] + [shapes[-1][-1]]
      act_b = got_parts[0].shape[0] if b else None
      act_shape = ([act_b] if b else []) + (act_raw[0] if len(act_raw) == 1 else [int(np.prod(x)) for x in act_raw])
      ok = len(raw) == len(act_raw) and all(fits(x, y) for x, y in zip(raw, act_raw)) and fits(ranks, act_ranks) and fits(shape, act_shape) and (
          not b or fits([batch], [act_b]))
      ctx.check(ok, lambda: '%s: static shape %s, ranks %s, batch %s but the run gives %s, %s, %s' % (
          what, raw, ranks, batch, act_raw, act_ranks, act_b))


def fits(static, actual):
  return len(static) == len(actual) and all(s is None or s == a for s, a in zip(static, actual))
