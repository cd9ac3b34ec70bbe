"""C01: a TT-object denotes the contraction of its cores; metadata is truthful."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C01'
BOUND = ('tensors d<=3 modes {1,2,3} ranks {1,2,3}, d=4 modes {1,2} ranks {1,2}; matrices d<=2 six mode pairs '
         'ranks {1,2,3}, d=3 three mode pairs ranks {1,2}; batch single,1,2,3; single axes to d=12, mode 40, '
         'rank 33, batch 64; every way of passing shape / ranks / batch size; NumPy, tensor and variable '
         'cores; float64/float32/float16/complex/int32/int64; all products of elementary cores and all {-1,0,1} cores of tiny shapes')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: NumPy contraction of the cores',
               'integer, half precision and complex dtypes only for construction, metadata and densification']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  small = lib.small_tensors((1, 2, 3)) + lib.small_tensors((4,), (1, 2), (1, 2)) + \
      lib.small_matrices((1, 2), rank_values=(1, 2, 3)) + \
      lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2)) if not deep else ((1, 2), (2, 1), (2, 2), (3, 2), (1, 1)))
  if deep:
    small += lib.small_tensors((4,), (1, 2, 3), (1, 2)) + lib.small_tensors((5,), (1, 2), (1, 2))
  for s in small:
    for b in (None, 1, 2, 3):
      out.append(['obj', lib.with_batch(s, b), 'float64'])
      if lib.ndims(s) <= 2:
        for dt in ('float32', 'int32', 'int64', 'float16', 'complex64', 'complex128'):
          out.append(['obj', lib.with_batch(s, b), dt])
  for s in lib.axial_tensors() + lib.axial_matrices():
    for b in (None, 1, 2, 4, 5, 9):
      for dt in ('float64', 'float32'):
        out.append(['obj', lib.with_batch(s, b), dt])
  for s, b in lib.far_batches():
    out.append(['obj', lib.with_batch(s, b), 'float64'])
  for s in lib.small_tensors((1, 2, 3), (1, 2), (1, 2)) + lib.small_matrices((1, 2), ((1, 2), (2, 1), (3, 2))):
    for b in (None, 1, 3):
      out.append(['args', lib.with_batch(s, b)])
  # All products of elementary cores: complete by multilinearity for the shape.
  for s in ([spec_t([2, 2], [1, 2, 1]), spec_t([2, 1, 2], [1, 2, 2, 1]), spec_t([3, 2], [1, 2, 1]),
             spec_t([2, 2, 2], [1, 2, 2, 1]), spec_m([2, 1], [1, 2], [1, 2, 1]),
             spec_m([2, 2], [2, 1], [1, 2, 1])]):
    sizes = [int(np.prod(c)) for c in lib.core_shapes(s)]
    for first in range(sizes[0]):
      out.append(['basis', s, first])
  for shape, r in (((1,), 1), ((3,), 1), ((2, 2), 1), ((1, 2), 2), ((2, 1), 2), ((2, 1, 2), 1)):
    out.append(['values', list(shape), r])
  return out + contexts.cases(ID, tier)


def observe(ctx, tt, spec, dense, dt, what):
  """Every public way to look at the object."""
  t3f, tf = lib.t3f, lib.tf
  lib.expect_tt(ctx, tt, dense, spec, what, dt)
  meta_ranks = spec[2]
  ctx.check(tt.get_tt_ranks().as_list() == list(meta_ranks), '%s: TT-ranks' % what)
  f = t3f.full(tt)
  got = tf.as_dtype(f.dtype).name
  ctx.check(got == dt, '%s: full() has dtype %s' % (what, got))
  fa = lib.wide(f.numpy())
  ctx.check(lib.close(fa, dense, dt if dt in lib.TOL else 'float64'),
            lambda: '%s: full(): %s' % (what, lib.describe(fa, dense)))
  rs = lib.raw_shape(spec)
  ds = list(lib.dense_shape(spec))
  sh = t3f.shapes
  obs = {'tt_ranks': (sh.tt_ranks(tt), list(meta_ranks)),
         't3f.tt_ranks': (t3f.tt_ranks(tt), list(meta_ranks)),
         'lazy_tt_ranks': (sh.lazy_tt_ranks(tt), list(meta_ranks)),
         'shape': (sh.shape(tt), ds), 't3f.shape': (t3f.shape(tt), ds),
         'lazy_shape': (sh.lazy_shape(tt), ds),
         'raw_shape': (sh.raw_shape(tt), rs), 't3f.raw_shape': (t3f.raw_shape(tt), rs),
         'lazy_raw_shape': (sh.lazy_raw_shape(tt), rs)}
  if spec[3] is not None:
    obs['batch_size'] = (sh.batch_size(tt), spec[3])
    obs['lazy_batch_size'] = (sh.lazy_batch_size(tt), spec[3])
  for k, (g, e) in obs.items():
    g = lib.npy(g)
    ctx.check(np.array_equal(g, np.array(e)), lambda: '%s: %s gives %s, expected %s' % (what, k, g.tolist(), e))
  ctx.step(2 + len(obs))
  ctx.check(tt.left_tt_rank_dim == (0 if spec[3] is None else 1), '%s: left_tt_rank_dim' % what)
  ctx.check(tt.right_tt_rank_dim == len(tt.tt_cores[0].shape) - 1, '%s: right_tt_rank_dim' % what)
  ctx.check(isinstance(str(tt), str) and len(str(tt)) > 0, '%s: str()' % what)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  if kind == 'obj':
    _, s, dt = case
    cores = lib.np_cores(s, 5, 'i')
    dense = lib.np_dense(cores, s[0] == 'm', s[3] is not None)
    tt = lib.build(s, cores, dt)
    ctx.state((str(s), dt))
    observe(ctx, tt, s, dense, dt, 'object %s' % s)
    ctx.check(not tt.is_variable(), 'is_variable() of constants')
    # Batch <-> single conversions.
    ex = t3f.shapes.expand_batch_dim(tt)
    e_spec = s if s[3] is not None else lib.with_batch(s, 1)
    lib.expect_tt(ctx, ex, dense if s[3] is not None else dense[None], e_spec, 'expand_batch_dim(%s)' % s, dt)
    sq = t3f.shapes.squeeze_batch_dim(tt)
    q_spec = lib.with_batch(s, None) if s[3] == 1 else s
    lib.expect_tt(ctx, sq, dense[0] if s[3] == 1 else dense, q_spec, 'squeeze_batch_dim(%s)' % s, dt)
    ctx.step(2)
    if s[3] is None:
      lib.expect_raises(ctx, lambda: t3f.shapes.batch_size(tt), 'batch_size of a single object', ValueError)
      lib.expect_raises(ctx, lambda: t3f.shapes.lazy_batch_size(tt), 'lazy_batch_size of a single object', ValueError)
      ctx.step(2)
    for ob in (None, 1, 2, 3):
      other = lib.make(lib.with_batch(spec_t([2], [1, 1]), ob), 0)[0]
      want = s[3] is None or ob is None or s[3] == ob or s[3] == 1 or ob == 1
      for x, y in ((tt, other), (other, tt)):
        ctx.check(t3f.shapes.is_batch_broadcasting_possible(x, y) == want,
                  'is_batch_broadcasting_possible(%s, %s)' % (s[3], ob))
        ctx.step()
  elif kind == 'args':
    s = case[1]
    cores = lib.np_cores(s, 6, 'i')
    dense = lib.np_dense(cores, s[0] == 'm', s[3] is not None)
    ctx.state(('args', str(s)))
    TS = tf.TensorShape
    raw = lib.raw_shape(s)
    shape_forms = [None, tuple(TS(r) for r in raw), [TS(r) for r in raw],
                   np.array(s[1]), s[1]]
    if s[0] == 't':
      shape_forms += [TS(s[1]), tuple(s[1]), [s[1]]]
    rank_forms = [None, list(s[2]), tuple(s[2]), np.array(s[2]), TS(s[2])]
    batch_forms = [{}] if s[3] is None else [{}, {'batch_size': s[3]}]
    core_forms = [list(cores), tuple(tf.constant(c) for c in cores)]
    cls = t3f.TensorTrain if s[3] is None else t3f.TensorTrainBatch
    for sf, rf, bf, cf in itertools.product(shape_forms, rank_forms, batch_forms, core_forms):
      tt = cls(cf, shape=sf, tt_ranks=rf, **bf)
      lib.expect_tt(ctx, tt, dense, s, 'constructor %s shape=%s ranks=%s %s' % (s, sf, rf, bf))
      ctx.check(tt.get_tt_ranks().as_list() == list(s[2]), 'TT-ranks of %s' % s)
      ctx.step()
    for conv in (True, False):
      vs = [tf.Variable(c) for c in cores]
      tt = cls(vs, convert_to_tensors=conv)
      observe(ctx, tt, s, dense, 'float64', 'object of variables %s' % s)
      ctx.check(tt.is_variable() == (not conv), 'is_variable() with convert_to_tensors=%s' % conv)
    # Cores given as a generator / list that the caller modifies later.
    lst = [tf.constant(c) for c in cores]
    tt = cls(lst)
    lst[0] = None
    observe(ctx, tt, s, dense, 'float64', 'object after its argument list changed %s' % s)
  elif kind == 'basis':
    _, s, first = case
    shp = lib.core_shapes(s)
    sizes = [int(np.prod(c)) for c in shp]
    combos = [(first,) + p for p in itertools.product(*[range(n) for n in sizes[1:]])]
    cores = []
    for k in range(len(shp)):
      e = np.zeros((len(combos), sizes[k]))
      e[np.arange(len(combos)), [c[k] for c in combos]] = 1.
      cores.append(e.reshape((len(combos),) + shp[k]))
    bs = lib.with_batch(s, len(combos))
    dense = lib.np_dense(cores, s[0] == 'm', True)
    fb = t3f.full(lib.build(bs, cores))
    lib.expect_value(ctx, fb, dense, 'full(basis %s)' % s)
    for i in range(len(combos)):
      tt = lib.build(s, [c[i] for c in cores])
      lib.expect_value(ctx, t3f.full(tt), dense[i], 'full(basis element %s %s)' % (s, combos[i]))
      ctx.state(('basis', str(s), combos[i]))
    ctx.step(1 + len(combos))
  else:
    _, shape, r = case
    d = len(shape)
    s = spec_t(shape, [1] + [r] * (d - 1) + [1])
    shp = lib.core_shapes(s)
    sizes = [int(np.prod(c)) for c in shp]
    vals = np.array(list(itertools.product((-1., 0., 1.), repeat=sum(sizes))))
    off = np.cumsum([0] + sizes)
    cores = [vals[:, off[k]:off[k + 1]].reshape((len(vals),) + shp[k]) for k in range(d)]
    dense = lib.np_dense(cores, False, True)
    lib.expect_value(ctx, t3f.full(lib.build(lib.with_batch(s, len(vals)), cores)), dense, 'full(all values)')
    for i in range(len(vals)):
      lib.expect_value(ctx, t3f.full(lib.build(s, [c[i] for c in cores])), dense[i], 'full(values %s)' % vals[i])
      ctx.state(('val', str(shape), r, i))
    ctx.step(1 + len(vals))
