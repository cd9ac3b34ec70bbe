"""C16: constant and random initializers: structure, values, validation."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C16'
BOUND = ('tensors d<=4 modes {1,2,3}, matrices d<=3 six mode pairs and omitted rows or columns; TT-rank: default, numbers 1..3, arrays over '
         '{1,2,3}; batch size default,1..5,9; shape as list, tuple, array; dtype default, float32, float64 (int32, int64 for constants); '
         'single axes to d=12, mode 40, rank 33, batch 64; invalid arguments: every position of a zero, negative or '
         'fractional size, wrong number of axes, wrong or fractional or non-positive TT-ranks in every position, batch sizes')
BOUND += contexts.BOUND
ASSUMPTIONS = ['values of random objects are only required to be finite, pairwise distinct and fresh at every call (distribution: C27)']

FORMS = ('list', 'tuple', 'array')


def form(x, f):
  if f == 'array':
    return np.array(x)
  return (tuple if f == 'tuple' else list)(tuple(y) if f == 'tuple' and isinstance(y, list) else y for y in x)


def cases(tier):
  out = []
  ts = [list(s) for d in (1, 2, 3, 4) for s in itertools.product((1, 2, 3), repeat=d)]
  ts += [[2] * d for d in (5, 6, 7, 8, 10, 12)] + [[n, 2, 3] for n in (4, 6, 7, 16, 33)] + [[2, n] for n in (4, 5, 6, 10)]
  six = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2))
  ms = [[[p[0] for p in ps], [p[1] for p in ps]] for d in (1, 2, 3) for ps in itertools.product(six, repeat=d)]
  ms += [[[2] * d, [1, 3, 2, 1, 2, 1][:d]] for d in range(4, 7)] + [[[n, 2], [3, n]] for n in (4, 5, 8)]
  for s in ts:
    out.append(['const_t', s])
    out.append(['rand_t', s])
  for s in ms:
    out.append(['const_m', s])
    out.append(['rand_m', s])
  for s in [list(s) for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)]:
    for s2 in ([s, None], [None, s]):
      out.append(['const_m', s2])
      out.append(['rand_m', s2])
  for d in (1, 2, 3, 4):
    out.append(['bad_t', d])
    out.append(['bad_m', d])
  specs = lib.small_tensors((1, 2, 3), rank_values=(1, 2)) + lib.small_matrices((1, 2)) + lib.axial_tensors() + lib.axial_matrices()
  for s in specs:
    out.append(['like', s])
  out.append(['notimpl'])
  return out + contexts.cases(ID, tier)


def msp(shape):
  r, c = shape
  if r is None:
    r = [1] * len(c)
  if c is None:
    c = [1] * len(r)
  return r, c


def ranks_of(rank, d):
  return list(rank) if isinstance(rank, (list, tuple, np.ndarray)) else [1] + [int(rank)] * (d - 1) + [1]


def rank_args(d):
  out = [None, 1, 2, 3, np.int64(2)]
  if d <= 3:
    out += rank_choices(d, (1, 2, 3))
    out += [tuple(rank_choices(d, (2,))[0]), np.array(rank_choices(d, (3,))[0])]
  else:
    out += [[1] + ([2, 3, 1, 2, 4, 2, 3] * 2)[:d - 1] + [1]]
  return out


def distinct(ctx, tt, what):
  v = np.concatenate([lib.npy(c).reshape(-1) for c in tt.tt_cores])
  ctx.check(bool(np.all(np.isfinite(v))), '%s: values are not finite' % what)
  ctx.check(len(np.unique(v)) == len(v), '%s: elements of the cores are not drawn separately' % what)
  return v


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  ctx.state(str(case))
  if kind in ('const_t', 'const_m'):
    shape = case[1]
    if kind == 'const_t':
      spec = spec_t(shape, [1] * (len(shape) + 1))
      N = lib.dense_shape(spec)
      n = int(np.prod(shape))
      fns = [(t3f.tensor_ones, spec, np.ones(N)), (t3f.tensor_zeros, spec, np.zeros(N))]
      if n <= 64:
        fns.append((t3f.eye, spec_m(shape, shape, spec[2]), np.eye(n)))
    else:
      r, c = msp(shape)
      spec = spec_m(r, c, [1] * (len(r) + 1))
      N = lib.dense_shape(spec)
      fns = [(t3f.matrix_ones, spec, np.ones(N)), (t3f.matrix_zeros, spec, np.zeros(N))]
    for fn, sp, ref in fns:
      for f in FORMS:
        if f == 'array' and None in shape:
          continue
        arg = form(shape, f)
        lib.expect_tt(ctx, fn(arg), ref, sp, '%s(%s)' % (fn.__name__, shape), 'float32', max_ranks=sp[2])
        ctx.step()
        for dt in ('float32', 'float64', 'int32', 'int64'):
          lib.expect_tt(ctx, fn(arg, dtype=lib.tf_dtype(dt)), ref, sp, '%s(%s, %s)' % (fn.__name__, shape, dt), dt, max_ranks=sp[2])
          ctx.step()
      lib.expect_tt(ctx, fn(shape, tf.float64, 'a_name'), ref, sp, '%s(%s) positional' % (fn.__name__, shape), 'float64', max_ranks=sp[2])
      if f == 'array' and None not in shape:
        ctx.check(np.array_equal(arg, np.array(shape)), '%s changed its argument' % fn.__name__)
    if kind == 'const_m' and isinstance(shape, list):
      ctx.check(shape == case[1], 'the shape argument was modified')
  elif kind in ('rand_t', 'rand_m'):
    shape = case[1]
    if kind == 'rand_t':
      mk = lambda r, b: spec_t(shape, r, b)
      d = len(shape)
      single = [t3f.random_tensor, t3f.tensor_with_random_cores]
      batch = [t3f.random_tensor_batch, t3f.tensor_batch_with_random_cores]
    else:
      rr, cc = msp(shape)
      mk = lambda r, b: spec_m(rr, cc, r, b)
      d = len(rr)
      single = [t3f.random_matrix, t3f.matrix_with_random_cores, t3f.glorot_initializer, t3f.he_initializer, t3f.lecun_initializer]
      batch = [t3f.random_matrix_batch, t3f.matrix_batch_with_random_cores]
    i = 0
    for rank in rank_args(d):
      want = ranks_of(2 if rank is None else rank, d)
      for fn in single + batch:
        for b in (None, 1, 2, 3) if fn in batch else (None,):
          i += 1
          kw = {} if rank is None else {'tt_rank': rank}
          wb = None
          if fn in batch:
            wb = 1 if b is None else b
            if b is not None:
              kw['batch_size'] = b
          dt = 'float64' if i % 2 else 'float32'
          if dt == 'float64':
            kw['dtype'] = tf.float64
          elif i % 4 == 0:
            kw['dtype'] = tf.float32
          f = FORMS[i % 3]
          if f == 'array' and None in shape:
            f = 'list'
          arg = form(shape, f)
          sp = mk(want, wb)
          tt = fn(arg, **kw)
          what = '%s(%s, %s)' % (fn.__name__, shape, kw)
          meta = lib.expect_tt(ctx, tt, None, sp, what, dt, value=False)
          ctx.check(meta['ranks'] == want, lambda: '%s: TT-ranks %s, expected %s' % (what, meta['ranks'], want))
          ctx.step()
          if dt == 'float64':
            v = distinct(ctx, tt, what)
            w = distinct(ctx, fn(arg, **kw), what)
            ctx.check(not np.any(v == w), '%s: two calls share their random values' % what)
            ctx.step()
          ctx.state((str(case), str(rank), fn.__name__, b))
    for b in (4, 5, 9, 17, 33):
      for fn in batch:
        r = 5 if b == 4 else 2
        tt = fn(shape, r, b, dtype=tf.float64)
        lib.expect_tt(ctx, tt, None, mk(ranks_of(r, d), b), '%s(%s, %d, %d)' % (fn.__name__, shape, r, b), 'float64', value=False)
        distinct(ctx, tt, fn.__name__)
        ctx.step()
    if d <= 3:
      for r in (5, 12):
        for fn in single:
          lib.expect_tt(ctx, fn(shape, r), None, mk(ranks_of(r, d), None), '%s(%s, %d)' % (fn.__name__, shape, r), 'float32', value=False)
          ctx.step()
  elif kind == 'like':
    s = case[1]
    for b, dt, val in ([(b, dt, 'i') for b in (None, 1, 2, 3) for dt in ('float64', 'float32')] +
                       [(b, 'float64', val) for b in (None, 2, 4, 5) for val in lib.VARIANTS] +
                       [(b, dt, 'i') for b in (None, 4, 5) for dt in ('int32', 'int64', 'float32')]):
        tt, dense, cores = lib.make(lib.with_batch(s, b), 161, val, dt)
        sp = lib.with_batch(s, None)
        N = lib.dense_shape(sp)
        lib.expect_tt(ctx, t3f.ones_like(tt), np.ones(N), sp, 'ones_like(%s batch %s)' % (s, b), dt, max_ranks=[1] * len(s[2]))
        lib.expect_tt(ctx, t3f.zeros_like(tt), np.zeros(N), sp, 'zeros_like(%s batch %s)' % (s, b), dt, max_ranks=[1] * len(s[2]))
        ctx.step(2)
        lib.unchanged(ctx, tt, cores, 'ones_like')
    for x in (np.ones(3), [1, 2], None, tf.ones((2, 2)), 3):
      lib.expect_raises(ctx, lambda: t3f.ones_like(x), 'ones_like of something that is not a TT-object', ValueError)
      lib.expect_raises(ctx, lambda: t3f.zeros_like(x), 'zeros_like of something that is not a TT-object', ValueError)
  elif kind == 'notimpl':
    for fn, sh in ((t3f.random_tensor, [2, 2]), (t3f.random_matrix, [[2, 2], [2, 2]]), (t3f.random_tensor_batch, [2, 2]),
                   (t3f.random_matrix_batch, [[2, 2], [2, 2]])):
      for mean in (1., -2., 0.5):
        lib.expect_raises(ctx, lambda: fn(sh, mean=mean), '%s with a non-zero mean' % fn.__name__, NotImplementedError)
        ctx.step()
  elif kind == 'bad_t':
    d = case[1]
    shapes = []
    for k in range(d):
      for v in (0, -1, -3):
        shapes.append([v if i == k else 2 for i in range(d)])
      shapes.append([1.5 if i == k else 2. for i in range(d)])
    shapes.append([2.] * d)
    shapes.append([[2] * d])
    shapes.append([[2] * d, [2] * d])
    for fn in (t3f.tensor_ones, t3f.tensor_zeros, t3f.eye, t3f.random_tensor, t3f.tensor_with_random_cores, t3f.random_tensor_batch,
               t3f.tensor_batch_with_random_cores):
      for sh in shapes:
        lib.expect_raises(ctx, lambda: fn(sh), '%s(%s)' % (fn.__name__, sh), ValueError)
        ctx.step()
    bad_ranks(ctx, d, [2] * d, (t3f.random_tensor, t3f.tensor_with_random_cores, t3f.random_tensor_batch, t3f.tensor_batch_with_random_cores))
    bad_batch(ctx, [2] * d, (t3f.random_tensor_batch, t3f.tensor_batch_with_random_cores))
  else:
    d = case[1]
    shapes = []
    shapes.append([[2.] * d, [3.] * d])
    shapes.append([[2] * d, [3.] * d])
    for row in range(2):
      for k in range(d):
        for v in (0, -1, 1.5):
          s = [[2] * d, [3] * d]
          s[row][k] = v
          shapes.append(s)
      s = [[2] * d, [3] * d]
      s[row] = s[row] + [2]
      shapes.append(s)
      s = [None, None]
      s[row] = [2] * (d - 1) + [0]
      shapes.append(s)
    shapes.append([[[2] * d, [2] * d]])
    fns = (t3f.matrix_ones, t3f.matrix_zeros, t3f.random_matrix, t3f.matrix_with_random_cores, t3f.random_matrix_batch,
           t3f.matrix_batch_with_random_cores, t3f.glorot_initializer, t3f.he_initializer, t3f.lecun_initializer)
    for fn in fns:
      for sh in shapes[:-1]:
        lib.expect_raises(ctx, lambda: fn([None if x is None else list(x) for x in sh]), '%s(%s)' % (fn.__name__, sh), ValueError)
        ctx.step()
    bad_ranks(ctx, d, [[2] * d, [3] * d], fns[2:])
    bad_batch(ctx, [[2] * d, [3] * d], (t3f.random_matrix_batch, t3f.matrix_batch_with_random_cores))


def bad_ranks(ctx, d, shape, fns):
  good = [1] + [2] * (d - 1) + [1]
  ranks = [0, -1, 1.5, 2.]
  for k in range(d + 1):
    for v in (0, -2):
      ranks.append([v if i == k else r for i, r in enumerate(good)])
    ranks.append([1.5 if i == k else float(r) for i, r in enumerate(good)])
  ranks += [good + [1], good + [1, 1], [float(r) for r in good], np.array(good, np.float32), tuple(float(r) for r in good)]
  if d >= 2:
    ranks += [good[:-1], good[1:]]
  ranks += [[2] + good[1:], good[:-1] + [2]]
  for fn in fns:
    for r in ranks:
      lib.expect_raises(ctx, lambda: fn(shape, tt_rank=r), '%s(%s, tt_rank=%s)' % (fn.__name__, shape, r), ValueError)
      ctx.step()


def bad_batch(ctx, shape, fns):
  for fn in fns:
    for b in (0, -1, -5, 1.5, 2., np.float64(3.), np.int64(0), np.int32(-2)):
      lib.expect_raises(ctx, lambda: fn(shape, batch_size=b), '%s(%s, batch_size=%s)' % (fn.__name__, shape, b), ValueError)
      ctx.step()
