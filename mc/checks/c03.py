"""C03: reading elements and sub-tensors of a TT-object."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.lib import spec_t, spec_m

ID = 'C03'
BOUND = ('indexing: tensors d<=3 modes {1,2,3} inner ranks {1,2,3} with every combination of '
         'per-axis indices (all ints, -1, six slice forms), batch 1..3; single axes to d=12, mode 40, rank 33, batch 64; '
         'tf / NumPy scalar indices; tiny, huge, badly balanced, all-zero, variable, integer, half precision and complex objects; gather_nd: every index of every small shape, as one list, element by element, '
         'reversed, repeated, and in 3-D and 4-D arrays; wrong index counts and out-of-range indices')
BOUND += contexts.BOUND
ASSUMPTIONS = ['reference model: NumPy indexing of the dense array',
               'reading with every index given exactly is a known finding (KF02), excluded elsewhere']

SL = [None, [0, 1, None], [1, None, None], [None, -1, None], [None, None, 2], [1, 3, None]]


def dec(i):
  """JSON index -> Python index."""
  if i is None:
    return slice(None)
  if isinstance(i, list):
    if i[0] == 'tf':
      return lib.tf.constant(i[1])
    if i[0] == 'np':
      return np.int64(i[1])
    return slice(*i)
  return i


def npi(i):
  if isinstance(i, list) and i[0] in ('tf', 'np'):
    return i[1]
  return dec(i)


def is_exact(i):
  return isinstance(i, int) or (isinstance(i, list) and i[0] in ('tf', 'np'))


def axis_choices(n, slices):
  out = [None] + list(range(n)) + [-1]
  for s in slices[1:]:
    if len(range(*slice(*s).indices(n))) > 0:
      out.append(s)
  return out


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for s in lib.small_tensors((1, 2, 3)):
    for b in (None, 1, 2, 3):
      if lib.ndims(s) == 3 and b in (1, 2) and not deep and max(s[2]) > 2:
        continue
      out.append(['get', lib.with_batch(s, b)])
  for s in lib.small_tensors((4,), (1, 2), (1, 2)):
    for b in (None, 2):
      out.append(['get4', lib.with_batch(s, b)])
  for s in lib.axial_tensors():
    for b in (None, 1, 5, 9):
      out.append(['getax', lib.with_batch(s, b)])
  for s, b in lib.far_batches():
    if s[0] == 't':
      out.append(['getax', lib.with_batch(s, b)])
      out.append(['gather', lib.with_batch(s, b), 'float64'])
    else:
      out.append(['batchm', lib.with_batch(s, b)])
  for s in lib.small_matrices((1, 2, 3), ((1, 2), (2, 2), (3, 1)), (1, 2)):
    for b in (1, 2, 3, 5):
      out.append(['batchm', lib.with_batch(s, b)])
  for s in lib.small_tensors((1, 2, 3)) + lib.small_tensors((4,), (1, 2), (1, 2)) + lib.axial_tensors():
    for b in (None, 1, 2, 3):
      out.append(['gather', lib.with_batch(s, b), 'float64'])
    for b in (None, 4):
      out.append(['gather', lib.with_batch(s, b), 'float32'])
  for s in lib.special_specs():
    for b in (None, 1, 4, 5):
      for k in lib.VARIANTS:
        for dt in ('float64', 'float32'):
          out.append(['special', lib.with_batch(s, b), k, dt])
      for dt in ('int32', 'int64', 'float16', 'complex64', 'complex128'):
        out.append(['special', lib.with_batch(s, b), 'i', dt])
  for s in lib.small_tensors((1, 2, 3), (2, 3), (2,)):
    for b in (None, 1, 2):
      out.append(['bad', lib.with_batch(s, b)])
  out.append(['badm'])
  out.append(['known', 'KF02'])
  return out + contexts.cases(ID, tier)


def get(ctx, tt, dense, s, idx, dt='float64', scale=None):
  """tt[idx] against dense[idx]; idx is a list in the JSON encoding."""
  spec = tuple(dec(i) for i in idx)
  ref = dense[tuple(npi(i) for i in idx)]
  res = tt[spec[0]] if len(spec) == 1 and s[3] is not None else tt[spec]
  ctx.step()
  ctx.state(('idx', str(s), str(idx)))
  batch = None
  if s[3] is not None and not is_exact(idx[0]):
    batch = ref.shape[0]
  if s[0] == 'm':
    rs = ['m', s[1], None, batch]
  else:
    rs = ['t', list(ref.shape if batch is None else ref.shape[1:]), None, batch]
  lib.expect_tt(ctx, res, ref, rs, 'getitem(%s)[%s]' % (s, idx), dt, scale=scale)


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  if kind in ('get', 'get4', 'getax'):
    s = case[1]
    tt, dense, cores = lib.make(s, 11, 'i')
    d = lib.ndims(s)
    shape = s[1]
    ctx.state(str(s))
    batch_choices = [[]]
    if s[3] is not None:
      batch_choices = [[None], [0], [s[3] - 1], [-1], [[0, 1, None]], [[None, None, 2]]]
      if s[3] > 1:
        batch_choices += [[[1, None, None]]]
    if kind == 'get':
      slices = SL if d <= 2 else ([None, [1, None, None], [None, None, 2]])
      if d == 3 and s[3] is not None:
        batch_choices = [[None], [s[3] - 1], [[0, 1, None]]]
        slices = [None, [1, None, None]]
      per_axis = [axis_choices(n, slices) if (d <= 2 or s[3] is None) else
                  [x for x in axis_choices(n, slices) if x != -1] for n in shape]
      combos = list(itertools.product(*per_axis))
    elif kind == 'get4':
      batch_choices = batch_choices[:1] + batch_choices[2:3]
      combos = list(itertools.product(*[[None, 0, n - 1] for n in shape]))
    else:
      batch_choices = batch_choices[:1] + batch_choices[2:3] + batch_choices[5:6]
      combos = []
      for pos in range(d):
        for i in axis_choices(shape[pos], SL) + [['tf', 0], ['np', shape[pos] - 1]]:
          c = [None] * d
          c[pos] = i
          combos.append(tuple(c))
          c = [n - 1 for n in shape]
          c[pos] = i
          combos.append(tuple(c))
      for lo in range(d):
        for hi in range(lo + 1, d + 1):
          c = [None] * d
          for k in range(lo, hi):
            c[k] = shape[k] // 2
          combos.append(tuple(c))
    if kind == 'get' and d <= 2:
      for pos in range(d):
        for i in (['tf', 0], ['np', shape[pos] - 1]):
          c = [None] * d
          c[pos] = i
          combos.append(tuple(c))
      if s[3] is not None:
        batch_choices += [[['tf', s[3] - 1]], [['np', 0]]]
    for c in combos:
      if all(is_exact(i) for i in c):
        continue
      for b in batch_choices:
        get(ctx, tt, dense, s, b + list(c))
    if s[3] is not None:
      for b in batch_choices + [[['tf', 0]], [['np', s[3] - 1]]]:
        get(ctx, tt, dense, s, b)
    lib.unchanged(ctx, tt, cores, 'indexing')
  elif kind == 'special':
    _, s, k, dt = case
    tt, dense, cores = lib.make(s, 17, k, dt)
    ctx.state(str(case))
    sc = lib.core_scale(cores)
    bc = [[]] if s[3] is None else [[None], [s[3] - 1], [[1, None, None] if s[3] > 1 else [0, 1, None]]]
    if s[0] == 't':
      for c in itertools.product(*[[None, n - 1, [1, None, None] if n > 1 else 0] for n in s[1]]):
        if not all(is_exact(i) for i in c):
          for b in bc:
            get(ctx, tt, dense, s, b + list(c), dt, sc)
      al = np.array(list(itertools.product(*[range(n) for n in dense.shape])))
      lib.expect_value(ctx, t3f.gather_nd(tt, al), dense[tuple(al.T)], 'gather_nd%s' % (case[1:],), dt, scale=sc)
      ctx.step()
    if s[3] is not None:
      for b in bc:
        get(ctx, tt, dense, s, b, dt, sc)
    lib.unchanged(ctx, tt, cores, 'indexing')
  elif kind == 'batchm':
    s = case[1]
    tt, dense, cores = lib.make(s, 12, 'i')
    ctx.state(str(s))
    for b in [None, [0, 1, None], [None, None, 2], [None, None, -1], ['tf', 0], ['np', s[3] - 1], -1] + list(range(s[3])):
      get(ctx, tt, dense, s, [b])
    lib.unchanged(ctx, tt, cores, 'indexing')
  elif kind == 'gather':
    _, s, dt = case
    tt, dense, cores = lib.make(s, 13, 'i', dt)
    ctx.state(('gather', str(s), dt))
    full = dense.shape
    al = np.array(list(itertools.product(*[range(n) for n in full])))
    if len(al) > 700:
      # axial shapes: all indices on a stride coprime with every mode, plus corners
      al = np.concatenate([al[::7], al[-1:], al[:3]])
    ref = dense[tuple(al.T)]
    for what, idx, e in (('all', al, ref), ('reversed', al[::-1].copy(), ref[::-1]),
                         ('repeated', np.repeat(al, 2, 0), np.repeat(ref, 2))):
      for it in ('int32', 'int64'):
        lib.expect_value(ctx, t3f.gather_nd(tt, tf.constant(idx, getattr(tf, it))), e,
                         'gather_nd %s(%s)' % (what, s), dt)
        ctx.step()
    lib.expect_value(ctx, t3f.gather_nd(tt, al.tolist()), ref, 'gather_nd list(%s)' % s, dt)
    lib.expect_value(ctx, t3f.gather_nd(tt, np.stack([al, al[::-1]], 1)), np.stack([ref, ref[::-1]], 1),
                     'gather_nd 3-D(%s)' % s, dt)
    lib.expect_value(ctx, t3f.gather_nd(tt, np.stack([al, al[::-1]], 0)[:, None]), np.stack([ref, ref[::-1]], 0)[:, None],
                     'gather_nd 4-D(%s)' % s, dt)
    ctx.step(3)
    for k in range(min(len(al), 40)):
      lib.expect_value(ctx, t3f.gather_nd(tt, al[k]), ref[k], 'gather_nd one index(%s)' % s, dt)
      lib.expect_value(ctx, t3f.gather_nd(tt, al[k:k + 1]), ref[k:k + 1], 'gather_nd list of one(%s)' % s, dt)
      ctx.step(2)
      ctx.state(('el', str(s), k))
    lib.unchanged(ctx, tt, cores, 'gather_nd')
  elif kind == 'bad':
    s = case[1]
    tt, dense, _ = lib.make(s, 14, 'i')
    d = lib.ndims(s)
    nd = d + (s[3] is not None)
    for n in range(1, nd + 3):
      if n != nd:
        lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, np.zeros((2, n), np.int32)),
                          'gather_nd of %s with %d indices' % (s, n), ValueError)
        ctx.step()
        if not (s[3] is not None and n == 1):
          lib.expect_raises(ctx, lambda: tt[(slice(None),) * n], '%s indexed with %d indices' % (s, n), ValueError)
          lib.expect_raises(ctx, lambda: tt[(0,) * (n - 1) + (slice(None),)],
                            '%s indexed with %d indices' % (s, n), ValueError)
          ctx.step(2)
    for pos in range(nd):
      for bad in (dense.shape[pos], dense.shape[pos] + 3):
        i = [0] * nd
        i[pos] = bad
        lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, np.array([i])), 'gather_nd(%s) at %s' % (s, i))
        j = [slice(None)] * nd
        j[pos] = bad
        if d > 1:
          lib.expect_raises(ctx, lambda: tt[tuple(j)], 'out-of-range index %s of %s' % (j, s))
        ctx.step(2)
  elif kind == 'badm':
    for b in (None, 2):
      s = spec_m([2, 2], [2, 3], [1, 2, 1], b)
      tt, _, _ = lib.make(s, 15, 'i')
      lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, np.zeros((1, 2), np.int32)), 'gather_nd of a TT-matrix')
      lib.expect_raises(ctx, lambda: tt[(slice(None),) * (2 + (b is not None))], 'slices of a TT-matrix')
      ctx.step(2)
  else:
    ctx.step()
    bad = False
    for b in (None, 2):
      tt, dense, _ = lib.make(spec_t([2, 3], [1, 2, 1], b), 16, 'i')
      idx = (1, 2) if b is None else (slice(None), 1, 2)
      try:
        res = tt[idx]
      except IndexError:
        bad = True
        continue
      val = lib.npy(t3f.full(res) if isinstance(res, (t3f.TensorTrain, t3f.TensorTrainBatch)) else res)
      ctx.check(np.allclose(np.squeeze(val), dense[idx]), 'element read with all indices exact')
    if bad:
      ctx.known_finding('KF02', 'IndexError when all indices are exact')
