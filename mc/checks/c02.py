"""C02: inconsistent cores are rejected, consistent cores are accepted."""
import itertools

import numpy as np

from mc import lib

ID = 'C02'
BOUND = ('every list of 1..3 cores with ranks {1,2,3}; every core axis count 1..6 for 1..3 cores; every shape argument '
         'over {1,2}^k, k<=d+1, one or two rows, against every mode assignment; every rank argument over {1,2} '
         'of lengths d, d+1 against every rank assignment; every batch size argument 1..3 against every '
         'per-core batch size assignment; every dtype assignment over float32/float64/int32; single faults in '
         'otherwise valid objects up to d=8; tensors, matrices, single and batch; cores with sizes unknown until run time: every subset of sizes hidden '
         'for short trains (systematic subsets to d=5) x every single fault x every combination of arguments')
ASSUMPTIONS = ['a rank list longer than the number of cores plus one is outside the space except for the listed known finding']


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for batch in (0, 1):
    for mat in (0, 1):
      for d in (1, 2, 3):
        for a in itertools.product((1, 2, 3), repeat=2):
          out.append(['ranks', batch, mat, d, list(a)])
      for d in (1, 2, 3):
        out.append(['shape', batch, mat, d])
        out.append(['rank_arg', batch, mat, d])
        out.append(['dtype', batch, mat, d])
      if batch:
        for d in (1, 2, 3):
          out.append(['batch', mat, d])
      for d in range(1, 9 if deep else 7):
        out.append(['single_fault', batch, mat, d])
    for d in (1, 2, 3):
      out.append(['axes', batch, d])
  for batch in (0, 1):
    for mat in (0, 1):
      for d in (1, 2, 3, 5):
        for k in range(d):
          for axis in range(-1, 2 + batch + mat + 1):
            out.append(['hidden', batch, mat, d, k, axis])
  out.append(['empty'])
  out.append(['known', 'KF01'])
  return out


def attempt(ctx, batch, cores, valid, what, exc=ValueError, **kw):
  t3f = lib.t3f
  cls = t3f.TensorTrainBatch if batch else t3f.TensorTrain
  ctx.step()
  ctx.state((batch, what))
  ctx.outcome((batch, valid))
  if valid:
    try:
      tt = cls(cores, **kw)
    except Exception as e:
      ctx.fail('%s: a valid object was rejected: %s' % (what, e))
    lib.check_meta(ctx, tt, what)
    d = lib.dense_of(tt)
    ref = lib.np_dense([np.asarray(c) for c in cores], np.ndim(cores[0]) - batch == 4, bool(batch))
    ctx.check(np.array_equal(d, ref), '%s: value' % what)
  else:
    try:
      tt = cls(cores, **kw)
    except exc:
      return
    except Exception as e:
      ctx.fail('%s: raised %s instead of ValueError' % (what, type(e).__name__))
    ctx.fail('%s: inconsistent object was accepted: %s' % (what, tt))


def mk(shapes, dtypes=None):
  return [np.ones(s, dtype=(dtypes[i] if dtypes else 'float64')) for i, s in enumerate(shapes)]


def masks(d, axes):
  """Sets of hidden sizes: all of them for short trains, else every single one,
  all but one, one kind of axis everywhere, everything."""
  every = list(itertools.product(range(d), range(axes)))
  if d * axes <= 8:
    for n in range(len(every) + 1):
      for m in itertools.combinations(every, n):
        yield set(m)
    return
  yield set()
  yield set(every)
  for e in every:
    yield {e}
    yield set(every) - {e}
  for a in range(axes):
    yield {e for e in every if e[1] == a}
    yield {e for e in every if e[1] != a}
  for k in range(d):
    yield {e for e in every if e[0] == k}
    yield {e for e in every if e[0] != k}
  for k in range(d - 1):
    yield {(k, axes - 1), (k + 1, 0)}
    yield set(every) - {(k, axes - 1), (k + 1, axes - 3)}


def hidden(case, ctx):
  """Cores whose sizes are partly unknown: contradictions between known sizes are
  rejected, everything that can be completed to an object is accepted."""
  tf, t3f = lib.tf, lib.t3f
  _, batch, mat, d, fk, fa = case
  cls = t3f.TensorTrainBatch if batch else t3f.TensorTrain
  ranks = [1] + [2, 3, 2, 4][:d - 1] + [1]
  modes = [[2, 3, 1, 2, 2][:d], [3, 1, 2, 2, 1][:d]][:1 + mat]
  true = [([3] if batch else []) + [ranks[k]] + [m[k] for m in modes] + [ranks[k + 1]] for k in range(d)]
  sizes = [list(s) for s in true]
  if fa >= 0:
    sizes[fk][fa] += 1
  axes = len(true[0])
  shape = modes if mat else modes[0]
  if batch and mat and d > 2 and fa not in (-1, 0, 1, axes - 1):
    return
  for m in masks(d, axes):
    known = [[None if (k, a) in m else sizes[k][a] for a in range(axes)] for k in range(d)]
    for args in ((), ('shape',), ('tt_ranks',), ('shape', 'tt_ranks')) + ((('batch_size',),) if batch else ()):
      kw = {a: {'shape': shape, 'tt_ranks': ranks, 'batch_size': 3}[a] for a in args}
      must, may = judge(known, batch, kw, modes, ranks)
      with tf.Graph().as_default():
        cores = [tf.compat.v1.placeholder(tf.float64, s) for s in known]
        what = 'cores %s with %s' % (known, kw)
        ctx.step()
        try:
          tt = cls(cores, **kw)
        except ValueError:
          ctx.check(may, lambda: '%s: rejected although it can be completed' % what)
          ctx.outcome(('rejected', must))
          continue
        ctx.check(not must, lambda: '%s: known sizes contradict but it was accepted' % what)
        ctx.outcome('accepted')
        if fa < 0:
          fits = lambda got, want: len(got) == len(want) and all(g is None or g == w for g, w in zip(got, want))
          ok = fits(tt.get_tt_ranks().as_list(), ranks) and all(fits(g.as_list(), w) for g, w in zip(tt.get_raw_shape(), modes))
          if batch:
            ok = ok and tt.batch_size in (None, 3)
          ctx.check(ok and tt.is_tt_matrix() == bool(mat) and tt.ndims() == d, lambda: '%s: reports %s' % (what, tt))
  ctx.state(str(case))


def judge(known, batch, kw, modes, ranks):
  """(whether it must be rejected, whether it may be)."""
  d = len(known)
  differ = lambda a, b: a is not None and b is not None and a != b
  left = [s[1 if batch else 0] for s in known]
  right = [s[-1] for s in known]
  must = differ(left[0], 1) or differ(right[-1], 1) or any(differ(right[k], left[k + 1]) for k in range(d - 1))
  may = must
  if batch:
    must = must or any(differ(known[k][0], known[k + 1][0]) for k in range(d - 1))
    # Different sizes that are not neighbours: left open.
    may = may or len({s[0] for s in known} - {None}) > 1
    if 'batch_size' in kw:
      must = must or any(differ(s[0], 3) for s in known)
  if 'shape' in kw:
    must = must or any(differ(known[k][batch + 1 + i], modes[i][k]) for k in range(d) for i in range(len(modes)))
  if 'tt_ranks' in kw:
    must = must or any(differ(left[k], ranks[k]) or differ(right[k], ranks[k + 1]) for k in range(d))
  return must, must or may


def run(case, ctx):
  if case[0] == 'hidden':
    return hidden(case, ctx)
  t3f, tf = lib.t3f, lib.tf
  kind = case[0]
  if kind == 'ranks':
    _, batch, mat, d, first = case
    b = (2,) if batch else ()
    m = (2, 3) if mat else (2,)
    for rest in itertools.product((1, 2, 3), repeat=2 * (d - 1)):
      rr = [tuple(first)] + [tuple(rest[2 * i:2 * i + 2]) for i in range(d - 1)]
      valid = rr[0][0] == 1 and rr[-1][1] == 1 and all(rr[i][1] == rr[i + 1][0] for i in range(d - 1))
      shapes = [b + (x,) + m + (y,) for x, y in rr]
      attempt(ctx, batch, mk(shapes), valid, 'cores %s' % (shapes,))
  elif kind == 'axes':
    _, batch, d = case
    for ax in itertools.product(range(1, 7), repeat=d):
      ok = (4, 5) if batch else (3, 4)
      valid = len(set(ax)) == 1 and ax[0] in ok
      shapes = [(1,) * a for a in ax]
      attempt(ctx, batch, mk(shapes), valid, 'cores %s' % (shapes,))
      if not valid:
        attempt(ctx, batch, mk(shapes), False, 'cores with shape argument %s' % (shapes,), shape=[1] * d)
  elif kind == 'shape':
    _, batch, mat, d = case
    b = (2,) if batch else ()
    for ms in itertools.product((1, 2), repeat=d * (2 if mat else 1)):
      rows = list(ms[:d])
      cols = list(ms[d:])
      r = [1] + [2] * (d - 1) + [1]
      shapes = [b + (r[i], rows[i]) + ((cols[i],) if mat else ()) + (r[i + 1],) for i in range(d)]
      cores = mk(shapes)
      true = [rows, cols] if mat else rows
      for k in sorted({max(1, d - 1), d, d + 1}):
        for arg in itertools.product((1, 2), repeat=k):
          arg = list(arg)
          attempt(ctx, batch, cores, (not mat) and arg == rows, 'cores %s shape=%s' % (shapes, arg), shape=arg)
        if k == d or d == 1:
          for arg in itertools.product((1, 2), repeat=2 * k):
            two = [list(arg[:k]), list(arg[k:])]
            attempt(ctx, batch, cores, bool(mat) and two == true, 'cores %s shape=%s' % (shapes, two), shape=two)
            if d <= 2:
              ts = tuple(tf.TensorShape(x) for x in two)
              attempt(ctx, batch, cores, bool(mat) and two == true, 'cores %s shape=%s' % (shapes, ts), shape=ts)
        else:
          two = [rows[:k] + [1] * (k - d), (cols or rows)[:k] + [1] * (k - d)]
          attempt(ctx, batch, cores, False, 'cores %s shape=%s' % (shapes, two), shape=two)
  elif kind == 'rank_arg':
    _, batch, mat, d = case
    b = (2,) if batch else ()
    m = (2, 1) if mat else (2,)
    for inner in itertools.product((1, 2, 3), repeat=d - 1):
      r = [1] + list(inner) + [1]
      shapes = [b + (r[i],) + m + (r[i + 1],) for i in range(d)]
      cores = mk(shapes)
      for arg in itertools.product((1, 2, 3), repeat=d + 1):
        for form in (list(arg), np.array(arg), tf.TensorShape(arg)):
          attempt(ctx, batch, cores, list(arg) == r, 'cores %s tt_ranks=%r' % (shapes, form), tt_ranks=form)
      attempt(ctx, batch, cores, False, 'cores %s tt_ranks too short' % (shapes,), exc=Exception,
              tt_ranks=r[:-1])
  elif kind == 'dtype':
    _, batch, mat, d = case
    b = (2,) if batch else ()
    m = (2, 1) if mat else (2,)
    r = [1] + [2] * (d - 1) + [1]
    shapes = [b + (r[i],) + m + (r[i + 1],) for i in range(d)]
    for dts in itertools.product(('float32', 'float64', 'int32'), repeat=d):
      attempt(ctx, batch, mk(shapes, dts), len(set(dts)) == 1, 'cores %s dtypes %s' % (shapes, dts))
  elif kind == 'batch':
    _, mat, d = case
    m = (2, 1) if mat else (2,)
    r = [1] + [2] * (d - 1) + [1]
    for bs in itertools.product((1, 2, 3), repeat=d):
      shapes = [(bs[i], r[i]) + m + (r[i + 1],) for i in range(d)]
      for arg in (None, 1, 2, 3, 4):
        valid = len(set(bs)) == 1 and (arg is None or arg == bs[0])
        kw = {} if arg is None else {'batch_size': arg}
        attempt(ctx, 1, mk(shapes), valid, 'cores %s batch_size=%s' % (shapes, arg), **kw)
  elif kind == 'single_fault':
    _, batch, mat, d = case
    b = [3] if batch else []
    m = [2, 3] if mat else [2]
    r = [1] + [2, 3, 2, 4, 1, 2, 3][:d - 1] + [1]
    base = [b + [r[i]] + m + [r[i + 1]] for i in range(d)]
    raw = [m[0]] * d if not mat else [[m[0]] * d, [m[1]] * d]
    kws = [{}, {'shape': raw}, {'tt_ranks': r}, {'shape': raw, 'tt_ranks': r}]
    if batch:
      kws += [{'batch_size': 3}, {'shape': raw, 'tt_ranks': r, 'batch_size': 3}]
    for kw in kws:
      attempt(ctx, batch, mk(base), True, 'valid d=%d %s' % (d, kw), **kw)
      for i in range(d):
        for ax in range(len(base[0])):
          is_mode = ax >= len(b) + 1 and ax < len(base[0]) - 1
          is_batch_ax = batch and ax == 0
          shapes = [list(x) for x in base]
          shapes[i][ax] += 1
          if is_mode:
            valid = 'shape' not in kw
          elif is_batch_ax:
            valid = d == 1 and 'batch_size' not in kw
          else:
            valid = False
          attempt(ctx, batch, mk(shapes), valid, 'd=%d core %d axis %d enlarged %s' % (d, i, ax, kw), **kw)
        dts = ['float64'] * d
        dts[i] = 'float32'
        attempt(ctx, batch, mk(base, dts), d == 1, 'd=%d core %d dtype %s' % (d, i, kw), **kw)
        shapes = [list(x) for x in base]
        shapes[i] = shapes[i][:-1] + [1, shapes[i][-1]]  # one more axis
        valid = d == 1 and not mat and 'shape' not in kw
        attempt(ctx, batch, mk(shapes), valid, 'd=%d core %d more axes %s' % (d, i, kw), **kw)
  elif kind == 'empty':
    for cls in (t3f.TensorTrain, t3f.TensorTrainBatch):
      lib.expect_raises(ctx, lambda: cls([]), 'no cores')
      ctx.step()
  elif kind == 'known':
    # KF01: an over-long rank list is accepted and breaks the rank metadata.
    cores = mk([(1, 2, 1), (1, 2, 1)])
    ctx.step()
    try:
      tt = t3f.TensorTrain(cores, tt_ranks=[1] * 7)
    except ValueError:
      return
    if len(tt.get_tt_ranks()) == 3:
      return
    ctx.known_finding('KF01', 'over-long tt_ranks accepted')
