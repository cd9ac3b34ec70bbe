"""C22: operations neither change their arguments nor depend on history."""
import copy

import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m, with_batch
from mc import contexts
from mc.checks import c21

ID = 'C22'
BOUND = ('every operation x structures d=1..3 (tensors, matrices, batches): arguments compared before and after, twice; all ordered pairs of operations on '
         'the same objects for 8 structures; every operation on the same variables before and after assignments; 110 calls taking lists, tuples and arrays (cores, shapes, TT-ranks, indices, coefficients, weights), each argument compared '
         'after the call and overwritten afterwards')
ASSUMPTIONS = ['operations documented as random are excluded']

PAIR_FAMS = ('t2', 't3', 'm2')


def cases(tier):
  out = []
  for name, (roles, fams) in c21.static_ops().items():
    for fam in fams:
      out.append(['single', name, fam])
  for k in range(len(container_names())):
    out.append(['container', k])
  for fam in sorted({f for _, fams in c21.static_ops().values() for f in fams}):
    out.append(['variables', fam])
  for fam in PAIR_FAMS + (('t1', 'm1', 'm3') if tier == 'thorough' else ()):
    for name, (roles, fams) in c21.static_ops().items():
      if fam in fams:
        out.append(['pairs', name, fam])
  return out


def snapshot(x):
  return (type(x), [lib.npy(c).copy() for c in x.tt_cores], [s.as_list() for s in x.get_raw_shape()], x.get_tt_ranks().as_list(),
          x.batch_size if lib.is_batch(x) else None, x.dtype, x.is_tt_matrix(), len(x.tt_cores))


def same_snapshot(a, b):
  return a[0] is b[0] and len(a[1]) == len(b[1]) and all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(a[1], b[1])) and a[2:] == b[2:]


def fresh(roles, fam):
  objs = []
  for i, r in enumerate(roles):
    objs.append(lib.make(c21.variants(r, fam, 'known')[0], 3 + i, 'r', fresh=True)[0])
  return objs


value, equal, all_ops = contexts.value, contexts.equal, contexts.all_ops


def run(case, ctx):
  ops = all_ops()
  if case[0] == 'container':
    return container(case[1], ctx)
  if case[0] == 'variables':
    return contexts.variables(case[1], ctx)
  _, name, fam = case
  fn, roles, _, _ = ops[name]
  objs = fresh(roles, fam)
  before = [snapshot(o) for o in objs]
  first_r = fn(*objs)
  first = value(first_r)
  keep = [a.copy() for a in first]
  ctx.state(str(case))
  ctx.step()
  for o, b, k in zip(objs, before, range(9)):
    ctx.check(same_snapshot(snapshot(o), b), '%s (%s) changes its argument %d' % (name, fam, k))
  if case[0] == 'single':
    second = value(fn(*objs))
    ctx.step()
    ctx.check(equal(second, first), lambda: '%s (%s) gives another result the second time' % (name, fam))
    other = value(fn(*fresh(roles, fam)))
    ctx.check(equal(other, first), lambda: '%s (%s) gives another result for equal objects' % (name, fam))
    for o, b, k in zip(objs, before, range(9)):
      ctx.check(same_snapshot(snapshot(o), b), '%s (%s) changes its argument %d' % (name, fam, k))
    # The same object as every argument of equal role.
    if len(set(roles)) < len(roles):
      same = {r: o for r, o in reversed(list(zip(roles, objs)))}
      args = [same[r] for r in roles]
      copies = [lib.make(c21.variants(r, fam, 'known')[0], 3 + roles.index(r), 'r', fresh=True)[0] for r in roles]
      ctx.step(2)
      ctx.check(equal(value(fn(*args)), value(fn(*copies))), '%s (%s) of one object given twice differs from two equal objects' % (name, fam))
    ctx.outcome((name, fam, tuple(round(float(np.sum(x)), 5) for x in first)))
    return
  # Pairs: the second operation does not notice the first one.
  pool = {}
  for r, o in zip(roles, objs):
    pool.setdefault(r, o)
  for nm, (fn2, roles2, fams2, _) in ops.items():
    if fam not in fams2:
      continue
    args, count = [], {}
    for r in roles2:
      if r in pool and r not in count:
        args.append(pool[r])
      else:
        args.append(lib.make(c21.variants(r, fam, 'known')[0], 3 + len(args), 'r')[0])
      count[r] = 1
    got = value(fn2(*args))
    clean = [lib.make(c21.variants(r, fam, 'known')[0], salt_of(a, args, roles, roles2, pool, k), 'r', fresh=True)[0] for k, (r, a) in enumerate(zip(roles2, args))]
    key = (nm, fam, tuple(salt_of(a, args, roles, roles2, pool, k) for k, a in enumerate(args)))
    if key not in _alone:
      _alone[key] = value(fn2(*clean))
    ctx.step(2)
    ctx.check(equal(got, _alone[key]), lambda: '%s after %s (%s) differs from %s alone' % (nm, name, fam, nm))
    ctx.state((name, nm, fam))
  for o, b, k in zip(objs, before, range(9)):
    ctx.check(same_snapshot(snapshot(o), b), 'argument %d of %s (%s) is changed by later operations' % (k, name, fam))
  ctx.check(equal(value(first_r), keep), 'the result of %s (%s) is changed by later operations' % (name, fam))
  ctx.outcome((name, fam))


_alone = {}


def salt_of(a, args, roles, roles2, pool, k):
  """The salt the k-th argument was made with."""
  r = roles2[k]
  if r in pool and roles2.index(r) == k:
    return 3 + roles.index(r)
  return 3 + k


# ----------------------------------------------------------- containers

def container_names():
  return list(containers(_Stub(), _Stub(), _Stub()).keys())


class _Stub(object):

  def __getattr__(self, name):
    return _Stub()

  def __call__(self, *a, **k):
    return _Stub()


def containers(t3f, tf, np_tt):
  """name -> function(values) with a dict of mutable arguments."""
  c = {}
  f64 = tf.float64
  cores = lambda: [np.arange(1., 7.).reshape(1, 3, 2), np.arange(2., 6.).reshape(2, 2, 1)]
  mcores = lambda: [np.arange(1., 9.).reshape(1, 2, 2, 2), np.arange(2., 14.).reshape(2, 3, 2, 1)]
  bcores = lambda: [np.arange(1., 13.).reshape(2, 1, 3, 2), np.arange(2., 10.).reshape(2, 2, 2, 1)]
  c['TensorTrain'] = (dict(cores=cores), lambda v: t3f.TensorTrain(v['cores']))
  c['TensorTrain with sizes'] = (dict(cores=cores, shape=lambda: [3, 2], ranks=lambda: [1, 2, 1]), lambda v: t3f.TensorTrain(v['cores'], v['shape'], v['ranks']))
  c['TensorTrain with array sizes'] = (dict(cores=cores, shape=lambda: np.array([3, 2]), ranks=lambda: np.array([1, 2, 1])),
                                       lambda v: t3f.TensorTrain(v['cores'], v['shape'], v['ranks']))
  c['TensorTrain matrix'] = (dict(cores=mcores, shape=lambda: [[2, 3], [2, 2]], ranks=lambda: [1, 2, 1]), lambda v: t3f.TensorTrain(v['cores'], v['shape'], v['ranks']))
  c['TensorTrain unconverted'] = (dict(cores=lambda: [tf.constant(x) for x in cores()]), lambda v: t3f.TensorTrain(v['cores'], convert_to_tensors=False))
  c['TensorTrainBatch'] = (dict(cores=bcores, shape=lambda: [3, 2], ranks=lambda: [1, 2, 1]), lambda v: t3f.TensorTrainBatch(v['cores'], v['shape'], v['ranks'], 2))
  c['TensorTrainBatch unconverted'] = (dict(cores=lambda: [tf.constant(x) for x in bcores()]), lambda v: t3f.TensorTrainBatch(v['cores'], convert_to_tensors=False))
  for nm in ('tensor_ones', 'tensor_zeros'):
    c[nm] = (dict(shape=lambda: [2, 3, 2]), lambda v, nm=nm: getattr(t3f, nm)(v['shape']))
    c[nm + ' array'] = (dict(shape=lambda: np.array([2, 3, 2])), lambda v, nm=nm: getattr(t3f, nm)(v['shape']))
  for nm in ('matrix_ones', 'matrix_zeros'):
    c[nm] = (dict(shape=lambda: [[2, 3], [1, 2]]), lambda v, nm=nm: getattr(t3f, nm)(v['shape']))
    c[nm + ' vector'] = (dict(shape=lambda: [[2, 3], None]), lambda v, nm=nm: getattr(t3f, nm)(v['shape']))
    c[nm + ' row'] = (dict(shape=lambda: [None, [2, 3]]), lambda v, nm=nm: getattr(t3f, nm)(v['shape']))
  c['eye'] = (dict(shape=lambda: [2, 3]), lambda v: t3f.eye(v['shape']))
  for nm in ('random_tensor', 'tensor_with_random_cores'):
    for k, (s, r) in enumerate([(lambda: [3, 2, 2], lambda: [1, 2, 2, 1]), (lambda: np.array([3, 2, 2]), lambda: np.array([1, 3, 2, 1])),
                                (lambda: [3, 2, 2], lambda: np.array([2.])), (lambda: [3, 2, 2], lambda: np.array(2))]):
      if k == 2:
        continue
      c['%s %d' % (nm, k)] = (dict(shape=s, ranks=r), lambda v, nm=nm: getattr(t3f, nm)(v['shape'], tt_rank=v['ranks']))
      c['%s_batch %d' % (nm, k)] = (dict(shape=s, ranks=r), lambda v, nm=nm: getattr(t3f, {'random_tensor': 'random_tensor_batch'}.get(
          nm, 'tensor_batch_with_random_cores'))(v['shape'], tt_rank=v['ranks'], batch_size=2))
  for nm in ('random_matrix', 'matrix_with_random_cores', 'random_matrix_batch', 'matrix_batch_with_random_cores', 'glorot_initializer', 'he_initializer',
             'lecun_initializer'):
    for k, (s, r) in enumerate([(lambda: [[3, 2], [2, 2]], lambda: [1, 2, 1]), (lambda: [[3, 2], None], lambda: np.array([1, 3, 1])),
                                (lambda: [None, [2, 2]], lambda: [1, 2, 1]), (lambda: np.array([[3, 2], [1, 2]]), lambda: [1, 2, 1])]):
      c['%s %d' % (nm, k)] = (dict(shape=s, ranks=r), lambda v, nm=nm: getattr(t3f, nm)(v['shape'], tt_rank=v['ranks']))
  c['to_tt_tensor'] = (dict(a=lambda: np.arange(12.).reshape(2, 3, 2) ** 2, cap=lambda: [1, 2, 1, 1]), lambda v: t3f.to_tt_tensor(v['a'], max_tt_rank=v['cap']))
  c['to_tt_tensor array cap'] = (dict(a=lambda: np.arange(12.).reshape(2, 3, 2) ** 2, cap=lambda: np.array([1, 2, 1, 1])),
                                 lambda v: t3f.to_tt_tensor(v['a'], max_tt_rank=v['cap']))
  c['to_tt_matrix'] = (dict(a=lambda: np.arange(24.).reshape(6, 4) ** 2, shape=lambda: [[3, 2], [2, 2]], cap=lambda: [1, 2, 1]),
                       lambda v: t3f.to_tt_matrix(v['a'], v['shape'], max_tt_rank=v['cap']))
  c['to_tt_matrix vector'] = (dict(a=lambda: np.arange(6.).reshape(6, 1) ** 2, shape=lambda: [[3, 2], None]), lambda v: t3f.to_tt_matrix(v['a'], v['shape']))
  c['to_tt_matrix row'] = (dict(a=lambda: np.arange(6.).reshape(1, 6) ** 2, shape=lambda: [None, [3, 2]]), lambda v: t3f.to_tt_matrix(v['a'], v['shape']))
  c['to_tt_matrix array'] = (dict(a=lambda: np.arange(24.).reshape(6, 4) ** 2, shape=lambda: np.array([[3, 2], [2, 2]])), lambda v: t3f.to_tt_matrix(v['a'], v['shape']))
  tt = lambda b=None: lib.make(spec_t([3, 2, 2], [1, 2, 2, 1], b), 5, 'r')[0]
  mm = lambda b=None: lib.make(spec_m([3, 2], [2, 2], [1, 3, 1], b), 5, 'r')[0]
  for k, (f, b) in enumerate([(tt, None), (mm, None), (tt, 2), (mm, 2)]):
    d = 3 if f is tt else 2
    c['round %d' % k] = (dict(cap=lambda d=d: [1] + [1] * (d - 1) + [1]), lambda v, f=f, b=b: t3f.round(f(b), v['cap']))
    c['round array %d' % k] = (dict(cap=lambda d=d: np.array([1] + [2] * (d - 1) + [1])), lambda v, f=f, b=b: t3f.round(f(b), v['cap']))
    c['add_n %d' % k] = (dict(objs=lambda f=f, b=b: [f(b), f(b), f(b)]), lambda v: t3f.approximate.add_n(v['objs'], 2))
  for n in (1, 2, 4, 5, 6, 8):
    for k, (f, b) in enumerate([(tt, None), (mm, None), (tt, 2), (mm, 2)]):
      c['add_n of %d, %d' % (n, k)] = (dict(objs=lambda f=f, b=b, n=n: [f(b) for _ in range(n)]), lambda v: t3f.approximate.add_n(v['objs'], 2))
    for k, f in enumerate([tt, mm]):
      if n > 1:
        c['concat of %d, %d' % (n, k)] = (dict(l=lambda f=f, n=n: [f(1 + i % 2) for i in range(n)]), lambda v: t3f.concat_along_batch_dim(v['l']))
    c['add_n_projected of %d' % n] = (dict(o=lambda n=n: [t3f.project(tt(), tt()) for _ in range(n)], w=lambda n=n: [1.] * n),
                                      lambda v: t3f.add_n_projected(v['o'], v['w']))
    c['add_n_projected of %d without weights' % n] = (dict(o=lambda n=n: [t3f.project(tt(), tt()) for _ in range(n)]), lambda v: t3f.add_n_projected(v['o']))
    c['reduce_sum of %d' % n] = (dict(w=lambda n=n: np.arange(1., 1. + n)), lambda v, n=n: t3f.approximate.reduce_sum_batch(tt(n), 3, v['w']))
    c['project_sum of %d' % n] = (dict(w=lambda n=n: np.arange(1., 1. + n)), lambda v, n=n: t3f.project_sum(tt(n), tt(), v['w']))
  c['gather_nd'] = (dict(i=lambda: [[0, 1, 1], [2, 0, 0]]), lambda v: t3f.gather_nd(tt(), v['i']))
  c['gather_nd array'] = (dict(i=lambda: np.array([[0, 1, 1], [2, 0, 0]])), lambda v: t3f.gather_nd(tt(), v['i']))
  c['gather_nd batch'] = (dict(i=lambda: np.array([[1, 0, 1, 1], [0, 2, 0, 0]])), lambda v: t3f.gather_nd(tt(2), v['i']))
  c['concat'] = (dict(l=lambda: [tt(2), tt(3)]), lambda v: t3f.concat_along_batch_dim(v['l']))
  c['along batch'] = (dict(w=lambda: np.array([2., 3.])), lambda v: t3f.multiply_along_batch_dim(tt(2), v['w']))
  for k, w in enumerate([lambda: [1., 2., 3.], lambda: np.array([1., -2., 3.]), lambda: np.array([[1., 2.], [0., 1.], [2., -1.]])]):
    c['reduce_sum %d' % k] = (dict(w=w), lambda v: t3f.approximate.reduce_sum_batch(tt(3), 3, v['w']))
    c['project_sum %d' % k] = (dict(w=w), lambda v: t3f.project_sum(tt(3), tt(), v['w']))
    if k < 2:
      c['add_n_projected %d' % k] = (dict(o=lambda: [t3f.project(tt(), tt()) for _ in range(3)], w=w), lambda v: t3f.add_n_projected(v['o'], v['w']))
  c['matmul dense'] = (dict(a=lambda: np.arange(8.).reshape(4, 2)), lambda v: t3f.matmul(mm(), tf.constant(v['a'])))
  c['deltas'] = (dict(d=lambda: list(t3f.tangent_space_to_deltas(t3f.project(tt(), tt())))), lambda v: lib.t3f_riemannian().deltas_to_tangent_space(v['d'], tt()))
  c['KerasDense'] = (dict(i=lambda: [2, 3], o=lambda: [2, 2]), lambda v: t3f.nn.KerasDense(v['i'], v['o'], tt_rank=2, use_bias=False)(np.eye(6, dtype=np.float32)))
  c['KerasDense ranks'] = (dict(i=lambda: [2, 3], o=lambda: [2, 2], r=lambda: [1, 2, 1], x=lambda: np.eye(6, dtype=np.float32)),
                           lambda v: t3f.nn.KerasDense(v['i'], v['o'], tt_rank=v['r'])(v['x']))
  return c


def same(a, b):
  if isinstance(a, np.ndarray):
    return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
  if isinstance(a, (list, tuple)):
    return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if lib.tf.is_tensor(a):
    return a is b
  if c21.is_tt(a):
    return a is b
  return type(a) is type(b) and a == b


def copy_of(x):
  if isinstance(x, np.ndarray):
    return x.copy()
  if isinstance(x, list):
    return [copy_of(y) for y in x]
  return x


def spoil(x):
  """Overwrites a container in place."""
  if isinstance(x, np.ndarray):
    x[...] = 77
  elif isinstance(x, list):
    for i, y in enumerate(x):
      if isinstance(y, (list, np.ndarray)):
        spoil(y)
      x[i] = 77 if isinstance(y, (int, float)) else None
    del x[-1:]


def container(k, ctx):
  table = containers(lib.t3f, lib.tf, None)
  name = list(table)[k]
  makers, fn = table[name]
  args = {a: m() for a, m in makers.items()}
  saved = {a: copy_of(v) for a, v in args.items()}
  lib.tf.random.set_seed(5)
  r = fn(args)
  ctx.step()
  ctx.state(name)
  for a in args:
    ctx.check(same(args[a], saved[a]), lambda: '%s changes its argument %r: %r becomes %r' % (name, a, saved[a], args[a]))
  first = value(r)
  keep = [x.copy() for x in first]
  meta = snapshot(r) if c21.is_tt(r) else None
  # Overwriting the caller's containers does not reach into the result.
  for a in args:
    spoil(args[a])
  ctx.check(equal(value(r), keep) and (meta is None or same_snapshot(snapshot(r), meta)), '%s: the result follows later changes of the argument' % name)
  ctx.step()
  ctx.outcome((name, tuple(x.shape for x in first)))
