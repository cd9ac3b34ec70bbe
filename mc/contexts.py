"""The operations of a property in other contexts: on variables before and after
assignments, compiled or in a graph with partly unknown sizes, and on objects
far too large to be dense."""
import numpy as np

from mc import lib
from mc.checks import c21, c25

BOUND = ('; the same operations on variables before and after assignments, with one object given twice, compiled and in graphs with every pattern of unknown sizes of C21, and on objects '
         'with d = 9, 16, 32, 60')

ROUND = ('round', 'round1', 'round none', 'round eps', 'round 12', 'round 21', 'round 31')

# The operations (names of C21's table) each property speaks about.
OPERATIONS = {
    'C01': ('full', 'lazy_shape', 'lazy_raw_shape', 'lazy_tt_ranks', 'shape', 'raw_shape', 'tt_ranks'),
    'C03': ('gather', 'gather dynamic', 'gather b', 'slice', 'slice 2', 'slice b', 'slice b range', 'slice b axes', 'gather hidden number', 'gather b hidden'),
    'C04': ('neg', 'scaled', 'scaled right', 'add', 'add b', 'subtract', 'subtract b', 'multiply', 'multiply b', 'scaled hidden', 'scaled by inner',
            'multiply by one', 'add b by one', 'ones_like', 'zeros_like', 'composition'),
    'C05': ('transpose', 'matmul', 'matmul b', 'matmul dense', 'dense matmul', 'matmul dense hidden', 'dense hidden matmul', 'matmul dense hidden 0',
            'dense hidden 0 matmul', 'matmul dense hidden 1', 'dense hidden 1 matmul', 'matmul b by one', 'composition 2'),
    'C06': ('norm', 'norm squared', 'norm diff', 'norm squared diff', 'flat_inner', 'flat_inner b', 'flat_inner b by one', 'bilinear', 'bilinear two', 'sparse inner',
            'sparse matrix inner', 'sparse inner hidden number', 'sparse matrix inner hidden number'),
    'C07': ('pairwise', 'gram', 'pairwise matrix', 'concat', 'along batch', 'along batch hidden', 'slice b', 'slice b range'),
    'C08': ('orthogonalize', 'orthogonalize right', 'renormalize', 'renormalize b', 'cast'),
    'C09': ('to_tt 1', 'to_tt 2', 'to_tt 9', 'to_tt 12', 'to_tt 21', 'to_tt 31', 'to_tt 23', 'to_tt_matrix 1', 'to_tt_matrix 2', 'to_tt_matrix 12', 'to_tt_matrix 21',
            'to_tt_matrix 31', 'to_tt_matrix 23', 'to_tt 1 hidden', 'to_tt 2 hidden', 'to_tt 9 hidden', 'to_tt 12 hidden', 'to_tt 21 hidden', 'to_tt_matrix 1 hidden',
            'to_tt_matrix 2 hidden', 'to_tt_matrix 12 hidden', 'to_tt_matrix 21 hidden'),
    'C10': ROUND,
    'C11': ('add_n', 'reduce_sum', 'reduce_sum two', 'reduce_sum coef', 'reduce_sum coef two'),
    'C12': ('project', 'project b', 'project_sum', 'project_sum w', 'project_matmul', 'project_matmul b'),
    'C13': ('projected inner', 'projected sum', 'deltas', 'deltas two'),
    'C14': ('gradient', 'hessian'),
    'C15': ('determinant', 'slog', 'inv', 'cholesky', 'cholesky b'),
    'C16': ('ones_like', 'zeros_like'),
}

# The groups of C25's cases each property speaks about.
LARGE = {'C03': ('element',), 'C04': ('arith', 'batch'), 'C05': ('matrix',), 'C06': ('arith', 'matrix', 'sparse'), 'C07': ('batch',), 'C08': ('round', 'batch'), 'C09': (),
         'C10': ('round', 'batch'), 'C11': ('round', 'batch'), 'C12': ('riemann',), 'C13': ('riemann',), 'C14': ('riemann',), 'C15': ('kron',), 'C16': ('init',), 'C01': (), 'C30': ('batch',)}


def name_of(key):
  return key.split('/')[0]


def operations(prop):
  if prop == 'C30':  # everything on batches
    return {name_of(n) for n, (roles, _) in c21.static_ops().items() if any('b' in r for r in roles)}
  return OPERATIONS[prop]


def cases(prop, tier):
  only = operations(prop)
  table = c21.static_ops()
  missing = [o for o in only if o not in {name_of(n) for n in table}]
  assert not missing, missing
  fams = sorted({f for n, (_, fs) in table.items() if name_of(n) in only for f in fs})
  large = [['large'] + c for c in c25.cases(tier) if c[0] in LARGE.get(prop, ()) and c[2] in (9, 16, 32, 60) and (c[4] == 2 or c[0] == 'kron')]
  return [['on variables', f] for f in fams] + [['aliases', f] for f in fams] + large + [['compiled'] + c for c in c21.cases(tier) if name_of(c[0]) in only]


def run(prop, case, ctx):
  """Whether the case is one of cases() (which is then executed)."""
  if case[0] == 'on variables':
    variables(case[1], ctx, operations(prop))
    return True
  if case[0] == 'aliases':
    aliases(case[1], ctx, operations(prop))
    return True
  if case[0] == 'compiled':
    c21.run(case[1:], ctx)
    return True
  if case[0] == 'large':
    c25.run(case[1:], ctx)
    return True
  return False


def value(r):
  return c21.values(c21.form_of(r), [lib.npy(x) for x in c21.parts(r)])


def equal(a, b):
  return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and
                                  np.allclose(x, y, rtol=1e-11, atol=1e-11 * (1 + (np.abs(y).max() if y.size else 0))) for x, y in zip(a, b))


_ops = None


def all_ops():
  global _ops
  if _ops is None:
    _ops = c21.ops()
  return _ops


def variables(fam, ctx, only=None):
  """Every operation on the same variables, before and after assignments: the
  results are always those of the current values."""
  t3f = lib.t3f
  ops = {nm: (fn, roles) for nm, (fn, roles, fams, _) in all_ops().items() if fam in fams and (only is None or name_of(nm) in only)}
  pool = {}

  def content(r, k, turn):
    # The values differ from turn to turn, the third turn brings the first back.
    return lib.make(c21.variants(r, fam, 'known')[0], 3 + k + 20 * (turn % 2), 'r', fresh=True)[0]

  for turn in range(3):
    for nm, (fn, roles) in ops.items():
      for k, r in enumerate(roles):
        if (r, k) not in pool:
          pool[r, k] = t3f.get_variable('v', initializer=content(r, k, turn))
    if turn:
      for (r, k), v in pool.items():
        t3f.assign(v, content(r, k, turn))
    for nm, (fn, roles) in ops.items():
      args = [pool[r, k] for k, r in enumerate(roles)]
      want = value(fn(*[content(r, k, turn) for k, r in enumerate(roles)]))
      got = value(fn(*args))
      ctx.step(2)
      ctx.check(equal(got, want), lambda: '%s (%s) of variables does not follow their values: turn %d' % (nm, fam, turn))
      ctx.state((nm, fam, turn))
    for (r, k), v in pool.items():
      ctx.check(same_values(v, content(r, k, turn)), 'operations change a variable (%s, %s)' % (r, fam))
  ctx.outcome(fam)


def same_values(v, c):
  return len(v.tt_cores) == len(c.tt_cores) and all(np.array_equal(lib.npy(a), lib.npy(b)) for a, b in zip(v.tt_cores, c.tt_cores))


def aliases(fam, ctx, only):
  """One object given as several arguments counts as several equal objects."""
  for nm, (fn, roles, fams, _) in all_ops().items():
    if fam not in fams or name_of(nm) not in only:
      continue
    for i in range(len(roles)):
      for j in range(i):
        if roles[i] != roles[j]:
          continue
        make = lambda k: lib.make(c21.variants(roles[k], fam, 'known')[0], 3 + (j if k == i else k), 'r', fresh=True)[0]
        separate = [make(k) for k in range(len(roles))]
        shared = [make(k) for k in range(len(roles))]
        shared[i] = shared[j]
        ctx.step(2)
        ctx.check(equal(value(fn(*shared)), value(fn(*separate))), lambda: '%s (%s): the same object as arguments %d and %d differs from two equal objects' % (nm, fam, j, i))
        ctx.state((nm, fam, i, j))
  ctx.outcome(fam)
