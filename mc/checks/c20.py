"""C20: operands are accepted exactly when their structures fit together.

The model of every operation is its compatibility relation.  For *all* pairs
(triples) of structures of a universe the operation must return a result of
the right shape and value when the relation holds and raise otherwise.
"""
import itertools

import numpy as np

from mc import lib
from mc.lib import spec_t, spec_m

ID = 'C20'
BOUND = ('all ordered pairs from 204 structures (tensors d<=3 modes {1,2}; matrices d<=2 row and column modes {1,2}, d=3 diagonal; single and batches of '
         '1,2,3; plus sizes 3,4,6 and permuted, merged or padded shapes), TT-ranks 1 and 2, for add, subtract, multiply, inner product, matmul, '
         'pairwise products, concatenation, projection; all triples (20 matrices x 32 x 32 vectors) for bilinear forms, products with a '
         'matrix and projected products; all dense widths 1..9; every dtype mismatch; non-TT arguments; 15 larger structures (d up to 7, modes to 6, ranks to 5) with all '
         'structures one change of a mode, order, length or kind away')
ASSUMPTIONS = ['batch sizes 1 and n in bilinear forms and single objects in pairwise operations are not specified']


def universe():
  out = []
  for d in (1, 2, 3):
    for s in itertools.product((1, 2), repeat=d):
      out.append(('t', list(s)))
  for s in ([3], [4], [2, 3], [3, 2], [4, 1], [1, 4], [2, 3, 2]):
    out.append(('t', s))
  for d in (1, 2):
    for r in itertools.product((1, 2), repeat=d):
      for c in itertools.product((1, 2), repeat=d):
        out.append(('m', [list(r), list(c)]))
  for m in ([[3], [2]], [[2], [3]], [[4], [4]], [[2, 3], [3, 2]], [[3, 2], [2, 2]], [[2, 2, 2], [1, 2, 1]], [[2, 1, 2], [2, 2, 1]],
            [[1, 1, 1], [1, 1, 1]], [[2, 2, 1], [2, 2, 1]], [[1, 2, 2], [1, 2, 2]]):
    out.append(('m', m))
  return out


def specs_of(struct, batches, rank):
  kind, shape = struct
  d = len(shape) if kind == 't' else len(shape[0])
  return [[kind, shape, [1] + [rank] * (d - 1) + [1], b] for b in batches]


def cases(tier):
  out = []
  u = universe()
  for i in range(len(u)):
    for b in (None, 1, 2, 3):
      out.append(['pairs', i, b])
  mats = [k for k, x in enumerate(u) if x[0] == 'm' and len(x[1][0]) <= 2]
  for k in mats:
    out.append(['triples', k])
  for k in range(len(u)):
    out.append(['dense', k])
    out.append(['dtype', k])
    out.append(['concat', k])
    out.append(['project', k])
    out.append(['kinds', k])
    out.append(['lists', k])
  for k in range(len(bases())):
    for ba, bb in ((None, None), (None, 3), (2, None), (2, 2), (5, 5), (1, 4), (4, 1), (4, 5), (5, 4), (2, 3)):
      out.append(['near', k, ba, bb])
    out.append(['nearforms', k])
    out.append(['nearlists', k])
  return out


def bases():
  """Larger structures, each tried with all its small modifications."""
  return [spec_t([4], [1, 1]), spec_t([5, 6], [1, 5, 1]), spec_t([2, 3, 4], [1, 2, 4, 1]), spec_t([3, 2, 2, 3], [1, 3, 4, 3, 1]),
          spec_t([2, 2, 2, 2], [1, 2, 2, 2, 1]), spec_t([2, 3, 1, 2, 2], [1, 2, 3, 2, 2, 1]), spec_t([2, 1, 2, 2, 1, 3], [1, 2, 1, 2, 3, 2, 1]),
          spec_t([2] * 7, [1] + [2] * 6 + [1]), spec_m([4, 2], [3, 5], [1, 3, 1]), spec_m([3, 3], [3, 3], [1, 4, 1]),
          spec_m([2, 3, 2], [2, 3, 2], [1, 2, 3, 1]), spec_m([2, 1, 3], [3, 2, 2], [1, 3, 2, 1]), spec_m([2, 2, 1, 2], [1, 2, 3, 2], [1, 2, 2, 2, 1]),
          spec_m([2, 1, 2, 1, 2], [1, 2, 1, 2, 1], [1, 2, 1, 2, 2, 1]), spec_m([2] * 5, [2] * 5, [1, 2, 2, 2, 2, 1])]


def edits(spec):
  """All structures (kind, shape) one small change away, without the original."""
  kind, shape, ranks, _ = spec
  rows = [list(shape)] if kind == 't' else [list(shape[0]), list(shape[1])]
  out = []

  def lists(x):
    d = len(x)
    res = []
    for k in range(d):
      for v in (x[k] - 1, x[k] + 1, 2 * x[k], 1):
        if v > 0:
          res.append(x[:k] + [v] + x[k + 1:])
    for k in range(d - 1):
      res.append(x[:k] + [x[k + 1], x[k]] + x[k + 2:])
    res.append(x[::-1])
    return res

  def lengths(x):
    res = [x + [1], [1] + x, x + [2]]
    if len(x) > 1:
      res += [x[:-1], x[1:]] + [x[:k] + [x[k] * x[k + 1]] + x[k + 2:] for k in range(len(x) - 1)]
    return res
  if kind == 't':
    out += [('t', x) for x in lists(rows[0]) + lengths(rows[0])]
    out += [('m', [rows[0], [1] * len(rows[0])]), ('m', [[1] * len(rows[0]), rows[0]])]
  else:
    out += [('m', [x, rows[1]]) for x in lists(rows[0])] + [('m', [rows[0], x]) for x in lists(rows[1])]
    out += [('m', [x, y]) for x, y in zip(lengths(rows[0]), lengths(rows[1]))]
    out += [('m', [rows[1], rows[0]]), ('t', [a * b for a, b in zip(*rows)])]
  return [x for x in lib.uniq(out) if x != (kind, shape)]


def dress(struct, ranks, batch):
  """A spec of the structure whose TT-ranks resemble the given ones."""
  kind, shape = struct
  d = len(shape) if kind == 't' else len(shape[0])
  inner = (list(ranks[1:-1]) + [2] * d)[:d - 1]
  return [kind, shape, [1] + inner + [1], batch]


def bcast(a, b):
  """Batch size of a broadcast result: (ok, batch)."""
  if a is None or b is None:
    return True, a if b is None else b
  if a == b or a == 1 or b == 1:
    return True, max(a, b)
  return False, None


def lift(x, spec, b):
  return x if spec[3] is None else x


def run(case, ctx):
  {'pairs': pairs, 'triples': triples, 'dense': dense, 'dtype': dtypes, 'concat': concat, 'project': project,
   'kinds': kinds, 'lists': lists, 'near': near, 'nearforms': near_forms, 'nearlists': near_lists}[case[0]](case, ctx)


def flat(d, spec):
  n = 1 if spec[3] is None else spec[3]
  return d.reshape(n, -1)


def pairs(case, ctx):
  t3f = lib.t3f
  u = universe()
  a_struct = u[case[1]]
  for rank in (1, 2):
    for sa in specs_of(a_struct, [case[2]], rank):
      a, da, _ = lib.make(sa, 1)
      for other in u:
        if rank == 2 and a_struct[0] != other[0]:
          continue
        for sb in specs_of(other, (None, 1, 2, 3), rank):
          b, db, _ = lib.make(sb, 2)
          okb, batch = bcast(sa[3], sb[3])
          same = sa[0] == sb[0] and sa[1] == sb[1]
          what = '%s and %s' % (sa, sb)
          ctx.state((str(sa), str(sb)))
          if same and okb:
            spec = [sa[0], sa[1], None, batch]
            if rank == 1 or sa[3] in (None, 2):
              lib.expect_tt(ctx, t3f.add(a, b), da + db, spec, 'add(%s)' % what)
              lib.expect_tt(ctx, a - b, da - db, spec, 'subtract(%s)' % what)
              lib.expect_tt(ctx, t3f.multiply(a, b), da * db, spec, 'multiply(%s)' % what)
              ip = np.sum(flat(da, sa) * flat(db, sb), axis=1)
              lib.expect_value(ctx, t3f.flat_inner(a, b), ip if batch is not None else ip[0], 'flat_inner(%s)' % what)
              ctx.step(4)
          else:
            for nm, f in (('add', t3f.add), ('multiply', t3f.multiply), ('flat_inner', t3f.flat_inner)):
              lib.expect_raises(ctx, lambda: f(a, b), '%s of %s' % (nm, what), ValueError)
            ctx.step(3)
            if rank == 1 and sa[3] == sb[3]:
              lib.expect_raises(ctx, lambda: a - b, 'difference of %s' % what, ValueError)
              lib.expect_raises(ctx, lambda: a + b, 'sum of %s' % what, ValueError)
              lib.expect_raises(ctx, lambda: a * b, 'product of %s' % what, ValueError)
              ctx.step(3)
          if sa[0] == 'm' and sb[0] == 'm' and sa[1][1] == sb[1][0] and okb:
            spec = ['m', [sa[1][0], sb[1][1]], None, batch]
            lib.expect_tt(ctx, t3f.matmul(a, b), np.matmul(da, db), spec, 'matmul(%s)' % what)
          else:
            lib.expect_raises(ctx, lambda: t3f.matmul(a, b), 'matmul of %s' % what, ValueError)
          ctx.step()
          if sa[3] is not None and sb[3] is not None:
            if same:
              lib.expect_value(ctx, t3f.pairwise_flat_inner(a, b), flat(da, sa).dot(flat(db, sb).T), 'pairwise_flat_inner(%s)' % what)
            else:
              lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(a, b), 'pairwise_flat_inner of %s' % what, ValueError)
            ctx.step()


def near(case, ctx):
  """A larger structure with itself and with everything one change away."""
  t3f = lib.t3f
  base = bases()[case[1]]
  ba, bb = case[2], case[3]
  sa = lib.with_batch(base, ba)
  a, da, _ = lib.make(sa, 31)
  okb, batch = bcast(ba, bb)
  for struct in [(base[0], base[1])] + edits(base):
    same = struct == (base[0], base[1])
    for ranks in (base[2], [1] + [1 + (k + case[1]) % 3 for k in range(len(base[2]) - 2)] + [1]):
      sb = dress(struct, ranks, bb)
      b, db, _ = lib.make(sb, 32)
      ctx.state((str(sa), str(sb)))
      what = '%s and %s' % (sa, sb)
      sc = lib.core_scale(lib.make(sa, 31)[2], lib.make(sb, 32)[2])
      if same and okb:
        spec = [sa[0], sa[1], None, batch]
        lib.expect_tt(ctx, t3f.add(a, b), da + db, spec, 'add(%s)' % what)
        lib.expect_tt(ctx, a - b, da - db, spec, 'subtract(%s)' % what)
        lib.expect_tt(ctx, t3f.multiply(a, b), da * db, spec, 'multiply(%s)' % what)
        ip = np.sum(flat(da, sa) * flat(db, sb), axis=1)
        lib.expect_value(ctx, t3f.flat_inner(a, b), ip if batch is not None else ip[0], 'flat_inner(%s)' % what, scale=sc)
      else:
        for nm, f in (('add', t3f.add), ('multiply', t3f.multiply), ('flat_inner', t3f.flat_inner), ('a - b', lambda x, y: x - y)):
          lib.expect_raises(ctx, lambda: f(a, b), '%s of %s' % (nm, what), ValueError)
          lib.expect_raises(ctx, lambda: f(b, a), '%s of %s, swapped' % (nm, what), ValueError)
      ctx.step(4)
      if sa[0] == 'm' and sb[0] == 'm':
        # the transposed structure is the one that fits a matrix product
        bt, sbt = t3f.transpose(b), ['m', [sb[1][1], sb[1][0]], None, bb]
        if sa[1][1] == sb[1][1] and okb:
          ref = np.matmul(da, np.swapaxes(db, -1, -2))
          ref = ref[None] if batch is not None and ref.ndim == 2 else ref
          lib.expect_tt(ctx, t3f.matmul(a, bt), ref, ['m', [sa[1][0], sb[1][0]], None, batch], 'matmul(%s)' % what)
        else:
          lib.expect_raises(ctx, lambda: t3f.matmul(a, bt), 'matmul of %s and the transpose of %s' % (sa, sb), ValueError)
        ctx.step()
      if ba is not None and bb is not None:
        if same:
          lib.expect_value(ctx, t3f.pairwise_flat_inner(a, b), flat(da, sa).dot(flat(db, sb).T), 'pairwise_flat_inner(%s)' % what, scale=sc)
        else:
          lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(a, b), 'pairwise_flat_inner of %s' % what, ValueError)
        if same and sb[2] == sa[2]:
          lib.expect_tt(ctx, t3f.concat_along_batch_dim([a, b]), np.concatenate([da, db]), [sa[0], sa[1], None, ba + bb], 'concat(%s)' % what)
        else:
          lib.expect_raises(ctx, lambda: t3f.concat_along_batch_dim([a, b]), 'concat of %s' % what, ValueError)
        ctx.step(2)
      if ba is None and not same:
        if lib.ndims(sb) > 1:
          lib.expect_raises(ctx, lambda: t3f.project(b, a), 'project of %s on %s' % (sb, sa), ValueError)
          lib.expect_raises(ctx, lambda: t3f.project_sum(b, a), 'project_sum of %s on %s' % (sb, sa), ValueError)
        if bb is None:
          lib.expect_raises(ctx, lambda: t3f.approximate.add_n([a, a, b], 3), 'add_n of %s' % what, ValueError)
        ctx.step(3)


def near_forms(case, ctx):
  """Forms and projected products of a larger matrix with vectors one change away."""
  t3f = lib.t3f
  base = bases()[case[1]]
  ctx.state(str(case))
  if base[0] == 't':
    base = spec_m(base[1], [n % 3 + 1 for n in base[1]], base[2])
  rows, cols = base[1]
  A, dA, cA = lib.make(base, 33)
  one = lambda s: [1] * len(s)

  def v(s, b, salt):
    return lib.make(dress(('m', [list(s), one(s)]), base[2], b), salt)
  shapes = lambda s: [list(s)] + [x[1] for x in edits(spec_t(s, [1] * (len(s) + 1))) if x[0] == 't']
  todo = [(r, cols) for r in shapes(rows)] + [(rows, c) for c in shapes(cols)] + [(cols, rows), (rows, rows), (cols, cols)]
  B, dB, cB = lib.make(spec_m(cols, rows, base[2]), 36)
  for r, c in lib.uniq([[list(r), list(c)] for r, c in todo]):
    fits = r == list(rows) and c == list(cols)
    what = 'matrix %s with vectors %s and %s' % (base, r, c)
    for bx, by in ((None, None), (None, 3), (2, None), (4, 4), (4, 5), (5, 4), (2, 3)):
      x, dx, cx = v(r, bx, 34)
      y, dy, cy = v(c, by, 35)
      fx, fy = dx.reshape(bx or 1, -1), dy.reshape(by or 1, -1)
      ctx.state((str(case), str(r), str(c), bx, by))
      okb = bx is None or by is None or bx == by
      if fits and okb:
        n = max(len(fx), len(fy))
        e = np.einsum('pi,ij,pj->p', np.broadcast_to(fx, (n, fx.shape[1])), dA, np.broadcast_to(fy, (n, fy.shape[1])))
        lib.expect_value(ctx, t3f.bilinear_form(A, x, y), e[0] if bx is None and by is None else e, 'bilinear_form(%s)' % what,
                         scale=lib.core_scale(cA, cx, cy))
      else:
        lib.expect_raises(ctx, lambda: t3f.bilinear_form(A, x, y), 'bilinear_form of ' + what, ValueError if not fits else Exception)
      ctx.step()
      if bx is not None and by is not None:
        if fits:
          lib.expect_value(ctx, t3f.pairwise_flat_inner(x, y, A), fx.dot(dA).dot(fy.T), 'pairwise_flat_inner(%s)' % what,
                           scale=lib.core_scale(cA, cx, cy))
        else:
          lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(x, y, A), 'pairwise_flat_inner of ' + what, ValueError)
        ctx.step()
    # x^T A B y; y has the shape of the columns of B, which are the rows of A
    for r2, c2, fits in ((r, rows, r == list(rows)), (rows, r, r == list(rows))):
      x, dx, cx = v(r2, None, 34)
      y, dy, cy = v(c2, None, 35)
      if fits:
        lib.expect_value(ctx, t3f.ops.bilinear_form_two_mat(x, A, B, y), float(dx.T.dot(dA).dot(dB).dot(dy)[0, 0]),
                         'bilinear_form_two_mat(%s)' % what, scale=lib.core_scale(cA, cB, cx, cy))
      else:
        lib.expect_raises(ctx, lambda: t3f.ops.bilinear_form_two_mat(x, A, B, y), 'bilinear_form_two_mat of ' + what, ValueError)
      ctx.step()
  for _, other in [e for e in edits(spec_m(cols, rows, base[2])) if e[0] == 'm']:
    if list(other[0]) != list(cols):
      C = lib.make(dress(('m', other), base[2], None), 37)[0]
      x, y = v(rows, None, 34)[0], v(other[1], None, 35)[0]
      lib.expect_raises(ctx, lambda: t3f.ops.bilinear_form_two_mat(x, A, C, y), 'bilinear_form_two_mat of %s and %s' % (base, other), ValueError)
      ctx.step()


def near_lists(case, ctx):
  """Numbers of indices, weights and coefficients for the larger structures."""
  tf, t3f = lib.tf, lib.t3f
  base = bases()[case[1]]
  nd = lib.ndims(base)
  for b in (None, 4, 5):
    spec = lib.with_batch(base, b)
    tt, d, cores = lib.make(spec, 38)
    ctx.state(('lists', str(spec)))
    if spec[0] == 't':
      want = nd + (0 if b is None else 1)
      for n in range(1, nd + 4):
        idx = np.zeros((2, n), np.int64)
        if n == want:
          lib.expect_value(ctx, t3f.gather_nd(tt, idx), np.full(2, d[(0,) * want]), 'gather_nd')
        else:
          lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, idx), 'gather_nd of %s with %d indices' % (spec, n), ValueError)
        ctx.step()
    if b is not None:
      for n in range(2, 9):
        if n == b:
          continue
        lib.expect_raises(ctx, lambda: t3f.multiply_along_batch_dim(tt, tf.ones((n,), tf.float64)), 'multiply_along_batch_dim of %d by %d' % (b, n))
        lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 3, np.ones((n, 2))), 'reduce_sum_batch of %d by %d x 2' % (b, n), ValueError)
        lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 3, np.ones(n)), 'reduce_sum_batch of %d by %d' % (b, n))
        ctx.step(3)
    for cap in (0, -1, [1] * nd, [1] * (nd + 2), [1] + [2] * nd + [1, 1], [2] * nd + [0], [2] * (nd - 1) + [-1, 1]):
      if nd == 1 and cap == [1]:
        continue
      lib.expect_raises(ctx, lambda: t3f.round(tt, max_tt_rank=cap), 'round of %s with max_tt_rank %s' % (spec, cap), ValueError)
      ctx.step()
    for da, db in (('float32', 'float64'), ('float64', 'float32')):
      x, y = lib.make(spec, 39, dtype=da)[0], lib.make(spec, 40, dtype=db)[0]
      fns = [('add', t3f.add), ('multiply', t3f.multiply), ('flat_inner', t3f.flat_inner)]
      if b is not None:
        fns += [('pairwise_flat_inner', t3f.pairwise_flat_inner), ('concat', lambda p, q: t3f.concat_along_batch_dim([p, q]))]
      if spec[0] == 'm':
        fns.append(('matmul', lambda p, q: t3f.matmul(p, t3f.transpose(q))))
      for nm, f in fns:
        lib.expect_raises(ctx, lambda: f(x, y), '%s of %s and %s' % (nm, da, db))
        ctx.step()


def vectors():
  out = []
  for d in (1, 2):
    for s in itertools.product((1, 2), repeat=d):
      for b in (None, 1, 2, 3):
        out.append([list(s), b])
  for s in ([3], [4], [2, 2, 1], [2, 2, 2], [2, 1, 1], [1, 2, 2], [1, 1, 1], [3, 2]):
    out.append([s, None])
  return out


def vec(v, rank, salt):
  s, b = v
  return lib.make(spec_m(s, [1] * len(s), [1] + [rank] * (len(s) - 1) + [1], b), salt)


def triples(case, ctx):
  t3f = lib.t3f
  kind, (rows, cols) = universe()[case[1]]
  d = len(rows)
  vs = vectors()
  for rank in (1, 2):
    sA = spec_m(rows, cols, [1] + [rank] * (d - 1) + [1])
    A, dA, _ = lib.make(sA, 5)
    for v in vs:
      x, dx, _ = vec(v, rank, 6)
      for w in vs:
        y, dy, _ = vec(w, rank, 7)
        what = 'matrix %s x %s with vectors %s and %s (rank %d)' % (rows, cols, v, w, rank)
        ctx.state((rank, str(rows), str(cols), str(v), str(w)))
        fits = v[0] == rows and w[0] == cols
        bx, by = v[1], w[1]
        fx = dx.reshape(1 if bx is None else bx, -1)
        fy = dy.reshape(1 if by is None else by, -1)
        if not fits:
          lib.expect_raises(ctx, lambda: t3f.bilinear_form(A, x, y), 'bilinear_form of ' + what, ValueError)
          if bx is not None and by is not None:
            lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(x, y, A), 'pairwise_flat_inner of ' + what, ValueError)
          ctx.step()
        elif bx is None or by is None or bx == by:
          e = np.einsum('pi,ij,pj->p', np.broadcast_to(fx, (max(len(fx), len(fy)), fx.shape[1])), dA,
                        np.broadcast_to(fy, (max(len(fx), len(fy)), fy.shape[1])))
          lib.expect_value(ctx, t3f.bilinear_form(A, x, y), e[0] if bx is None and by is None else e, 'bilinear_form(%s)' % what)
          ctx.step()
        elif bx != 1 and by != 1:
          lib.expect_raises(ctx, lambda: t3f.bilinear_form(A, x, y), 'bilinear_form of ' + what)
          ctx.step()
        if fits and bx is not None and by is not None:
          lib.expect_value(ctx, t3f.pairwise_flat_inner(x, y, A), fx.dot(dA).dot(fy.T), 'pairwise_flat_inner(%s)' % what)
          ctx.step()
    # x^T A B y with every second matrix, and projections of matrix products.
    for k2, (r2, c2) in [(k, u[1]) for k, u in enumerate(universe()) if u[0] == 'm' and len(u[1][0]) <= 3]:
      sB = spec_m(r2, c2, [1] + [rank] * (len(r2) - 1) + [1])
      B, dB, _ = lib.make(sB, 8)
      for v, w in ((rows, c2), (rows, cols), (r2, c2), (rows + [1], c2), (rows, c2 + [1]), (rows[::-1], c2), (rows, c2[::-1]),
                   ([rows[0] + 1] + rows[1:], c2), (rows, c2[:-1] + [c2[-1] + 2])):
        x, dx, _ = vec([v, None], rank, 6)
        y, dy, _ = vec([w, None], rank, 7)
        f = lambda: t3f.ops.bilinear_form_two_mat(x, A, B, y)
        what = '%s %s %s %s' % (v, (rows, cols), (r2, c2), w)
        if v == rows and cols == r2 and w == c2:
          lib.expect_value(ctx, f(), float(dx.T.dot(dA).dot(dB).dot(dy)[0, 0]), 'bilinear_form_two_mat(%s)' % what)
        else:
          lib.expect_raises(ctx, f, 'bilinear_form_two_mat of %s' % what, ValueError)
        ctx.step()
    if d == 2:
      for s in [v[0] for v in vs if v[1] is None and len(v[0]) > 1]:
        for w in [v[0] for v in vs if v[1] is None and len(v[0]) > 1]:
          what_, _, _ = vec([s, None], 1, 6)
          where, _, _ = vec([w, None], 1, 7)
          f = lambda: t3f.project_matmul(what_, where, A)
          if s == w and rows == w and cols == s:
            ctx.check(isinstance(f(), t3f.TensorTrain), 'project_matmul of fitting operands failed')
          else:
            lib.expect_raises(ctx, f, 'project_matmul of %s on %s with matrix %s' % (s, w, (rows, cols)), ValueError)
          ctx.step()


def dense(case, ctx):
  """Products with dense matrices of every width."""
  tf, t3f = lib.tf, lib.t3f
  kind, shape = universe()[case[1]]
  for rank in (1, 2):
    spec = specs_of((kind, shape), [None], rank)[0]
    tt, d, _ = lib.make(spec, 3)
    ctx.state(('dense', str(spec)))
    for n in range(1, 10):
      for k in (1, 3):
        left, right = lib.ints((k, n), n), lib.ints((n, k), n + 1)
        for what, f, ok, e in (
            ('dense by TT', lambda: t3f.matmul(tf.constant(left), tt), kind == 'm' and n == d.shape[0], lambda: left.dot(d)),
            ('TT by dense', lambda: t3f.matmul(tt, tf.constant(right)), kind == 'm' and n == d.shape[1], lambda: d.dot(right))):
          if ok:
            lib.expect_value(ctx, f(), e(), what)
          else:
            lib.expect_raises(ctx, f, '%s of %s and width %d' % (what, spec, n), ValueError)
          ctx.step()


def dtypes(case, ctx):
  t3f = lib.t3f
  struct = universe()[case[1]]
  for batch in (None, 2):
    spec = specs_of(struct, [batch], 2)[0]
    for da, db in (('float32', 'float64'), ('float64', 'float32'), ('int32', 'float32'), ('float64', 'int64')):
      a = lib.make(spec, 1, dtype=da)[0]
      b = lib.make(spec, 2, dtype=db)[0]
      ctx.state(('dtype', str(spec), da, db))
      fns = [('add', t3f.add), ('multiply', t3f.multiply), ('flat_inner', t3f.flat_inner)]
      if batch is not None:
        fns += [('pairwise_flat_inner', t3f.pairwise_flat_inner), ('concat', lambda p, q: t3f.concat_along_batch_dim([p, q]))]
      elif lib.ndims(spec) > 1:
        fns += [('project', t3f.project)]
      if spec[0] == 'm' and spec[1][0] == spec[1][1]:
        fns.append(('matmul', t3f.matmul))
      for nm, f in fns:
        lib.expect_raises(ctx, lambda: f(a, b), '%s of %s and %s' % (nm, da, db))
        ctx.step()


def concat(case, ctx):
  t3f = lib.t3f
  u = universe()
  a_struct = u[case[1]]
  for ra in (1, 2):
    for sa in specs_of(a_struct, (1, 2), ra):
      a, da, _ = lib.make(sa, 1)
      for other in u:
        for rb in (1, 2):
          for sb in specs_of(other, (None, 1, 2), rb):
            b, db, _ = lib.make(sb, 2)
            f = lambda: t3f.concat_along_batch_dim([a, b])
            if sb[3] is not None and sa[:3] == sb[:3]:
              lib.expect_tt(ctx, f(), np.concatenate([da, db]), [sa[0], sa[1], None, sa[3] + sb[3]], 'concat')
            else:
              lib.expect_raises(ctx, f, 'concat of %s and %s' % (sa, sb), ValueError)
              if sb[3] is not None:
                lib.expect_raises(ctx, lambda: t3f.concat_along_batch_dim([a, a, b]), 'concat of three, %s and %s' % (sa, sb), ValueError)
                lib.expect_raises(ctx, lambda: t3f.concat_along_batch_dim((b, a, a)), 'concat of three, %s and %s' % (sb, sa), ValueError)
            ctx.step()
  ctx.state(('concat', case[1]))


def project(case, ctx):
  """Projections and approximate sums want one shape (and one dtype)."""
  t3f = lib.t3f
  u = universe()
  for rank in (1, 2):
    for b in (None, 1, 2):
      sw = specs_of(u[case[1]], [b], rank)[0]
      what, _, _ = lib.make(sw, 1)
      for other in u:
        so = specs_of(other, [None], 1)[0]
        if lib.ndims(so) == 1 and so[:2] == sw[:2]:
          continue  # one-dimensional manifolds are not supported
        where, _, _ = lib.make(so, 2, 'p')
        ok = so[:2] == sw[:2]
        ctx.state(('project', str(sw), str(so)))
        fns = [('project', lambda: t3f.project(what, where))]
        if b is not None:
          fns.append(('project_sum', lambda: t3f.project_sum(what, where)))
        for nm, f in fns:
          if ok:
            r = f()
            ctx.check(isinstance(r, t3f.TensorTrainBatch if nm == 'project' and b is not None else t3f.TensorTrain),
                      '%s of fitting operands gives %s' % (nm, type(r)))
          else:
            lib.expect_raises(ctx, f, '%s of %s on %s' % (nm, sw, so), ValueError)
          ctx.step()
        if b is None and not ok:
          lib.expect_raises(ctx, lambda: t3f.approximate.add_n([what, where], 2), 'add_n of %s and %s' % (sw, so), ValueError)
          lib.expect_raises(ctx, lambda: t3f.approximate.add_n([what, what, where], 2), 'add_n of %s twice and %s' % (sw, so), ValueError)
          ctx.step(2)
      if lib.ndims(sw) > 1 and b is not None:
        plain = lib.make(lib.with_batch(sw, None), 3)[0]
        lib.expect_raises(ctx, lambda: t3f.project(plain, what), 'project on a batch of points', ValueError)
        lib.expect_raises(ctx, lambda: t3f.project_sum(what, what), 'project_sum on a batch of points', ValueError)
        ctx.step(2)


def kinds(case, ctx):
  """Operations defined for matrices (or tensors, or TT-objects) only."""
  tf, t3f = lib.tf, lib.t3f
  kind, shape = universe()[case[1]]
  for b in (None, 1, 2):
    for rank in (1, 2):
      spec = specs_of((kind, shape), [b], rank)[0]
      tt, d, _ = lib.make(spec, 1)
      ctx.state(('kinds', str(spec)))
      if kind == 't':
        lib.expect_raises(ctx, lambda: t3f.transpose(tt), 'transpose of a tensor', ValueError)
        for f in (t3f.kronecker.determinant, t3f.kronecker.slog_determinant, t3f.kronecker.inv, t3f.kronecker.cholesky):
          lib.expect_raises(ctx, lambda: f(tt), 'Kronecker operation on a tensor', ValueError)
        lib.expect_raises(ctx, lambda: t3f.bilinear_form(tt, tt, tt), 'bilinear_form of tensors', ValueError)
        m = lib.make(spec_m(shape, shape, spec[2]), 1)[0]
        v = lib.make(spec_m(shape, [1] * len(shape), spec[2]), 1)[0]
        lib.expect_raises(ctx, lambda: t3f.bilinear_form(m, tt, v), 'bilinear_form with a tensor', ValueError)
        lib.expect_raises(ctx, lambda: t3f.bilinear_form(m, v, tt), 'bilinear_form with a tensor', ValueError)
        lib.expect_raises(ctx, lambda: t3f.bilinear_form(tt, v, v), 'bilinear_form with a tensor', ValueError)
        for k in range(4):
          args = [v, m, m, v]
          args[k] = tt
          lib.expect_raises(ctx, lambda: t3f.ops.bilinear_form_two_mat(*args), 'bilinear_form_two_mat with a tensor', ValueError)
          args[k] = tf.ones((2, 2), tf.float64)
          lib.expect_raises(ctx, lambda: t3f.ops.bilinear_form_two_mat(*args), 'bilinear_form_two_mat with a dense array', ValueError)
          ctx.step(2)
        for k in range(3):
          args = [m, v, v]
          args[k] = tf.ones((2, 2), tf.float64)
          lib.expect_raises(ctx, lambda: t3f.bilinear_form(*args), 'bilinear_form with a dense array', ValueError)
          ctx.step()
        if b is not None:
          vb = lib.make(spec_m(shape, [1] * len(shape), spec[2], b), 1)[0]
          lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(tt, tt, m), 'pairwise_flat_inner of tensors with a matrix', ValueError)
          lib.expect_raises(ctx, lambda: t3f.pairwise_flat_inner(vb, tt, m), 'pairwise_flat_inner of tensors with a matrix', ValueError)
          lib.expect_raises(ctx, lambda: t3f.gram_matrix(tt, m), 'gram_matrix of tensors with a matrix', ValueError)
        ctx.step(9)
      else:
        lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, [[0] * (lib.ndims(spec) + (0 if b is None else 1))]), 'gather_nd of a matrix',
                          NotImplementedError)
        ctx.step()
      arr = tf.ones((2, 2), tf.float64)
      for nm, f in (('transpose', lambda: t3f.transpose(arr)), ('ones_like', lambda: t3f.ones_like(arr)), ('zeros_like', lambda: t3f.zeros_like(arr)),
                    ('cast', lambda: t3f.cast(arr, tf.float32)), ('flat_inner', lambda: t3f.flat_inner(arr, arr)),
                    ('matmul', lambda: t3f.matmul(arr, arr))):
        lib.expect_raises(ctx, f, '%s of a dense tensor' % nm, ValueError)
        ctx.step()
      if b is None:
        lib.expect_raises(ctx, lambda: t3f.batch_size(tt), 'batch_size of a single object', ValueError)
        lib.expect_raises(ctx, lambda: t3f.lazy_batch_size(tt), 'lazy_batch_size of a single object', ValueError)
        ctx.step(2)


def lists(case, ctx):
  """Sizes of plain lists accompanying TT-objects."""
  tf, t3f = lib.tf, lib.t3f
  kind, shape = universe()[case[1]]
  for b in (None, 1, 2, 3):
    spec = specs_of((kind, shape), [b], 2)[0]
    tt, d, _ = lib.make(spec, 1, 'r')
    nd = lib.ndims(spec)
    ctx.state(('lists', str(spec)))
    if kind == 't':
      want = nd + (0 if b is None else 1)
      for n in range(1, nd + 4):
        idx = np.zeros((2, n), np.int64)
        if n == want:
          lib.expect_value(ctx, t3f.gather_nd(tt, idx), np.full(2, d[(0,) * want]), 'gather_nd')
        else:
          lib.expect_raises(ctx, lambda: t3f.gather_nd(tt, idx), 'gather_nd of %s with %d indices' % (spec, n), ValueError)
        ctx.step()
    if b is not None:
      for n in range(1, 6):
        if n == b:
          w = lib.ints((n,), 1)
          lib.expect_tt(ctx, t3f.multiply_along_batch_dim(tt, tf.constant(w)), d * w.reshape((n,) + (1,) * (d.ndim - 1)), [kind, shape, None, b],
                        'multiply_along_batch_dim')
        elif n != 1 and b != 1:
          lib.expect_raises(ctx, lambda: t3f.multiply_along_batch_dim(tt, tf.ones((n,), tf.float64)), 'multiply_along_batch_dim of %d by %d' % (b, n))
        if n != b:
          lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 3, np.ones((n, 2))), 'reduce_sum_batch of %d by %d x 2' % (b, n), ValueError)
        ctx.step(2)
      lib.expect_raises(ctx, lambda: t3f.approximate.reduce_sum_batch(tt, 3, np.ones((b, 2, 2))), 'reduce_sum_batch with a 3-d table', ValueError)
    for cap in (0, -1, [1] * nd, [1] * (nd + 2), [1] + [0] * nd):
      if nd == 1 and cap == [1]:
        continue
      lib.expect_raises(ctx, lambda: t3f.round(tt, max_tt_rank=cap), 'round of %s with max_tt_rank %s' % (spec, cap), ValueError)
      ctx.step()
