"""C12: projection onto the tangent space of a TT-object."""
import itertools

import numpy as np

from mc import contexts, lib
from mc.checks import c20
from mc.lib import spec_t, spec_m, rank_choices

ID = 'C12'
BOUND = ('points: tensors d=2,3 modes {1,2,3}, d=4 modes {1,2}, matrices d=2,3, every achievable rank vector over {1,2,3}; '
         'projected: ALL elementary tensors (the complete matrix of the projector), generic objects of ranks 1..3, the point '
         'itself; batches single,1,2,3,5; sums with weights absent, B-vectors over {-1,0,2} for B<=3 and BxK matrices K<=3; matrix '
         'products of ranks 1..3; single axes to d=10, mode 40, rank 6, batch 64; tiny, huge, badly balanced, all-zero and variable points, objects and '
         'matrices in every combination; points and objects that are results of 20 other operations, in every pair; float64 and float32')
BOUND += contexts.BOUND
ASSUMPTIONS = ['oracle: orthogonal projector on the range of the Jacobian of the dense array with respect to the cores (NumPy SVD)',
               'points have exactly the TT-ranks they are stored with (where the tangent space is defined); at over-ranked '
               'points only the fixed-point and inner-product laws are checked']
NPOINTS = 30  # at least as many as there are origins of single objects
TOL = {'float64': 1e-8, 'float32': 2e-3}


def points(deep):
  out = []
  for s in lib.small_tensors((2, 3)) + lib.small_tensors((4,), (1, 2), (1, 2)) + \
      lib.small_matrices((2,), rank_values=(1, 2, 3)) + lib.small_matrices((3,), ((1, 2), (2, 1), (2, 2)), (1, 2)):
    if lib.is_clipped(s):
      out.append(s)
  return out


def axial():
  out = []
  for s in lib.axial_tensors() + lib.axial_matrices():
    s = lib.clip_ranks(s)
    if lib.ndims(s) >= 2 and np.prod(lib.dense_shape(s)) <= 1200 and max(s[2]) <= 6:
      out.append(s)
  return lib.uniq(out)


def cases(tier):
  deep = tier == 'thorough'
  out = []
  for s in points(deep):
    out.append(['basis', s, 'float64'])
    out.append(['basis', s, 'float32'])
    d = lib.ndims(s)
    for rw in lib.uniq([[1] + [r] * (d - 1) + [1] for r in (1, 2, 3)] + [[1] + ([1, 3, 2, 1][:d - 1]) + [1]]):
      for b in (None, 1, 2, 3, 5):
        out.append(['proj', s, rw, b, 'float64'])
      out.append(['proj', s, rw, 3, 'float32'])
    for b in (1, 2, 3):
      out.append(['weights', s, b, 'float64'])
    if s[0] == 'm':
      for rA in ([1] + [r] * (d - 1) + [1] for r in (1, 2, 3)):
        for rw in ([1] + [r] * (d - 1) + [1] for r in (1, 2)):
          for b in (None, 1, 3):
            out.append(['matmul', s, rA, rw, b, 'float64'])
      out.append(['matmul', s, [1] + [2] * (d - 1) + [1], [1] + [2] * (d - 1) + [1], 2, 'float32'])
  for s in axial():
    out.append(['basis', s, 'float64'])
    d = lib.ndims(s)
    for b in (None, 2, 7):
      out.append(['proj', s, s[2][::-1], b, 'float64'])
    out.append(['proj', s, [1] + [2] * (d - 1) + [1], 2, 'float32'])
    out.append(['weights', s, 5, 'float64'])
    if s[0] == 'm':
      for b in (None, 1, 4):
        out.append(['matmul', s, s[2][::-1], s[2], b, 'float64'])
  for s, b in lib.far_batches():
    s = lib.clip_ranks(s)
    d = lib.ndims(s)
    if d > 1:
      out.append(['proj', s, s[2][::-1], b, 'float64'])
      out.append(['weights', s, b, 'float64'])
      if s[0] == 'm':
        out.append(['matmul', s, s[2], s[2], b, 'float64'])
  for s in lib.special_points():
    for kp, kw in itertools.product(lib.VARIANTS[:-1], lib.VARIANTS):
      for b in (None, 1, 3, 5):
        out.append(['special', s, kp, kw, b])
  over = [s for s in lib.small_tensors((2, 3), (1, 2, 3), (1, 2, 3)) + lib.small_matrices((2,), rank_values=(2, 3))
          if not lib.is_clipped(s)]
  for s in over:
    out.append(['over', s])
  for s in lib.small_tensors((2, 3), (2, 3), (2,)) + lib.small_matrices((2,), ((2, 2), (2, 3)), (2,)):
    out.append(['bad', s])
  for s in lib.origin_specs():
    for b in (None, 1, 3):
      for i in range(NPOINTS):
        out.append(['origin', s, b, i])
  return out + contexts.cases(ID, tier)


def proj(U, x):
  """x: (..., N) rows -> projected rows."""
  return x.dot(U).dot(U.T)


def verify(ctx, res, where, expected, s, batch, what, dt, scale):
  caps = [1] + [2 * r for r in s[2][1:-1]] + [1]
  sb = lib.with_batch(s, batch)
  lib.expect_tt(ctx, res, expected.reshape(lib.dense_shape(sb)), sb, what, dt, tol=TOL[dt], max_ranks=caps, scale=scale)
  ctx.check(getattr(res, 'projection_on', None) is where, '%s: the result does not say whose tangent space it is in' % what)
  ctx.step()


def run(case, ctx):
  if contexts.run(ID, case, ctx):
    return
  t3f, tf = lib.t3f, lib.tf
  ctx.state(str(case))
  kind, s = case[0], case[1]
  d = lib.ndims(s)
  N = int(np.prod(lib.dense_shape(s)))
  if kind == 'basis':
    dt = case[2]
    where, dense, cores, U = lib.point(s, dt)
    el = lib.elementary(s)
    what = lib.build(lib.with_batch(s, N), el, dt)
    P = U.dot(U.T)
    verify(ctx, t3f.project(what, where), where, P, s, N, 'project(all elementary, %s)' % s, dt, 1.)
    verify(ctx, t3f.project(where, where), where, dense, s, None, 'project(x, x)', dt, 1.)
    verify(ctx, t3f.project_sum(what, where), where, P.sum(0), s, None, 'project_sum(all elementary)', dt, N ** .5)
    verify(ctx, t3f.project_sum(what, where, np.eye(N)), where, P, s, N, 'project_sum(all elementary, I)', dt, 1.) if N > 1 else None
    for j in range(min(N, 3)):
      one = lib.build(s, [c[j] for c in el], dt)
      verify(ctx, t3f.project(one, where), where, P[j], s, None, 'project(elementary)', dt, 1.)
    # tangent vectors are fixed points
    tang = t3f.project(what, where)
    verify(ctx, t3f.project(tang, where), where, P, s, N, 'project(project(all elementary))', dt, 1.)
    lib.unchanged(ctx, where, cores, 'project')
  elif kind == 'proj':
    _, s, rw, b, dt = case
    where, dense, cores, U = lib.point(s, dt)
    for vk in ('r', 'z'):
      sw = lib.with_batch(lib.with_ranks(s, rw), b)
      what, dw, cw = lib.make(sw, 121, vk, dt)
      flat = dw.reshape(b or 1, N)
      sc = 1 + float(np.max(np.linalg.norm(flat, axis=1)))
      verify(ctx, t3f.project(what, where), where, proj(U, flat), s, b, 'project(%s on %s)' % (sw, s), dt, sc)
      verify(ctx, t3f.project_sum(what, where), where, proj(U, flat.sum(0)), s, None, 'project_sum(%s on %s)' % (sw, s), dt,
             sc * (b or 1))
      lib.unchanged(ctx, what, cw, 'project')
    lib.unchanged(ctx, where, cores, 'project')
  elif kind == 'weights':
    _, s, b, dt = case
    where, dense, cores, U = lib.point(s, dt, 1)
    sw = lib.with_batch(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), b)
    what, dw, cw = lib.make(sw, 122, 'r', dt)
    flat = dw.reshape(b, N)
    sc = 1 + 10 * float(np.sum(np.linalg.norm(flat, axis=1)))
    ws = [np.array(w, dtype=float) for w in itertools.product((-1, 0, 2), repeat=b)] if b <= 2 else \
        [lib.ints((b,), k) for k in range(4)] + [np.eye(b)[k] for k in range(b)] + [np.arange(1, b + 1) * .5]
    for k, w in enumerate(ws):
      forms = [w.tolist(), w, tf.constant(w, lib.tf_dtype(dt))]
      for f in forms if k < 2 else forms[:1]:
        verify(ctx, t3f.project_sum(what, where, f), where, proj(U, w.dot(flat)), s, None,
               'project_sum(%s, %s)' % (sw, w.tolist()), dt, sc)
    for K in (2, 3, b + 1) if b > 1 else (2, 3):
      for salt in range(2):
        W = lib.ints((b, K), 77 + salt + K)
        for f in (W.tolist(), tf.constant(W, lib.tf_dtype(dt))):
          verify(ctx, t3f.project_sum(what, where, f), where, proj(U, W.T.dot(flat)), s, K,
                 'project_sum(%s, %s)' % (sw, W.tolist()), dt, sc)
    if b > 1:
      verify(ctx, t3f.project_sum(what, where, np.eye(b)), where, proj(U, flat), s, b, 'project_sum(%s, I)' % sw, dt, sc)
    lib.unchanged(ctx, what, cw, 'project_sum')
  elif kind == 'matmul':
    _, s, rA, rw, b, dt = case
    where, dense, cores, U = lib.point(s, dt)
    A, dA, cA = lib.make(spec_m(s[1][0], s[1][0], rA), 123, 'r', dt)
    sw = lib.with_batch(lib.with_ranks(s, rw), b)
    what, dw, cw = lib.make(sw, 124, 'r', dt)
    prod = np.matmul(dA, dw).reshape(b or 1, N)
    sc = 1 + float(np.linalg.norm(dA) * np.max(np.linalg.norm(dw.reshape(b or 1, N), axis=1)))
    verify(ctx, t3f.project_matmul(what, where, A), where, proj(U, prod), s, b, 'project_matmul(%s, %s, rank %s)' % (sw, s, rA), dt, sc)
    for x, y in ((A, cA), (what, cw), (where, cores)):
      lib.unchanged(ctx, x, y, 'project_matmul')
  elif kind == 'special':
    _, s, kp, kw, b = case
    where, dense, cores, U = lib.special_point(s, kp)
    sw = lib.with_batch(lib.with_ranks(s, [1, 2, 3, 2][:d] + [1]), b)
    what, dw, cw = lib.make(sw, 128, kw.replace('i', 'r'))
    flat = dw.reshape(b or 1, N)
    sc = lib.core_scale(cw)
    name = '(%s %s on %s %s)' % (sw, kw, s, kp)
    verify(ctx, t3f.project(what, where), where, proj(U, flat), s, b, 'project' + name, 'float64', sc)
    verify(ctx, t3f.project_sum(what, where), where, proj(U, flat.sum(0)), s, None, 'project_sum' + name, 'float64', sc)
    if b is not None:
      for c in (1., 2. ** -40, 2. ** 40):
        w = c * lib.ints((b,), 79)
        verify(ctx, t3f.project_sum(what, where, w), where, proj(U, w.dot(flat)), s, None, 'project_sum weighted' + name, 'float64',
               sc * c * 2)
    if s[0] == 'm':
      for kA in lib.VARIANTS if b in (None, 3) else ('i',):
        A, dA, cA = lib.make(spec_m(s[1][0], s[1][0], [1, 3, 2][:d] + [1]), 129, kA.replace('i', 'r'))
        verify(ctx, t3f.project_matmul(what, where, A), where, proj(U, np.matmul(dA, dw).reshape(b or 1, N)), s, b,
               'project_matmul by %s%s' % (kA, name), 'float64', lib.core_scale(cw, cA))
        lib.unchanged(ctx, A, cA, 'project_matmul')
    xs = abs(lib.special_scale(kp)) * lib.core_scale(lib.point(s)[2])
    if kw == 'i' and b is None:
      verify(ctx, t3f.project(where, where), where, dense, s, None, 'project(x, x)' + name, 'float64', xs)
    lib.unchanged(ctx, what, cw, 'project')
    lib.unchanged(ctx, where, cores, 'project')
  elif kind == 'origin':
    # Points and projected objects that are results of other operations.
    b = case[2]
    points = lib.origin_points(s)
    ctx.check(10 <= len(points) <= NPOINTS, '%d usable points' % len(points))
    for wn, where, U in points[case[3]:case[3] + 1]:
      s2 = lib.with_ranks(s, where.get_tt_ranks().as_list())
      for n, x in lib.origins(s, b):
        flat = lib.dense_of(x).reshape(b or 1, N)
        sc = 1 + float(np.max(np.linalg.norm(flat, axis=1)))
        name = '(%s of %s on %s)' % (n, lib.with_batch(s, b), wn)
        verify(ctx, t3f.project(x, where), where, proj(U, flat), s2, b, 'project' + name, 'float64', sc)
        verify(ctx, t3f.project_sum(x, where), where, proj(U, flat.sum(0)), s2, None, 'project_sum' + name, 'float64', sc * (b or 1))
        if s[0] == 'm':
          A, dA, _ = lib.make(spec_m(s[1][0], s[1][0], [1] + [2] * (d - 1) + [1]), 130, 'r')
          prod = np.matmul(dA, lib.dense_of(x)).reshape(b or 1, N)
          verify(ctx, t3f.project_matmul(x, where, A), where, proj(U, prod), s2, b, 'project_matmul' + name, 'float64',
                 sc * (1 + np.linalg.norm(dA)))
  elif kind == 'over':
    where, dense, cores = lib.make(s, 125, 'r')
    what, dw, cw = lib.make(lib.with_batch(lib.with_ranks(s, [1] + [2] * (d - 1) + [1]), 3), 126, 'r')
    caps = [1] + [2 * r for r in s[2][1:-1]] + [1]
    sc = 1 + np.prod([np.linalg.norm(c) for c in cores])
    lib.expect_tt(ctx, t3f.project(where, where), dense, s, 'project(x, x) over-ranked', tol=1e-8, max_ranks=caps, scale=sc)
    res = t3f.project(what, where)
    lib.expect_tt(ctx, res, None, lib.with_batch(s, 3), 'project over-ranked', max_ranks=caps, value=False)
    got = lib.dense_of(res).reshape(3, -1)
    ref = dw.reshape(3, -1)
    sc2 = 1 + sc * np.max(np.linalg.norm(ref, axis=1))
    ctx.check(lib.close(got.dot(dense.reshape(-1)), ref.dot(dense.reshape(-1)), tol=1e-8, scale=sc2),
              'project over-ranked: inner product with the point is not preserved')
    ctx.check(np.all(np.linalg.norm(got, axis=1) <= np.linalg.norm(ref, axis=1) * (1 + 1e-8) + 1e-8),
              'project over-ranked: the projection is longer than the vector')
    # orthogonality of the residual to the Jacobian of the point
    J = lib.jacobian(cores, s[0] == 'm')
    ctx.check(np.max(np.abs((ref - got).dot(J))) <= 1e-7 * sc2 * max(1, np.max(np.abs(J))),
              'project over-ranked: the residual is not orthogonal to a tangent direction')
    ctx.step(2)
  else:
    where = lib.point(s)[0]
    cand = []
    for row in range(2 if s[0] == 'm' else 1):
      for k in range(d):
        sh = [list(x) for x in s[1]] if s[0] == 'm' else list(s[1])
        (sh[row] if s[0] == 'm' else sh)[k] += 1
        cand += [lib.make([s[0], sh, s[2], b], 127)[0] for b in (None, 2)]
    if s[0] == 't':
      cand.append(lib.make(spec_t(s[1] + [1], s[2] + [1]), 127)[0])
      if d > 2:
        cand.append(lib.make(spec_t(s[1][:-1], s[2][:-2] + [1]), 127)[0])
      cand.append(lib.make(spec_m(s[1], [1] * d, s[2]), 127)[0])
    cand += [lib.make(lib.with_batch(s, b), 127, 'i', 'float32')[0] for b in (None, 2)]
    # everything one change of the structure away
    cand += [lib.make(c20.dress(e, s[2], b), 127)[0] for e in c20.edits(s) for b in (None, 2)]
    A = lib.make(spec_m(s[1][0], s[1][0], s[2]), 127)[0] if s[0] == 'm' else None
    fns = [t3f.project, t3f.project_sum] + ([lambda x, y: t3f.project_matmul(x, y, A)] if A is not None else [])
    for fn in fns:
      for x in cand:
        lib.expect_raises(ctx, lambda: fn(x, where), 'projecting an object of another shape or dtype', ValueError)
        ctx.step()
      lib.expect_raises(ctx, lambda: fn(where, lib.make(lib.with_batch(s, 2), 127)[0]), 'projecting on a batch', ValueError)
    if A is not None:
      for kind, sh in c20.edits(spec_m(s[1][0], s[1][0], s[2])):
        if kind == 'm':
          B = lib.make(c20.dress((kind, sh), s[2], None), 127)[0]
          for b in (None, 2):
            x = lib.make(lib.with_batch(s, b), 127)[0]
            lib.expect_raises(ctx, lambda: t3f.project_matmul(x, where, B), 'projecting a product with a matrix of another shape', ValueError)
            ctx.step()
