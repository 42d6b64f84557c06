From c5c0da87885e9a20cd671a2e36abcd3ad33d3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 01/96] fix: crys.angle: no math domain error for
 (anti)parallel vectors

Rounding can make the cosine slightly larger than one.
---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..919dd33 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -31,7 +31,10 @@ def angle(x,y):
     """
     # Numpy's `acos' is "acrcos", but we take the one from math for scalar
     # args.
-    return acos(np.dot(x,y)/norm(x)/norm(y))*180.0/pi
+    #
+    # Clip rounding errors: cos(angle) may be 1 + 2e-16 for parallel vectors.
+    cos_xy = np.dot(x,y)/norm(x)/norm(y)
+    return acos(max(-1.0, min(1.0, cos_xy)))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From 0583f96147654081f7922622519d39c17a657139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 02/96] fix: crys.recip_cell: correct sign for left-handed
 cells

Use the signed volume, else dot(a_i, b_j) = -2*pi*delta_ij.
---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 919dd33..be61fd4 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -302,10 +302,11 @@ def recip_cell(cell):
     cell = np.asarray(cell, dtype=float)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     rcell = np.empty_like(cell)
-    vol = volume_cell(cell)
     a = cell[0,:]
     b = cell[1,:]
     c = cell[2,:]
+    # signed triple product, volume_cell() is always > 0
+    vol = np.dot(a, np.cross(b,c))
     rcell[0,:] = 2*pi/vol * np.cross(b,c)
     rcell[1,:] = 2*pi/vol * np.cross(c,a)
     rcell[2,:] = 2*pi/vol * np.cross(a,b)
-- 
2.43.0


From 4b23bc211875bfef646670190513fe24a322d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 03/96] fix: crys.grid_in_cell: even=True also if minpoints is
 used

The raise to minpoints was done after making the sizes even, e.g. size=1 was
returned with even=True and minpoints=1.
---
 src/pwtools/crys.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index be61fd4..f615ced 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -371,13 +371,12 @@ def grid_in_cell(cell, h=None, size=None, minpoints=1, even=False, fullout=False
     cell = np.asarray(cell, dtype=float)
     norms = np.sqrt((cell**2.0).sum(axis=1))
     if size is None:
-        size = np.round(norms / spacing)
-        if even:
-            size += (size % 2.0)
-        size = size.astype(int)
+        size = np.round(norms / spacing).astype(int)
         mask = size < minpoints
         if mask.any():
             size[mask] = minpoints
+        if even:
+            size += size % 2
         # only possible if minpoints=0
         if (size == 0).any():
             raise Exception("at least one point count is zero, decrease `spacing`, "
-- 
2.43.0


From 2cf7957000e5ded087bc2091bdeab727253a9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 04/96] fix: crys.coord_trans: don't truncate results for
 integer coords

---
 src/pwtools/crys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index f615ced..1189594 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -934,6 +934,9 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
     _coords = coords.copy() if copy else coords
+    # don't truncate the result to ints in `_coords[:] = ...` below
+    if copy and _coords.dtype.kind in 'iu':
+        _coords = _coords.astype(float)
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From 28340b1c9a8cf889b9056ec00e887c3a511c5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 05/96] fix: crys.coord_trans3d: correct result shape for
 negative timeaxis

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 1189594..8eaf134 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1009,7 +1009,7 @@ def coord_trans3d(coords, old=None, new=None, copy=True, axis=-1, timeaxis=0):
                                copy=copy))
     ret = np.array(ret)
     if timeaxis != 0:
-        return np.rollaxis(ret, 0, start=timeaxis+1)
+        return np.moveaxis(ret, 0, timeaxis)
     else:
         return ret
 
-- 
2.43.0


From 1dd0dda4da667e5a1137041d75af63b267b63530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 06/96] fix: crys.rpdf: don't modify the trajs and amask lists
 passed in

---
 src/pwtools/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 8eaf134..e04dbcb 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1489,10 +1489,12 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     if type(trajs) != type([]):
         trajs = [trajs]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs * 2
         dup_trajs = True
+    # copy, amask entries are replaced below, don't change the caller's lists
+    amask = list(amask)
     if len(amask) == 1:
-        amask *= 2
+        amask = amask * 2
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From 868d0d6c7262861ee099872f04f776604ed16a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 07/96] fix: crys.nearest_neighbors: num=... with the central
 atom's symbol in skip

The nearest neighbor was dropped instead of the central atom, which was already
removed by `skip`.
---
 src/pwtools/crys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index e04dbcb..f02e43f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1991,9 +1991,10 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
-        ret_idx = idx_lst_sort[only_msk][cut_msk]
+        # central atom excluded, need not be the first one in
+        # idx_lst_sort[only_msk], i.e. if its symbol is in `skip`
+        only_msk = only_msk & (idx_lst_sort != idx % len(dist1d))
+        ret_idx = idx_lst_sort[only_msk][:num]
     else:
         cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
         ret_idx = idx_lst_sort[cut_msk & only_msk]
-- 
2.43.0


From 803253493dd83b9668cfbedff31201a3c1bcbca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 08/96] fix: flib.cart2frac: don't overwrite the input cell if
 it is in Fortran order

dgesv() overwrites its matrix argument by the LU factors, so e.g.
Structure(coords=..., cell=cell) changed cell if that was a Fortran-ordered
array.
---
 src/_ext_src/flib.f90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..2bbd68e 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -568,11 +568,15 @@ subroutine cart2frac(coords, cell, natoms, coords_frac)
     integer :: natoms, ipiv(3), info
     double precision, intent(in) :: coords(natoms, 3), cell(3,3)
     double precision, intent(out) :: coords_frac(natoms, 3)
-    double precision :: wrk(3,natoms)
+    double precision :: wrk(3,natoms), cell_t(3,3)
 
+    ! Make a copy of cell b/c dgesv() overwrites it. With dgesv(..,
+    ! transpose(cell), ...), the LU factors may be written back to `cell` and
+    ! thus to the numpy array passed from Python if it is in F-order.
+    cell_t = transpose(cell)
     ! solve for all `natoms` RHS at once
     wrk = transpose(coords)
-    call dgesv(3, natoms, transpose(cell), 3, ipiv, wrk, 3, info)
+    call dgesv(3, natoms, cell_t, 3, ipiv, wrk, 3, info)
     coords_frac = transpose(wrk)
 end subroutine cart2frac
 
-- 
2.43.0


From b06f71890140169db4a7bc5d123efed080ec0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 09/96] fix: Trajectory: each loop iterates over all steps

All loops over a Trajectory shared one index, so after leaving a loop by break,
the next loop started in the middle, and nested loops skipped steps.
---
 src/pwtools/crys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index f02e43f..163e080 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2942,7 +2942,11 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # A new iterator for each loop. With ``return self``, a loop started
+        # after a `break` or inside another loop over the same object would
+        # continue at the current step of the other loop.
+        for idx in range(self.nstep):
+            yield self[idx]
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From 846c68ca56843dfdb53d67a5b2a8834e7d4eab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 10/96] fix: Structure.copy: copy units as well

A copy of an object made before set_all() (set_all_auto=False) lost the unit
factors, so set_all() of the copy did not convert units.
---
 src/pwtools/crys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 163e080..c7ede8f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2532,6 +2532,8 @@ class Structure(UnitsHandler):
                 setattr(obj, name, val.copy())
             else:
                 setattr(obj, name, copy.deepcopy(val))
+        obj.units = self.units.copy()
+        obj.units_applied = self.units_applied
         return obj
 
     def get_velocity(self):
-- 
2.43.0


From c017a14cd0c0d982e3d0c0c3c5f729159d5be525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 11/96] fix: crys.concatenate: don't copy time-dependent attrs
 of the first item

Attributes like forces which are not present in all items were taken from the
first one and had the wrong number of steps.
---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index c7ede8f..b1964d0 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3103,7 +3103,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From 024ffacfd20d6077db164ba3027402bb180b88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 12/96] fix: crys.mix: accept any sequence for alpha, as
 documented

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b1964d0..0fe6494 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3270,7 +3270,7 @@ def mix(st1, st2, alpha):
     assert st1.symbols == st2.symbols
     coords = np.empty_like(st1.coords)
     cell = np.empty_like(st1.cell)
-    rr = alpha[:,None,None]
+    rr = np.asarray(alpha)[:,None,None]
     coords = rr * st2.coords[None,:,:] + (1.0 - rr) * st1.coords[None,:,:]
     cell = rr * st2.cell[None,:,:] + (1.0 - rr) * st1.cell[None,:,:]
     if (st1.forces is not None) and (st2.forces is not None):
-- 
2.43.0


From 4070481a20a7a6c7d8163b6288c24b1e6a46f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 13/96] fix: crys.scell: method=2 for Structures without
 symbols

symbols=[] made the supercell have natoms=0.
---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 0fe6494..23feee6 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -641,7 +641,7 @@ def scell(obj, dims, method=1, **kwds):
     # only for Structure
     elif method == 2:
         if obj.is_struct:
-            sc_symbols = []
+            sc_symbols = [] if obj.symbols is not None else None
             sc_coords_frac = np.empty((nmask*obj.natoms, 3), dtype=float)
             k = 0
             for iatom in range(obj.natoms):
-- 
2.43.0


From 409687acae19dc5ecfd1087536515bc612760dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 14/96] fix: Trajectory: no IndexError for one or two steps and
 given timestep

Velocities cannot be calculated in that case.
---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 23feee6..743dd16 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2543,7 +2543,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # need at least 3 steps for central differences
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[self.timeaxis] > 2:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 021a0c4281e97cc4fe471cbbe6783c23939378e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 15/96] fix: crys.velocity_traj: don't truncate velocities of
 integer coords

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 743dd16..5e4550d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -709,12 +709,12 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        # dtype of tmp: arr may be an integer array
+        vv = np.empty_like(arr, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
-- 
2.43.0


From a0efbbce113957a9547c7d776d134ae8da186faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 16/96] fix: crys.angle: result doesn't depend on memory
 alignment

cell2cc() and cell2cc3d() gave different results (last bit) for the same cell,
depending on where it is stored. test_trajectory.py::test_traj compares them
with == and failed in more than every second run when started alone.
---
 src/pwtools/crys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 5e4550d..5dcd1b4 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -33,7 +33,12 @@ def angle(x,y):
     # args.
     #
     # Clip rounding errors: cos(angle) may be 1 + 2e-16 for parallel vectors.
-    cos_xy = np.dot(x,y)/norm(x)/norm(y)
+    #
+    # No np.dot() and norm(): they call BLAS, where the last bit can depend on
+    # the memory alignment of the input.
+    x = np.asarray(x)
+    y = np.asarray(y)
+    cos_xy = (x*y).sum()/np.sqrt((x*x).sum())/np.sqrt((y*y).sum())
     return acos(max(-1.0, min(1.0, cos_xy)))*180.0/pi
 
 
-- 
2.43.0


From 471c856b549ed26d9d1c7cc5593878b57584dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 17/96] fix: Trajectory: no AssertionError for one-step cell
 and unknown nstep

Without coords, nstep is not known, and there is nothing to extend.
---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 5dcd1b4..9eb56ee 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2485,7 +2485,7 @@ class Structure(UnitsHandler):
             return cell
         if cell.shape == (3,3):
             return self._extend_array(cell)
-        elif cell.shape == (1,3,3):
+        elif cell.shape == (1,3,3) and self.check_set_attr('nstep'):
             return self._extend_array(cell[0,...])
         else:
             return cell
@@ -2495,7 +2495,7 @@ class Structure(UnitsHandler):
             return cc
         if cc.shape == (6,):
             return self._extend_array(cc)
-        elif cc.shape == (1,6):
+        elif cc.shape == (1,6) and self.check_set_attr('nstep'):
             return self._extend_array(cc[0,...])
         else:
             return cc
-- 
2.43.0


From 5820363556445ce86eeb89c1361090c32a0734c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 18/96] fix: Structure: accept integer cryst_const

Raised a casting error, even without `units`.
---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 9eb56ee..a49b2fd 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2168,7 +2168,7 @@ class UnitsHandler(FlexibleGetters):
         # so, but that would break too much code, BUT we could just add
         # backward compat get_cryst_const, which concatenates these ...
         if self.is_set_attr('cryst_const'):
-            cc = self.cryst_const.copy()
+            cc = np.array(self.cryst_const, dtype=float)
             if cc.ndim == 1:
                 cc[:3] *= self.units['length']
             elif cc.ndim == 2:
-- 
2.43.0


From 707c1ff737d5c97e8c57ae59bde54ae44f0c945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 19/96] fix: UnitsHandler: convert volume and pressure as well

Both are allowed input args of Structure and Trajectory, but were kept as they
are, such that they didn't fit to the converted cell and stress.
---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index a49b2fd..331e8f3 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2148,7 +2148,7 @@ class UnitsHandler(FlexibleGetters):
         self.units_map = \
             {'length':      ['cell', 'coords', 'abc'],
              'energy':      ['etot', 'ekin'],
-             'stress':      ['stress'],
+             'stress':      ['stress', 'pressure'],
              'forces':      ['forces'],
              'temperature': ['temperature'],
              'velocity':    ['velocity'],
@@ -2182,6 +2182,8 @@ class UnitsHandler(FlexibleGetters):
                     if self.is_set_attr(attr_name):
                         attr = getattr(self, attr_name)
                         setattr(self, attr_name,  attr * self.units[unit])
+        if self.units['length'] != 1.0 and self.is_set_attr('volume'):
+            self.volume = self.volume * self.units['length']**3.0
         self.units_applied = True
 
     def apply_units(self):
-- 
2.43.0


From 918fee3df470972e27695af4b6398622db1b94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 20/96] fix: crys.mean: set_all() of the mean of a Trajectory
 without velocity

The documented way to recalculate coords_frac raised NotImplementedError if the
Trajectory has no velocity, ekin or temperature.
---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 331e8f3..b006b6d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3151,7 +3151,10 @@ def mean(traj):
     attrs_only_traj = ['time', 'timestep', 'nstep']
     extra = list(set.difference(set(traj.attrs_only_traj),
                                 set(attrs_only_traj)))
-    struct.attr_lst += extra
+    # Only what we have: Structure has no getters for these, so set_all() would
+    # fail.
+    struct.attr_lst += [name for name in extra if getattr(traj, name)
+                        is not None]
     for attr_name in set.difference(set(traj.attrs_nstep),
                                     set(attrs_only_traj)):
         attr = getattr(traj, attr_name)
-- 
2.43.0


From 6323e4923c475fb0cf3c10a396937307083c8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 21/96] fix: signal.fft_1d_loop: handle all negative axes

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..863f55e 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis += arr.ndim
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From e75fba540182038a4cb2ee72b2e77941e0cb5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 22/96] fix: signal.mirror: mirror along the given axis

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 863f55e..0579784 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    return np.concatenate((num.slicetake(arr, np.s_[::-1], axis=axis),
+                           num.slicetake(arr, np.s_[1:], axis=axis)),
+                          axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 4ecc3774165748805e0bd9b345b4ddd793bdfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 23/96] fix: signal.find_peaks: compare the peak with ymin, not
 its left neighbor

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 0579784..16035e9 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -565,7 +565,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] >= ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From dd69e1c5009c04890bbaf8e3720afd586d92cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 24/96] fix: signal.find_peaks: peaks close to the left edge
 with given x

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 16035e9..48ae785 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -571,7 +571,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From 2ec79863f1576ee0fb631943e69f015e36bb7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 25/96] fix: signal.scale: no casting error for integer input

---
 src/pwtools/signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 48ae785..35f5117 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -874,8 +874,7 @@ def scale(x, copy=True):
     """
     xx = x.copy() if copy else x
     xx = xx - xx.min()
-    xx /= xx.max()
-    return xx
+    return xx / xx.max()
 
 
 class FIRFilter:
-- 
2.43.0


From e9470e492497143bee2e5f4c5fbab85055d0de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 26/96] fix: signal.FIRFilter: firwin has no nyq keyword
 anymore, bandstop NameError

---
 src/pwtools/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 35f5117..a0724bc 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -951,11 +951,11 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From a61828bdbc838137d3a6f1ed246a1d12d896f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 27/96] fix: crys.smooth: don't truncate smoothed integer data
 (method=1)

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b006b6d..3169b77 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3222,11 +3222,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=np.result_type(attr, 1.0))
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=np.result_type(attr, 1.0))
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From 15e92a4c10e01b0c8fef28567e805844ae44e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 28/96] fix: num.sliceput: index with a tuple instead of a list

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..91ada70 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -573,7 +573,7 @@ def sliceput(a, b, sl, axis=None):
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
-    a[tmp] = b
+    a[tuple(tmp) if isinstance(tmp, list) else tmp] = b
     return a
 
 
-- 
2.43.0


From 5b60efe0f70da5bf3ced2d1e5be49e768ecf3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 29/96] fix: num.sum: negative numbers in axis tuple and with
 keepdims

---
 src/pwtools/num.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 91ada70..de125c6 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -719,6 +719,7 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             tosum = list(axis)
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
+        tosum = [xx + arr.ndim if xx < 0 else xx for xx in tosum]
         if keepdims:
             alldims = range(arr.ndim)
             tosum = [xx for xx in alldims if xx not in tosum]
-- 
2.43.0


From d03b26505552e46fd1e42069000e1e7911a8e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 30/96] fix: num.polyfit: no nan for scale=True and constant
 values or points

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index de125c6..4ee80bc 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1364,6 +1364,9 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
         vscale = np.abs(values).max() - vmin
+        # constant data
+        pscale = np.where(pscale == 0, 1.0, pscale)
+        vscale = 1.0 if vscale == 0 else vscale
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From dee698c716226334ff9d5edac4fc83b408f65d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 31/96] fix: num.PolyFit1D: accept points of shape (npoints,1),
 as documented

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 4ee80bc..5583130 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1574,7 +1574,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 56f3f2298aa85145757f44f8d34377069d2d6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 32/96] fix: num.order_similar: honor order=0,1 beyond the
 first rows and repeat > 1

---
 src/pwtools/num.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 5583130..bb943d8 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1733,10 +1733,10 @@ def order_similar(arr, repeat=1, order=2):
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if (ii == 0 or not _o_one) and _o_zero:
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif (ii == 1 or not _o_two) and _o_one:
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
                 elif (ii >= 2) and _o_two:
@@ -1753,7 +1753,8 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(order_similar(arr, repeat=1, order=order),
+                             repeat=repeat - 1, order=order)
     return arr2
 
 
-- 
2.43.0


From 109627430dd3388aa1652a0357b1401407256a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 33/96] fix: num.polyfit: scale=True maps negative points and
 values to [0,1] as well

---
 src/pwtools/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index bb943d8..55fb2c3 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1362,8 +1362,8 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
     if scale:
         pmin = points.min(axis=0)[None, :]
         vmin = values.min()
-        pscale = np.abs(points).max(axis=0)[None, :] - pmin
-        vscale = np.abs(values).max() - vmin
+        pscale = points.max(axis=0)[None, :] - pmin
+        vscale = values.max() - vmin
         # constant data
         pscale = np.where(pscale == 0, 1.0, pscale)
         vscale = 1.0 if vscale == 0 else vscale
-- 
2.43.0


From 46ed3f021d13e4dc583347f3fd6dd7c7886be43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 34/96] fix: rbf.Rbf: no nan predictions and derivs for
 all-zero values

---
 src/pwtools/rbf/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..448c9ec 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -428,6 +428,7 @@ class Rbf:
         )
         # normalize w
         maxw = np.abs(self.w).max() * 1.0
+        maxw = np.where(maxw == 0, 1.0, maxw)
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -544,6 +545,7 @@ class Rbf:
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
         maxw = np.abs(self.w).max() * 1.0
+        maxw = np.where(maxw == 0, 1.0, maxw)
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From 911d0890ef49eeffedf692af2fd298b79387c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 35/96] fix: rbf.fit_opt: don't modify opt_kwds

---
 src/pwtools/rbf/hyperopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..78a685b 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,8 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    # don't modify the caller's dict
+    opt_kwds = copy.copy(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From 7943db6a310b0b9c76119157bc8687a90022329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 36/96] fix: rbf.fit_opt: no IndexError for method='brute',
 what='p', finish=None

---
 src/pwtools/rbf/hyperopt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 78a685b..0d2bfe8 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -240,8 +240,11 @@ def fit_opt(
             xopt = ret.x
         elif method == "brute":
             bounds = opt_kwds.pop("ranges", _bounds)
-            xopt = optimize.brute(
-                fit_err, ranges=bounds, disp=disp, **opt_kwds
+            # scalar if what="p" and finish=None
+            xopt = np.atleast_1d(
+                optimize.brute(
+                    fit_err, ranges=bounds, disp=disp, **opt_kwds
+                )
             )
     rbf_kwds_opt = copy.copy(rbf_kwds)
     for idx, symbol in enumerate(what_lst):
-- 
2.43.0


From 5b760ed269f14f46d406fdb77b131d847a9caa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 37/96] fix: HarmonicThermo: no infinite Fvib, Svib at low T or
 high frequencies

---
 src/pwtools/thermo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..180b245 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -13,6 +13,11 @@ def coth(x):
     return 1.0/np.tanh(x)
 
 
+def _log_2sinh(x):
+    """log(2*sinh(x)) w/o overflow for large `x`"""
+    return x + np.log(-np.expm1(-2.0*x))
+
+
 class HarmonicThermo:
     """Calculate vibrational internal energy (Evib [eV]), free energy (Fvib
     [eV]), entropy (Svib [R,kb]) and isochoric heat capacity (Cv [R,kb]) in the
@@ -218,7 +223,7 @@ class HarmonicThermo:
         h, f, kb, dos = self.h, self.f, self.kb, self.dos
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
-        y = dos * np.log(2.0*np.sinh(arg/2.0))
+        y = dos * _log_2sinh(arg/2.0)
         ret = self._integrate(y,f) * T
         return ret * (kb / eV)
 
@@ -228,7 +233,7 @@ class HarmonicThermo:
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
         y = dos * (0.5/T[:,None] * (h / kb) * f * coth(arg/2.0) -
-                   np.log(2.0*np.sinh(arg/2.0)))
+                   _log_2sinh(arg/2.0))
         ret = self._integrate(y,f)
         return ret
 
-- 
2.43.0


From 0d573cecbe4f22d9455d2bc56021f6f03e08282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 38/96] fix: Gibbs: default heat capacity fit doesn't fail for
 large total energies

---
 src/pwtools/thermo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 180b245..83c5d3d 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -526,7 +526,9 @@ class Gibbs:
 
     @staticmethod
     def _default_fit_C(x, y):
-        return num.Spline(x, y, k=5, s=None)
+        # y = G/kb is of order 1e4 K per eV, need relative accuracy
+        return num.Spline(x, y, k=5, s=None,
+                          eps=1e-10*max(1.0, np.abs(y).max()))
 
     def _fit_opt_store(self, ret, gg, prfx='/T/P', ghsym='G', tpidx=None):
         """For each (T,P) or (P,), fit G(ax0,...) or H(ax0,...) minimize and store
-- 
2.43.0


From b4cd0121825372ec96aa79125c43bbe09a6b66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 39/96] fix: EosFit.bulkmod: B(V) instead of B(V0) for all
 volumes

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..2f27b5a 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From 679c40550e37329436e9b95e128b321cc29b2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 40/96] fix: ElkEOSFit: call the given executable also if it is
 not on PATH

---
 src/pwtools/eos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 2f27b5a..3866df9 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -555,7 +555,10 @@ class ElkEOSFit(ExternEOS):
              len(volume),
              common.str_arr(data))
         common.file_write(self.infn, infn_txt)
-        out = common.backtick('cd %s && %s' %(self.dir, self.app_basename))
+        # app=/path/to/eos.x doesn't need to be on PATH
+        app = os.path.abspath(self.app) if os.path.dirname(self.app) \
+            else self.app
+        out = common.backtick('cd %s && %s' %(self.dir, app))
         if self.verbose:
             print(out)
             print((open(os.path.join(self.dir,'PARAM.OUT')).read()))
-- 
2.43.0


From 339c9b31945de7a5e7ce10cb3330a341e059acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 41/96] fix: SQLiteDB: get_max_rowid, fill_column,
 attach_column for empty tables

---
 src/pwtools/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..776a1e9 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -328,7 +328,9 @@ class SQLiteDB:
         ----------
         table : str, optional
         """
-        return self.get_single("select max(rowid) from %s" %self._get_table(table))
+        maxrowid = self.get_single("select max(rowid) from %s" %self._get_table(table))
+        # max() is NULL for an empty table
+        return 0 if maxrowid is None else maxrowid
 
     def fill_column(self, col, values, start=1, extend=True,
                     overwrite=False, table=None):
-- 
2.43.0


From 1d4744e286ed804baedb13cc0ddda0155d45db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 42/96] fix: SQLiteDB.get_list1d: don't split BLOB values into
 integers

---
 src/pwtools/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 776a1e9..6fb4071 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -1,6 +1,5 @@
 import sqlite3, types
 import numpy as np
-from pwtools import common
 
 import os
 
@@ -452,7 +451,9 @@ class SQLiteDB:
         column, then ``self.cur.fetchall()`` returns a list of tuples like
         ``[(1,), (2,)]`` We call ``fetchall()`` and return the flattened list.
         """
-        return common.flatten(self.execute(*args, **kwargs).fetchall())
+        # no common.flatten() since it would also flatten BLOBs (bytes)
+        return [val for row in self.execute(*args, **kwargs).fetchall()
+                for val in row]
 
     def get_single(self, *args, **kwargs):
         """Return single entry from the table."""
-- 
2.43.0


From 2718e7d4b53a4050990b10199cad54d5c6f18b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 43/96] fix: common: toslice, tobool, ffloat accept strings
 (Python 3)

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..e33cdae 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 91761d2296e678586b023e50edf191e69fa0dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 44/96] fix: FileTemplate: no TypeError for keys=[]

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..0813308 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From fe98b860c9b24673c742cb2ac2e61ec864afe976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 45/96] fix: ParameterStudy: excl_push for db_table other than
 'calc'

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 0813308..f163b75 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From 3e1181d9c9db3f47f2a1267b0001923bf1f296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 46/96] fix: Calculation: don't append to the caller's (or
 default) template list

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f163b75..1ad2628 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,8 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        # copy, machine.template is appended below
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 577c98332de3352aee22a5ca80f44529f0997ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 47/96] fix: ParameterStudy: quote the calc dir to be removed
 in mode='w'

---
 src/pwtools/batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 1ad2628..b6c1f8e 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -2,6 +2,7 @@
 
 import os
 import copy
+import shlex
 import shutil
 from collections.abc import Callable
 
@@ -559,7 +560,8 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    common.system("rm -r %s" %shlex.quote(calc_dir),
+                                  wait=True)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From 938024f96b74e634cb0e116947c6220ad5028a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 48/96] fix: ParameterStudy: no duplicate column error for None
 or mixed type values

---
 src/pwtools/batch.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index b6c1f8e..6fee2d6 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -592,17 +592,20 @@ class ParameterStudy:
         for record in sql_records:
             record['hostname'] = SQLEntry(sqlval=','.join(hostnames))
         # for incomplete parameters: collect header parts from all records and
-        # make a set = unique entries
-        raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
-            for key, entry in record.items()]
-        header = list(set(raw_header))
+        # make unique entries, keep the order; the type is that of the first
+        # value which is not None
+        header_dct = {}
+        for record in sql_records:
+            for key, entry in record.items():
+                if header_dct.get(key, 'NULL') == 'NULL':
+                    header_dct[key] = entry.sqltype.upper()
+        header = list(header_dct.items())
         if have_new_db:
             sqldb.create_table(header)
         else:
-            for record in sql_records:
-                for key, entry in record.items():
-                    if not sqldb.has_column(key):
-                        sqldb.add_column(key, entry.sqltype.upper())
+            for key, sqltype in header:
+                if not sqldb.has_column(key):
+                    sqldb.add_column(key, sqltype)
         for record in sql_records:
             cmd = "insert into %s (%s) values (%s)"\
                 %(self.db_table,
-- 
2.43.0


From 7355c988ff1186f423bbd4cf1e723a27c61bab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 49/96] fix: template_replace: don't replace placeholders in
 inserted values or parts of longer placeholders

---
 src/pwtools/common.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index e33cdae..7fcdc41 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -444,10 +444,9 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
     else:
         raise Exception("mode must be 'txt' or 'dct'")
 
-    # This is a copy. Each txt.replace() returns an additional copy. We need
-    # that if we loop over dct.iteritems() and sucessively replace averything.
-    if is_txt_mode:
-        new_txt = txt
+    # txt mode: placeholder -> value, replaced in one pass below such that
+    # inserted values are not searched for placeholders
+    rules = {}
     for key, val in dct.items():
         if is_dct_mode:
             # The key is '%(foo)s', but searching for '%(foo)' must suffice,
@@ -470,7 +469,7 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
                     print("template_replace: warning: key '%s' found %i times"
                     %(tst_key, cnt))
             if is_txt_mode:
-                new_txt = new_txt.replace(key, val)
+                rules[key] = val
             if disp:
                 print("template_replace: %s -> %s" %(key, val))
         else:
@@ -478,6 +477,13 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
                 print("template_replace: key not found: %s" %tst_key)
     if is_dct_mode:
         new_txt = txt % dct
+    elif len(rules) > 0:
+        # longest first since one placeholder can be the start of another
+        rex = '|'.join(re.escape(key) for key in sorted(rules, key=len,
+                                                        reverse=True))
+        new_txt = re.sub(rex, lambda m: rules[m.group(0)], txt)
+    else:
+        new_txt = txt
     return new_txt
 
 
-- 
2.43.0


From 3f51016013f9033bbc05655813c9284357fac794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 50/96] fix: ParameterStudy: run.sh works in a dir with spaces

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 6fee2d6..6b4dd39 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -584,7 +584,7 @@ class ParameterStudy:
                 if mode == 'w' and os.path.exists(calc_subdir):
                     shutil.rmtree(calc_subdir)
                 calc.write_input()
-                run_txt += "cd %i && %s %s && cd $here && sleep %i\n" %(idx,\
+                run_txt += "cd %i && %s %s && cd \"$here\" && sleep %i\n" %(idx,\
                             machine.subcmd, machine.get_jobfile_basename(), sleep)
                 if imach == 0:
                     sql_records.append(calc.get_sql_record())
-- 
2.43.0


From 186be622d5552151b4f9dba63d25c1156f2eff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 51/96] fix: arrayio.readtxt: use header_maxlines and
 header_comment to read the header

---
 src/pwtools/arrayio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..b5c47ef 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -166,7 +166,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     verbose("[readtxt]    axis: %s" %str(axis))
     verbose("[readtxt]    shape: %s" %str(shape))
     if shape is None or axis is None:
-        c = _read_header_config(fh)
+        c = _read_header_config(fh, header_maxlines=header_maxlines,
+                                header_comment=header_comment)
         sec = 'array'
         if shape is None:
             shape = common.str2tup(c.get(sec, 'shape'))
-- 
2.43.0


From 4a89f7ad441746f06d6ea4f974ebb1e5d7f1ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 52/96] fix: arrayio.readtxt: no empty array for data after
 many comment lines

---
 src/pwtools/arrayio.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index b5c47ef..059a2c3 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -180,16 +180,14 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         axis = ndim - 1
 
     # handle empty files (no data, only special header or nothing at all)
-    header_lines = []
-    for i in range(header_maxlines):
-        try:
-            line = next(fh).strip()
-            if not line.startswith(header_comment) and line != '':
-                header_lines.append(line)
-        except StopIteration:
+    have_data = False
+    for line in fh:
+        line = line.strip()
+        if not line.startswith(header_comment) and line != '':
+            have_data = True
             break
     fh.seek(0)
-    if header_lines == []:
+    if not have_data:
         verbose("[readtxt] WARNING: empty file: %s" %fn)
         return np.array([])
     else:
-- 
2.43.0


From c6b1cae37354864bf5497d439957972ef0d84c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 53/96] fix: arrayio.readtxt: keep axes of length one

---
 src/pwtools/arrayio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index 059a2c3..3b7a17b 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -192,6 +192,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # keep axes of length one
+        kwargs.setdefault('ndmin', min(ndim, 2))
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
-- 
2.43.0


From 9b6efb3fd3fd3982c28db9ce7874169dfdaade75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 54/96] fix: open_and_close: open gzip files in text mode
 (Python 3)

---
 src/pwtools/decorators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..17b5b3b 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -44,10 +44,9 @@ def open_and_close(func):
             # Filename case.
             fn = largs[0]
             if fn.endswith('.gz'):
-                _open = gzip.open
+                fd = gzip.open(fn, 'rt')
             else:
-                _open = open
-            fd = _open(fn, 'r')
+                fd = open(fn, 'r')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From bd5c79b3e9abc9e200ab1135053896e081f9a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 55/96] fix: CifFile: block=... raised a KeyError for all block
 names

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..b1c8e3a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -385,7 +385,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From c31a8391e1bf371b0dd816e333424ccd8e9c38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 56/96] fix: PDBFile: cryst_const is None without CRYST1
 record, as documented

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b1c8e3a..78e535d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -532,6 +532,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From d0bb5d0e1b14d1f7a0a31dde4eeb50b79d41406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 57/96] fix: write_h5: close the file if writing fails (e.g.
 existing key)

---
 src/pwtools/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index 5f2a0cb..e651b7a 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -277,10 +277,9 @@ def write_h5(fn, dct, **kwds):
     >>> write_h5('file.h5', old, mode='w')
     """
     mode = kwds.pop('mode') if 'mode' in kwds else 'a'
-    fh = h5py.File(fn, mode=mode, **kwds)
-    for key,val in dct.items():
-        fh[key] = val
-    fh.close()
+    with h5py.File(fn, mode=mode, **kwds) as fh:
+        for key,val in dct.items():
+            fh[key] = val
 
 
 def read_h5(fn):
-- 
2.43.0


From 5cd3d5d0ec71b1961c1df765df54a20b9a421863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 58/96] fix: PWscf parsers return None for missing forces,
 atoms and vc-md data instead of failing

---
 src/pwtools/parse.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 78e535d..764f5eb 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -730,7 +730,8 @@ class PwSCFOutputFile(StructureFileParser):
         precision.
         """
         verbose("getting start coords")
-        self.try_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         natoms = self.natoms
         # coords
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
@@ -1126,7 +1127,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
@@ -1155,18 +1156,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
-- 
2.43.0


From 9a244e9eca50b25b591448965d6612182e5b2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 59/96] fix: MD parsers no longer change default_units of the
 SCF parser classes

---
 src/pwtools/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 764f5eb..965f501 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -879,7 +879,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
         # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
@@ -1476,10 +1477,10 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
-        self.default_units.update(\
-            {'time': constants.thart / constants.fs, # thart -> fs
-             'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
-            })
+        self.default_units = dict(self.default_units,
+            time=constants.thart / constants.fs, # thart -> fs
+            velocity=Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
+            )
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
             'cell',
@@ -1831,6 +1832,7 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        self.default_units = self.default_units.copy()
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2219,6 +2221,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        self.default_units = self.default_units.copy()
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From 6c438541624d7bedad8b5246c3830721cbac2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 60/96] fix: Cp2kSCFOutputFile.get_stress() returns None if
 there is no stress tensor

---
 src/pwtools/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 965f501..5334dfd 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1823,8 +1823,11 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
-        arr = np.array([x.split() for x in ret.splitlines()])
-        return arr[:,1:].astype(float)
+        if ret != '':
+            arr = np.array([x.split() for x in ret.splitlines()])
+            return arr[:,1:].astype(float)
+        else:
+            return None
 
 
 class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
-- 
2.43.0


From 0fa128d900e2818a598e9e7497a261100dadbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 61/96] fix: CP2K and CPMD parsers handle runs with a single
 time step

---
 src/pwtools/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 5334dfd..9489a4f 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1534,7 +1534,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = np.loadtxt(fn, ndmin=2)
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1888,19 +1888,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.loadtxt(self._cell_file, ndmin=2)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.loadtxt(self._ener_file, ndmin=2)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.loadtxt(self._stress_file, ndmin=2)
         else:
             return None
 
-- 
2.43.0


From db90cccff72df2966404471bd8bd85794093a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 62/96] fix: PwMDOutputFile.temperature has one entry per MD
 step, without the starting temperature

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 9489a4f..8a050f5 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1105,7 +1105,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_temperature(self):
         """Temperature [K]"""
         verbose("getting temperature")
-        cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
+        # skip "Starting temperature = ...", which is no MD step
+        cmd = r"egrep '^[ ]*temperature[ ]*=' %s " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
         return arr1d_from_txt(com.backtick(cmd))
-- 
2.43.0


From 19fb0a818cf858ae64617d62471f9199f622d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 63/96] fix: LAMMPS dump files with orthogonal boxes (no tilt
 factors) can be parsed

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 8a050f5..f9760f0 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2452,7 +2452,10 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             nstep = nstep_from_txt(com.backtick(cmd))
             cmd = r"grep -A3 'ITEM: BOX BOUNDS' %s | \
                     egrep -ve '--|ITEM'" %self.dumpfilename
-            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,3))
+            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,-1))
+            # orthogonal boxes: only lo,hi are printed, no tilt factors
+            if arr.shape[2] == 2:
+                arr = np.concatenate((arr, np.zeros((nstep,3,1))), axis=2)
             cell = np.zeros_like(arr)
             for ii in range(nstep):
                 xlo_bound = arr[ii,0,0]
-- 
2.43.0


From e833b587aa7646be26bf30e9e0b9c4208e478e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 64/96] fix: get_struct()/get_traj() of a parser called a
 second time returned data without units applied

---
 src/pwtools/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index f9760f0..3d9d039 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -292,6 +292,10 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # always start from a fresh container: units must be applied to the
+        # parsed data each time we are called, and containers returned earlier
+        # must not change
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
             setattr(self.cont, attr_name, getattr(self, attr_name))
         if auto_calc:
-- 
2.43.0


From 4bfabed9662a3faae5e4a433423b6c33f04134d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 65/96] fix: kpoints_str_pwin() works for any sequence (arrays
 were added up, tuples failed)

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 335ec5f89b1ee130f4a7329c425fd6f59f8a6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 66/96] fix: SpecialPointsPath can be used without the optional
 ks_frac

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..e98fb98 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, ("ks is None")
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From a812e891b1141cb1162162aa85108b99fe11780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 67/96] fix: plot_dis() works without special_points_path (and
 plots the DOS then)

---
 src/pwtools/kpath.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index e98fb98..eed0f05 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -177,15 +177,15 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         ax.set_xticklabels(labels)
         ax.set_xlim(path_norm[0], path_norm[-1])
         ax.set_ylabel("frequency (cm$^{-1}$)")
-        if dos is not None:
-            # http://matplotlib.org/examples/axes_grid/scatter_hist.html
-            from mpl_toolkits.axes_grid1 import make_axes_locatable
-            divider = make_axes_locatable(ax)
-            axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
-            axdos.plot(dos[:,1], dos[:,0], 'b')
-            mpl.plt.setp(axdos.get_yticklabels(), visible=False)
-            mpl.plt.setp(axdos.get_xticklabels(), visible=False)
-            axdos.xaxis.set_tick_params(size=0)
-        else:
-            axdos = None
+    if dos is not None:
+        # http://matplotlib.org/examples/axes_grid/scatter_hist.html
+        from mpl_toolkits.axes_grid1 import make_axes_locatable
+        divider = make_axes_locatable(ax)
+        axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
+        axdos.plot(dos[:,1], dos[:,0], 'b')
+        mpl.plt.setp(axdos.get_yticklabels(), visible=False)
+        mpl.plt.setp(axdos.get_xticklabels(), visible=False)
+        axdos.xaxis.set_tick_params(size=0)
+    else:
+        axdos = None
     return fig, ax, axdos
-- 
2.43.0


From 5aff8f7c1657894c9af59c96a1d2fdab804300e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 68/96] fix: plot_dis() accepts a SpecialPointsPath without
 symbols

---
 src/pwtools/kpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index eed0f05..4d9af3d 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -160,6 +160,8 @@ def plot_dis(path_norm, freqs, special_points_path=None,
             special_points_path.path_norm, \
             special_points_path.symbols
         ax.vlines(nrm, ylim[0], ylim[1])
+        if symbols is None:
+            symbols = ['']*len(nrm)
         fmtfunc = lambda x: "%.2g" %x
         if show_coords is None:
             labels = symbols
-- 
2.43.0


From d5cc61ce924428a6db69cb89718a0071796ee92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 69/96] fix: plot_dis() sets the frequency axis limits given by
 ylim

---
 src/pwtools/kpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4d9af3d..ce95d6f 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -152,6 +152,8 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         fig = ax.get_figure()
     # Plot columns of `freq` against q points (path_norm)
     ax.plot(path_norm, freqs, **kwargs)
+    if ylim is not None:
+        ax.set_ylim(ylim)
     if special_points_path is not None:
         ylim = ax.get_ylim() if ylim is None else ylim
         ks, ks_frac, nrm, symbols = \
-- 
2.43.0


From 357df9f5a0e1aee39f173c85020e0e5b4790d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 70/96] fix: RandomStructure with wide angle_range tries again
 if the angles don't form a cell

---
 src/pwtools/random.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..82f0b27 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -113,7 +113,11 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # these three angles don't form a cell, next try
+                vol = float('nan')
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From 19910840ecb26ae0b27bac3ffc74f08538ace66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 71/96] fix: RandomStructure checks all periodic images, atoms
 could be too close in small or skewed cells

---
 src/pwtools/random.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 82f0b27..ed22660 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -138,9 +138,10 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
+        # dist: min image dist correct only up to rmax_smith(). It may be too
+        #   big beyond that (small or skewed cells), therefore check all
+        #   periodic images of the last atom below; choose only upper triangle
+        #   from array `dist`
         natoms_filled = iatom + 1
         coords_frac = self.coords_frac[:natoms_filled,:]
         # This part is 10x slower than the fortran version  --------
@@ -168,7 +169,25 @@ class RandomStructure:
         dist = np.sqrt(distsq)
         # This part is fast
         dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        if np.triu(dist < dij_min_filled, k=1).any():
+            return True
+        # The atoms before `iatom` are already in place. An image shifted by
+        # `n` cells along one axis can be closer than `dmax` only if
+        # n < dmax / (distance between cell faces) + 0.5 for
+        # coords_frac differences in [-0.5, 0.5].
+        dij_min_last = dij_min_filled[iatom,:iatom]
+        if iatom == 0:
+            return False
+        face_dist = 1.0 / np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        nmax = np.floor(dij_min_last.max() / face_dist + 0.5).astype(int)
+        shifts = np.array([[ii,jj,kk] for ii in range(-nmax[0], nmax[0]+1) \
+                                      for jj in range(-nmax[1], nmax[1]+1) \
+                                      for kk in range(-nmax[2], nmax[2]+1)])
+        diff = coords_frac[:iatom,:] - coords_frac[iatom,:]
+        diff -= np.rint(diff)
+        vecs = np.dot(diff[:,None,:] + shifts[None,...], self.cell)
+        dist_last = np.sqrt((vecs**2.0).sum(axis=-1)).min(axis=1)
+        return (dist_last < dij_min_last).any()
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From 41d719af9339b9a22d92f7da3208dc6de5114fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 72/96] fix: plotlines3d() works with 1d z

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..58b5f94 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -65,7 +65,7 @@ def plotlines3d(ax3d, x,y,z, *args, **kwargs):
     assert xx.shape == zz.shape
     assert len(y) == xx.shape[1] == zz.shape[1]
     for j in range(xx.shape[1]):
-        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], z[:,j], *args, **kwargs)
+        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], zz[:,j], *args, **kwargs)
     return ax3d
 
 
-- 
2.43.0


From a199a01581ef37d4a96db52b0d83dfc9dde56a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 73/96] fix: clean_ax3d() and fig_ax3d(clean=True) work with
 current matplotlib

---
 src/pwtools/mpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 58b5f94..71bb1b0 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -96,9 +96,9 @@ def fig_ax3d(clean=False, **kwds):
 def clean_ax3d(ax):
     """On ``Axes3DSubplot`` `ax`, set x,y,z pane color to white and remove
     grid."""
-    ax.w_xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
     ax.grid(False)
 
 
-- 
2.43.0


From 12bec21f80fac6bfae856141e0a06eb03d0ec8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 74/96] fix: color_ax() accepts the documented axis="both"

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 71bb1b0..15d3df5 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -140,8 +140,8 @@ def color_ax(ax, color, axis="y", spine_loc="left", spine_invisible=None):
     """
     # ax.xaxis
     # ax.yaxis
-    _axis = getattr(ax, f"{axis}axis")
-    _axis.label.set_color(color)
+    for name in (["x", "y"] if axis == "both" else [axis]):
+        getattr(ax, f"{name}axis").label.set_color(color)
     # both: major and minor ticks
     ax.tick_params(axis=axis, colors=color, which="both")
     if spine_loc is not None:
-- 
2.43.0


From 986adf19897733479e672a4faee230d5db54968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 75/96] fix: collect_legends() returns lists as documented, the
 iterators were exhausted after one use

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 15d3df5..8b0c940 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -280,7 +280,7 @@ def collect_legends(*axs):
     """
     axhls = tuple(ax.get_legend_handles_labels() for ax in
                   axs)
-    ret = [itertools.chain(*x) for x in zip(*axhls)]
+    ret = [list(itertools.chain(*x)) for x in zip(*axhls)]
     return ret[0], ret[1]
 
 
-- 
2.43.0


From 38dd10fc92281ca17e8e121f240bef2f030602c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 76/96] fix: Data2D.update() ignored new zz, X/Y, xx/yy or XY
 data

---
 src/pwtools/mpl.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 8b0c940..6c57531 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -488,8 +488,19 @@ class Data2D:
     def update(self, **kwds):
         """Update object with new or more input data. Input args are the same
         as in the constructor, i.e. `x`, `y`, `xx`, ..."""
-        for key,val in kwds.items():
+        for key in kwds:
             assert key in self.attr_lst, ("'%s' not allowed" %key)
+        # forget the other forms of the data which is replaced, else they would
+        # overwrite the new input
+        if {'X', 'Y'} <= set(kwds):
+            self.x = self.y = None
+        elif {'xx', 'yy'} <= set(kwds) or 'XY' in kwds:
+            self.x = self.y = self.X = self.Y = None
+            if 'XY' in kwds:
+                self.xx = self.yy = None
+        if 'zz' in kwds:
+            self.Z = None
+        for key,val in kwds.items():
             setattr(self, key, val)
         self._update()
 
-- 
2.43.0


From e5c47ea803b23df4d47021ea51dcc999995a2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 77/96] fix: new_axis() works with current matplotlib,
 axes_grid is now axisartist

---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 6c57531..318939d 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -9,7 +9,7 @@ import numpy as np
 from pwtools import common, num
 
 try:
-    from mpl_toolkits.axes_grid1.parasite_axes import SubplotHost, \
+    from mpl_toolkits.axisartist.parasite_axes import SubplotHost, \
         ParasiteAxes
 except ImportError:
     warnings.warn("cannot import from mpl_toolkits.axes_grid")
-- 
2.43.0


From c07f959a2a697ce205f28650a69c02fad9509744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 78/96] fix: smooth_color() and smooth_color_func() work with
 one iteration

---
 src/pwtools/mpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 318939d..bc5cddf 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -599,7 +599,7 @@ def smooth_color(idx, niter):
     ...     z = mpl.smooth_color(ii,N)
     ...     plot(rand(20)+ii, color=(z,0,1-z))
     """
-    return float(idx) / float(niter - 1)
+    return float(idx) / max(niter - 1, 1)
 
 
 def smooth_color_func(niter, func):
@@ -623,7 +623,7 @@ def smooth_color_func(niter, func):
     ...     plot(rand(20)+ii, color=color)
     """
     col = []
-    fniter = float(niter) - 1
+    fniter = max(float(niter) - 1, 1.0)
     for ii in range(niter):
         z = float(ii) / fniter
         col.append(func(z))
-- 
2.43.0


From dce9188d1cd561b365f0b286fc0f43409c510075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 79/96] fix: calculator keywords don't change the class
 defaults, which other calculators use

---
 src/pwtools/calculators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..dcec48c 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -103,6 +103,9 @@ class CalculatorBase:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
+        # Work with a copy, else we change the defaults of the class and thus of
+        # all other calculators.
+        self.default_parameters = self.default_parameters.copy()
         self.parameters = self.default_parameters
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
-- 
2.43.0


From b62146cfe56f1c18de32f45bab1218ceffe12431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 80/96] fix: default label, command and directory of the
 calculators are used

---
 src/pwtools/calculators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index dcec48c..a206e5b 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -110,6 +110,14 @@ class CalculatorBase:
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
+    def get_ase_kwds(self, kwds):
+        """`kwds` plus our defaults for the keywords which ASE doesn't take from
+        ``self.default_parameters``."""
+        ase_kwds = dict((key, self.default_parameters[key]) for key in
+                        ['label', 'command', 'directory'])
+        ase_kwds.update(kwds)
+        return ase_kwds
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -262,7 +270,7 @@ K_POINTS automatic
             :func:`~pwtools.common.backup`
         """
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **self.get_ase_kwds(kwds))
 
         # ASE keywords
         if self.smearing is not None:
@@ -389,7 +397,7 @@ run 0
         """
 
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        FileIOCalculator.__init__(self, **self.get_ase_kwds(kwds))
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix', 'dumpfile', 'structfile']
-- 
2.43.0


From 3aecde3251f4e97fb8414f61d51736a98aad1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 81/96] fix: Pwscf calculator wrote smearing settings outside
 of the system namelist

---
 src/pwtools/calculators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index a206e5b..d0857db 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -211,11 +211,10 @@ class Pwscf(FileIOCalculator, CalculatorBase):
     ecutwfc = {ecutwfc},
     ecutrho = {ecutrho},
     nosym = .false.
-/
     occupations = 'smearing'
     smearing = 'mv',
     degauss = 0.005
-
+/
 &electrons
     electron_maxstep = {electron_maxstep}
     diagonalization = '{diagonalization}'
-- 
2.43.0


From f06f01d6eccb9cbb57ebb913da17ed0cde16050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 82/96] fix: Pwscf calculator could assign the pseudopotential
 of Cl to C (and the like)

---
 src/pwtools/calculators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index d0857db..fe755a3 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -304,7 +304,10 @@ K_POINTS automatic
             pseudos = []
             for sym in struct.symbols_unique:
                 for ppi in self.pp:
-                    if ppi.startswith(sym):
+                    # 'Cl.pbe.UPF' belongs to Cl, not to C
+                    match = [s for s in struct.symbols_unique if
+                             ppi.startswith(s)]
+                    if match and max(match, key=len) == sym:
                         pseudos.append(ppi)
                         break
         assert len(pseudos) == struct.ntypat
-- 
2.43.0


From a6ea4edc9deaeca54cbf1204e59e65e9494e9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 83/96] fix: Lammps calculator works with a relative directory

---
 src/pwtools/calculators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index fe755a3..eebde52 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -376,14 +376,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
-- 
2.43.0


From d666f82e1be908895a2c1c8ba08ee228747d3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 84/96] fix: Lammps calculator reads the files it wrote for any
 label, not only 'lmp'

---
 src/pwtools/calculators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index eebde52..81b51ca 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -38,7 +38,7 @@ dropped.
 import os
 import shutil
 
-from pwtools import common, pwscf, crys, io, constants
+from pwtools import common, pwscf, crys, io, constants, parse
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -427,7 +427,10 @@ run 0
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
+        pp = parse.LammpsTextMDOutputFile(self.outfile)
+        pp.dumpfilename = self.dumpfile
+        pp.symbolsfilename = self.structfile + '.symbols'
+        st = pp.get_traj()[0]
         self.results['energy'] = st.etot
         self.results['forces'] = st.forces
         self.results['stress'] = stress_pwtools2ase(st.stress)
-- 
2.43.0


From a30099c2c849a7117205c5fc3868dd7033f5d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 85/96] fix: Lammps calculator returned forces and stress in
 the rotated frame used by lammps

---
 src/pwtools/calculators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 81b51ca..0ef5f8c 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -38,6 +38,8 @@ dropped.
 import os
 import shutil
 
+import numpy as np
+
 from pwtools import common, pwscf, crys, io, constants, parse
 
 
@@ -431,6 +433,11 @@ run 0
         pp.dumpfilename = self.dumpfile
         pp.symbolsfilename = self.structfile + '.symbols'
         st = pp.get_traj()[0]
+        # lammps works with a rotated cell (x along the first cell vector, see
+        # io.write_lammps()), rotate vectors back: cell = cell_lmp . rot
+        cell = np.array(self.atoms.get_cell())
+        rot = np.linalg.solve(crys.cc2cell(crys.cell2cc(cell)), cell)
         self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results['forces'] = np.dot(st.forces, rot)
+        self.results['stress'] = stress_pwtools2ase(
+            np.dot(rot.T, np.dot(st.stress, rot)))
-- 
2.43.0


From 3e77154900209a17c01d2d2b76afb4be2240c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 86/96] fix: element 117 was missing, Uuo had number 117
 instead of 118

---
 src/pwtools/atomic_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/atomic_data.py b/src/pwtools/atomic_data.py
index 57c5419..2e5c70d 100644
--- a/src/pwtools/atomic_data.py
+++ b/src/pwtools/atomic_data.py
@@ -155,6 +155,7 @@ symbols = [
     "Uuq",
     "Uup",
     "Uuh",
+    "Uus",
     "Uuo",
 ]
 
@@ -278,6 +279,7 @@ masses = np.array(
         288,
         293,
         294,
+        294,
     ]
 )
 
@@ -401,7 +403,8 @@ covalent_radii = np.array(
         missing,  # Uuq
         missing,  # Uup
         missing,  # Uuh
-        missing,  # Uuh
+        missing,  # Uus
+        missing,  # Uuo
     ]
 )
 
-- 
2.43.0


From 5d613098fee074867f5137ea9198feb0b5cc582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 87/96] fix: TagTimer.pt() raises the intended error for tags
 which are tuples

---
 src/pwtools/timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/timer.py b/src/pwtools/timer.py
index 5f01be7..f72bd9c 100644
--- a/src/pwtools/timer.py
+++ b/src/pwtools/timer.py
@@ -103,7 +103,7 @@ class TagTimer:
             Extra string to be printed along with the time difference.
         """
         if tag not in self.time_ar_dict:
-            raise ValueError("array for tag '%s' not jet initialized; " %tag\
+            raise ValueError("array for tag '%s' not jet initialized; " %(tag,)\
                 + "you have to call t() first.")
         # hmm ... array is [None, None] .. shouldn't be
         # list test: [a, a] == [a, a] -> True
@@ -120,7 +120,7 @@ class TagTimer:
             self.p("%s: %s time: %s" %(tag, msg,\
                 self.time_ar_dict[tag][1] - self.time_ar_dict[tag][0]))
         else:
-            raise ValueError("illegal array content for tag '%s' " %tag)
+            raise ValueError("illegal array content for tag '%s' " %(tag,))
 
     def p(self, msg):
         """ Simply print `msg`. """
-- 
2.43.0


From ce9bf1de0019fa3a47a5fca4fdad5cba6f1ece0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 88/96] fix: cif2any.py printed znucl per atom, not per type as
 typat and the pseudopotential order need

---
 bin/cif2any.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cif2any.py b/bin/cif2any.py
index a5001ad..756cf9e 100755
--- a/bin/cif2any.py
+++ b/bin/cif2any.py
@@ -133,13 +133,13 @@ print(bar)
 print("natom %i" %struct.natoms)
 print("ntypat %i" %struct.ntypat)
 print("typat %s" %seq2str(struct.typat))
-print("znucl %s" %seq2str(struct.znucl))
+print("znucl %s" %seq2str(struct.znucl_unique))
 print("acell %s" %str_arr(struct.cryst_const[:3]))
 print("angdeg %s" %str_arr(struct.cryst_const[3:]))
 print("xred\n%s" %str_arr(struct.coords_frac))
 print("pseudopotential order:\n%s" %"\n".join(["%s %i" %(sym, zz) for sym,zz in
                                                zip(struct.symbols_unique,
-                                                   struct.znucl)]))
+                                                   struct.znucl_unique)]))
 
 #-------------------------------------------------------------------------------
 # CPMD
-- 
2.43.0


From 9a8eadf506c7a3ce5d0a2f3a0de0ca05cd6a28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 89/96] fix: cut-cp2k.sh left the natoms line of the cut step
 in frc and vel files without a pos file

---
 bin/cut-cp2k.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/cut-cp2k.sh b/bin/cut-cp2k.sh
index bd0f768..daee7cc 100755
--- a/bin/cut-cp2k.sh
+++ b/bin/cut-cp2k.sh
@@ -117,9 +117,9 @@ for fn in $file_cell $file_ener $file_stress; do
     fi
 done
 
-natoms=$(head -n1 $file_pos | tr -d ' ')
 for fn in $file_frc $file_pos $file_vel; do
     if [ -f $fn ]; then
+        natoms=$(head -n1 $fn | tr -d ' ')
         # Cut file, then delete last line, but only if it really contains only
         # one integer = $natoms.
         cmd="sed -i.$bakname -re '/i =\s+$step_to_cut,\s+/,\$d' $fn; \
-- 
2.43.0


From 8a90e370942ffff4d430bd388f5dd8ba6684497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 90/96] fix: cut-cpmd.sh deleted the last line of TRAJEC.xyz if
 the step isn't in the file

---
 bin/cut-cpmd.sh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index c3ac7ac..2beb996 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -106,6 +106,5 @@ $dr/ENERGIES@@/^\\\s+$step\\\s.*/,$ d
 $dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
 $dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
 $dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/TRAJEC.xyz@@/^\\\s+STEP:\\\s+$step.*/,$ d
-$dr/TRAJEC.xyz@@$,$ d@@bak2
+$dr/TRAJEC.xyz@@\$!N; /\\\n\\\s+STEP:\\\s+$step\\\b/Q; P; D
 EOF
-- 
2.43.0


From a0f15fc135753ecd1312f69e7919d8eddcd8e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 91/96] fix: cut-cpmd.sh took step 110 in CELL and STRESS for
 step 11

---
 bin/cut-cpmd.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index 2beb996..c35d83e 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -101,9 +101,9 @@ while read conf; do
         msg "not found: $fn"
     fi
 done << EOF
-$dr/CELL@@/.*CELL PARAMETERS.*Step.*$step.*/,$ d
+$dr/CELL@@/.*CELL PARAMETERS.*Step.*\\\b$step\\\b.*/,$ d
 $dr/ENERGIES@@/^\\\s+$step\\\s.*/,$ d
-$dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
+$dr/STRESS@@/.*TOTAL STRESS.*Step.*\\\b$step\\\b.*/,$ d
 $dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
 $dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
 $dr/TRAJEC.xyz@@\$!N; /\\\n\\\s+STEP:\\\s+$step\\\b/Q; P; D
-- 
2.43.0


From aede538be430e5478d45c6c1c55e5a2aaa12a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 92/96] fix: ViewFactory never closed the descriptors of its
 temp files

---
 src/pwtools/visualize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..f85aa90 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -114,10 +114,12 @@ class ViewFactory:
             fd1,structfile = mkstemp(dir=tmpdir,
                                      prefix='pwtools_view_struct_',
                                      suffix=self.suffix)
+            os.close(fd1)
 
         if logfile is None:
             fd2,logfile = mkstemp(dir=tmpdir,
                                   prefix='pwtools_view_log_')
+            os.close(fd2)
         self.writer(structfile, obj)
         if disp:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
-- 
2.43.0


From 2b3a67461429596470d270d71ddddbb2b7bb860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 93/96] fix: ViewFactory wait=False and bg=True always raised
 NotImplementedError; temp files stayed if the viewer failed

---
 src/pwtools/visualize.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index f85aa90..482fe3b 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -97,7 +97,7 @@ class ViewFactory:
         tmpdir : str, optional
             Directory where temp files are written to.
         wait : bool, optional
-            `wait` passed to common.system(), wait (or not) for command to exit
+            wait (or not) for command to exit
         bg : bool
             Background mode. If True then this is an alias for `wait=False` +
             `keepfiles=True`. The latter is needed b/c with just `wait=False`,
@@ -125,10 +125,14 @@ class ViewFactory:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
         else:
             cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
-        common.system(cmd_str, wait=wait)
-        if not keepfiles:
-            os.unlink(structfile)
-            os.unlink(logfile)
+        if not wait:
+            cmd_str += " &"
+        try:
+            common.system(cmd_str)
+        finally:
+            if not keepfiles:
+                os.unlink(structfile)
+                os.unlink(logfile)
 
     def _set_dummy_symbols(self, obj):
         if obj.symbols is None:
-- 
2.43.0


From 641a27eae70068a5a4a6ddd1292a324626decf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 94/96] fix: EosFit.spl and ExternEOS.fit failed for large
 energies or B: spline accuracy threshold is absolute

---
 src/pwtools/eos.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 3866df9..def7102 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -164,7 +164,10 @@ class EosFit(Fit1D):
         analytic derivative. Fallback."""
         # use many points for accurate deriv
         vv = np.linspace(self.volume.min(), self.volume.max(), self.splpoints)
-        return num.Spline(vv, self(vv, der=0), k=5, s=None)
+        ee = self(vv, der=0)
+        # eps is absolute, but all-electron total energies may be < -1e5 eV
+        return num.Spline(vv, ee, k=5, s=None,
+                          eps=1e-10*max(1.0, np.abs(ee).max()))
 
     def fit(self):
         """Fit E(V) model, fill ``self.params``."""
@@ -360,7 +363,9 @@ class ExternEOS(FlexibleGetters):
              return getattr(self, spl_attr_name)
         else:
             arr = getattr(self, attr_name)
-            return num.Spline(arr[:,0], arr[:,1])
+            # eps is absolute, P(V) and B(V) may be >> 1 GPa
+            return num.Spline(arr[:,0], arr[:,1],
+                              eps=1e-10*max(1.0, np.abs(arr[:,1]).max()))
 
     def get_spl_ev(self):
         return self._get_spl('ev')
-- 
2.43.0


From 28eba66db2636b65a4c5d9c173ba210b33965cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 95/96] fix: find_peaks failed for data with large values:
 spline accuracy threshold is absolute

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index a0724bc..a603f0a 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -574,7 +574,9 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
             sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
-            spl = num.Spline(xx,-yy,k=k,s=None)
+            # eps is absolute, y can be of any scale
+            spl = num.Spline(xx,-yy,k=k,s=None,
+                             eps=1e-10*max(1.0, np.abs(yy).max()))
             try:
                 root = spl.get_min()
                 pos0.append(root)
-- 
2.43.0


From 19bd8a59aa6e629457ce6eac4fda9970975122ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 96/96] fix: Fit1D root search: absolute tolerances gave wrong
 extrema and roots for small x scales, no convergence for large ones

---
 src/pwtools/num.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 55fb2c3..498cc6a 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -236,11 +236,20 @@ class Fit1D:
         xx : scalar
             the root of func(x)
         """
+        # The default tolerances (and first step) of the root finders are
+        # absolute, scale them down if the x values cover a small range (e.g.
+        # times in s). Newton needs a relative one for large x (e.g. Hz).
+        scale = min(1.0, np.ptp(self.x)) or 1.0
         if x0 is not None:
+            kwds.setdefault('rtol', 1e-14)
+            if scale < 1.0:
+                kwds.setdefault('tol', 1.48e-8*scale)
+                kwds.setdefault('x1', x0 + 1e-4*scale)
             xx = optimize.newton(func, x0, **kwds)
         else:
             if xab is None:
                 xab = [self.x[0], self.x[-1]]
+            kwds.setdefault('xtol', 2e-12*scale)
             xx = optimize.brentq(func, xab[0], xab[1], **kwds)
         return xx
 
-- 
2.43.0

