From 6ca5d388a5abcc7b01b715051422b15251885276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/66] fix: TransformerPipeline accepts a tuple of
 transformers as documented

---
 src/opinf/pre/_multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..70c59a9 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -42,7 +42,7 @@ class TransformerPipeline(TransformerTemplate):
         """Set the transformers."""
         super().__init__(name=name)
 
-        if isinstance(transformers, list):
+        if isinstance(transformers, (list, tuple)):
             transformers = tuple(transformers)
         else:
             raise TypeError("'transformers' should be a list or tuple")
-- 
2.43.0


From eb83453e5933fac0307f3a0177da405c12840c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 02/66] fix: TransformerPipeline.load() restores name=None

---
 src/opinf/pre/_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 70c59a9..2ca0dcf 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -156,7 +156,7 @@ class TransformerPipeline(TransformerTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             meta = hf["meta"]
-            name = str(meta.attrs["name"])
+            name = meta.attrs["name"]
             num_transformers = int(meta.attrs["num_transformers"])
             if (nclasses := len(TransformerClasses)) != num_transformers:
                 raise ValueError(
@@ -169,7 +169,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=(None if name == "None" else name))
 
 
 # Vertical joining ============================================================
-- 
2.43.0


From 51124638fa088a58a9ce0d4b43c2548dd8b7762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 03/66] fix: ShiftScaleTransformer.inverse_transform(locs) with
 byrow=True and scaling=None

---
 src/opinf/pre/_shiftscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..d5e6149 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1269,7 +1269,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         shift_, scale_ = self.shift_, self.scale_
         if locs is not None:
             locs = self._check_locs(locs, states_transformed)
-            if self.byrow:
+            if self.byrow and self.scaling:
                 shift_ = shift_[locs]
                 scale_ = scale_[locs]
         else:
-- 
2.43.0


From 5b8a8cdf121326c1ee3b49948b7149238b732025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 04/66] fix: ScaleTransformer.load() keeps a length-1 array
 scaler an array

---
 src/opinf/pre/_shiftscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index d5e6149..077fbb2 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if not meta.attrs.get("byrow", scaler.shape != (1,)):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 9ca26b112829d0f51fa61be198b7058ba3ac7836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 05/66] fix: ShiftTransformer.transform_ddts() raises the
 documented ValueError

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 077fbb2..798427f 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From 6ea8f02114a25cac3c340895d004ebf0979aa70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 06/66] fix: method_of_snapshots() keeps the smallest
 eigenvalue unless it is noise

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..ccff633 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,7 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    positives = eigvals > max(minthresh, -np.min(eigvals))
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From dd55268a18b1cbceab58c7d8b99ac35e1cca2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 07/66] fix: PODBasis residual_energy / projection_error
 criteria select the smallest r

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ccff633..998ed25 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 6cabc61be044b2f829a60e6a85d0dda53f9994ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 08/66] fix: PODBasis without right singular vectors can be
 saved and loaded

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 998ed25..8a60d9b 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -987,7 +987,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1027,7 +1028,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From c09965da07ad01a4f29e1a7f1c2fa651124fe942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 09/66] fix: PODBasis.save()/load() preserve the current
 reduced_state_dimension

---
 src/opinf/basis/_pod.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a60d9b..b9d9fb7 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -989,6 +989,7 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("svdvals", data=self.svdvals)
                 if self.rightvecs is not None:
                     hf.create_dataset("rightvecs", data=self.rightvecs)
+                meta.attrs["num_vectors"] = self.reduced_state_dimension
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1030,7 +1031,13 @@ class PODBasis(LinearBasis):
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
+                basis = cls.from_svd(**kwargs)
+                if "num_vectors" in attrs:
+                    basis.reduced_state_dimension = min(
+                        attrs["num_vectors"],
+                        basis.max_vectors,
+                    )
+                return basis
 
             return cls(**kwargs)
 
-- 
2.43.0


From ac3e87b122e18efdbb9f4df6c15d1e5610e57d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 10/66] fix: PolynomialLifter does not truncate a single
 fractional order

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..5053a0c 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From c8f73b8805cee50a76cc0b72f662e3f18b0419e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 11/66] fix: PolynomialLifter.lift_ddts() is zero for order 0
 where the state is zero

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 5053a0c..0eb2b04 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                p * states ** (p - 1) * ddts if p != 0 else np.zeros_like(ddts)
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From 2a3abc4529d20cc5b633d55d287c4b4a34dc2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 12/66] fix: ddt_uniform() does not truncate estimates for
 integer states

The result array inherited the integer dtype of the states, so fourth- and
sixth-order (and second-order boundary) estimates were truncated.
---
 src/opinf/ddt/_finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..f47e72b 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,8 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    inexact = np.issubdtype(states.dtype, np.inexact)
+    ddts = np.empty_like(states, dtype=states.dtype if inexact else float)
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From ff2ac90840d6011a5eb3c787bddcb181b6c59f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 13/66] fix: hdf5_loadhandle raises LoadfileFormatError for
 exceptions without args

---
 src/opinf/utils/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..065a6f4 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -125,7 +125,7 @@ class hdf5_loadhandle(_hdf5_filehandle):
         except errors.LoadfileFormatError:
             raise
         except Exception as ex:
-            raise errors.LoadfileFormatError(ex.args[0]) from ex
+            raise errors.LoadfileFormatError(*ex.args[:1]) from ex
 
 
 # Other tools =================================================================
-- 
2.43.0


From fdc7fd3dbea876e6d93825cb30c03627dc71d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 14/66] fix: TruncatedSVDSolver.fit() applies the requested
 num_svdmodes to new data

num_svdmodes=None (use all modes) or a negative number was overwritten by
the first fit(), so refitting to larger data silently truncated.
---
 src/opinf/lstsq/_tsvd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..b2ccc27 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -76,18 +76,21 @@ class TruncatedSVDSolver(SolverTemplate):
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
         if nmodes is None:
+            self.__requested = None
             self.__nmodes = self.max_modes
             return
 
         if not isinstance(nmodes, int):
             raise TypeError("num_svdmodes must be an integer")
 
+        requested = nmodes
         if self.data_matrix is not None:
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
             if nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
+        self.__requested = requested
         self.__nmodes = nmodes
 
     @property
@@ -131,7 +134,7 @@ class TruncatedSVDSolver(SolverTemplate):
 
         # Reset num_svdmodes.
         d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
+        if (n := self.__requested) is None:
             n = d
         if n <= 0:
             n = d + n
@@ -220,11 +223,12 @@ class TruncatedSVDSolver(SolverTemplate):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__requested,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
             SolverTemplate.fit(solver, self.data_matrix, self.lhs_matrix)
             for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                 setattr(solver, attr, getattr(self, attr))
+            solver.__nmodes = self.__nmodes
         return solver
-- 
2.43.0


From 65e0de7ea49d34d3124606ec5cb7c0ac04af2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 15/66] fix: TruncatedSVDSolver with num_svdmodes=None can be
 saved and loaded

Saving an untrained solver with num_svdmodes=None raised a TypeError; the
requested number of modes is now stored if there is one.
---
 src/opinf/lstsq/_tsvd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index b2ccc27..71ff283 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -186,12 +186,14 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__requested is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__requested])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
                 for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                     hf.create_dataset(attr, data=getattr(self, attr))
+                hf.create_dataset("num_modes_in_use", data=[self.__nmodes])
 
     @classmethod
     def load(cls, loadfile: str):
@@ -210,7 +212,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
@@ -218,6 +222,8 @@ class TruncatedSVDSolver(SolverTemplate):
                 SolverTemplate.fit(solver, D, Z)
                 for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                     setattr(solver, attr, hf[attr][:])
+                if "num_modes_in_use" in hf:
+                    solver.__nmodes = int(hf["num_modes_in_use"][0])
         return solver
 
     def copy(self):
-- 
2.43.0


From 4809d11b5e9a2dc10d5c5e0d3043d29a7b05a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 16/66] fix: operators with sparse entries can be saved and
 loaded

OpInfOperator.save() raised a TypeError for scipy.sparse entries.
---
 src/opinf/operators/_base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..2d0fb27 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -796,7 +797,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -816,7 +819,16 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            return cls(cls._load_entries(hf))
+
+    @staticmethod
+    def _load_entries(hf):
+        """Read operator entries (dense, sparse, or None) from a file."""
+        if "entries" not in hf:
+            return None
+        if isinstance(hf["entries"], h5py.Group):
+            return utils.load_sparray(hf["entries"])
+        return hf["entries"][:]
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From 1ad62f0cba64477c77777efd6e6ad181baba5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 17/66] fix: OperatorPosterior.rvs() draws whole rows for given
 covariances

For posteriors initialized with alreadyinverted=True (e.g., after load()),
only the first entry of each row was drawn; d = 1 raised an IndexError.
---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..855f6f8 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,7 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [np.ravel(rv.rvs()) for rv in self.randomvariables]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From 9554f8f88c601e26e28c1ed7c86bebcd1339748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 18/66] fix: InterpModel.fit() subtracts known operators only
 once

Known operators were subtracted from the left-hand side both by the model and
by each of its submodels, so the remaining operators were inferred wrongly.
---
 src/opinf/models/mono/_parametric.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..e93b6ee 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1143,10 +1143,8 @@ class _InterpModel(_ParametricModel):
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
-                    )
-                    for op in self.operators
+                    self.operators[ell]._OperatorClass()
+                    for ell in self._indices_of_operators_to_infer
                 ],
                 solver=self.solver.copy(),
             )
@@ -1172,11 +1170,12 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for i, ell in enumerate(self._indices_of_operators_to_infer):
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-                [mdl.operators[ell].entries for mdl in self._submodels]
+                [mdl.operators[i].entries for mdl in self._submodels]
             )
 
         return self
-- 
2.43.0


From ea277a0ecafecd29e396a4ef57eac1982612e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 19/66] fix: parametric models with a known interpolatory
 operator can be fitted

fit() tried to reset the training parameters of known operators.
---
 src/opinf/models/mono/_parametric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index e93b6ee..d509624 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -275,7 +275,8 @@ class _ParametricModel(_OpInfModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        for i in self._indices_of_operators_to_infer:
+            op = self.operators[i]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-- 
2.43.0


From 6bc7d69ed57dba57218c5448a193e73fe2c34845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 20/66] fix: InterpModel.copy() preserves the solver

---
 src/opinf/models/mono/_parametric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index d509624..70de985 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1312,6 +1312,7 @@ class _InterpModel(_ParametricModel):
         """Make a copy of the model."""
         return self.__class__(
             operators=[op.copy() for op in self.operators],
+            solver=self.solver.copy() if self.solver is not None else None,
             InterpolatorClass=self.__InterpolatorClass,
         )
 
-- 
2.43.0


From 51cbe83c602b07a5b91258a0eea29da10da2d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 21/66] fix: ConstantOperator.apply() does not truncate for
 integer states

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From a1e557f739445154d56fce8d6d8472f871f95397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 22/66] fix: regularization selection resets the solver before
 the first fit

Models have no reset() method, so a regularizer left over from an earlier
selection (possibly of another dimension) was used in the first fit.
---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..ba28817 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -671,7 +671,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -894,7 +894,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From 20b63b52442b2b59f2491b25351cb1c443b30482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 23/66] fix: models can be evaluated at states of integer type

rhs() and jacobian() raised a UFuncTypeError since the output array inherited
the integer dtype of the state.
---
 src/opinf/models/mono/_nonparametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..a6b3804 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,7 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        out = np.zeros((r, r), dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From ff6bd50606fbd8af1190d7121d443f1e30055470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 24/66] fix: PolynomialOperator Jacobian and persistence

jacobian() returned 0 for every order; copy(), save() and load() did not
account for the polynomial order and raised exceptions.
---
 src/opinf/operators/_polynomial_operator.py | 69 ++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..6421f49 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -221,6 +221,73 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    @utils.requires("entries")
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator.
+
+        Parameters
+        ----------
+        state : (r,) ndarray
+            State vector.
+        input_ : (m,) ndarray or None
+            Input vector (not used).
+
+        Returns
+        -------
+        jac : (r, r) ndarray
+            State Jacobian.
+        """
+        kept = self.nonredudant_entries
+        r = self.state_dimension
+        state = np.reshape(state, (r, 1))
+
+        # Differentiate the recursion for the non-redundant Kronecker product.
+        terms, dterms = np.ones((1, 1)), np.zeros((1, r))
+        for p in range(1, self.polynomial_order + 1):
+            dterms = np.kron(np.eye(r), terms) + np.kron(state, dterms)
+            terms, dterms = np.kron(state, terms)[kept[p]], dterms[kept[p]]
+        return np.reshape(self.entries, (r, -1)) @ dterms
+
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+
+        Parameters
+        ----------
+        savefile : str
+            Path of the file to save the operator in.
+        overwrite : bool
+            If ``True``, overwrite the file if it already exists.
+            If ``False`` (default), raise a ``FileExistsError``
+            if the file already exists.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+
+        Parameters
+        ----------
+        loadfile : str
+            Path to the file where the operator was stored via :meth:`save()`.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (ClassName := hf["meta"].attrs["class"]) != cls.__name__:
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            order = int(hf["meta"].attrs["polynomial_order"])
+            return cls(order, cls._load_entries(hf))
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From e10270ceb84fdc4077937d3bb64c3dd530dbe008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 25/66] fix: UniformFiniteDifferencer rejects nonuniform grids
 with small steps

The absolute tolerance of np.allclose() (1e-8) accepted any time domain with
steps of that size, and the derivative estimates were silently wrong.
---
 src/opinf/ddt/_finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index f47e72b..8bcfb19 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -826,7 +826,8 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
 
         # Check for uniform spacing.
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        atol = 8 * np.finfo(float).eps * np.abs(time_domain).max()
+        if not np.allclose(diffs, diffs[0], atol=atol):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
-- 
2.43.0


From 96334340c457b71ac4626ea47949acac5d6a30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 26/66] fix: L2 regcond() accounts for underdetermined data
 matrices

---
 src/opinf/lstsq/_tikhonov.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..b4f4bb4 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -392,7 +392,10 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals2 = self._svals**2
+        if self.k < self.d:  # The data matrix has a nontrivial null space.
+            svals2 = np.append(svals2, 0)
+        svals2 = svals2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -617,7 +620,10 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        svals2 = self._svals**2
+        if self.k < self.d:  # The data matrix has a nontrivial null space.
+            svals2 = np.append(svals2, 0)
+        svals2 = svals2 + self.regularizer.reshape((-1, 1)) ** 2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 612eaf1da36fc63e9e2ca21ac522ccb61dc065f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 27/66] fix: a rejected regularizer does not replace the
 present one

---
 src/opinf/lstsq/_tikhonov.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index b4f4bb4..25ad003 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -509,8 +509,10 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    def _check_regularizer_shape(self, regs=None):
+        if regs is None:
+            regs = self.regularizer
+        if (shape1 := regs.shape) != (shape2 := (self.r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -533,9 +535,9 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
-        self.__regs = regs
         if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
@@ -750,8 +752,10 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    def _check_regularizer_shape(self, G=None):
+        if G is None:
+            G = self.regularizer
+        if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -779,10 +783,10 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
-        self.__reg = G
-
         if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(G)
+
+        self.__reg = G
 
     @classmethod
     def get_operator_regularizer(
@@ -1157,11 +1161,13 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    def _check_regularizer_shape(self, Gs=None):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if Gs is None:
+            Gs = self.regularizer
+        if len(Gs) != self.r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
+        for i, G in enumerate(Gs):
             if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
@@ -1195,9 +1201,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
-        self.__regs = regs
         if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     @_require_trained
-- 
2.43.0


From 9851cfbbf1ee584cd8eeb5a9f685eea6fd10bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 28/66] fix: operators with sparse entries can be compared

---
 src/opinf/operators/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 2d0fb27..1b4ebff 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -618,7 +618,12 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
-            return np.all(self.entries == other.entries)
+            entries1, entries2 = [
+                op.entries.toarray() if sparse.issparse(op.entries)
+                else op.entries
+                for op in (self, other)
+            ]
+            return np.all(entries1 == entries2)
         return True
 
     def __add__(self, other):
-- 
2.43.0


From bfc93aec8b1fe76b41cf5a767cf7efffa6be339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 29/66] fix: PolynomialOperators of different orders are not
 equal

---
 src/opinf/operators/_polynomial_operator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 6421f49..8f4680c 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -248,6 +248,14 @@ class PolynomialOperator(OpInfOperator):
             terms, dterms = np.kron(state, terms)[kept[p]], dterms[kept[p]]
         return np.reshape(self.entries, (r, -1)) @ dterms
 
+    def __eq__(self, other):
+        """Return ``True`` if two PolynomialOperator objects have the same
+        polynomial order and entries.
+        """
+        if not OpInfOperator.__eq__(self, other):
+            return False
+        return self.polynomial_order == other.polynomial_order
+
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Return a copy of the operator."""
-- 
2.43.0


From 063de6e45c8c7746c99a531a831c1f6a506af106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 30/66] fix: TimedBlock measures elapsed time, not only
 processor time

Blocks that sleep or wait were reported as taking no time at all, contrary to
the documented examples.
---
 src/opinf/utils/_timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..880149a 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -139,7 +139,7 @@ class TimedBlock:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-        self._tic = time.process_time()
+        self._tic = time.perf_counter()
         if self.timelimit is not None:
             signal.signal(signal.SIGALRM, self._signal_handler)
             signal.alarm(self.timelimit)
@@ -147,7 +147,7 @@ class TimedBlock:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
-        self._toc = time.process_time()
+        self._toc = time.perf_counter()
         if self.timelimit is not None:
             signal.alarm(0)
         elapsed = self._toc - self._tic
-- 
2.43.0


From 37a66aad85e5f974ad8f4839b2e61344bec2ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 31/66] fix: a TimedBlock does not cancel the time limit of an
 enclosing one

---
 src/opinf/utils/_timer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 880149a..679301e 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -141,8 +141,13 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.perf_counter()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
-            signal.alarm(self.timelimit)
+            # An enclosing TimedBlock may have an alarm pending.
+            self._old_handler = signal.signal(
+                signal.SIGALRM, self._signal_handler
+            )
+            self._remaining = signal.alarm(self.timelimit)
+            if 0 < self._remaining < self.timelimit:
+                signal.alarm(self._remaining)
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
@@ -151,6 +156,11 @@ class TimedBlock:
         if self.timelimit is not None:
             signal.alarm(0)
         elapsed = self._toc - self._tic
+        if self.timelimit is not None:
+            if self._old_handler is not None:
+                signal.signal(signal.SIGALRM, self._old_handler)
+            if self._remaining > 0:
+                signal.alarm(max(round(self._remaining - elapsed), 1))
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
                 if self.message:
-- 
2.43.0


From 3486cfe98a015849f495221d68a4833585c69bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 32/66] fix: interpolatory operators with unsorted training
 parameters can be copied

The default interpolator class was stored as if it had been requested, so the
parameters were not sorted again by copy(), galerkin(), or load().
---
 src/opinf/operators/_interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..be21a39 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -259,6 +259,8 @@ class _InterpOperator(ParametricOpInfOperator):
 
             This can be, e.g., a class from :mod:`scipy.interpolate`.
         """
+        self.__InterpolatorClass = InterpolatorClass
+
         if self.entries is not None:
             params = self.training_parameters
             entries = self.entries
@@ -276,8 +278,6 @@ class _InterpOperator(ParametricOpInfOperator):
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-        self.__InterpolatorClass = InterpolatorClass
-
     # Magic methods -----------------------------------------------------------
     def __eq__(self, other) -> bool:
         """Test whether the training parameters and operator matrices of two
-- 
2.43.0


From 1e7faf21c13cd8554165f7fb28e0b77504593302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 33/66] fix: parametric discrete models reject too many input
 data sets

Surplus entries of the list of inputs were silently dropped.
---
 src/opinf/models/mono/_parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 70de985..ce7faf3 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -594,7 +594,7 @@ class _ParametricDiscreteMixin:
         if nextstates is None:
             nextstates = [Q[:, 1:] for Q in states]
             states = [Q[:, :-1] for Q in states]
-        if inputs is not None:
+        if inputs is not None and len(inputs) == len(states):
             inputs = [U[..., : Q.shape[1]] for U, Q in zip(inputs, states)]
         return super().fit(parameters, states, nextstates, inputs)
 
-- 
2.43.0


From 3b823d7d4f46fd6707819f43c4a4418cdff7a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 34/66] fix: copies of trained models can be refit and keep the
 solver

---
 src/opinf/models/mono/_base.py       | 16 ++++++++++++++--
 src/opinf/models/mono/_parametric.py | 16 +++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..0c5ad82 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,20 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        newmodel = self.__class__([op.copy() for op in self.operators])
+
+        # Operators that are inferred from data remain so in the copy.
+        newmodel._indices_of_operators_to_infer = list(
+            self._indices_of_operators_to_infer
+        )
+        newmodel._indices_of_known_operators = list(
+            self._indices_of_known_operators
+        )
+        newmodel._fully_intrusive = self._fully_intrusive
+        if self.solver is not None:
+            newmodel.solver = self.solver.copy()
+
+        return newmodel
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index ce7faf3..7d7533b 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -29,6 +29,7 @@ class _ParametricModel(_OpInfModel):
     """Base class for parametric monolithic models."""
 
     _ModelClass = NotImplemented  # Must be specified by child classes.
+    __s = None  # Number of training parameter values, set by fit().
 
     # ModelClass properties ---------------------------------------------------
     @property
@@ -506,6 +507,13 @@ class _ParametricModel(_OpInfModel):
         """
         return self.evaluate(parameter).predict(*args, **kwargs)
 
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Make a copy of the model."""
+        newmodel = super().copy()
+        newmodel.__s = self.__s
+        return newmodel
+
 
 class _ParametricDiscreteMixin:
     """Mixin class for parametric models of discrete dynamical system."""
@@ -1310,11 +1318,9 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
-            operators=[op.copy() for op in self.operators],
-            solver=self.solver.copy() if self.solver is not None else None,
-            InterpolatorClass=self.__InterpolatorClass,
-        )
+        newmodel = super().copy()
+        newmodel.set_interpolator(self.__InterpolatorClass)
+        return newmodel
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From 95cf0a6c6de50521140b786b06718b9a16062536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 35/66] fix: load saved posteriors with ill-conditioned
 covariances

OperatorPosterior.load() raised a LinAlgError when the condition number of a
covariance matrix exceeded about 4e9, though the saved object was valid.
---
 src/opinf/roms/_bayes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 855f6f8..7b46d58 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -96,7 +96,11 @@ class OperatorPosterior:
             if not alreadyinverted:
                 cov_i = scipy.stats.Covariance.from_precision(cov_i)
             self.__randomvariables.append(
-                scipy.stats.multivariate_normal(mean=mean_i, cov=cov_i)
+                scipy.stats.multivariate_normal(
+                    mean=mean_i,
+                    cov=cov_i,
+                    allow_singular=True,  # cov_i may be ill conditioned.
+                )
             )
 
         # If operator rows are all the same size, wrap rvs() output as array.
-- 
2.43.0


From 712d03c8a1fab768a77b72ce08efe9e93b8d00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 36/66] fix: load_sparray() returns sparse arrays as documented

---
 src/opinf/utils/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 065a6f4..0fe9855 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,7 +232,7 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
+    A = sparse.coo_array(
         (group["data"], (group["row"], group["col"])),
         shape=group.attrs["shape"],
     )
-- 
2.43.0


From 617187d160ec062c194974d71da6832815da4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 37/66] fix: affine operators with integer coeffs can be loaded

---
 src/opinf/operators/_affine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..b0d8c58 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -499,7 +499,9 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            if (
+                key := "parameter_dimension"
+            ) in hf["meta"].attrs and op.parameter_dimension is None:
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From a5face24e2aa813b3ed5a64a2d1fa82d6c4deaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 38/66] fix: untrained PODBasis objects keep the
 full_state_dimension when loaded

---
 src/opinf/basis/_pod.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index b9d9fb7..0e5bbc5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -990,6 +990,8 @@ class PODBasis(LinearBasis):
                 if self.rightvecs is not None:
                     hf.create_dataset("rightvecs", data=self.rightvecs)
                 meta.attrs["num_vectors"] = self.reduced_state_dimension
+            elif (n := self.full_state_dimension) is not None:
+                meta.attrs["full_state_dimension"] = n
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1039,7 +1041,12 @@ class PODBasis(LinearBasis):
                     )
                 return basis
 
-            return cls(**kwargs)
+            basis = cls(**kwargs)
+            if "full_state_dimension" in attrs:
+                BasisTemplate.full_state_dimension.fset(
+                    basis, attrs["full_state_dimension"]
+                )
+            return basis
 
 
 # Functional API ==============================================================
-- 
2.43.0


From 53978f4f407a929e709347600930b84e09aef1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 39/66] fix: loaded models can be refit

---
 src/opinf/models/mono/_nonparametric.py | 3 +++
 src/opinf/models/mono/_parametric.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index a6b3804..35f7e67 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -464,6 +464,9 @@ class _NonparametricModel(_OpInfModel):
             model = cls(ops)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
+            if indices_infer:  # Operators inferred from data remain so.
+                model._fully_intrusive = False
+                model.solver = None
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 7d7533b..27aa721 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1309,6 +1309,9 @@ class _InterpModel(_ParametricModel):
             model = cls(ops)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
+            if indices_infer:  # Operators inferred from data remain so.
+                model._fully_intrusive = False
+                model.solver = None
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-- 
2.43.0


From 949c6c2070c37e863528ce2a9bff9f4388aa016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 40/66] fix: shift() rejects vectors that do not match the
 states

---
 src/opinf/pre/_shiftscale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 798427f..a9521cb 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -63,6 +63,8 @@ def shift(states: np.ndarray, shift_by: np.ndarray = None):
             shift_by = shift_by[:, 0]
         else:
             raise ValueError("'shift_by' must be one-dimensional")
+    if (n2 := shift_by.shape[0]) != (n := states.shape[0]):
+        raise ValueError(f"len(shift_by) = {n2:d} != {n:d} = len(states)")
 
     # Shift the columns by the mean.
     states_shifted = states - shift_by.reshape((-1, 1))
-- 
2.43.0


From 798d0c54c563de522588bf682100baa47263cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 41/66] fix: method_of_snapshots() rejects weights that do not
 match the states

---
 src/opinf/basis/_pod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 0e5bbc5..1ffee17 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -111,6 +111,10 @@ def method_of_snapshots(
     if inner_product_matrix is None:
         gramian = states.T @ (states / n_states)
     else:
+        if (nW := inner_product_matrix.shape[0]) != state_dimension:
+            raise errors.DimensionalityError(
+                f"states not aligned with weights, should have {nW:d} rows"
+            )
         gramian = states.T @ _Wmult(inner_product_matrix, states / n_states)
 
     # Compute eigenvalue decomposition, using that the Gramian is symmetric.
-- 
2.43.0


From 1d51ad25c2176da6b3d9d3665ecf9406f8bd4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 42/66] fix: TruncatedSVDSolver rejects negative numbers of
 modes

---
 src/opinf/lstsq/_tsvd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 71ff283..2d8b709 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -88,7 +88,7 @@ class TruncatedSVDSolver(SolverTemplate):
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
-            if nmodes > d:
+            if nmodes > d or nmodes < 1:
                 raise ValueError(f"only {d} SVD modes available")
         self.__requested = requested
         self.__nmodes = nmodes
@@ -138,6 +138,8 @@ class TruncatedSVDSolver(SolverTemplate):
             n = d
         if n <= 0:
             n = d + n
+        if n < 1:
+            raise ValueError(f"only {d} SVD modes available")
         if n > d:
             warnings.warn(
                 f"only {d} SVD modes available, "
-- 
2.43.0


From df9504099f06193cf3305675fb2a285502fa7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 43/66] fix: finite difference functions reject inputs not
 aligned with the states

---
 src/opinf/ddt/_finite_difference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index 8bcfb19..6f2efb6 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -69,6 +69,8 @@ def _finite_difference(states, coeffs, mode, inputs=None):
         **Only returned** if ``inputs`` is provided.
     """
     r, k = states.shape
+    if inputs is not None and inputs.shape[-1] != k:
+        raise errors.DimensionalityError("states and inputs not aligned")
     order = len(coeffs) - 1
 
     if mode == "fwd":
-- 
2.43.0


From 3c3d84308a11706a566bbef938565d748751c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 44/66] fix: affine operators reject the wrong number of
 coefficients

Coefficient functions that did not return one value for each term were
silently truncated or, in datablock(), used to assemble too few or too
many rows.
---
 src/opinf/operators/_affine.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index b0d8c58..2d64a23 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -233,6 +233,19 @@ class _AffineOperator(ParametricOpInfOperator):
         return "\n".join(lines)
 
     # Evaluation --------------------------------------------------------------
+    def _evaluate_coeffs(self, parameter) -> list:
+        """Evaluate the coefficient functions, one value for each term."""
+        theta_mus = self.coeffs(parameter)
+        if self.nterms == 1 and np.isscalar(theta_mus):
+            theta_mus = [theta_mus]
+        theta_mus = list(theta_mus)
+        if (n_coeffs := len(theta_mus)) != self.nterms:
+            raise ValueError(
+                f"{self.nterms} = number of affine expansion terms "
+                f"!= number of coefficients = {n_coeffs}"
+            )
+        return theta_mus
+
     @utils.requires("entries")
     def evaluate(self, parameter):
         r"""Evaluate the operator at the given parameter value.
@@ -250,9 +263,7 @@ class _AffineOperator(ParametricOpInfOperator):
         if self.parameter_dimension is None:
             self._set_parameter_dimension_from_values([parameter])
         self._check_parametervalue_dimension(parameter)
-        theta_mus = self.coeffs(parameter)
-        if self.nterms == 1 and np.isscalar(theta_mus):
-            theta_mus = [theta_mus]
+        theta_mus = self._evaluate_coeffs(parameter)
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
         return self._OperatorClass(entries)
 
@@ -408,9 +419,7 @@ class _AffineOperator(ParametricOpInfOperator):
         blockcolumns = []
         for mu, Q, U in zip(parameters, states, inputs):
             Di = self._OperatorClass.datablock(Q, U)
-            theta_mus = self.coeffs(mu)
-            if self.nterms == 1 and np.isscalar(theta_mus):
-                theta_mus = [theta_mus]
+            theta_mus = self._evaluate_coeffs(mu)
             blockcolumns.append(np.vstack([theta * Di for theta in theta_mus]))
         return np.hstack(blockcolumns)
 
-- 
2.43.0


From 4b4b82670cf2c524d58fb580a040ebc68eb5da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 45/66] fix: parametric operators reject parameters that are
 not vectors

Two-dimensional arrays whose first dimension is the parameter dimension
were accepted.
---
 src/opinf/operators/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 1b4ebff..788e0b7 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -974,7 +974,8 @@ class ParametricOperatorTemplate(abc.ABC):
         """Ensure a new parameter value has the expected shape."""
         if (pdim := self.parameter_dimension) is None:
             raise RuntimeError("parameter_dimension not set")
-        if np.atleast_1d(parameter).shape[0] != pdim:
+        parameter = np.atleast_1d(parameter)
+        if parameter.shape[0] != pdim or parameter.size != pdim:
             raise ValueError(f"expected parameter of shape ({pdim:d},)")
 
     @abc.abstractmethod
-- 
2.43.0


From 8a16dfecacfda9ebda228ece223f00c5b03aa499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 46/66] fix: operators of different shapes cannot be added

Entries whose shapes can be broadcast (e.g., operators with r = 1, or
InputOperators with m = 1) were added anyway.
---
 src/opinf/operators/_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 788e0b7..4deb6b6 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -633,6 +633,11 @@ class OpInfOperator(OperatorTemplate):
                 f"can't add object of type '{ocls.__name__}' "
                 f"to object of type '{scls.__name__}'"
             )
+        if (oshape := other.shape) != (sshape := self.shape):
+            raise errors.DimensionalityError(
+                f"can't add operators with entries of shapes {sshape} and "
+                f"{oshape}"
+            )
         return scls(self.entries + other.entries)
 
     def __str__(self):
-- 
2.43.0


From 3d7a933f6fff00504b67d2cadf388813689fab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 47/66] fix: operators reject states of other dimensions

Operators that pick entries of the state or multiply them with those of
the input accepted (longer) states of another dimension and used some of
their entries.
---
 src/opinf/operators/_base.py          | 7 +++++++
 src/opinf/operators/_nonparametric.py | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 4deb6b6..d3f5c25 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -645,6 +645,13 @@ class OpInfOperator(OperatorTemplate):
         return out + f"\n  entries.shape:   {self.shape}"
 
     # Evaluation --------------------------------------------------------------
+    def _check_state_dimension(self, state):
+        """Raise an exception if the state(s) do not have r entries."""
+        if (dim := state.shape[0]) != (r := self.entries.shape[0]):
+            raise errors.DimensionalityError(
+                f"state.shape[0] = {dim} != {r} = r"
+            )
+
     @utils.requires("entries")
     def jacobian(self, state, input_=None) -> np.ndarray:  # pragma: no cover
         r"""Construct the state Jacobian of the operator.
diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index dda56d7..4ca9c72 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -492,6 +492,7 @@ class QuadraticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**2  # r = 1
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -977,6 +978,7 @@ class CubicOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**3  # r = 1.
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -1452,6 +1454,7 @@ class QuarticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**4  # r = 1.
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -2101,8 +2104,10 @@ class StateInputOperator(OpInfOperator, InputMixin):
         if self.shape[1] == 1:
             return self.entries[0, 0] * input_ * state  # r = m = 1.
         if single:
+            self._check_state_dimension(np.atleast_1d(state))
             return self.entries @ np.kron(input_, state)  # k = 1, rm > 1.
         Q_ = np.atleast_2d(state)
+        self._check_state_dimension(Q_)
         U = np.atleast_2d(input_)
         return self.entries @ la.khatri_rao(U, Q_)  # k > 1, rm > 1.
 
-- 
2.43.0


From b7b3774ae926f6ac850517f0e4b2b92640dfb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 48/66] fix: affine operators keep no parameter_dimension from
 failed evaluations

The parameter_dimension was set before the coefficient functions were
evaluated, so after a rejected parameter the operator rejected the valid
ones as well.
---
 src/opinf/operators/_affine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 2d64a23..55ed538 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -260,12 +260,14 @@ class _AffineOperator(ParametricOpInfOperator):
         op : nonparametric :mod:`opinf.operators` operator
             Nonparametric operator corresponding to the parameter value.
         """
-        if self.parameter_dimension is None:
-            self._set_parameter_dimension_from_values([parameter])
-        self._check_parametervalue_dimension(parameter)
+        if self.parameter_dimension is not None:
+            self._check_parametervalue_dimension(parameter)
         theta_mus = self._evaluate_coeffs(parameter)
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
-        return self._OperatorClass(entries)
+        evaluated = self._OperatorClass(entries)
+        if self.parameter_dimension is None:
+            self._set_parameter_dimension_from_values([parameter])
+        return evaluated
 
     # Dimensionality reduction ------------------------------------------------
     @utils.requires("entries")
-- 
2.43.0


From dc412a45da621e0cbbfd33353daaee575b82f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 49/66] fix: models are unchanged by rejected operators

Whether the model uses inputs was overwritten before the new operators were
validated, and parametric models took over operators whose parameter
dimensions do not match before raising an exception.
---
 src/opinf/models/mono/_base.py       | 19 +++++++++++++++----
 src/opinf/models/mono/_parametric.py | 16 +++++++++++-----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 0c5ad82..dbc398f 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -79,7 +79,7 @@ class _Model(abc.ABC):
 
         toinfer = []  # Operators to infer (no entries yet).
         known = []  # Operators whose entries are set.
-        self._has_inputs = False  # Whether any operators use inputs.
+        has_inputs = False  # Whether any operators use inputs.
         ops = list(ops)
         for i in range(len(ops)):
             op = ops[i]
@@ -99,13 +99,17 @@ class _Model(abc.ABC):
             else:
                 known.append(i)
             if oputils.has_inputs(op):
-                self._has_inputs = True
+                has_inputs = True
         self._check_operator_types_unique([ops[i] for i in toinfer])
+        r = self._check_state_dimension_consistency(ops)
+        m = self._check_input_dimension_consistency(ops)
+        self._check_parameter_dimension_consistency(ops)
 
         # Store attributes.
-        self.__r = self._check_state_dimension_consistency(ops)
-        self.__m = self._check_input_dimension_consistency(ops)
+        self.__r = r
+        self.__m = m
         self.__operators = ops
+        self._has_inputs = has_inputs
         self._indices_of_operators_to_infer = toinfer
         self._indices_of_known_operators = known
         self._fully_intrusive = len(toinfer) == 0
@@ -170,6 +174,13 @@ class _Model(abc.ABC):
             )
         return rs.pop() if len(rs) == 1 else None
 
+    @staticmethod
+    def _check_parameter_dimension_consistency(ops):
+        """Ensure all parametric operators have the same parameter dimension
+        (nothing to check for nonparametric models).
+        """
+        return None
+
     @property
     def state_dimension(self):
         """Dimension :math:`r` of the state."""
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 27aa721..ad6e003 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -127,12 +127,14 @@ class _ParametricModel(_OpInfModel):
         r"""Dimension :math:`p` of a parameter vector :math:`\bfmu`."""
         return self.__p
 
-    def _synchronize_parameter_dimensions(self, newdim=None):
-        """Synchronize the parameter_dimension attribute for each operator."""
-        # Get any non-None parameter dimensions and check for uniqueness.
+    @staticmethod
+    def _check_parameter_dimension_consistency(ops):
+        """Ensure all parametric operators have the same parameter dimension
+        if it is set and return that parameter dimension.
+        """
         ps = {
             op.parameter_dimension
-            for op in self.operators
+            for op in ops
             if oputils.is_parametric(op) and op.parameter_dimension is not None
         }
         if len(ps) > 1:
@@ -140,7 +142,11 @@ class _ParametricModel(_OpInfModel):
                 "operators not aligned "
                 "(parameter_dimension must be the same for all operators)"
             )
-        p = ps.pop() if len(ps) == 1 else None
+        return ps.pop() if len(ps) == 1 else None
+
+    def _synchronize_parameter_dimensions(self, newdim=None):
+        """Synchronize the parameter_dimension attribute for each operator."""
+        p = self._check_parameter_dimension_consistency(self.operators)
 
         # Check operator parameter_dimension matches new parameter_dimension.
         if newdim is not None:
-- 
2.43.0


From b2c2748bf575341c6e07a28beffbf91563a25a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 50/66] fix: rejected training data do not define the parameter
 dimension

---
 src/opinf/models/mono/_parametric.py | 45 ++++++++++++++++++----------
 src/opinf/operators/_base.py         |  4 +++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index ad6e003..b10d006 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -274,22 +274,35 @@ class _ParametricModel(_OpInfModel):
     def _fit_solver(self, parameters, states, lhs, inputs=None):
         """Construct a solver for the operator inference least-squares
         regression."""
-        (
-            parameters_,
-            states_,
-            lhs_,
-            inputs_,
-        ) = self._process_fit_arguments(parameters, states, lhs, inputs)
-
-        # Set training_parameters for interpolatory operators.
-        for i in self._indices_of_operators_to_infer:
-            op = self.operators[i]
-            if oputils.is_interpolated(op):
-                op.set_training_parameters(parameters_)
-
-        # Set up non-intrusive learning.
-        D = self._assemble_data_matrix(parameters_, states_, inputs_)
-        self.solver.fit(D, np.hstack(lhs_))
+        undimensioned = [
+            op
+            for op in self.operators
+            if oputils.is_parametric(op)
+            and oputils.is_opinf(op)
+            and op.parameter_dimension is None
+        ]
+        try:
+            (
+                parameters_,
+                states_,
+                lhs_,
+                inputs_,
+            ) = self._process_fit_arguments(parameters, states, lhs, inputs)
+
+            # Set training_parameters for interpolatory operators.
+            for i in self._indices_of_operators_to_infer:
+                op = self.operators[i]
+                if oputils.is_interpolated(op):
+                    op.set_training_parameters(parameters_)
+
+            # Set up non-intrusive learning.
+            D = self._assemble_data_matrix(parameters_, states_, inputs_)
+            self.solver.fit(D, np.hstack(lhs_))
+        except Exception:
+            # Do not let rejected data define the parameter dimension.
+            for op in undimensioned:
+                op._unset_parameter_dimension()
+            raise
         self.__s = len(parameters_)
 
     def _extract_operators(self, Ohat):
diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index d3f5c25..1980c6a 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -1253,6 +1253,10 @@ class ParametricOpInfOperator(ParametricOperatorTemplate):
         self.__p = None
         self.__entries = None
 
+    def _unset_parameter_dimension(self) -> None:
+        """Forget the parameter dimension (but not the entries)."""
+        self.__p = None
+
     def _set_parameter_dimension_from_values(self, parameters) -> None:
         """Extract and save the dimension of the parameter space from a set of
         one or more parameter values.
-- 
2.43.0


From 9cfd47a852424d91f9c8e77f9c505e5e0ac6db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 51/66] fix: ROMs reject lhs and inputs that do not match the
 trajectories

---
 src/opinf/roms/_base.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ba28817..6469782 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -322,6 +322,33 @@ class _BaseROM(abc.ABC):
                 inputs = [inputs]
         return states, lhs, inputs
 
+    def _check_trajectories(self, states, lhs, inputs):
+        """Make sure there are left-hand side data and inputs for every
+        trajectory, aligned with the states of that trajectory.
+        """
+        for data, label in [(lhs, "lhs"), (inputs, "inputs")]:
+            if data is None:
+                continue
+            if len(data) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(data)} {label} trajectories detected"
+                )
+            if label == "inputs" and not self.model._has_inputs:
+                continue
+            for ell, (Q, Z) in enumerate(zip(states, data)):
+                # Discrete models do not need inputs for the last snapshot
+                # (if there are no lhs data), additional inputs are unused.
+                numcols, k = np.shape(Z)[-1], np.shape(Q)[-1]
+                if label == "inputs" and not self._iscontinuous:
+                    aligned = numcols >= (k if lhs is not None else k - 1)
+                else:
+                    aligned = numcols == k
+                if not aligned:
+                    raise errors.DimensionalityError(
+                        f"states[{ell}] and {label}[{ell}] not aligned"
+                    )
+
     def _process_training_data(
         self,
         states,
@@ -427,10 +454,8 @@ class _BaseROM(abc.ABC):
             else:
                 lhs = [Q[:, 1:] for Q in states]
                 states = [Q[:, :-1] for Q in states]
-                if inputs is not None:
-                    inputs = [
-                        U[..., : Q.shape[1]] for Q, U in zip(states, inputs)
-                    ]
+        if inputs is not None and not self._iscontinuous:
+            inputs = [U[..., : Q.shape[1]] for Q, U in zip(states, inputs)]
 
         return states, lhs, inputs
 
@@ -497,6 +522,7 @@ class _BaseROM(abc.ABC):
             states, lhs, inputs = self._fix_single_trajectory(
                 states, lhs, inputs
             )
+        self._check_trajectories(states, lhs, inputs)
 
         states, lhs, inputs = self._process_training_data(
             states=states,
-- 
2.43.0


From 62459d72e29a16386f03fb647009e8e6526c0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 52/66] fix: regularization selection rejects missing time
 domains and inputs

---
 src/opinf/roms/_base.py  | 10 ++++++++++
 src/opinf/roms/_bayes.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 6469782..2a16deb 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -672,6 +672,11 @@ class _BaseROM(abc.ABC):
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                f"{len(states)} state trajectories but "
+                f"{len(train_time_domains)} training time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -684,6 +689,11 @@ class _BaseROM(abc.ABC):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
                 )
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input functions detected"
+                )
             inputs = [  # evaluate the inputs over the time domain.
                 np.column_stack([u(tt) for tt in t])
                 for u, t in zip(input_functions, train_time_domains)
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 7b46d58..099c164 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -273,6 +273,11 @@ class _BayesianROMMixin:
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                f"{len(states)} state trajectories but "
+                f"{len(train_time_domains)} training time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -285,6 +290,11 @@ class _BayesianROMMixin:
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
                 )
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input functions detected"
+                )
             inputs = [  # evaluate the inputs over the time domain.
                 np.column_stack([u(tt) for tt in t])
                 for u, t in zip(input_functions, train_time_domains)
-- 
2.43.0


From 1cdbd2675fc460cce34f7aa8d445a376a9e05b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 53/66] fix: rejected states do not define the sizes of the
 variables

---
 src/opinf/basis/_multi.py | 16 ++++++++++++----
 src/opinf/pre/_multi.py   | 28 ++++++++++++++++++----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..7953506 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -315,6 +315,7 @@ class BasisMulti:
         -------
         self
         """
+        unset = []
         if self.full_state_dimension is None:
             # Assume all state dimensions are equal.
             nx, remainder = divmod(states.shape[0], self.num_variables)
@@ -323,12 +324,19 @@ class BasisMulti:
                     "len(states) must be evenly divisible by "
                     f"the number of variables n_q = {self.num_variables}"
                 )
-            for basis in self.bases:
+            unset = [b for b in self.bases if not b.full_state_dimension]
+            for basis in unset:
                 BasisTemplate.full_state_dimension.fset(basis, nx)
 
-        self._check_shape_full(states)
-        for basis, Q in zip(self.bases, self.split(states)):
-            basis.fit(Q)
+        try:
+            self._check_shape_full(states)
+            for basis, Q in zip(self.bases, self.split(states)):
+                basis.fit(Q)
+        except Exception:
+            # Do not let rejected states define the variable sizes.
+            for basis in unset:
+                BasisTemplate.full_state_dimension.fset(basis, None)
+            raise
 
         return self
 
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 2ca0dcf..55cf89c 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -580,6 +580,7 @@ class TransformerMulti:
         states_transformed: (n, k) ndarray
             Matrix of `k` transformed `n`-dimensional snapshots.
         """
+        unset = []
         if self.state_dimension is None:
             # Assume all state dimensions are equal.
             nx, remainder = divmod(states.shape[0], self.num_variables)
@@ -588,18 +589,25 @@ class TransformerMulti:
                     "len(states) must be evenly divisible by "
                     f"the number of variables n_q = {self.num_variables}"
                 )
-            for tf in self.transformers:
+            unset = [tf for tf in self.transformers if not tf.state_dimension]
+            for tf in unset:
                 TransformerTemplate.state_dimension.fset(tf, nx)
 
-        new_states = np.concatenate(
-            [
-                transformer.fit_transform(state_variable, inplace=inplace)
-                for transformer, state_variable in zip(
-                    self.transformers, self.split(states)
-                )
-            ],
-            axis=0,
-        )
+        try:
+            new_states = np.concatenate(
+                [
+                    transformer.fit_transform(state_variable, inplace=inplace)
+                    for transformer, state_variable in zip(
+                        self.transformers, self.split(states)
+                    )
+                ],
+                axis=0,
+            )
+        except Exception:
+            # Do not let rejected states define the variable sizes.
+            for tf in unset:
+                TransformerTemplate.state_dimension.fset(tf, None)
+            raise
         return states if inplace else new_states
 
     def transform(self, states, inplace=False):
-- 
2.43.0


From c1990f04b0fa94df24f4918e4f9046a9fd1a1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 54/66] fix: decoupled Tikhonov solver passes its options to
 the least-squares routine

---
 src/opinf/lstsq/_tikhonov.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 25ad003..bb29ca0 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1223,7 +1223,11 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(
+                    Dpad,
+                    self._ZtPad[:, i],
+                    **self.options,
+                )[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From 8a8eba232ba68b94b1b3b5e36dd579ba9a10bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 55/66] fix: untrained transformers are not equal to trained
 ones

---
 src/opinf/pre/_shiftscale.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index a9521cb..10325d0 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -979,17 +979,12 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
-        if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
+        for attr in ("mean_", "scale_", "shift_"):
+            sat, oat = getattr(self, attr), getattr(other, attr)
+            if (sat is None) != (oat is None):
                 return False
-            if not np.all(self.mean_ == other.mean_):
+            if sat is not None and not np.all(sat == oat):
                 return False
-        if self.scaling and self.scale_ is not None:
-            for attr in ("scale_", "shift_"):
-                if (oat := getattr(other, attr)) is None:
-                    return False
-                if not np.all(getattr(self, attr) == oat):
-                    return False
         return True
 
     # Printing ----------------------------------------------------------------
-- 
2.43.0


From 736e0442d9ce28825242a92e87d085a2665e1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 56/66] fix: compare bases with vector and matrix weights

---
 src/opinf/basis/_linear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..3b85490 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -244,6 +244,10 @@ class LinearBasis(BasisTemplate):
                 return False
             if sparse.issparse(w1) and sparse.issparse(w2):
                 w1, w2 = w1.data[0], w2.data[0]
+            elif sparse.issparse(w1):
+                w1 = w1.toarray()
+            elif sparse.issparse(w2):
+                w2 = w2.toarray()
             if not np.allclose(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
-- 
2.43.0


From 466cb18304cee6c7106db12547e8bec74f95088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 57/66] fix: comparing a posterior with other objects gives
 False

---
 src/opinf/roms/_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 099c164..f5ed332 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -140,6 +140,8 @@ class OperatorPosterior:
         return [rv.cov for rv in self.randomvariables]
 
     def __eq__(self, other):
+        if not isinstance(other, self.__class__):
+            return False
         if self.nrows != other.nrows:
             return False
         for m1, m2 in zip(self.means, other.means):
-- 
2.43.0


From 836f693c5a8da3ebc9bbbb714a5b2f28c6402f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 58/66] fix: verification does not overwrite or delete files of
 the user

---
 src/opinf/lstsq/_base.py     | 11 ++++++-----
 src/opinf/operators/_base.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 2a6c483..ad235a8 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -10,6 +10,7 @@ __all__ = [
 import os
 import abc
 import copy
+import tempfile
 import warnings
 import numpy as np
 import scipy.linalg as la
@@ -306,7 +307,8 @@ class SolverTemplate(abc.ABC):
         if self.data_matrix is None:
             return print("cannot verify solve() before calling fit()")
 
-        tempfile = "_solververification.h5"
+        tempdir = tempfile.TemporaryDirectory()
+        savefile = os.path.join(tempdir.name, "_solververification.h5")
 
         def _make_copy(solver):
             newsolver = solver.copy()
@@ -343,14 +345,13 @@ class SolverTemplate(abc.ABC):
 
             # Verify save()/load().
             try:
-                self2.save(tempfile, overwrite=True)
-                self3 = self2.load(tempfile)
+                self2.save(savefile, overwrite=True)
+                self3 = self2.load(savefile)
                 _check_equality(self2, self3, Ohat, "save()/load()")
             except NotImplementedError:
                 print("save() and/or load() not implemented")
         finally:
-            if os.path.isfile(tempfile):
-                os.remove(tempfile)
+            tempdir.cleanup()
 
 
 class PlainSolver(SolverTemplate):
diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 1980c6a..d878faf 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -14,6 +14,7 @@ import abc
 import copy
 import h5py
 import types
+import tempfile
 import numpy as np
 import scipy.linalg as la
 import scipy.sparse as sparse
@@ -464,10 +465,11 @@ class OperatorTemplate(abc.ABC):
         print("copy() preserves the results of apply()")
 
         # Verify save()/load() - - - - - - - - - - - - - - - - - - - - - - - -
-        tempfile = "_operatorverification.h5"
+        tempdir = tempfile.TemporaryDirectory()
+        savefile = os.path.join(tempdir.name, "_operatorverification.h5")
         try:
-            self.save(tempfile)
-            out = self.load(tempfile)
+            self.save(savefile)
+            out = self.load(savefile)
         except NotImplementedError:  # pragma: no cover
             print("save() and/or load() not implemented")
         else:
@@ -494,8 +496,7 @@ class OperatorTemplate(abc.ABC):
                     )
             print("save()/load() preserves the results of apply()")
         finally:
-            if os.path.isfile(tempfile):  # pragma: no cover
-                os.remove(tempfile)
+            tempdir.cleanup()
 
 
 def is_nonparametric(obj) -> bool:
-- 
2.43.0


From e5dbcca30c73401cc743352365aefc5e10b58273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 59/66] fix: estimator verification restores the time domain if
 it fails

---
 src/opinf/ddt/_base.py          | 46 +++++++++++++++++----------------
 src/opinf/ddt/_interpolation.py |  7 ++---
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..1c558a1 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..7390c3e 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -238,6 +238,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From 99106beedd76d6c7d30304d6239abf3bfa2d6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 60/66] fix: estimator verification aligns the estimates with
 the true derivatives

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index 1c558a1..8a2eee4 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -284,7 +284,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
                 # Use new states to infer the indices of the returns.
                 start = np.argmin(
-                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
                 )
                 s = slice(start, start + Q_est.shape[1])
                 truth = dQdt[:, s]
-- 
2.43.0


From 4c4a0033f03ff4ac51c9948fd310dc231c78a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 61/66] fix: singular value decay of integer data

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 1ffee17..67ceaf4 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1158,7 +1158,7 @@ def svdval_decay(
         Number of singular values greater than the cutoff value(s).
     """
     singular_values = np.sort(singular_values)[::-1]
-    singular_values /= singular_values[0]
+    singular_values = singular_values / singular_values[0]
 
     # Calculate the number of singular values above the cutoff value(s).
     if threshold:
-- 
2.43.0


From d627502b1c55d3d8bfd62bdfd354bc9e46174919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 62/66] fix: weighted PODBasis can be fit after changing
 svdsolver

---
 src/opinf/basis/_pod.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 67ceaf4..aaabafd 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -290,23 +290,28 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
-        if (
-            weights is not None
-            and self.__svdsolverlabel != "method-of-snapshots"
-        ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+        self.__weights = weights
+        self.__sqrt_weights = None
+        if self.__svdsolverlabel != "method-of-snapshots":
+            self.__set_sqrt_weights()
+
+    def __set_sqrt_weights(self):
+        """Compute the square root of the weights (if there are any)."""
+        if (weights := self.__weights) is None:
+            return
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if sparse.issparse(weights):
+                weights = weights.toarray()
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            self.__sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
 
     @classmethod
     def from_svd(
@@ -704,6 +709,8 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:  # svdsolver has been changed.
+                self.__set_sqrt_weights()
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From d177959dcff004869cd70bca296ba8c02f1c061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 63/66] fix: string representation of PODBasis with any
 callable svdsolver

---
 src/opinf/basis/_pod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index aaabafd..5c502b8 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -480,7 +480,12 @@ class PODBasis(LinearBasis):
         elif self.__svdsolverlabel == "randomized":
             out.append("SVD solver: sklearn.utils.extmath.randomized_svd()")
         elif self.__svdsolverlabel == "custom":
-            if (name := self.__svdengine.__name__) == "<lambda>":
+            name = getattr(
+                self.__svdengine,
+                "__name__",
+                self.__svdengine.__class__.__name__,
+            )
+            if name == "<lambda>":
                 out.append("SVD solver: custom lambda function")
             else:
                 out.append(f"SVD solver: {name}()")
-- 
2.43.0


From bbe3608fe0ca4b14cd2d1e3441bcc629f7bbaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 64/66] fix: state_dimension of models with user-defined
 operators can be set

---
 src/opinf/models/mono/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index dbc398f..47ec1f7 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -193,7 +193,7 @@ class _Model(abc.ABC):
         """
         if self.__operators is not None:
             for op in self.operators:
-                if op.entries is not None and op.state_dimension != r:
+                if not oputils.is_uncalibrated(op) and op.state_dimension != r:
                     raise AttributeError(
                         "can't set attribute "
                         f"(existing operators have r = {self.__r})"
-- 
2.43.0


From 53d0b77c4f69807cb5588000d79974ff907fb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:40 +0000
Subject: [PATCH 65/66] fix: interpolated operators compare their entries
 exactly, whatever their magnitude

---
 src/opinf/operators/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index be21a39..b4a839f 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -312,7 +312,7 @@ class _InterpOperator(ParametricOpInfOperator):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
-            return np.allclose(self.entries, other.entries)
+            return bool(np.all(self.entries == other.entries))
         return True
 
     def __str__(self):
-- 
2.43.0


From dda0b42438643257da3d8021655874fcad16f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:40 +0000
Subject: [PATCH 66/66] fix: compare basis weights relative to their magnitude

---
 src/opinf/basis/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 3b85490..672a3f5 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -248,7 +248,7 @@ class LinearBasis(BasisTemplate):
                 w1 = w1.toarray()
             elif sparse.issparse(w2):
                 w2 = w2.toarray()
-            if not np.allclose(w1, w2):
+            if not np.allclose(w1, w2, atol=1e-8 * np.abs(w1).max()):
                 return False
         return np.all(self.entries == other.entries)
 
-- 
2.43.0

