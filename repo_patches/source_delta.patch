From 006108165a18f2c5ef6d5b7eed3347b66716e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 1/4] fix: build the missing-control NaN marker as float for
 integer inputs

np.full_like(int_array, nan) inherits the integer dtype, so the marker was
INT_MIN instead of nan: with integer Z (or A) and no control the filter applied
a garbage control input or crashed.
---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From 159382a9dbb54d90b2dc607b0625f380fb9d3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 2/4] fix: accept None control in KalmanFilter.predict as
 documented

The docstring says Bk and uk can be set to None to ignore the control part,
but np.isnan(None) raised TypeError.
---
 src/kalmankit/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..627fd86 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,8 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        no_control = Bk is None or uk is None
+        if no_control or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 0922a786fc8815efb9dc117a3f0486d99eb872a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 3/4] fix: do not crash on import when git cannot list the
 commits

With a damaged or incomplete history and no release tag, 'git rev-list'
fails and its missing output was dereferenced, so importing the package
raised AttributeError. Fall back like for the other failing git commands.
---
 src/kalmankit/_version.py | 2 ++
 versioneer.py             | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..ce010d4 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -404,6 +404,8 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
diff --git a/versioneer.py b/versioneer.py
index 1e3753e..24ecf55 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -882,6 +882,8 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
@@ -1413,6 +1415,8 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-- 
2.43.0


From ecd72e1ac7124d03cf7baeddfec6df8e312e992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:09 +0000
Subject: [PATCH 4/4] fix: do not let integer inputs overflow or wrap around

---
 src/kalmankit/extended.py | 6 ++++++
 src/kalmankit/standard.py | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..d8a6dee 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -175,6 +175,9 @@ class ExtendedKalmanFilter:
         Pk_prior : numpy.ndarray
             Prior value of state covariance.
         """
+        # whole numbers must neither overflow nor wrap around
+        xk, Pk = np.multiply(xk, 1.0), np.multiply(Pk, 1.0)
+
         # jacobian of f with respect to x evaluated at xk
         Ak = self.jacobian_A(xk, uk)
 
@@ -227,6 +230,9 @@ class ExtendedKalmanFilter:
         `Kk = Pk @ (Hk.T @ np.linalg.pinv(Sk))`. Instead, a linear matrix is
         solved due to being a more efficient and precise way.
         """
+        # whole numbers must neither overflow nor wrap around
+        xk, Pk = np.multiply(xk, 1.0), np.multiply(Pk, 1.0)
+
         # jacobian of h with respect to x evaluated at xk
         Hk = self.jacobian_H(xk)
 
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 627fd86..3792fb0 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -175,12 +175,15 @@ class KalmanFilter:
         Pk_prior : numpy.ndarray
             Prior value of state covariance.
         """
+        # whole numbers must neither overflow nor wrap around
+        xk, Pk = np.multiply(xk, 1.0), np.multiply(Pk, 1.0)
+
         # project state ahead
         no_control = Bk is None or uk is None
         if no_control or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
-            xk_prior = Ak @ xk + Bk @ uk
+            xk_prior = Ak @ xk + Bk @ np.multiply(uk, 1.0)
 
         # project error covariance ahead
         Pk_prior = Ak @ (Pk @ Ak.T) + Qk
@@ -235,6 +238,9 @@ class KalmanFilter:
         `Kk = Pk @ (Hk.T @ np.linalg.pinv(Sk))`. Instead, a linear matrix is
         solved due to being a more efficient and precise way.
         """
+        # whole numbers must neither overflow nor wrap around
+        xk, Pk = np.multiply(xk, 1.0), np.multiply(Pk, 1.0)
+
         # innovation (pre-fit residual) covariance
         Sk = Hk @ (Pk @ Hk.T) + Rk
 
-- 
2.43.0

