From caf2fe5c1cb7041dd4eea8ae38b3fa155a3fe7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/31] fix: epipolar candidate search can start behind the
 first candidates

For some list lengths (8190, 8191, 12286, ..., 20479) the halving steps end
more than 12 places behind the wanted position, so admissible targets at the
beginning of the list were skipped.
---
 openptv_python/find_candidate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..1bc5d42 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -204,4 +204,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     if start_point < 0:
         start_point = 0
 
+    # For some list lengths the halving steps overshoot by more than that margin.
+    while start_point > 0 and x[start_point - 1] >= (xa - eps0):
+        start_point -= 1
+
     return start_point
-- 
2.43.0


From 444e52a0462024c2af3726fa5b484715be8e0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 02/31] fix: tracking candidate searches can start behind the
 first targets of the window

Same overshoot of the halving steps as in the epipolar candidate search.
---
 openptv_python/track.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..6b4dc51 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -311,6 +311,10 @@ def candsearch_in_pix(
         if j0 < 0:
             j0 = 0
 
+        # for some list lengths the halving steps overshoot by more than that
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
+
         for j in range(j0, num_targets):
             if next_frame[j].tnr != -1:
                 if next_frame[j].y > ymax:
@@ -397,6 +401,11 @@ def candsearch_in_pix_rest(
             dj //= 2
 
         j0 -= 12 if j0 >= 12 else j0  # due to trunc
+
+        # for some list lengths the halving steps overshoot by more than that
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
+
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From 791c35c2af435fe3d5f9fa29f42475a1948ec19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 03/31] fix: candsearch_in_pix drops targets equidistant from
 the centre

A target at exactly the distance of one already found was not stored although
fewer than four were known.
---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 6b4dc51..335dd0e 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -331,13 +331,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From fd273d286dd24eb1891ff8c9dd1278155eadba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 04/31] fix: three_camera_matching fails with three cameras

The cliques hold four targets whatever the number of cameras, so storing a
list of three raised ValueError.
---
 openptv_python/correspondences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..e8e15d3 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -228,7 +228,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(scratch[matched].p.shape, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
-- 
2.43.0


From dcaa1324d52811515d539df482cc66e1496b101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 05/31] fix: triplets take the empty places of a candidate list
 for target 0

The list of candidates was searched beyond its length, where it holds zeros, so
target 0 counted as a candidate of every target.
---
 openptv_python/correspondences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index e8e15d3..363e7b3 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -204,7 +204,10 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            # only the first n places are candidates
+                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)[
+                                : corr_list[i2][i3][p2].n
+                            ]
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From 12c6ebf53999f426a310f0ec1aacfba507c5d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 06/31] fix: correspondences of two and three cameras raise
 IndexError

The counts are kept per clique size, quadruplets first and the total last, so
the list needs four places also for fewer cameras.
---
 openptv_python/correspondences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 363e7b3..8bee37d 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -530,7 +530,8 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    # quadruplets, triplets, pairs and the total, whatever the number of cameras
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -583,7 +584,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
-- 
2.43.0


From a5a35e06eb1cb57d88fb6e2f2a839ceeea0b2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 07/31] fix: blank candidates are reported as correspondences

The best candidates were taken from the whole buffer instead of its filled
part, so its zeros became a correspondence of target 0 of every camera unless
those targets were used already.
---
 openptv_python/correspondences.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 8bee37d..f7c7721 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -657,31 +657,33 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        num_cands = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:num_cands], con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        num_cands = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:num_cands], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        num_cands = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:num_cands], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 23886e11520f2b6f96fc7f3968eef99a2231fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 08/31] fix: empty candidate places register the last target's
 particle

candsearch_in_pix marks empty places with -1 (TR_UNUSED), not with
PT_UNUSED, so register_closest_neighbs took targets[-1] for them.
---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 335dd0e..d9a014d 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From 150b158aa2583ab9587cdf28fb4a17f91967924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 09/31] fix: ranking of candidates loses entries when sorting

Swapping two records of a record array by tuple assignment copies one of
them over the other, because indexing returns views.
---
 openptv_python/track.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index d9a014d..dc10ad7 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -517,7 +517,9 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                tmp = foundpix[j - 1].copy()
+                foundpix[j - 1] = foundpix[j]
+                foundpix[j] = tmp
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -530,7 +532,9 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                tmp = foundpix[j - 1].copy()
+                foundpix[j - 1] = foundpix[j]
+                foundpix[j] = tmp
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From 46a934292dc1272e60aca92d400a401f5f6bebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 10/31] fix: added particles overwrite the correspondences of
 the frame

The test whether the frame has room for the particle was inverted and, when
it has none, the whole correspondence array was used for the new particle.
---
 openptv_python/track.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index dc10ad7..84a09d1 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -744,16 +744,14 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
-        ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
-    else:
-        ref_path_inf = Pathinfo()
-        frm.path_info.append(ref_path_inf)
-        frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
-            np.recarray
-        )
-        ref_corres = frm.correspond.view(np.recarray)
+    if num_parts >= len(frm.path_info):
+        frm.path_info.append(Pathinfo())
+    if num_parts >= len(frm.correspond):
+        frm.correspond = np.resize(frm.correspond, num_parts + 1).view(np.recarray)
+        frm.correspond[num_parts].p[:] = CORRES_NONE
+
+    ref_path_inf = frm.path_info[num_parts]
+    ref_corres = frm.correspond[num_parts]
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
-- 
2.43.0


From bfde25b351e85e00aa2237224948fd12a666ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 11/31] fix: adding a particle marks the last target of cameras
 without candidate

assess_new_position marks missing candidates with -1, not with PT_UNUSED.
---
 openptv_python/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 84a09d1..b0b6745 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -762,7 +761,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] >= 0:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 97353f4a1dbb494c670f220a5f5632d98be984c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 12/31] fix: write_targets fails without targets and writes
 more than it announces

---
 openptv_python/tracking_frame_buf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..0d4505f 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -229,8 +229,11 @@ def write_targets(
     try:
         # Convert targets to a 2D numpy array
         target_arr = np.array(
-            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+            [
+                (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)
+                for t in targets[:num_targets]
+            ]
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From ca19831db9427fa04f1a2e11b7bac451a316dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 13/31] fix: frames cannot be written without a priority file

---
 openptv_python/tracking_frame_buf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 0d4505f..8d0a186 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -839,7 +839,7 @@ def write_path_frame(
     """
     corres_fname = f"{corres_file_base}.{frame_num}"
     linkage_fname = f"{linkage_file_base}.{frame_num}"
-    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base != "" else None
+    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base else None
     success = False
 
     try:
@@ -849,8 +849,8 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
-            prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
+        if prio_fname is not None:
+            prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
         for pix in range(num_parts):
@@ -867,7 +867,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -876,7 +876,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 5aa412d8c8d134174bae97beaa634522caae49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 14/31] fix: read_ori returns a default calibration instead of
 the one it read

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..3455076 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From ee323a270887285793331fc617844207e8e09820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 15/31] fix: a calibration cannot be written without a
 distortion file

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 3455076..41af2e1 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -414,6 +414,7 @@ def write_ori(
             fp.write(f"{row[0]:.7f} {row[1]:.7f} {row[2]:.7f}\n")
         fp.write(f"\n{int_par.xh:.4f} {int_par.yh:.4f}\n{int_par.cc:.4f}\n")
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
+        success = True
 
     if add_file is None:
         return success
@@ -423,7 +424,6 @@ def write_ori(
             f"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} "
             f"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\n"
         )
-        success = True
 
     return success
 
-- 
2.43.0


From 6564402f12d29cbdddb1d950e1680069f65bd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 16/31] fix: set_rotation_matrix raises IndexError

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 41af2e1..aa082ce 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From dce4c6969721d332b6969db539dfabfeb1834753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 17/31] fix: angle_acc returns NaN for displacements along one
 line

---
 openptv_python/track.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index b0b6745..e9b2d15 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -260,9 +260,14 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        cosine = dot_product / (norm_start_pred * norm_start_cand)
+        # rounding carries the cosine of parallel displacements beyond one
+        if cosine > 1.0:
+            cosine = 1.0
+        elif cosine < -1.0:
+            cosine = -1.0
+
+        angle = (200.0 / np.pi) * np.arccos(cosine)
 
     return np.array([angle, acc])
 
-- 
2.43.0


From eae9fcbbb91b6192ee2d2f607740fdf43c6f8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 18/31] fix: a missing tracking parameter file raises TypeError

---
 openptv_python/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..eaf1d08 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From a06f35ebb7cb6b6d4e606a9b86a2d0221287ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 19/31] fix: compare_mm_np ignores all layers but the first

---
 openptv_python/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index eaf1d08..e0ee6b7 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From 9a2c5bf23264d196a919270258bb8e48072b58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 20/31] fix: PftVersionPar.write writes the class default in a
 form that cannot be read

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index e0ee6b7..3f4ec74 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -868,8 +868,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From 00f3c7f638705a7a8ba2ad12cc05bfa9ba2c6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 21/31] fix: ControlPar.from_yaml leaves the multimedia
 parameters a dictionary

---
 openptv_python/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 3f4ec74..ea04d3a 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -53,7 +53,7 @@ class Parameters:
         """Read from YAML file."""
         with open(file_path, "r", encoding="utf-8") as file:
             data_dict = yaml.safe_load(file)
-            return cls(**data_dict)
+            return cls.from_dict(data_dict)
 
 
 @dataclass
-- 
2.43.0


From 6e9f8006865bb220766ab6fd96c2b862c0b5f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 22/31] fix: from_dict changes the caller's dictionary and
 shares its lists

---
 openptv_python/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index ea04d3a..a922b47 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -1,6 +1,7 @@
 """Parameters for OpenPTV-Python."""
 
 from collections import namedtuple
+from copy import deepcopy
 from dataclasses import asdict, dataclass, field
 from pathlib import Path
 from typing import List, Tuple
@@ -36,7 +37,8 @@ class Parameters:
     @classmethod
     def from_dict(cls, data):
         """Read MultimediaPar from a dictionary."""
-        return cls(**data)
+        # parameter sets created from one dictionary must not share its lists
+        return cls(**deepcopy(data))
 
     @classmethod
     def to_dict(cls, data):
@@ -459,8 +461,8 @@ class ControlPar(Parameters):
     @classmethod
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
-        mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
+        data = deepcopy(data)
+        data["mm"] = MultimediaPar.from_dict(data.get("mm", {}))
         return cls(**data)
 
     def set_image_size(self, imsize: Tuple[int, int]):
-- 
2.43.0


From 7956fa69167c4f2cebad6c2d18d4cb966d58ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 23/31] fix: sortgrid shares one target between several points
 and renumbers the detected targets

---
 openptv_python/sortgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..345b459 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+from copy import copy
 from pathlib import Path
 from typing import List
 
@@ -62,7 +63,8 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
+                # a copy: one target may be the nearest of several points
+                sorted_pix[i] = copy(pix[j])
                 sorted_pix[i].pnr = i
 
     return sorted_pix
-- 
2.43.0


From 8ced55ac3c124e0c0a6c6d53fe9c4317c25b1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 24/31] fix: the measuring volume uses the wrong sign of the
 ray origin's depth at the lower limit

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..4d7af1f 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -427,9 +427,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From 018c55e7927f85ec37a8fbd204b31d5b09d1f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 25/31] fix: backward tracking writes the first frame under the
 second frame's number

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index e9b2d15..5623dcd 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1340,7 +1340,7 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From c26067e1872b321f506e422d5886b31f7583acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 26/31] fix: refraction table lookups extrapolate below the
 table, wrap at its last column and raise at its last row

---
 openptv_python/multimed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 4d7af1f..724bcf8 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -361,9 +361,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the cell must lie inside the table; sz is negative just below it
+    if ir >= nr - 1:
         return 0.0
-    if iz < 0 or iz > nz:
+    if iz < 0 or sz < 0 or iz >= nz - 1:
         return 0.0
 
     # bilinear interpolation in r/z box
-- 
2.43.0


From 046c7762794ca10427771e00fb2438ee079b2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 27/31] fix: multi_cam_point_positions returns only the last
 point's position

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From e6c71bd34cbd511cbf8ab086cac6821d50b62350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 28/31] fix: forward tracking counts links that a better
 particle takes over

---
 openptv_python/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 5623dcd..6e25ea4 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1090,7 +1090,9 @@ def trackcorr_c_loop(run_info, step):
                 else:
                     curr_path_inf.next_frame = NEXT_NONE
 
-        if curr_path_inf.next_frame != NEXT_NONE:
+    # count what is left: a link may be taken over by a later, better particle
+    for h in range(fb.buf[1].num_parts):
+        if fb.buf[1].path_info[h].next_frame != NEXT_NONE:
             count1 += 1
 
     # end of creation of links with decision check
-- 
2.43.0


From 3fa165a9ea8df8386843c5b0d2cbf2604e78537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 29/31] fix: orient changes the calibration when it does not
 converge

---
 openptv_python/orientation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..4f356bd 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1,5 +1,6 @@
 """Functions for the orientation of the camera."""
 
+from copy import deepcopy
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -258,6 +259,10 @@ def orient(
         distortion parameters, which are also part of the G-M model and
         described in it. On failure returns None.
     """
+    # work on a copy: the caller's calibration changes only on success
+    cal_in = cal
+    cal = deepcopy(cal_in)
+
     maxsize = nfix * 2 + IDT
 
     # dm: float = 0.000001
@@ -607,6 +612,10 @@ def orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal_in.ext_par = cal.ext_par
+        cal_in.int_par = cal.int_par
+        cal_in.glass_par = cal.glass_par
+        cal_in.added_par = cal.added_par
         return resi
     else:
         return None
-- 
2.43.0


From 59292314c5b2f0fae5ebc21388db1d9bf8de1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 30/31] fix: full_calibration assigns residuals to the wrong
 points when some are not used

---
 openptv_python/orientation.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 4f356bd..a2896be 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -895,12 +895,22 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # the points orient() used, in the order of their residuals
+    used_ix = [
+        ix
+        for ix in range(len(ref_pts))
+        if targs[ix].pnr == ix
+        and not (orient_par.useflag == 1 and ix % 2 == 0)
+        and not (orient_par.useflag == 2 and ix % 2 != 0)
+        and not (orient_par.useflag == 3 and ix % 3 == 0)
+    ]
+
+    ret = np.empty((len(used_ix), 2))
+    used = np.empty(len(used_ix), dtype=np.int_)
 
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    for row, ix in enumerate(used_ix):
+        ret[row] = (residuals[2 * row], residuals[2 * row + 1])
+        used[row] = ix
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From ef332af438b40c029bb70e1f0d74acc50de558e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 31/31] fix: read_man_ori_fix cannot read calibration block and
 manual orientation files

---
 openptv_python/orientation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index a2896be..4305e15 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -714,9 +714,8 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_match = 0
 
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        # four numbers per camera, on any number of lines
+        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
@@ -739,10 +738,10 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
 def read_calblock(filename):
     """Read the calibration block file."""
     with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
+        lines = [line for line in f if line.strip()]
+        num_fix = len(lines)
         fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
+        for i, line in enumerate(lines):
             parts = line.split()
             fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
     return fix, num_fix
-- 
2.43.0

