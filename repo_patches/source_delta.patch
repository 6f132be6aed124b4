From dcd07308ec206b9131848c90d546c1c9d5274dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 01/40] fix: symm_matrix applies the phase of the translation
 with the inverse rotation, as symm_eigenvalues does

---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..10998fe 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From b7174c5dee9e883b8f4000713286fe5c1e9f2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 02/40] fix: reading of prefix.sym keeps the sign of the
 translations that write_sym_file writes

---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..75ea366 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1413,5 +1413,6 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    # the file stores -t (operations act on a point r as rR - t)
+    trans_crystal = -trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 8283ca1bb6857f12beff44f046a3ea871485b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 03/40] fix: transformed_g reports a plane wave without partner
 instead of failing while building the message

---
 irrep/gvectors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 10998fe..94f536e 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -304,10 +304,9 @@ def transformed_g(kpt, ig, RecLattice, A):
                     "Not pair found for the g-vector igTr[{i}]={igtr}"
                     .format(i=i, igtr=igTr[:,i]) +
                     "obtained when transforming the g-vector ig[{i}]={ig} "
-                    .format(i=i, ig=ig[:3,i] +
+                    .format(i=i, ig=ig[:3,i]) +
                     "with the matrix {B}, where B=inv(A).T with A={A}"
                     .format(B=B, A=A)
-                )
             )
     return rotind
 
-- 
2.43.0


From 17b9cfbe037673a8cf1f2094f31f910b53cdd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 04/40] fix: calc_gvectors keeps the order of the plane waves
 of WAVECAR at both ends of the range (m and -m had the same key)

---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 94f536e..f7bb7f8 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From bac6fbda6f73ffa889e53e7d1caa748a0bd6e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 05/40] fix: identify_irreps without a table gives one entry
 per level (the last level was lost and one-level k-points failed)

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From 6c8c7b7fecc7905c0adf923150c5f9df527efffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 06/40] fix: KPoint.__eq__ compares the lists of symmetries
 (raised ValueError for arrays)

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..36cb334 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -162,7 +162,7 @@ class KPoint:
             return False
         if np.linalg.norm(self.k - other.k) > 1e-8:
             return False
-        if self.isym != other.isym:
+        if not np.array_equal(self.isym, other.isym):
             return False
         return True
 
-- 
2.43.0


From 6f7831971ef67435308a015c4400ed2fc6f61cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 07/40] fix: KPoint.str returns a line that KPoint can parse
 (the keyword was missing)

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 36cb334..9a63f61 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -187,7 +187,7 @@ class KPoint:
             Line that, when parsed, would lead to an instance of class `KPoint` 
             with identical values of attributes.
         '''
-        return "{0} : {1}  : {2}".format(
+        return "kpoint {0} : {1}  : {2}".format(
             self.name,
             " ".join(str(x) for x in self.k),
             " ".join(str(x) for x in sorted(self.isym)),
-- 
2.43.0


From 3f22ef2c01dca17efe7fd2a84ba1c4a5412672e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 08/40] fix: IrrepTable checks the number of the space group of
 the file (comparison could never be true)

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 9a63f61..745cd40 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -340,7 +340,7 @@ class IrrepTable:
         while len(lines) > 0:
             l = lines.pop().strip().split("=")
             # logger.debug(l,l[0].lower())
-            if l[0].lower() == "SG":
+            if l[0].lower() == "sg":
                 assert int(l[1]) == self.number
             elif l[0].lower() == "name":
                 self.name = l[1]
-- 
2.43.0


From 74ae4a89691a339ee8d359f23a6e8093779ffa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 09/40] fix: Kpoint.Separate warns about non-unitary
 eigenvalues (the verbosity was overwritten by an eigenvector)

---
 irrep/kpoint.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..e486244 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -504,14 +504,14 @@ class Kpoint:
             b2 = self.borders[istate+1]
             inds_states += [istate] * num_states  # index for set of states
             W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
+            for w, vec in zip(W, V.T):
                 eigenvalues.append(w)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), vec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        vecs = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -529,7 +529,7 @@ class Kpoint:
             # Sort based on real part of eigenvalues
             arg = np.argsort(np.real(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             inds_states = inds_states[arg]
             borders = np.hstack(
@@ -539,30 +539,30 @@ class Kpoint:
             # Probably this if-else statement can be removed
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
+                    v1 = vecs[:, b1:b2]
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
             # Sort based on the argument of eigenvalues
             arg = np.argsort(np.angle(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
+                    v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
                         E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
                     )
 
             else:
-                v1 = v
+                v1 = vecs
                 subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
 
         return subspaces
-- 
2.43.0


From ecd497620238bb165c0fa8bd2c3b9de4873efc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 10/40] fix: Kpoint.Separate works without grouping Kramers
 pairs (copy_sub was called with wrong arguments)

---
 irrep/kpoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index e486244..e275419 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -552,18 +552,21 @@ class Kpoint:
             w = w[arg]
             vecs = vecs[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
                     v1 = np.roll(vecs, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands]
                     )
 
             else:
                 v1 = vecs
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From 095fbdc68db6d0c9058c1ef4698dd4cbf5992c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 11/40] fix: a subspace of a separation can be separated again
 (blocks from the energies instead of borders of the parent)

---
 irrep/kpoint.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index e275419..6263d71 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -481,9 +481,19 @@ class Kpoint:
         )
 
 
+        # Blocks of degenerate states. In a subspace obtained by a previous
+        # separation, degenerate states are listed one by one
+        inds_levels = np.repeat(np.arange(len(self.degeneracies)), self.degeneracies)
+        energies = np.array(self.Energy_mean)[inds_levels]
+        blocks = np.hstack([
+             [0],
+             np.where(energies[1:] - energies[:-1] > degen_thresh)[0] + 1,
+             [self.num_bands],
+        ])
+
         # Check that S is block-diagonal
         Sblock = np.copy(S)
-        for b1, b2 in zip(self.borders, self.borders[1:]):
+        for b1, b2 in zip(blocks, blocks[1:]):
             Sblock[b1:b2, b1:b2] = 0
         check = np.max(abs(Sblock))
         if check > 0.1:
@@ -499,14 +509,12 @@ class Kpoint:
         eigenvectors = []
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
+        for b1, b2 in zip(blocks, blocks[1:]):
+            inds_states += list(inds_levels[b1:b2])  # index for set of states
             W, V = la.eig(S[b1:b2, b1:b2])
             for w, vec in zip(W, V.T):
                 eigenvalues.append(w)
-                Eloc.append(self.Energy_mean[istate])
+                Eloc.append(energies[b1:b2].mean())
                 eigenvectors.append(
                     np.hstack((np.zeros(b1), vec, np.zeros(self.num_bands - b2)))
                 )
-- 
2.43.0


From 49f632d8e30e201e20e84940ba8fc808ac2d4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 12/40] fix: -isymsep accepts several symmetries (truth value
 of an array, dictionary changed during the loop)

---
 irrep/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..43ce51b 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -353,7 +353,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
@@ -419,8 +419,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
-- 
2.43.0


From 1015314aaadb31c1ef6680e2bdf408ccd6d6eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 13/40] fix: zakphase and wcc run (energies of the bands,
 eigenvalues of the Wilson loop)

---
 irrep/bandstructure.py | 10 +++++-----
 irrep/kpoint.py        |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..664f155 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -751,7 +751,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -762,13 +762,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
@@ -794,7 +794,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 6263d71..3991d1f 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -288,6 +288,7 @@ class Kpoint:
         # Sort energy levels
         sortE = np.argsort(E)
         other.Energy_mean = E[sortE]
+        other.Energy_raw = other.Energy_mean
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
-- 
2.43.0


From 2e6b57bf5106efd3f5626592dae3c94386c6d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 14/40] fix: -ZAK prints the phases of all the subspaces (exit
 was inside the loop)

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 43ce51b..58d4883 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -456,7 +456,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 68d906e49e3c8f9db8ecc87fc9adcf28c6669bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 15/40] fix: print imaginary parts of the characters when only
 those in the reference cell have them

---
 irrep/kpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 3991d1f..ca3671c 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -736,7 +736,8 @@ class Kpoint:
             str_irreps.append(s)
 
         # Set auxiliary blank strings for formatting
-        writeimaginary = np.abs(self.char.imag).max() > 1e-4
+        writeimaginary = max(np.abs(self.char.imag).max(),
+                             np.abs(self.char_refUC.imag).max()) > 1e-4
         if writeimaginary:
             aux1 = ' ' * 4
         else:
-- 
2.43.0


From 9578b92c1459f4da3cb6f9d28cdfc1f235ff8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 16/40] fix: printed vectors of the reference cell were the
 transposed matrix (wrong for non-symmetric lattices)

---
 irrep/spacegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 75ea366..c7ad095 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
-- 
2.43.0


From ee2ddb45cc69be284444897ebdae9f09e7484e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 17/40] fix: printed positions in the reference cell ignored
 the shift of the origin

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index c7ad095..cde2500 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -764,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 33efd1e4a0bea42936e2c070e90a25bbafb0574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 18/40] fix: printed action on k-points truncated coefficients
 such as 0.9999999999999998 instead of rounding them

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cde2500..2c5953c 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -242,7 +242,7 @@ class SymmetryOperation():
             coord = ["kx","ky","kz"]
             is_first = True
             for i in range(len(mrow)):
-                b = int(mrow[i]) if np.isclose(mrow[i],int(mrow[i])) else mrow[i]
+                b = int(round(mrow[i])) if np.isclose(mrow[i], round(mrow[i])) else mrow[i]
                 if b == 0:
                     continue
                 if b == 1:
-- 
2.43.0


From 4456e5b051e816dbbf7aa1a9256fd8fe02383f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 19/40] fix: compstr lost signs of complex numbers (1-2i read
 as 1+2i) and returned None or failed for -1-2i and 2i

---
 irrep/utility.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/irrep/utility.py b/irrep/utility.py
index 17efc44..6e44d79 100644
--- a/irrep/utility.py
+++ b/irrep/utility.py
@@ -94,12 +94,7 @@ def compstr(string):
         `float` if `string` does not have imaginary part, `complex` otherwise.
     """
     if "i" in string:
-        if "+" in string:
-            return float(string.split("+")[0]) + 1j * \
-                float(string.split("+")[1].strip("i"))
-        elif "-" in string:
-            return float(string.split("-")[0]) + 1j * \
-                float(string.split("-")[1].strip("i"))
+        return complex(string.replace(" ", "").replace("i", "j"))
     else:
         return float(string)
 
-- 
2.43.0


From 58613c206529a59799432435ef61844d34cb64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 20/40] fix: short ignored the number of decimals for the
 imaginary part

---
 irrep/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/utility.py b/irrep/utility.py
index 6e44d79..0ffba74 100644
--- a/irrep/utility.py
+++ b/irrep/utility.py
@@ -206,7 +206,7 @@ def short(x, nd=3):
         return fmt.format(x.real)
     if abs(x.real) < 10 ** (-nd):
         return fmt.format(x.imag) + "j"
-    return short(x.real, nd) + short(1j * x.imag)
+    return short(x.real, nd) + short(1j * x.imag, nd)
 
 
 def split(l):
-- 
2.43.0


From 08f59204d7b6b09307fa0a6a05d371dc3664b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 21/40] fix: unreadable lines among the positions of POSCAR
 stopped the parser (message compared with the level)

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..4eded92 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -448,7 +448,7 @@ class ParserVasp:
                 positions[i] = np.array(l.split()[:3])
                 i += 1
             except Exception as err:
-                log_message(err, msg, 1)
+                log_message(err, v, 1)
                 pass
         if sum(nat) != i:
             raise RuntimeError(
-- 
2.43.0


From a2c03ac78e375ee3a1b71d509187e65dd43fc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 22/40] fix: scaling factor of POSCAR was not applied to
 Cartesian positions

---
 irrep/readfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 4eded92..31dd5d8 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -421,8 +421,8 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = scale * np.array([next(fpos).split() for i in range(3)], dtype=float)
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -455,7 +455,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From b6b1b0d6f8521c7495df432187de5cc98cc881c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 23/40] fix: skipping k-points of an Abinit WFK file compared
 them with the header of another k-point and read one band only

---
 irrep/readfiles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 31dd5d8..fbaccdb 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -330,13 +330,13 @@ class ParserAbinit():
             # 1st record: npw, nspinor, nband
             record = record_abinit(self.fWFK, "i4")  # [0]
             npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
+            assert npw == self.npwarr[i], ("Different number of plane waves "
                                             "in header and k-point's block. "
                                             "Probably a bug in Abinit...")
             assert nspinor_loc == nspinor, ("Different values of nspinor in "
                                             "header and k-point's block. "
                                             "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
+            assert nband == self.nband[i], ("Different number of bands in "
                                              "header and k-point's block. "
                                              "Probably a bug in Abinit...")
 
@@ -351,7 +351,8 @@ class ParserAbinit():
 
             # 4th record: coefficients of expansions in plane waves
             if skip:
-                record = record_abinit(self.fWFK, "f8")
+                for iband in range(nband):
+                    record = record_abinit(self.fWFK, "f8")
             else:
                 CG = np.zeros((nband, npw * nspinor), dtype=complex)
                 for iband in range(nband):
-- 
2.43.0


From 9af795da272dd453596e36558ba0e8592591df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 24/40] fix: k-points of an Abinit WFK file could not be read
 in decreasing order (unbound variable)

---
 irrep/readfiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index fbaccdb..1b4e4b6 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -295,6 +295,7 @@ class ParserAbinit():
             record_abinit(self.fWFK,"i4")
 
         # Set as attributes quantities that need to be retrieved by the rest of methods
+        self.num_header = 5 + npsp + (2 if usepaw == 1 else 0)  # records of the header
         self.nband = nband
         self.spinor = spinor
         self.npwarr = npwarr
@@ -319,6 +320,11 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
+        # Go back to the first k-point if the lines of ik were already read
+        if ik < self.kpt_count:
+            self.fWFK.goto_record(self.num_header)
+            self.kpt_count = 0
+
         # We need to skip lines in fWFK until we reach the lines of ik
         for i in range(self.kpt_count, ik+1):
 
-- 
2.43.0


From e0b964f96d96dd3f6b67dcacc5ad6378ace04ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 25/40] fix: Abinit crystals with one atom stopped in spglib
 (kinds of atoms read as a number instead of an array)

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 1b4e4b6..545298c 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 62d912203ddbe40756ef85750317124df31994c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 26/40] fix: energies of spin up were given to the states of
 spin down (Quantum Espresso)

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 545298c..2804a60 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -698,6 +698,10 @@ class ParserEspresso:
 
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
+        if spin_channel == "dw":  # energies of spin down are after those of spin up
+            Energy = Energy[-NBin:]
+        elif spin_channel == "up":
+            Energy = Energy[:NBin]
         Energy *= Hartree_eV
 
         # Open file with the wave functions
-- 
2.43.0


From 59e0b137c375c9fa3b228173b8a5dbc298dac0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 27/40] fix: comments after the values of a .win file were
 taken as part of them

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 2804a60..44658bd 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -771,7 +771,7 @@ class ParserW90:
     def __init__(self, prefix):
 
         self.prefix = prefix
-        self.fwin = [l.strip().lower() for l in open(prefix + ".win").readlines()]
+        self.fwin = [l.split("!")[0].split("#")[0].strip().lower() for l in open(prefix + ".win").readlines()]
         self.fwin = [
             [s.strip() for s in split(l)]
             for l in self.fwin
-- 
2.43.0


From 7477f6a48b7278980e29431ca16da6f303bb3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 28/40] fix: mp_grid separated by blanks was refused although
 get_param can join the numbers

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 44658bd..b92574d 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -802,7 +802,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From 5d0b9242e7d3ff7ed1c33820033a4a9a4ae35f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 29/40] fix: cartesian positions of a .win file could not
 precede the lattice vectors

---
 irrep/readfiles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index b92574d..96d14bb 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -828,6 +828,7 @@ class ParserW90:
         lattice = None
         kpred = None
         found_atoms = False
+        cartesian = False
 
         for l in self.iterwin:
 
@@ -892,8 +893,10 @@ class ParserW90:
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+                    cartesian = l[1][6:10] == "cart"
+
+        if cartesian:  # from cartesian to direct coords, once the lattice is known
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From 427f95ac4c5beabdd8cf6e98a467b9de045b652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 30/40] fix: units of the atoms_cart block of a .win file were
 read as an atom

---
 irrep/readfiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 96d14bb..735930d 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -877,8 +877,12 @@ class ParserW90:
                     found_atoms = True
                     positions = []
                     nameat = []
+                    units = "ang"
                     while True:
                         l1 = next(self.iterwin)
+                        if l1[0] in ("bohr", "ang"):
+                            units = l1[0]
+                            continue
                         if l1[0] == "end":
                             if l1[1] != l[1]:
                                 raise RuntimeError(
@@ -893,6 +897,8 @@ class ParserW90:
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
+                    if units == "bohr":
+                        positions *= BOHR
                     cartesian = l[1][6:10] == "cart"
 
         if cartesian:  # from cartesian to direct coords, once the lattice is known
-- 
2.43.0


From e46ad95a005a87f677bda9e75a9e1fc3e62a5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 31/40] fix: an .eig file with one line was refused

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 735930d..4a9ae5e 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -919,7 +919,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(self.prefix + ".eig", ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0


From 34966d9deab7bf2f1ccce5cff69343c785e18f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 32/40] fix: cutoff of the plane waves of Quantum Espresso was
 12% larger than asked for (1 bohr taken as 0.5 angstrom)

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 664f155..203972f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From c725aca5ea268db23dbadba8051178c69b2ca535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 33/40] fix: list of k-points passed by the user was changed
 (one was subtracted from it)

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 203972f..9e470b7 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,7 +304,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
+            kplist = np.array(kplist) - 1
             kplist = np.array([k for k in kplist if k >= 0 and k < NK])
 
         # Parse wave functions at each k-point
-- 
2.43.0


From e4984ac201ec60adf5e7633f2aff61e0db50f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 34/40] fix: -trans_thresh and -alat of the command line had no
 effect (not passed to BandStructure)

---
 irrep/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/cli.py b/irrep/cli.py
index 58d4883..660a485 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -375,6 +375,8 @@ def cli(
         refUC = refuc,
         shiftUC = shiftuc,
         search_cell = searchcell,
+        trans_thresh=trans_thresh,
+        alat=alat,
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
-- 
2.43.0


From ff51ea3dee25a5c7128b4333b5668317c9683143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 35/40] fix: JSON of the separated subspaces took the indices
 of -symmetries as names of the k-points

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 660a485..513b6b5 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -439,7 +439,7 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json()})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 6bdc626461fb6031d7c58bd2eaf23a33c4f5e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 36/40] fix: -symmetries had no effect on the operations
 printed

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 513b6b5..350a072 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -383,7 +383,7 @@ def cli(
         from_sym_file=from_sym_file
     )
 
-    bandstr.spacegroup.show()
+    bandstr.spacegroup.show(symmetries=symmetries)
 
     if writesym:
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
-- 
2.43.0


From 438cdc439b35560f952a00b1bd901743482aa05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 37/40] fix: -correct_Ecut0 had no effect

---
 irrep/bandstructure.py | 5 +++++
 irrep/cli.py           | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 9e470b7..d4b6688 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -92,6 +92,9 @@ class BandStructure:
         1: print info about decisions taken internally by the code, recommended 
         when the code runs without errors but the result is not the expected.
         2: print detailed info, recommended when the code stops with an error
+    correct_Ecut0 : float, default=0.
+        Energy (in eV) added to the cutoff read from WAVECAR. Only used if
+        `code`='vasp'.
 
     Attributes
     ----------
@@ -161,6 +164,7 @@ class BandStructure:
         v=0,
         alat=None,
         from_sym_file=None,
+        correct_Ecut0=0.,
     ):
 
         code = code.lower()
@@ -180,6 +184,7 @@ class BandStructure:
             self.Lattice, positions, typat = parser.parse_poscar(v)
             if not onlysym:
                 NK, NBin, self.Ecut0, lattice = parser.parse_header()
+                self.Ecut0 += correct_Ecut0
                 if not np.allclose(self.Lattice, lattice):
                     raise RuntimeError("POSCAR and WAVECAR contain different lattices")
                 EF_in = None  # not written in WAVECAR
diff --git a/irrep/cli.py b/irrep/cli.py
index 350a072..55d55f2 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -380,7 +380,8 @@ def cli(
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
-        from_sym_file=from_sym_file
+        from_sym_file=from_sym_file,
+        correct_Ecut0=correct_ecut0
     )
 
     bandstr.spacegroup.show(symmetries=symmetries)
-- 
2.43.0


From 9e7f93ea26a4c016b8a9c204a5dfd20d5e3a8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 38/40] fix: values of the configuration file are converted to
 the type of their option (EF: 5.2, kpoints: 11 failed)

---
 irrep/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 55d55f2..e6a9e6a 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -48,9 +48,10 @@ class LoadContextFromConfig(click.Command):
             # sanitize inputs to be all lower-case
             config_data = {k.lower(): v for k, v in config_data.items()}
 
+            options = {option.name: option for option in self.params}
             for param, value in ctx.params.items():
                 if param in config_data:
-                    ctx.params[param] = config_data[param]
+                    ctx.params[param] = options[param].type_cast_value(ctx, config_data[param])
 
         return super(LoadContextFromConfig, self).invoke(ctx)
 
-- 
2.43.0


From 1eb914f8cc6ebf6d7be2262a86743eb8ff63b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 39/40] fix: getloc gave wrong averages for functions of some
 of the coordinates (divided by the points of the others)

---
 irrep/kpoint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index ca3671c..b82a972 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -974,6 +974,8 @@ class Kpoint:
         loc_grid = loc(
             grid[0][:, None, None], grid[1][None, :, None], grid[2][None, None, :]
         )
+        # functions of some of the coordinates only give smaller arrays
+        loc_grid = np.broadcast_to(loc_grid, tuple(2 * gmax + 1))
         print("loc=", loc, "loc_grid=\n", loc_grid)
         res = np.zeros(self.num_bands)
         for s in [0, 1] if self.spinor else [0]:
-- 
2.43.0


From bacebd57aba7394bb04ed720265584cab2366d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 40/40] fix: names of the k-points given with -kpnames did not
 reach irrep-output.json

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e6a9e6a..fb85036 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -414,7 +414,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames=kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
-- 
2.43.0

