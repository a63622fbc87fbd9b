From 984ef699ed0f7580d0dc2ed7b6823bd55fac6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 01/32] fix: keep the previous currents when updating the
 dispersive state

advance_current bound i_prev to self.i and then overwrote self.i in place, so
the recursive convolution used the new current for both time levels.
---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..c7fd676 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -423,7 +423,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -917,7 +917,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From 79e2cf1f44785591d7050171391f9171c8708e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 02/32] fix: apply transfer impedances declared with direction
 "both"

"in" or "both" evaluates to "in", so direction "both" added no coupling at all.
---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..782882d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -191,7 +191,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -204,7 +204,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -263,7 +263,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -276,7 +276,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From dbf20abbd1193043bec63d37aef96d7c58bd7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 03/32] fix: keep one convolution state per dispersive transfer
 impedance

The state was kept per conductor and driven by the state of the source
conductor, and the decay factor was negated together with the residue, so a
transfer impedance with poles lost its memory: r/(s-p) did not tend to -r/p
at low frequency as the equivalent constant impedance does.
---
 python/src/dispersive.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 782882d..d503334 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -7,9 +7,11 @@ class Dispersive():
         self.u = u
         self.dt = dt
         
+        # State of the recursive convolution of each (row, column) impedance.
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +78,14 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            self.phi[kz] = (
+                self.q1[kz]*i_now[:, kz]+\
+                self.q2[kz]*i_prev[:, kz]+\
+                self.q3[kz]*self.phi[kz]
             )
 
         
@@ -202,7 +204,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        self.q3[:, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
@@ -215,7 +217,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        self.q3[:, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +276,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +289,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From 2cfc1b33d13727e48d1495f1f6560885d4ef94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 04/32] fix: discretise polylines whose stretches have
 different divisions

Cell i*divisions + k is only right when every stretch has the same number of
divisions; otherwise cells were overwritten and others left uninitialised.
---
 python/src/mtl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c7fd676..0b64564 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -109,12 +109,14 @@ class MTL():
 
         assert (node_positions.shape[0] == len(ndiv) + 1)
         
+        first = 0
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+            first += divisions
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From 28b8a241e0c5beff4e8b1bfc4941609c24907cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 05/32] fix: put a lumped series resistance on the requested
 conductor and region

self.r[a:b][conductor][conductor] addresses a whole row of one segment of the
region, so other conductors were coupled and the rest of the region was left
out; the region also had one segment too many and the line end overflowed.
---
 python/src/mtl.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0b64564..7172765 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -384,15 +384,12 @@ class MTL():
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 == self.r.shape[0]):
-            index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
-        
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        index1, index2 = min(index1, index2), max(index1, index2)
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
+
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
@@ -973,10 +970,12 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        index1, index2 = min(index1, index2), max(index1, index2)
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
+
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
-- 
2.43.0


From a5e6d203bb5b73035c5a6e094470c47406835a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 06/32] fix: put a lumped shunt conductance on the requested
 conductor and nodes

The chained subscripts addressed a whole row of one node, and the node was
searched per coordinate (flattened argmin) instead of by distance.
---
 python/src/mtl.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 7172765..ae900ad 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -404,12 +404,13 @@ class MTL():
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        index1, index2 = min(index1, index2), max(index1, index2)
         if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
+            self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(self.du_norm[index1:index2, 0, 0])
         else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+            self.g[index1, conductor, conductor] = conductance/self.du_norm[min(index1, self.du_norm.shape[0] - 1), 0, 0]
             
         self.update_cg_terms()
 
@@ -990,10 +991,11 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
+        index1, index2 = min(index1, index2), max(index1, index2)
         if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
+            self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(self.du_norm[index1:index2, 0, 0])
         else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+            self.g[index1, conductor, conductor] = conductance/self.du_norm[min(index1, self.du_norm.shape[0] - 1), 0, 0]
             
         self.update_cg_terms()
 
-- 
2.43.0


From 40d20072d1580629275b877f0d021b63b90062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 07/32] fix: copy the first frame a probe records without
 preallocated frames

The probe stored a view of the solver state, so its first frame changed with
every later step (and was one-dimensional until the second one).
---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..0c0ccaf 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -40,7 +40,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0


From ac17cd43a40be73bfea4fa76be7e1feaf33dbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 08/32] fix: clear the dispersive state in create_clean_copy

The copy of a line that had been run kept the convolution state of its
dispersive connectors, so it did not start from rest.
---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ae900ad..4c4ccb2 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -543,6 +543,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.phi.fill(0)
         r.time = 0.0
         return r
 
-- 
2.43.0


From 362c88bbb261640ce876b3f8dda92d1f4002e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 09/32] fix: order the cables of a bundle level as declared

Iterating a set of cable names made the conductor order of a bundle (and with
it probe columns and source conductors) depend on the string hash seed.
---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..c8b9e90 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -329,7 +329,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From fb7336dff263779cdf249bdcbd8c660886ebfe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 10/32] fix: keep every termination and junction declared at
 the same point

Two terminations (or junctions) of the same level at the same coordinates
overwrote each other, leaving the nodes of the first one unconnected.
---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index c8b9e90..622eed9 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -522,6 +522,9 @@ class Parser:
                                 # else:
                                 #     network.short_to_ground(node)
 
+                if bundle_level in networkd:
+                    terminations.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
@@ -652,6 +655,9 @@ class Parser:
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
+                if bundle_level in networkd:
+                    junctions.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             junctions.append(nw.NetworkD(networkd))            
         return junctions
-- 
2.43.0


From 222f98c3c4d5d8cd51eed01c8d0a537fc83a912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 11/32] fix: terminate each node with its own connector and
 source

The entries of a termination were indexed by conductor number instead of by
position, so a termination listed in another order got other nodes sources
and connectors, and a single node of a multiwire connector was left open.
---
 python/src/jsonParser.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 622eed9..aba3358 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -473,7 +473,7 @@ class Parser:
                 network = nw.Network(description)
                 
                 for c in connections:
-                    if len(c["nodes"]) == 1:
+                    if len(c["nodes"]) == 1 and c["connectors"][0]["connectorType"] != "MultiwireConnector":
                         if (c["connectors"][0]["connectorType"] == "Conn_short"):
                             network.short_to_ground(c["nodes"][0])
                         elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
@@ -491,34 +491,34 @@ class Parser:
                                                             c["connectors"][0]["capacitance"], 
                                                             c["sources"][0])
                     
-                    elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
+                    else:
+                        for node, conductor, connector, source in zip(c["nodes"], c["conductors"], c["connectors"], c["sources"]):
+                            if (connector["connectorType"] == "MultiwireConnector"):
                                 
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
+                                if "resistanceVector" in connector.keys():
+                                    R = connector["resistanceVector"][conductor]
                                 else:
                                     R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
+                                if "capacitanceVector" in connector.keys():
+                                    C = connector["capacitanceVector"][conductor]
                                 else:
                                     C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
+                                if "inductanceVector" in connector.keys():
+                                    L = connector["inductanceVector"][conductor]
                                 else:
                                     L = 0
 
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
+                                if (connector["connections"][conductor] == "Conn_short"):
                                     network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
+                                elif (connector["connections"][conductor] == "Conn_R" or 
+                                      connector["connections"][conductor] == "Conn_sRLC"):
+                                    network.connect_to_ground_R(node, R, source)
+                                elif (connector["connections"][conductor] == "Conn_LCpRs"):
+                                    network.connect_to_ground_LCpRs(node, R ,L, C, source)
+                                elif (connector["connections"][conductor] == "Conn_C"):
+                                    network.connect_to_ground_C(node, C, source)
                                 # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
+                                #     network.connect_to_ground(node, R, source)
                                 # else:
                                 #     network.short_to_ground(node)
 
-- 
2.43.0


From 9a457fd2541da2b3b54a84bee5fddeb1e46d2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 12/32] fix: use the passive sign for the series-R parallel-LC
 termination

The capacitor was charged with the opposite of the branch current, so the
termination generated energy and its voltage grew with time constant 2RC.
---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..b0bcd6e 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -156,15 +156,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] = -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From e7bcc3a56fa576c17474ac288e6a478d63321ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 13/32] fix: add every lumped element to its cable

Only the first lumped element of a cable was added, and a description with
lumped elements failed on any cable that has none.
---
 python/src/jsonParser.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index aba3358..43e1c3c 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -261,21 +261,18 @@ class Parser:
     
     
     def _addLumpedElement(self, line):
-        if len(self._lumped) == 0:
-            return
-        
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+            
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')    
+            
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+           
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From ee2003a2efab8d1d498377b4461d2a1e9ab92dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 14/32] fix: report the missing element instead of failing in
 the error message

The messages concatenated integers to strings or read an attribute of a dict,
so the user got a TypeError or AttributeError instead of the diagnosis.
---
 python/src/jsonParser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 43e1c3c..1083ef1 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -385,7 +385,7 @@ class Parser:
         for w in self._wires:
             if w["materialId"] == mat_id:
                 return w
-        raise Exception("No wire with materialId ", mat_id)
+        raise Exception("No wire with materialId " + str(mat_id))
 
     def _buildMTLfromLine(self, line):
         cable = self._getCableFromLineName(line)
@@ -703,21 +703,21 @@ class Parser:
             if int(node.split()[0]) == elemId:
                 return int(node.split()[-1])
         
-        raise Exception("No node with elemId "+ elemId)
+        raise Exception("No node with elemId "+ str(elemId))
         
     def _getLineElemIdFromCoordId(self, coordId):
         for line in self._lines:
             if str(coordId) in line.split()[3:]:
                 return int(line.split()[0])
 
-        raise Exception("No line with coordId "+ coordId)
+        raise Exception("No line with coordId "+ str(coordId))
     
     def _getCableWithElemId(self, elemId):
         for cable in self._cables:
             if elemId in cable["elemIds"]:
                 return cable
         
-        raise Exception("No cable with elemId "+ elemId)
+        raise Exception("No cable with elemId "+ str(elemId))
     
     def _getBundleWithCable(self, cable):
         for bundle in self.bundles:
@@ -726,7 +726,7 @@ class Parser:
                     if mtl.name == cable["name"]:
                         return bundle
         
-        raise Exception(cable.name + " does not belong to any bundle")
+        raise Exception(cable["name"] + " does not belong to any bundle")
                 
     def _addProbes(self):
         for probe in self._probes:
-- 
2.43.0


From 9add6655bccee2e385f4b8916928d3a2161d3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 15/32] fix: reject sources of an unknown waveform type

The fallback returned None at every time, which the solver turned into NaN.
---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 1083ef1..348098f 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -574,7 +574,7 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
+            raise ValueError("Unknown source type " + str(source["magnitude"]["type"]))
             
         return magnitude
 
-- 
2.43.0


From b39b7322f2916cf3880da3a6f7dd4ede1bc903f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 16/32] fix: place port probes and port sources at the end
 nodes of the line

---
 python/src/mtl.py               | 8 ++++----
 python/src/networkExtraction.py | 4 ++--
 python/src/probes.py            | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4c4ccb2..f908c79 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -519,12 +519,12 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
             z0 = self.zl
 
         v0 = self.add_probe(position=x0,          probe_type='voltage')
diff --git a/python/src/networkExtraction.py b/python/src/networkExtraction.py
index ae73d4b..cfe526f 100644
--- a/python/src/networkExtraction.py
+++ b/python/src/networkExtraction.py
@@ -32,10 +32,10 @@ def getSolvedProbesFromLine(line, p1, p2, magnitude, finalTime):
     line1 = line.create_clean_copy()
     if p1_term == "S":
         line1.add_voltage_source(
-            position=line1.x[0], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[0], conductor=p1_cond, magnitude=magnitude)
     else:
         line1.add_voltage_source(
-            position=line1.x[-1], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[-1], conductor=p1_cond, magnitude=magnitude)
     pS_probe, pL_probe = line1.add_port_probes()
     if p1_term == "S":
         p1_probe = pS_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 0c0ccaf..7b7f6a2 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -67,7 +67,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
+        if self.v0.index == 0:
             return "S"  
         else:
             return "L"
-- 
2.43.0


From 743e137f03522ff0230f7412e58446677fcc5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 17/32] fix: count each instant of a trapezoidal or ramp
 waveform once

---
 python/src/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..9d2e284 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -63,11 +63,11 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
     return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
-           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
+           A*(mod_time > t1 )*(mod_time <= t2) + \
+           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time > t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x > x0)
 
 
 def ramp_pulse_sp(A, x0):
-- 
2.43.0


From 514ae768c0de28e40811133e2644ac29ecac2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 18/32] fix: make the travelling ramp depend only on its
 retarded time

---
 python/src/waveforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 9d2e284..f11546d 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -76,18 +76,18 @@ def ramp_pulse_sp(A, x0):
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    f1 = sp.Piecewise((A*((t+x/v)/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    f1 = sp.Piecewise((A*((t+y/v)/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    f1 = sp.Piecewise((A*((t+z/v)/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
     return f1
 
 
-- 
2.43.0


From d839e4effdc7cad827884022ae504ccac0b1a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 19/32] fix: keep the symbolic ramps at zero before they start

---
 python/src/waveforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index f11546d..00e6ca7 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -72,22 +72,22 @@ def ramp_pulse(x, A, x0):
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
+    f1 = sp.Piecewise((0, t < 0), (A*(t/x0), (t <= x0)), (A, (t >= x0)))
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
     x,y,z,t = sp.symbols('x y z t')
-    f1 = sp.Piecewise((A*((t+x/v)/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    f1 = sp.Piecewise((0, t+x/v < 0), (A*((t+x/v)/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
     x,y,z,t = sp.symbols('x y z t')
-    f1 = sp.Piecewise((A*((t+y/v)/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    f1 = sp.Piecewise((0, t+y/v < 0), (A*((t+y/v)/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
     x,y,z,t = sp.symbols('x y z t')
-    f1 = sp.Piecewise((A*((t+z/v)/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    f1 = sp.Piecewise((0, t+z/v < 0), (A*((t+z/v)/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
     return f1
 
 
-- 
2.43.0


From 4e34bd72eacdb6ced2c3a091059795cd6943abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 20/32] fix: renumber the conductors of networks added with
 add_networks

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..ad5e9a6 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 7a83167ec842891a0c8cdd75f7e514e71bf46e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 21/32] fix: count the preceding lines of the level when
 numbering network conductors

---
 python/src/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/networks.py b/python/src/networks.py
index b0bcd6e..c90b3b6 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -277,6 +277,10 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
+                for line in bundle.levels[level]:
+                    if line.name == node["line_name"]:
+                        break
+                    conductors_above += line.number_of_conductors
                 node["line_index"] += conductors_above
 
     def update_sources(self, time, dt):
-- 
2.43.0


From 72f52539b0576e766265b5e58bbbbc0107dc9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 22/32] fix: drive the network nodes with the external field of
 their bundle

---
 python/src/mtln.py     | 2 ++
 python/src/networks.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index ad5e9a6..254799c 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -69,6 +69,8 @@ class MTLN:
                 bundle.dt = dt
         
         self.compute_nw_v_terms()
+        for nw in self.networks:
+            nw.update_external_fields(self.bundles)
         
         t = self.get_time_range(finalTime)
         for bundle in self.bundles.values():
diff --git a/python/src/networks.py b/python/src/networks.py
index c90b3b6..13a7456 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -236,6 +236,10 @@ class Network:
         self.X = self.H[self.number_of_nodes:]
 
        
+    def update_external_fields(self, lines):
+        for node in self.connections.values():
+            self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"],node["side"]]
+
     def update_voltages(self, lines):
         for node in self.connections.values():
             lines[node["bundle_name"]].v[node["line_index"],node["side"]] = self.nw_v[node["index"]]
@@ -291,6 +295,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.advance_voltage(dt)
 
+    def update_external_fields(self, bundles):
+        for nw in self.levels.values():
+            nw.update_external_fields(bundles)
+
     def update_voltages(self, bundles):
         for nw in self.levels.values():
             nw.update_voltages(bundles)
-- 
2.43.0


From 8fb3ae885a4ae1a6af7e7afb3a62a43d957a0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 23/32] fix: evaluate the transverse field of the last
 illuminated node at that node

---
 python/src/mtl.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index f908c79..6a9436d 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -497,10 +497,12 @@ class MTL():
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
+            last = indices.stop
+            x0, y0, z0 = self.u[last,:]
+            xi, yi, zi = distances[n, last, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
+            self.e_T[n,last] = sp.lambdify(t,
                     l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
                     l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
                     l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
@@ -853,7 +855,7 @@ class MTLD:
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -871,10 +873,12 @@ class MTLD:
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
+            last = indices.stop
+            x0, y0, z0 = self.u[last,:]
+            xi, yi, zi = distances[n, last, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
+            self.e_T[n,last] = sp.lambdify(t,
                     l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
                     l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
                     l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
-- 
2.43.0


From d6b30fbeaccab198eb08fa4a2ca57a619406174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 24/32] fix: superpose sources and fields applied to the same
 place

---
 python/src/mtl.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 6a9436d..877c95b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -441,7 +441,8 @@ class MTL():
         index = np.argmin(distances)
     
         # index = np.argmin(np.abs(self.u - position))
-        self.v_sources[conductor, index] = magnitude
+        previous = self.v_sources[conductor, index]
+        self.v_sources[conductor, index] = lambda t : previous(t) + magnitude(t)
 
     # def add_planewave(self, planewave: PlaneWave, distances_x : np. ndarray, distances_y : np.ndarray):
         
@@ -490,22 +491,22 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
-                self.e_T[n,nz] = sp.lambdify(t,
+                self.e_T[n,nz] = add(self.e_T[n,nz], sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi))))
             last = indices.stop
             x0, y0, z0 = self.u[last,:]
             xi, yi, zi = distances[n, last, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,last] = sp.lambdify(t,
+            self.e_T[n,last] = add(self.e_T[n,last], sp.lambdify(t,
                     l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
                     l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi))))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -866,22 +867,22 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
-                self.e_T[n,nz] = sp.lambdify(t,
+                self.e_T[n,nz] = add(self.e_T[n,nz], sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi))))
             last = indices.stop
             x0, y0, z0 = self.u[last,:]
             xi, yi, zi = distances[n, last, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,last] = sp.lambdify(t,
+            self.e_T[n,last] = add(self.e_T[n,last], sp.lambdify(t,
                     l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
                     l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi))))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From d7eb2e27be0acfa5aaee474317f913602de9c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 25/32] fix: add a branch to ground to the branches its node
 already has

---
 python/src/networks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 13a7456..b2015b6 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -137,7 +137,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
@@ -146,7 +146,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
@@ -159,7 +159,7 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
@@ -170,7 +170,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Qs[index, index] = C
@@ -178,7 +178,7 @@ class Network:
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
-- 
2.43.0


From b807592861393ea9f9c672bb9e6f739b29448454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 26/32] fix: accept transfer impedances with several poles

---
 python/src/dispersive.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index d503334..d9bea56 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -76,6 +76,16 @@ class Dispersive():
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
+    def add_poles(self, index, row, col, poles, residues):
+        self.q1[index, row, col] = np.append(self.q1[index, row, col], -(residues / poles) * (
+            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+        ))
+        self.q2[index, row, col] = np.append(self.q2[index, row, col], (residues / poles) * (
+            1 / (poles * self.dt)
+            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+        ))
+        self.q3[index, row, col] = np.append(self.q3[index, row, col], np.exp(poles * self.dt))
+
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
             self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
@@ -197,27 +207,15 @@ class TransferImpedance(Dispersive):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] += np.exp(poles * self.dt)
+                        for k in range(self.nx):
+                            self.add_poles(k, j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] += np.exp(poles * self.dt)
+                        for k in range(self.nx):
+                            self.add_poles(k, i, j, poles, -residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From bdafae553b84f35eb2b272779593f20c8e6989ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 27/32] fix: recompute the recursive convolution when the time
 step changes

---
 python/src/dispersive.py | 50 +++++++++++++++++++++-------------------
 python/src/mtl.py        | 17 +++++++-------
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index d9bea56..b7b3c9b 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -6,6 +6,7 @@ class Dispersive():
         self.nx = nx
         self.u = u
         self.dt = dt
+        self.pole_terms = []
         
         # State of the recursive convolution of each (row, column) impedance.
         self.phi = np.zeros(
@@ -77,6 +78,7 @@ class Dispersive():
         return np.vectorize(np.sum, otypes=[float])(arr)
 
     def add_poles(self, index, row, col, poles, residues):
+        self.pole_terms.append((index % self.nx, row, col, poles, residues))
         self.q1[index, row, col] = np.append(self.q1[index, row, col], -(residues / poles) * (
             1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
         ))
@@ -86,6 +88,25 @@ class Dispersive():
         ))
         self.q3[index, row, col] = np.append(self.q3[index, row, col], np.exp(poles * self.dt))
 
+    def clear_poles(self, index, row, col):
+        index = index % self.nx
+        self.pole_terms = [term for term in self.pole_terms if term[:3] != (index, row, col)]
+        for q in [self.q1, self.q2, self.q3, self.phi]:
+            q[index, row, col] = 0
+
+    def set_time_step(self, dt):
+        if (dt == self.dt):
+            return
+        self.dt = dt
+        terms = self.pole_terms
+        self.pole_terms = []
+        for q in [self.q1, self.q2, self.q3]:
+            q.fill(0)
+        for index, row, col, poles, residues in terms:
+            self.add_poles(index, row, col, poles, residues)
+        self.q1sum = self.v_sum(self.q1)
+        self.q2sum = self.v_sum(self.q2)
+
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
             self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
@@ -143,14 +164,7 @@ class DispersiveConnector(Dispersive):
         self.e[index, conductor, conductor] += e
 
 
-        self.q1[index, conductor, conductor] -= (residues / poles) * (
-            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-        )
-        self.q2[index, conductor, conductor] += (residues / poles) * (
-            1 / (poles * self.dt)
-            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-        )
-        self.q3[index, conductor, conductor] += np.exp(poles * self.dt)
+        self.add_poles(index, conductor, conductor, poles, residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -266,28 +280,16 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
+                    self.clear_poles(index, j, i)
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, j, i] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, j, i] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, j, i] = np.exp(poles * self.dt)
+                        self.add_poles(index, j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
+                    self.clear_poles(index, i, j)
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, i, j] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, i, j] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, i, j] = np.exp(poles * self.dt)
+                        self.add_poles(index, i, j, poles, -residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 877c95b..67f76dc 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -349,6 +349,7 @@ class MTL():
 
     def update_lr_terms(self):
         
+        self.connectors.set_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -630,9 +631,7 @@ class MTLD:
         
 
         
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
+        pole_terms = []
         d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         
@@ -648,6 +647,9 @@ class MTLD:
                 assert(type(line) == MTL)
                 assert(np.array_equal(self.u,line.u))
             
+                for index, row, col, poles, residues in line.connectors.pole_terms:
+                    pole_terms.append((index, self.number_of_conductors + row, self.number_of_conductors + col, poles, residues))
+
                 conductors += line.l.shape[1]
                 self.number_of_conductors += line.l.shape[1]
 
@@ -660,9 +662,6 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
                     d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
                     e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
                     
@@ -686,9 +685,8 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
+        for index, row, col, poles, residues in pole_terms:
+            self.transfer_impedance.add_poles(index, row, col, poles, residues)
         self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
         self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
 
@@ -808,6 +806,7 @@ class MTLD:
 
     def update_lr_terms(self):
         
+        self.transfer_impedance.set_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
-- 
2.43.0


From 5cb7533ec96b94f772fbde0cc4aa4a2f18b1700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 28/32] fix: use one time step throughout a run

---
 python/src/mtl.py  | 2 ++
 python/src/mtln.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 67f76dc..1ca9fab 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -596,10 +596,12 @@ class MTL():
 
     def run_until(self, finalTime):
         t = self.get_time_range(finalTime)
+        self.compute_terminal_terms()
         self.update_lr_terms()
         self.update_cg_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 254799c..386d879 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,8 +65,8 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
         
         self.compute_nw_v_terms()
         for nw in self.networks:
@@ -77,6 +77,7 @@ class MTLN:
             bundle.update_lr_terms()
             bundle.update_cg_terms()
             for p in bundle.probes:
+                p.dt = self.dt
                 p.resize_frames(len(t), bundle.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From 5018453f23875d3cff749b47c41a349d736dbf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 29/32] fix: accept nested cables without a transfer impedance

---
 python/src/jsonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 348098f..966d0bd 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -288,6 +288,8 @@ class Parser:
     
     def _setBundleTransferImpedance(self, bundle, graph):
         for edge in graph.es:
+            if edge['Zt'] == 0:
+                continue
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
-- 
2.43.0


From 0f457bfaa2dc980232b047d92d2218f770bb83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 30/32] fix: number network conductors the same however often
 the network is added

---
 python/src/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index b2015b6..0ce2290 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -127,6 +127,7 @@ class Network:
         self.connections[connection[0]] = {
             "line_name" : line.name, 
             "line_index" : connection[1], 
+            "conductor" : connection[1], 
             "side" : side_idx, 
             "index": index, 
             "bundle_name" : bundle_name,
@@ -285,7 +286,7 @@ class NetworkD:
                     if line.name == node["line_name"]:
                         break
                     conductors_above += line.number_of_conductors
-                node["line_index"] += conductors_above
+                node["line_index"] = node["conductor"] + conductors_above
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 8d9d60f5198c84c1568d08f3e836c9d1e9f52624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 31/32] fix: refuse probes beyond the far end of a bundle

---
 python/src/mtl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 1ca9fab..4bf3f65 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -793,8 +793,7 @@ class MTLD:
                 probe_in_segment = True
             start += du
 
-        end = start + du
-        if point_in_line(position, start, end):
+        if np.linalg.norm(position - self.u[-1]) < 1e-6:
             probe_in_segment = True
         
         # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-- 
2.43.0


From dd4978d219e2673a8f4d42e755496f2624b77a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 32/32] fix: give every source of a network node its own entry

---
 python/src/networks.py | 44 +++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 0ce2290..25d9055 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -35,18 +34,17 @@ class Network:
         self.nw_v_prev = self.nw_v
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
         self.N1 = np.zeros([self.number_of_state_vars, self.number_of_nodes])
-        self.Ns = np.zeros([self.number_of_state_vars, self.number_of_nodes])
+        self.Ns = np.zeros([self.number_of_state_vars, 0])
         self.O = np.zeros([self.number_of_nodes, self.number_of_state_vars])
 
         self.Q1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Qs = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Qs = np.zeros([self.number_of_nodes, 0])
 
-        self.v_sources = np.empty(shape=(self.number_of_nodes), dtype=object)
-        self.v_sources.fill(lambda t: 0)
+        self.v_sources = np.empty(shape=(0), dtype=object)
 
         
     def _get_number_of_state_vars_in_connector(self, connection):
@@ -134,14 +132,22 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        """ Adds a source and returns its column in Ps, Qs and Ns. """
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.hstack([self.Ps, np.zeros([self.number_of_nodes, 1])])
+        self.Qs = np.hstack([self.Qs, np.zeros([self.number_of_nodes, 1])])
+        self.Ns = np.hstack([self.Ns, np.zeros([self.number_of_state_vars, 1])])
+        return self.v_sources.shape[0] - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
             self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -149,8 +155,8 @@ class Network:
         if (R != 0):
             self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -163,9 +169,9 @@ class Network:
         self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -173,8 +179,8 @@ class Network:
         if (C != 0):
             self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
@@ -192,11 +198,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] =  1/R
+                self.Ps[index2, source] = -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0

