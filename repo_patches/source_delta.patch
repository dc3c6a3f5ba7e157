From 0f2e043ddee21aa2f914411a5a3bd3453f9b0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 01/45] fix: reject signal codes not defined by RINEX, correct
 GLONASS L2OC and NavIC L5 frequencies

---
 src/cssrlib/gnss.py   | 66 ++++++++++++++-----------------------------
 src/cssrlib/rawnav.py |  2 +-
 2 files changed, 22 insertions(+), 46 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..e433fea 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -55,7 +55,7 @@ class rCST():
     FREQ_R2 = 1246.000e6     # [Hz] GLO G2   FDMA center frequency
     FREQ_R2k = 437.500e3     # [Hz] GLO G2   FDMA frequency separation
     FREQ_R1a = 1600.995e6    # [Hz] GLO G1a
-    FREQ_R2a = 1248.065e6    # [Hz] GLO G2a
+    FREQ_R2a = 1248.060e6    # [Hz] GLO G2a
     FREQ_R3 = 1202.025e6     # [Hz] GLO G3
 
     FREQ_E1 = 1575.42e6      # [Hz] GAL E1
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.450e6     # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
@@ -349,6 +349,20 @@ class uTideModel(IntEnum):
     IERS2010 = 2
 
 
+# valid RINEX tracking attributes for each system and frequency band
+sig_att_tbl = {
+    uGNSS.GPS: {'1': 'CSLXPWYMN', '2': 'CDSLXPWYMN', '5': 'IQX'},
+    uGNSS.GLO: {'1': 'CPX', '2': 'CPX', '3': 'IQX', '4': 'ABX', '6': 'ABX'},
+    uGNSS.GAL: {'1': 'ABCXZ', '5': 'IQX', '6': 'ABCXZ', '7': 'IQX',
+                '8': 'IQX'},
+    uGNSS.SBS: {'1': 'C', '5': 'IQX'},
+    uGNSS.QZS: {'1': 'CESLXZB', '2': 'SLX', '5': 'IQXDPZ', '6': 'SLXEZ'},
+    uGNSS.BDS: {'1': 'DPXSLZ', '2': 'IQX', '5': 'DPX', '6': 'IQXDPZ',
+                '7': 'IQXDPZ', '8': 'DPX'},
+    uGNSS.IRN: {'1': 'DPX', '5': 'ABCX', '9': 'ABCX'},
+}
+
+
 class rSigRnx():
     """ class for RINEX signal representation """
 
@@ -470,53 +484,15 @@ class rSigRnx():
 
         # Convert frequency ID
         #
+        if s[1] not in sig_att_tbl.get(sys, {}):
+            raise ValueError
         sig = int(s[1])*100
 
         # Check for valid tracking attribute
         #
         if len(s) == 3:
-            if sys == uGNSS.GPS:
-                if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
-                    raise ValueError
-            elif sys == uGNSS.GLO:
-                if (s[1] == '1' and s[2] not in 'CPX') or \
-                   (s[1] == '2' and s[2] not in 'CPX') or \
-                   (s[1] == '3' and s[2] not in 'IQX') or \
-                   (s[1] == '4' and s[2] not in 'ABX') or \
-                   (s[1] == '6' and s[2] not in 'ABX'):
-                    raise ValueError
-            elif sys == uGNSS.GAL:
-                if (s[1] == '1' and s[2] not in 'ABCXZ') or \
-                   (s[1] == '5' and s[2] not in 'IQX') or \
-                   (s[1] == '6' and s[2] not in 'ABCXZ') or \
-                   (s[1] == '7' and s[2] not in 'IQX') or \
-                   (s[1] == '8' and s[2] not in 'IQX'):
-                    raise ValueError
-            elif sys == uGNSS.SBS:
-                if (s[1] == '1' and s[2] not in 'C') or \
-                   (s[1] == '5' and s[2] not in 'IQX'):
-                    raise ValueError
-            elif sys == uGNSS.QZS:
-                if (s[1] == '1' and s[2] not in 'CESLXZB') or \
-                   (s[1] == '2' and s[2] not in 'SLX') or \
-                   (s[1] == '5' and s[2] not in 'IQXDPZ') or \
-                   (s[1] == '6' and s[2] not in 'SLXEZ'):
-                    raise ValueError
-            elif sys == uGNSS.BDS:
-                if (s[1] == '2' and s[2] not in 'IQX') or \
-                   (s[1] == '1' and s[2] not in 'DPXSLZ') or \
-                   (s[1] == '5' and s[2] not in 'DPX') or \
-                   (s[1] == '7' and s[2] not in 'IQXDPZ') or \
-                   (s[1] == '8' and s[2] not in 'DPX') or \
-                   (s[1] == '6' and s[2] not in 'IQXDPZ'):
-                    raise ValueError
-            elif sys == uGNSS.IRN:
-                if (s[1] == '1' and s[2] not in 'DPX') or \
-                   (s[1] == '5' and s[2] not in 'ABCX') or \
-                   (s[1] == '9' and s[2] not in 'ABCX'):
-                    raise ValueError
+            if s[2] not in sig_att_tbl[sys][s[1]]:
+                raise ValueError
 
             sig += ord(s[2]) - ord('A') + 1
 
@@ -574,7 +550,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..e3d2100 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -2033,7 +2033,7 @@ class rcvDec():
                          rSigRnx('EL8Q'), rSigRnx('EL6C')],
                 uTYP.D: [rSigRnx('ED1C'), rSigRnx('ED5Q'), rSigRnx('ED7Q'),
                          rSigRnx('ED8Q'), rSigRnx('ED6C')],
-                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('GS7Q'),
+                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('ES7Q'),
                          rSigRnx('ES8Q'), rSigRnx('ES6C')],
             }
 
-- 
2.43.0


From 629121253f8064d5442b3d594dd09583410a3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 02/45] fix: pos2ecef no longer modifies the position passed in
 degrees

---
 src/cssrlib/gnss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index e433fea..c1df2ad 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1413,8 +1413,7 @@ def ecef2pos(r):
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
+        pos = [pos[0]*np.pi/180.0, pos[1]*np.pi/180.0, pos[2]]
     s_p = sin(pos[0])
     c_p = cos(pos[0])
     s_l = sin(pos[1])
-- 
2.43.0


From d7297a6d82cc63b5e1e4fb6e82bc99fe5724e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 03/45] fix: elevation of a satellite at the zenith no longer
 raises a domain error

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index c1df2ad..44d1d70 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1477,7 +1477,7 @@ def satazel(pos, e):
     """ calculate az/el from LOS vector in ECEF (e) """
     enu = ecef2enu(pos, e)
     az = atan2(enu[0], enu[1])
-    el = asin(enu[2])
+    el = asin(max(-1.0, min(1.0, enu[2])))
     return az, el
 
 
-- 
2.43.0


From 543778164fffda9e2b0def60837234893235232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 04/45] fix: Compact SSR bias message without network selection
 no longer raises an error

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..8859366 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From c27783e46be623e421a29858471f5bde8ca4ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 05/45] fix: QZSS L1C(P) signal of Compact SSR is no longer
 reported as L1 C/A

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 8859366..601e0f1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From bb801b3a76af7a2d00cbacb33656b4b386ab23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 06/45] fix: SBAS satellites of the Compact SSR mask start at
 PRN 120

---
 src/cssrlib/cssrlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 601e0f1..2d8f8f9 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -610,6 +610,8 @@ class cssr:
             for k in range(0, nsat):
                 if gnss == sGNSS.QZS:
                     prn[k] += 192
+                elif gnss == sGNSS.SBS:
+                    prn[k] += 119
                 elif gnss == sGNSS.BDS3:
                     prn[k] += 18
                 sat = prn2sat(sys, prn[k])
-- 
2.43.0


From 1e6cc4c86370c3ecea5cc681c185e6aa7895639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 07/45] fix: quality index of table values is no longer
 truncated to the next lower step

---
 src/cssrlib/cssrlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 2d8f8f9..6fbf691 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1505,8 +1505,9 @@ class cssre():
 
     def quality2qi(self, y):
         """ convert from quality to quality index (class, value) """
-        n3 = np.log(3)
-        n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        q = y*1000.0+1.0
+        cls_ = 0
+        while cls_ < 7 and q >= 3**(cls_+1)*(1-1e-9):
+            cls_ += 1
+        val_ = min(int((q/3**cls_-1)/0.25+1e-6), 7)
         return cls_, val_
-- 
2.43.0


From 2107505bf95509f4d0199d63f21ae158cc51d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 08/45] fix: atmospheric corrections are available within 5 km
 of a grid point

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 6fbf691..d13efdb 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1311,8 +1311,8 @@ class cssr:
         self.inet_ref = self.grid[idx]['nid']
         if r[idx] < self.rngmin:
             self.ngrid = 1
-            self.grid_index = self.grid['gid'][idx]
-            self.grid_weight = [1]
+            self.grid_index = np.array([self.grid['gid'][idx]])
+            self.grid_weight = np.array([1.0])
         else:
             idn = self.grid['nid'] == self.inet_ref
             rn = r[idn]
-- 
2.43.0


From 15dc04a93ae0fa82308184c330b5ee2716d0b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 09/45] fix: STEC residuals of the gridded correction message
 are applied

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index d13efdb..9ff2b12 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -950,10 +950,11 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
 
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
+        self.lc[inet].flg_stec |= 1  # stec residual term
 
         for j in range(ng):
             if dfm['ttype'] > 0:
-- 
2.43.0


From 6afcee61e9c19215a973d3e0d8b70c0fc0992bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 10/45] fix: atmospheric corrections of a network without grid
 definition no longer raise an error

---
 src/cssrlib/cssrlib.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 9ff2b12..6965a36 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -908,6 +908,16 @@ class cssr:
 
         return i
 
+    def set_mapf(self, inet):
+        """ set mapping function parameters for the location of network """
+        if self.grid is None:
+            return
+        grid = self.grid[self.grid['nid'] == inet]
+        if len(grid) > 0:
+            ah, aw = mapfParam(self.time, grid['lat'][0])
+            self.lc[inet].maph = ah
+            self.lc[inet].mapw = aw
+
     def decode_cssr_grid(self, msg, i):
         """decode MT4073,9 Grid Correction message """
         head, i = self.decode_head(msg, i)
@@ -931,11 +941,7 @@ class cssr:
 
         self.udi[sCType.TROP] = head['udi']
         
-        grid = self.grid[self.grid['nid'] == inet]
-        if len(grid)>0:
-            ah, aw = mapfParam(self.time, grid['lat'][0])
-            self.lc[inet].maph = ah
-            self.lc[inet].mapw = aw
+        self.set_mapf(inet)
 
         self.lc[inet].dth = np.zeros(ng)
         self.lc[inet].dtw = np.zeros(ng)
@@ -1062,10 +1068,7 @@ class cssr:
             i += 6
             self.udi[sCType.TROP] = head['udi']
 
-            grid = self.grid[self.grid['nid'] == inet]
-            ah, aw = mapfParam(self.time, grid['lat'][0])
-            self.lc[inet].maph = ah
-            self.lc[inet].mapw = aw
+            self.set_mapf(inet)
 
         self.lc[inet].ct = np.zeros((2, 4))
 
-- 
2.43.0


From 831efb9dfbd01b8251f9a39e83f8774043efbc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 11/45] fix: Compact SSR orbit, clock and bias messages of
 another mask issue are not applied, hour of epoch is resolved across the hour
 boundary

---
 src/cssrlib/cssrlib.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 6965a36..9bee84f 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -478,6 +478,7 @@ class cssr:
         self.time0 = t
         week, tow = time2gpst(t)
         self.week = week
+        self.tow = tow
         self.tow0 = tow//86400*86400
         return week, tow
 
@@ -554,8 +555,14 @@ class cssr:
         else:
             dtow = bs.unpack_from('u12', msg, i)[0]
             i += 12
-            if self.tow0 >= 0:
-                self.tow = self.tow0+dtow
+            if self.tow0 >= 0:  # resolve hour nearest to the last epoch
+                tow0 = self.tow//3600*3600
+                if tow0+dtow < self.tow-1800:
+                    tow0 += 3600
+                elif tow0+dtow >= self.tow+1800:
+                    tow0 -= 3600
+                self.tow0 = tow0
+                self.tow = tow0+dtow
         if self.week >= 0:
             self.time = gpst2time(self.week, self.tow)
         fmt = 'u4u1u4'
@@ -564,6 +571,12 @@ class cssr:
         i += 9
         return (dfm, i)
 
+    def chk_mask(self, iodssr):
+        """ check if message refers to the active mask """
+        if not self.lc[0].cstat & (1 << sCType.MASK):
+            return False
+        return self.iodssr == iodssr
+
     def decode_cssr_mask(self, msg, i):
         """decode MT4073,1 Mask message """
         head, i = self.decode_head(msg, i, sCSSR.MASK)
@@ -695,6 +708,8 @@ class cssr:
     def decode_cssr_orb(self, msg, i, inet=0):
         """decode MT4073,2 Orbit Correction message """
         head, i = self.decode_head(msg, i)
+        if not self.chk_mask(head['iodssr']):
+            return -1
         self.flg_net = False
         self.udi[sCType.ORBIT] = head['udi']
         self.lc[inet].dorb = {}
@@ -712,13 +727,10 @@ class cssr:
     def decode_cssr_clk(self, msg, i, inet=0):
         """decode MT4073,3 Clock Correction message """
         head, i = self.decode_head(msg, i)
+        if not self.chk_mask(head['iodssr']):
+            return -1
         self.flg_net = False
         self.udi[sCType.CLOCK] = head['udi']
-        # if self.iodssr != head['iodssr']:
-        #    return -1
-
-        if (self.lc[0].cstat & (1 << sCType.MASK)) != (1 << sCType.MASK):
-            return -1
 
         if self.cssrmode == sCSSRTYPE.GAL_HAS_SIS:  # HAS only
             self.dcm = {}
@@ -742,6 +754,8 @@ class cssr:
     def decode_cssr_cbias(self, msg, i, inet=0):
         """decode MT4073,4 Code Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if not self.chk_mask(head['iodssr']):
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.CBIAS] = head['udi']
@@ -762,6 +776,8 @@ class cssr:
     def decode_cssr_pbias(self, msg, i, inet=0):
         """decode MT4073,5 Phase Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if not self.chk_mask(head['iodssr']):
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.PBIAS] = head['udi']
@@ -786,8 +802,8 @@ class cssr:
         nsat = self.nsat_n
         head, i = self.decode_head(msg, i)
 
-        # if self.iodssr != head['iodssr']:
-        #    return -1
+        if not self.chk_mask(head['iodssr']):
+            return -1
         dfm = bs.unpack_from_dict('b1b1b1', ['cb', 'pb', 'net'], msg, i)
         self.flg_net = dfm['net']
         i += 3
-- 
2.43.0


From 61ec65008c2b916d8f97cd3caf89f907e0521a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 12/45] fix: parts of another satellite or beyond a complete
 sub-frame are not appended to an L6 sub-frame

---
 src/cssrlib/cssrlib.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 9bee84f..8cf85b8 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -312,6 +312,7 @@ class cssr:
         self.tow = 0
         self.lc = []
         self.fcnt = -1
+        self.l6src = None
         self.flg_net = False
         self.time = gtime_t()
         self.nsig_max = 0
@@ -1421,11 +1422,19 @@ class cssr:
         l6head = bs.unpack_from_dict(fmt, names, msg, i)
         if l6head['preamble'] != 0x1acffc1d:
             return -1
+        if l6head['vendor'] == 5 and l6head['pt'] >= len(facility_t):
+            return -1
         i += 49
+        if self.fcnt >= 5:  # sub-frame has been completed
+            self.fcnt = -1
+        src = (l6head['prn'], l6head['vendor'])
         if l6head['sid'] == 1:
             self.fcnt = 0
+            self.l6src = src
             self.buff_p = copy.copy(self.buff)
             self.buff = bytearray(250*10)
+        elif src != self.l6src:  # part of other satellite or service
+            return -1
 
         if l6head['vendor'] == 5:  # CLAS
             facility = facility_t[l6head['pt']][l6head['facility']]
-- 
2.43.0


From 41f5c5116bd4978578f44e1683737f4e57c77345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 13/45] fix: HAS pages of other messages, reserved page ids and
 surplus pages do not corrupt the recovered message

---
 src/cssrlib/cssr_has.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..09dafa2 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -162,8 +162,9 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
-        k = len(idx)
-        if k >= ms:
+        if len(idx) >= ms:
+            k = ms
+            idx = idx[:k]
             Wd = self.GF(has_pages[idx, :])  # kx53
             Dinv = np.linalg.inv(self.GF(gMat[idx, :k]))  # kxk
             Md = Dinv@Wd  # decoded message (kx53)
@@ -192,27 +193,35 @@ class cnav_msg():
             # pid: id of the transmitted HAS encoded page
             mt, mid, ms, pid = bs.unpack_from('u2u5u5u8', buff, i)
 
-            self.msgtype = mt
             ms += 1
             i += 20
 
+            # reserved page id or padded page not transmitted
+            if pid == 0 or (pid > ms and pid <= 32):
+                continue
+
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
                 self.ms_ = ms
-            if mid == self.mid_ and pid-1 not in self.rec:
+                self.mt_ = mt
+                self.icnt = 0
+            if mid == self.mid_ and ms == self.ms_ and mt == self.mt_ and \
+                    pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
                 self.rec += [pid-1]
                 self.has_pages[pid-1, :] = page
+                self.icnt = 0
 
             if self.monlevel >= 2:
                 print(f"{mt} {mid} {ms} {pid}")
 
-        if self.ms_ > 0 and len(self.rec) >= self.ms_:
+        if self.mid_ != -1 and len(self.rec) >= self.ms_:
             if self.monlevel >= 2:
                 print(" data collected mid={:2d} ms={:2d} tow={:.0f}"
                       .format(self.mid_, self.ms_, tow))
             HASmsg = self.decode_has_page(
                 self.rec, self.has_pages, self.gMat, self.ms_)
+            self.msgtype = self.mt_
             self.rec = []
 
             self.mid_decoded += [self.mid_]
-- 
2.43.0


From f5632b4d36d1e2ed5175fa5e30b529d760d21de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 14/45] fix: HAS blocks are applied only under the mask they
 refer to, clock subset block is decoded, hour of epoch is nearest to the
 reference time

---
 src/cssrlib/cssr_has.py | 43 ++++++++++++++++++++++++++++-------------
 src/cssrlib/cssrlib.py  |  1 +
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 09dafa2..625182c 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,8 +9,8 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
-from cssrlib.gnss import gpst2time
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
+from cssrlib.gnss import gpst2time, time2gpst
 from binascii import unhexlify
 
 
@@ -38,23 +38,28 @@ class cssr_has(cssr):
     def decode_cssr_clk_sub(self, msg, i=0):
         head, i = self.decode_head(msg, i)
         self.flg_net = False
-        if self.iodssr != head['iodssr']:
-            return -1
+        self.udi[sCType.CLOCK] = head['udi']
 
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
+            sat_s = [sat for k, sat in enumerate(self.sat_n)
+                     if self.gnss_n[k] == gnss]
             mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
             i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss], 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
+                sat = sat_s[idx[k]]
+                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
+                self.lc[0].dclk[sat] = self.sval(
+                    dclk, self.dclk_blen, self.dclk_scl)*(dcm+1)
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
                 i += self.dclk_blen
+
+        self.iodssr_c[sCType.CLOCK] = head['iodssr']
+        self.lc[0].cstat |= (1 << sCType.CLOCK)
         return i
 
     def decode_head(self, msg, i, st=-1):
@@ -68,6 +73,9 @@ class cssr_has(cssr):
 
         if self.tow0 >= 0:
             self.tow = self.tow0+self.toh
+            if self.time0 is not None:  # hour nearest to the reference time
+                _, tow_ref = time2gpst(self.time0)
+                self.tow += round((tow_ref-self.tow)/3600)*3600
             if self.week >= 0:
                 self.time = gpst2time(self.week, self.tow)
 
@@ -86,7 +94,7 @@ class cssr_has(cssr):
         # time of hour
         # flags: mask,orbit,clock,clock subset,cbias,pbias,mask_id,iodset_id
         try:
-            self.toh, flags, res, mask_id, self.iodssr = \
+            toh, flags, res, mask_id, iodssr = \
                 bs.unpack_from('u12u6u4u5u5', msg, i)
         except:
             print(f"invalid content={self.msgtype}")
@@ -95,12 +103,19 @@ class cssr_has(cssr):
 
         if self.monlevel > 0 and self.fh is not None:
             self.fh.write("##### Galileo HAS SSR: TOH{:6d} flags={:12s} mask_id={:2d} iod_s={:1d}\n"
-                          .format(self.toh, bin(flags), mask_id, self.iodssr))
+                          .format(toh, bin(flags), mask_id, iodssr))
+
+        if toh >= 3600:
+            print(f"invalid TOH={toh}")
+            return False
 
-        if self.toh >= 3600:
-            print(f"invalid TOH={self.toh}")
+        # mask of the message shall be active unless it is included
+        if not (flags >> 5) & 1 and mask_id != self.mask_id:
             return False
 
+        self.toh = toh
+        self.iodssr = iodssr
+
         if (flags >> 5) & 1:  # mask block
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
@@ -117,6 +132,7 @@ class cssr_has(cssr):
             if self.monlevel > 0 and self.fh is not None:
                 self.out_log()
         if (flags >> 2) & 1:  # clock subset block
+            self.subtype = sCSSR.CLOCK
             i = self.decode_cssr_clk_sub(msg, i)
         if (flags >> 1) & 1:  # code bias block
             self.subtype = sCSSR.CBIAS
@@ -137,6 +153,7 @@ class cnav_msg():
         self.mid_decoded = []
         self.mid_ = -1
         self.ms_ = -1
+        self.mt_ = -1
         self.rec = []
         self.has_pages = np.zeros((255, 53), dtype=int)
         self.gMat = None
diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 8cf85b8..a6749ad 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -273,6 +273,7 @@ class cssr:
         self.cssrmode = sCSSRTYPE.QZS_CLAS
         self.monlevel = 0
         self.week = -1
+        self.time0 = None
         self.tow0 = -1
         self.iodssr = -1
         self.mask_id = -1
-- 
2.43.0


From 0a7b0f94f3230040c8382664bd3f4fd1219f38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 15/45] fix: HAS clock subset block received before any full
 clock block

---
 src/cssrlib/cssr_has.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 625182c..52dc505 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -40,6 +40,9 @@ class cssr_has(cssr):
         self.flg_net = False
         self.udi[sCType.CLOCK] = head['udi']
 
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
+
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
-- 
2.43.0


From 03f896dbe9a2e5016599e326c9223ef2f19b805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 16/45] fix: undefined PRN numbers are no longer aliased to
 satellites of another constellation

---
 src/cssrlib/gnss.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 44d1d70..059cb81 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1168,24 +1168,26 @@ def tod2tow(tod: float, time0: gtime_t):
 
 
 def prn2sat(sys, prn):
-    """ convert sys+prn to sat """
+    """ convert sys+prn to sat, 0 for undefined satellites """
     if sys == uGNSS.GPS:
-        sat = prn
+        n, ofst, nmax = prn, uGNSS.GPSMIN, uGNSS.GPSMAX
     elif sys == uGNSS.GAL:
-        sat = prn+uGNSS.GALMIN
+        n, ofst, nmax = prn, uGNSS.GALMIN, uGNSS.GALMAX
     elif sys == uGNSS.QZS:
-        sat = prn-192+uGNSS.QZSMIN
+        n, ofst, nmax = prn-192, uGNSS.QZSMIN, uGNSS.QZSMAX
     elif sys == uGNSS.GLO:
-        sat = prn+uGNSS.GLOMIN
+        n, ofst, nmax = prn, uGNSS.GLOMIN, uGNSS.GLOMAX
     elif sys == uGNSS.BDS:
-        sat = prn+uGNSS.BDSMIN
+        n, ofst, nmax = prn, uGNSS.BDSMIN, uGNSS.BDSMAX
     elif sys == uGNSS.SBS:
-        sat = prn-119+uGNSS.SBSMIN
+        n, ofst, nmax = prn-119, uGNSS.SBSMIN, uGNSS.SBSMAX
     elif sys == uGNSS.IRN:
-        sat = prn+uGNSS.IRNMIN
+        n, ofst, nmax = prn, uGNSS.IRNMIN, uGNSS.IRNMAX
     else:
-        sat = 0
-    return sat
+        return 0
+    if n < 1 or n > nmax:
+        return 0
+    return n+ofst
 
 @njit
 def sat2prn(sat):
-- 
2.43.0


From 14f80af490a1fd00f7b071fc6d28ebc93ce339bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 17/45] fix: PPP-B2b combined messages, code biases of
 satellites outside the mask, mask issue of accuracy messages and epoch time

---
 src/cssrlib/cssr_bds.py | 90 +++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..518e97d 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -8,7 +8,8 @@ Precise Point Positioning Service Signal PPP-B2b (Version 1.0), 2020
 import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sGNSS, prn2sat, sCType
-from cssrlib.gnss import bdt2time, bdt2gpst, uGNSS, uSIG, uTYP, rSigRnx
+from cssrlib.gnss import gpst2time, bdt2gpst, timeadd, timediff, uGNSS, uSIG, \
+    uTYP, rSigRnx
 
 
 class cssr_bds(cssr):
@@ -81,7 +82,9 @@ class cssr_bds(cssr):
     def slot2prn(self, slot):
         prn = 0
         sys = uGNSS.NONE
-        if slot >= 1 and slot <= 63:
+        if slot < 1:
+            return sys, prn
+        if slot <= 63:
             prn = slot
             sys = uGNSS.BDS
         elif slot <= 100:
@@ -105,7 +108,11 @@ class cssr_bds(cssr):
         if self.tow0 >= 0:
             self.tow = self.tow0+self.tod
             if self.week >= 0:
-                self.time = bdt2gpst(bdt2time(self.week, self.tow))
+                # epoch time in BDT, day nearest to the reference time
+                self.time = bdt2gpst(gpst2time(self.week, self.tow))
+                if self.time0 is not None:
+                    nd = round(timediff(self.time0, self.time)/86400.0)
+                    self.time = timeadd(self.time, nd*86400.0)
 
         head = {'udi': 0, 'mi': 0, 'iodssr': iodssr}
         return head, i
@@ -125,6 +132,7 @@ class cssr_bds(cssr):
 
     def decode_cssr_mask(self, msg, i):
         """decode MT1 Mask message """
+        iodssr_p = self.iodssr
         head, i = self.decode_head(msg, i, sCSSR.MASK)
 
         self.iodp = bs.unpack_from('u4', msg, i)[0]
@@ -136,7 +144,7 @@ class cssr_bds(cssr):
 
         if self.iodp != self.iodp_p:
             self.sat_n_p = self.sat_n
-            self.iodssr_p = self.iodssr
+            self.iodssr_p = iodssr_p
             self.sig_n_p = self.sig_n
             self.iodp_p = self.iodp
 
@@ -193,7 +201,7 @@ class cssr_bds(cssr):
         if sys == uGNSS.NONE:
             return i
         sat = prn2sat(sys, prn)
-        if sat not in sat_n:
+        if sat == 0 or sat not in sat_n:
             return i
 
         if (sys == uGNSS.GPS) or (sys == uGNSS.BDS):
@@ -249,7 +257,8 @@ class cssr_bds(cssr):
             i += 13
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
-            if sat not in sat_n:
+            if sat == 0 or sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
@@ -282,6 +291,10 @@ class cssr_bds(cssr):
         # note: the sign of the clock correction reversed
         self.lc[inet].dclk[sat] = - \
             self.sval(dclk, self.dclk_blen, self.dclk_scl)
+
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
         return i
 
     def decode_cssr_clk(self, msg, i, inet=0):
@@ -300,9 +313,6 @@ class cssr_bds(cssr):
             if idx < self.nsat_n:
                 sat = self.sat_n[idx]
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
-                if sat not in self.lc[inet].t0:
-                    self.lc[inet].t0[sat] = {}
-                self.lc[inet].t0[sat][sCType.CLOCK] = self.time
 
         self.iodssr_c[sCType.CLOCK] = head['iodssr']
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
@@ -318,6 +328,8 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            return i+70*6
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
@@ -334,47 +346,63 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
-            for k in range(numc):
-                idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
-
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            if self.iodssr == head['iodssr'] and self.iodp == iodp:
+                for k in range(numc):
+                    idx = slot_s+k
+                    if idx >= self.nsat_n:
+                        i += 3+self.dclk_blen
+                        continue
+                    i = self.decode_cssr_clk_sat(msg, i, inet,
+                                                 self.sat_n[idx])
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
+            else:
+                i += numc*(3+self.dclk_blen)
+
+        return self.decode_cssr_comb_orb(msg, i, inet, numo)
+
+    def decode_cssr_comb_orb(self, msg, i, inet, numo):
+        """ decode orbit part of combined messages """
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            if self.iodssr != head['iodssr']:
+                return -1
+            sat_n = np.array(self.sat_n)
             for k in range(numo):
                 i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            self.iodssr_c[sCType.ORBIT] = head['iodssr']
+            self.lc[inet].cstat |= (1 << sCType.ORBIT)
 
         return i
 
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            flg = self.iodssr == head['iodssr']
             for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
+                slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
                 sys, prn = self.slot2prn(slot)
                 sat = prn2sat(sys, prn)
+                if not flg or sat == 0 or sat not in self.sat_n:
+                    i += 3+self.dclk_blen
+                    continue
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            if flg:
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
 
-        if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
-
-        return i
+        return self.decode_cssr_comb_orb(msg, i, inet, numo)
 
     def decode_cssr(self, msg, i=0):
         mt = bs.unpack_from('u6', msg, i)[0]
-- 
2.43.0


From 2187340d558c5d864951d5277e0165e5d4e05a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 18/45] fix: DFMC SBAS integrity, ephemeris and almanac
 messages are attributed to the satellite of the slot, reference time of PVS
 corrections

---
 src/cssrlib/cssr_pvs.py | 11 +++----
 src/cssrlib/sbas.py     | 66 +++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 2416174..730be0e 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -19,7 +19,8 @@ import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, prn2sat, sCType
 from cssrlib.cssrlib import sat2id
-from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst
+from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst, \
+    tod2tow
 from binascii import unhexlify
 
 
@@ -126,9 +127,9 @@ class cssr_pvs(cssr):
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-        tow = self.tow0 + t0*16.0
-        self.time = self.adjust_time_week(
-            gpst2time(self.week, tow), self.time0)
+        # reference time on the day nearest to the reception
+        self.time = tod2tow(t0*16.0, self.time0)
+        _, tow = time2gpst(self.time)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
@@ -146,7 +147,7 @@ class cssr_pvs(cssr):
         self.iodssr = 0
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
         self.lc[0].t0[sat] = {
-            sCType.CLOCK: self.time0, sCType.ORBIT: self.time0}
+            sCType.CLOCK: self.time, sCType.ORBIT: self.time}
 
         self.iodssr_c[sCType.CLOCK] = self.iodssr
         self.iodssr_c[sCType.ORBIT] = self.iodssr
diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..875b00b 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -250,6 +250,7 @@ class sbasDec(cssr):
         self.nsig_max = 0
         self.sat_n = []
         self.sat = []
+        self.sat_m = []
 
         self.lc[0].dclk = {}
         self.lc[0].hclk = {}
@@ -368,9 +369,7 @@ class sbasDec(cssr):
 
     def sval(self, u, n, scl):
         """ calculate signed value based on n-bit int, lsb """
-        invalid = 2**(n-1)-1
-        y = np.nan if u == invalid else u*scl
-        return y
+        return u*scl  # no value is reserved for invalid
 
     def slot2sat(self, slot):
         """ convert from satellite slot to satellite number """
@@ -761,7 +760,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
@@ -834,12 +833,13 @@ class sbasDec(cssr):
         for prn in prn_qzs:
             self.sat_n.append(prn2sat(uGNSS.QZS, prn))
         self.nsat = len(self.sat_n)
+        self.sat_m = self.sat_n.copy()  # satellites in order of the mask
 
         return i
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -855,31 +855,32 @@ class sbasDec(cssr):
             i += 4
 
         k = 0
-        for j in range(self.nsat):
-            sat = self.sat_n[j]
+        for j in range(min(len(self.sat_m), 92)):
+            sat = self.sat_m[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
             elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+                if self.obad.dfrei.get(sat, 15) < 14:
+                    self.obad.dfrei[sat] += 1
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < len(self.sat_m):
+                self.obad.dfrei[self.sat_m[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -887,13 +888,15 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
-        for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+        for k in range(53, 92):
+            if k < len(self.sat_m):
+                self.obad.dfrei[self.sat_m[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         i += 60
         return i
@@ -944,15 +947,18 @@ class sbasDec(cssr):
         i += 162
         af0, af1 = bs.unpack_from('s25s16', msg, i)
         i += 41
+        self.iodg = -1
+        sat = prn2sat(uGNSS.SBS, slotd+119)
+        if slotd == 0 or sat == 0:
+            return i
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
@@ -976,7 +982,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
@@ -1001,6 +1007,9 @@ class sbasDec(cssr):
                 i += 94
                 continue
             sat = prn2sat(uGNSS.SBS, slotd+119)
+            if sat == 0:
+                i += 94
+                continue
 
             a, e, i0, omg, OMG0, OMGd, M0, ta = \
                 bs.unpack_from('u16u8u13s14s14s8s15u6', msg, i)
@@ -1012,7 +1021,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
@@ -1022,8 +1031,11 @@ class sbasDec(cssr):
         return i
 
     def add_dfmc_corr(self, slot, iodn, dx, dy, dz, db,
-                      dxd=0, dyd=0, dzd=0, dbd=0):
+                      dxd=0, dyd=0, dzd=0, dbd=0, t0=None):
         sat = self.slot2sat(slot)
+        if sat == 0:
+            return sat
+
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
@@ -1043,8 +1055,10 @@ class sbasDec(cssr):
         self.lc[0].ddft[sat] = self.sval(dbd, 9, rCST.P2_12)
 
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
-        self.lc[0].t0[sat] = {
-            sCType.CLOCK: self.time0, sCType.ORBIT: self.time0}
+        if t0 is None:
+            t0 = self.time
+        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
 
         return sat
 
@@ -1062,7 +1076,7 @@ class sbasDec(cssr):
         dxd, dyd, dzd, dbd, t0 = bs.unpack_from('s8s8s8s9u13', msg, i)
         i += 46
 
-        self.time0 = tod2tow(t0*16.0, self.time)
+        tref = tod2tow(t0*16.0, self.time)
 
         i, C, scl = self.decode_cov(msg, i)
 
@@ -1070,7 +1084,7 @@ class sbasDec(cssr):
         i += 8
 
         sat = self.add_dfmc_corr(
-            slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
+            slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd, tref)
 
         if sat == 0:
             if self.monlevel > 0:
-- 
2.43.0


From 39a6b39d0f0bec4af40209ef8c294209ae9e111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 19/45] fix: L1 SBAS corrections are attributed to the
 satellite of the mask position, mixed and half messages, scale factors

---
 src/cssrlib/sbas.py | 65 ++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 875b00b..e5c3ac6 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -437,15 +437,15 @@ class sbasDec(cssr):
             fc = bs.unpack_from('s12', msg, i)[0]
             i += 12
             j = type_*13+k
-            if j >= len(self.sat):
-                break
-            self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
+            if j >= len(self.sat) or self.sat[j] == 0:
+                continue
+            self.lc[0].hclk[self.sat[j]] = self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
-            if j >= len(self.sat):
-                break
+            if j >= len(self.sat) or self.sat[j] == 0:
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
@@ -471,9 +471,9 @@ class sbasDec(cssr):
         iodf2, iodf3, iodf4, iodf5 = bs.unpack_from('u2u2u2u2', msg, i)
         i += 8
         for k in range(51):
-            if k >= len(self.sat):
-                break
-            self.obad.udrei[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
+            if k < len(self.sat) and self.sat[k] > 0:
+                self.obad.udrei[self.sat[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         return i
 
@@ -485,9 +485,8 @@ class sbasDec(cssr):
             i += 204
             return i
         for k in range(51):
-            if k >= len(self.sat):
-                break
-            self.ai[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
+            if k < len(self.sat) and self.sat[k] > 0:
+                self.ai[self.sat[k]] = bs.unpack_from('u4', msg, i)[0]
             i += 4
         return i
 
@@ -540,7 +539,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
@@ -560,7 +559,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
@@ -573,6 +572,8 @@ class sbasDec(cssr):
                 continue
 
             sat = prn2sat(uGNSS.SBS, prn)
+            if sat == 0:
+                continue
             alm = Salm(sat)
 
             alm.svh = svh
@@ -613,9 +614,11 @@ class sbasDec(cssr):
         return i
 
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
-                      dxd=0, dyd=0, dzd=0, dbd=0):
-        """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+                      dxd=0, dyd=0, dzd=0, dbd=0, t0=None):
+        """ add SBAS long-term correction for the slot-th satellite of mask """
+        if slot < 1 or slot > len(self.sat) or self.sat[slot-1] == 0:
+            return 0
+        sat = self.sat[slot-1]
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
@@ -635,8 +638,10 @@ class sbasDec(cssr):
 
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
 
-        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=self.time)
-        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=self.time)
+        if t0 is None:
+            t0 = self.time
+        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
         return sat
 
     def decode_sbas_lcorr_half(self, msg, i):
@@ -647,6 +652,7 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
+            i += 105
             return i
 
         if vc == 0:
@@ -658,16 +664,17 @@ class sbasDec(cssr):
                     self.add_sbas_corr(slot, iodn, dx, dy, dz, db)
 
             # iodp = bs.unpack_from('u2', msg, i)[0]
-            i += 3
+            i += 3  # iodp(2), spare(1)
         else:
             slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd = bs.unpack_from(
                 'u6u8s11s11s11s11s8s8s8s8', msg, i)
             i += 90
-            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
-
             toa = bs.unpack_from('u13', msg, i)[0]
             i += 15
 
+            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd,
+                               tod2tow(toa*16.0, self.time))
+
         self.iodssr_c[sCType.CLOCK] = iodp
         self.iodssr_c[sCType.ORBIT] = iodp
 
@@ -684,6 +691,7 @@ class sbasDec(cssr):
             return i
 
         i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 10  # iodp(2), type(2), iodf(2), spare(4)
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
@@ -740,15 +748,16 @@ class sbasDec(cssr):
         self.sinfo.dUDRE_out = dudre2
 
         for k in range(5):
-            lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
-            i += 34
+            lat1, lon1, lat2, lon2, shape = bs.unpack_from(
+                's8s9s8s9u1', msg, i)
+            i += 35
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
+            self.sinfo.shape[k] = shape
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
@@ -778,7 +787,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            if slot < 1 or slot > len(self.sat) or self.sat[slot-1] == 0:
+                continue
+            sat = self.sat[slot-1]
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From c6eeb4ba2b1a2afbe6de481b8d87542ca312ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 20/45] fix: SBAS ionospheric delays of a replaced grid mask or
 unmonitored grid points are not used, GIVEI 0 is valid, pierce points across
 the date line

---
 src/cssrlib/sbas.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index e5c3ac6..ff17b9e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -90,6 +90,8 @@ def searchIGP(t, posp, cs):
 
     if lon >= 180.0:
         lon -= 360.0
+    elif lon < -180.0:
+        lon += 360.0
 
     if lat >= -55.0 and lat < 55.0:
         latp[0] = lat//5*5
@@ -132,7 +134,8 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if len(cs.givei[band]) <= k or cs.givei[band][k] >= 15 or \
+                    np.isnan(cs.vtec[band][k]):  # not monitored or don't use
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
@@ -153,7 +156,7 @@ def ionoSBAS(t, pos, az, el, cs):
     idx_t = [[1, 2, 0], [0, 3, 2], [0, 3, 1], [1, 2, 3]]
 
     if pos[2] < -100.0 or el <= 0.0:
-        return None
+        return diono, var
 
     # ipp (ionospheric pierce point) position and slant factor
     sf, posp = ionppp(pos, az, el, re, hion)
@@ -272,6 +275,7 @@ class sbasDec(cssr):
 
         # iono
         self.igp_idx = {}
+        self.igp_iodi = {}
         self.vtec = {}
         self.givei = {}
         self.t0_igp = gtime_t()
@@ -601,15 +605,15 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
-        self.igp_idx[band] = idx
         self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
-            self.vtec[band] = np.zeros(ngp)
-
-        if band not in self.givei:
-            self.givei[band] = np.zeros(ngp, dtype=int)
+        # delays of a replaced mask are not valid for the new one
+        if self.igp_iodi.get(band) != iodi or self.igp_idx[band] != idx:
+            self.igp_idx[band] = idx
+            self.igp_iodi[band] = iodi
+            self.vtec[band] = np.full(ngp, np.nan)
+            self.givei[band] = np.full(ngp, 15, dtype=int)  # not monitored
 
         return i
 
@@ -704,14 +708,11 @@ class sbasDec(cssr):
     def decode_sbas_iono(self, msg, i):
         """ Type 26 Ionospheric delay message """
         iodi = bs.unpack_from('u2', msg, i+203)[0]
-        if iodi != self.iodi:
+        band, bid = bs.unpack_from('u4u4', msg, i)
+        if iodi != self.igp_iodi.get(band):
             i += 212
             return i
-        band, bid = bs.unpack_from('u4u4', msg, i)
         i += 8
-        if band not in self.vtec:
-            i += 204
-            return i
 
         nigp = len(self.vtec[band])
 
-- 
2.43.0


From 75ddd489b8eb38473484ddc64b7069395ec4157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 21/45] fix: SLAS station messages with unused entries,
 stations above 32, satellites without issue of data and corrections of
 another station or mask

---
 src/cssrlib/dgps.py | 49 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..977fb7b 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -44,22 +44,23 @@ def vardgps(el, nav):
 class dgpsDec(cssr):
     MAX_ST = 64
     MAX_SAT = 23
+    MAXNET = 64  # station code 0-63 (inet=code+1)
 
     def __init__(self, foutname=None, year=0):
         super().__init__(foutname)
-        self.MAXNET = 1
         self.cssrmode = sCSSRTYPE.DGPS
         self.nsig_max = 0
         self.sat_n = []
 
         self.sat = []
 
-        self.lc[0].dclk = {}
-        self.lc[0].ddft = {}
-        self.lc[0].dorb = {}
-        self.lc[0].dvel = {}
-        self.lc[0].iode = {}
-        self.lc[0].t0 = {}
+        for lc in self.lc:
+            lc.dclk = {}
+            lc.ddft = {}
+            lc.dorb = {}
+            lc.dvel = {}
+            lc.iode = {}
+            lc.t0 = {}
 
         self.tmax = {sCType.CLOCK: 120.0, sCType.ORBIT: 120.0}
 
@@ -74,6 +75,10 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.iodp_i = -1  # issue of mask the issue of data refers to
+        self.iodn = {}
+        self.nsat = 0
+        self.svh = {}
 
         self.baselen = 0  # baseline length [km]
 
@@ -139,6 +144,7 @@ class dgpsDec(cssr):
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
             if code == 63:
+                i += 42
                 continue
             self.posr[code, 0] = lat*0.005
             self.posr[code, 1] = lon*0.005+115
@@ -188,6 +194,7 @@ class dgpsDec(cssr):
         self.iodn = {}
 
         self.iodi = iodi  # issue of data
+        self.iodp_i = iodp
         for k in range(23):
             if (mask >> (23-k-1)) & 1 == 0 or k >= self.nsat:
                 continue
@@ -203,7 +210,8 @@ class dgpsDec(cssr):
         """ decode DGPS correction """
         iodp, iodi, code, h, mask_s = bs.unpack_from('u2u2u6u1u23', msg, i)
         i += 34
-        if iodp != self.iodp or iodi != self.iodi or h == 1:
+        if iodp != self.iodp or iodp != self.iodp_i or \
+                iodi != self.iodi or h == 1:
             return i
 
         nsat = 0
@@ -227,6 +235,12 @@ class dgpsDec(cssr):
 
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
+            nsat += 1
+
+            if sat not in self.iodn:  # issue of data not available
+                if nsat >= 14:
+                    break
+                continue
 
             self.lc[inet].sat_n.append(sat)
             self.lc[inet].iode[sat] = self.iodn[sat]
@@ -235,8 +249,7 @@ class dgpsDec(cssr):
             self.set_t0(ctype=sCType.CLOCK, sat=sat, inet=inet, t=self.time)
             self.set_t0(ctype=sCType.ORBIT, sat=sat, inet=inet, t=self.time)
 
-            nsat += 1
-            if nsat > 14:
+            if nsat >= 14:
                 break
 
         self.iodp_c[inet] = iodp
@@ -305,12 +318,12 @@ class dgpsDec(cssr):
         refid, rmin = self.get_station(rr)
         baselen = rmin*1e-3  # baseline length [km]
         self.inet = refid+1
-        if len(self.lc[self.inet].sat_n) > 0:
-            self.sat_n = self.lc[self.inet].sat_n
-            self.iodssr_c[sCType.ORBIT] = self.iodp_c[self.inet]
-            self.iodssr_c[sCType.CLOCK] = self.iodp_c[self.inet]
-            self.lc[0].t0 = self.lc[self.inet].t0
-            self.lc[0].iode = self.lc[self.inet].iode
-            self.lc[0].dclk = self.lc[self.inet].dclk
-            self.lc[0].dorb = self.lc[self.inet].dorb
+        self.sat_n = self.lc[self.inet].sat_n
+        iodp = self.iodp_c[self.inet] if self.inet in self.iodp_c else -1
+        self.iodssr_c[sCType.ORBIT] = iodp
+        self.iodssr_c[sCType.CLOCK] = iodp
+        self.lc[0].t0 = self.lc[self.inet].t0
+        self.lc[0].iode = self.lc[self.inet].iode
+        self.lc[0].dclk = self.lc[self.inet].dclk
+        self.lc[0].dorb = self.lc[self.inet].dorb
         return baselen
-- 
2.43.0


From 3ff6bbd35495fe8d0376d271d4e0c743e2635c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 22/45] fix: early warning reports with undefined codes, event
 times across month and year boundaries, tsunami arrival times, multi-page
 texts and hazard details no longer fail or are misreported

---
 src/cssrlib/dgps.py |   2 +
 src/cssrlib/ewss.py | 412 +++++++++++++++++++++++---------------------
 2 files changed, 220 insertions(+), 194 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 977fb7b..128b3e2 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -125,6 +125,7 @@ class dgpsDec(cssr):
 
     def decode_mt43(self, msg, i):
         """ decode DC report by JMA (TBD) """
+        self.dcr.time = self.time
         i = self.dcr.decode(msg, i)
         return i
 
@@ -134,6 +135,7 @@ class dgpsDec(cssr):
         i += 10
         if self.monlevel >= 1:
             print(f"MT44 DCX sd={sdmt} {sdm}")
+        self.dcx.time = self.time
         i = self.dcx.decode(msg, i)
         i = self.dcx.decode_ext(msg, i)
         return i
diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..ae7bf9c 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -16,7 +16,7 @@ Emergency Warning Satellite Service (EWSS) Decoder
 
 import bitstruct as bs
 from cssrlib.gnss import time2str, epoch2time, time2epoch, timeadd, \
-    time2gpst, gpst2time, utc2gpst, gtime_t
+    time2gpst, gpst2time, utc2gpst, gtime_t, timediff
 from enum import IntEnum
 import json
 import numpy as np
@@ -185,6 +185,12 @@ class ewsDec():
     def decode(self, msg, i):
         None
 
+    def lookup(self, tbl, code):
+        """ text for the code, None if the code is not defined """
+        if isinstance(tbl, dict):
+            return tbl.get(code)
+        return tbl[code] if code < len(tbl) else None
+
     def add_day(self, month, day, nday=0):
         t0 = epoch2time([self.year, month, day, 0, 0, 0.0])
         t1 = timeadd(t0, nday*86400.0)
@@ -216,7 +222,7 @@ class jmaDec(ewsDec):
                        12: 'JMA Typhoon',
                        14: 'JMA Marine'}
 
-        self.itype_t = {0: 'Issue', 2: 'Cancellation'}
+        self.itype_t = {0: 'Issue', 1: 'Correction', 2: 'Cancellation'}
 
         self.co_t = self.load_msg('tab4_1_2_6.txt')
 
@@ -262,12 +268,43 @@ class jmaDec(ewsDec):
         self.reg_m_t = self.load_msg('tab4_1_2_53.txt')
 
         self.pidx = 0
-        self.msg = bytearray(512)
+        self.msg = bytearray(63*18)
 
         self.te = gtime_t()
         self.pos = np.array([])
         self.params = None
         self.vn = -1  # version
+        self.tid = None  # identifier of multi-page text
+
+    def set_report_time(self, month, day, hour, minute):
+        """ set report time using the year closest to reception time """
+        ep = time2epoch(self.time)
+        t = [epoch2time([year, month, day, hour, minute, 0.0])
+             for year in range(max(ep[0]-1, 1970), ep[0]+2)]
+        self.ta = min(t, key=lambda t_: abs(timediff(t_, self.time)))
+        self.year, self.month = time2epoch(self.ta)[0:2]
+
+    def day2time(self, day, hour, minute):
+        """ day of month to the time closest to the report time """
+        ep = time2epoch(self.ta)
+        t = []
+        for k in range(-1, 2):
+            year, month = ep[0]+(ep[1]-1+k)//12, (ep[1]-1+k) % 12+1
+            tc = epoch2time([year, month, day, hour, minute, 0.0])
+            if year >= 1970 and \
+                    (k == 0 or time2epoch(epoch2time(
+                        [year, month, day, 0, 0, 0.0]))[2] == day):
+                t.append(tc)
+        return min(t, key=lambda t_: abs(timediff(t_, self.ta)))
+
+    def arrival2time(self, d, hour, minute):
+        """ arrival time (d=0: day of report, d=1: next day), None if it is
+        not available """
+        if hour > 23 or minute > 59:
+            return None
+        ep = time2epoch(self.ta)
+        t0 = epoch2time([ep[0], ep[1], ep[2], hour, minute, 0.0])
+        return timeadd(t0, d*86400.0)
 
     def decode_jma_earthquake(self, msg, i):
         """ JMA Earthquake """
@@ -280,9 +317,9 @@ class jmaDec(ewsDec):
         i += 6
 
         if lgL1 == lgU1:
-            long_ = f"{self.longm_t[lgL1]}"
+            long_ = f"{self.lookup(self.longm_t, lgL1)}"
         else:
-            long_ = f"{self.longm_t[lgL1]}{self.longm_t[lgU1]}"
+            long_ = f"{self.lookup(self.longm_t, lgL1)}{self.lookup(self.longm_t, lgU1)}"
 
         co_ = []
         for k in range(3):
@@ -299,9 +336,9 @@ class jmaDec(ewsDec):
         i += 18
 
         if L1 == U1:
-            int_ = f"{self.sil_t[L1]}"
+            int_ = f"{self.lookup(self.sil_t, L1)}"
         else:
-            int_ = f"{self.sil_t[L1]}{self.siu_t[U1]}"
+            int_ = f"{self.lookup(self.sil_t, L1)}{self.lookup(self.siu_t, U1)}"
 
         reg_ = []
         for k in range(80):
@@ -314,28 +351,25 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Earthquake ({self.itype_t[self.it]}) " +
+            print(f"Earthquake ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
             for k in range(3):
                 if co_[k] > 0:
-                    print(f"{self.co_t[co_[k]]}")
+                    print(f"{self.lookup(self.co_t, co_[k])}")
 
             print(f"occurance time: {month}/{d1} {h1:2d}:{m1:02d}")
             print(f"depth={de}km mag={ma:.1f}")
             print(f"{long_}")
-            print(f"epicenter:{self.ep_t[ep]} {int_}")
+            print(f"epicenter:{self.lookup(self.ep_t, ep)} {int_}")
 
             s_ = ""
             for reg in reg_:
-                s_ += self.pre_t[reg]+" "
+                s_ += f"{self.lookup(self.pre_t, reg)} "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         self.params = []
         self.params.append(reg_)
@@ -379,21 +413,19 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Epicenter ({self.itype_t[self.it]})" +
+            print(f"Epicenter ({self.lookup(self.itype_t, self.it)})" +
                   f" {month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
             for k in range(3):
                 if co_[k] > 0:
-                    print(f"{self.co_t[co_[k]]}")
+                    print(f"{self.lookup(self.co_t, co_[k])}")
 
             print(f"occurance time: {month}/{d1} {h1:2d}:{m1:02d}")
             print(f"depth={de}km mag={ma:.1f}")
-            print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
+            print(f"epicenter:{self.lookup(self.ep_t, ep)} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         self.pos = [lat, lon]
 
@@ -429,18 +461,15 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Intensity ({self.itype_t[self.it]})" +
+            print(f"Intensity ({self.lookup(self.itype_t, self.it)})" +
                   f" {month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
             print(f"occurance time: {month}/{d1} {h1:2d}:{m1:02d}")
             for k, reg in enumerate(reg_):
-                print(f"{self.mag_i_t[es_[k]]} {self.pre_i_t[reg]}")
+                print(f"{self.lookup(self.mag_i_t, es_[k])} {self.lookup(self.pre_i_t, reg)}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         self.params = []
         self.params.append(es_)
@@ -463,23 +492,27 @@ class jmaDec(ewsDec):
         pn, pm = bs.unpack_from('u6u6', msg, i)
         i += 13
 
-        self.pidx |= 1 << (pn-1)
-        self.msg[(pn-1)*18:pn*18] = txt
-
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
 
+        tid = (month, day, hour, minute, self.it, is_, pm, self.vn)
+        if tid != self.tid:  # page of a new text
+            self.tid = tid
+            self.pidx = 0
+            self.msg = bytearray(63*18)
+
+        if pn > 0:
+            self.pidx |= 1 << (pn-1)
+            self.msg[(pn-1)*18:pn*18] = txt
+
         if self.monlevel > 0:
-            print(f"Nankai Trough Earthquake ({self.itype_t[self.it]}) " +
-                  f"{self.isc_t[is_]} " +
+            print(f"Nankai Trough Earthquake ({self.lookup(self.itype_t, self.it)}) " +
+                  f"{self.lookup(self.isc_t, is_)} " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d} {pn}/{pm}")
             if self.pidx == (1 << pm)-1:
-                print(self.msg.decode('utf-8'))
+                print(self.msg[:pm*18].decode('utf-8', 'replace'))
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
 
         self.params = []
         self.params.append(txt)
@@ -495,7 +528,7 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Tsunami ({self.itype_t[self.it]}) " +
+            print(f"Tsunami ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
         co_ = []
@@ -507,19 +540,16 @@ class jmaDec(ewsDec):
 
             if self.monlevel > 0:
                 if co > 0 and co in self.co_t:
-                    print(f"{self.co_t[co]}")
+                    print(f"{self.lookup(self.co_t, co)}")
 
         dw = bs.unpack_from('u4', msg, i)[0]
         i += 4
 
         if self.monlevel > 0:
-            if dw > 0 and dw in self.dw_t:
-                print(f"{self.dw_w_t[dw]}")
+            if dw > 0 and dw in self.dw_w_t:
+                print(f"{self.lookup(self.dw_w_t, dw)}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
 
         self.tb = []
         self.params = []
@@ -535,14 +565,14 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            tb = self.arrival2time(d, h, m)
             self.tb.append(tb)
 
             self.params.append([th, reg])
 
             if self.monlevel > 0:
                 print(f"{d} {h:2d}:{m:02d} " +
-                      f"{self.th_w_t[th]} {self.reg_w_t[reg]}")
+                      f"{self.lookup(self.th_w_t, th)} {self.lookup(self.reg_w_t, reg)}")
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -555,6 +585,8 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        self.set_report_time(month, day, hour, minute)
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -565,7 +597,7 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            tb = self.arrival2time(d, h, m)
             self.tb.append(tb)
             self.params.append([th, reg])
 
@@ -578,11 +610,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-
         return i
 
     def decode_jma_volcano(self, msg, i):
@@ -608,19 +635,16 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Volcano ({self.itype_t[self.it]}) " +
+            print(f"Volcano ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
             print(f"du={du} activity time: {month}/{d1} {h1:2d}:{m1:02d}")
-            print(f"{self.dw_v_t[dw]} {self.vo_t[vo]}")
+            print(f"{self.lookup(self.dw_v_t, dw)} {self.lookup(self.vo_t, vo)}")
 
             for reg in reg_:
-                print(self.reg_v_t[reg])
+                print(self.lookup(self.reg_v_t, reg))
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         self.params = [du, dw, vo]
         self.params.append(reg_)
@@ -637,15 +661,15 @@ class jmaDec(ewsDec):
         d1, h1, m1, dw1, vo = bs.unpack_from('u5u5u6u2u12', msg, i)
         i += 30
 
-        vo_ = self.vo_t[vo]
+        vo_ = self.lookup(self.vo_t, vo)
 
         self.dw1_t = {1: "Ash Fall Forecast (Preliminary)",
                       2: "Ash Fall Forecast (Detailed)"}
 
         if self.monlevel > 0:
-            print(f"Ash Fall ({self.itype_t[self.it]}) " +
+            print(f"Ash Fall ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
-            print(f" {month}/{d1} {h1:2d}:{m1:02d} {self.dw1_t[dw1]} {vo_}")
+            print(f" {month}/{d1} {h1:2d}:{m1:02d} {self.lookup(self.dw1_t, dw1)} {vo_}")
 
         self.params = [dw1, vo]
         for k in range(4):
@@ -653,16 +677,13 @@ class jmaDec(ewsDec):
             i += 29
             if reg > 0:
                 self.params.append([ho, dw2, reg])
-                reg_ = self.reg_v_t[reg]
-                dw_ = self.dw_t[dw2]
+                reg_ = self.lookup(self.reg_v_t, reg)
+                dw_ = self.lookup(self.dw_t, dw2)
                 if self.monlevel > 0:
                     print(f"{ho}h {dw_} {reg_}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         i += 15
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -680,9 +701,9 @@ class jmaDec(ewsDec):
         self.ar_t = {1: "issue", 2: "cansellation"}
 
         if self.monlevel > 0:
-            print(f"Weather ({self.itype_t[self.it]}) " +
+            print(f"Weather ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d} " +
-                  f"{self.ar_t[ar]}")
+                  f"{self.lookup(self.ar_t, ar)}")
 
         self.params = [ar]
         for k in range(6):
@@ -693,12 +714,9 @@ class jmaDec(ewsDec):
 
             self.params.append([ww, pl])
             if self.monlevel > 0:
-                print(f"{self.ww_t[ww]} {self.reg_ww_t[pl]}")
+                print(f"{self.lookup(self.ww_t, ww)} {self.lookup(self.reg_ww_t, pl)}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
 
         i += 14  # spare 2
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -713,7 +731,7 @@ class jmaDec(ewsDec):
         i += 12
 
         if self.monlevel > 0:
-            print(f"Flood ({self.itype_t[self.it]}) " +
+            print(f"Flood ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
         self.params = []
@@ -727,14 +745,11 @@ class jmaDec(ewsDec):
             self.params.append([lv, reg])
 
             if self.monlevel > 0:
-                print(f"{self.lv_t[lv]} {self.reg_fl_t[reg]}")
+                print(f"{self.lookup(self.lv_t, lv)} {self.lookup(self.reg_fl_t, reg)}")
 
         i += 29
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -780,17 +795,13 @@ class jmaDec(ewsDec):
         i += 71
 
         if self.monlevel > 0:
-            print(f"Typhoon ({self.itype_t[self.it]}) #{tn} ({sr}/{ic}) " +
+            print(f"Typhoon ({self.lookup(self.itype_t, self.it)}) #{tn} ({sr}/{ic}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d} " +
-                  f"{month}/{d1} {h1:2d}:{m1:02d} {self.dt_tp_t[dt]} {du}h " +
+                  f"{month}/{d1} {h1:2d}:{m1:02d} {self.lookup(self.dt_tp_t, dt)} {du}h " +
                   f"lat={lat:.4f} lon={lon:.4f} pr={pr} w1={w1} w2={w2}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
-
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.set_report_time(month, day, hour, minute)
+        self.tb = self.day2time(d1, h1, m1)
 
         self.pos = np.array([lat, lon])
         self.params = [dt, du, tn, sr, ic, pr, w1, w2]
@@ -806,13 +817,10 @@ class jmaDec(ewsDec):
         self.it = bs.unpack_from('u2', msg, i)[0]
         i += 12
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = month
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.set_report_time(month, day, hour, minute)
 
         if self.monlevel > 0:
-            print(f"Manine ({self.itype_t[self.it]}) " +
+            print(f"Manine ({self.lookup(self.itype_t, self.it)}) " +
                   f"{month:2d}/{day:02d} {hour:2d}:{minute:02d}")
 
         # dw: warning code #1-8
@@ -826,7 +834,7 @@ class jmaDec(ewsDec):
                 continue
             self.params.append([dw, reg])
             if self.monlevel > 0:
-                print(f"{self.dw_m_t[dw]} {self.reg_m_t[reg]}")
+                print(f"{self.lookup(self.dw_m_t, dw)} {self.lookup(self.reg_m_t, reg)}")
 
         i += 9
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -838,27 +846,27 @@ class jmaDec(ewsDec):
         msg = ""
 
         if dc == 12:  # typhoon
-            msg = f"Typhoon ({self.itype_t[self.it]})\n"
+            msg = f"Typhoon ({self.lookup(self.itype_t, self.it)})\n"
             msg += f" report time: {time2str(self.ta)}\n"
             msg += f" typhoon #{self.params[2]}\n"
             msg += f" reference time: {time2str(self.tb)}\n"
-            msg += f" reference type: {self.dt_tp_t[self.params[0]]}\n"
+            msg += f" reference type: {self.lookup(self.dt_tp_t, self.params[0])}\n"
             msg += f" elapsed time: {self.params[1]}h\n"
             if self.params[3] > 0:
-                msg += f" magnitute: {self.sr_t[self.params[3]]}\n"
+                msg += f" magnitute: {self.lookup(self.sr_t, self.params[3])}\n"
             if self.params[4] > 0:
-                msg += f" intensity: {self.ic_t[self.params[4]]}\n"
+                msg += f" intensity: {self.lookup(self.ic_t, self.params[4])}\n"
             msg += f" lat/lon: {self.pos[0]:.4f}/{self.pos[1]:.4f}\n"
             msg += f" central pressure: {self.params[5]} hPa\n"
             msg += f" maximum wind: {self.params[6]} m/s\n"
             msg += f" maximum instant wind: {self.params[7]} m/s\n"
 
         if dc == 14:  # marine
-            msg = f"Marine ({self.itype_t[self.it]})\n"
+            msg = f"Marine ({self.lookup(self.itype_t, self.it)})\n"
             msg += f" report time: {time2str(self.ta)}\n"
             for dw, reg in self.params:
-                msg += f" code: {self.dw_m_t[dw]}\t"
-                msg += f" region: {self.reg_m_t[reg]}\n"
+                msg += f" code: {self.lookup(self.dw_m_t, dw)}\t"
+                msg += f" region: {self.lookup(self.reg_m_t, reg)}\n"
 
         return msg
 
@@ -872,8 +880,11 @@ class jmaDec(ewsDec):
                 self.rc not in self.rc_m_t.keys():
             return -1
 
+        self.tb = None
+        self.pos = np.array([])
+
         if self.monlevel > 0:
-            print(f"[DCR] {self.rc_m_t[self.rc]} {self.dc_m_t[self.dc]}")
+            print(f"[DCR] {self.lookup(self.rc_m_t, self.rc)} {self.lookup(self.dc_m_t, self.dc)}")
 
         if self.dc == 1:
             self.decode_jma_earthquake(msg, i)
@@ -1177,6 +1188,7 @@ class camfDec(ewsDec):
         self.d33 = None
         self.d34 = None
         self.d35 = None
+        self.d36 = None
 
         self.dow_t = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
                       'Saturday', 'Sunday')
@@ -1287,7 +1299,7 @@ class camfDec(ewsDec):
             if len(name) == 0:
                 return i
 
-            ed = self.ed_t[ex2]
+            ed = self.lookup(self.ed_t, ex2)
 
             # ex3-ex7 not used in L-Alert
             lat = -90+180/131071*ex3
@@ -1333,7 +1345,10 @@ class camfDec(ewsDec):
                     mc = bs.unpack_from('u16', msg, i)[0]
                     i += 16
                     if mc > 0:
-                        j = np.where(self.mc_t['tiiki-code'] == mc)[0][0]
+                        idx = np.where(self.mc_t['tiiki-code'] == mc)[0]
+                        if len(idx) == 0:  # not defined
+                            continue
+                        j = idx[0]
                         si = self.mc_t['ken-name'][j]
                         if pd.isna(self.mc_t['sityouson-name1'][j]) == False:
                             si += self.mc_t['sityouson-name1'][j]
@@ -1357,9 +1372,9 @@ class camfDec(ewsDec):
         i += 16
 
         # mt: 0:Test,1:Alert,2:Update,3:All clear
-        self.mt = self.mt_t[mt]
+        self.mt = self.lookup(self.mt_t, mt)
         # reg: Tab. 4.2-5 (ISO 3166)
-        self.region = self.region_t[self.regi]
+        self.region = self.lookup(self.region_t, self.regi)
         # pid: Tab. 4.2-6
         self.pid = pid  # Provider identifier (A3)
 
@@ -1373,15 +1388,12 @@ class camfDec(ewsDec):
         i += 9
 
         # hcat: Tab. 4.2-7
-        if hcat not in self.hazard_t.keys():
-            i += 97
-            if hcat > 0:
-                print(f"category not found: pid={pid} cat={hcat} sev={sev}")
-            return i
+        if hcat > 0 and hcat not in self.hazard_t.keys():
+            print(f"category not found: pid={pid} cat={hcat} sev={sev}")
 
-        self.hazard = self.hazard_t[hcat]
+        self.hazard = self.lookup(self.hazard_t, hcat)
         # sev: 0:unknown,1:moderate,2:severe,3:extreme
-        self.severity = self.severity_t[sev]
+        self.severity = self.lookup(self.severity_t, sev)
 
         # 3.3 Hazard Chronology (beginning of hazard) A6, A7, A8
         wn, tow, dur = bs.unpack_from('u1u14u2', msg, i)
@@ -1390,7 +1402,8 @@ class camfDec(ewsDec):
         # wn: 0:current week, 1: next week
         # tow: 1:mon 00:00, 2:mon 00:01, 3:mon 00:02
         # .. sun 23:59
-        week, _ = time2gpst(self.time)
+        # week starts on monday
+        week, _ = time2gpst(timeadd(self.time, -86400.0))
         week += wn
 
         tow = (tow-1)*60+86400  # sec from sun
@@ -1403,7 +1416,7 @@ class camfDec(ewsDec):
         self.epoch = time2epoch(self.th)
 
         # duration (A8) : 0:unknown,1:<6h,2:6h<=d<12h,3:12h<=d<24h
-        self.duration = self.duration_t[dur]
+        self.duration = self.lookup(self.duration_t, dur)
 
         # 3.4 Alert Identifier
 
@@ -1411,26 +1424,27 @@ class camfDec(ewsDec):
         self.sel, self.ver = bs.unpack_from('u1u3', msg, i)
         i += 4
 
+        inst, info, s = None, None, None
+        self.gmsg_a = self.gmsg_b = self.inst = self.guid = None
+
         if self.sel == 0:  # international (EU)
             ia, ib = bs.unpack_from('u5u5', msg, i)
             # List A: General required action
             # List B: Monitoring + Required action
-            self.gmsg_a = self.list_a[ia]
-            self.gmsg_b = self.list_b[ib]
+            self.gmsg_a = self.lookup(self.list_a, ia)
+            self.gmsg_b = self.lookup(self.list_b, ib)
         else:  # 1:country/region (Japan..)
             if self.regi == 0b001101111:  # Japan
                 inst, info = bs.unpack_from('u2u8', msg, i)
-                self.inst = self.inst_t[inst]
+                self.inst = self.lookup(self.inst_t, inst)
                 if pid == 2 or pid == 3:  # L-Alert
-                    self.guid = self.guid_la_t[info]
+                    self.guid = self.lookup(self.guid_la_t, info)
                     s = self.guid
                 else:
-                    self.guid = self.guid_t[info]
-                    s = '{:s} {:s}'.format(self.inst, self.guid)
+                    self.guid = self.lookup(self.guid_t, info)
+                    s = f'{self.inst} {self.guid}'
             else:
                 print(f"not supported region: {self.regi}")
-                i += 76
-                return i
 
         i += 10
 
@@ -1456,6 +1470,11 @@ class camfDec(ewsDec):
         self.az = -90.0+180.0/64*azi
 
         # 3.7 Main Subject for Specific Settings A17
+        self.dlat = self.dlon = 0.0
+        self.dist = self.LMs = self.Lms = self.theta = 0.0
+        for k in range(1, 37):
+            setattr(self, f'd{k}', None)
+
         subj = bs.unpack_from('u2', msg, i)[0]
         i += 2
 
@@ -1505,157 +1524,162 @@ class camfDec(ewsDec):
             if hcat == THazard.EARTHQUAKE:  # Earthquake
                 d1i, d2i, d3i, d4i = bs.unpack_from('u4u3u4u4', msg, i)
                 # D1 – Magnitude on Richter Scale
-                self.d1 = self.d1_t[d1i]
+                self.d1 = self.lookup(self.d1_t, d1i)
                 # D2 – Seismic Coefficient
-                self.d2 = self.d2_t[d2i]
+                self.d2 = self.lookup(self.d2_t, d2i)
                 # D3 – Azimuth from Centre of Main Ellipse to Epicentre
                 self.d3 = d3i*22.5
                 # D4 – Vector Length between Centre of
                 #      Main Ellipse and Epicentre
-                self.d4 = self.d4_t[d4i]
+                self.d4 = self.lookup(self.d4_t, d4i)
 
             elif hcat in (THazard.TIDAL_WAVE, THazard.TSUNAMI):
                 # Tsunami
                 d5i = bs.unpack_from('u3', msg, i)[0]
                 # D5 – Wave Height
-                self.d5 = self.d5_t[d5i]
+                self.d5 = self.lookup(self.d5_t, d5i)
 
             elif hcat in (THazard.COLD_WAVE, THazard.HEAT_WAVE):
                 # Cold wave / heat wave
                 d6i = bs.unpack_from('u4', msg, i)[0]
-                self.d6 = self.d6_t[d6i]
+                self.d6 = self.lookup(self.d6_t, d6i)
 
             elif hcat == THazard.HURRICANE:  # Tropical cyclone (hurricane)
                 d7i, d8i, d9i = bs.unpack_from('u3u4u3', msg, i)
 
-                self.d7 = self.d7_t[d7i]
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
+                self.d7 = self.lookup(self.d7_t, d7i)
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d9 = self.lookup(self.d9_t, d9i)
 
             elif hcat == THazard.TYPHOON:  # Tropical cyclone (typhoon)
                 d36i, d8i, d9i = bs.unpack_from('u3u4u3', msg, i)
-                self.d36 = self.d36_t[d36i]
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
+                self.d36 = self.lookup(self.d36_t, d36i)
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d9 = self.lookup(self.d9_t, d9i)
 
             elif hcat == THazard.TORNADO:  # Tornado
                 d8i, d9i, d11i = bs.unpack_from('u4u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d11 = self.d11_t[d11i]
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d9 = self.lookup(self.d9_t, d9i)
+                self.d11 = self.lookup(self.d11_t, d11i)
 
             elif hcat == THazard.STORM:  # Storm or thunderstorm
                 d8i, d9i, d10i, d16i = bs.unpack_from('u4u3u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d10 = self.d10_t[d10i]
-                self.d16 = self.d16_t[d16i]
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d9 = self.lookup(self.d9_t, d9i)
+                self.d10 = self.lookup(self.d10_t, d10i)
+                self.d16 = self.lookup(self.d16_t, d16i)
 
             elif hcat == THazard.HAIL:  # Hail
                 d12i = bs.unpack_from('u3', msg, i)[0]
-                self.d12 = self.d12_t[d12i]
+                self.d12 = self.lookup(self.d12_t, d12i)
 
             elif hcat == THazard.RAINFALL:  # Rainfall
                 d9i, d13i = bs.unpack_from('u3u4', msg, i)
-                self.d9 = self.d9_t[d9i]
-                self.d13 = self.d13_t[d13i]
+                self.d9 = self.lookup(self.d9_t, d9i)
+                self.d13 = self.lookup(self.d13_t, d13i)
             elif hcat == THazard.SNOWFALL:  # Snowfall
                 d14i, d13i = bs.unpack_from('u5u4', msg, i)
-                self.d14 = self.d14_t[d14i]
-                self.d13 = self.d13_t[d13i]
+                self.d14 = self.lookup(self.d14_t, d14i)
+                self.d13 = self.lookup(self.d13_t, d13i)
 
             elif hcat == THazard.FLOOD:  # Flood
                 d15i = bs.unpack_from('u2', msg, i)[0]
-                self.d15 = self.d15_t[d15i]
+                self.d15 = self.lookup(self.d15_t, d15i)
 
             elif hcat == THazard.LIGHTNING:  # Lightning
                 d16i = bs.unpack_from('u3', msg, i)[0]
-                self.d16 = self.d16_t[d16i]
+                self.d16 = self.lookup(self.d16_t, d16i)
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d6 = self.d6_t[d6i]
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d6 = self.lookup(self.d6_t, d6i)
 
             elif hcat == THazard.DERECHO:  # Derecho
                 d8i, d9i, d16i, d11i = bs.unpack_from('u4u3u3u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d9 = self.d9_t[d9i]
-                self.d16 = self.d16_t[d16i]
-                self.d11 = self.d11_t[d11i]
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d9 = self.lookup(self.d9_t, d9i)
+                self.d16 = self.lookup(self.d16_t, d16i)
+                self.d11 = self.lookup(self.d11_t, d11i)
 
             elif hcat == THazard.FOG:  # Fog
                 d17i, d13i = bs.unpack_from('u3u4', msg, i)
-                self.d17 = self.d17_t[d17i]
-                self.d13 = self.d13_t[d13i]
+                self.d17 = self.lookup(self.d17_t, d17i)
+                self.d13 = self.lookup(self.d13_t, d13i)
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
-                self.d13 = self.d13_t[d13i]
-                self.d8 = self.d8_t[d8i]
+                self.d13 = self.lookup(self.d13_t, d13i)
+                self.d8 = self.lookup(self.d8_t, d8i)
             elif hcat == THazard.DROUGHT:  # Drought
                 d18i = bs.unpack_from('u2', msg, i)[0]
-                self.d18 = self.d18_t[d18i]
+                self.d18 = self.lookup(self.d18_t, d18i)
             elif hcat == THazard.AVALANCHE_RISK:  # Avalanche risk
                 d19i = bs.unpack_from('u3', msg, i)[0]
-                self.d19 = self.d19_t[d19i]
+                self.d19 = self.lookup(self.d19_t, d19i)
 
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
-                self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+                self.d20 = self.lookup(self.d20_t, d20i)
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
-                self.d8 = self.d8_t[d8i]
-                self.d5 = self.d5_t[d5i]
+                self.d8 = self.lookup(self.d8_t, d8i)
+                self.d5 = self.lookup(self.d5_t, d5i)
             elif hcat == THazard.GEOMAGNETIC_STORM:  # Geomagnetic/solar storm
                 d21i = bs.unpack_from('u3', msg, i)[0]
-                self.d21 = self.d21_t[d21i]
+                self.d21 = self.lookup(self.d21_t, d21i)
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
-                self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+                self.d22 = self.lookup(self.d22_t, d22i)
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
-                self.d23 = self.d23_t[d23i]
+                self.d23 = self.lookup(self.d23_t, d23i)
             elif hcat == THazard.CONTAMINATED_WATER:
                 # Contaminated drinking water / marine pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
-                self.d24 = self.d24_t[d24i]
+                self.d24 = self.lookup(self.d24_t, d24i)
             elif hcat == THazard.UV_RADIATION:  # UV radiation
                 d25i = bs.unpack_from('u4', msg, i)[0]
-                self.d25 = self.d25_t[d25i]
-            elif hcat == THazard.PANDEMIC:  # Risk of infection / pandemic
+                self.d25 = self.lookup(self.d25_t, d25i)
+            elif hcat in (THazard.PANDEMIC, THazard.RISK_OF_INFECTION):  # Risk of infection / pandemic
                 d26i, d35i = bs.unpack_from('u5u6', msg, i)
-                self.d26 = self.d26_t[d26i]
-                self.d35 = self.d35_t[d35i]
+                self.d26 = self.lookup(self.d26_t, d26i)
+                self.d35 = self.lookup(self.d35_t, d35i)
             elif hcat == THazard.NOISE_POLLUTION:  # Noise pollution
                 d27i = bs.unpack_from('u4', msg, i)[0]
-                self.d27 = self.d27_t[d27i]
+                self.d27 = self.lookup(self.d27_t, d27i)
             elif hcat == THazard.AIR_POLLUTION:  # Air pollution
                 d28i = bs.unpack_from('u3', msg, i)[0]
-                self.d28 = self.d28_t[d28i]
-            elif hcat == THazard.MARINE_POLLUTION:  # Marine/river pollution
+                self.d28 = self.lookup(self.d28_t, d28i)
+            elif hcat in (THazard.MARINE_POLLUTION,
+                          THazard.RIVER_POLLUTION):  # Marine/river pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
-                self.d24 = self.d24_t[d24i]
-            elif hcat == THazard.OUTAGE_OF_IT:
+                self.d24 = self.lookup(self.d24_t, d24i)
+            elif hcat in (THazard.GAS_SUPPLY_OUTAGE, THazard.OUTAGE_OF_IT,
+                          THazard.POWER_OUTAGE,
+                          THazard.EMERGENCY_NUMBER_OUTAGE,
+                          THazard.TELEPHONE_LINE_OUTAGE):
                 # outage of gas supply/IT systems/power systems/
                 # emergency number/telephone line
                 d29i = bs.unpack_from('u5', msg, i)[0]
-                self.d29 = self.d29_t[d29i]
-            elif hcat == THazard.NUCLEAR_HAZARD:
+                self.d29 = self.lookup(self.d29_t, d29i)
+            elif hcat in (THazard.RADIOLOGICAL_HAZARD, THazard.NUCLEAR_HAZARD,
+                          THazard.NUCLEAR_POWER_ACCIDENT):
                 # Radiological hazard, nuclear hazard and nuclear
                 # power station accident
                 d30i = bs.unpack_from('u4', msg, i)[0]
-                self.d30 = self.d30_t[d30i]
+                self.d30 = self.lookup(self.d30_t, d30i)
             elif hcat == THazard.CHEMICAL_HAZARD:  # Chemical hazard
                 d31i = bs.unpack_from('u4', msg, i)[0]
-                self.d31 = self.d31_t[d31i]
+                self.d31 = self.lookup(self.d31_t, d31i)
             elif hcat == THazard.BIO_HAZARD:  # Biological hazard
                 d32i, d33i = bs.unpack_from('u2u2', msg, i)
-                self.d32 = self.d32_t[d32i]
-                self.d33 = self.d33_t[d33i]
+                self.d32 = self.lookup(self.d32_t, d32i)
+                self.d33 = self.lookup(self.d33_t, d33i)
             elif hcat == THazard.EXPLOSIVE_HAZARD:  # Explosive hazard
                 d34i = bs.unpack_from('u2', msg, i)[0]
-                self.d34 = self.d34_t[d34i]
+                self.d34 = self.lookup(self.d34_t, d34i)
 
             i += 15
 
-- 
2.43.0


From b5015daaf6d3b8f16c889886d67bd56da1d5f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 23/45] fix: accept RTCM frames of any payload length, reject
 truncated ones

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..f776189 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -971,11 +971,13 @@ class rtcm(cssr, rtcmUtil):
 
     def checksum(self, msg, k, maxlen=0):
         """ check the checksum of the message """
-        len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
-        if len_ < 6:
+        if k+6 > len(msg):
             return False
+        len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
         if maxlen > 0 and k+len_ >= maxlen:
             return False
+        if k+len_+6 > len(msg):  # header, payload and parity
+            return False
         cs = Crc24LteA.calc(msg[k:k+len_+6])
         if self.monlevel > 0 and cs != 0:
             msgtype = (st.unpack_from('>H', msg, k+3)[0] >> 4) & 0xfff
@@ -4181,8 +4183,6 @@ class rtcme(cssre, rtcmUtil):
         return len_
 
     def set_checksum(self, msg, k, maxlen=0):
-        if self.len < 6:
-            return False
         if maxlen > 0 and k+self.len >= maxlen:
             return False
         cs = Crc24LteA.calc(msg[k:k+self.len+3])
-- 
2.43.0


From da3f17e1bc5d3c46cad07a42538a48916cea7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 24/45] fix: RTCM MSM observations, epoch times and MSM encoder
 follow the standard (invalid values, Doppler, rough range, lock time, GLONASS
 channels, week rollover)

---
 src/cssrlib/rtcm.py | 459 ++++++++++++++++++++++++++++----------------
 1 file changed, 294 insertions(+), 165 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f776189..9b34b48 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -299,7 +299,8 @@ class rtcmUtil:
 
     msm_t = {
         uGNSS.GPS: 1071, uGNSS.GLO: 1081, uGNSS.GAL: 1091,
-        uGNSS.SBS: 1101, uGNSS.QZS: 1111, uGNSS.BDS: 1121
+        uGNSS.SBS: 1101, uGNSS.QZS: 1111, uGNSS.BDS: 1121,
+        uGNSS.IRN: 1131
     }
 
     ssr_t = {
@@ -723,6 +724,16 @@ class rtcmUtil:
         usig_tbl = usig_tbl_[sys]
         return rSigRnx(sys, utyp, usig_tbl[ssig])
 
+    def rsig2msm(self, rsig):
+        """ convert rSigRnx to signal id of MSM, 0 if not defined """
+        for ssig in range(1, 33):
+            try:
+                if self.msm2rsig(rsig.sys, rsig.typ, ssig).sig == rsig.sig:
+                    return ssig
+            except KeyError:
+                continue
+        return 0
+
     def is_ssrtype(self, msgtype, tstmsg=False):
         """ check if the message type is MSM """
         for sys_ in self.ssr_t.keys():
@@ -797,8 +808,7 @@ class rtcmUtil:
     def adjustweek(self, week: int, tref: gtime_t):
         """ adjust week number considering reference time """
         week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
-        return (week % 1024) + week_ref
+        return week_ + (week-week_+512) % 1024-512
 
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
@@ -820,6 +830,7 @@ class rtcm(cssr, rtcmUtil):
         self.sysref = -1
         self.nsig_max = 4
         self.lock = {}
+        self.glo_ch = {}  # frequency channel of GLONASS satellites
         self.mask_pbias = False
 
         self.pid = 0  # SSR Provider ID
@@ -986,19 +997,43 @@ class rtcm(cssr, rtcmUtil):
         self.dlen = len_+6
         return cs == 0
 
+    def ref_time(self):
+        """ reference time to resolve the ambiguity of day and week """
+        if self.week < 0:
+            return self.time
+        for t in (self.time, self.time0):
+            if t is not None and abs(time2gpst(t)[0]-self.week) <= 1:
+                return t
+        return gpst2time(self.week, self.tow)
+
+    def near_week(self, t):
+        """ shift the time to the week nearest to the reference time """
+        dt = timediff(t, self.ref_time())
+        if 302400.0 < dt <= 907200.0:
+            t = timeadd(t, -604800.0)
+        elif -907200.0 <= dt < -302400.0:
+            t = timeadd(t, 604800.0)
+        return t
+
+    def tow2time(self, tow):
+        """ convert time of week to the time nearest to the reference """
+        if self.week < 0:
+            return self.near_week(gpst2time(time2gpst(self.time)[0], tow))
+        return self.near_week(gpst2time(self.week, tow))
+
     def decode_head(self, msg, i, sys=uGNSS.NONE):
         """ decode the header of ssr message """
-        
+
         if sys==uGNSS.GLO and self.msgtype != 4076:
             self.tod = bs.unpack_from('u17', msg, i)[0]     
             i += 17
-            self.time = utc2gpst(glo2time(self.time, self.tod))
+            self.time = glo2time(self.ref_time(), self.tod)
             if self.workaround_sc134:
-                self.time = timeadd(self.time, -36) # work-around
+                self.time = timeadd(self.time, -18) # work-around
         else:
-            self.tow = bs.unpack_from('u20', msg, i)[0]   
-            i += 20               
-            self.time = gpst2time(self.week, self.tow)
+            self.tow = bs.unpack_from('u20', msg, i)[0]
+            i += 20
+            self.time = self.tow2time(self.tow)
 
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
@@ -1487,12 +1522,11 @@ class rtcm(cssr, rtcmUtil):
         i += sz
 
         if sys == uGNSS.BDS:
-            week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
-            time = bdt2gpst(bdt2time(week, tow))
+            time = self.tow2time((tow+14) % 604800)
         elif sys == uGNSS.GLO:
-            time = utc2gpst(glo2time(self.time, tow))
+            time = glo2time(self.ref_time(), tow)
         else:
-            time = gpst2time(self.week, tow)
+            time = self.tow2time(tow)
         return i, sys, time
 
     def decode_nrtk_residual(self, msg, i=0):
@@ -1527,17 +1561,23 @@ class rtcm(cssr, rtcmUtil):
             return time
 
         sys, ssr = self.ssrtype(self.msgtype)
+        if ssr == 0 and self.msgtype in self.ssrtype_t and \
+                self.msgtype not in (60, 61):
+            sys, ssr = self.ssrtype_t[self.msgtype]
         if ssr > 0 or self.msgtype == 4076:
-            sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
+            if self.msgtype == 4076:
+                sz, i = 20, i+11  # skip version and subtype
+            else:
+                sz = 20 if sys != uGNSS.GLO else 17
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-                t = utc2gpst(glo2time(self.time, tow))
+                t = glo2time(self.ref_time(), tow)
                 if self.workaround_sc134:
-                    t = timeadd(t, -36) # work-around on sc134
+                    t = timeadd(t, -18) # work-around on sc134
                 return t
             else:
                 self.tow = tow
-                return gpst2time(self.week, self.tow)
+                return self.tow2time(tow)
 
         sys, nrtk = self.nrtktype(self.msgtype)
         if nrtk > 0:
@@ -2266,17 +2306,28 @@ class rtcm(cssr, rtcmUtil):
 
     def decode_msm_time(self, sys, week, t):
         """ decode msm time """
+        if week < 0:
+            week, _ = time2gpst(self.time)
         if sys == uGNSS.GLO:
-            dow = (t >> 27) & 0x1f
+            dow = (t >> 27) & 0x7
             tow = (t & 0x7ffffff)*1e-3
-            time = gpst2time(week, tow+dow*86400.0)
-            time = utc2gpst(timeadd(time, -10800.0))
+            if dow < 7:
+                time = gpst2time(week, tow+dow*86400.0)
+                time = utc2gpst(timeadd(time, -10800.0))
+            else:  # day of week is unknown
+                time = glo2time(self.ref_time(), tow)
         elif sys == uGNSS.BDS:
             tow = t*1e-3
             time = bdt2gpst(gpst2time(week, tow))
         else:
             tow = t*1e-3
             time = gpst2time(week, tow)
+        if self.time.time == 0 and self.time0 is None:
+            # only the week number is known
+            week_, _ = time2gpst(time)
+            time = timeadd(time, (week-week_)*604800.0)
+        else:
+            time = self.near_week(time)
         return time, tow
 
     def decode_msm(self, msg, i):
@@ -2287,6 +2338,8 @@ class rtcm(cssr, rtcmUtil):
             'u12u30u1u3', msg, i)
         i += 53
         self.time, self.tow = self.decode_msm_time(sys, self.week, tow_)
+        if self.week >= 0:  # follow the stream over the end of the week
+            self.week = time2gpst(self.time)[0]
 
         csi, eci, si, smi = bs.unpack_from('u2u2u1u3', msg, i)
         i += 8
@@ -2305,36 +2358,36 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return i, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
-            cellmask = bs.unpack_from('u'+str(self.nsig), msg, i)[0]
+            cellmask = 0
+            if self.nsig > 0:
+                cellmask = bs.unpack_from('u'+str(self.nsig), msg, i)[0]
             i += self.nsig
             sig_, nsig_ = self.decode_mask(cellmask, self.nsig, 0)
             sig_n = [sig[i] for i in sig_]
             self.sig_n += [sig_n]
             ncell += nsig_
 
-        r = np.zeros(self.nsat)
+        r = np.ones(self.nsat)*np.nan  # NaN: not available
         pr = np.ones(ncell)*np.nan
         cp = np.ones(ncell)*np.nan
         lock = np.zeros(ncell, dtype=int)
         half = np.zeros(ncell, dtype=int)
         cnr = np.zeros(ncell)
-        rrf = np.zeros(ncell)
+        rrf = np.ones(ncell)*np.nan
 
-        ex = np.zeros(self.nsat, dtype=int)
-        rr = np.zeros(self.nsat)
+        ex = np.ones(self.nsat, dtype=int)*15
+        rr = np.ones(self.nsat)*np.nan
 
         rms = rCST.CLIGHT*1e-3
 
         # satellite part
-        if msm >= 1 and msm <= 3:
+        if msm >= 1 and msm <= 3:  # rough range modulo 1 ms
             for k in range(self.nsat):
-                v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
@@ -2347,8 +2400,7 @@ class rtcm(cssr, rtcmUtil):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
-                    r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
+                r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
@@ -2396,7 +2448,7 @@ class rtcm(cssr, rtcmUtil):
                 rrf[k] = self.sval(v, 15, 1e-4)
 
         obs = Obs()
-        obs.time = self.time
+        obs.t = obs.time = self.time
 
         obs.P = np.zeros((self.nsat, self.nsig), dtype=np.float64)
         obs.L = np.zeros((self.nsat, self.nsig), dtype=np.float64)
@@ -2409,10 +2461,12 @@ class rtcm(cssr, rtcmUtil):
         obs.sig[sys] = {}
         obs.sig[sys][uTYP.C] = []
         obs.sig[sys][uTYP.L] = []
+        obs.sig[sys][uTYP.D] = []
         obs.sig[sys][uTYP.S] = []
         for sig_ in sig:
             obs.sig[sys][uTYP.C].append(self.msm2rsig(sys, uTYP.C, sig_))
             obs.sig[sys][uTYP.L].append(self.msm2rsig(sys, uTYP.L, sig_))
+            obs.sig[sys][uTYP.D].append(self.msm2rsig(sys, uTYP.D, sig_))
             obs.sig[sys][uTYP.S].append(self.msm2rsig(sys, uTYP.S, sig_))
 
         ofst = 0
@@ -2422,48 +2476,47 @@ class rtcm(cssr, rtcmUtil):
 
             pr_ = np.zeros(self.nsig, dtype=np.float64)
             cp_ = np.zeros(self.nsig, dtype=np.float64)
-            ll_ = np.zeros(self.nsig, dtype=np.int32)
-            hf_ = np.zeros(self.nsig, dtype=np.int32)
+            dp_ = np.zeros(self.nsig, dtype=np.float64)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
+            fcn = None
             if sys == uGNSS.GLO:
                 if ex[k] <= 13:
-                    fcn = ex[k]-7
+                    self.glo_ch[sat_] = ex[k]-7
+                if sat_ in self.glo_ch:
+                    fcn = self.glo_ch[sat_]
+
+            if sat_ not in self.lock:
+                self.lock[sat_] = {}
 
             for j, sig_ in enumerate(self.sig_n[k]):
                 idx = sig.index(sig_)
-                if sys != uGNSS.GLO:
-                    freq = obs.sig[sys][uTYP.C][idx].frequency()
-                else:
-                    freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
+                freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
 
                 pr_[idx] = pr[j+ofst]+r[k]
-                cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
+                if freq is not None:  # frequency channel is known
+                    cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
+                    dp_[idx] = -(rrf[j+ofst]+rr[k])*freq/rCST.CLIGHT
                 cn_[idx] = cnr[j+ofst]
-                ll_[idx] = lock[j+ofst]
-                hf_[idx] = half[j+ofst]
+
+                # loss of lock if lock time indicator is decreased
+                ll = lock[j+ofst]
+                ll0 = self.lock[sat_].get(sig_, 0)
+                if ll < ll0 or (ll == 0 and sig_ in self.lock[sat_]):
+                    obs.lli[k, idx] |= 1
+                if half[j+ofst] > 0:
+                    obs.lli[k, idx] |= 3
+                self.lock[sat_][sig_] = ll
 
             ofst += nsig_
 
-            obs.P[k, :] = pr_
-            obs.L[k, :] = cp_
+            # zero for the observation not available
+            obs.P[k, :] = np.nan_to_num(pr_)
+            obs.L[k, :] = np.nan_to_num(cp_)
+            obs.D[k, :] = np.nan_to_num(dp_)
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
-                        obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
-                        obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
-
         return i, obs
 
     def decode_ant_desc(self, msg, i):
@@ -3974,7 +4027,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
@@ -4025,7 +4078,7 @@ class rtcm(cssr, rtcmUtil):
         elif self.msgtype == 1041:
             self.subtype = sRTCM.IRN_EPH
             i, eph = self.decode_irn_eph(msg, i)
-        elif self.msgtype == 1042 or self.msgtype == 63:
+        elif self.msgtype == 1042:
             self.subtype = sRTCM.BDS_EPH
             i, eph = self.decode_bds_eph(msg, i)
         elif self.msgtype == 1043:
@@ -4146,6 +4199,9 @@ class rtcme(cssre, rtcmUtil):
         self.pid = 0  # SSR Provider ID
         self.sid = 0  # SSR Solution Type
 
+        self.lock = {}  # start time of the continuous lock
+        self.glo_ch = {}  # frequency channel of GLONASS satellites
+
         self.mi = False  # multiple message bit
         self.iods = 0  # issue of data station
         self.refid = 0  # reference station ID
@@ -4205,149 +4261,222 @@ class rtcme(cssre, rtcmUtil):
 
         return u
 
+    def sint(self, y, nbit, scl):
+        """ float to n-bit int, not available if out of the range """
+        u = self.ival(y, nbit, scl)
+        lim = 1 << (nbit-1)
+        return u if -lim < u < lim else -lim
+
     def encode_msm_time(self, sys, time):
-        """ decode msm time """
+        """ encode msm time """
         if sys == uGNSS.GLO:
             time = timeadd(gpst2utc(time), 10800.0)
             week, tow = time2gpst(time)
-            dow = int(tow/86400.0)  # day of week
-            tod = self.round_i((tow - dow*86400.0)*1e3)  # time of day [ms]
-            epoch = ((dow & 0x1f) << 27) | (tod & 0x7ffffff)
-
         elif sys == uGNSS.BDS:
             week, tow = time2gpst(gpst2bdt(time))
-            epoch = self.round_i(tow*1e3)
         else:
             week, tow = time2gpst(time)
-            epoch = self.round_i(tow*1e3)
+
+        epoch = self.round_i(tow*1e3)
+        if epoch >= 604800000:
+            epoch -= 604800000
+            week += 1
+
+        if sys == uGNSS.GLO:
+            dow, tod = divmod(epoch, 86400000)  # day of week, time of day [ms]
+            epoch = (dow << 27) | tod
 
         return week, epoch
 
+    def lock_ind(self, lock, msm):
+        """ lock time indicator DF402 (MSM4/5), DF407 (MSM6/7) """
+        ms = int(lock*1e3+0.5)
+        if msm < 6:
+            return min(max(ms.bit_length()-5, 0), 15)
+        if ms < 64:
+            return ms
+        k = ms.bit_length()-6  # resolution is 2^k ms
+        if k > 20:
+            return 704
+        return min(32*k+(ms >> k), 704)
+
+    def msm_cell(self, obs, sys, msm):
+        """ set of satellites, signals and cells of the MSM """
+        sig_t = {}
+        for j, rsig in enumerate(obs.sig[sys][uTYP.C]):
+            ssig = self.rsig2msm(rsig)
+            if ssig > 0:
+                sig_t[ssig] = j
+
+        sat_t = {}
+        for k, sat in enumerate(obs.sat):
+            sys_, prn = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            if sys == uGNSS.QZS:
+                prn -= uGNSS.MINPRNQZS-1
+            elif sys == uGNSS.SBS:
+                prn -= uGNSS.MINPRNSBS-1
+            sat_t[prn] = k
+
+        def avail(v):
+            return not np.isnan(v) and v != 0.0
+
+        cell = {}
+        for prn in sorted(sat_t):
+            k = sat_t[prn]
+            for ssig in sorted(sig_t):
+                j = sig_t[ssig]
+                if avail(obs.P[k, j]) or avail(obs.L[k, j]):
+                    cell.setdefault(prn, []).append(ssig)
+        return sat_t, sig_t, cell
+
     def encode_msm(self, msg, obs, i):
         """ encode MSM message """
         sys, msm = self.msmtype(self.msgtype)
 
-        # self.time, self.tow = self.encode_msm_time(sys, self.week, tow_)
-        self.week, tow_ = self.encode_msm_time(sys, self.time)
+        time = obs.t if obs.t.time > 0 else self.time
+        self.week, tow_ = self.encode_msm_time(sys, time)
 
-        ofst = 193 if sys == uGNSS.QZS else 1
+        sat_t, sig_t, cell = self.msm_cell(obs, sys, msm)
+        prn = list(cell.keys())
+        sig = sorted({s for v in cell.values() for s in v})
+        self.nsat = len(prn)
+        self.nsig = len(sig)
 
-        svmask = self.encode_mask(obs.sat, 64, ofst)
-        sigmask = self.encode_mask(obs.sig, 32)
-        self.nsat = len(obs.sat)
-        self.nsig = len(obs.sig)
+        if self.nsat*self.nsig > 64:
+            return -1
 
         # augmentation service provider id DFi027
         bs.pack_into('u12u30b1u3', msg, i, self.refid,
                      tow_, self.mi, self.iods)
-        i += 53
+        i += 46
+        bs.pack_into('p7', msg, i)
+        i += 7
 
         bs.pack_into('u2u2u1u3', msg, i, self.csi,
                      self.eci, self.si, self.smi)
         i += 8
-        bs.pack_into('u64u32', msg, i, svmask, sigmask)
+        bs.pack_into('u64u32', msg, i, self.encode_mask(prn, 64),
+                     self.encode_mask(sig, 32))
         i += 96
 
-        sz = self.nsat*self.nsig
-        if sz > 64:
-            return -1
-        ncell = 0
-        for k in range(self.nsat):
-            sz_ = len(self.sig_n[k])
-            cellmask = self.encode_mask(self.sig_n[k], self.nsig)
+        for p in prn:
+            cellmask = self.encode_mask([sig.index(s) for s in cell[p]],
+                                        self.nsig, 0)
             bs.pack_into(f'u{self.nsig}', msg, i, cellmask)
             i += self.nsig
-            ncell += sz_
 
-        r = np.zeros(self.nsat)
+        rms = rCST.CLIGHT*1e-3
+        ncell = sum([len(v) for v in cell.values()])
+        rng = np.ones(self.nsat)*np.nan  # rough range (2^-10 ms)
+        rr = np.ones(self.nsat)*np.nan  # rough phase-range-rate (m/s)
+        ex = np.zeros(self.nsat, dtype=int)
         pr = np.ones(ncell)*np.nan
         cp = np.ones(ncell)*np.nan
+        rrf = np.ones(ncell)*np.nan
+        cnr = np.zeros(ncell)
         lock = np.zeros(ncell, dtype=int)
         half = np.zeros(ncell, dtype=int)
-        cnr = np.zeros(ncell)
-        rrf = np.zeros(ncell)
 
-        ex = np.zeros(self.nsat, dtype=int)
-        rr = np.zeros(self.nsat)
+        n = 0
+        for m, p in enumerate(prn):
+            k = sat_t[p]
+            sat = obs.sat[k]
+            fcn = None
+            if sys == uGNSS.GLO:
+                fcn = self.glo_ch.get(sat)
+                ex[m] = 15 if fcn is None else fcn+7
+            if sat not in self.lock:
+                self.lock[sat] = {}
+            n0 = n
+            for s in cell[p]:
+                j = sig_t[s]
+                freq = obs.sig[sys][uTYP.C][j].frequency(fcn)
+                lam = np.nan if freq is None else rCST.CLIGHT/freq
+                if obs.P[k, j] != 0.0:
+                    pr[n] = obs.P[k, j]
+                if obs.L[k, j] != 0.0:
+                    cp[n] = obs.L[k, j]*lam
+                if len(obs.D) > 0 and obs.D[k, j] != 0.0:
+                    rrf[n] = -obs.D[k, j]*lam
+                if len(obs.S) > 0 and not np.isnan(obs.S[k, j]):
+                    cnr[n] = obs.S[k, j]
+                lli = obs.lli[k, j] if len(obs.lli) > 0 else 0
+                half[n] = (lli >> 1) & 1
+                if s not in self.lock[sat] or lli & 1 or np.isnan(cp[n]):
+                    self.lock[sat][s] = time
+                lock[n] = self.lock_ind(timediff(time, self.lock[sat][s]),
+                                        msm)
+                n += 1
+            for v in (pr[n0:n], cp[n0:n]):
+                v = v[~np.isnan(v)]
+                if len(v) > 0:
+                    rng[m] = round(v[0]/rms*1024)
+                    break
+            v = rrf[n0:n][~np.isnan(rrf[n0:n])]
+            if len(v) > 0:
+                rr[m] = round(v[0])
+            pr[n0:n] -= rng[m]*rms/1024
+            cp[n0:n] -= rng[m]*rms/1024
+            rrf[n0:n] -= rr[m]
+
+        valid = (rng >= 0) & (rng < 255*1024)
+        rng_ = np.where(valid, rng, 255*1024).astype(int)
 
-        rms = rCST.CLIGHT*1e-3
+        # satellite part
+        if msm > 3:
+            for m in range(self.nsat):
+                bs.pack_into('u8', msg, i, int(rng_[m] >> 10))
+                i += 8
+            if msm == 5 or msm == 7:
+                for m in range(self.nsat):
+                    bs.pack_into('u4', msg, i, int(ex[m]))
+                    i += 4
+        for m in range(self.nsat):
+            bs.pack_into('u10', msg, i, int(rng_[m] & 1023))
+            i += 10
+        if msm == 5 or msm == 7:
+            for m in range(self.nsat):
+                bs.pack_into('s14', msg, i, self.sint(rr[m], 14, 1.0))
+                i += 14
 
-        nobs, nsig = obs.P.shape()
+        # signal part
+        if msm != 2:
+            sz = 15 if msm < 6 else 20
+            scl = rCST.P2_24 if msm < 6 else rCST.P2_29
+            for n in range(ncell):
+                bs.pack_into(f's{sz}', msg, i, self.sint(pr[n], sz, scl*rms))
+                i += sz
 
-        for i in range(nobs):
-            for j in range(nsig):
-                k = 0  # TBD
-                # freq = obs.sig.frequency()
-                r[k] = self.round_i(
-                    obs.P[i, j]/(rms*rCST.P2_10))*rms*rCST.P2_10
-
-                # satellite part
-                if msm >= 1 and msm <= 3:
-                    for k in range(self.nsat):
-                        v = int(r[k]/rms)
-                        bs.pack_into('u10', msg, i, v)
-                        i += 10
-                else:
-                    for k in range(self.nsat):
-                        v = int(r[k]/rms)
-                        bs.pack_into('u8', msg, i, v)
-                        i += 8
+        if msm > 1:
+            sz = 22 if msm < 6 else 24
+            scl = rCST.P2_29 if msm < 6 else rCST.P2_31
+            for n in range(ncell):
+                bs.pack_into(f's{sz}', msg, i, self.sint(cp[n], sz, scl*rms))
+                i += sz
+
+            sz = 4 if msm < 6 else 10
+            for n in range(ncell):
+                bs.pack_into(f'u{sz}', msg, i, int(lock[n]))
+                i += sz
 
-                if msm == 5 or msm == 7:
-                    for k in range(self.nsat):
-                        bs.pack_into('u4', msg, i, ex[k])
-                        i += 4
-
-                    for k in range(self.nsat):
-                        if r[k] != 0.0:
-                            v = int(r[k]/(rCST.P2_10*rms))
-                            bs.pack_into('u10', msg, i, v)
-                            i += 10
-
-                if msm == 5 or msm == 7:
-                    for k in range(self.nsat):
-                        v = int(rr[k])
-                        bs.pack_into('s14', msg, i, v)
-                        i += 14
-
-                # signal part
-                if msm != 2:
-                    sz = 15 if msm < 6 else 20
-                    scl = rCST.P2_24 if msm < 6 else rCST.P2_29
-                    for k in range(ncell):
-                        pr_ = int(pr[k]/(scl*rms))
-                        bs.pack_into('s'+str(sz), msg, i, pr_)
-                        i += sz
-
-                if msm > 1:
-                    sz = 22 if msm < 6 else 24
-                    scl = rCST.P2_29 if msm < 6 else rCST.P2_31
-                    for k in range(ncell):
-                        cp_ = int(cp[k]/(scl*rms))
-                        bs.pack_into('s'+str(sz), msg, i, cp_)
-                        i += sz
-
-                    sz = 4 if msm < 6 else 10
-                    for k in range(ncell):
-                        bs.pack_into('u'+str(sz), msg, i, lock[k])
-                        i += sz
-
-                    for k in range(ncell):
-                        bs.pack_into('u1', msg, i, half[k])
-                        i += 1
-
-                if msm > 3:
-                    sz = 6 if msm < 6 else 10
-                    scl = 1.0 if msm < 6 else 0.0625
-                    for k in range(ncell):
-                        v = int(cnr[k]/scl)
-                        bs.pack_into('u'+str(sz), msg, i, v)
-                        i += sz
-
-                if msm == 5 or msm == 7:
-                    for k in range(ncell):
-                        bs.pack_into('s15', msg, i, rrf[k]*1e4)
-                        i += 15
+            for n in range(ncell):
+                bs.pack_into('u1', msg, i, int(half[n]))
+                i += 1
+
+        if msm > 3:
+            sz = 6 if msm < 6 else 10
+            scl = 1.0 if msm < 6 else 0.0625
+            for n in range(ncell):
+                v = min(max(round(cnr[n]/scl), 0), (1 << sz)-1)
+                bs.pack_into(f'u{sz}', msg, i, v)
+                i += sz
+
+        if msm == 5 or msm == 7:
+            for n in range(ncell):
+                bs.pack_into('s15', msg, i, self.sint(rrf[n], 15, 1e-4))
+                i += 15
 
         return i
 
-- 
2.43.0


From 15b558eeb7a5d679b919cf62fec424dff0d691be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 25/45] fix: RTCM ephemerides: sign-magnitude GLONASS, missing
 BDS/IRN/SBAS fields, Galileo F/NAV health and code, week of reference times

---
 src/cssrlib/rtcm.py | 117 ++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 53 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9b34b48..9aaba4d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2646,16 +2646,25 @@ class rtcm(cssr, rtcmUtil):
         eph.flag = flag
         eph.fit = fit
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.ref_time())
 
-        eph.toe = gpst2time(eph.week, eph.toes)
-        eph.toc = gpst2time(eph.week, toc)
+        eph.toe = self.near_week(gpst2time(eph.week, eph.toes))
+        eph.toc = self.near_week(gpst2time(eph.week, toc))
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
         eph.mode = 0
 
         return i, eph
 
+    def unpack_sm(self, msg, i, blen_t):
+        """ unpack signed integers coded as sign and magnitude """
+        v = []
+        for blen in blen_t:
+            sgn, mag = bs.unpack_from('u1u'+str(blen-1), msg, i)
+            v.append(-mag if sgn else mag)
+            i += blen
+        return v
+
     def decode_glo_eph(self, msg, i):
         """ GLONASS Satellite Ephemeris Message """
         prn, frq, cn, svh, P1 = bs.unpack_from('u6u5u1u1u2', msg, i)
@@ -2664,16 +2673,19 @@ class rtcm(cssr, rtcmUtil):
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        xd, x, xdd = self.unpack_sm(msg, i, (24, 27, 5))
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd, y, ydd = self.unpack_sm(msg, i, (24, 27, 5))
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd, z, zdd = self.unpack_sm(msg, i, (24, 27, 5))
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3 = bs.unpack_from('u1', msg, i)[0]
+        gamn = self.unpack_sm(msg, i+1, (11,))[0]
+        P, ln = bs.unpack_from('u2u1', msg, i+12)
+        taun, dtaun = self.unpack_sm(msg, i+15, (22, 5))
         i += 42
-        En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
-            'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
+        En, P4, Ft, Nt, M, ad, Na = bs.unpack_from(
+            'u5u1u4u11u2u1u11', msg, i)
         i += 102
 
         geph = Geph()
@@ -2686,36 +2698,26 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
         geph.age = En
 
         geph.sat = prn2sat(uGNSS.GLO, prn)
+        self.glo_ch[geph.sat] = geph.frq
         geph.svh = bn
         geph.iode = tb & 0x7F
 
-        week, tow = time2gpst(self.time)
-        tod = tow % 86400.0
-        tow -= tod
-        tof = tk_h*3600.0+tk_m*60.0+tk_s-10800.0
-        if tof < tod-43200.0:
-            tof += 86400.0
-        elif tof > tod+43200.0:
-            tof -= 86400.0
-        geph.tof = utc2gpst(gpst2time(week, tow+tof))
-        toe = tb*900.0-10800.0
-        if toe < tod-43200.0:
-            toe += 86400.0
-        elif toe > tod+43200.0:
-            toe -= 86400.0
-        geph.toe = utc2gpst(gpst2time(week, tow+toe))
+        # time of day in GLONASS time scale (UTC+3h)
+        tref = self.ref_time()
+        geph.tof = glo2time(tref, tk_h*3600.0+tk_m*60.0+tk_s)
+        geph.toe = glo2time(tref, tb*900.0)
         geph.mode = 0
 
         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
@@ -2774,16 +2776,18 @@ class rtcm(cssr, rtcmUtil):
         if self.msgtype == 1046:
             eph.tgd_b = tgd2*rCST.P2_32
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.ref_time())
 
-        eph.toe = gpst2time(eph.week, eph.toes)
-        eph.toc = gpst2time(eph.week, toc)
+        eph.toe = self.near_week(gpst2time(eph.week, eph.toes))
+        eph.toc = self.near_week(gpst2time(eph.week, toc))
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
         if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+(dvs1)
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:
+            eph.svh = (hs << 4)+(dvs << 3)
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
@@ -2837,10 +2841,10 @@ class rtcm(cssr, rtcmUtil):
         eph.iodc = iodc
         eph.fit = fit
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.ref_time())
 
-        eph.toe = gpst2time(eph.week, eph.toes)
-        eph.toc = gpst2time(eph.week, toc)
+        eph.toe = self.near_week(gpst2time(eph.week, eph.toes))
+        eph.toc = self.near_week(gpst2time(eph.week, toc))
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
         eph.flag = 1
@@ -2856,8 +2860,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
@@ -2870,7 +2874,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2893,8 +2897,8 @@ class rtcm(cssr, rtcmUtil):
         eph.tgd_b = tgd2*1e-10
         eph.svh = svh
 
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
-        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = self.near_week(bdt2gpst(bdt2time(eph.week, eph.toes)))
+        eph.toc = self.near_week(bdt2gpst(bdt2time(eph.week, toc)))
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
         eph.mode = 0
@@ -2921,7 +2925,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
@@ -2944,10 +2948,10 @@ class rtcm(cssr, rtcmUtil):
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.week = self.adjustweek(eph.week, self.time)
+        eph.week = self.adjustweek(eph.week, self.ref_time())
 
-        eph.toe = gpst2time(eph.week, eph.toes)
-        eph.toc = gpst2time(eph.week, toc)
+        eph.toe = self.near_week(gpst2time(eph.week, eph.toes))
+        eph.toc = self.near_week(gpst2time(eph.week, toc))
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
         eph.iodc = eph.iode
@@ -2970,9 +2974,9 @@ class rtcm(cssr, rtcmUtil):
 
         seph = Seph()
         seph.sat = prn2sat(uGNSS.SBS, svid+119)
-        seph.iode = iodn
+        seph.iodn = iodn
         toc *= 16.0
-        seph.ura = ura
+        seph.sva = ura
         seph.pos[0] = x*0.08
         seph.pos[1] = y*0.08
         seph.pos[2] = z*0.4
@@ -2982,11 +2986,18 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
-        week, tow = time2gpst(self.time)
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
+        tref = self.ref_time()
+        week, tow = time2gpst(tref)
         tod = (tow//86400)*86400
         seph.t0 = gpst2time(week, toc+tod)
+        dt = timediff(seph.t0, tref)
+        if dt > 43200.0:
+            seph.t0 = timeadd(seph.t0, -86400.0)
+        elif dt < -43200.0:
+            seph.t0 = timeadd(seph.t0, 86400.0)
+        seph.tof = self.time
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From 41c8bfbb88eb16cf3ab91ed596ca90c1a3d79c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 26/45] fix: RTCM/IGS SSR: clock rate scales, corrections of
 other satellites kept, high-rate clock, ionosphere and combined messages,
 QZSS L1C pilot, encoder headers and message types

---
 src/cssrlib/rtcm.py | 361 ++++++++++++++++++++++++++------------------
 1 file changed, 211 insertions(+), 150 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9aaba4d..352c585 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -317,7 +317,8 @@ class rtcmUtil:
             sCSSR.MASK: sCType.MASK, sCSSR.CBIAS: sCType.CBIAS,
             sCSSR.PBIAS: sCType.PBIAS, sCSSR.URA: sCType.URA,
             sCSSR.GRID: sCType.TROP, sCSSR.STEC: sCType.STEC,
-            sCSSR.COMBINED: sCType.OC,
+            sCSSR.COMBINED: sCType.OC, sCSSR.HCLOCK: sCType.HCLOCK,
+            sCSSR.VTEC: sCType.VTEC,
             sRTCM.SSR_PBIAS: sCType.PBIAS,
             sRTCM.SSR_TROP: sCType.TROP,
             sRTCM.SSR_STEC: sCType.STEC,
@@ -396,6 +397,24 @@ class rtcmUtil:
         98: (uGNSS.GAL, sCType.STEC),
         99: (uGNSS.BDS, sCType.STEC),
         100: (uGNSS.QZS, sCType.STEC),
+        1246: (uGNSS.QZS, sCType.ORBIT),
+        1247: (uGNSS.QZS, sCType.CLOCK),
+        1248: (uGNSS.QZS, sCType.CBIAS),
+        1249: (uGNSS.QZS, sCType.OC),
+        1250: (uGNSS.QZS, sCType.URA),
+        1251: (uGNSS.QZS, sCType.HCLOCK),
+        1252: (uGNSS.SBS, sCType.ORBIT),
+        1253: (uGNSS.SBS, sCType.CLOCK),
+        1254: (uGNSS.SBS, sCType.CBIAS),
+        1255: (uGNSS.SBS, sCType.OC),
+        1256: (uGNSS.SBS, sCType.URA),
+        1257: (uGNSS.SBS, sCType.HCLOCK),
+        1258: (uGNSS.BDS, sCType.ORBIT),
+        1259: (uGNSS.BDS, sCType.CLOCK),
+        1260: (uGNSS.BDS, sCType.CBIAS),
+        1261: (uGNSS.BDS, sCType.OC),
+        1262: (uGNSS.BDS, sCType.URA),
+        1263: (uGNSS.BDS, sCType.HCLOCK),
     }
 
     ssrt_t = {
@@ -494,7 +513,7 @@ class rtcmUtil:
 
             return tbl_t[msgtype]
 
-    def rsig2code(self, rsig):
+    def rsig2code(self, rsig, sys=uGNSS.NONE):
         """ convert rSigRnx to RTCM SSR code """
         gps_tbl = {
             0: uSIG.L1C,
@@ -571,7 +590,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -602,10 +621,15 @@ class rtcmUtil:
             uGNSS.SBS: sbs_tbl,
         }
 
-        usig_tbl = usig_tbl_[rsig.sys]
+        if isinstance(rsig, str):  # as used in the decoded corrections
+            sig = uSIG['L'+rsig[1:3]]
+        else:
+            sys, sig = rsig.sys, rsig.sig
+
+        usig_tbl = usig_tbl_[sys]
         dic = {usig_tbl[s]: s for s in usig_tbl}
 
-        return dic[rsig.sig]
+        return dic[sig]
 
     def msm2rsig(self, sys: uGNSS, utyp: uTYP, ssig):
         """ convert ssig to rSigRnx for MSM """
@@ -837,6 +861,7 @@ class rtcm(cssr, rtcmUtil):
         self.sid = 0  # SSR Solution Type
         self.inet = 0
         self.mi = False
+        self.sat_b = []  # satellites with bias
 
         self.nrtk_r = {}
 
@@ -935,7 +960,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -1035,6 +1060,7 @@ class rtcm(cssr, rtcmUtil):
             i += 20
             self.time = self.tow2time(self.tow)
 
+        v = {}
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
             i += 5
@@ -1120,17 +1146,35 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
         """ decoder high-rate clock correction of cssr """
         hclk = bs.unpack_from('s22', msg, i)[0]
         i += 22
-        self.dclk_n[k] = self.sval(hclk, 22, 0.1e-3)
+        self.hclk_n[k] = self.sval(hclk, 22, 0.1e-3)
         return i
 
+    def prepare_corr(self, inet, *names):
+        """ prepare the storage of the corrections """
+        for name in names:
+            if getattr(self.lc[inet], name) is None:
+                setattr(self.lc[inet], name, {})
+
+    def add_sat(self, sys, sat):
+        """ add satellite to the list of satellites with correction """
+        if sat not in self.sat_n:
+            self.sys_n = self.sys_n+[sys]
+            self.sat_n = self.sat_n+[sat]
+            self.nsat_n = len(self.sat_n)
+
+    def is_new_epoch(self, inet, sat, ctype):
+        """ check if the stored correction is from another epoch """
+        return sat not in self.lc[inet].t0 or \
+            timediff(self.time, self.lc[inet].t0[sat][ctype]) != 0
+
     def decode_cssr_orb(self, msg, i, inet=0):
         """ decode RTCM Orbit Correction message """
         sys = self.get_ssr_sys(self.msgtype)
@@ -1140,31 +1184,20 @@ class rtcm(cssr, rtcmUtil):
         self.dorb_n = np.zeros((nsat, 3))
         self.ddorb_n = np.zeros((nsat, 3))
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.ORBIT]) > 0:
-            self.nsat_n = 0
-            self.sys_n = []
-            self.sat_n = []
-            self.lc[inet].iode = {}
-            self.lc[inet].dorb = {}
-            self.lc[inet].ddorb = {}
+        self.prepare_corr(inet, 'iode', 'dorb', 'ddorb')
 
         self.iodssr = v['iodssr']
         self.udi[sCType.ORBIT] = v['udi']
         self.mi = v['mi']
-        sat = []
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
             i = self.decode_orb_sat(msg, i, k, sys)
-            sat.append(sat_)
             self.lc[inet].iode[sat_] = self.iode_n[k]
             self.lc[inet].dorb[sat_] = self.dorb_n[k, :]
             self.lc[inet].ddorb[sat_] = self.ddorb_n[k, :]
 
             self.set_t0(inet, sat_, sCType.ORBIT, self.time)
-
-        self.nsat_n += nsat
-        self.sys_n += [sys]*nsat
-        self.sat_n += sat
+            self.add_sat(sys, sat_)
 
         self.iodssr_c[sCType.ORBIT] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
@@ -1180,10 +1213,7 @@ class rtcm(cssr, rtcmUtil):
         # if self.iodssr != v['iodssr']:
         #    return -1
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.CLOCK]) > 0:
-            self.lc[inet].dclk = {}
-            self.lc[inet].ddclk = {}
-            self.lc[inet].dddclk = {}
+        self.prepare_corr(inet, 'dclk', 'ddclk', 'dddclk')
 
         self.dclk_n = np.zeros(nsat)
         self.ddclk_n = np.zeros(nsat)
@@ -1216,34 +1246,31 @@ class rtcm(cssr, rtcmUtil):
         # if self.iodssr != v['iodssr']:
         #    return -1
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.CBIAS]) > 0:
-            self.sat_b = []
-            self.lc[inet].cbias = {}
-
         self.iodssr = v['iodssr']
         self.udi[sCType.CBIAS] = v['udi']
         self.mi = v['mi']
 
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
-            self.set_t0(inet, sat_, sCType.CBIAS, self.time)
 
             nsig = bs.unpack_from('u5', msg, i)[0]
             i += 5
             if sat_ not in self.sat_b:
                 self.sat_b.append(sat_)
-            if sat_ not in self.lc[inet].cbias:
+            if sat_ not in self.lc[inet].cbias or \
+                    self.is_new_epoch(inet, sat_, sCType.CBIAS):
                 self.lc[inet].cbias[sat_] = {}
-
-            if nsig > self.ssig2rsig(sys):
-                break
+            self.set_t0(inet, sat_, sCType.CBIAS, self.time)
 
             for j in range(nsig):
                 sig, cb = bs.unpack_from('u5s14', msg, i)
                 i += 19
 
-                rsig = self.ssig2rsig(sys, uTYP.C, sig).str()
-                self.lc[inet].cbias[sat_][rsig] = self.sval(cb, 14, 0.01)
+                rsig = self.ssig2rsig(sys, uTYP.C, sig)
+                if rsig.sys == uGNSS.NONE:  # undefined signal
+                    continue
+                self.lc[inet].cbias[sat_][rsig.str()] = \
+                    self.sval(cb, 14, 0.01)
 
         self.iodssr_c[sCType.CBIAS] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.CBIAS)
@@ -1260,13 +1287,6 @@ class rtcm(cssr, rtcmUtil):
         # if self.iodssr != v['iodssr']:
         #    return -1
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.PBIAS]) > 0:
-            self.sat_b = []
-            self.lc[inet].pbias = {}
-            self.lc[inet].si = {}
-            self.lc[inet].di = {}
-            self.lc[inet].wl = {}
-
         self.iodssr = v['iodssr']
         self.udi[sCType.PBIAS] = v['udi']
         self.mi = v['mi']
@@ -1276,7 +1296,6 @@ class rtcm(cssr, rtcmUtil):
 
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
-            self.set_t0(inet, sat_, sCType.PBIAS, self.time)
 
             nsig = bs.unpack_from('u5', msg, i)[0]
             i += 5
@@ -1292,14 +1311,13 @@ class rtcm(cssr, rtcmUtil):
 
             if sat_ not in self.sat_b:
                 self.sat_b.append(sat_)
-            if sat_ not in self.lc[inet].pbias:
+            if sat_ not in self.lc[inet].pbias or \
+                    self.is_new_epoch(inet, sat_, sCType.PBIAS):
                 self.lc[inet].pbias[sat_] = {}
                 self.lc[inet].si[sat_] = {}
                 self.lc[inet].di[sat_] = {}
                 self.lc[inet].wl[sat_] = {}
-
-            if nsig > self.ssig2rsig(sys):
-                break
+            self.set_t0(inet, sat_, sCType.PBIAS, self.time)
 
             for j in range(nsig):
                 # tracking mode: DF461
@@ -1307,17 +1325,22 @@ class rtcm(cssr, rtcmUtil):
                 sig, si = bs.unpack_from('u5b1', msg, i)
                 i += 6
 
-                rsig = self.ssig2rsig(sys, uTYP.L, sig).str()
+                wl = None
                 if self.subtype != sRTCM.SSR_PBIAS:  # IGS-SSR
                     wl = bs.unpack_from('u2', msg, i)[0]
                     i += 2
-                    self.lc[inet].wl[sat_][rsig] = wl
 
                 # signal discontinuity indicator: DF485
                 # phase bias: DF482
                 di, pb = bs.unpack_from('u4s20', msg, i)
                 i += 24
 
+                rsig = self.ssig2rsig(sys, uTYP.L, sig)
+                if rsig.sys == uGNSS.NONE:  # undefined signal
+                    continue
+                rsig = rsig.str()
+                if wl is not None:
+                    self.lc[inet].wl[sat_][rsig] = wl
                 self.lc[inet].pbias[sat_][rsig] = self.sval(pb, 20, 1e-4)
                 self.lc[inet].si[sat_][rsig] = si
                 self.lc[inet].di[sat_][rsig] = di
@@ -1340,23 +1363,15 @@ class rtcm(cssr, rtcmUtil):
         self.ddclk_n = np.zeros(nsat)
         self.dddclk_n = np.zeros(nsat)
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.ORBIT]) > 0:
-            self.nsat_n = 0
-            self.sys_n = []
-            self.sat_n = []
-            self.lc[inet].dclk = {}
-            self.lc[inet].ddclk = {}
-            self.lc[inet].dddclk = {}
-            self.lc[inet].iode = {}
-            self.lc[inet].dorb = {}
-            self.lc[inet].ddorb = {}
+        self.prepare_corr(inet, 'iode', 'dorb', 'ddorb',
+                          'dclk', 'ddclk', 'dddclk')
 
         self.iodssr = v['iodssr']
         self.udi[sCType.ORBIT] = v['udi']
         self.udi[sCType.CLOCK] = v['udi']
+        self.udi[sCType.OC] = v['udi']
         self.mi = v['mi']
 
-        sat = []
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
             self.set_t0(inet, sat_, sCType.ORBIT, self.time)
@@ -1364,7 +1379,7 @@ class rtcm(cssr, rtcmUtil):
 
             i = self.decode_orb_sat(msg, i, k, sys)
             i = self.decode_clk_sat(msg, i, k)
-            sat.append(sat_)
+            self.add_sat(sys, sat_)
             self.lc[inet].iode[sat_] = self.iode_n[k]
             self.lc[inet].dorb[sat_] = self.dorb_n[k, :]
             self.lc[inet].ddorb[sat_] = self.ddorb_n[k, :]
@@ -1372,16 +1387,13 @@ class rtcm(cssr, rtcmUtil):
             self.lc[inet].ddclk[sat_] = self.ddclk_n[k]
             self.lc[inet].dddclk[sat_] = self.dddclk_n[k]
 
-        self.nsat_n += nsat
-        self.sys_n += [sys]*nsat
-        self.sat_n += sat
-
         self.iodssr_c[sCType.ORBIT] = v['iodssr']
         self.iodssr_c[sCType.CLOCK] = v['iodssr']
 
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
         self.lc[inet].t0s[sCType.ORBIT] = self.time
+        self.lc[inet].t0s[sCType.CLOCK] = self.time
 
         return i
 
@@ -1391,8 +1403,7 @@ class rtcm(cssr, rtcmUtil):
         i, v = self.decode_head(msg, i, sys)
         nsat = v['nsat']
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.URA]) > 0:
-            self.lc[inet].ura = {}
+        self.prepare_corr(inet, 'ura')
 
         self.iodssr = v['iodssr']
         self.udi[sCType.URA] = v['udi']
@@ -1418,8 +1429,8 @@ class rtcm(cssr, rtcmUtil):
         # if self.iodssr != v['iodssr']:
         #    return -1
 
-        if timediff(self.time, self.lc[inet].t0s[sCType.HCLOCK]) > 0:
-            self.lc[inet].hclk = {}
+        self.prepare_corr(inet, 'hclk')
+        self.hclk_n = np.zeros(v['nsat'])
 
         self.iodssr = v['iodssr']
         self.udi[sCType.HCLOCK] = v['udi']
@@ -1428,7 +1439,7 @@ class rtcm(cssr, rtcmUtil):
         for k in range(v['nsat']):
             i, sat_ = self.decode_sat(msg, i, sys)
             i = self.decode_hclk_sat(msg, i, k)
-            self.lc[inet].hclk[sat_] = self.dclk_n[k]
+            self.lc[inet].hclk[sat_] = self.hclk_n[k]
             self.set_t0(inet, sat_, sCType.HCLOCK, self.time)
 
         self.iodssr_c[sCType.HCLOCK] = v['iodssr']
@@ -1448,27 +1459,37 @@ class rtcm(cssr, rtcmUtil):
         qi *= 0.05
         i += 11
 
-        for k in range(nlayer):
+        layer = []
+        for k in range(nlayer+1):
             hl, n, m = bs.unpack_from('u8u4u4', msg, i)
             i += 16
+            n += 1  # degree
+            m += 1  # order
             c = np.zeros((n+1, m+1))
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
+            # height [m], cosine and sine coefficients [TECU]
+            layer.append({'h': hl*10e3, 'c': c, 's': s})
+
+        self.lc[inet].vtec = {'qi': qi, 'layer': layer}
+        self.iodssr = v['iodssr']
+        self.udi[sCType.VTEC] = v['udi']
+        self.mi = v['mi']
+
         self.iodssr_c[sCType.VTEC] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.VTEC)
-        self.lc[inet].t0[sCType.VTEC] = self.time
-        self.set_t0(ctype=sCType.VTEC, t=self.time)
+        self.lc[inet].t0s[sCType.VTEC] = self.time
 
         return i
 
@@ -1485,7 +1506,7 @@ class rtcm(cssr, rtcmUtil):
         if subtype == 201:
             self.subtype = sCSSR.VTEC
             i = self.decode_vtec(msg, i)
-        else:
+        elif subtype // 10 in sys_t:
             self.sysref = sys_t[subtype // 10]
             st = subtype % 10
 
@@ -1605,7 +1626,8 @@ class rtcm(cssr, rtcmUtil):
                                                   self.lc[0].dclk[sat_]))
             if flg_drift:
                 self.fh.write("\t{:8.4f}\t{:8.4f}".format(
-                    self.lc[0].ddclk[sat_], self.lc[0].dddclk[sat_]))
+                    self.lc[0].ddclk[sat_]*1e3,
+                    self.lc[0].dddclk[sat_]*1e3))
             self.fh.write("\n")
 
     def out_log_ssr_orb(self, sys, flg_vel=True):
@@ -1680,6 +1702,8 @@ class rtcm(cssr, rtcmUtil):
 
         if self.msgtype == 4076: # IGS-SSR
             self.fh.write(f" Message Type: IGS-SSR {self.igsssrt_t[self.subtype]} {sys2str(self.sysref)}\n")
+            if self.subtype != sCSSR.VTEC:
+                sys = self.sysref
 
         if sys > 0 and self.subtype not in [None, sRTCM.SSR_META, sRTCM.SSR_GRID]:
             j = self.sc_t[self.subtype]
@@ -1689,6 +1713,13 @@ class rtcm(cssr, rtcmUtil):
         if self.subtype == sCSSR.CLOCK:
             self.out_log_ssr_clk(sys)
 
+        if self.subtype == sCSSR.HCLOCK:
+            self.fh.write(" {:s}\t{:s}\n".format("SatID", "hclk [m]"))
+            for sat_ in self.lc[0].hclk:
+                if sat2prn(sat_)[0] == sys:
+                    self.fh.write(" {:s}\t{:8.4f}\n".format(
+                        sat2id(sat_), self.lc[0].hclk[sat_]))
+
         if self.subtype == sCSSR.ORBIT:
             self.out_log_ssr_orb(sys)
 
@@ -4061,8 +4092,11 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in (1062, 1068, 1245, 1251, 1257, 1263):
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
+        elif self.msgtype == 1264:
+            self.subtype = sCSSR.VTEC
+            i = self.decode_vtec(msg, i)
         elif self.msgtype == 4076:  # IGS SSR
             i = self.decode_igsssr(msg, i)
         elif self.msgtype in (1030, 1031, 1303, 1304, 1305):  # Network RTK
@@ -4124,7 +4158,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in [1062, 46, 77, 78, 79]:
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
         elif self.msgtype in [1059, 43, 68, 69, 70]:
             self.subtype = sCSSR.CBIAS
@@ -4210,6 +4244,11 @@ class rtcme(cssre, rtcmUtil):
         self.pid = 0  # SSR Provider ID
         self.sid = 0  # SSR Solution Type
 
+        self.week = -1
+        self.inet = 0
+        self.datum = 0
+        self.ci = 0  # dispersive bias consistency indicator
+        self.mw = 0  # MW consistency indicator
         self.lock = {}  # start time of the continuous lock
         self.glo_ch = {}  # frequency channel of GLONASS satellites
 
@@ -4648,14 +4687,26 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
-    def encode_head(self, msg, i, sys=uGNSS.NONE):
+    def glo_tod(self, tow):
+        """ convert time of week (GPST) to time of day (GLONASST) """
+        leaps = 18
+        if self.week >= 0:
+            t = gpst2time(self.week, tow)
+            leaps = timediff(t, gpst2utc(t))
+        return int(tow-leaps+10800) % 86400
+
+    def sat_list(self, sys, corr):
+        """ satellites of the system in the correction data """
+        return [sat for sat in corr if sat2prn(sat)[0] == sys]
+
+    def encode_head(self, msg, i, sys=uGNSS.NONE, nsat=0):
         """ encode the header of ssr message """
         if self.msgtype == 4076 or sys != uGNSS.GLO:
-            blen = 20
+            bs.pack_into('u20', msg, i, self.tow)
+            i += 20
         else:
-            blen = 17
-        bs.pack_into('u'+str(blen), msg, i, self.tow)
-        i += blen
+            bs.pack_into('u17', msg, i, self.glo_tod(self.tow))
+            i += 17
 
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             bs.pack_into('u4b1', msg, i, self.udi[self.sc_t[self.subtype]],
@@ -4678,16 +4729,9 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('b1u4', msg, i, self.iyaw, self.iexpb)
             i += 5
 
-        if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
-                                sRTCM.SSR_TROP]:
-            nsat = 0
-            for sat in self.sat_n:
-                sys_, _ = sat2prn(sat)
-                if sys_ != sys:
-                    continue
-                nsat += 1
+        if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS_EX,
+                                sRTCM.SSR_STEC, sRTCM.SSR_TROP]:
             self.nsat_n = nsat
-
             bs.pack_into('u6', msg, i, nsat)
             i += 6
 
@@ -4696,15 +4740,16 @@ class rtcme(cssre, rtcmUtil):
     def encode_sat(self, msg, i, sat):
         """ encode satellite id """
 
-        sys, prn = sat2prn(sat)
-        svid = prn
+        sys, _ = sat2prn(sat)
+        svid = self.sat2svid(sat)
 
         if self.msgtype == 4076:
             blen = 6
         else:
             if sys == uGNSS.QZS:
                 blen = 4
-                svid = prn-192
+            elif sys == uGNSS.GLO:
+                blen = 5
             else:
                 blen = 6
 
@@ -4754,8 +4799,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
@@ -4777,41 +4822,60 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_orb(self, msg, i, inet=0):
         """ encode RTCM SSR Orbit Correction message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        sat_t = self.sat_list(sys, self.sat_n)
+        i = self.encode_head(msg, i, sys, len(sat_t))
 
-        for sat in self.sat_n:
-            sys_, _ = sat2prn(sat)
-            if sys_ != sys:
-                continue
+        for sat in sat_t:
             i = self.encode_sat(msg, i, sat)
-            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat, inet)
 
         return i
 
     def encode_cssr_clk(self, msg, i, inet=0):
         """encode RTCM SSR Clock Correction message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        sat_t = self.sat_list(sys, self.sat_n)
+        i = self.encode_head(msg, i, sys, len(sat_t))
 
-        for sat in self.sat_n:
-            sys_, _ = sat2prn(sat)
-            if sys_ != sys:
-                continue
+        for sat in sat_t:
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat, inet)
+
+        return i
+
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """ encode RTCM SSR Combined Orbit and Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        sat_t = self.sat_list(sys, self.sat_n)
+        i = self.encode_head(msg, i, sys, len(sat_t))
+
+        for sat in sat_t:
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat, inet)
+            i = self.encode_clk_sat(msg, i, sat, inet)
+
+        return i
+
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """ encode RTCM SSR High-rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        sat_t = self.sat_list(sys, self.sat_n)
+        i = self.encode_head(msg, i, sys, len(sat_t))
+
+        for sat in sat_t:
             i = self.encode_sat(msg, i, sat)
-            i = self.encode_clk_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat, inet)
 
         return i
 
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
         ura = self.lc[inet].ura
+        sat_t = self.sat_list(sys, ura)
+        i = self.encode_head(msg, i, sys, len(sat_t))
 
-        for sat in ura:
-            sys_, _ = sat2prn(sat)
-            if sys_ != sys:
-                continue
+        for sat in sat_t:
             i = self.encode_sat(msg, i, sat)
             if np.isnan(ura[sat]):
                 cls_, val_ = 0, 0
@@ -4825,12 +4889,10 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_cbias(self, msg, i, inet=0):
         """ encode RTCM SSR code bias message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        sat_t = self.sat_list(sys, self.lc[inet].cbias)
+        i = self.encode_head(msg, i, sys, len(sat_t))
 
-        for sat in self.lc[inet].cbias:
-            sys_, _ = sat2prn(sat)
-            if sys_ != sys:
-                continue
+        for sat in sat_t:
             i = self.encode_sat(msg, i, sat)
             cbias = self.lc[inet].cbias[sat]
             nsig = len(cbias)
@@ -4838,8 +4900,8 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
-                code = self.rsig2code(rsig_)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
+                code = self.rsig2code(rsig_, sys)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
 
@@ -4848,38 +4910,28 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_pbias(self, msg, i, inet=0):
         """ encode RTCM SSR phase bias message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
-
         inet = self.inet
+        sat_t = self.sat_list(sys, self.lc[inet].pbias)
+        i = self.encode_head(msg, i, sys, len(sat_t))
 
-        nsat = 0
-        for sat in self.lc[inet].pbias:
-            sys_, _ = sat2prn(sat)
-            if sys_ == sys:
-                nsat += 1
-        bs.pack_into('u6', msg, i, nsat)
-        i += 6
-
-        for sat in self.lc[inet].pbias:
-            sys_, _ = sat2prn(sat)
-            if sys_ != sys:
-                continue
+        for sat in sat_t:
             i = self.encode_sat(msg, i, sat)
             pbias = self.lc[inet].pbias[sat]
             nsig = len(pbias)
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
+                yaw = round(self.lc[inet].yaw.get(sat, 0.0)*256.0) % 512
+                dyaw = self.ival(self.lc[inet].dyaw.get(sat, 0.0), 8,
+                                 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
             for rsig_ in pbias:
 
                 pb = self.ival(pbias[rsig_], 20, 1e-4)
-                code = self.rsig2code(rsig_)
+                code = self.rsig2code(rsig_, sys)
                 if sat in self.lc[inet].si:
                     si = self.lc[inet].si[sat][rsig_]
                 else:
@@ -4890,7 +4942,7 @@ class rtcme(cssre, rtcmUtil):
                 i += 6
 
                 if self.subtype != sRTCM.SSR_PBIAS:  # IGS-SSR
-                    wl = self.lc[inet].wl[sat][rsig_]
+                    wl = self.lc[inet].wl.get(sat, {}).get(rsig_, 0)
                     bs.pack_into('u2', msg, i, wl)
                     i += 2
 
@@ -5075,24 +5127,33 @@ class rtcme(cssre, rtcmUtil):
         elif self.msgtype == 61:
             self.subtype = sRTCM.SSR_GRID
             i = self.encode_ssr_grid(msg, i)
-        elif self.msgtype in [1057, 41, 62, 63, 64]:
+        elif self.msgtype in [1057, 1063, 1240, 1246, 1252, 1258,
+                              41, 62, 63, 64]:
             self.subtype = sCSSR.ORBIT
             i = self.encode_cssr_orb(msg, i)
-        elif self.msgtype in [1058, 42, 65, 66, 67]:
+        elif self.msgtype in [1058, 1064, 1241, 1247, 1253, 1259,
+                              42, 65, 66, 67]:
             self.subtype = sCSSR.CLOCK
             i = self.encode_cssr_clk(msg, i)
-        elif self.msgtype in [1060, 44, 71, 72, 73]:
+        elif self.msgtype in [1060, 1066, 1243, 1249, 1255, 1261,
+                              44, 71, 72, 73]:
             self.subtype = sCSSR.COMBINED
             i = self.encode_cssr_comb(msg, i)
-        elif self.msgtype in [1061, 45, 74, 75, 76]:
+        elif self.msgtype in [1061, 1067, 1244, 1250, 1256, 1262,
+                              45, 74, 75, 76]:
             self.subtype = sCSSR.URA
             i = self.encode_cssr_ura(msg, i)
-        elif self.msgtype in [1062, 46, 77, 78, 79]:
-            self.subtype = sCSSR.CLOCK
+        elif self.msgtype in [1062, 1068, 1245, 1251, 1257, 1263,
+                              46, 77, 78, 79]:
+            self.subtype = sCSSR.HCLOCK
             i = self.encode_cssr_hclk(msg, i)
-        elif self.msgtype in [1059, 43, 68, 69, 70]:
+        elif self.msgtype in [1059, 1065, 1242, 1248, 1254, 1260,
+                              43, 68, 69, 70]:
             self.subtype = sCSSR.CBIAS
             i = self.encode_cssr_cbias(msg, i)
+        elif self.msgtype in [1265, 1266, 1267, 1268, 1269, 1270]:
+            self.subtype = sCSSR.PBIAS
+            i = self.encode_cssr_pbias(msg, i)
         elif self.msgtype >= 80 and self.msgtype < 85:
             self.subtype = sRTCM.SSR_SATANT
             # i = self.encode_ssr_satant(msg, i)
-- 
2.43.0


From 9ab16be74b1692e7e9a16c06c26f27c78b6b3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 27/45] fix: LAMBDA: exclusion of single ambiguities (parmode
 3) searches the remaining ones and adjusts the excluded one, large
 ambiguities do not overflow

---
 src/cssrlib/mlambda.py | 44 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/cssrlib/mlambda.py b/src/cssrlib/mlambda.py
index e4a7dbe..4f5a41d 100644
--- a/src/cssrlib/mlambda.py
+++ b/src/cssrlib/mlambda.py
@@ -86,8 +86,8 @@ def msearch(L, d, ahat, ncands=2):
 
     dist = np.zeros(n)
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
-    step = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
+    step = np.zeros(n, dtype=np.int64)
     afixed = np.zeros((n, ncands))
     sqnorm = np.zeros(ncands)
 
@@ -159,9 +159,9 @@ def estimILS(L, d, ahat, ncands=2):
     sqnorm = np.zeros(ncands)
 
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
     left = np.zeros(n)
-    step = np.zeros(n, dtype=np.int32)
+    step = np.zeros(n, dtype=np.int64)
 
     acond[-1] = ahat[-1]
     zcond[-1] = round(acond[-1])
@@ -315,23 +315,29 @@ def mlambda(ahat, Qahat, ncands=2, parmode=1, P0=0.995):
         nfix = len(zhat)
 
         thresar = 2.0
-        ratio = s[1]/s[0]
-
-        if ratio < thresar:
-
-            for k in range(len(zhat)):
-                d_ = np.delete(d, k)
-                L_ = np.delete(np.delete(L, k, 0), k, 1)
-                zhat_ = np.delete(d, k)
-
-                zfix_, s = msearch(L_, d_, zhat_, ncands)
-                # zfix, s = estimILS(L_, d_, zhat_, ncands)
-                ratio = s[1]/s[0]
-                if ratio >= thresar:
+        if ncands > 1 and s[1] < thresar*s[0]:
+
+            # exclude one of the ambiguities
+            for k in range(len(zhat) if len(zhat) > 1 else 0):
+                idx = np.delete(np.arange(len(zhat)), k)
+                Qz_ = Qzhat[np.ix_(idx, idx)]
+                L_, d_ = ldldecom(Qz_)
+
+                zpar, s_ = msearch(L_, d_, zhat[idx], ncands)
+                # zpar, s_ = estimILS(L_, d_, zhat[idx], ncands)
+                if s_[1] >= thresar*s_[0]:
+                    # adjust the excluded ambiguity based on its correlation
+                    # with the fixed ambiguities
+                    QP = Qzhat[k, idx]@inv(Qz_)
+                    zfix = np.zeros((len(zhat), ncands))
+                    for i in range(ncands):
+                        zfix[idx, i] = zpar[:, i]
+                        zfix[k, i] = zhat[k] - QP@(zhat[idx]-zpar[:, i])
+                    s = s_
+                    Ps = sr_boost(d_)
+                    nfix = len(zhat)-1
                     break
 
-        nfix = len(zhat)-1
-
     afix_ = iZt@zfix
     return afix_, s, nfix, Ps
 
-- 
2.43.0


From 3d4c27130b6f3431ee5d5e6a6375351fccd7c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 28/45] fix: carrier smoothing restarts after edited or missing
 measurements, first epoch without data, 1 Hz data with fractional epochs

---
 src/cssrlib/pntpos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..12c74e8 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -190,7 +190,8 @@ class stdpos(pppos):
             self.cs_cnt[sat] = 1
             return Pm
 
-        if sat not in self.cs_cnt or timediff(obs.t, self.cs_t0[sat]) > dt_th:
+        if sat not in self.cs_cnt or sat not in self.cs_t0 or \
+                timediff(obs.t, self.cs_t0[sat]) > dt_th + 1e-6:
             self.cs_cnt[sat] = 1
 
         if self.cs_cnt[sat] == 1:
@@ -298,6 +299,7 @@ class stdpos(pppos):
             # Skip edited observations
             #
             if np.any(self.nav.edt[sat-1, :] > 0):
+                self.cs_cnt[sat] = 1  # restart carrier smoothing
                 continue
 
             # Geometric distance corrected for Earth rotation
-- 
2.43.0


From 1d81d88411570c88a93f7bb2521a4a7263c6727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 29/45] fix: RINEX observations: continuation lines, event
 records and empty epochs, loss of lock bit, unequal signal numbers, unknown
 codes, writer epochs and headers, end of data in sync_obs

---
 src/cssrlib/rinex.py | 134 ++++++++++++++++++-------------------------
 1 file changed, 56 insertions(+), 78 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..6b3f1cd 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -838,14 +838,17 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
                 # Convert to RINEX signal code and store in map
                 #
                 for i, sig in enumerate(sigs):
-                    rnxSig = rSigRnx(gns, sig)
+                    try:
+                        rnxSig = rSigRnx(gns, sig)
+                    except ValueError:  # unsupported observation code
+                        continue
                     if gns not in self.sig_map:
                         self.sig_map.update({gns: {}})
                     self.sig_map[gns].update({i: rnxSig})
@@ -877,6 +880,13 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # Skip event records and epochs without observations
+            #
+            if line[31] not in ' 01' or nsat == 0:
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
@@ -918,17 +928,14 @@ class rnxdec:
                 elif sys == uGNSS.SBS:
                     prn += 100
                 sat = prn2sat(sys, prn)
+                if sat <= 0:
+                    continue
 
-                pr = np.zeros(len(self.getSignals(sys, uTYP.C)),
-                              dtype=np.float64)
-                cp = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.float64)
-                ll = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.int32)
-                dp = np.zeros(len(self.getSignals(sys, uTYP.D)),
-                              dtype=np.float64)
-                cn = np.zeros(len(self.getSignals(sys, uTYP.S)),
-                              dtype=np.float64)
+                pr = np.zeros(self.nsig[uTYP.C], dtype=np.float64)
+                cp = np.zeros(self.nsig[uTYP.L], dtype=np.float64)
+                ll = np.zeros(self.nsig[uTYP.L], dtype=np.int32)
+                dp = np.zeros(self.nsig[uTYP.D], dtype=np.float64)
+                cn = np.zeros(self.nsig[uTYP.S], dtype=np.float64)
 
                 for i, sig in self.sig_map[sys].items():
 
@@ -946,7 +953,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = int(slli) & 1 if slli in list('01234567') else 0
 
                     # Signal index in data structure
                     #
@@ -989,12 +996,14 @@ def sync_obs(dec, decb, dt_th=0.1):
     obs = dec.decode_obs()
     obsb = decb.decode_obs()
     while True:
+        if obs.t.time == 0 or obsb.t.time == 0:  # end of data
+            return Obs(), Obs()
         dt = timediff(obs.t, obsb.t)
         if np.abs(dt) <= dt_th:
             break
         if dt > dt_th:
             obsb = decb.decode_obs()
-        elif dt < dt_th:
+        else:
             obs = dec.decode_obs()
     return obs, obsb
 
@@ -1081,54 +1090,20 @@ class rnxenc:
             "ANTENNA: DELTA H/E/N"))
 
         for sys in self.sig_tab:
-            pr = self.sig_tab[sys][uTYP.C]
-            cp = self.sig_tab[sys][uTYP.L]
-            nsig = len(pr)+len(cp)
-
-            if uTYP.D in self.sig_tab[sys]:
-                dp = self.sig_tab[sys][uTYP.D]
-                nsig += len(dp)
-
-            if uTYP.S in self.sig_tab[sys]:
-                cn = self.sig_tab[sys][uTYP.S]
-                nsig += len(cn)
+            sigs = [sig for _, _, sig in self.obs_columns(sys)]
+            nsig = len(sigs)
 
             if nsig == 0:
                 continue
 
-            fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
-
-            n = 0
-            for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
-                if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
-
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+            for k in range(0, nsig, 13):
+                if k == 0:
+                    s = "{:1s}  {:3d}".format(sys_t[sys], nsig)
+                else:
+                    s = "{:6s}".format("")
+                for sig in sigs[k:k+13]:
+                    s += " {:3s}".format(sig.str())
+                fh.write("{:60s}{:20s}\n".format(s, "SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
@@ -1144,8 +1119,16 @@ class rnxenc:
                  format("", "END OF HEADER"))
         fh.flush()
 
+    def obs_columns(self, sys):
+        """ list of observation types (type, index, signal) as written """
+        tab = self.sig_tab.get(sys, {})
+        n = max([len(sigs) for sigs in tab.values()], default=0)
+        return [(typ, k, tab[typ][k]) for k in range(n)
+                for typ in (uTYP.C, uTYP.L, uTYP.D, uTYP.S)
+                if typ in tab and k < len(tab[typ])]
+
     def sval(self, v: float):
-        if v == 0.0:
+        if v == 0.0 or np.isnan(v):
             s = "{:14s}".format("")
         else:
             s = "{:14.3f}".format(v)
@@ -1154,34 +1137,29 @@ class rnxenc:
     def rnx_obs_body(self, obs=None, fh=None):
         """ write RINEX observation message to file """
 
-        ep = time2epoch(obs.time)
+        # round to the resolution of the record
+        t = timeadd(obs.t, 0.5e-7)
+        ep = time2epoch(gtime_t(t.time, np.floor(t.sec*1e7)*1e-7))
         nsat = len(obs.sat)
-        nsig = obs.P.shape[1]
-        fh.write("> {:4d} {:02d} {:02d} {:02d} {:02d} {:010.7f}".
+        fh.write("> {:4d} {:02d} {:02d} {:02d} {:02d} {:10.7f}".
                  format(int(ep[0]), int(ep[1]), int(ep[2]),
                         int(ep[3]), int(ep[4]), ep[5]))
         fh.write("  {:1d}{:3d}\n".format(0, nsat))
 
+        data = {uTYP.C: obs.P, uTYP.L: obs.L, uTYP.D: obs.D, uTYP.S: obs.S}
+
         for k in range(nsat):
             sys, prn = sat2prn(obs.sat[k])
             fh.write("{:3s}".format(sat2id(obs.sat[k])))
-            for i in range(nsig):
-                ssi = min(max(int(obs.S[k][i]/6), 1), 9)
-                lli = obs.lli[k][i]
-                fh.write("{:14s}{:2s}".format(
-                    self.sval(obs.P[k][i]), ""))
-
-                fh.write("{:14s}".format(self.sval(obs.L[k][i])))
-                if obs.L[k][i] == 0.0:
-                    fh.write("{:2s}".format(""))
+            for typ, i, _ in self.obs_columns(sys):
+                v = data[typ][k][i]
+                fh.write("{:14s}".format(self.sval(v)))
+                if typ == uTYP.L and v != 0.0 and not np.isnan(v):
+                    cn = obs.S[k][i] if i < len(obs.S[k]) else 0.0
+                    ssi = 0 if np.isnan(cn) else min(max(int(cn/6), 1), 9)
+                    fh.write("{:1d}{:1d}".format(int(obs.lli[k][i]), ssi))
                 else:
-                    fh.write("{:1d}{:1d}".format(lli, ssi))
-
-                if uTYP.D in self.sig_tab[sys]:
-                    fh.write("{:14s}{:2s}".format(self.sval(obs.D[k][i]), ""))
-
-                if uTYP.S in self.sig_tab[sys]:
-                    fh.write("{:14s}{:2s}".format(self.sval(obs.S[k][i]), ""))
+                    fh.write("{:2s}".format(""))
 
             fh.write("\n")
 
-- 
2.43.0


From bb69bd5d9c59bca9837f505bfdccec56ba2fbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 30/45] fix: RINEX navigation: blank fields, GLONASS clock
 sign, health and CDMA fields, SBAS and NavIC times, group delays of Galileo
 and BeiDou, duplicate records, transmission times and health of written
 records

---
 src/cssrlib/rinex.py | 164 +++++++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 75 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 6b3f1cd..8ac9b74 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -127,9 +127,9 @@ class rnxdec:
         """ convert string to float """
         if c >= 0:
             u = u[19*c+4:19*(c+1)+4]
-        if u.isspace():
+        if not u.strip():
             return 0.0
-        return float(u.replace("D", "E"))
+        return float(u.replace("D", "E").replace("d", "e"))
 
     def adjday(self, t: gtime_t, t0: gtime_t):
         """ adjust time to within 1 day of t0 """
@@ -390,8 +390,9 @@ class rnxdec:
                 geph.mode = self.mode_nav
                 toc = self.decode_time(line, 4)
                 week, tocs = time2gpst(toc)
-                toc = gpst2time(week,
-                                np.floor((tocs+450.0)/900.0)*900.0)
+                if self.mode_nav == 0:  # FDMA
+                    toc = gpst2time(week,
+                                    np.floor((tocs+450.0)/900.0)*900.0)
                 dow = int(tocs//86400.0)
 
                 geph.taun = -self.flt(line, 1)
@@ -399,7 +400,7 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -418,7 +419,7 @@ class rnxdec:
                     if geph.frq > 128:
                         geph.frq -= 256
                 else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                    geph.status = int(self.flt(line, 3))  # data validity
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +433,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -445,38 +446,43 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.flag = geph.status
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
-                        if len(line) >= 80:
-                            geph.svh = int(self.flt(line, 3))
+                        geph.sva = int(geph.urai[0])
+                        # b0: l(3), b1: A_C almanac health reported,
+                        # b2: C almanac health (1: healthy)
+                        flags = int(self.flt(line, 3))
+                        if flags & 0x1 or flags & 0x6 == 0x2:
+                            geph.svh |= 0x1
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
-                        geph.aode = int(self.flt(line, 2))
-                        geph.aodc = int(self.flt(line, 3))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
+                        geph.aode = self.flt(line, 2)
+                        geph.aodc = self.flt(line, 3)
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 2)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
@@ -500,10 +506,18 @@ class rnxdec:
                 vel = np.zeros(3)
                 acc = np.zeros(3)
 
-                seph.toc = self.decode_time(line, 4)
+                seph.t0 = self.decode_time(line, 4)
+                seph.toc = seph.t0
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
                 seph.tot = self.flt(line, 3)
+                week, _ = time2gpst(seph.t0)
+                seph.tof = gpst2time(week, seph.tot)
+                tt = timediff(seph.tof, seph.t0)
+                if tt > 302400.0:
+                    seph.tof = timeadd(seph.tof, -604800.0)
+                elif tt < -302400.0:
+                    seph.tof = timeadd(seph.tof, 604800.0)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -576,8 +590,9 @@ class rnxdec:
 
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
-                eph.iode = int(self.flt(line, 0))
+                eph.iodc = int(self.flt(line, 0))
                 eph.iode = eph.iodc
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
@@ -601,13 +616,12 @@ class rnxdec:
             if sys == uGNSS.GAL or self.mode_nav == 0:
                 eph.code = int(self.flt(line, 1))  # source for GAL
                 eph.week = int(self.flt(line, 2))
+                if sys == uGNSS.GPS:
+                    eph.l2p = int(self.flt(line, 3))
 
                 if sys == uGNSS.GAL and self.ver < 4.0:
                     eph.mode = 1 if eph.code & 0x2 else 0
 
-            elif sys == uGNSS.IRN and self.mode_nav == 0:
-                eph.week = int(self.flt(line, 2))
-
             else:
                 eph.delnd = self.flt(line, 1)
                 if sys == uGNSS.BDS:
@@ -633,11 +647,11 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
-            else:
-                eph.sva = int(self.flt(line, 0))
+                    eph.tgd = self.flt(line, 2)
+            elif sys != uGNSS.BDS or self.mode_nav == 0:
+                eph.sva = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 eph.tgd = float(self.flt(line, 2))
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
@@ -645,14 +659,9 @@ class rnxdec:
                         eph.iodc = int(self.flt(line, 3))
                     else:
                         eph.urai[2] = int(self.flt(line, 3))  # URAI_NED2
-                        eph.urai[3] = eph.sva  # URAI_ED
+                        eph.urai[3] = int(eph.sva)  # URAI_ED
                 elif sys == uGNSS.GAL:
-                    tgd_b = float(self.flt(line, 3))
-                    if (eph.code >> 9) & 1:  # E5b,E1
-                        eph.tgd_b = eph.tgd
-                        eph.tgd = tgd_b
-                    else:  # E5a,E1
-                        eph.tgd_b = tgd_b
+                    eph.tgd_b = float(self.flt(line, 3))  # E5b,E1
                 elif sys == uGNSS.BDS:
                     eph.tgd_b = float(self.flt(line, 3))  # tgd2 B2/B3
 
@@ -699,8 +708,7 @@ class rnxdec:
                         eph.isc[3] = self.flt(line, 3)  # ISC_L5Q5
                     else:  # LNAV
                         tot = self.flt(line, 0)
-                        if len(line) >= 42:
-                            eph.fit = int(self.flt(line, 1))
+                        eph.fit = int(self.flt(line, 1))
 
             if sys in (uGNSS.GPS, uGNSS.QZS):
                 if self.mode_nav > 0:  # CNAV, CNAV/2
@@ -711,10 +719,9 @@ class rnxdec:
 
                         line = fnav.readline()  # line #9
 
-                    tot = int(self.flt(line, 0))
+                    tot = self.flt(line, 0)
                     eph.wn_op = int(self.flt(line, 1))
-                    if len(line) >= 61:  # optional
-                        eph.integ = int(self.flt(line, 2))
+                    eph.integ = int(self.flt(line, 2))  # optional
 
             elif sys == uGNSS.BDS and self.mode_nav > 0:  # CNAV-1,2,3
                 line = fnav.readline()  # line #8
@@ -724,7 +731,7 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
@@ -1163,25 +1170,35 @@ class rnxenc:
 
             fh.write("\n")
 
+    def is_recorded(self, sat, mode, *key):
+        """ check whether the ephemeris has been written already """
+        rec = self.rec_eph.setdefault(sat, {}).setdefault(mode, set())
+        if key in rec:
+            return True
+        rec.add(key)
+        return False
+
     def rnx_nav_body(self, eph=None, fh=None):
         """ write RINEX navigation message to file """
-        if eph.sat in self.rec_eph.keys():
-            if eph.mode in self.rec_eph[eph.sat].keys() and \
-                    self.rec_eph[eph.sat][eph.mode][0] == eph.iode:
-                return
-        else:
-            self.rec_eph[eph.sat] = {}
-        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toes]
+        if self.is_recorded(eph.sat, eph.mode, eph.iode, eph.iodc, eph.svh,
+                            eph.toe.time, eph.toc.time):
+            return
 
         id_ = sat2id(eph.sat)
         sys, prn = sat2prn(eph.sat)
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, _ = time2bdt(eph.toc)
+            t0 = bdt2gpst(bdt2time(eph.week if eph.mode == 0 else week, 0.0))
         else:
             ep = time2epoch(eph.toc)
-            week, tot_ = time2gpst(eph.tot)
+            week, _ = time2gpst(eph.toc)
+            if sys == uGNSS.GAL or eph.mode == 0:
+                week = eph.week
+            t0 = gpst2time(week, 0.0)
+        # seconds of the week of the ephemeris
+        tot_ = timediff(eph.tot, t0)
 
         if sys == uGNSS.BDS:
             if eph.mode == 0:  # D1/D2
@@ -1276,13 +1293,18 @@ class rnxenc:
                     fh.write("    {:19.12E}{:19s}{:19s}{:19s}\n".
                              format(tot_, "", "", ""))
 
+        # QZSS: health of L1C/A and L1C/B is kept separately
+        code, svh = eph.code, eph.svh
+        if sys == uGNSS.QZS:
+            code, svh = 2, eph.svh | eph.code
+
         if (sys == uGNSS.GPS or sys == uGNSS.QZS):
             if eph.mode == 0:  # LNAV
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                         format(eph.idot, float(eph.code), float(eph.week),
+                         format(eph.idot, float(code), float(eph.week),
                                 float(eph.l2p)))
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                         format(float(eph.sva), float(eph.svh), eph.tgd,
+                         format(float(eph.sva), float(svh), eph.tgd,
                                 float(eph.iodc)))
                 fh.write("    {:19.12E}{:19.12E}{:19s}{:19s}\n".
                          format(tot_, float(eph.fit), "", ""))
@@ -1291,7 +1313,7 @@ class rnxenc:
                          format(eph.idot, float(eph.delnd), float(eph.urai[0]),
                                 float(eph.urai[1])))
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                         format(float(eph.urai[3]), float(eph.svh), eph.tgd,
+                         format(float(eph.urai[3]), float(svh), eph.tgd,
                                 float(eph.urai[2])))
                 fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
                          format(float(eph.isc[0]), float(eph.isc[1]),
@@ -1346,13 +1368,9 @@ class rnxenc:
 
     def rnx_gnav_body(self, geph=None, fh=None):
         """ write RINEX navigation message for GLONASS to file """
-        if geph.sat in self.rec_eph.keys():
-            if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode][0] == geph.iode:
-                return
-        else:
-            self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toes]
+        if self.is_recorded(geph.sat, geph.mode, geph.iode, geph.svh,
+                            geph.toe.time):
+            return
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
@@ -1361,7 +1379,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
@@ -1397,8 +1415,8 @@ class rnxenc:
 
         if geph.mode == 0:  # FDMA
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
-                     format(float(geph.flag), float(geph.dtaun),
-                            float(geph.sva), ""))
+                     format(float(geph.flag if geph.flag else geph.status),
+                            float(geph.dtaun), float(geph.sva), ""))
         else:  # L1OC, L3OC
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
                      format(float(geph.sattype), float(geph.src),
@@ -1412,19 +1430,15 @@ class rnxenc:
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
                      format(geph.wmax, float(geph.dpos[0]),
                             geph.dpos[1], geph.dpos[2]))
-            fh.write("    {:19.12E}{:19.12E}{:19s}{:19.12E}\n".
-                     format(float(geph.urai[0]), float(geph.urai[1]), "",
-                            tot_))
+            fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
+                     format(float(geph.urai[0]), float(geph.urai[1]), tot_,
+                            ""))
 
     def rnx_snav_body(self, seph=None, fh=None):
         """ write RINEX navigation message for SBAS to file """
-        if seph.sat in self.rec_eph.keys():
-            if seph.mode in self.rec_eph[seph.sat].keys() and \
-                    self.rec_eph[seph.sat][seph.mode][0] == seph.iodn:
-                return
-        else:
-            self.rec_eph[seph.sat] = {}
-        self.rec_eph[seph.sat][seph.mode] = [seph.iodn]
+        if self.is_recorded(seph.sat, seph.mode, seph.iodn, seph.svh,
+                            seph.t0.time):
+            return
 
         id_ = sat2id(seph.sat)
         sys, prn = sat2prn(seph.sat)
-- 
2.43.0


From dfcde3cb05bb20b94eb78557ccc7fb1d960441a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 31/45] fix: precise products: missing entries, EP/EV records,
 unsupported satellites, several files, clocks of zero, epochs without data,
 single epoch and complete satellite list in written SP3

---
 src/cssrlib/peph.py  | 218 +++++++++++++++++++++++--------------------
 src/cssrlib/rinex.py |  15 +--
 2 files changed, 127 insertions(+), 106 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..aba807b 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -46,11 +46,13 @@ class peph:
     svclk = None
     svvel = None
     status = 0
-    scl = [0.0, 0.0]
 
     def __init__(self):
         self.t = None
         self.nmax = 24*12
+        self.scl = [0.0, 0.0]
+        self.sat = []
+        self.flag = 'P'
 
     def parse_satlist(self, line):
         n = len(line[9:60].strip())//3
@@ -68,10 +70,75 @@ class peph:
                 self.acc[self.cnt] = acc
             self.cnt += 1
 
+    def store_peph(self, nav, pe):
+        """ add epoch in order of time, same epochs are merged """
+        i = len(nav.peph)
+        while i > 0 and timediff(nav.peph[i-1].time, pe.time) > 1e-6:
+            i -= 1
+
+        if i > 0 and abs(timediff(nav.peph[i-1].time, pe.time)) <= 1e-6:
+            p_ = nav.peph[i-1]
+            for d, s, std, std_s in ((p_.pos, pe.pos, p_.std, pe.std),
+                                     (p_.vel, pe.vel, p_.vst, pe.vst)):
+                idx = ~np.isnan(s)
+                d[idx] = s[idx]
+                std[idx] = std_s[idx]
+        else:
+            nav.peph.insert(i, pe)
+
+        nav.ne = len(nav.peph)
+
+    def decode_rec(self, line, pe, opt=0):
+        """ decode position or velocity record of SP3 """
+        sat_ = id2sat(line[1:4])
+        if sat_ <= 0:  # not supported satellite
+            return
+
+        # clk_ev   = line[74] # clock event flag
+        # clk_pred = line[75] # clock pred. flag
+        # mnv_flag = line[78] # maneuver flag
+        # orb_pred = line[79] # orbit pred. flag
+        pred_c = len(line) >= 76 and line[75] == 'P'
+        pred_o = len(line) >= 80 and line[79] == 'P'
+
+        # x,y,z[km],clock[usec]
+        val = np.ones(4)*np.nan
+        for j in range(4):
+            s = line[4+j*14:18+j*14].strip()
+            if s and abs(float(s)-999999.999999) >= 1e-6:
+                val[j] = float(s)
+        if np.isnan(val[0:3]).any() or not val[0:3].any():
+            val[0:3] = np.nan  # bad or absent position
+
+        pos, std = (pe.pos, pe.std) if line[0] == 'P' else (pe.vel, pe.vst)
+
+        for j in range(4):
+            pred = pred_o if j < 3 else pred_c
+            if ((opt & 1) and pred) or ((opt & 2) and not pred):
+                continue
+
+            scl = 1e3 if j < 3 else 1e-6
+            if line[0] == 'V':
+                scl *= 1e-4
+            if not np.isnan(val[j]):
+                pos[sat_-1, j] = val[j]*scl
+
+        if len(line) >= 74:
+            for j in range(4):
+                if j < 3:
+                    slen, scl, ofst = 2, 1e-3, 0
+                else:
+                    slen, scl, ofst = 3, 1e-12, 1
+                s = line[61+j*3:61+j*3+slen].strip()
+                if self.scl[ofst] > 0.0 and s and int(s) > 0:
+                    if line[0] == 'V':
+                        scl *= 1e-4
+                    std[sat_-1, j] = pow(self.scl[ofst], int(s))*scl
+
     def parse_sp3(self, fname, nav, opt=0):
         ver_t = ['c', 'd']
         self.status = 0
-        v = False
+        pe = None
         with open(fname, "r") as fh:
             for line in fh:
                 if line[0:3] == 'EOF':  # end of record
@@ -140,66 +207,15 @@ class peph:
 
                 if self.status == 10:  # body
                     if line[0:2] == '* ':  # epoch header
-                        v = False
-                        nav.ne += 1
+                        if pe is not None:
+                            self.store_peph(nav, pe)
                         self.cnt = 0
-                        peph = peph_t(str2time(line, 3, 27))
-                        # ep = time2epoch(peph.time)
-                        # print("{:4.0f}/{:02.0f}/{:02.0f} {:2.0f}:{:2.0f}:{:5.2f}"
-                        #       .format(ep[0], ep[1], ep[2], ep[3], ep[4], ep[5]))
+                        pe = peph_t(str2time(line, 3, 27))
+                    elif line[0:1] in ('P', 'V') and pe is not None:
+                        self.decode_rec(line, pe, opt)
 
-                        nline = self.nsat if self.flag == 'P' else self.nsat*2
-                        for _ in range(nline):
-                            line = fh.readline()
-                            if line[0] != 'P' and line[0] != 'V':
-                                continue
-
-                            svid = line[1:4]
-                            sat_ = id2sat(svid)
-
-                            # clk_ev   = line[74] # clock event flag
-                            # clk_pred = line[75] # clock pred. flag
-                            # mnv_flag = line[78] # maneuver flag
-                            # orb_pred = line[79] # orbit pred. flag
-                            pred_c = len(line) >= 76 and line[75] == 'P'
-                            pred_o = len(line) >= 80 and line[79] == 'P'
-
-                            # x,y,z[km],clock[usec]
-                            for j in range(4):
-                                if j < 3 and (opt & 1) and pred_o:
-                                    continue
-                                if j < 3 and (opt & 2) and not pred_o:
-                                    continue
-                                if j == 3 and (opt & 1) and pred_c:
-                                    continue
-                                if j == 3 and (opt & 2) and not pred_c:
-                                    continue
-
-                                val = float(line[4+j*14:18+j*14])
-                                if abs(val-999999.999999) >= 1e-6:
-                                    scl = 1e3 if j < 3 else 1e-6
-                                    if line[0] == 'P':
-                                        v = True
-                                        peph.pos[sat_-1, j] = val*scl
-                                    elif v:
-                                        peph.vel[sat_-1, j] = val*scl*1e-4
-
-                            if len(line) >= 74:
-                                for j in range(4):
-                                    if j < 3:
-                                        slen, scl, ofst = 2, 1e-3, 0
-                                    else:
-                                        slen, scl, ofst = 3, 1e-12, 1
-                                    s = line[61+j*3:61+j*3+slen]
-                                    std = int(s) if s[-1] != ' ' else 0
-                                    if self.scl[ofst] > 0.0 and std > 0.0:
-                                        v = pow(self.scl[ofst], std)*scl
-                                        if line[0] == 'P':
-                                            peph.std[sat_-1, j] = v
-                                        else:
-                                            peph.vst[sat_-1, j] = v*1e-4
-                    if v:
-                        nav.peph.append(peph)
+        if pe is not None:
+            self.store_peph(nav, pe)
 
         return nav
 
@@ -210,9 +226,14 @@ class peph:
 
         # Update accumulated satellite list
         #
-        if sats is not None:
-            self.nsat = len(sats)
-            self.sat = sorted(list(sats))
+        if sats is None:
+            sats = set(s for s in self.sat if s > 0)
+            for pe in nav.peph:
+                idx = np.where(~np.isnan(pe.pos).all(axis=1))[0]
+                sats.update(int(k)+1 for k in idx)
+
+        self.nsat = len(sats)
+        self.sat = sorted(list(sats))
 
         with open(fname, "w") as fh:
 
@@ -230,7 +251,7 @@ class peph:
                      .format(e[0], e[1], e[2], e[3], e[4], e[5], ne, ' '))
 
             week, secs = time2gpst(t0)
-            tstep = timediff(nav.peph[1].time, t0)
+            tstep = timediff(nav.peph[1].time, t0) if ne > 1 else 0.0
             mjd = 44244 + 7*week + int(secs/86400.0)
             fod = time2doy(t0) % 1
 
@@ -245,7 +266,7 @@ class peph:
                 prns = [sat2id(s) for s in self.sat[i*17:i*17+17]]
                 fh.write('+ {}   {:51s}\n'.format(nsat, ''.join(prns)))
 
-            for i in range(int(self.nsat / 17+1)):
+            for i in range(int(np.ceil(self.nsat / 17))):
 
                 accs = ['  0' for s in self.sat[i*17:i*17+17]]
                 fh.write('++{}   {:51s}\n'.format('    ', ''.join(accs)))
@@ -310,6 +331,7 @@ class peph:
         t = np.zeros(NMAX+1)
         p = np.zeros((3, NMAX+1))
 
+        nav.ne = len(nav.peph)
         if nav.ne < NMAX+1 or \
                 timediff(time, nav.peph[0].time) < -MAXDTE or \
                 timediff(time, nav.peph[nav.ne-1].time) > MAXDTE:
@@ -331,7 +353,8 @@ class peph:
 
         for j in range(NMAX+1):
             t[j] = timediff(nav.peph[i+j].time, time)
-            if np.linalg.norm(nav.peph[i+j].pos[sat-1, :]) <= 0.0:
+            pos = nav.peph[i+j].pos[sat-1, 0:3]
+            if np.isnan(pos).any() or not pos.any():  # missing data
                 return None, None, False, False
 
         for j in range(NMAX+1):
@@ -346,6 +369,7 @@ class peph:
             rs[i] = self.interppol(t, p[i, :], NMAX+1)
 
         p_ = nav.peph[index:index+2]
+        std = 0.0
 
         if vare:
             s = np.zeros(3)
@@ -365,18 +389,14 @@ class peph:
 
         if t[0] <= 0.0:
             dts[0] = c[0]
-            if dts[0] != 0.0:
-                std = p_[0].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[0]
+            std = p_[0].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[0]
         elif t[1] >= 0.0:
             dts[0] = c[1]
-            if dts[0] != 0.0:
-                std = p_[1].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[1]
-        elif c[0] != np.nan and c[1] != np.nan:
+            std = p_[1].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*t[1]
+        else:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
-        else:
-            dts[0] = np.nan
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
 
         if varc:
             varc = std**2
@@ -408,19 +428,16 @@ class peph:
 
         if t[0] <= 0.0:
             dts[0] = c[0]
-            if dts[0] == 0.0:
-                return None, False
             std = p_[0].std[sat-1]*rCST.CLIGHT-EXTERR_CLK*t[0]
         elif t[1] >= 0.0:
             dts[0] = c[1]
-            if dts[0] == 0.0:
-                return None, False
-            std = p_[1].std[sat-1]*rCST.CLIGHT-EXTERR_CLK*t[1]
-        elif c[0] != 0.0 and c[1] != 0.0:
+            std = p_[1].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*t[1]
+        else:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
-        else:
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
+
+        if np.isnan(dts[0]):  # missing data
             return None, False
 
         if varc:
@@ -452,17 +469,24 @@ class peph:
 
         # Satellite position based on SP3 at epoch plus delta t
         #
-        time_tt = timeadd(time, tt)
-        rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
-            return None, None, False
-
-        # Get clock offset from Clock-RINEX
+        # (minus delta t if there is no valid data after the epoch)
         #
-        if nav.nc >= 2:
-            dtst, _ = self.pephclk(time_tt, sat, nav)
-            if dtst is None:
-                return None, None, False
+        for dt in (tt, -tt):
+            time_tt = timeadd(time, dt)
+            rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
+            if rst is None:
+                continue
+
+            # Get clock offset from Clock-RINEX
+            #
+            if nav.nc >= 2:
+                dtst, _ = self.pephclk(time_tt, sat, nav)
+
+            if dtst is not None and \
+                    (np.isnan(dtss[0]) or not np.isnan(dtst[0])):
+                break
+        else:
+            return None, None, False
 
         # Satellite position and velocity (from differentiation)
         #
@@ -470,17 +494,13 @@ class peph:
         dts = np.zeros(2)
 
         rs[0:3] = rss
-        rs[3:6] = (rst-rss)/tt
+        rs[3:6] = (rst-rss)/dt
 
         # Apply relativistic correction to clock offset, compute clock rate from
         # differentiation
         #
-        if dtss[0] != 0.0:
-            dt_rel = self.pephrel(rs)
-            dts[0] = dtss[0] + dt_rel
-            dts[1] = (dtst[0]-dtss[0])/tt
-        else:
-            dts = dtss
+        dts[0] = dtss[0] + self.pephrel(rs)
+        dts[1] = (dtst[0]-dtss[0])/dt
 
         if var:
             var = vare+varc
diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 8ac9b74..289a870 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -24,7 +24,7 @@ class pclk_t:
             self.time = time
         else:
             self.time = gtime_t()
-        self.clk = np.zeros(uGNSS.MAXSAT)
+        self.clk = np.ones(uGNSS.MAXSAT)*np.nan
         self.std = np.zeros(uGNSS.MAXSAT)
 
 
@@ -760,6 +760,7 @@ class rnxdec:
         offs = None
 
         nav.pclk = []
+        nav.nc = 0
         fnav = open(clkfile, 'rt')
 
         # Read header section
@@ -780,11 +781,9 @@ class rnxdec:
             if line[0:2] != 'AS':
                 continue
 
-            sys = char2sys(line[3])
-            prn = int(line[4:7])
-            if sys == uGNSS.QZS:
-                prn += 192
-            sat = prn2sat(sys, prn)
+            sat = id2sat(line[3:6])
+            if sat <= 0:  # not supported satellite
+                continue
 
             t = self.decode_time(line, offs+8, 9)
 
@@ -796,11 +795,13 @@ class rnxdec:
 
             nrec = int(line[offs+35:offs+37])
             clk = float(line[offs+40:offs+59])
-            std = float(line[offs+61:offs+80]) if nrec >= 2 else 0.0
+            std = float(line[offs+60:offs+79]) if nrec >= 2 else 0.0
 
             nav.pclk[nav.nc-1].clk[sat-1] = clk
             nav.pclk[nav.nc-1].std[sat-1] = std
 
+        fnav.close()
+
         return nav
 
     def decode_obsh(self, obsfile: str) -> int:
-- 
2.43.0


From 7f6a710c7a75e647354a36c2d70037c82c1374f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 32/45] fix: biases and antennas: difference lookup, open
 intervals, station records, unsupported satellites and signals, missing
 frequencies, wide offsets, individually calibrated antennas, short zenith
 grids

---
 src/cssrlib/peph.py   | 168 +++++++++++++++++++++++++-----------------
 src/cssrlib/pppssr.py |  10 ++-
 2 files changed, 110 insertions(+), 68 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index aba807b..0d8cf25 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -538,15 +538,17 @@ class atxdec():
 
         with open(fname, "r") as fh:
             for line in fh:
-                if len(line) < 60 or "COMMENT" in line[60:]:
+                noazi = line[3:8] == "NOAZI"
+                if not noazi and (len(line) < 60 or "COMMENT" in line[60:]):
                     continue
                 if "START OF ANTENNA" in line[60:]:
                     pcv = pcv_t()
+                    sys = uGNSS.NONE
                     state = True
                 elif "END OF ANTENNA" in line[60:]:
                     if pcv.sat is None:
                         self.pcvr.append(pcv)
-                    elif not onlyReceiver:
+                    elif not onlyReceiver and pcv.sat > 0:
                         self.pcvs.append(pcv)
                     state = False
                 if not state:
@@ -554,32 +556,45 @@ class atxdec():
                 if "TYPE / SERIAL NO" in line[60:]:
                     pcv.type = line[0:20]
                     pcv.code = line[20:40].strip()
-                    if not pcv.code:
-                        pcv.sat = None
-                    else:
+                    if len(pcv.code) == 3 and pcv.code[0].isalpha() and \
+                            pcv.code[1:].isdigit():
                         pcv.sat = id2sat(pcv.code)
+                    else:
+                        # Individual calibrations are identified by type and
+                        # serial number
+                        pcv.sat = None
+                        if pcv.code:
+                            pcv.type = line[0:40].rstrip()
                 elif "VALID FROM" in line[60:]:
                     pcv.ts = str2time(line, 2, 40)
                 elif "VALID UNTIL" in line[60:]:
                     pcv.te = str2time(line, 2, 40)
                 elif "START OF FREQUENCY" in line[60:]:
-                    sys = char2sys(line[3])
-                    sig = rSigRnx(sys, 'L'+line[5])
+                    sys = char2sys(line[3] if line[3] != ' ' else 'G')
+                    try:
+                        sig = rSigRnx(sys, 'L'+line[5])
+                    except ValueError:  # not supported frequency
+                        sys = uGNSS.NONE
                 elif "END OF FREQUENCY" in line[60:]:
                     sys = uGNSS.NONE
                     sig = rSigRnx()
                 elif "NORTH / EAST / UP" in line[60:]:  # unit [mm]
-                    neu = [float(x) for x in line[3:30].split()]
+                    if sys == uGNSS.NONE:
+                        continue
+                    neu = [float(line[k:k+10]) for k in (0, 10, 20)]
                     pcv.off.update({sig: np.zeros(3)})
                     # For satellite use XYZ, for receiver use ENU
                     pcv.off[sig][0] = neu[0] if pcv.sat is not None else neu[1]
                     pcv.off[sig][1] = neu[1] if pcv.sat is not None else neu[0]
                     pcv.off[sig][2] = neu[2]
                 elif "ZEN1 / ZEN2 / DZEN" in line[60:]:
-                    pcv.zen = [float(x) for x in line[3:20].split()]
-                    pcv.nv = int((pcv.zen[1]-pcv.zen[0])/pcv.zen[2])+1
-                elif "NOAZI" in line[3:8]:  # unit [mm]
-                    var = [float(x) for x in line[8:].split()]
+                    pcv.zen = [float(line[k:k+6]) for k in (2, 8, 14)]
+                    pcv.nv = int(round((pcv.zen[1]-pcv.zen[0])/pcv.zen[2]))+1
+                elif noazi:  # unit [mm]
+                    if sys == uGNSS.NONE:
+                        continue
+                    s = line[8:].rstrip()
+                    var = [float(s[k:k+8]) for k in range(0, len(s), 8)]
                     if len(var) > pcv.nv:
                         """
                         print("WARNING: fix length of NOAZI for {} {} {}"
@@ -820,15 +835,15 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
     # Zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(np.dot(ez, -e)))
-    za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
+    za = np.rad2deg(np.arccos(np.clip(np.dot(ez, -e), -1.0, 1.0)))
 
     # CoM offset of reference signals
     #
     off0 = np.zeros(3)
     if sig0 is not None:
         if sys == uGNSS.GLO:
-            freq = [s.frequency(nav.glo_ch[sat]) for s in sig0]
+            # (factors are independent of the frequency channel)
+            freq = [s.frequency(nav.glo_ch.get(sat, 0)) for s in sig0]
         else:
             freq = [s.frequency() for s in sig0]
         fac0 = [1.0 for s in sig0]
@@ -849,7 +864,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
                 off0 += fac0_*ant.off[sig]
             else:
                 print(f"sig={sig} not in antenna database.")
-                off0 = np.ones((1,3))*np.nan
+                off0 = np.ones(3)*np.nan
 
     # Interpolate PCV and map PCO on line-of-sight vector
     #
@@ -860,19 +875,20 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
         #
         sig = substSigTx(ant, sig_)
 
-        # Satellite PCO in local antenna frame
-        #
-        off = ant.off[sig] - off0
-
-        # Convert satellite PCO from antenna frame into ECEF frame
-        #
-        pco_v = off@A
-
         # Interpolate PCV and map PCO on line-of-sight vector
         #
         if sig not in ant.off or sig not in ant.var:
-            dant[i] = None
+            dant[i] = np.nan
         else:
+            # Satellite PCO in local antenna frame
+            #
+            off = ant.off[sig] - off0
+
+            # Convert satellite PCO from antenna frame into ECEF frame
+            #
+            pco_v = off@A
+
+            za_t = ant.zen[0]+ant.zen[2]*np.arange(len(ant.var[sig]))
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(pco_v, -e)
             dant[i] = (pco+pcv)*1e-3
@@ -893,7 +909,7 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
     nav : Nav()
         contains the PCO/PCV corrections for rover and base antenna
     pos : np.array
-        Receiver position in ECEF
+        Receiver position (latitude, longitude, height)
     e : np.array of float
         Line-of-sight vector in ECEF from receiver to satellite
     sigs : list of rRnxSig
@@ -918,10 +934,12 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
     else:  # for base
         ant = nav.rcv_ant_b
 
+    if ant is None:
+        return None
+
     # Elevation angle, zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(e[2]))
-    za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
+    za = np.rad2deg(np.arccos(np.clip(e[2], -1.0, 1.0)))
 
     # Loop over signals
     #
@@ -935,8 +953,9 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
         # Interpolate PCV and map PCO on line-of-sight vector
         #
         if sig not in ant.off or sig not in ant.var:
-            dant[i] = None
+            dant[i] = np.nan
         else:
+            za_t = ant.zen[0]+ant.zen[2]*np.arange(len(ant.var[sig]))
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(ant.off[sig], e)
             dant[i] = (pco+pcv)*1e-3
@@ -977,6 +996,8 @@ def apc2com(nav, sat, time, rs, sigs, k=None):
         # Substitute signal if not available
         #
         sig = substSigTx(ant, sig_)
+        if sig not in ant.off:
+            return None
 
         # Satellite PCO in local antenna frame
         #
@@ -1277,16 +1298,37 @@ class biasdec():
         self.dcb = []
         self.osb = []
 
-    def doy2time(self, ep):
+    def doy2time(self, ep, undef=gtime_t(32503680000)):
         """ calculate time from doy """
         year = int(ep[0])
         doy = int(ep[1])
         sec = int(ep[2])
         if year == 0 and doy == 0 and sec == 0:  # undef
-            year = 3000
+            return undef
         days = (year-1970)*365+(year-1969)//4+doy-1
         return gtime_t(days*86400+sec)
 
+    def valid_site(self, site, siteID):
+        """ satellite bias is valid for all or for the specified site """
+        return not site or site == siteID
+
+    def decode_rec(self, line, sys, dsb):
+        """ signals, validity interval, unit, bias and sigma of a record """
+        sig1 = rSigRnx(sys, line[25:28])
+        sig2 = rSigRnx(sys, line[30:33]) if dsb else rSigRnx()
+
+        # year:doy:sec
+        ep1 = [int(line[35:39]), int(line[40:43]), int(line[44:49])]
+        ep2 = [int(line[50:54]), int(line[55:58]), int(line[59:64])]
+        tst = self.doy2time(ep1, gtime_t())
+        ted = self.doy2time(ep2)
+        unit = line[65:69]
+        bias = float(line[70:91])
+        std = line[92:103].strip()
+        std = float(std) if std else np.nan
+
+        return sig1, sig2, tst, ted, unit, bias, std
+
     def getdcb(self, sat, time, sig):
         """ retrieve DCB based on satellite, epoch and signal code """
         bias, std, bcode = None, None, None
@@ -1298,7 +1340,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
@@ -1358,22 +1400,21 @@ class biasdec():
                     if site and not prn[1:].strip():
                         continue
 
-                    # Skip GLONASS biases if site ID does not match
+                    # Skip station dependent biases of other stations
                     #
-                    if sys == 'R' and not site == siteID:
+                    if not self.valid_site(site, siteID):
                         continue
 
-                    sig1 = rSigRnx(sys, line[25:28])
-                    sig2 = rSigRnx(sys, line[30:33])
-
-                    # year:doy:sec
-                    ep1 = [int(line[35:39]), int(
-                        line[40:43]), int(line[44:49])]
-                    ep2 = [int(line[50:54]), int(
-                        line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
-                    ted = self.doy2time(ep2)
-                    unit = line[65:69]
+                    # Skip unsupported satellites or signals
+                    #
+                    sat = id2sat(prn)
+                    try:
+                        sig1, sig2, tst, ted, unit, bias, std = \
+                            self.decode_rec(line, sys, True)
+                    except ValueError:
+                        continue
+                    if sat <= 0:
+                        continue
 
                     if sig1.typ != sig2.typ:
                         print("format error: different type of sig1 and sig2")
@@ -1385,14 +1426,12 @@ class biasdec():
                     if (sig1 == rSigRnx() or sig2 == rSigRnx()):
                         print("ERROR: invalid signal code!")
                         return -1
-                    bias = float(line[70:91])
-                    std = float(line[92:103])
                     """
                     if len(line) >= 137:
                         slope = float(line[104:125])
                         std_s = float(line[126:137])
                     """
-                    dcb = bias_t(id2sat(prn), tst, ted, sig1, sig2, bias, std)
+                    dcb = bias_t(sat, tst, ted, sig1, sig2, bias, std)
                     self.dcb.append(dcb)
 
                 elif status and line[0:5] == ' OSB ':
@@ -1408,36 +1447,33 @@ class biasdec():
                     if site and not prn[1:].strip():
                         continue
 
-                    # Skip GLONASS biases if site ID does not match
+                    # Skip station dependent biases of other stations
                     #
-                    if sys == uGNSS.GLO and not site == siteID:
+                    if not self.valid_site(site, siteID):
+                        continue
+
+                    # Skip unsupported satellites or signals
+                    #
+                    sat = id2sat(prn)
+                    try:
+                        sig1, sig2, tst, ted, unit, bias, std = \
+                            self.decode_rec(line, sys, False)
+                    except ValueError:
+                        continue
+                    if sat <= 0:
                         continue
 
-                    sig1 = rSigRnx(sys, line[25:28])
-                    sig2 = rSigRnx()
-
-                    # year:doy:sec
-                    ep1 = [int(line[35:39]), int(
-                        line[40:43]), int(line[44:49])]
-                    ep2 = [int(line[50:54]), int(
-                        line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
-                    ted = self.doy2time(ep2)
-                    unit = line[65:69]
-                    # if (type1 == 0 and unit[0:2] != 'ns') or (type1 == 1 and unit[0:3] != 'cyc'):
-                    if (sig1.typ == uTYP.L and unit[0:2] != 'ns'):
+                    if unit[0:2] != 'ns':
                         print("format error: inconsistent dimension {} in {}"
                               .format(sig1.str(), unit))
                         return -1
 
-                    bias = float(line[70:91])
-                    std = float(line[92:103])
                     """
                     if len(line) >= 137:
                         slope = float(line[104:125])
                         std_s = float(line[126:137])
                     """
-                    osb = bias_t(id2sat(prn), tst, ted, sig1, sig2, bias, std)
+                    osb = bias_t(sat, tst, ted, sig1, sig2, bias, std)
                     self.osb.append(osb)
 
 
diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..e138e5b 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -745,8 +745,11 @@ class pppos():
                 
                 ants = antModelTx(self.nav, e[i, :], (sigsPR + sigsCP),
                                   sat, obs.t, rs[i, :], sig0)                
-                antsPR = ants[0:len(sigsPR)]
-                antsCP = ants[len(sigsPR):]
+                if ants is None:
+                    antsPR = antsCP = None
+                else:
+                    antsPR = ants[0:len(sigsPR)]
+                    antsCP = ants[len(sigsPR):]
 
             else:
 
@@ -758,6 +761,9 @@ class pppos():
             if antrPR is None or antrCP is None or \
                antsPR is None or antsCP is None:
                 continue
+            if np.isnan(antrPR).any() or np.isnan(antrCP).any() or \
+               np.isnan(antsPR).any() or np.isnan(antsCP).any():
+                continue
 
             # Range correction
             #
-- 
2.43.0


From e875397391097bc37b3e923ad6654be814108f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 33/45] fix: ephemeris selection and evaluation, and
 application of SSR corrections with matching issues, rates and validity

---
 src/cssrlib/cssr_bds.py  |  12 ++
 src/cssrlib/cssr_pvs.py  |  10 -
 src/cssrlib/cssrlib.py   |  39 +++-
 src/cssrlib/dgps.py      |  10 -
 src/cssrlib/ephemeris.py | 422 ++++++++++++++++++++-------------------
 src/cssrlib/gnss.py      |  11 +-
 src/cssrlib/sbas.py      |  10 -
 7 files changed, 266 insertions(+), 248 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 518e97d..0ea4b4d 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -179,6 +179,7 @@ class cssr_bds(cssr):
             # fallback for inconsistent clock update
             self.lc[inet].dclk_p = {}
             self.lc[inet].iodc_c_p = {}
+            self.lc[inet].t0_p = {}
 
         self.iodssr = head['iodssr']
 
@@ -287,6 +288,7 @@ class cssr_bds(cssr):
                 iodc != self.lc[inet].iodc_c[sat]:
             self.lc[inet].iodc_c_p[sat] = self.lc[inet].iodc_c[sat]
             self.lc[inet].dclk_p[sat] = self.lc[inet].dclk[sat]
+            self.lc[inet].t0_p[sat] = self.lc[inet].t0[sat][sCType.CLOCK]
         self.lc[inet].iodc_c[sat] = iodc
         # note: the sign of the clock correction reversed
         self.lc[inet].dclk[sat] = - \
@@ -297,6 +299,16 @@ class cssr_bds(cssr):
         self.lc[inet].t0[sat][sCType.CLOCK] = self.time
         return i
 
+    def check_validity(self, time):
+        """ check validity time of correction """
+        super().check_validity(time)
+        lc = self.lc[0]
+        if lc.dclk is None:  # no mask received
+            return
+        for sat in lc.dclk_p:  # previous clock correction
+            if timediff(time, lc.t0_p[sat]) > self.tmax[sCType.CLOCK]:
+                lc.dclk_p[sat] = np.nan
+
     def decode_cssr_clk(self, msg, i, inet=0):
         """decode MT4 Clock Correction message """
         head, i = self.decode_head(msg, i)
diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 730be0e..a2793da 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -94,16 +94,6 @@ class cssr_pvs(cssr):
             time = timeadd(time,  rCST.WEEK_SEC)
         return time
 
-    def check_validity(self, time):
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
-                    self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
-                    self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
-
     def decode_cssr_orb(self, msg, i, inet=0):
         """ Types 32 clock-ephemeris correction and covariance matrix """
         slot, iodn = bs.unpack_from('u8u10', msg, i)
diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index a6749ad..e27d3f8 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -252,6 +252,7 @@ class local_corr:
         self.quality_stec = None
         self.sat_n = []
         self.t0 = {}
+        self.iods = {}            # issue of each correction
         self.cstat = 0            # status for receiving CSSR message
         self.t0s = {}
         sc_t = [sCType.CLOCK, sCType.ORBIT, sCType.CBIAS, sCType.PBIAS,
@@ -508,6 +509,11 @@ class cssr:
 
         self.lc[inet].t0[sat][ctype] = t
 
+        # issue of the correction
+        if sat not in self.lc[inet].iods:
+            self.lc[inet].iods[sat] = {}
+        self.lc[inet].iods[sat][ctype] = self.iodssr
+
     def quality_idx(self, cl, val):
         """ calculate quality index """
         if cl == 7 and val == 7:
@@ -1055,11 +1061,13 @@ class cssr:
                 self.set_t0(inet, sat, sCType.CLOCK, self.time)
 
         if dfm['clk']:
-            # self.iodssr_c[sCType.CLOCK] = head['iodssr']
+            if not self.flg_net:
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
             self.lc[inet].cstat |= (1 << sCType.CLOCK)
 
         if dfm['orb']:
-            # self.iodssr_c[sCType.ORBIT] = head['iodssr']
+            if not self.flg_net:
+                self.iodssr_c[sCType.ORBIT] = head['iodssr']
             self.lc[inet].cstat |= (1 << sCType.ORBIT)
 
         return i
@@ -1229,16 +1237,27 @@ class cssr:
             return False
         return True
 
+    def is_aged(self, time, sat, ctype):
+        """ check if the age of correction exceeds the maximum """
+        t0 = self.lc[0].t0[sat]
+        tmax = self.tmax[ctype] if ctype in self.tmax \
+            else self.tmax[sCType.CLOCK]
+        return ctype in t0 and timediff(time, t0[ctype]) > tmax
+
     def check_validity(self, time):
         """ check validity time of correction """
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
-                    self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
-                    self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
+        lc = self.lc[0]
+        for sat in lc.t0:
+            if self.is_aged(time, sat, sCType.CLOCK):
+                if lc.dclk is not None and sat in lc.dclk:
+                    lc.dclk[sat] = np.nan
+            if self.is_aged(time, sat, sCType.HCLOCK):
+                if lc.hclk is not None and sat in lc.hclk:
+                    lc.hclk[sat] = np.nan
+            if self.is_aged(time, sat, sCType.ORBIT):
+                if lc.iode is not None and sat in lc.iode:
+                    lc.iode[sat] = -1
+                    lc.dorb[sat] = np.ones(3)*np.nan
 
     def out_log(self):
 
diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 128b3e2..07c1d91 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -113,16 +113,6 @@ class dgpsDec(cssr):
         y = np.nan if u == invalid else u*scl
         return y
 
-    def check_validity(self, time):
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
-                    self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
-                    self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
-
     def decode_mt43(self, msg, i):
         """ decode DC report by JMA (TBD) """
         self.dcr.time = self.time
diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..e90baa5 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -20,34 +20,48 @@ MAXDTOE_t = {uGNSS.GPS: 7201.0, uGNSS.GAL: 14400.0, uGNSS.QZS: 7201.0,
 
 
 def findeph(nav, t, sat, iode=-1, mode=0):
-    """ find ephemeris for sat """
+    """ find ephemeris for sat, the nearest in time among the valid ones """
     sys, _ = sat2prn(sat)
+    if sys not in MAXDTOE_t:
+        return None
     eph = None
     tmax = MAXDTOE_t[sys]
-    tmin = tmax + 1.0
     for eph_ in nav:
         if eph_.sat != sat or (iode >= 0 and iode != eph_.iode):
             continue
         if eph_.mode != mode:
             continue
-        dt = abs(timediff(t, eph_.toe))
-        if dt > tmax or eph_.mode != mode:
+        if abs(timediff(t, eph_.toe)) > tmax:
             continue
-        if iode >= 0:
-            return eph_
-        if dt <= tmin:
+        if eph is None or iscloser(t, eph_, eph):
             eph = eph_
-            tmin = dt
 
     return eph
 
 
+def iscloser(t, eph, ref):
+    """ check if eph is preferred to ref: the nearest in time, the later
+    reference time, or the later transmission time if equally near """
+    dt = abs(timediff(t, eph.toe))-abs(timediff(t, ref.toe))
+    if dt != 0.0:
+        return dt < 0.0
+    dt = timediff(eph.toe, ref.toe)
+    if dt != 0.0:
+        return dt > 0.0
+    tot, tot_r = [e.tof if isinstance(e, Geph) else e.tot for e in (eph, ref)]
+    if isinstance(tot, gtime_t) and isinstance(tot_r, gtime_t):
+        dt = timediff(tot, tot_r)
+        if dt != 0.0:
+            return dt > 0.0
+    return eph.iode >= ref.iode
+
+
 def dtadjust(t1, t2, tw=604800):
     """ calculate delta time considering week-rollover """
     dt = timediff(t1, t2)
-    if dt > tw:
+    if dt > tw/2:
         dt -= tw
-    elif dt < -tw:
+    elif dt < -tw/2:
         dt += tw
     return dt
 
@@ -130,15 +144,15 @@ def eccentricAnomaly(M, e):
     """
     Compute eccentric anomaly based on mean anomaly and eccentricity
     """
-    E = M
-    for _ in range(10):
-        Eold = E
-        sE = np.sin(E)
-        E = M+e*sE
-        if abs(Eold-E) < 1e-12:
+    M = np.remainder(M+np.pi, 2.0*np.pi)-np.pi
+    E = M if e < 0.8 else np.pi
+    for _ in range(MAX_ITER_KEPLER):
+        dE = (E-e*np.sin(E)-M)/(1.0-e*np.cos(E))
+        E -= dE
+        if abs(dE) < RTOL_KEPLER:
             break
 
-    return E, sE
+    return E, np.sin(E)
 
 
 def sys2MuOmega(sys):
@@ -202,6 +216,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
                        [-so, co*rCST.COS_5, co*rCST.SIN_5],
                        [0.0,   -rCST.SIN_5,    rCST.COS_5]])
         rs = Mo@rg
+        omegd = eph.OMGd
     else:
         Omg = eph.OMG0+eph.OMGd*dt-omge*(eph.toes+dt)
         sOmg = np.sin(Omg)
@@ -209,24 +224,32 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         p = np.array([cOmg, sOmg, 0])
         q = np.array([-ci*sOmg, ci*cOmg, si])
         rs = xo@np.array([p, q])
+        omegd = eph.OMGd-omge
 
     if flg_v:  # satellite velocity
         qq = np.array([si*sOmg, -si*cOmg, ci])
-        Ed = n/nue
+        nd, Akd = n, 0.0
+        if eph.mode > 0:
+            nd += 0.5*dt*eph.delnd
+            Akd = eph.Adot
+        Ed = nd/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
-        rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
+        rd = Akd*nue+Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
 
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+
+        if sys == uGNSS.BDS and (prn <= 5 or prn >= 59):  # BDS GEO
+            Md = omge*np.array([Mo[1, :], -Mo[0, :], np.zeros(3)])
+            vs = Mo@vs + Md@rg
         return rs, vs, dts
 
     return rs, dts
@@ -234,9 +257,10 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
 def eph2clk(time, eph):
     """ calculate clock offset based on ephemeris """
-    t = timediff(time, eph.toc)
+    ts = timediff(time, eph.toc)
+    t = ts
     for _ in range(2):
-        t -= eph.af0+eph.af1*t+eph.af2*t**2
+        t = ts - (eph.af0+eph.af1*t+eph.af2*t**2)
     dts = eph.af0+eph.af1*t+eph.af2*t**2
     return dts
 
@@ -258,6 +282,136 @@ def eph2rel(time, eph):
     return -2.0*np.sqrt(mu*eph.A)*eph.e*sE/rCST.CLIGHT**2
 
 
+def tgdcorr(sys, eph):
+    """ group delay of the single-frequency user of the first signal """
+    if sys == uGNSS.GLO:
+        return 0.0
+    if sys == uGNSS.GAL and eph.mode == 0:  # I/NAV: BGD(E1,E5b)
+        return eph.tgd_b
+    return eph.tgd
+
+
+def ssrcorr(sat, t, cs):
+    """
+    Get orbit and clock corrections of satellite
+
+    Parameters
+    ----------
+    sat : satellite ID
+    t   : epoch
+    cs  : cssr() or derivatives
+
+    Returns
+    -------
+    iode : issue of data of the corresponding ephemeris
+    dorb : orbit correction (radial, along-track, cross-track or ECEF) [m]
+    dclk : clock correction [m]
+
+    None is returned, if consistent corrections are not available.
+    """
+    lc = cs.lc[0]
+
+    # orbit corrections of the current or the previous mask
+    iodssr = cs.iodssr_c[sCType.ORBIT]
+    if cs.cssrmode in (sc.RTCM3_SSR, sc.IGS_SSR):
+        sat_n = cs.sat_n  # without mask, issue per constellation
+    elif cs.iodssr >= 0 and iodssr == cs.iodssr:
+        sat_n = cs.sat_n
+    elif cs.iodssr_p >= 0 and iodssr == cs.iodssr_p:
+        sat_n = cs.sat_n_p
+    else:
+        return None
+
+    if sat not in sat_n or lc.iode is None or sat not in lc.iode or \
+            lc.dclk is None or sat not in lc.dclk or sat not in lc.dorb:
+        return None
+
+    iode = lc.iode[sat]
+    if iode < 0:
+        return None
+    t0 = lc.t0[sat] if sat in lc.t0 else {}
+    dorb = np.array(lc.dorb[sat], dtype=float)
+    dclk = lc.dclk[sat]
+
+    if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
+
+        iodc = lc.iodc[sat] if sat in lc.iodc else -1
+        if sat in lc.iodc_c and iodc == lc.iodc_c[sat]:
+            dclk = lc.dclk[sat]
+        elif sat in lc.iodc_c_p and iodc == lc.iodc_c_p[sat]:
+            dclk = lc.dclk_p[sat]
+        else:
+            return None
+
+    else:
+
+        # orbit and clock corrections shall refer to the same issue
+        iods = lc.iods[sat] if sat in lc.iods else {}
+        if sCType.ORBIT in iods and sCType.CLOCK in iods:
+            if iods[sCType.ORBIT] != iods[sCType.CLOCK]:
+                return None
+        elif cs.iodssr_c[sCType.CLOCK] != iodssr:
+            return None
+
+        if cs.cssrmode == sc.GAL_HAS_SIS:  # HAS only
+            if cs.mask_id != cs.mask_id_clk:  # mask has changed
+                if sat not in cs.sat_n_p:
+                    return None
+
+        if lc.cstat & (1 << sCType.HCLOCK) and lc.hclk is not None and \
+                sat in lc.hclk and not np.isnan(lc.hclk[sat]):
+            dclk += lc.hclk[sat]
+        elif lc.cstat & (1 << sCType.HCLOCK) and cs.cssrmode == sc.SBAS_L1:
+            return None  # fast correction is mandatory
+
+        # rates of the corrections
+        if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
+            if sCType.ORBIT not in t0 or sCType.CLOCK not in t0:
+                return None
+            dorb += lc.dvel[sat]*timediff(t, t0[sCType.ORBIT])
+            dclk += lc.ddft[sat]*timediff(t, t0[sCType.CLOCK])
+        else:
+            if lc.ddorb is not None and sat in lc.ddorb:
+                dt = timediff(t, t0[sCType.ORBIT])-udint(cs, sCType.ORBIT)/2
+                dorb += lc.ddorb[sat]*dt
+            if lc.ddclk is not None and sat in lc.ddclk:
+                dt = timediff(t, t0[sCType.CLOCK])-udint(cs, sCType.CLOCK)/2
+                dclk += lc.ddclk[sat]*dt+lc.dddclk[sat]*dt**2
+
+    if np.isnan(dclk) or np.any(np.isnan(dorb)):
+        return None
+
+    return iode, dorb, dclk
+
+
+def udint(cs, ctype):
+    """ SSR update interval, whose middle is the reference time [s] """
+    return cs.udint_t[cs.udi[ctype]] if cs.udi[ctype] > 0 else 0
+
+
+def ssrt0(cs, sat):
+    """ reference time of the orbit correction of satellite """
+    t0 = cs.lc[0].t0
+    if sat in t0 and sCType.ORBIT in t0[sat]:
+        return t0[sat][sCType.ORBIT]
+    return None
+
+
+def ssrorb2ecef(rs, vs, dorb, cs):
+    """ convert orbit correction into ECEF """
+    if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
+        return dorb
+
+    ec = vnorm(np.cross(rs, vs))
+    if cs.cssrmode == sc.BDS_PPP:
+        er = vnorm(rs)
+        ea = np.cross(ec, er)
+    else:
+        ea = vnorm(vs)
+        er = np.cross(ea, ec)
+    return dorb@np.array([er, ea, ec])
+
+
 def satpos(sat, t, nav, cs=None, orb=None):
     """
     Calculate pos/vel/clk for single satellite
@@ -338,70 +492,14 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
         if cs is not None:
 
-            if cs.iodssr >= 0 and cs.iodssr_c[sCType.ORBIT] == cs.iodssr:
-                if sat not in cs.sat_n:
-                    return rs, vs, dts, svh
-            elif cs.iodssr_p >= 0 and \
-                    cs.iodssr_c[sCType.ORBIT] == cs.iodssr_p:
-                if sat not in cs.sat_n_p:
-                    return rs, vs, dts, svh
-            else:
-                return rs, vs, dts, svh
-
-            if sat not in cs.lc[0].iode.keys():
-                return rs, vs, dts, svh
-
-            iode = cs.lc[0].iode[sat]
-            dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
-
-            if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-
-                dorb += cs.lc[0].dvel[sat] * \
-                    (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
-
-            if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-
-                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
-                    dclk = cs.lc[0].dclk[sat]
-                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
-                    dclk = cs.lc[0].dclk_p[sat]
-                else:
-                    return rs, vs, dts, svh
-
-            else:
-
-                if cs.cssrmode == sc.GAL_HAS_SIS:  # HAS only
-                    if cs.mask_id != cs.mask_id_clk:  # mask has changed
-                        if sat not in cs.sat_n_p:
-                            return rs, vs, dts, svh
-                else:
-                    if cs.iodssr_c[sCType.CLOCK] == cs.iodssr:
-                        if sat not in cs.sat_n:
-                            return rs, vs, dts, svh
-
-                    elif cs.iodssr_c[sCType.CLOCK] == cs.iodssr_p:
-                        if sat not in cs.sat_n_p:
-                            return rs, vs, dts, svh
-                    else:
-                        return rs, vs, dts, svh
-
-                dclk = cs.lc[0].dclk[sat]
-
-                if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
-                        sat in cs.lc[0].hclk.keys() and \
-                        not np.isnan(cs.lc[0].hclk[sat]):
-                    dclk += cs.lc[0].hclk[sat]
-
-                if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dclk += cs.lc[0].ddft[sat] * \
-                        (timediff(t, cs.lc[0].t0[sat][sCType.CLOCK]))
-
-            if np.isnan(dclk) or np.isnan(dorb@dorb):
+            corr = ssrcorr(sat, t, cs)
+            if corr is None:
                 return rs, vs, dts, svh
+            iode, dorb, dclk = corr
 
             # Select broadcast navigation type depending on GNSS type
             #
-            mode = cs.nav_mode[sys]
+            mode = cs.nav_mode[sys] if sys in cs.nav_mode else 0
 
         else:
 
@@ -430,7 +528,6 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
     if nav.ephopt == 4:  # precise ephemeris
 
-        rs_, dts_, _ = orb.peph2pos(t, sat, nav)
         rs[i, :] = rs_[0: 3]
         vs[i, :] = rs_[3: 6]
         dts[i] = dts_[0] - orb.pephrel(rs_)  # Remove relativistic correction!
@@ -448,24 +545,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
         #
         if cs is not None:
 
-            if cs.cssrmode == sc.BDS_PPP:
-                er = vnorm(rs[i, :])
-                rc = np.cross(rs[i, :], vs[i, :])
-                ec = vnorm(rc)
-                ea = np.cross(ec, er)
-                A = np.array([er, ea, ec])
-            else:
-                ea = vnorm(vs[i, :])
-                rc = np.cross(rs[i, :], vs[i, :])
-                ec = vnorm(rc)
-                er = np.cross(ea, ec)
-                A = np.array([er, ea, ec])
-
-            if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                dorb_e = dorb
-            else:
-                dorb_e = dorb@A
-
+            dorb_e = ssrorb2ecef(rs[i, :], vs[i, :], dorb, cs)
             rs[i, :] -= dorb_e
             dts[i] += dclk/rCST.CLIGHT
 
@@ -473,12 +553,13 @@ def satpos(sat, t, nav, cs=None, orb=None):
                                sc.DGPS) and sys == uGNSS.GPS:
                 dts[i] -= eph.tgd
 
-        elif nav.smode == 1 and nav.nf == 1:  # standalone positioning
-            dts[i] -= eph.tgd
+        elif nav.smode == 1 and nav.nf == 1 and sys != uGNSS.GLO:
+            dts[i] -= tgdcorr(sys, eph)  # standalone positioning
 
     if cs is not None:
-        if sat in cs.lc[0].t0 and sCType.ORBIT in cs.lc[0].t0[sat]:
-            nav.time_p = cs.lc[0].t0[sat][sCType.ORBIT]
+        t0 = ssrt0(cs, sat)
+        if t0 is not None:
+            nav.time_p = t0
 
     return rs, vs, dts, svh
 
@@ -537,7 +618,13 @@ def satposs(obs, nav, cs=None, orb=None):
         if sys not in obs.sig.keys():
             continue
 
-        pr = obs.P[i, 0]  # TODO: catch invalid observation!
+        # Skip satellites without valid pseudorange
+        #
+        idx = np.where(np.isfinite(obs.P[i, :]) & (obs.P[i, :] != 0.0))[0]
+        if len(idx) == 0:
+            continue
+
+        pr = obs.P[i, idx[0]]
         t = timeadd(obs.t, -pr/rCST.CLIGHT)
 
         if nav.ephopt == 4:
@@ -571,71 +658,12 @@ def satposs(obs, nav, cs=None, orb=None):
 
             if cs is not None:
 
-                if cs.iodssr >= 0 and cs.iodssr_c[sCType.ORBIT] == cs.iodssr:
-                    if sat not in cs.sat_n:
-                        continue
-                elif cs.iodssr_p >= 0 and \
-                        cs.iodssr_c[sCType.ORBIT] == cs.iodssr_p:
-                    if sat not in cs.sat_n_p:
-                        continue
-                else:
+                corr = ssrcorr(sat, obs.t, cs)
+                if corr is None:
                     continue
+                iode, dorb, dclk = corr
 
-                if sat not in cs.lc[0].iode.keys():
-                    continue
-
-                iode = cs.lc[0].iode[sat]
-                dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
-
-                if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
-                        (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
-
-                if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-
-                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
-                        dclk = cs.lc[0].dclk[sat]
-                    else:
-                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
-                            dclk = cs.lc[0].dclk_p[sat]
-                        else:
-                            continue
-
-                else:
-
-                    if cs.cssrmode == sc.GAL_HAS_SIS:  # HAS only
-                        if cs.mask_id != cs.mask_id_clk:  # mask has changed
-                            if sat not in cs.sat_n_p:
-                                continue
-                    else:
-                        if cs.iodssr_c[sCType.CLOCK] == cs.iodssr:
-                            if sat not in cs.sat_n:
-                                continue
-                        else:
-                            if cs.iodssr_c[sCType.CLOCK] == cs.iodssr_p:
-                                if sat not in cs.sat_n_p:
-                                    continue
-                            else:
-                                continue
-
-                    if sat in cs.lc[0].dclk:
-                        dclk = cs.lc[0].dclk[sat]
-                    else:
-                        continue
-
-                    if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
-                            sat in cs.lc[0].hclk.keys() and \
-                            not np.isnan(cs.lc[0].hclk[sat]):
-                        dclk += cs.lc[0].hclk[sat]
-
-                    if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                        dclk += cs.lc[0].ddft[sat] * \
-                            (timediff(obs.t, cs.lc[0].t0[sat][sCType.CLOCK]))
-
-                if np.isnan(dclk) or np.isnan(dorb@dorb):
-                    continue
-
-                mode = cs.nav_mode[sys]
+                mode = cs.nav_mode[sys] if sys in cs.nav_mode else 0
 
             else:
 
@@ -667,6 +695,8 @@ def satposs(obs, nav, cs=None, orb=None):
         if nav.ephopt == 4:  # precise ephemeris
 
             rs_, dts_, _ = orb.peph2pos(t, sat, nav)
+            if rs_ is None or dts_ is None or np.isnan(dts_[0]):
+                continue
             rs[i, :] = rs_[0: 3]
             vs[i, :] = rs_[3: 6]
             dts[i] = dts_[0]
@@ -683,24 +713,7 @@ def satposs(obs, nav, cs=None, orb=None):
             #
             if cs is not None:
 
-                if cs.cssrmode == sc.BDS_PPP:
-                    er = vnorm(rs[i, :])
-                    rc = np.cross(rs[i, :], vs[i, :])
-                    ec = vnorm(rc)
-                    ea = np.cross(ec, er)
-                    A = np.array([er, ea, ec])
-                else:
-                    ea = vnorm(vs[i, :])
-                    rc = np.cross(rs[i, :], vs[i, :])
-                    ec = vnorm(rc)
-                    er = np.cross(ea, ec)
-                    A = np.array([er, ea, ec])
-
-                if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb_e = dorb
-                else:
-                    dorb_e = dorb@A
-
+                dorb_e = ssrorb2ecef(rs[i, :], vs[i, :], dorb, cs)
                 rs[i, :] -= dorb_e
                 dts[i] += dclk/rCST.CLIGHT
 
@@ -712,26 +725,29 @@ def satposs(obs, nav, cs=None, orb=None):
                     #    gam15 = (154/115)**2
                     #    dts[i] += (eph_c.isc[3]-gam15*eph_c.isc[0])/(1-gam15)
 
-                ers = vnorm(rs[i, :]-nav.x[0: 3])
-                dorb_ = -ers@dorb_e
-                sis = dclk-dorb_
-                if cs.lc[0].t0[sat][sCType.ORBIT].time % 30 == 0 and \
-                        timediff(cs.lc[0].t0[sat][sCType.ORBIT], nav.time_p) > 0:
-                    if abs(nav.sis[sat]) > 0:
-                        nav.dsis[sat] = sis - nav.sis[sat]
-                    nav.sis[sat] = sis
-
-                nav.dorb[sat] = dorb_
+                if nav.x is not None:
+                    ers = vnorm(rs[i, :]-nav.x[0: 3])
+                    dorb_ = -ers@dorb_e
+                    sis = dclk-dorb_
+                    t0 = ssrt0(cs, sat)
+                    if t0 is not None and t0.time % 30 == 0 and \
+                            timediff(t0, nav.time_p) > 0:
+                        if abs(nav.sis[sat]) > 0:
+                            nav.dsis[sat] = sis - nav.sis[sat]
+                        nav.sis[sat] = sis
+
+                    nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
-                dts[i] -= eph.tgd
+            elif nav.smode == 1 and nav.nf == 1 and sys != uGNSS.GLO:
+                dts[i] -= tgdcorr(sys, eph)  # stand-alone positioning
 
             nsat += 1
 
-    if cs is not None:
-        if sat in cs.lc[0].t0 and sCType.ORBIT in cs.lc[0].t0[sat]:
-            nav.time_p = cs.lc[0].t0[sat][sCType.ORBIT]
+    if cs is not None and n > 0:
+        t0 = ssrt0(cs, obs.sat[-1])
+        if t0 is not None:
+            nav.time_p = t0
 
     return rs, vs, dts, svh, nsat
 
diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 059cb81..15fe3f7 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -701,7 +701,7 @@ class Eph():
         self.top = 0
         self.crs = 0.0
         self.crc = 0.0
-        self.cus = 0.0
+        self.cuc = 0.0
         self.cus = 0.0
         self.cis = 0.0
         self.cic = 0.0
@@ -902,10 +902,11 @@ class Nav():
         self.rcv_ant_b = None
 
         # SSR correction placeholder
-        self.dorb = np.zeros(uGNSS.MAXSAT)
-        self.dclk = np.zeros(uGNSS.MAXSAT)
-        self.dsis = np.zeros(uGNSS.MAXSAT)
-        self.sis = np.zeros(uGNSS.MAXSAT)
+        self.dorb = np.zeros(uGNSS.MAXSAT+1)
+        self.dclk = np.zeros(uGNSS.MAXSAT+1)
+        self.dsis = np.zeros(uGNSS.MAXSAT+1)
+        self.sis = np.zeros(uGNSS.MAXSAT+1)
+        self.time_p = gtime_t()
 
         # Satellite observation status
         self.fix = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index ff17b9e..25d9e23 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -398,16 +398,6 @@ class sbasDec(cssr):
             sat = prn2sat(uGNSS.QZS, prn)
         return sat
 
-    def check_validity(self, time):
-        for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
-                    self.tmax[sCType.CLOCK]:
-                self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
-                    self.tmax[sCType.ORBIT]:
-                self.lc[0].iode[sat] = -1
-                self.lc[0].dorb[sat] = np.zeros(3)
-
     def decode_sbas_mask(self, msg, i):
         """ Type 1 PRN mask message """
         self.sat = []
-- 
2.43.0


From ba58032ac44f1128849c9072e51c28c8f80e5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 34/45] fix: OSNMA: per receiver state, root and public keys
 only when verified and bound to their message, keys of the chain from the
 last verified one, tags and navigation data of their sub-frames and
 satellites

---
 src/cssrlib/osnma.py | 351 +++++++++++++++++++++++++++----------------
 1 file changed, 218 insertions(+), 133 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..795e20e 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -97,10 +97,12 @@ class taginfo():
     navmsg = None
     iodnav = -1
 
-    def __init__(self, gst_sf, prn_d, prn_a, adkd, cop, tag, cnt, navmsg=None):
+    def __init__(self, gst_sf, prn_d, prn_a, adkd, cop, tag, cnt, navmsg=None,
+                 nmas=None):
         if navmsg is False:
             return None
         self.gst_sf = gst_sf
+        self.nmas = nmas
         self.prn_d = prn_d
         self.prn_a = prn_a
         self.adkd = adkd
@@ -152,10 +154,9 @@ class osnma():
 
     status = 0
     cid0 = -1
-    dsm = {}
-    flg_dsm = {}
-    nb = {}
     did0 = -1
+    prn_a = -1
+    nma_header = 0
 
     # OSNMA parameters
     pkid = -1
@@ -181,17 +182,9 @@ class osnma():
     gst_sf_p = bytearray(4)  # gst for previous sub-frame
 
     nt = 0  # number of tags in MACK
-    hk = []
-    mack = []
-    tag = bytearray(42)
-    mack_p = bytearray(60*GALMAX)  # previous MACK
-    mack_c = bytearray(60*GALMAX)  # current MACK
-    tag_list = []
 
     # Merkle tree root (received from GSC OSNMA server)
     root_mt = -1
-    # Public key list
-    pk_list = {}
 
     flg_slowmac = False
     nsat = 0
@@ -257,12 +250,24 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
-        for prn in range(self.GALMAX):
-            self.hk.append(bytearray(15))
-            self.mack.append(bytearray(60))
-        self.pk_list = {}
-
+        self.sf = [None]*self.GALMAX  # sub-frame of the pages
+        self.hk = [bytearray(15) for _ in range(self.GALMAX)]
+        self.mack = [bytearray(60) for _ in range(self.GALMAX)]
+        self.tag = bytearray(42)
+        self.mack_p = bytearray(60*self.GALMAX)  # previous MACK
+        self.mack_c = bytearray(60*self.GALMAX)  # current MACK
+        self.sf_p = [None]*self.GALMAX  # sub-frame of the previous MACK
+        self.sf_c = [None]*self.GALMAX  # sub-frame of the current MACK
+        self.nmas_p = [0]*self.GALMAX  # NMA status with the previous MACK
+        self.nmas_c = [0]*self.GALMAX  # NMA status with the current MACK
+        self.pk_list = {}  # public key list
+
+        self.dsm = {}
         self.flg_dsm = {}
+        self.nb = {}
+        self.root = None  # loaded root key message
+
+        self.subfrm_t = {}
 
         self.subfrm_n = {}
         self.subfrm_p = {}
@@ -277,6 +282,7 @@ class osnma():
         self.key_c = bytearray(16)
         self.key = bytearray(16)
 
+        self.tag_v = {}  # latest time of the verified tags
         self.vstatus = {}  # validation status [prn][iodnav]
 
         self.fh = open(logfile, "wt")
@@ -294,6 +300,12 @@ class osnma():
         h = digest.finalize()
         return h
 
+    def process_hash_mt(self, msg):
+        """ calculate hash (SHA-256) of DSM and Merkle tree """
+        digest = hashes.Hash(hashes.SHA256())
+        digest.update(bytes(msg))
+        return digest.finalize()
+
     def set_gst_sf(self, gst_wn, gst_tow):
         """ set Galileo sub-frame time """
         gst_sf = bs.pack('u12u20', gst_wn, gst_tow//30*30)
@@ -304,45 +316,50 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
         """ verify root key """
-        did = self.did0
         if not self.status & uOSNMA.ROOTKEY_LOADED:  # root key loaded
             return False
-        lk_b = self.klen_t[self.ks]//8
-        msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b]
+        result = self.verify_sign(self.root)
+        if result:
+            self.status |= uOSNMA.ROOTKEY_VERIFIED  # root key verified
+        return result
 
-        result = False
-        hash_func = self.hash_table[self.hf]
-        ds_der = raw2der(self.ds)
-        if self.pkid not in self.pk_list.keys():
+    def verify_sign(self, root):
+        """ verify digital signature of root key message """
+        pk = self.pk_list.get(root['pkid'])
+        if pk is None or pk is False:
             return False
-        pk = self.pk_list[self.pkid]
-
+        # ECDSA P-256/SHA-256 or P-521/SHA-512
+        hash_func = hashes.SHA512 if self.len_sign(root['pkid']) > 512 \
+            else hashes.SHA256
         try:
-            pk.verify(ds_der, bytes(msg), ec.ECDSA(hash_func()))
-            result = True
+            pk.verify(raw2der(root['ds']), bytes(root['msg']),
+                      ec.ECDSA(hash_func()))
         except InvalidSignature:
             return False
-        if result:
-            self.status |= uOSNMA.ROOTKEY_VERIFIED  # root key verified
-        return result
+        return True
+
+    def len_sign(self, pkid):
+        """ length of the digital signature [bit] """
+        pk = self.pk_list.get(pkid)
+        if isinstance(pk, ec.EllipticCurvePublicKey) and pk.key_size == 521:
+            return 1056
+        return 512
 
-    def verify_pdk(self, p_dk, did):
+    def verify_pdk(self, p_dk, root):
         """ verify P_DK """
-        lk_b = self.klen_t[self.ks]//8
-        msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b] + self.ds
-        h = self.process_hash(msg)
+        h = self.process_hash_mt(root['msg'] + root['ds'])
         l_pdk = len(p_dk)
         return h[0:l_pdk] == p_dk
 
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
         msg = self.root_mt + mi
-        h = self.process_hash(msg)
+        h = self.process_hash_mt(msg)
         l_pdp = len(p_dp)
         return h[0:l_pdp] == p_dp
 
@@ -351,11 +368,8 @@ class osnma():
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
-            if gst_tow < 0:
-                gst_tow += 86400*7
-                gst_wn -= 1
-            gst = bs.pack('u12u20', gst_wn, gst_tow)
+            dwn, gst_tow = divmod(gst_tow0 - 30*(k+1), 86400*7)
+            gst = bs.pack('u12u20', gst_wn+dwn, gst_tow)
             msg = key + gst + self.alp
             key = self.process_hash(msg)[0:klen_b]
         return key
@@ -364,19 +378,22 @@ class osnma():
         """ verify key chaning """
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
+        ki = 0
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
-        else:
+            # the latest verified key
+            ki = self.difftime(self.set_gst_sf(gst_wn, gst_tow0),
+                               self.gst_sf_c)//30
+            key_r = self.key
+        if ki <= 0:
             ki = ((gst_wn-self.wn)*86400*7 +
-                  (self.gst_tow-self.towh*3600))//30+1
-            key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
-            result = (key == self.kroot)
+                  (gst_tow0-self.towh*3600))//30+1
+            key_r = self.kroot
+        if ki <= 0:  # before the root key
+            return False
+        key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
+        result = (key == key_r)
         if result:
             self.status |= uOSNMA.KEYCHAIN_VERIFIED  # key-chain verified
-        else:
-            if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-                self.status ^= uOSNMA.KEYCHAIN_VERIFIED
 
         return result
 
@@ -384,33 +401,63 @@ class osnma():
         """ decode DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
-        self.pkid = v[1]  # Public Key ID
-        self.cidkr = v[2]  # KROOT Chain ID
-        self.hf = v[4]  # hash function 0:SHA-256,2:SHA3-256
-        self.mf = v[5]  # mac function 0:HMAC-SHA-256,1:CMAC-AES
-        self.ks = v[6]  # key size 0:96,1:104,2:112,3:120,4:128,
+        r = {'nma_header': self.nma_header}
+        r['pkid'] = v[1]  # Public Key ID
+        r['cidkr'] = v[2]  # KROOT Chain ID
+        r['hf'] = v[4]  # hash function 0:SHA-256,2:SHA3-256
+        r['mf'] = v[5]  # mac function 0:HMAC-SHA-256,1:CMAC-AES
+        r['ks'] = v[6]  # key size 0:96,1:104,2:112,3:120,4:128,
         #          5:160,6:192,7:224,8:256
-        self.ts = v[7]  # tag length 5:20,6:24,7:28,8:32,9:40
-        self.maclt = v[8]  # MAC lookup table
-        self.wn = v[10]  # KROOT week number, tow[h]
-        self.towh = v[11]
-        self.alp = self.dsm[did][7:13]  # random pattern alpha
+        r['ts'] = v[7]  # tag length 5:20,6:24,7:28,8:32,9:40
+        r['maclt'] = v[8]  # MAC lookup table
+        r['wn'] = v[10]  # KROOT week number, tow[h]
+        r['towh'] = v[11]
+        r['alp'] = self.dsm[did][7:13]  # random pattern alpha
+        if r['hf'] not in self.hash_table or r['mf'] > 1 or \
+                r['ks'] >= len(self.klen_t) or self.tag_len_t[r['ts']] == 0:
+            return False
+
         l_dk = nb*104
-        l_ds = 512  # P-256/SHA-256
-        l_k = self.klen_t[self.ks]
+        l_ds = self.len_sign(r['pkid'])  # P-256/SHA-256 or P-521/SHA-512
+        l_k = self.klen_t[r['ks']]
+        if r['mf'] == 1 and l_k not in (128, 192, 256):
+            return False
         l_pdk = l_dk-104-l_k-l_ds
         if l_pdk < 0:
             return False
 
         i = 13+l_k//8
-        self.kroot = self.dsm[did][13:i]
-        self.ds = self.dsm[did][i:i+l_ds//8]
+        r['kroot'] = self.dsm[did][13:i]
+        r['msg'] = bytearray([self.nma_header]) + self.dsm[did][1:i]
+        r['ds'] = self.dsm[did][i:i+l_ds//8]
         i += l_ds//8
         p_dk = self.dsm[did][i:i+(l_pdk+7)//8]
-        if not self.verify_pdk(p_dk, did):
+        if not self.verify_pdk(p_dk, r):
             if self.monlevel > 0:
                 print("p_dk verification error.")
             return False
+
+        # root key of another chain is not used before the chain is in force
+        if r['cidkr'] != (self.nma_header >> 4) & 3:
+            return False
+
+        # verified root key is replaced only by another verified one
+        if self.status & uOSNMA.ROOTKEY_VERIFIED and not self.verify_sign(r):
+            return False
+
+        if self.root is None or r['msg'][1:] != self.root['msg'][1:]:
+            # keys shall be verified with the new root key
+            if self.status & uOSNMA.KEYCHAIN_VERIFIED:
+                self.status ^= uOSNMA.KEYCHAIN_VERIFIED
+            self.gst_sf_c = bytearray(4)
+
+        self.root = r
+        self.pkid, self.cidkr = r['pkid'], r['cidkr']
+        self.hf, self.mf, self.ks = r['hf'], r['mf'], r['ks']
+        self.ts, self.maclt = r['ts'], r['maclt']
+        self.wn, self.towh = r['wn'], r['towh']
+        self.alp, self.kroot, self.ds = r['alp'], r['kroot'], r['ds']
+
         self.status |= uOSNMA.ROOTKEY_LOADED  # KROOT loaded
         self.did0 = did
         return True
@@ -418,7 +465,7 @@ class osnma():
     def decode_dsm_pkr(self, did):
         """ decode and verify DSM-PKR """
         nb, mid = bs.unpack_from('u4u4', self.dsm[did], 0)
-        if nb < 7 or nb > 10:
+        if nb < 7 or nb > 10 or self.root_mt == -1:
             return False
         itn = self.dsm[did][1:1+128]  # 32*4
         npkt, npkid = bs.unpack_from('u4u4', self.dsm[did], 1024+8)
@@ -444,26 +491,30 @@ class osnma():
             return False
 
         # 6.2 DSM-PKR Verification
-        x = self.process_hash(mi)  # Eq.12
+        x = self.process_hash_mt(mi)  # Eq.12
         for k in range(4):
             itn_b = itn[k*32:(k+1)*32]
             if mid % 2 == 0:
                 msg = x+itn_b
             else:
                 msg = itn_b+x
-            x = self.process_hash(msg)  # Eq.13
+            x = self.process_hash_mt(msg)  # Eq.13
             mid >>= 1
 
         result = (x == self.root_mt)
         if not result:
             return False
 
-        self.npkid = npkid
-        if result:
+        if npkt == 4:  # alert message without public key
+            return True
+        try:
             pk_ = self.pubkey_decompress(npkt, npk)
-            self.pk_list[npkid] = pk_
-            self.status |= uOSNMA.PKR_UPDATED  # PKR updated
-        return result
+        except ValueError:  # not on the curve
+            return False
+        self.npkid = npkid
+        self.pk_list[npkid] = pk_
+        self.status |= uOSNMA.PKR_UPDATED  # PKR updated
+        return True
 
     def decode_hk(self, hk, prn):
         """ decode HKROOT message """
@@ -491,12 +542,7 @@ class osnma():
             self.dsm[did] = bytearray(250)
             self.nb[did] = 0
 
-        if self.cid0 < 0:
-            self.cid0 = cid
-
-        if cid != self.cid0:
-            self.cid0 = cid
-            self.flg_dsm[did] = 0
+        self.cid0 = cid
 
         self.dsm[did][bid*13:bid*13+13] = hk[2:]
         self.flg_dsm[did] |= 1 << bid
@@ -513,8 +559,8 @@ class osnma():
         if self.monlevel > 1:
             print(f"flg_dsm[did={did}]={self.flg_dsm[did]:2x} "
                   f"nb={self.nb[did]:2d} bid={bid} prn={prn}")
-        if did in self.nb.keys() and self.nb[did] > 0 and \
-                self.flg_dsm[did] == (1 << self.nb[did])-1:
+        mask = (1 << self.nb[did])-1
+        if self.nb[did] > 0 and self.flg_dsm[did] & mask == mask:
             if did <= 11:  # DSM-KROOT
                 result = self.decode_dsm_kroot(did)
             else:  # DSM-PKR
@@ -531,19 +577,17 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_LOADED:
             return False
         lt = self.tag_len_t[self.ts]
-        lt_b = lt//8
-        ltag_b = lt_b+2
-        i0 = k*ltag_b
-        tag_k = self.tag[i0:i0+ltag_b]
+        i0 = k*(lt+16)
+        tag = bytearray((lt+7)//8)
+        tag_info = bytearray(2)
+        copy_buff(self.tag, tag, i0, 0, lt)
+        copy_buff(self.tag, tag_info, i0+lt, 0, 16)
         if k == 0:
-            tag0 = tag_k[0:lt_b]
-            macseq = tag_k[lt_b:lt_b+2]  # MACSEQ(12)+res(4)
+            macseq = tag_info  # MACSEQ(12)+res(4)
             cop = macseq[1] & 0xf
             macseq[1] &= 0xf0
-            return tag0, macseq, cop
+            return tag, macseq, cop
         else:
-            tag = tag_k[0:lt_b]
-            tag_info = tag_k[lt_b:lt_b+2]
             # 1-36 Galileo SV, 255: Galileo constellation
             prn_d = tag_info[0]  # sv transmitting the data to be authenticated
             # ADKD Authentication Data and Key Delay
@@ -564,7 +608,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -593,14 +637,15 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
-        ltag_b = self.tag_len_t[self.ts]//8+2
+        lt = self.tag_len_t[self.ts]
         for k in range(self.nt):  # add FLEX taginfo
             if mode_t[k+ofst] != 2:
                 continue
-            i0 = k*ltag_b
-            msg += self.tag[i0+ltag_b-2:i0+ltag_b]
+            tag_info = bytearray(2)
+            copy_buff(self.tag, tag_info, k*(lt+16)+lt, 0, 16)
+            msg += tag_info
 
         macseq_c_ = self.process_mac(msg)
         tag0, macseq_, cop = self.decode_tags_info(0)
@@ -612,8 +657,13 @@ class osnma():
         """ store MACK section (480bits=60bytes) """
         lm_b = 60
         i0 = (prn-1)*lm_b
-        self.mack_p[i0:i0+lm_b] = self.mack_c[i0:i0+lm_b]
+        if self.sf_c[prn-1] != self.gst_sf:  # the first in the sub-frame
+            self.mack_p[i0:i0+lm_b] = self.mack_c[i0:i0+lm_b]
+            self.sf_p[prn-1] = self.sf_c[prn-1]
+            self.nmas_p[prn-1] = self.nmas_c[prn-1]
+            self.sf_c[prn-1] = self.gst_sf
         self.mack_c[i0:i0+lm_b] = mack
+        self.nmas_c[prn-1] = self.hk[prn-1][0] >> 6
 
     def decode_mack(self, prn):
         """ decode MACK message """
@@ -622,17 +672,22 @@ class osnma():
         lt = self.tag_len_t[self.ts]
         lk = self.klen_t[self.ks]
         self.nt = (480-lk)//(lt+16)  # number of tags
-        ltag_b = (lt+16)//8
         lm_b = 60
         i0 = (prn-1)*lm_b
         mack_p = self.mack_p[i0:i0+lm_b]  # previous MACK
         mack_c = self.mack_c[i0:i0+lm_b]  # current MACK
-        i0 = ltag_b*self.nt
-        self.tag = mack_p[0:i0]
-        self.key_p = mack_p[i0:i0+lk//8]
-        self.key_c = mack_c[i0:i0+lk//8]
+        i0 = (lt+16)*self.nt
+        self.tag = mack_p
+        self.key_p = bytearray(lk//8)
+        self.key_c = bytearray(lk//8)
+        copy_buff(mack_p, self.key_p, i0, 0, lk)
+        copy_buff(mack_c, self.key_c, i0, 0, lk)
         return True
 
+    def sf_index(self, tow):
+        """ sub-frame number in week """
+        return int(tow)//30
+
     def load_gal_inav(self, msg):
         """ load Galileo I/NAV navigation message """
 
@@ -664,8 +719,12 @@ class osnma():
             self.subfrm[sat] = bytearray(160)
             self.subfrm_n[sat] = bytearray(160)
             self.subfrm_p[sat] = bytearray(160)
+            self.subfrm_t[sat] = self.sf_index(tow)
 
-        if tow % 30 == 1:
+        # words received until the previous and the second previous sub-frame
+        nsf = (self.sf_index(tow)-self.subfrm_t[sat]) % 20160
+        self.subfrm_t[sat] = self.sf_index(tow)
+        for _ in range(min(nsf, 2)):
             self.subfrm[sat] = copy.copy(self.subfrm_p[sat])
             self.subfrm_p[sat] = copy.copy(self.subfrm_n[sat])
 
@@ -675,6 +734,13 @@ class osnma():
 
         return True
 
+    def get_subfrm(self, sat):
+        """ get words received until the second previous sub-frame """
+        nsf = (self.sf_index(self.gst_tow)-self.subfrm_t[sat]) % 20160
+        if nsf == 0:
+            return self.subfrm[sat]
+        return self.subfrm_p[sat] if nsf == 1 else self.subfrm_n[sat]
+
     def gen_gal_inavmsg(self, prn):
         """ generate Galileo I/NAV message for nma """
         if prn < 1 or prn > self.GALMAX:
@@ -683,7 +749,7 @@ class osnma():
         if sat not in self.subfrm.keys():
             return None
 
-        buff = self.subfrm[sat]
+        buff = self.get_subfrm(sat)
         for k in range(5):
             mt = bs.unpack_from('u6', buff, k*16*8)[0]
             if mt != k+1:
@@ -710,7 +776,7 @@ class osnma():
         sat = prn2sat(uGNSS.GAL, self.prn_a)
         if sat not in self.subfrm.keys():
             return None
-        buff = self.subfrm[sat]
+        buff = self.get_subfrm(sat)
 
         i0 = 5*16
         mt6 = buff[i0:i0+16]
@@ -732,26 +798,30 @@ class osnma():
 
         return msg
 
-    def gen_msg(self, adkd, prn_d, gst_sf, ctr, msg):
+    def gen_msg(self, adkd, prn_d, gst_sf, ctr, msg, prn_a=None, nmas=None):
         """ generate message for verification of NMA """
+        if prn_a is None:
+            prn_a = self.prn_a
+        if nmas is None:
+            nmas = self.nma_header >> 6
         mlen = 141 if adkd == 4 else 549
         rem_ = mlen-mlen//8*8  # number of remaining bit
         j = 0
-        if adkd == 0 and self.prn_a == prn_d:
+        if ctr == 1:  # self-tag
             mlen += 8+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
-            bs.pack_into('u8', m, j, self.prn_a)
+            bs.pack_into('u8', m, j, prn_a)
             j += 8
         else:
             mlen += 16+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
             if prn_d == 0xff:
-                prn_d = self.prn_a
-            bs.pack_into('u8u8', m, j, prn_d, self.prn_a)
+                prn_d = prn_a
+            bs.pack_into('u8u8', m, j, prn_d, prn_a)
             j += 16
-        bs.pack_into('r32u8u2', m, j, gst_sf, ctr, self.nma_header >> 6)
+        bs.pack_into('r32u8u2', m, j, gst_sf, ctr, nmas)
         j += 42
         for k in range(len(msg)):
             b = msg[k]
@@ -770,12 +840,12 @@ class osnma():
         if tag_.prn_d == -1 or not msg:
             return False
 
-        m = self.gen_msg(tag_.adkd, tag_.prn_d, tag_.gst_sf, tag_.cnt, msg)
+        m = self.gen_msg(tag_.adkd, tag_.prn_d, tag_.gst_sf, tag_.cnt, msg,
+                         tag_.prn_a, tag_.nmas)
 
-        tag_c = self.process_mac(m)
-        lt_b = self.tag_len_t[self.ts]//8
-        result = (tag_c[:lt_b] == tag_.tag)
-        return result
+        tag_c = bytearray(len(tag_.tag))
+        copy_buff(self.process_mac(m), tag_c, 0, 0, self.tag_len_t[self.ts])
+        return tag_c == tag_.tag
 
     def save_auth_nav(self, result, tag_):
         """ record authentication status of message """
@@ -783,8 +853,13 @@ class osnma():
         if not result:
             return False
 
+        # count each tag only once
+        tag_id = (tag_.prn_a, tag_.cnt, tag_.adkd)
         prn = tag_.prn_d if tag_.adkd != 4 else self.GALMAX+1
         iodn = tag_.iodnav if tag_.adkd != 4 else 0
+        if self.tag_v.get(tag_id) == tag_.gst_sf:
+            return self.chk_nav(prn, iodn)
+        self.tag_v[tag_id] = tag_.gst_sf
 
         if prn not in self.vstatus.keys():
             self.vstatus[prn] = {}
@@ -832,20 +907,26 @@ class osnma():
             PRN number
         """
         status = False
-        ki = (tow % 30)//2
-        if ki == 0:  # reset counter
-            self.cnt[prn-1] = 0
-            self.hk[prn-1] = bytearray(15)
-            self.mack[prn-1][0] = 0
-        elif ki < 0:
+        if prn < 1 or prn > self.GALMAX:
             return status
+        ki = int(tow % 30)//2
+        self.prn_a = prn
 
         # convert GPS time to Galileo standard time (GST)
         gst_wn, gst_tow = time2gst(gpst2time(wn, tow))
-        self.gst_tow = (gst_tow//30)*30  # current subframe-time
+        self.gst_tow = int(gst_tow//30)*30  # current subframe-time
         self.gst_sf = self.set_gst_sf(gst_wn, self.gst_tow)
 
+        if ki == 0 or self.sf[prn-1] != self.gst_sf:  # reset counter
+            self.cnt[prn-1] = 0
+            self.sf[prn-1] = self.gst_sf
+            self.hk[prn-1] = bytearray(15)
+            self.mack[prn-1] = bytearray(60)
+
         # store sub-frame for NMA
+        page = bytes([self.hk[prn-1][ki]]) + self.mack[prn-1][ki*4:ki*4+4]
+        if self.cnt[prn-1] == 0x7fff and page == nma_b:  # repeated page
+            return status
         self.hk[prn-1][ki] = nma_b[0]              # HK-ROOT message
         self.mack[prn-1][ki*4:ki*4+4] = nma_b[1:5]  # MACK message
         self.cnt[prn-1] |= (1 << ki)
@@ -891,12 +972,16 @@ class osnma():
                     else:
                         print(f"Key chain not verified {s}")
 
-            if self.status & uOSNMA.KEYCHAIN_VERIFIED == 0:
+            if self.status & uOSNMA.KEYCHAIN_VERIFIED == 0 or \
+                    self.gst_sf != self.gst_sf_c:
                 return status
 
             # 6.5 MAC Look-up Table Verification
-            self.gst_tow_p = self.gst_tow-30
-            self.gst_sf_p = self.set_gst_sf(gst_wn, self.gst_tow_p)
+            dwn, self.gst_tow_p = divmod(self.gst_tow-30, 604800)
+            self.gst_sf_p = self.set_gst_sf(gst_wn+dwn, self.gst_tow_p)
+            if self.sf_p[prn-1] != self.gst_sf_p:  # tags are missing
+                return status
+            nmas = self.nmas_p[prn-1]
             result = self.verify_maclt()
             if self.monlevel > 0:
                 s = f"on {wn:4d}/{tow:6d} prn={prn}"\
@@ -934,7 +1019,7 @@ class osnma():
                         navmsg = self.gen_gal_inavmsg(prn_d)
                         tag_ = taginfo(self.gst_sf_p, prn_d,
                                        self.prn_a, adkd, cop,
-                                       tag, ctr, navmsg)
+                                       tag, ctr, navmsg, nmas)
                         self.tag_list.append(tag_)
 
                 if adkd == 12:
@@ -956,7 +1041,7 @@ class osnma():
                     continue
 
                 tag_ = taginfo(self.gst_sf_p, prn_d, self.prn_a,
-                               adkd, cop, tag, ctr, navmsg)
+                               adkd, cop, tag, ctr, navmsg, nmas)
                 result = self.verify_navmsg(tag_)
                 status = self.save_auth_nav(result, tag_)
                 if status and adkd == 4:
@@ -971,10 +1056,12 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
+                tag_list = []
                 for tag_ in self.tag_list:
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
-                    if dt == 300:
-                        self.prn_a = tag_.prn_a
+                    if dt < 300:
+                        tag_list.append(tag_)
+                    elif dt == 300:
                         result = self.verify_navmsg(tag_)
                         status = self.save_auth_nav(result, tag_)
                         if self.monlevel > 0:
@@ -984,9 +1071,7 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
-                        self.tag_list.remove(tag_)
+                self.tag_list = tag_list
 
             self.nsat = self.count_valid_sat()
-            self.cnt[prn-1] = 0
         return status
-- 
2.43.0


From ad62873f9955e143ae0e1b611028c7bbf4fcb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 35/45] fix: QZNMA: signature pages and messages per satellite
 and message type in any order, public key of the named id, invalid satellites
 and times, messages of both types, words of one sub-frame

---
 src/cssrlib/qznma.py | 330 ++++++++++++++++++++++---------------------
 1 file changed, 169 insertions(+), 161 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..9953ee4 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -91,19 +91,19 @@ class qznma():
 
     def __init__(self):
         self.navmsg = {}
-        self.pk = None
+        self.pk = {}    # public keys by key id
+        # pages of the signature, navigation messages and last verified
+        # signature for each satellite and message type
         self.rds = {}
-        self.flag_e = {}
-        self.mask = {}
-        self.tow = -1
-        self.tow_p = {}
         self.buff = {}
+        self.done = {}
+        self.tow = -1
         self.vstatus = {}
         self.vcnt_min = 1
         self.nsat = {uGNSS.GPS: 0, uGNSS.GAL: 0, uGNSS.QZS: 0}
         self.monlevel = 0
         self.sat_t = []
-        self.npr = {}
+        self.npr = {}   # parameters and time of the received signatures
 
         self.navmode = {uGNSS.GPS: uNavId.GPS_LNAV,
                         uGNSS.GAL: uNavId.GAL_INAV,
@@ -129,7 +129,7 @@ class qznma():
                 msg = unhexlify(msg_)
 
                 sid = bs.unpack_from('u3', msg, 53)[0]
-                if sid > 3:
+                if sid == 0 or sid > 3:
                     continue
 
                 buff[(sid-1)*40:(sid-1)*40+40] = msg[0:40]
@@ -139,6 +139,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_LNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_LNAV] = navmsg
 
     def load_navmsg_cnav(self, navfile):
@@ -173,6 +174,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_CNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_CNAV] = navmsg
 
     def load_navmsg_fnav(self, navfile):
@@ -191,7 +193,7 @@ class qznma():
                 msg = unhexlify(msg_)
 
                 sid = bs.unpack_from('u6', msg, 0)[0]
-                if sid > 4:
+                if sid == 0 or sid > 4:
                     continue
 
                 for k in range(31):  # copy 244bits
@@ -278,6 +280,10 @@ class qznma():
                         iodnav1 != iodnav4:
                     continue
 
+                # word 5 has no IODnav: use words of the same sub-frame
+                if max(tow_t)-min(tow_t) > 30:
+                    continue
+
                 if iodnav1 not in self.navmsg[sat].keys():
                     self.navmsg[sat][iodnav1] = {}
 
@@ -407,6 +413,7 @@ class qznma():
 
     def svid2sat(self, svid):
         """ convert svid in QZNMA to sat """
+        sat = 0
         if svid <= 63:
             sat = prn2sat(uGNSS.GPS, svid)
         elif svid <= 127:
@@ -452,6 +459,11 @@ class qznma():
                 mt not in self.navmsg[sat][iode1].keys():
             return None, None
 
+        # number of epochs in a week
+        nw = 604800 if mt in (uNavId.GAL_FNAV, uNavId.GAL_INAV) else 100800
+        if mt != uNavId.GPS_CNAV2 and rtow >= nw:
+            return None, None
+
         npr = NavParam(keyid, ds, salt, mt, nid,
                        rtow, svid, iode1, iode2, iodc)
         tow_ = self.navmsg[sat][iode1][mt].tow
@@ -467,8 +479,8 @@ class qznma():
                 self.navmsg[sat][iode1][mt].msg, sys=uGNSS.GPS)
 
             bs.pack_into('u17', mnav, 300*0+30, rtow)
-            bs.pack_into('u17', mnav, 300*1+30, rtow+1)
-            bs.pack_into('u17', mnav, 300*2+30, rtow+2)
+            bs.pack_into('u17', mnav, 300*1+30, (rtow+1) % nw)
+            bs.pack_into('u17', mnav, 300*2+30, (rtow+2) % nw)
 
         elif mt == uNavId.GPS_CNAV:
 
@@ -476,8 +488,8 @@ class qznma():
                 self.navmsg[sat][iode1][mt].msg, sys=uGNSS.GPS)
 
             bs.pack_into('u17', mnav, 300*0+20, rtow)
-            bs.pack_into('u17', mnav, 300*1+20, rtow+1)
-            bs.pack_into('u17', mnav, 300*2+20, rtow+2)
+            bs.pack_into('u17', mnav, 300*1+20, (rtow+1) % nw)
+            bs.pack_into('u17', mnav, 300*2+20, (rtow+2) % nw)
 
         elif mt == uNavId.GPS_CNAV2:
 
@@ -489,9 +501,9 @@ class qznma():
             mnav = self.fnav_to_mnav(self.navmsg[sat][iode1][mt].msg)
 
             bs.pack_into('u20', mnav, 244*0+167, rtow)
-            bs.pack_into('u20', mnav, 244*1+194, rtow+10)
-            bs.pack_into('u20', mnav, 244*2+186, rtow+20)
-            bs.pack_into('u20', mnav, 244*3+189, rtow+30)
+            bs.pack_into('u20', mnav, 244*1+194, (rtow+10) % nw)
+            bs.pack_into('u20', mnav, 244*2+186, (rtow+20) % nw)
+            bs.pack_into('u20', mnav, 244*3+189, (rtow+30) % nw)
 
         elif mt == uNavId.GAL_INAV:
 
@@ -500,6 +512,35 @@ class qznma():
 
         return npr, mnav
 
+    def get_pubkey(self, keyid):
+        """ get the public key of the key id, None if not available """
+        if keyid not in self.pk.keys():
+            pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
+            try:
+                pk = load_pubkey(pubk_path)
+            except (OSError, ValueError):
+                pk = None
+            if pk is None:
+                if self.monlevel > 0:
+                    print(f"loading public key {keyid} was failed.")
+                return None
+            self.pk[keyid] = pk
+
+        return self.pk[keyid]
+
+    def verify_sig(self, npr, rand):
+        """ verify the digital signature of RAND """
+        pk = self.get_pubkey(npr.keyid)
+        if pk is None:
+            return False
+
+        try:
+            pk.verify(raw2der(npr.ds), bytes(rand), ec.ECDSA(hashes.SHA256()))
+        except InvalidSignature:
+            return False
+
+        return True
+
     def verify_gnss_nav(self, npr, mnav):
         """ verifify the navigation message in MNAV using DS """
         if npr.mt == uNavId.GPS_LNAV:
@@ -525,21 +566,7 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
-
-        ds_der = raw2der(npr.ds)
-        status = False
-        try:
-            self.pk.verify(ds_der, bytes(rand_), ec.ECDSA(hashes.SHA256()))
-            status = True
-        except InvalidSignature:
-            status = False
+        status = self.verify_sig(npr, rand_)
 
         if self.monlevel > 0:
             s = f"tow={self.tow:6d} mt={npr.mt} sys={sys} prn={prn:2d}"
@@ -566,43 +593,57 @@ class qznma():
 
         return status
 
-    def gen_rds(self, sat, mode, msg):
-        """ prepare RDS from navigation message and parameters  """
-
+    def gen_rds(self, sat, mode, msg, tow):
+        """ prepare RDS from navigation message and parameters """
         if mode == uNavId.GPS_LNAV:  # 540bits (180bitsx3)
             sid, d = bs.unpack_from('u2u14', msg, 32*2+2+8)
-            if sid > 0:
-                i0 = (sid-1)*180
-                bs.pack_into('u14', self.rds[sat], i0, d)
+            page = bytearray(23)
+            bs.pack_into('u14', page, 0, d)
 
-                for k in range(7):
-                    d = bs.unpack_from('u24', msg, 32*(k+3)+2)[0]
-                    bs.pack_into('u24', self.rds[sat], i0+14+24*k, d)
-
-                self.mask[sat] |= (1 << (sid-1))
+            for k in range(6):
+                d = bs.unpack_from('u24', msg, 32*(k+3)+2)[0]
+                bs.pack_into('u24', page, 14+24*k, d)
+            d = bs.unpack_from('u22', msg, 32*9+2)[0]
+            bs.pack_into('u22', page, 158, d)
+            plen = 180
 
         elif mode == uNavId.GPS_CNAV:  # 708bits (236bits*3)
             sid = bs.unpack_from('u2', msg, 38)[0]
-            if sid > 0:
-                copy_buff(msg, self.rds[sat], 40, (sid-1)*236, 236)
-                self.mask[sat] |= (1 << (sid-1))
+            plen = 236
+            page = bytearray(30)
+            copy_buff(msg, page, 40, 0, plen)
 
         elif mode == uNavId.GPS_CNAV2:  # 702bits (234bits*3)
             sid = bs.unpack_from('u2', msg, 1266)[0]
-            if sid > 0:
-                copy_buff(msg, self.rds[sat], 1268, (sid-1)*234, 234)
-                self.mask[sat] |= (1 << (sid-1))
+            plen = 234
+            page = bytearray(30)
+            copy_buff(msg, page, 1268, 0, plen)
+
+        rds_t = self.rds.setdefault((sat, mode), {})
+        if sid > 0:
+            rds_t[sid] = (tow, page)
+
+        if len(rds_t) < 3:
+            return None, -1
 
         # key ID (8bits), DS (512bits), SALT (16bits)
-        if self.mask[sat] == 7:
-            keyid = self.rds[sat][0]
-            ds = self.rds[sat][1:65]
-            salt = (self.rds[sat][65] << 8) | self.rds[sat][66]
-            npr = NavParam(keyid, ds, salt, mode)
-        else:
-            npr = None
+        rds = bytearray(89)
+        for k in range(3):
+            copy_buff(rds_t[k+1][1], rds, 0, k*plen, plen)
+
+        keyid = rds[0]
+        ds = bytes(rds[1:65])
+        salt = (rds[65] << 8) | rds[66]
+
+        # latest page of the signature
+        tow_p = max((v[0] for v in rds_t.values()),
+                    key=lambda t: self.dtow(t, tow))
 
-        return npr
+        return NavParam(keyid, ds, salt, mode), tow_p
+
+    def dtow(self, tow, tow0):
+        """ difference of time of week """
+        return (tow-tow0+302400) % 604800-302400
 
     def chk_gps_lnav(self, sys, buff):
         """ check the integrity of GPS LNAV """
@@ -677,31 +718,58 @@ class qznma():
 
         return navmsg
 
-    def msg2nav(self, sat, i0, msg, mode):
-        """ prepare navigation message (LNAV/CNAV) from raw nav message """
-        blen = 40 if mode == uNavId.GPS_LNAV else 38
+    def msg2nav(self, sat, tow, msg, mode):
+        """ store raw navigation message (LNAV/CNAV/CNAV2) """
+        buff = self.buff.setdefault((sat, mode), {})
+        buff.pop(tow, None)
+        buff[tow] = bytes(msg)
+        while len(buff) > 20:   # drop oldest message
+            del buff[next(iter(buff))]
 
-        if sat not in self.buff.keys():
-            self.buff[sat] = bytearray(120)
-            self.navmsg[sat] = {}
+    def chk_qzss_nav(self, sat, mode):
+        """ verify the messages following the signature when available """
+        npr, tow_p = self.npr.get((sat, mode), (None, -1))
+        buff = self.buff.get((sat, mode), {})
 
-        self.buff[sat][(i0-1)*blen:(i0-1)*blen+blen] = msg[0:blen]
-        self.flag_e[sat] |= (1 << (i0-1))
+        if npr is None or self.done.get((sat, mode)) == (tow_p, npr.ds):
+            return None
 
         sys, _ = sat2prn(sat)
-
-        if mode == uNavId.GPS_LNAV:
-            navmsg = self.chk_gps_lnav(sys, self.buff[sat])
-        elif mode == uNavId.GPS_CNAV:
-            navmsg = self.chk_gps_cnav(sys, self.buff[sat])
+        if mode == uNavId.GPS_CNAV2:
+            msg = buff.get((tow_p+18) % 604800)
+            if msg is None:
+                return None
+            toi = bs.unpack_from('u9', msg, 0)[0]
+            mnav = self.cnav2_to_mnav(toi, msg)
+            npr.iode1 = bs.unpack_from('u11', msg, 90)[0]
         else:
-            navmsg = None
+            tow_t = [(tow_p+6*(k+1)) % 604800 for k in range(3)]
+            if any(t not in buff.keys() for t in tow_t):
+                return None
+
+            blen = 40 if mode == uNavId.GPS_LNAV else 38
+            msg = bytearray(120)
+            for k, t in enumerate(tow_t):
+                msg[k*blen:(k+1)*blen] = buff[t][0:blen]
+
+            if mode == uNavId.GPS_LNAV:
+                navmsg = self.chk_gps_lnav(sys, msg)
+                mnav = self.lnav_to_mnav(msg)
+                npr.iode1 = bs.unpack_from('u8', msg, 320+32*2+2)[0]
+            else:
+                navmsg = self.chk_gps_cnav(sys, msg)
+                mnav = self.cnav_to_mnav(msg)
+                npr.iode1 = bs.unpack_from('u11', msg, 70)[0]
 
-        if navmsg is not None:
-            iodn = navmsg.iodn
-            if iodn not in self.navmsg[sat].keys():
-                self.navmsg[sat][iodn] = {}
-                self.navmsg[sat][iodn][mode] = navmsg
+            if navmsg is not None:
+                self.navmsg.setdefault(sat, {}).setdefault(
+                    navmsg.iodn, {})[mode] = navmsg
+
+        status = self.verify_qzss_nav(sat, npr, mnav, mode)
+        if status:
+            self.done[(sat, mode)] = (tow_p, npr.ds)
+
+        return status
 
     def verify_qzss_nav(self, sat, npr, msg, mode):
         """ verify the navigation messages for QZSS LNAV/CNAV/CNAV2 """
@@ -719,21 +787,7 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
-
-        status = False
-        try:
-            self.pk.verify(raw2der(npr.ds), bytes(rand_),
-                           ec.ECDSA(hashes.SHA256()))
-            status = True
-        except InvalidSignature:
-            status = False
+        status = self.verify_sig(npr, rand_)
 
         if status:
             if sat not in self.vstatus.keys():
@@ -783,92 +837,46 @@ class qznma():
 
         if msg is not None:
 
-            if sat not in self.flag_e.keys():
-                self.flag_e[sat] = 0
-                self.tow_p[sat] = -1
-                self.mask[sat] = 0
-                self.npr[sat] = None
-                self.rds[sat] = bytearray(89)
-
             if navmode == uNavId.GPS_LNAV:  # LNAV
                 sid = bs.unpack_from('u3', msg, 53)[0]
                 tow_ = bs.unpack_from('u17', msg, 32+2)[0]*6
-                _, prn = sat2prn(sat)
-                ki = (tow_-self.tow_p[sat])//6
-
+                name = "LNAV"
+                flg_rds, flg_nav = False, sid in (1, 2, 3)
                 if sid == 4 or sid == 5:
                     data_id, svid = bs.unpack_from('u2u6', msg, 32*2+2)
-
-                    if svid == 60:
-                        self.npr[sat] = self.gen_rds(sat, uNavId.GPS_LNAV, msg)
-
-                        if self.mask[sat] == 7:
-                            self.tow_p[sat], self.mask[sat], self.flag_e[sat] \
-                                = tow_, 0, 0
-
-                elif ki in (1, 2, 3):
-                    self.msg2nav(sat, ki, msg, uNavId.GPS_LNAV)
-
-                if self.flag_e[sat] == 7:
-                    self.flag_e[sat] = 0
-                    mnav = self.lnav_to_mnav(self.buff[sat])
-                    status = self.verify_qzss_nav(
-                        sat, self.npr[sat], mnav, uNavId.GPS_LNAV)
-                    if self.monlevel > 0:
-                        if status:
-                            print(f"# LNAV {tow_}, {prn} signature OK.")
-                        else:
-                            print(f"LNAV {tow_}, {prn} signature NG.")
+                    flg_rds = svid == 60
 
             elif navmode == uNavId.GPS_CNAV:  # CNAV
                 prn_, msgid, tow_, alert = bs.unpack_from('u6u6u17u1', msg, 8)
-                prn = prn_ + 192
                 tow_ *= 6
-                ki = (tow_-self.tow_p[sat])//6
-
-                if msgid == 60:
-                    self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV, msg)
-
-                    if self.mask[sat] == 7:
-                        self.tow_p[sat], self.mask[sat], self.flag_e[sat] = \
-                            tow_, 0, 0
-
-                elif ki in (1, 2, 3):
-                    # copy MT10,11,3x after RDS
-                    self.msg2nav(sat, ki, msg, uNavId.GPS_CNAV)
-
-                if self.flag_e[sat] == 7:
-                    self.flag_e[sat] = 0
-                    mnav = self.cnav_to_mnav(self.buff[sat])
-                    status = self.verify_qzss_nav(
-                        sat, self.npr[sat], mnav, uNavId.GPS_CNAV)
-                    if self.monlevel > 0:
-                        if status:
-                            print(f"# CNAV {tow_},{prn:3d} signature OK.")
-                        else:
-                            print(f"CNAV {tow_},{prn:3d} signature NG.")
+                name = "CNAV"
+                flg_rds = msgid == 60
+                flg_nav = not flg_rds   # MT10,11,3x after RDS
 
             elif navmode == uNavId.GPS_CNAV2:  # CNAV2
                 toi = bs.unpack_from('u9', msg, 0)[0]  # SF 1 (52 syms)
                 itow = bs.unpack_from('u8', msg, 65)[0]  # SF 2 (600)
                 tow_ = itow*7200+toi*18
-                prn, page = bs.unpack_from('u8u6', msg, 1252)  # SF 3 (274)
-
-                if page == 60:
-                    self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV2, msg)
-
-                    if self.mask[sat] == 7:
-                        self.tow_p[sat], self.mask[sat] = tow_, 0
-
-                elif tow_ == self.tow_p[sat]+18:
-                    mnav = self.cnav2_to_mnav(toi, msg)
-                    status = self.verify_qzss_nav(
-                        sat, self.npr[sat], mnav, uNavId.GPS_CNAV2)
-                    if self.monlevel > 0:
-                        if status:
-                            print(f"# CNAV2 {tow_},{prn:3d} signature OK.")
-                        else:
-                            print(f"CNAV2 {tow_},{prn:3d} signature NG.")
+                prn_, page = bs.unpack_from('u8u6', msg, 1252)  # SF 3 (274)
+                name = "CNAV2"
+                flg_rds, flg_nav = page == 60, True
+
+            if flg_rds:
+                npr, tow_p = self.gen_rds(sat, navmode, msg, tow_)
+                if npr is not None:
+                    self.npr[(sat, navmode)] = (npr, tow_p)
+
+            if flg_nav:
+                self.msg2nav(sat, tow_, msg, navmode)
+
+            if flg_rds or flg_nav:
+                status = self.chk_qzss_nav(sat, navmode)
+                if status is not None and self.monlevel > 0:
+                    _, prn = sat2prn(sat)
+                    if status:
+                        print(f"# {name} {tow_}, {prn} signature OK.")
+                    else:
+                        print(f"{name} {tow_}, {prn} signature NG.")
 
         if msg_n is not None:  # L6
             mid, alrt = bs.unpack_from('u8u1', msg_n, 40)
-- 
2.43.0


From 038f100dcbd10bb88e5e2d61b46d9ebb721ec2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 36/45] fix: raw navigation messages: parts of one frame, week
 of the times, time scale of BeiDou times, split parameters of D2, satellite
 of F/NAV, invalid subframe numbers

---
 src/cssrlib/rawnav.py | 193 ++++++++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 93 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index e3d2100..40957ad 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -143,6 +143,14 @@ class RawNav():
         s, v = bs.unpack_from('u1u'+str(len_-1), buff, pos)
         return -v if s else v
 
+    def toweek(self, week, sec, tow):
+        """ week number of the time of week closest to the tow of week """
+        if sec < tow - rCST.HALFWEEK_SEC:
+            week += 1
+        elif sec > tow + rCST.HALFWEEK_SEC:
+            week -= 1
+        return week
+
     def urai2sva(self, urai, sys=uGNSS.GPS):
         """ GPS/QZSS SV accuracy [1] 20.3.3.3.1.3, [2] Tab. 5.4.3-2 """
         # sva_t = [2.40, 3.40, 4.85, 6.85, 9.65, 13.65, 24.00, 48.00, 96.00,
@@ -152,6 +160,9 @@ class RawNav():
         sva_t = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0,
                  64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 4096.0, 8192.0]
 
+        if urai < 0:  # signed index of CNAV
+            return 2.0**(1.0+urai*0.5)
+
         return sva_t[urai]
 
     def sisa2sva(self, sisa):
@@ -180,6 +191,9 @@ class RawNav():
         # for E5b: field1: reserved1. field2 = reserved2
 
         odd, page = bs.unpack_from('u1u1', msg, 0)
+        if odd or page:  # not a nominal page
+            return None
+
         # odd_, page_ = bs.unpack_from('u1u1', msg, 120)
         sid, iodnav = bs.unpack_from('u6u10', msg, 2)
 
@@ -258,13 +272,11 @@ class RawNav():
         elif type_ == 1:  # FNAV E1B, R5A
             eph.code |= (1 << 8)  # toc/af0-2, SISA are for E5a, E1
 
+        week_toe = self.toweek(week_gst, eph.toes, tow)
+        eph.week = week_toe + 1024
         eph.tot = gst2time(week_gst, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
-        eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
+        eph.toe = gst2time(week_toe, eph.toes)
+        eph.toc = gst2time(self.toweek(week_gst, toc, tow), toc)
 
         eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
         eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
@@ -283,7 +295,7 @@ class RawNav():
 
         sid, svid, iodnav = bs.unpack_from('u6u6u10', msg, 0)
 
-        if sid > 4:
+        if sid == 0 or sid > 4:
             return None
 
         buff = self.gal_fnav[prn-1]
@@ -296,7 +308,7 @@ class RawNav():
         sid3, iodnav3 = bs.unpack_from('u6u10', buff, 248*2)
         sid4, iodnav4 = bs.unpack_from('u6u10', buff, 248*3)
 
-        if svid != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
+        if svid1 != prn or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
             return None
         if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:
             return None
@@ -343,15 +355,11 @@ class RawNav():
         eph.code = 2  # FNAV
         eph.code |= (1 << 8)  # toc/af0-2, SISA are for E5a, E1
 
+        week_toe = self.toweek(week_gst, eph.toes, tow)
+        eph.week = week_toe + 1024
         eph.tot = gst2time(week_gst, tow)
-
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
-
-        eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
+        eph.toe = gst2time(week_toe, eph.toes)
+        eph.toc = gst2time(self.toweek(week_gst, toc, tow), toc)
 
         eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
         eph.tgd_b = 0.0
@@ -378,6 +386,8 @@ class RawNav():
             return None
 
         sid = bs.unpack_from('u3', msg, 53)[0]
+        if sid < 1 or sid > 3:  # almanac or undefined
+            return None
         buff[(sid-1)*40:(sid-1)*40+40] = msg[0:40]
         buff = bytes(buff)
 
@@ -408,7 +418,7 @@ class RawNav():
         M0 = bs.unpack('s32', bs.pack('u8u24', M0_, M0))[0]
         cuc, e_ = bs.unpack_from('s16u8', buff, i0+32*5+2)
         e = bs.unpack_from('u24', buff, i0+32*6+2)[0]
-        e = bs.unpack('s32', bs.pack('u8u24', e_, e))[0]
+        e = bs.unpack('u32', bs.pack('u8u24', e_, e))[0]
         cus, sa_ = bs.unpack_from('s16u8', buff, i0+32*7+2)
         sa = bs.unpack_from('u24', buff, i0+32*8+2)[0]
         sqrtA = bs.unpack('u32', bs.pack('u8u24', sa_, sa))[0]
@@ -431,7 +441,8 @@ class RawNav():
         if iode != iode2 or iode != (iodc & 0xff):
             return None
 
-        eph.week = (week // 1024)*1024 + wn
+        week = wn + (week-wn+512)//1024*1024
+        eph.fit = fit
         eph.l2p = l2p
         eph.code = code
         eph.svh = svh
@@ -462,13 +473,9 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            eph.week -= 1
-
-        eph.toc = gpst2time(eph.week, toc)
+        eph.week = self.toweek(week, eph.toes, tow)
+        eph.tot = gpst2time(week, tow)
+        eph.toc = gpst2time(self.toweek(week, toc, tow), toc)
         eph.toe = gpst2time(eph.week, eph.toes)
 
         return eph
@@ -541,7 +548,7 @@ class RawNav():
         if id1 != 10 or id2 != 11:
             return None
 
-        if id3//10 != 3 and (sys == uGNSS.QZS and id3 != 61):
+        if id3//10 != 3 and not (sys == uGNSS.QZS and id3 == 61):
             return None
 
         toe1 = bs.unpack_from('u11', buff, 70)[0]
@@ -631,7 +638,10 @@ class RawNav():
         eph.omg = omg*rCST.P2_32*rCST.SC2RAD
         eph.integ = (alert << 2) | (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        if wn_op < 0:
+            return None
+
+        eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -647,18 +657,12 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 1  # CNAV
-        eph.tot = gpst2time(eph.week, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            eph.week -= 1
-        eph.toc = gpst2time(eph.week, toc)
+        eph.week = self.toweek(wn, eph.toes, tow)
+        eph.tot = gpst2time(wn, tow)
+        eph.toc = gpst2time(self.toweek(wn, toc, tow), toc)
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.top = gpst2time(eph.wn_op, eph.tops)
 
-        if wn_op < 0:
-            return None
-
         return eph
 
     def decode_gps_cnav2(self, week, time, sat, msg):
@@ -744,7 +748,7 @@ class RawNav():
         else:
             eph.integ = (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn_op + (wn-wn_op+128)//256*256
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -760,11 +764,8 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # CNAV/2
-        eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
-            eph.week -= 1
+        eph.week = self.toweek(wn, eph.toes, tow)
+        eph.tot = gpst2time(wn, tow)
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
         eph.top = gpst2time(eph.wn_op, eph.tops)
@@ -787,7 +788,6 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -813,13 +813,19 @@ class RawNav():
         toc, a0, a1, a2 = \
             bs.unpack_from('u11s25s22s11', msg, i)
         i += 69
-        tocs = toc*300.0
+        eph.tocs = toc*300.0
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
         return i
 
+    def set_bds_time(self, eph, week, sow, tocs):
+        """ times of BDS ephemeris transmitted at sow of week (BDT) """
+        eph.week = self.toweek(week, eph.toes, sow)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+        eph.toc = bdt2gpst(bdt2time(self.toweek(week, tocs, sow), tocs))
+        eph.tot = bdt2gpst(bdt2time(week, sow))
+
     def decode_bds_cnav_iono(self, msg, i):
         """ BDS CNAV message decoder for Ionoephere parameters """
         a1, a2, a3, a4, a5, a6, a7, a8, a9 = \
@@ -884,7 +890,7 @@ class RawNav():
         soh = bs.unpack_from('u8', msg, 600+8+264)[0]*18.0
         # decode Subframe 2
         i = 0
-        eph.week, how, eph.iodc, eph.iode = bs.unpack_from(
+        week_bdt, how, eph.iodc, eph.iode = bs.unpack_from(
             'u13u8u10u8', msg, i)
         i += 39
 
@@ -892,11 +898,11 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
         i = self.decode_bds_cnav_clk(msg, eph, i)
+        self.set_bds_time(eph, week_bdt, tow, eph.tocs)
         tgd_b2ap, isc_b1cd, tgd_b1cp = bs.unpack_from('s12s12s12', msg, i)
         eph.tgd = tgd_b1cp*rCST.P2_34
         eph.isc[0] = isc_b1cd*rCST.P2_34
@@ -939,7 +945,7 @@ class RawNav():
         sys, prn = sat2prn(sat)
         prn_, sid, sow = bs.unpack_from('u6u6u18', msg, 0)
 
-        if sid not in (10, 11, 30, 34, 40):
+        if sid not in (10, 11, 30, 34, 40) or prn_ != prn:
             return None
 
         msg_t = {10: 0, 11: 1, 30: 2, 34: 3, 40: 4}
@@ -959,7 +965,8 @@ class RawNav():
         if id1 != 10 or id2 != 11 or id3 != 30 or id5 != 40:
             return None
 
-        if sow2 != sow1+1 or sow3 != sow2+1:
+        nsow = 604800//3
+        if sow2 != (sow1+1) % nsow or sow3 != (sow2+1) % nsow:
             return None
 
         sow1 *= 3.0
@@ -979,7 +986,7 @@ class RawNav():
 
         # decode MT10
         i = 30
-        eph.week, ib2a, eph.sismai, ib1c, eph.iode = bs.unpack_from(
+        week_bdt, ib2a, eph.sismai, ib1c, eph.iode = bs.unpack_from(
             'u13u3s4u3u8', buff, i)
         i += 31
         i = self.decode_bds_cnav_eph1(buff, eph, i)
@@ -1009,7 +1016,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        self.set_bds_time(eph, week_bdt, sow1, eph.tocs)
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1037,7 +1044,7 @@ class RawNav():
         if id1 != 10 or id2 != 30:
             return None
 
-        if sow2 != sow1+1:
+        if sow2 != (sow1+1) % 604800:
             return None
 
         eph = Eph(sat)
@@ -1054,7 +1061,7 @@ class RawNav():
 
         # decode MT30
         i = 512+ofst+26
-        eph.week = bs.unpack_from('u13', buff, i)[0]
+        week_bdt = bs.unpack_from('u13', buff, i)[0]
         i += 13+4
         i = self.decode_bds_cnav_clk(buff, eph, i)
         eph.tgd = bs.unpack_from('s12', buff, i)[0]*rCST.P2_34  # tgd-B2bI
@@ -1066,7 +1073,10 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        # week number belongs to the second message
+        if sow2 < sow1:
+            week_bdt -= 1
+        self.set_bds_time(eph, week_bdt, sow1, eph.tocs)
         eph.mode = 3  # B-CNAV3
 
         return eph
@@ -1079,7 +1089,7 @@ class RawNav():
         if pre != 0x712:
             return None
 
-        if sid > 3:
+        if sid < 1 or sid > 3:
             return None
 
         buff = self.bds_d12[prn-1]
@@ -1099,15 +1109,16 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        # subframes of the same frame
+        if sow2 != (sow1+6) % 604800 or sow3 != (sow2+6) % 604800:
+            return None
 
         eph = Eph(sat)
 
         # subframe 1
         i = 0
         eph.svh, eph.iodc, urai = bs.unpack_from('u1u5u4', buff, i+42)
-        eph.week = bs.unpack_from('u13', buff, i+60)[0]
+        week_bdt = bs.unpack_from('u13', buff, i+60)[0]
         toc = self.getbitu2(buff, i+73, 9, i+90, 8)*8.0
         eph.tgd = bs.unpack_from('s10', buff, i+98)[0]*1e-10
         eph.tgd_b = self.getbits2(buff, i+108, 4, i+120, 6)*1e-10
@@ -1149,13 +1160,7 @@ class RawNav():
         eph.sva = self.urai2sva(urai)
 
         eph.toes = ((toe1 << 15)+toe2)*8.0
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
-        if eph.toes > sow1+rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        self.set_bds_time(eph, week_bdt, sow1, toc)
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1188,9 +1193,7 @@ class RawNav():
             if page != k+1:
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
-            if k == 2:
-                sow_[k] != sow_[k-2]+6
-            elif k > 0 and sow_[k] != sow_[k-1]+3:
+            if sow_[k] != (sow_[0]+k*3) % 604800:
                 return None
 
         eph = Eph(sat)
@@ -1198,7 +1201,7 @@ class RawNav():
         # page 1
         i = 0
         eph.svh, eph.iodc = bs.unpack_from('u1u5', buff, i+46)
-        urai, eph.week = bs.unpack_from('u4u13', buff, i+60)
+        urai, week_bdt = bs.unpack_from('u4u13', buff, i+60)
         toc = self.getbitu2(buff, i+77, 5, i+90, 12)*8.0
         eph.tgd = bs.unpack_from('s10', buff, i+102)[0]*1e-10
         eph.tgd_b = bs.unpack_from('s10', buff, i+120)[0]*1e-10
@@ -1219,15 +1222,15 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
-        ep5 = bs.unpack_from('s10', buff, i+124)[0]
+        ep5 = bs.unpack_from('u10', buff, i+124)[0]
 
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
@@ -1268,13 +1271,7 @@ class RawNav():
         eph.OMGd = ((OMGdp8 << 5)+OMGdp9)*rCST.P2_43*rCST.SC2RAD
         eph.omg = ((omgp9 << 5)+omgp10)*rCST.P2_31*rCST.SC2RAD
 
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
-        if eph.toes > sow_[0]+302400.0:
-            eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        self.set_bds_time(eph, week_bdt, float(sow_[0]), toc)
 
         eph.flag = 2  # GEO
         eph.mode = 0
@@ -1291,11 +1288,11 @@ class RawNav():
         i += 30
 
         buff = self.irn_nav[prn-1]
-        buff[sid*40:sid*40+40] = msg[0:40]
-
-        if sid > 2:
+        if sid > 1:  # secondary parameters
             return None
 
+        buff[sid*40:sid*40+40] = msg[0:40]
+
         buff = bytes(buff)
         id1 = bs.unpack_from('u2', buff, 27)[0]
         id2 = bs.unpack_from('u2', buff, 320+27)[0]
@@ -1306,7 +1303,7 @@ class RawNav():
         if id1 != 0 or id2 != 1:
             return None
 
-        if tow2 != tow1+1:
+        if tow2 != (tow1+1) % 50400:
             return None
 
         eph = Eph(sat)
@@ -1329,7 +1326,7 @@ class RawNav():
 
         tow1 *= 12.0
 
-        eph.week = wk+(week-wk+512)//1024*1024
+        week = wk+(week-wk+512)//1024*1024
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
         eph.af2 = af2*rCST.P2_55
@@ -1358,13 +1355,9 @@ class RawNav():
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.toc = gpst2time(eph.week, toc)
+        eph.week = self.toweek(week, eph.toes, tow1)
+        eph.toc = gpst2time(self.toweek(week, toc, tow1), toc)
         eph.toe = gpst2time(eph.week, eph.toes)
-
-        if eph.toes > tow1+302400.0:
-            week += 1
-        elif eph.toes < tow1-302400.0:
-            week -= 1
         eph.tot = gpst2time(week, tow1)
 
         eph.mode = 0
@@ -1544,9 +1537,11 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
-        eph.toe = gst2time(eph.week, eph.toes)
+        week_toe = self.toweek(wn, eph.toes, tow)
+        eph.week = week_toe + 1024
+        eph.toe = gst2time(week_toe, eph.toes)
         eph.toc = eph.toe
-        eph.tot = gst2time(eph.week, tow)
+        eph.tot = gst2time(wn, tow)
 
         return eph
 
@@ -1592,7 +1587,9 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3 or id4 != 4:
             return None
 
-        if t4-t3 != 2 or t3-t2 != 2 or t2-t1 != 2:
+        # strings of the same frame
+        if (t4-t3) % 604800 != 2 or (t3-t2) % 604800 != 2 or \
+           (t2-t1) % 604800 != 2:
             return None
 
         geph = Geph(sat)
@@ -1740,6 +1737,16 @@ class RawNav():
         if sid10 != 10 or sid11 != 11 or sid12 != 12:
             return None
 
+        # strings of the same sequence
+        if stype == 1:
+            ofst, fmt, nts = 22, 'u16', 86400//2
+        else:
+            ofst, fmt, nts = 6, 'u15', 86400//3
+        ts10, ts11, ts12 = (bs.unpack_from(fmt, buff, 32*8*k+ofst)[0]
+                            for k in range(3))
+        if ts11 != (ts10+1) % nts or ts12 != (ts10+2) % nts:
+            return None
+
         geph = Geph(sat)
 
         # MT10
-- 
2.43.0


From e638433e74dce764a252486caf11c6cecef92b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 37/45] fix: RTCM station and integrity messages: consumed
 length, extended integrity layout, empty constellation list, code/phase
 rates, time, level of C/N0 index 0, encoder of the SSR integrity message

---
 src/cssrlib/rtcm.py | 121 ++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 352c585..9dcf87d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -197,6 +197,7 @@ class Integrity():
         self.vp_r_tbl = {s: k for k, s in enumerate(self.vp_tbl)}
 
         self.pid = 0  # augmentation provider id DFi027 (0-4095)
+        self.aid = 0  # service area id DFi075
         self.vp = 0  # validity period DFi065 (0-15)
         self.udi = 0  # update rate interval DFi067 (b16)
 
@@ -268,11 +269,11 @@ class Integrity():
     def cnr_lvl(self, idx):
         """ get index to C/N level [dB-Hz] """
         cnr = -1
-        if idx>0 and idx<20:
+        if idx > 0 and idx < 20:
             cnr = idx-1
-        elif idx<245:
+        elif idx >= 20 and idx < 245:
             cnr = 19+(idx-20)*0.2
-        else:
+        elif idx >= 245:
             cnr = 64+(idx-245)
         
         return cnr
@@ -1552,7 +1553,7 @@ class rtcm(cssr, rtcmUtil):
 
     def decode_nrtk_residual(self, msg, i=0):
         """ decode Network RTK Residual Message """
-        i, sys, time = self.decode_nrtk_time(msg, i)
+        i, sys, self.time = self.decode_nrtk_time(msg, i)
         sz = 6 if sys != uGNSS.QZS else 4
 
         self.refid, self.nrefs, self.nsat = bs.unpack_from('u12u7u5', msg, i)
@@ -1954,7 +1955,10 @@ class rtcm(cssr, rtcmUtil):
                         
                 self.fh.write(" Integrity Fault Source:\n")
                 for sys in self.integ.src:
-                    msg = self.integ.fault_src_t[self.integ.src[sys]]
+                    src = self.integ.src[sys]
+                    msg = f"reserved ({src})"
+                    if src < len(self.integ.fault_src_t):
+                        msg = self.integ.fault_src_t[src]
                     self.fh.write(f"  {sys2char(sys)}: {msg}\n")                    
 
                 self.fh.write(" Frequency mask:\n")
@@ -1965,7 +1969,7 @@ class rtcm(cssr, rtcmUtil):
                         f = self.integ.freq[sys][sat]
                         self.fh.write(f" {sat2id(sat)}") 
                         for k in f:
-                            self.fh.write(f" {s[k]}")  
+                            self.fh.write(f" {s[k] if k < len(s) else k}")
                     self.fh.write("\n")  
                         
                 self.fh.write(" IOD freq mask:\n")
@@ -2555,7 +2559,7 @@ class rtcm(cssr, rtcmUtil):
         self.refid, nc = bs.unpack_from('u12u8', msg, i)
         i += 20
         j = 7
-        self.ant_desc = msg[j:j+nc].decode()
+        self.ant_desc = bytes(msg[j:j+nc]).decode('latin-1')
         i += 8*nc
         self.ant_id = bs.unpack_from('u8', msg, i)[0]
         i += 8
@@ -2564,26 +2568,26 @@ class rtcm(cssr, rtcmUtil):
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.ant_serial = msg[j:j+nc].decode()
+            self.ant_serial = bytes(msg[j:j+nc]).decode('latin-1')
             i += 8*nc
             j += nc
         if self.msgtype == 1033:
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.rcv_type = msg[j:j+nc].decode()
+            self.rcv_type = bytes(msg[j:j+nc]).decode('latin-1')
             i += 8*nc
             j += nc
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.firm_ver = msg[j:j+nc].decode()
+            self.firm_ver = bytes(msg[j:j+nc]).decode('latin-1')
             i += 8*nc
             j += nc
             nc = bs.unpack_from('u8', msg, i)[0]
             i += 8
             j += 1
-            self.rcv_serial = msg[j:j+nc].decode()
+            self.rcv_serial = bytes(msg[j:j+nc]).decode('latin-1')
             i += 8*nc
             j += nc
 
@@ -3035,10 +3039,13 @@ class rtcm(cssr, rtcmUtil):
 
     def decode_unicode_text(self, msg, i):
         """ RTCM SC-104 Unicode Text Message"""
-        refid, mjd, sod, nch, ncp = bs.unpack_from('u12u16u17u7u8', msg, i)
+        self.refid, mjd, sod, nch, ncp = bs.unpack_from(
+            'u12u16u17u7u8', msg, i)
         i += 12+16+17+7+8
         ic = i//8
         self.ustr = bytes(msg[ic:ic+ncp]).decode()
+        i += 8*ncp
+        return i
 
     def decode_ssr_metadata(self, msg, i):
         """ decode SSR Metadata Message """
@@ -3442,9 +3449,9 @@ class rtcm(cssr, rtcmUtil):
         self.integ.vp = self.integ.vp_tbl[vp] # Validity Period DFi065 (0-15)
         self.integ.udi = udi*0.1  # update rate interval DFi067 (0.1) 
  
-        self.tow = self.integ.tow        
-        self.time = gpst2time(self.week, self.tow)       
- 
+        self.tow = self.integ.tow
+        self.time = self.tow2time(self.tow)
+
         if self.msgtype != 2000:
             aid = bs.unpack_from('u10', msg, i)[0]
             i += 10
@@ -3519,15 +3526,15 @@ class rtcm(cssr, rtcmUtil):
                 msts[sys][sat] = bs.unpack_from('u8', msg, i)[0]
                 i += 8
 
-            self.integ.iod_sys = iod_sys
-            self.integ.sts = sts_tbl
-            self.integ.mst = mst_tbl
-            self.integ.src = src_tbl
-
-            self.integ.freq = freq
-            self.integ.iod_freq = iod_freq
-            self.integ.ists = ists
-            self.integ.msts = msts
+        self.integ.iod_sys = iod_sys
+        self.integ.sts = sts_tbl
+        self.integ.mst = mst_tbl
+        self.integ.src = src_tbl
+
+        self.integ.freq = freq
+        self.integ.iod_freq = iod_freq
+        self.integ.ists = ists
+        self.integ.msts = msts
         return i
 
     def decode_integrity_ext(self, msg, i):
@@ -3540,7 +3547,7 @@ class rtcm(cssr, rtcmUtil):
         # TTTcomm DFi050
         # Service Provider Solution Type DFi004
         ilvl, ttt, stype = bs.unpack_from('u8u7u15', msg, i)
-        i += 82
+        i += 30
 
         self.integ.ilvl = ilvl
         self.integ.ttt = (ttt+1)*0.1
@@ -3673,7 +3680,7 @@ class rtcm(cssr, rtcmUtil):
         # integrity parameter IOD DFi006
         # GNSS Constellation Mask DFi013
         # Time correlation integrity/continuity flag DFi137
-        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)[0]
+        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)
         i += 23
 
         self.integ.iod_ip = iod_ip
@@ -3720,7 +3727,7 @@ class rtcm(cssr, rtcmUtil):
                 # Nominal pseudorange bias rate of change DFi125
                 # Bounding sigma on phase-range-rate error DFi122
                 # Phase-range-rate error rate integrity index DFi123
-                sig_pd, sig_cd, cbr, sig_dp, idx_dp = bs.unpack_from(
+                sig_cd, sig_pd, cbr, sig_dp, idx_dp = bs.unpack_from(
                     'u4u4u3u4u4', msg, i)
                 i += 19
 
@@ -4026,6 +4033,8 @@ class rtcm(cssr, rtcmUtil):
         self.integ.sat_e = sat_e
         self.integ.iod_sys = iod_sys
         self.integ.flag = flag_t
+        self.integ.mask_sys = mask_sys
+        return i
 
     def decode_sc134_test_header(self, msg, i):
         # MT51-56 has subtype to extent message type space
@@ -4136,7 +4145,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sRTCM.GAL_EPH
             i, eph = self.decode_gal_eph(msg, i)
         elif self.msgtype == 1029:
-            self.decode_unicode_text(msg, i)
+            i = self.decode_unicode_text(msg, i)
 
         # test messages for RTCM SSR
         elif self.msgtype == 60:
@@ -4183,48 +4192,48 @@ class rtcm(cssr, rtcmUtil):
         # test messages for SC-134
         elif self.msgtype in [3, 2000]:  # minimum integrity
             self.subtype = sRTCM.INTEG_MIN
-            self.decode_integrity_min(msg, i)
+            i = self.decode_integrity_min(msg, i)
         elif self.msgtype in [4, 2005]:  # extended integrity
             self.subtype = sRTCM.INTEG_EXT
-            self.decode_integrity_ext(msg, i)
+            i = self.decode_integrity_ext(msg, i)
         elif self.msgtype in [5, 2006]:  # sis integrity/local error
             self.subtype = sRTCM.INTEG_EXT_SIS
-            self.decode_integrity_ext_sis_local(msg, i)
+            i = self.decode_integrity_ext_sis_local(msg, i)
         elif self.msgtype in [6, 2007]:  # primary sercice area
             self.subtype = sRTCM.INTEG_PRI_AREA
-            self.decode_integrity_service_area(msg, i)
+            i = self.decode_integrity_service_area(msg, i)
         elif self.msgtype == 2008:  # extended sercice area
             self.subtype = sRTCM.INTEG_EXT_AREA
-            self.decode_integrity_service_area(msg, i, True)
+            i = self.decode_integrity_service_area(msg, i, True)
         elif self.msgtype in [7, 2051]:  # quality indicator
             self.subtype = sRTCM.INTEG_QUALITY
-            self.decode_integrity_quality(msg, i)
+            i = self.decode_integrity_quality(msg, i)
         elif self.msgtype in [8, 2091]:  # CNR/ACG SIS Monitoring
             self.subtype = sRTCM.INTEG_CNR
-            self.decode_integrity_cnr_acg(msg, i)
+            i = self.decode_integrity_cnr_acg(msg, i)
         elif self.msgtype == 2071:  # satellite visibility map
             self.subtype = sRTCM.INTEG_VMAP
-            self.decode_integrity_vmap(msg, i)
+            i = self.decode_integrity_vmap(msg, i)
         elif self.msgtype == 2072:  # multipath map
             self.subtype = sRTCM.INTEG_MMAP
-            self.decode_integrity_mmap(msg, i)
+            i = self.decode_integrity_mmap(msg, i)
         elif self.msgtype in [11, 2011]:  # SSR integrity
             self.subtype = sRTCM.INTEG_SSR
-            self.decode_integrity_ssr(msg, i)
+            i = self.decode_integrity_ssr(msg, i)
         elif self.msgtype == 12:  # SSR integrity Iono
             self.subtype = sRTCM.INTEG_SSR_IONO
-            self.decode_integrity_ssr(msg, i)
+            i = self.decode_integrity_ssr(msg, i)
         elif self.msgtype == 13:  # SSR integrity Trop
             self.subtype = sRTCM.INTEG_SSR_TROP
-            self.decode_integrity_ssr(msg, i)
+            i = self.decode_integrity_ssr(msg, i)
         elif self.msgtype == 54:  # SSR integrity test msg
             i = self.decode_sc134_test_header(msg, i)
             if self.subtype == 9:
                 self.subtype = sRTCM.INTEG_VMAP
-                self.decode_integrity_vmap(msg, i)
+                i = self.decode_integrity_vmap(msg, i)
             elif self.subtype == 10:
                 self.subtype = sRTCM.INTEG_MMAP
-                self.decode_integrity_mmap(msg, i)
+                i = self.decode_integrity_mmap(msg, i)
             else:
                 self.subtype = -1
 
@@ -4533,7 +4542,8 @@ class rtcme(cssre, rtcmUtil):
     def encode_integrity_ssr(self, msg, i):
         """ RTCM SC-134 SSR integrity message (MT11,12,13) """
 
-        sys_t = self.integ.iod_sys.keys()
+        sys_t = sorted(self.integ.iod_sys.keys(),
+                       key=lambda sys: self.integ.sys_r_tbl[sys])
         gnss_t = []
         for sys in sys_t:
             gnss_t.append(self.integ.sys_r_tbl[sys])
@@ -4541,28 +4551,27 @@ class rtcme(cssre, rtcmUtil):
         # mask_sys:: DFi013 0:GPS,1:GLO,2:GAL,3:BDS,4:QZS,5:IRN
         mask_sys = self.encode_mask(gnss_t, 16, ofst=0)
 
+        # tow DFi008
         # augmentation service provider id DFi027
-        bs.pack_into('u12', msg, i, self.integ.pid)
-        i += 12
+        # validity period DFi065
+        # update rate interval DFi067
+        # service area id DFi075
+        vp = self.integ.vp_r_tbl[int(self.integ.vp)]
+        bs.pack_into('u30u12u4u16u10', msg, i,
+                     self.round_i(self.integ.tow*1e3), self.integ.pid,
+                     vp, self.round_i(self.integ.udi*10), self.integ.aid)
+        i += 72
 
         # SSR provider id, soluition type, iod
         bs.pack_into('u16u4u4', msg, i, self.pid, self.sid, self.iodssr)
         i += 24
 
-        bs.pack_into('u30', msg, i, self.integ.tow*1e3)  # tow DFi008
-        i += 30
         bs.pack_into('u16', msg, i, mask_sys)  # GNSS constellation mask DFi013
         i += 16
 
-        # validity period DFi065
-        # update rate interval DFi067
-        vp = self.integ.vp_r_tbl[int(self.integ.vp)]
-        bs.pack_into('u4u16', msg, i, vp, self.integ.udi*10)
-        i += 20
-
         for sys in sys_t:
             flag = self.integ.flag[sys]
-            sat_t = flag.keys()
+            sat_t = sorted(flag.keys())
             svid_t = []
             for sat in sat_t:
                 sys_, prn = sat2prn(sat)
@@ -4574,9 +4583,9 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u64u2', msg, i, mask_sat, self.integ.iod_sys[sys])
             i += 66
 
-            for f in flag.values():
+            for sat in sat_t:
                 # integrity flag DFi068
-                bs.pack_into('u2', msg, i, f)
+                bs.pack_into('u2', msg, i, flag[sat])
                 i += 2
 
         return i
-- 
2.43.0


From e68234729ee04ddc213e40b9cebdf32363dd7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 38/45] fix: estimators: own copy of the configuration, state
 indices without estimated ionosphere, initial states, reference satellites,
 per-satellite GLONASS wavelengths, base residuals and antenna, inputs
 unchanged, standalone measurements and clock reset

---
 src/cssrlib/pntpos.py |  37 ++++++++-----
 src/cssrlib/ppprtk.py |   8 ---
 src/cssrlib/pppssr.py | 117 ++++++++++++++++++++++--------------------
 src/cssrlib/rtk.py    |   8 +--
 4 files changed, 89 insertions(+), 81 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 12c74e8..d61573d 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -1,6 +1,7 @@
 """
 module for standalone positioning
 """
+from copy import copy
 import numpy as np
 from cssrlib.gnss import rCST, ecef2pos, geodist, satazel, \
     tropmodel, tropmapf, sat2prn, uGNSS, uTropoModel, uIonoModel, \
@@ -357,10 +358,8 @@ class stdpos(pppos):
                 CP = lam[0]*obs.L[i, 0]
             else:  # iono-free combination
                 iono = 0.0
-                if self.nav.rmode == 1:  # L1/L2 iono free combination
-                    gam = (rCST.FREQ_G1/rCST.FREQ_G2)**2
-                if self.nav.rmode == 2:  # L1/L5 iono free combination
-                    gam = (rCST.FREQ_S1/rCST.FREQ_S5)**2
+                # 1: L1/L2, 2: L1/L5 iono free combination
+                gam = (lam[1]/lam[0])**2
                 PR = (obs.P[i, 1]-gam*obs.P[i, 0])/(1-gam)
                 CP = (lam[1]*obs.L[i, 1]-gam*lam[0]*obs.L[i, 0])/(1-gam)
 
@@ -401,8 +400,7 @@ class stdpos(pppos):
             Covariance matrix of single-difference measurements
         """
 
-        nf = self.nav.nf if self.nav.rmode == 0 else 1
-        # number of frequencies (or signals)
+        nf = 1  # one pseudorange (or combination) per satellite
 
         ns = len(el)  # number of satellites
         nc = len(obs.sig.keys())  # number of constellations
@@ -439,6 +437,12 @@ class stdpos(pppos):
                     if np.any(self.nav.edt[sat[j]-1, :] > 0):
                         continue
 
+                    # Skip invalid measurements, zdres() returns zero
+                    # residuals for them
+                    #
+                    if y[j, f] == 0.0:
+                        continue
+
                     v[nv] = y[j, f]
 
                     # SD line-of-sight vectors
@@ -478,13 +482,16 @@ class stdpos(pppos):
         if len(obs.sat) == 0:
             return
 
+        if cs is None:
+            self.nav.smode = 1  # standalone
+
         if cs is not None and cs.cssrmode == sCSSRTYPE.DGPS:
             self.nav.smode = 2  # DGPS
             self.nav.baseline = cs.set_dgps_corr(self.nav.x[0:3])
 
         if cs is not None and cs.cssrmode in \
                 [sCSSRTYPE.SBAS_L1, sCSSRTYPE.SBAS_L5]:
-            self.nav.obad = cs.obad
+            self.nav.obad = copy(cs.obad)
             self.nav.obad.t0 = cs.lc[0].t0
             self.nav.cssrmode = cs.cssrmode
 
@@ -516,7 +523,6 @@ class stdpos(pppos):
             ns = len(iu)
 
         if ns < 4:
-            self.nav.t = obs.t
             self.nsat = ns
             print(" too few satellites < 4: ns={:d}".format(ns))
             return
@@ -564,11 +570,16 @@ class stdpos(pppos):
         #
         v, H, R = self.sdres(obs, xp, y, e, sat, el)
 
-        if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
-            ic = self.ICB()
-            idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+        if len(v) < 4:
+            self.nav.t = obs.t
+            self.nsat = len(v)
+            print(" too few satellites < 4: ns={:d}".format(len(v)))
+            return
+
+        dclk = np.mean(v)
+        if abs(dclk) > self.nav.th_clk_rst:  # clock bias initialize/reset
+            xp[self.ICB()] += dclk
+            v -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
diff --git a/src/cssrlib/ppprtk.py b/src/cssrlib/ppprtk.py
index 013db03..7621b3b 100644
--- a/src/cssrlib/ppprtk.py
+++ b/src/cssrlib/ppprtk.py
@@ -15,11 +15,3 @@ class ppprtkpos(pppos):
         # trop, iono from cssr
         # phase windup model is local/regional
         super().__init__(nav=nav, pos0=pos0, logfile=logfile, config=config)
-        
-        self.nav.eratio = config['nav']['eratio']
-        self.nav.err = config['nav']['err']
-        self.nav.sig_p0 = config['nav']['sig_p0']
-        self.nav.thresar = config['nav']['thresar']  # AR acceptance threshold
-        self.nav.armode = config['nav']['armode']     # AR is enabled
-        self.nav.elmaskar = np.deg2rad(config['nav']['elmaskar'])  # elevation mask for AR
-        self.nav.elmin = np.deg2rad(config['nav']['elmin'])
\ No newline at end of file
diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index e138e5b..b686e72 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -2,6 +2,7 @@
 module for standard PPP positioning
 """
 
+from copy import deepcopy
 import numpy as np
 
 from cssrlib.ephemeris import satposs
@@ -35,14 +36,15 @@ class pppos():
                  config=None):
         """ initialize variables for PPP """
 
-        if config is None:
-            config = default_config
+        # work on a copy, the defaults are shared by all estimators
+        #
+        config = deepcopy(default_config if config is None else config)
 
-        if trop_opt > 0:
+        if trop_opt >= 0:
             config['nav']['trop_opt'] = trop_opt
-        if iono_opt > 0:
+        if iono_opt >= 0:
             config['nav']['iono_opt'] = iono_opt
-        if phw_opt > 0:
+        if phw_opt >= 0:
             config['nav']['phw_opt'] = phw_opt
 
         self.nav = nav
@@ -204,18 +206,8 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
-
-        # ambiguity
-        if self.nav.pmode >= 1:  # kinematic
-            self.nav.q[7+uGNSS.MAXSAT:7 +
-                       (uGNSS.MAXSAT*self.nav.nf+1)] = self.nav.sig_qb**2
-        else:
-            self.nav.q[4+uGNSS.MAXSAT:4 +
-                       (uGNSS.MAXSAT*self.nav.nf+1)] = self.nav.sig_qb**2
+            self.nav.q[self.nav.na-self.nav.niono:self.nav.na] = \
+                self.nav.sig_qion**2
 
         # Logging level
         #
@@ -255,16 +247,19 @@ class pppos():
 
     def II(self, s, na):
         """ return index of slant ionospheric delay estimate """
-        return na-uGNSS.MAXSAT+s-1
+        return na-self.nav.niono+s-1
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
         s_el = max(np.sin(el), 0.1*rCST.D2R)
-        fact = nav.eratio[f-nav.nf] if f >= nav.nf else 1
+        # the last code/phase ratio applies to all further signals
+        #
+        fact = nav.eratio[min(f-nav.nf, len(nav.eratio)-1)] \
+            if f >= nav.nf else 1
         a = fact*nav.err[1]
         b = fact*nav.err[2]
         return (a**2+(b/s_el)**2)
@@ -356,6 +351,7 @@ class pppos():
             #
             bias = np.zeros(ns)
             ion = np.zeros(ns)
+            valid = np.zeros(ns, dtype=bool)
             f1 = 0
 
             """
@@ -369,6 +365,8 @@ class pppos():
                 if np.any(self.nav.edt[sat[i]-1, :] > 0):
                     continue
 
+                f1 = 0
+
                 if self.nav.nf > 1 and self.nav.niono > 0:
                     # Get dual-frequency pseudoranges for this constellation
                     #
@@ -415,6 +413,7 @@ class pppos():
                     continue
 
                 bias[i] = cp - pr/lam + 2.0*ion[i]/lam*(f1/fi)**2
+                valid[i] = True
 
                 """
                 amb = nav.x[IB(sat[i], f, nav.na)]
@@ -439,7 +438,7 @@ class pppos():
                 sys_i, _ = sat2prn(sat[i])
 
                 j = self.IB(sat[i], f, self.nav.na)
-                if bias[i] != 0.0 and self.nav.x[j] == 0.0:
+                if valid[i] and self.nav.x[j] == 0.0:
 
                     self.initx(bias[i], self.nav.sig_n0**2, j)
 
@@ -452,7 +451,7 @@ class pppos():
 
                 if self.nav.niono > 0:
                     j = self.II(sat[i], self.nav.na)
-                    if ion[i] != 0 and self.nav.x[j] == 0.0:
+                    if valid[i] and self.nav.x[j] == 0.0:
 
                         self.initx(ion[i], self.nav.sig_ion0**2, j)
 
@@ -477,12 +476,12 @@ class pppos():
             if cs.lc[inet].cbias is None or \
                     sat not in cs.lc[inet].cbias.keys():
                 return v
-            sigc = cs.lc[inet].cbias[sat]
+            sigc = dict(cs.lc[inet].cbias[sat])
         else:
             if cs.lc[inet].pbias is None or \
                     sat not in cs.lc[inet].pbias.keys():
                 return v
-            sigc = cs.lc[inet].pbias[sat]
+            sigc = dict(cs.lc[inet].pbias[sat])
 
         # work-around for Galileo HAS: L2P -> L2W
         if cs.cssrmode in [sc.GAL_HAS_SIS, sc.GAL_HAS_IDD]:
@@ -509,7 +508,7 @@ class pppos():
         y = np.zeros((n, nf*2))
         el = np.zeros(n)
         e = np.zeros((n, 3))
-        rr_ = rr.copy()
+        rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
@@ -721,7 +720,8 @@ class pppos():
 
             # Receiver/satellite antenna offset
             #
-            if self.nav.rcv_ant is None:
+            rcv_ant = self.nav.rcv_ant if rtype == 1 else self.nav.rcv_ant_b
+            if rcv_ant is None:
                 antrPR = [0.0 for _ in sigsPR]
                 antrCP = [0.0 for _ in sigsCP]
             else:
@@ -816,6 +816,10 @@ class pppos():
 
         nb = np.zeros(2*nc*nf, dtype=int)
 
+        # Reset carrier-phase processed indicator
+        #
+        self.nav.vsat[:, :] = 0
+
         Ri = np.zeros(ns*nf*2)
         Rj = np.zeros(ns*nf*2)
 
@@ -840,7 +844,15 @@ class pppos():
             for f in range(0, nf*2):
                 # Select satellites from one constellation only
                 #
-                idx = self.sysidx(sat, sys)
+                # Skip edited observations and invalid measurements
+                # NOTE: this additional test is included here,
+                #       since biases or antenna offsets may not be
+                #       available and this zdres()
+                #       returns zero observation residuals!
+                #
+                idx = [k for k in self.sysidx(sat, sys)
+                       if not np.any(self.nav.edt[sat[k]-1, :] > 0) and
+                       y[k, f] != 0.0 and (mode == 1 or y[k+ns, f] != 0.0)]
 
                 if len(idx) == 0:
                     continue
@@ -865,31 +877,21 @@ class pppos():
                     if f < nf:  # carrier
                         sig = obs.sig[sys][uTYP.L][f]
                         if sys == uGNSS.GLO:
-                            freq = sig.frequency(self.nav.glo_ch[sat[j]])
+                            freqi = sig.frequency(self.nav.glo_ch[sat[i]])
+                            freqj = sig.frequency(self.nav.glo_ch[sat[j]])
                         else:
-                            freq = sig.frequency()
-                        mu = -(freq0/freq)**2
+                            freqi = freqj = sig.frequency()
+                        mui = -(freq0/freqi)**2
+                        muj = -(freq0/freqj)**2
                     else:  # code
                         sig = obs.sig[sys][uTYP.C][f % nf]
                         if sys == uGNSS.GLO:
-                            freq = sig.frequency(self.nav.glo_ch[sat[j]])
+                            freqi = sig.frequency(self.nav.glo_ch[sat[i]])
+                            freqj = sig.frequency(self.nav.glo_ch[sat[j]])
                         else:
-                            freq = sig.frequency()
-                        mu = +(freq0/freq)**2
-
-                    # Skip edited observations
-                    #
-                    if np.any(self.nav.edt[sat[j]-1, :] > 0):
-                        continue
-
-                    # Skip invalid measurements
-                    # NOTE: this additional test is included here,
-                    #       since biases or antenna offsets may not be
-                    #       available and this zdres()
-                    #       returns zero observation residuals!
-                    #
-                    if y[i, f] == 0.0 or y[j, f] == 0.0:
-                        continue
+                            freqi = freqj = sig.frequency()
+                        mui = +(freq0/freqi)**2
+                        muj = +(freq0/freqj)**2
 
                     # Skip reference satellite i
                     #
@@ -936,16 +938,16 @@ class pppos():
                         #
                         idx_i = self.II(sat[i], self.nav.na)
                         idx_j = self.II(sat[j], self.nav.na)
-                        H[nv, idx_i] = +mu
-                        H[nv, idx_j] = -mu
-                        v[nv] -= mu*(x[idx_i] - x[idx_j])
+                        H[nv, idx_i] = +mui
+                        H[nv, idx_j] = -muj
+                        v[nv] -= mui*x[idx_i] - muj*x[idx_j]
 
                         if self.nav.monlevel > 2:
                             self.nav.fout.write(
                                 fmt_ion
                                 .format(time2str(obs.t),
                                         sat2id(sat[i]), sat2id(sat[j]),
-                                        sig, idx_i, idx_j, mu,
+                                        sig, idx_i, idx_j, mui,
                                         x[idx_i], x[idx_j],
                                         np.sqrt(self.nav.P[idx_i, idx_i]),
                                         np.sqrt(self.nav.P[idx_j, idx_j])))
@@ -966,7 +968,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
@@ -1201,7 +1203,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
@@ -1492,8 +1494,9 @@ class pppos():
         # Non-differential residuals after measurement update
         #
         yu, eu, elu = self.zdres(obs, cs, bsx, rs, vs, dts, xp[0:3])
-        y = yu[iu, :]
-        e = eu[iu, :]
+        y = y.copy()
+        y[:ns, :] = yu[iu, :]
+        e[:ns, :] = eu[iu, :]
         ny = y.shape[0]
         if ny < 6:
             return -1
@@ -1523,8 +1526,8 @@ class pppos():
             if nb > 0:
                 # Use position with fixed ambiguities xa
                 yu, eu, elu = self.zdres(obs, cs, bsx, rs, vs, dts, xa[0:3])
-                y = yu[iu, :]
-                e = eu[iu, :]
+                y[:ns, :] = yu[iu, :]
+                e[:ns, :] = eu[iu, :]
                 v, H, R = self.sdres(obs, xa, y, e, sat, el)
                 # R <= Q=H'PH+R  chisq<max_inno[3] (0.5)
                 if self.valpos(v, R):
diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 2949f78..562197d 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -15,10 +15,12 @@ class rtkpos(pppos):
     def __init__(self, nav, pos0=np.zeros(3), logfile=None, config=None):
         """ initialize variables for PPP-RTK """
 
-        # trop, iono from cssr
-        # phase windup model is local/regional
+        # trop, iono by models and no phase windup unless configured
+        #
+        opt = 0 if config is None else -1
         super().__init__(nav=nav, pos0=pos0, logfile=logfile,
-                         trop_opt=0, iono_opt=0, phw_opt=0, config=config)
+                         trop_opt=opt, iono_opt=opt, phw_opt=opt,
+                         config=config)
 
         self.nav.eratio = np.ones(self.nav.nf)*50  # [-] factor
         self.nav.err = [0, 0.01, 0.005]/np.sqrt(2)  # [m] sigma
-- 
2.43.0


From 3ab41797e44771993c5299234ffddca18df59346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 39/45] fix: ambiguity resets: interruptions in skipped epochs,
 at the base station, loss-of-lock bit, missing values as NaN, geometry-free
 combination per satellite

---
 src/cssrlib/gnss.py   |  2 ++
 src/cssrlib/pppssr.py | 46 +++++++++++++++++++++++++++----------------
 src/cssrlib/rtk.py    |  8 ++++++--
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 15fe3f7..6361c84 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -911,6 +911,8 @@ class Nav():
         # Satellite observation status
         self.fix = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
         self.edt = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
+        # Interruptions in epochs without update
+        self.slip = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
         # Measurement outage indicator
         self.outc = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
         # Carrier-phase processed indicator
diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index b686e72..c44c0e2 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -305,6 +305,8 @@ class pppos():
         dP[0:self.nav.nq] += self.nav.q[0:self.nav.nq]*tt
 
         # Update Kalman filter state elements
+        # NOTE: ambiguities of satellites edited in this epoch or in
+        #       skipped epochs are initialized again
         #
         for f in range(self.nav.nf):
 
@@ -318,7 +320,8 @@ class pppos():
 
                 self.nav.outc[i, f] += 1
                 reset = (self.nav.outc[i, f] >
-                         self.nav.maxout or np.any(self.nav.edt[i, :] > 0))
+                         self.nav.maxout or np.any(self.nav.edt[i, :] > 0) or
+                         np.any(self.nav.slip[i, :] > 0))
                 if sys_i not in obs.sig.keys():
                     continue
 
@@ -461,6 +464,8 @@ class pppos():
                                 .format(time2str(obs.t), sat2id(sat[i]),
                                         ion[i]))
 
+        self.nav.slip[:, :] = 0
+
         return 0
 
     def find_bias(self, cs, sigref, sat, inet=0):
@@ -1298,7 +1303,10 @@ class pppos():
 
                 # Cycle  slip check by LLI
                 #
-                if obs.lli[j, f] == 1:
+                # NOTE: bit 0 indicates the loss of lock, other bits are
+                #       information on half-cycle ambiguities and tracking
+                #
+                if int(obs.lli[j, f]) & 1:
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write("{}  {} - edit {:4s} - LLI\n"
@@ -1309,7 +1317,7 @@ class pppos():
 
                 # Check for measurement consistency
                 #
-                if obs.P[j, f] == 0.0:
+                if obs.P[j, f] == 0.0 or np.isnan(obs.P[j, f]):
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write(
@@ -1319,7 +1327,7 @@ class pppos():
                                     sigsPR[f].str()))
                     continue
 
-                if obs.L[j, f] == 0.0:
+                if obs.L[j, f] == 0.0 or np.isnan(obs.L[j, f]):
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write(
@@ -1355,17 +1363,18 @@ class pppos():
                 else:
                     lam1 = sig1.wavelength()
                     lam2 = sig2.wavelength()
-                if L1R != 0.0 and L2R != 0.0:
+                if L1R != 0.0 and L2R != 0.0 and \
+                        not np.isnan(L1R) and not np.isnan(L2R):
                     gf1 = (L1R*lam1-L2R*lam2)
                     if rr is None:  # rover
-                        gf0 = self.nav.gf[sat_i]
+                        gf0 = self.nav.gf[i]
                     else:  # base
-                        gf0 = self.nav.gf_r[sat_i]
+                        gf0 = self.nav.gf_r[i]
                     if gf1 != 0.0:
                         if rr is None:  # rover
-                            self.nav.gf[sat_i] = gf1
+                            self.nav.gf[i] = gf1
                         else:  # base
-                            self.nav.gf_r[sat_i] = gf1
+                            self.nav.gf_r[i] = gf1
                     if gf0 != 0.0 and gf1 != 0.0 and \
                             abs(gf1-gf0) > self.nav.thresslip:
                         self.nav.edt[i, 0:2] = 1
@@ -1397,7 +1406,10 @@ class pppos():
 
         # Skip empty epochs
         #
+        # NOTE: the tracking of all satellites is interrupted
+        #
         if len(obs.sat) == 0:
+            self.nav.slip[:, :] = 1
             return
 
         self.nav.nsat[0] = len(obs.sat)
@@ -1416,15 +1428,11 @@ class pppos():
 
         self.nav.nsat[1] = nsat
 
-        if nsat < 6:
-            print(" too few satellites < 6: nsat={:d}".format(nsat))
-            return
-
         # Editing of observations
         #
-        sat_ed = self.qcedit(obs, rs, dts, svh)
-
         if obsb is None:  # PPP/PPP-RTK
+            sat_ed = self.qcedit(obs, rs, dts, svh)
+
             # Select satellites having passed quality control
             #
             # index of valid sats in obs.sat
@@ -1440,8 +1448,12 @@ class pppos():
 
         self.nav.nsat[2] = ns
 
-        if ns < 6:
-            print(" too few satellites < 6: ns={:d}".format(ns))
+        # Keep the interruptions of skipped epochs for the next update
+        #
+        if nsat < 6 or ns < 6:
+            print(" too few satellites < 6: nsat={:d} ns={:d}"
+                  .format(nsat, ns))
+            self.nav.slip = np.maximum(self.nav.slip, self.nav.edt)
             return
 
         # Kalman filter time propagation, initialization of ambiguities
diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 562197d..2e07747 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -31,12 +31,16 @@ class rtkpos(pppos):
     def base_process(self, obs, obsb, rs, dts, svh):
         """ processing for base station in RTK """
         rsb, vsb, dtsb, svhb, _ = satposs(obsb, self.nav)
-        yr, er, elr = self.zdres(
-            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # Editing observations (base/rover)
+        # NOTE: residuals of the base depend on the editing of the base,
+        #       states of a satellite depend on the editing of both
         sat_ed_r = self.qcedit(obsb, rsb, dtsb, svhb, rr=self.nav.rb)
+        edt_r = self.nav.edt
+        yr, er, elr = self.zdres(
+            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
         sat_ed_u = self.qcedit(obs, rs, dts, svh)
+        self.nav.edt = np.maximum(self.nav.edt, edt_r)
 
         # define common satellite between base and rover
         sat_ed = np.intersect1d(sat_ed_u, sat_ed_r, True)
-- 
2.43.0


From d9cc522cb882b7cceed69a80c5fb30804b48770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 40/45] fix: MADOCA regional ionosphere: area search (circle
 size, longitude), epoch of messages, selected area kept while messages arrive

---
 src/cssrlib/cssr_mdc.py | 43 ++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..7e95851 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -47,6 +47,8 @@ class cssr_mdc(cssr):
 
         self.area = -1
         self.reg = -1
+        self.area_msg = -1  # area and region of the last message
+        self.reg_msg = -1
         self.alrt = 0
         self.narea_t = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
         self.MAXNET = np.sum(list(self.narea_t.values()))
@@ -64,21 +66,22 @@ class cssr_mdc(cssr):
 
         latd, lond = np.rad2deg(pos[0:2])
         self.reg = self.area = -1
+        wrap = self.wrap_lon
 
         for reg in self.pnt.keys():
             for area in self.pnt[reg].keys():
                 p = self.pnt[reg][area]
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            abs(wrap(lond-p.lonr)) <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
-                    r = np.sqrt(dn**2+de**2)
+                    de = wrap(lond - p.lonr)*rCST.D2R * \
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
+                    r = np.sqrt(dn**2+de**2)*1e-3  # [km]
                     if r <= p.rng:
                         self.reg = reg
                         self.area = area
@@ -96,10 +99,15 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = self.wrap_lon(lond - p.lonr)
 
         return dlat, dlon
 
+    @staticmethod
+    def wrap_lon(dlon):
+        """ longitude difference within +/-180 deg """
+        return (dlon+180.0) % 360.0-180.0
+
     def get_stec(self, dlat=0.0, dlon=0.0):
         """ calculate STEC correction by interporation """
         if self.inet < 0:
@@ -121,10 +129,13 @@ class cssr_mdc(cssr):
         """ decoder for MT1 - STEC Coverage Message """
         tow, uid, mi, iodssr = bs.unpack_from('u20u4u1u4', buff, i)
         i += 29
+        self.tow = tow
         self.tow0 = tow//3600*3600
+        if self.week >= 0:
+            self.time = gpst2time(self.week, self.tow)
         reg, alrt, len_, narea = bs.unpack_from('u8u1u16u5', buff, i)
         i += 30
-        self.reg = reg
+        self.reg_msg = reg
         self.alrt = alrt
 
         if reg not in self.pnt:
@@ -169,13 +180,13 @@ class cssr_mdc(cssr):
 
     def decode_mdc_stec_corr(self, buff, i=0):
         """ decoder for MT2 - STEC Correction Message """
-        dtow, uid, mi, iodssr = bs.unpack_from('u12u4u1u4', buff, i)
-        i += 21
+        head, i = self.decode_head(buff, i)
+        iodssr = head['iodssr']
         reg, area, stype_ = bs.unpack_from('u8u5u2', buff, i)
         i += 15
 
-        self.reg = reg
-        self.area = area
+        self.reg_msg = reg
+        self.area_msg = area
 
         nsat = bs.unpack_from('u5u5u5u5u5', buff, i)
         i += 25
@@ -225,7 +236,7 @@ class cssr_mdc(cssr):
         self.lc[inet].ci = ci
         self.lc[inet].stec_quality = qi
 
-        t0 = gpst2time(self.week, self.tow0+dtow)
+        t0 = gpst2time(self.week, self.tow)
         self.set_t0(inet, 0, sCType.STEC, t0)
         self.lc[inet].cstat |= (1 << sCType.STEC)
 
@@ -250,9 +261,9 @@ class cssr_mdc(cssr):
             self.fh.write(f"Reg\tArea\tsid\t"
                           f"latr\tlonr\tlats\tlons\n")
 
-            for area in self.pnt[self.reg].keys():
-                p = self.pnt[self.reg][area]
-                self.fh.write(f"{self.reg}\t{area:2d}\t{p.sid}\t"
+            for area in self.pnt[self.reg_msg].keys():
+                p = self.pnt[self.reg_msg][area]
+                self.fh.write(f"{self.reg_msg}\t{area:2d}\t{p.sid}\t"
                               f"{p.latr:3.1f}\t{p.lonr:4.1f}\t")
 
                 if p.sid == 0:
@@ -261,9 +272,9 @@ class cssr_mdc(cssr):
                     self.fh.write(f"{p.rng:3.1f}\n")
 
         elif self.msgtype == 2:
-            inet = self.get_inet(self.reg, self.area)
+            inet = self.get_inet(self.reg_msg, self.area_msg)
 
-            self.fh.write(f"Reg:{self.reg}\tArea:{self.area:2d}\n")
+            self.fh.write(f"Reg:{self.reg_msg}\tArea:{self.area_msg:2d}\n")
             self.fh.write("Sat,stype,c00,c01,c10,c11,c20,c02\n")
 
             for sat in self.lc[inet].sat_n:
-- 
2.43.0


From 31af015b810de2b6477802ec312dd6bc82def81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 41/45] fix: almanacs: 10-bit week of Yuma files, 2-bit week of
 Galileo files, BDS time, positions more than half a week from the time of
 applicability

---
 src/cssrlib/ephemeris.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index e90baa5..313ad7d 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -7,7 +7,8 @@ from cssrlib.cssrlib import sCSSRTYPE as sc
 import numpy as np
 from cssrlib.gnss import uGNSS, rCST, sat2prn, timediff, timeadd, vnorm
 from cssrlib.gnss import gtime_t, Geph, Eph, Alm, prn2sat, gpst2time, \
-    time2gpst, timeget, time2gst, time2bdt, gst2time, bdt2time, epoch2time
+    time2gpst, timeget, time2gst, time2bdt, gst2time, bdt2time, epoch2time, \
+    bdt2gpst
 from datetime import datetime
 import xml.etree.ElementTree as et
 
@@ -764,7 +765,6 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
     ep = [d.year, d.month, d.day, d.hour, d.minute, d.second]
     tref = epoch2time(ep)
     week_ref, tow_ref = time2gst(tref)
-    week_ref = week_ref//4*4
 
     h = root.find('body').find('Almanacs')
     for sv in h.findall('svAlmanac'):
@@ -796,7 +796,9 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
         alm.toas = float(alm_.find('t0a').text)
         wna = float(alm_.find('wna').text)
 
-        alm.toa = gst2time(week_ref + wna, alm.toas)
+        # 2-bit week number, nearest to the issue date
+        week = week_ref + (wna - week_ref + 2) % 4 - 2
+        alm.toa = gst2time(week, alm.toas)
         alm.svh = (sts_E5a << 4) | (sts_E5b << 2) | (sts_E1B)
 
         alm_t.append(alm)
@@ -853,10 +855,9 @@ def loadyuma(fname, sys=uGNSS.GPS):
             elif v[0] == 'Af1(s/s)':
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
-                alm.week = int(v[1])
-                alm.week += week_ref//1023*1023
-                if alm.week > week_ref:
-                    alm.week -= 1023
+                # 10-bit week number, not later than the next week
+                week = week_ref+1
+                alm.week = week - (week-int(v[1])) % 1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
@@ -864,7 +865,7 @@ def loadyuma(fname, sys=uGNSS.GPS):
                 elif sys == uGNSS.GAL:
                     alm.toa = gst2time(alm.week, alm.toas)
                 elif sys == uGNSS.BDS:
-                    alm.toa = bdt2time(alm.week, alm.toas)
+                    alm.toa = bdt2gpst(bdt2time(alm.week, alm.toas))
 
                 if flg:
                     alm_t.append(alm)
@@ -903,7 +904,7 @@ def alm2pos(t: gtime_t, alm: Alm):
     else:  # GPS,QZS
         mu = rCST.MU_GPS
         omge = rCST.OMGE
-    dt = dtadjust(t, alm.toa)
+    dt = timediff(t, alm.toa)
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
     E = M
-- 
2.43.0


From 06b37a932fea8c1a9401830f38128ce19e1757e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 42/45] fix: sun and moon position: leap seconds were
 subtracted twice

---
 src/cssrlib/ppp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ppp.py b/src/cssrlib/ppp.py
index 35ee99e..7143596 100644
--- a/src/cssrlib/ppp.py
+++ b/src/cssrlib/ppp.py
@@ -2,7 +2,8 @@
 module for PPP processing
 """
 from cssrlib.gnss import rCST, epoch2time, time2epoch, timeadd
-from cssrlib.gnss import timediff, vnorm, ecef2pos, xyz2enu, enu2xyz, gpst2utc
+from cssrlib.gnss import timediff, vnorm, ecef2pos, xyz2enu, enu2xyz, gpst2utc, \
+    utc2gpst
 from cssrlib.gnss import ecef2enu, Nav, prn2sat, pos2ecef, uGNSS
 from math import sin, cos, atan2, asin
 import numpy as np
@@ -258,7 +259,7 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     rmoon_eci = rm*np.array([c_p*c_l, c_e*c_p*s_l-s_e*s_p,
                              s_e*c_p*s_l+c_e*s_p])
 
-    U, gmst = eci2ecef(tutc, erpv)
+    U, gmst = eci2ecef(utc2gpst(tutc), erpv)
     rsun = U@rsun_eci
     rmoon = U@rmoon_eci
 
-- 
2.43.0


From 8364eeeca638962aa7dad5dee35d0d1ccf0b3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 43/45] fix: SSR grid definition: point numbers of grid type 1,
 coordinates rounded instead of truncated

---
 src/cssrlib/rtcm.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9dcf87d..4853666 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3205,14 +3205,14 @@ class rtcm(cssr, rtcmUtil):
             self.pos0 = np.array([lat, lon, 0])
             self.ofst = ofst
 
-            for k in range(npnt):
+            for k in range(ofst, ofst+npnt):
                 dlat, dlon = bs.unpack_from('s13s14', msg, i)
                 i += 27
                 dlat_s = self.sval(dlat, 13, 1e-3)
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
                 self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
 
@@ -4619,9 +4619,9 @@ class rtcme(cssre, rtcmUtil):
         if self.gtype == 0:  # grid type 0
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
+            alt_i = round((alt+1000)/12.5)
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
@@ -4633,16 +4633,12 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, alt_ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                dalt = alt_-alt
-                lat = lat_
-                lon = lon_
-                alt = alt_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                dalt_i = round((alt_+1000)/12.5)-alt_i
+                lat_i += dlat_i
+                lon_i += dlon_i
+                alt_i += dalt_i
 
                 bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
                 i += 36
@@ -4650,8 +4646,8 @@ class rtcme(cssre, rtcmUtil):
         elif self.gtype == 1:  # grid type 1
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
 
             bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
                          self.ofst, self.ng-1)
@@ -4659,13 +4655,10 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, _ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                lat = lat_
-                lon = lon_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                lat_i += dlat_i
+                lon_i += dlon_i
                 bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
                 i += 27
 
-- 
2.43.0


From ce6007ae529125824965bbf61271931c7de0825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 44/45] fix: SSR troposphere/STEC: messages without residuals,
 grid IDs above 32, corrections of other systems kept, order and rounding of
 STEC in the encoder

---
 src/cssrlib/cssrlib.py |  2 ++
 src/cssrlib/rtcm.py    | 64 +++++++++++++++++++++++++++++-------------
 2 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index e27d3f8..cb002c5 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -248,6 +248,8 @@ class local_corr:
         self.mapw = None  # mapping function parameters (aw, bw, cw) (wet)
         self.ct = None  # trop parameters (functional term)
         self.ci = None  # iono parameters (functional term)
+        self.stype = None  # type of iono functional term
+        self.dstec = None  # iono residual term
         self.quality_trp = None
         self.quality_stec = None
         self.sat_n = []
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4853666..76db588 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -17,7 +17,7 @@ RTCM 3 decoder
 import numpy as np
 import struct as st
 import bitstruct as bs
-from cssrlib.cssrlib import cssr, sCSSR, prn2sat, sCType, cssre
+from cssrlib.cssrlib import cssr, sCSSR, prn2sat, sCType, cssre, local_corr
 from cssrlib.gnss import uGNSS, sat2id, gpst2time, timediff, time2str, sat2prn
 from cssrlib.gnss import uTYP, uSIG, rSigRnx, bdt2time, bdt2gpst, glo2time
 from cssrlib.gnss import time2bdt, gpst2bdt, rCST, time2gpst, utc2gpst, timeadd
@@ -861,6 +861,7 @@ class rtcm(cssr, rtcmUtil):
         self.pid = 0  # SSR Provider ID
         self.sid = 0  # SSR Solution Type
         self.inet = 0
+        self.pgi = False  # STEC gradient indicator
         self.mi = False
         self.sat_b = []  # satellites with bias
 
@@ -1740,6 +1741,7 @@ class rtcm(cssr, rtcmUtil):
                           f"SolID:{self.sid} GridID:{self.gid}\n")
             self.fh.write(f" Residiaul Model Indicator: {self.rmi}\n")
 
+            inet = self.gid
             ah, bh, ch = self.lc[inet].maph
             aw, bw, cw = self.lc[inet].mapw
             ct = self.lc[inet].ct
@@ -1773,6 +1775,7 @@ class rtcm(cssr, rtcmUtil):
         if self.subtype == sRTCM.SSR_STEC:
             self.fh.write(f" IODSSR:{self.iodssr} ProvID:{self.pid} " +
                           f"SolID:{self.sid} GridID:{self.gid}\n")
+            inet = self.gid
             self.fh.write(f" Polynomial[TECU]: {self.pmi} (Grad:{self.pgi})\n")
             if self.pmi:
                 for sat in self.lc[inet].sat_n:
@@ -3154,6 +3157,22 @@ class rtcm(cssr, rtcmUtil):
                 self.antc[sat][freq] = satAntCorr(nadc, naddc)
         return i
 
+    def add_net(self, inet):
+        """ provide the corrections of the network """
+        while len(self.lc) <= inet:
+            lc = local_corr()
+            lc.inet = len(self.lc)
+            lc.flg_trop = 0
+            lc.flg_stec = 0
+            lc.nsat_n = 0
+            self.lc.append(lc)
+
+    def other_sys(self, sys, corr):
+        """ corrections of the other systems """
+        if corr is None:
+            return {}
+        return {sat: corr[sat] for sat in corr if sat2prn(sat)[0] != sys}
+
     def decode_ssr_grid(self, msg, i):
         """ decode SSR Grid Definition Message (E61) """
         self.pid, self.mi, gid, gtype = bs.unpack_from('u16b1u10u3', msg, i)
@@ -3299,6 +3318,8 @@ class rtcm(cssr, rtcmUtil):
         gid, rmi = bs.unpack_from('u10b1', msg, i)
         i += 11
         inet = gid
+        self.gid = gid
+        self.add_net(inet)
 
         # atmospheric model part
         dah, dbh, dch, daw, dbw, dcw = bs.unpack_from(
@@ -3353,6 +3374,11 @@ class rtcm(cssr, rtcmUtil):
                     # wet grid point residual [m]
                     rw[k] = self.sval(rw_, m, 0.1e-3)
 
+            self.lc[inet].ng = ng
+            self.lc[inet].ofst = ofst
+        else:
+            rh, rw = None, None
+
         # functional term parameters
         self.lc[inet].ct = ct
         # mapping function parameters
@@ -3361,10 +3387,9 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].dth = rh
         self.lc[inet].dtw = rw
 
-        self.lc[inet].ng = ng
-        self.lc[inet].ofst = ofst
-
         self.iodssr = v['iodssr']
+        self.udi[sCType.TROP] = v['udi']
+        self.mi = v['mi']
         self.rmi = rmi
         return i
 
@@ -3387,14 +3412,18 @@ class rtcm(cssr, rtcmUtil):
             sat[k] = self.svid2sat(sys, svid[k])
 
         inet = self.gid
+        self.add_net(inet)
         self.lc[inet].sat_n = sat
+        self.iodssr = v['iodssr']
+        self.udi[sCType.STEC] = v['udi']
+        self.mi = v['mi']
 
         if self.pmi:  # polynomial model information part
             self.pgi = bs.unpack_from('b1', msg, i)[0]
             i += 1
             sz = 3 if self.pgi else 1
-            self.lc[inet].ci = {}
-            self.lc[inet].stype = {}
+            self.lc[inet].ci = self.other_sys(sys, self.lc[inet].ci)
+            self.lc[inet].stype = self.other_sys(sys, self.lc[inet].stype)
             for k in range(nsat):
                 sat_ = sat[k]
                 self.lc[inet].ci[sat_] = np.zeros(sz)
@@ -3423,12 +3452,14 @@ class rtcm(cssr, rtcmUtil):
             else:
                 scl = 1.0
 
-            self.lc[inet].dstec = {}
+            self.lc[inet].dstec = self.other_sys(sys, self.lc[inet].dstec)
             fmt = 's'+str(rlen)
 
             for k in range(nsat):
                 sat_ = sat[k]
                 self.lc[inet].dstec[sat_] = np.zeros(ofst+ng)
+                if rlen == 0:  # no residuals
+                    continue
                 for j in range(ofst, ofst+ng):
                     res = bs.unpack_from(fmt, msg, i)[0]  # DF+062
                     i += rlen
@@ -5028,7 +5059,7 @@ class rtcme(cssre, rtcmUtil):
         sys_m = self.get_ssr_sys(self.msgtype)
         i = self.encode_head(msg, i, sys_m)
 
-        inet = self.inet
+        inet = self.gid
 
         pmi = (self.lc[inet].flg_stec >> 1) & 1
         rmi = self.lc[inet].flg_stec & 1
@@ -5039,15 +5070,10 @@ class rtcme(cssre, rtcmUtil):
         bs.pack_into('u10b1b1', msg, i, self.gid, pmi, rmi)
         i += 12
 
-        inet = self.gid
-
         svid = []
         sat = []
         stype = 0
-        for sat_ in self.lc[inet].ci:
-            sys, _ = sat2prn(sat_)
-            if sys != sys_m:
-                continue
+        for sat_ in sorted(self.sat_list(sys_m, self.lc[inet].ci)):
             sat.append(sat_)
             svid.append(self.sat2svid(sat_))
             if stype < self.lc[inet].stype[sat_]:
@@ -5079,9 +5105,10 @@ class rtcme(cssre, rtcmUtil):
             ng = self.lc[inet].ng
             ofst = self.lc[inet].ofst
             rlen = 18  # TBD
-            scl = 2e-3  # TBD
+            sf = 1  # TBD
+            scl = 1e-3*(2**sf)
 
-            grid = self.grid[self.grid['nid'] == self.inet]
+            grid = self.grid[self.grid['nid'] == inet]
             lat0 = grid[0]['lat']
             lon0 = grid[0]['lon']
 
@@ -5090,7 +5117,6 @@ class rtcme(cssre, rtcmUtil):
             if rlen > 0:
                 # Zenith-mapped STEC Grid Point Residual
                 # Resolution Scale Factor Exponent
-                sf = np.log(scl/1e-3)/np.log(2)
                 bs.pack_into('u3', msg, i, sf)  # DF+073
                 i += 3
 
@@ -5099,12 +5125,12 @@ class rtcme(cssre, rtcmUtil):
                 ci = self.lc[inet].ci[sat_]
                 for j in range(ofst, ofst+ng):
                     dstec = self.lc[inet].dstec[sat_][j]
-                    if np.abs(ci[3]) > 0:
+                    if np.any(ci[3:]):
                         dlat = grid[j]['lat']-lat0
                         dlon = grid[j]['lon']-lon0
                         dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = self.ival(dstec, rlen, scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From 82659875a5be1d009a37637df5b704eda52d19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:39 +0000
Subject: [PATCH 45/45] fix: SSR log of combined corrections: messages with
 orbit or clock only

---
 src/cssrlib/cssrlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index cb002c5..8b2d59e 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1298,9 +1298,12 @@ class cssr:
             self.fh.write(" {:s}\t{:s}\t{:s}\t{:s}\t{:s}\t{:s}\n"
                           .format("SatID", "IODE", "Radial[m]",
                                   "Along[m]", "Cross[m]", "dclk[m]"))
-            for sat_ in self.lc[0].dorb.keys():
-                if np.isnan(self.lc[0].dorb[sat_][0]) or \
-                   np.isnan(self.lc[0].dclk[sat_]):
+            # message may include orbit or clock corrections only
+            dorb = self.lc[0].dorb if self.lc[0].dorb is not None else {}
+            dclk = self.lc[0].dclk if self.lc[0].dclk is not None else {}
+            for sat_ in dorb.keys():
+                if sat_ not in dclk or np.isnan(dorb[sat_][0]) or \
+                   np.isnan(dclk[sat_]):
                     continue
                 self.fh.write(
                     " {:s}\t{:3d}\t{:6.3f}\t{:6.3f}\t{:6.3f}\t{:8.4f}\n"
-- 
2.43.0

