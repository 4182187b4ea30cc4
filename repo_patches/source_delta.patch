From df73bb5274086ccad59916470d25259a48355c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 01/39] fix: hour() crashed in any hour in which no area is
 short of capacity

---
 reliabilityassessment/monte_carlo/hour.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..801890f 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,8 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
+
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From 01147dac12d6ad00589f9fad4860c972685d9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 02/39] fix: loss-sharing transmission step called conls() with
 one argument too many

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..244f9c0 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -234,7 +234,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From d5884eb14ed4f26cd74fcb148260dcf7461f0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 03/39] fix: tm2() overwrote the impedance matrix with the
 admittance matrix after an LP

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 244f9c0..ca8e6a7 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 1b24c33eccd59700ce666ce337e00d2cda72ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 04/39] fix: net() treated the first bounded LP variable as
 unbounded (0-based index)

---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 62d7b0166b906f9e6ae09e6d6109a9f6fbe4c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 05/39] fix: state changes of lines at the reference area were
 applied wrongly or skipped

---
 reliabilityassessment/monte_carlo/tm2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ca8e6a7..46f21da 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,13 +97,12 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 52cd379b3834c49dc2fe061025bdb3e7d8a7bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 06/39] fix: an unbalanced load flow (islanded area) was
 accepted as a solution

---
 reliabilityassessment/monte_carlo/tm2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 46f21da..81a746a 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -115,6 +115,10 @@ def tm2(
 
     INDIC = 0
 
+    # an islanded area leaves the load flow without a valid solution
+    if not np.allclose(SFLOW[LT[:NN]], -INJ1, rtol=0, atol=1e-3):
+        INDIC = 1
+
     for i in range(NL):
         if FLOW[i] >= 0:
             if FLOW[i] > BLP[i, 1]:
-- 
2.43.0


From 6a3c24f1d4c1d68b40ce56356a0c630983a95904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 07/39] fix: residual sum-of-flows limits of an area counted
 its scheduled flows wrongly

---
 reliabilityassessment/monte_carlo/transm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..45f9865 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,10 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
+        np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From e285219cbf24ce166a52fac81036ed407741c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 08/39] fix: a residual sum-of-flows limit rounded below zero
 let the LP exceed it

---
 reliabilityassessment/monte_carlo/transm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index 45f9865..5a42f3b 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -116,6 +116,7 @@ def transm(
         np.add.at(BN[:, 4], LP[:NL, 1], -FLOW[:NL])
         np.add.at(BN[:, 3], LP[:NL, 2], -FLOW[:NL])
         np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:NN, [3, 4]] = BN[:NN, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From e560de3a57422b829085a83bbeff66e70367f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 09/39] fix: states drawn once per day (JFREQ=24) were lost at
 the next hour

---
 reliabilityassessment/monte_carlo/hour.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 801890f..12c0a43 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -10,6 +10,9 @@ from reliabilityassessment.monte_carlo.pkstat import pkstat
 from reliabilityassessment.monte_carlo.sumcap import sumcap
 from reliabilityassessment.monte_carlo.transm import transm
 
+# states drawn last, kept between calls ("saved" variables in original Fortran)
+_last_draw = []
+
 
 def hour(
     ATRIB,
@@ -101,11 +104,13 @@ def hour(
 
     # ......Draw generator states and sum capacities by area...............
     NOAREA = CAPOWN.shape[0]
-    if JHOUR % JFREQ == 0 or JFREQ == 1:
+    if not _last_draw or JSTEP >= JFREQ or JHOUR % JFREQ == 0:
         PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
         CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
         LNSTAT = lstate(ILSEED, PROBL)
         TRNSFR = findtn(JENT, INTCH, JDAY)
+        _last_draw[:] = PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR
+    PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR = _last_draw
 
     # STMULT(I,1) IS FORWARD DIRECTION ADJUSTMENT
     # STMULT(I,2) IS BACKWARD DIRECTION ADJUSTMENT
-- 
2.43.0


From 0ac1d21be268e44954d2916a4db0f9fe92144fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 10/39] fix: the direct-assistance test of a single deficient
 area had no effect

---
 reliabilityassessment/monte_carlo/hour.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 12c0a43..ab5e9c9 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -164,7 +164,7 @@ def hour(
             else:
                 NEED = abs(MARGIN[IT])
                 for j in np.where(MARGIN > 0)[0]:
-                    N = LINENO[j, IT]
+                    N = max(LINENO[j, IT], LINENO[IT, j])  # line in either direction
                     if N > -1:
                         M = (LNSTAT[N] - 1) * 3 + 1
                         XX = BLPA[N, M + (LP[N, 1] != j)]
@@ -172,6 +172,14 @@ def hour(
                         MXHELP = min(MARGIN[j], LNCAP[N])
                         NEED -= MXHELP
 
+                if NEED <= 0:  # direct assistance is enough, no load flow needed
+                    return (
+                        NUMINQ,
+                        MFA,
+                        IPOINT,
+                        JHOURT,
+                    )
+
             TEMPFL = int(any(MARGIN < 0))
 
             JFLAG = 0
-- 
2.43.0


From cc62e0281a9af8e126f9ca5546ef18a07517c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 11/39] fix: a pool peak in the last hour of the year got no
 daily peak statistics

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index ab5e9c9..55d432d 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -243,7 +243,7 @@ def hour(
             MGNTHA,
             MGNTHP,
         )
-        if JHOUR == MXPLHR[JDAY]:
+        if JHOUR % DXX == MXPLHR[JDAY]:
             pkstat(
                 NST,
                 MARGIN,
-- 
2.43.0


From e0e854faf93affe405a12d4430c81615f218cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 12/39] fix: each season used the unit capacities of the
 following season

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..0e4dd29 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # the first quarterly event moves it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From b796d04bf50cb051d4d9bdcfd773d86ffbc409cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 13/39] fix: season boundaries given by the user were ignored

---
 reliabilityassessment/monte_carlo/narpMain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 0e4dd29..01c67a7 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,6 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    EVNTS[[5, 9, 13]] = QTR  # user-specified beginnings of the last three seasons
     IQ = -1  # the first quarterly event moves it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 8ca0a980bb9a30416d4a31e828670e412f15e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 14/39] fix: pool-level weighted totals were lost at the end of
 each year

---
 reliabilityassessment/monte_carlo/narpMain.py | 24 +++++++++----------
 reliabilityassessment/monte_carlo/year.py     |  3 ++-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 01c67a7..13c5022 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -157,29 +157,29 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..a7bae4e 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,7 +716,8 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
-    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
+    # float(): SUM may be an array that is updated in place next year
+    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, float(SUM), XLAST, SSQ)
     NOERR = 1
 
     if IYEAR == INTVT:
-- 
2.43.0


From 9829bc5aed48fa753f481c2ed6161de4a9c73e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 15/39] fix: planned outages were applied one week late

---
 reliabilityassessment/monte_carlo/week.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..e364a82 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -38,7 +38,8 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     PLNDST[:] = 1.0
 
     # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # JHOUR is the (0-based) hour before this event
+    JWEEK = (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From c893de90cbdaf80804e022425827f81d45d86cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 16/39] fix: annual area statistics were not reset for every
 area and forecast level

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index a7bae4e..bd8f75b 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From cad7f8c41236af4b4fc8871d4b2f73459fd9ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 17/39] fix: annual pool table crashed without a generation
 loss or repeated a stale XLOL

---
 reliabilityassessment/monte_carlo/year.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index bd8f75b..6363249 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From 2f0100b2f656ae690059c983b69574c288b7f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 18/39] fix: total rows of the daily-peak annual table were
 labelled TC

---
 reliabilityassessment/monte_carlo/year.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 6363249..29b2e91 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
-- 
2.43.0


From 46fd82574eb23319e18b2a08c46857f428a14da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 19/39] fix: convergence check crashed when a zero variance
 rounded below zero

---
 reliabilityassessment/monte_carlo/cvchk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..8b25934 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,8 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    # max(): rounding can make a zero variance slightly negative
+    STDERR = pow(max((SSQ / IYEAR) - XMEAN**2, 0.0) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
-- 
2.43.0


From 5ef2381caa58321486b613c18447cac1fb4de3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 20/39] fix: printing the transmission results (IOI=1) crashed
 or listed wrong units

---
 reliabilityassessment/monte_carlo/tm2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 81a746a..98988e7 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -155,7 +155,7 @@ def tm2(
 
     RES = np.zeros((250, 3))  # may use "N" as its size (check later)
     NUNITS = len(PLNDST)
-    NNTAB = np.zeros(NUNITS)  # in Fortran, np.zeros(600)
+    NNTAB = np.zeros(NUNITS + 1)  # entry 0 is not used; in Fortran, np.zeros(600)
 
     if NLS != 0:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = connls(
@@ -205,7 +205,7 @@ def tm2(
                     NNTAB[JXX] = -i
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(1, JXX + 1):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -280,7 +280,7 @@ def tm2(
                     NNTAB[JXX] = -i
 
             f.write("%4d\n" % (JXX))
-            for i in range(JXX):
+            for i in range(1, JXX + 1):
                 f.write("%4d\n " % (NNTAB[i]))
 
             for i in range(NN):
-- 
2.43.0


From 223945f4e6234d7bad463a221ce6ee8f7ad3a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 21/39] fix: the pool reserve percentage was the one of the
 last area

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 13597dd6f39ecad5c34b39e9d6dd737e59fdf3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 22/39] fix: a zero variance that rounded below zero was
 reported as nan

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index ec2dec3..bd4cfee 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -451,10 +451,10 @@ def report(
 
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(SSQA[IAR, J], 0.0) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(SSQP[J], 0.0) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0


From 3aa447e3ac939c2d004e711c526c329701971b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 23/39] fix: a peak in the fourth season was rated with
 first-season capacities

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..aa6a8ab 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum(QTR < IDAY * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 6f42c4dd71168f11881fbbafcd595de99aed88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 24/39] fix: no unit was ever on planned outage in the last
 week of the year

---
 reliabilityassessment/data_processing/smaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..949153d 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,8 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # the index of last week of a simulation year is 51 (j2 is excluded)
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From f94cbe30f510998fef512b6f4a19689565bb17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 25/39] fix: load data of the 10th area and beyond went to the
 first areas

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From fd812be6d1d53d26c759bc5d513e7c41babd379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 26/39] fix: unit counts missed trailing areas without units

---
 reliabilityassessment/data_processing/datax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..8549f59 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -97,7 +97,7 @@ def datax(inputB_dict):
 
     CAPCON[inputB_dict["ZZUD"]["NAT"]] = deepcopy(inputB_dict["ZZUD"]["NAR"])
     CAPOWN[inputB_dict["ZZUD"]["NAR"], inputB_dict["ZZUD"]["NAT"]] = 1
-    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"])
+    NOGEN = np.bincount(inputB_dict["ZZUD"]["NAR"], minlength=NOAREA)
     PROBG[:, 0] = 1 - inputB_dict["ZZUD"]["HRLOAD"][[4, 5], :].sum(axis=0)
     PROBG[:, 1] = 1 - inputB_dict["ZZUD"]["HRLOAD"][5, :]
     DERATE = 1 - inputB_dict["ZZUD"]["HRLOAD"][6, :] / 100.0
-- 
2.43.0


From b2933f84ffc2742611f1a1e974dddd3e38684c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 27/39] fix: firm contracts could not be read and were one day
 late

---
 reliabilityassessment/data_processing/datax.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index 8549f59..30dee6e 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -118,16 +118,18 @@ def datax(inputB_dict):
     # INTCHR: recording the from and to area no. for each contract
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
-        for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+        for k, (src, dst) in enumerate(
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
-            JENT[src, dst] = i
+            if JENT[src, dst] == -1:
+                JENT[src, dst] = JENT.max() + 1
+            i = JENT[src, dst]  # contracts of the same two areas share one entry
             INTCHR[i, :] = src, dst
-            beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
+            beg_day, end_day = (  # 1-based, both included
+                inputB_dict["ZZFC"]["BEG DAY"][k],
+                inputB_dict["ZZFC"]["END DAY"][k],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[i, beg_day - 1 : end_day] += inputB_dict["ZZFC"]["MW"][k]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From f5fcd50ae5a5d1093b92e98ff2d5b122b5198014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 28/39] fix: the list of ownership percentages of a jointly
 owned unit was not parsed

---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..9b4d4f3 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(row).split(",")))
+            for row in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 874f7b0853145a80a5eb9296f5fd22e6f962f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 29/39] fix: the random seed given by the user was ignored

---
 reliabilityassessment/monte_carlo/narpMain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 13c5022..b153ae8 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -3,6 +3,7 @@ from pathlib import Path
 import numpy as np
 
 from reliabilityassessment.data_processing.dataf1 import dataf1
+from reliabilityassessment.data_processing.readInputB import read_card_ZZMC
 from reliabilityassessment.monte_carlo.contrl import contrl
 from reliabilityassessment.monte_carlo.initfl import initfl
 from reliabilityassessment.monte_carlo.initl import initl
@@ -88,7 +89,7 @@ def narpMain(TEST_DIR):
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
     # seeding:
-    JSEED = 123456
+    JSEED = int(read_card_ZZMC(TEST_DIR)["JSEED"])
     IGSEED, ILSEED = seeder(JSEED, NUNITS, NLINES)
     # ----------------------------Finish data processing part--------------------------
 
-- 
2.43.0


From f01089a4d2518b74fa442c2d17d2a7b3af3f8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 30/39] fix: an interruption while a snapshot was saved
 destroyed the previous one

---
 reliabilityassessment/monte_carlo/intm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2a4e5ef..77ae1fd 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 
 
@@ -60,6 +61,7 @@ def intm(
     XNEWP,
     WOLSHA,
     LSFLG,
+    **others,
 ):
     """
     Save intermediate results into a pickle file, DUMP.pkl, in case of unintentional or
@@ -137,7 +139,10 @@ def intm(
         "XNEWP": XNEWP,
         "WOLSHA": WOLSHA,
         "LSFLG": LSFLG,
+        **others,
     }
 
-    with open("DUMP.pkl", "wb") as fp:
+    # replace the previous snapshot only when the new one is complete
+    with open("DUMP.pkl.tmp", "wb") as fp:
         pickle.dump(snapshot_data, fp)
+    os.replace("DUMP.pkl.tmp", "DUMP.pkl")
-- 
2.43.0


From c8a4f46d85034ae9f36fd7be51e84b0c32dcff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 31/39] fix: a snapshot missed the random seeds, pool totals
 and maintenance status

---
 reliabilityassessment/monte_carlo/events.py |  3 +++
 reliabilityassessment/monte_carlo/year.py   | 30 ++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..b349bfc 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -357,6 +357,9 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
+            PLNDST,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 29b2e91..14c9e07 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,9 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=None,
+    ILSEED=None,
+    PLNDST=None,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -720,6 +723,23 @@ def year(
     RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, float(SUM), XLAST, SSQ)
     NOERR = 1
 
+    # state which intm() does not list itself
+    others = {
+        "SWLSHP": SWLSHP,
+        "SWLGHP": SWLGHP,
+        "SWLTHP": SWLTHP,
+        "SWNSHP": SWNSHP,
+        "SWNGHP": SWNGHP,
+        "SWNTHP": SWNTHP,
+        "SWLSPP": SWLSPP,
+        "SWLGPP": SWLGPP,
+        "SWLTPP": SWLTPP,
+        "SWNSPP": SWNSPP,
+        "SWNGPP": SWNGPP,
+        "SWNTPP": SWNTPP,
+        "PLNDST": PLNDST,
+    }
+
     if IYEAR == INTVT:
         intm(
             ATRIB,
@@ -732,8 +752,8 @@ def year(
             ITAB,
             INTVT,
             EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
+            IGSEED,
+            ILSEED,
             LT,
             BB,
             ZB,
@@ -780,6 +800,7 @@ def year(
             XNEWP,
             WOLSHA,
             LSFLG,
+            **others,
         )
 
         INTVT += INTV
@@ -799,8 +820,8 @@ def year(
                 ITAB,
                 INTVT,
                 EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
+                IGSEED,
+                ILSEED,
                 LT,
                 BB,
                 ZB,
@@ -847,6 +868,7 @@ def year(
                 XNEWP,
                 WOLSHA,
                 LSFLG,
+                **others,
             )
 
     if RFLAG == 1 or CLOCK >= FINISH:
-- 
2.43.0


From 3ca8eb40ea4977397b8dae8ddaf7bd9ad98a33c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 32/39] fix: a run resumed from a snapshot would never save
 another one

---
 reliabilityassessment/monte_carlo/year.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 14c9e07..018b311 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -750,7 +750,7 @@ def year(
             MFA,
             NUMINQ,
             ITAB,
-            INTVT,
+            INTVT + INTV,
             EVNTS,
             IGSEED,
             ILSEED,
-- 
2.43.0


From 554d0bb911cf5db0bfa79d6439929d9f5e43a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 33/39] fix: the pre-scheduled outages of the only unit of an
 area were moved

---
 reliabilityassessment/data_processing/pmsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..cb211da 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -858,7 +858,7 @@ def pmsc(
     f.close()
 
     ITAB = ITC
-    for i in range(NGU):
+    for i in range(1, NGU):  # the sorting above does not fill the entry 0
         IND = ID1[i, 0]
         IND = NR0[IND]
         ID[IND, 3] = (
-- 
2.43.0


From e091a3c256a4f76d24150903bca0edd830c0a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 34/39] fix: a peak on the first day of a season was rated with
 the season before

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index aa6a8ab..246fae1 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.sum(QTR < IDAY * 24)
+        IPER = np.sum(QTR < (IDAY + 1) * 24)  # the last hour of the 0-based day
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From a0029613ac4ae4389fdb4cb5b076014eb97c39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 35/39] fix: keep artificial variables at zero in the second
 phase of the linear programme

---
 reliabilityassessment/monte_carlo/linp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..f9ad94f 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -116,6 +116,11 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            # an artificial variable still in the basis has to stay at zero
+            if IPH == 2:
+                for i in np.where((IBAS[:M] >= N1) & (P[:M] < -1e-07))[0]:
+                    IPIV = i
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From cf6b09c7a6b62e508efcd0c4676c139049ca0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 36/39] fix: direct assistance used another line when line
 numbers differ from the row order

---
 reliabilityassessment/data_processing/datax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index 30dee6e..e0e3d59 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -156,7 +156,8 @@ def datax(inputB_dict):
     LP[:, 0] = deepcopy(inputB_dict["ZZTD"]["LineID"])  # idx (int) for the line
     LP[:, 1] = deepcopy(inputB_dict["ZZTD"]["NAR"])  # idx (int) for 'from area'
     LP[:, 2] = deepcopy(inputB_dict["ZZTD"]["NAE"])
-    LINENO[LP[:, 1], LP[:, 2]] = LP[:, 0]  # idx (int) for 'to area'
+    # LINENO points to the row of the line in LP, BLPA and PROBL, whatever its number
+    LINENO[LP[:, 1], LP[:, 2]] = np.arange(NLINES)
 
     # Convert discrete probability to cumulative probability
     # PROBL(k,l) cumulative probability that line l is in state k, k=0,...5
-- 
2.43.0


From 66c275e17f39129547c82ea10d208c2de49a5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 37/39] fix: missing optional input files stopped the program

---
 .../data_processing/readInputB.py             | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 9b4d4f3..cfefee2 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -398,6 +398,18 @@ def read_card_ZZTD(filepath):
     return data
 
 
+def _read_optional(filepath, name, columns):
+    """Read the csv file of an optional card, empty if there is no such file
+
+    :param str filepath: root file path for input csvs.
+    :param str name: name of the csv file.
+    :param list columns: column names of the card.
+    :return: (*pandas.DataFrame*) -- the rows of the card.
+    """
+    path = os.path.join(filepath, name)
+    return pd.read_csv(path) if os.path.exists(path) else pd.DataFrame(columns=columns)
+
+
 def read_card_ZZFC(filepath):
     """
     ZZFC: firm contracts data card
@@ -412,7 +424,11 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = pd.read_csv(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = _read_optional(
+        filepath,
+        "ZZFC.csv",
+        ["SN", "FROM AREA", "TO AREA", "BEG DAY", "END DAY", "MW"],
+    )
     data = dict()
 
     """
@@ -457,7 +473,9 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = pd.read_csv(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = _read_optional(
+        filepath, "ZZOD.csv", ["SN", "UNIT NAME", "PERCENT OWNED BY AREA"]
+    )
     data = dict()
 
     """
@@ -499,7 +517,20 @@ def read_card_ZZDD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZDD = pd.read_csv(os.path.join(filepath, "ZZDD.csv"))
+    df_ZZDD = _read_optional(
+        filepath,
+        "ZZDD.csv",
+        [
+            "SN",
+            "LINE NUMBER",
+            "UNIT1",
+            "UNIT2",
+            "UNIT3",
+            "UNIT4",
+            "FORWARD",
+            "BACKWARD",
+        ],
+    )
     data = dict()
 
     """
-- 
2.43.0


From c6512d7e050e5be85891f4b2bf9a42e077bf59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 38/39] fix: units rounded to no capacity repeated rows of the
 outage table

---
 reliabilityassessment/data_processing/gsm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/gsm.py b/reliabilityassessment/data_processing/gsm.py
index f510de8..d255ed6 100644
--- a/reliabilityassessment/data_processing/gsm.py
+++ b/reliabilityassessment/data_processing/gsm.py
@@ -45,7 +45,7 @@ def gsm(N, KT, KP, P1, P2, P3, PA, KA):
     L = 0  # 1 in original Fortran
     KA[0] = 0
     PA[0] = 1.0
-    J = np.array([1, KP == 0, 0])
+    J = np.array([1, KP == 0, KT == 0])
     while J.min() < N and PA[L] > 0.1e-08 and L < INGS1:
         L += 1
         KA[L] = KO[J, [0, 1, 2]].min()
@@ -117,6 +117,8 @@ def _gsm(N, KT, KP, P1, P2, P3, PA, KA):
     if KP == 0:
         J2 += 1
     J3 = 0
+    if KT == 0:
+        J3 += 1
     KA[L] = 0
     PA[L] = 1.0
 
-- 
2.43.0


From d5adee546544b8eb0538dc0c7104ac778f43dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 39/39] fix: the yearly tables numbered areas and load levels
 from zero

---
 reliabilityassessment/monte_carlo/year.py | 42 +++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 018b311..e45ba5f 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -344,8 +344,8 @@ def year(
                     f.write(
                         "\n  %2d  %2d    %4d    %8.2f  %8d     %4d     %8.2f            %s\n"
                         % (
-                            J,
-                            N,
+                            J + 1,
+                            N + 1,
                             LOLGHA[J, N],
                             XMGNA,
                             MGNGHA[J, N],
@@ -357,7 +357,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLGPA[J, N], XMGNP, XG)
+                        % (J + 1, N + 1, LOLGPA[J, N], XMGNP, XG)
                     )
 
                 if LOLTHA[J, N] > 0:
@@ -374,8 +374,8 @@ def year(
                     f.write(
                         "\n  %2d  %2d    %4d    %8.2f  %8d     %4d     %8.2f            %s\n"
                         % (
-                            J,
-                            N,
+                            J + 1,
+                            N + 1,
                             LOLTHA[J, N],
                             XMGNA,
                             MGNTHA[J, N],
@@ -387,7 +387,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLTPA[J, N], XMGNP, XT)
+                        % (J + 1, N + 1, LOLTPA[J, N], XMGNP, XT)
                     )
 
                 if LOLSHA[J, N] > 0:
@@ -404,8 +404,8 @@ def year(
                     f.write(
                         "\n  %2d  %2d    %4d    %8.2f  %8d     %4d     %8.2f            %s\n"
                         % (
-                            J,
-                            N,
+                            J + 1,
+                            N + 1,
                             LOLSHA[J, N],
                             XMGNA,
                             MGNSHA[J, N],
@@ -417,7 +417,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XS)
+                        % (J + 1, N + 1, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
@@ -433,12 +433,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "\n  %2d  %s     %7.2f  %8.2f   %7.0f     %7.2f  %8.2f            %s\n"
-                    % (J, XA, WOLGHA[J], XMGNA, WGNGHA[J], WOLGPA[J], XMGNP, XG)
+                    % (J + 1, XA, WOLGHA[J], XMGNA, WGNGHA[J], WOLGPA[J], XMGNP, XG)
                 )
             else:
                 f.write(
                     "\n  %2d  %s         %8.2f  %8.2f            %s\n"
-                    % (J, XA, WOLGPA[J], XMGNP, XG)
+                    % (J + 1, XA, WOLGPA[J], XMGNP, XG)
                 )
 
             if WOLTHA[J] > 0.0:
@@ -454,12 +454,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "\n  %2d  %s     %7.2f  %8.2f   %7.0f     %7.2f  %8.2f            %s\n"
-                    % (J, XA, WOLTHA[J], XMGNA, WGNTHA[J], WOLTPA[J], XMGNP, XT)
+                    % (J + 1, XA, WOLTHA[J], XMGNA, WGNTHA[J], WOLTPA[J], XMGNP, XT)
                 )
             else:
                 f.write(
                     "\n  %2d  %s         %8.2f  %8.2f            %s\n"
-                    % (J, XA, WOLTPA[J], XMGNP, XT)
+                    % (J + 1, XA, WOLTPA[J], XMGNP, XT)
                 )
 
             if WOLSHA[J] > 0.0:
@@ -475,12 +475,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "\n  %2d  %s     %7.2f  %8.2f   %7.0f     %7.2f  %8.2f            %s\n"
-                    % (J, XA, WOLSHA[J], XMGNA, WGNSHA[J], WOLSPA[J], XMGNP, XS)
+                    % (J + 1, XA, WOLSHA[J], XMGNA, WGNSHA[J], WOLSPA[J], XMGNP, XS)
                 )
             else:
                 f.write(
                     "\n  %2d  %s         %8.2f  %8.2f            %s\n"
-                    % (J, XA, WOLSPA[J], XMGNP, XS)
+                    % (J + 1, XA, WOLSPA[J], XMGNP, XS)
                 )
 
         # C POOL STATISTICS
@@ -499,12 +499,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "      %2d     %4d     %8.2f  %8d     %4d     %8.2f            %s"
-                    % (N, LOLGHP[N], XMGNH, MGNGHP[N], LOLGPP[N], XMGNP, XG)
+                    % (N + 1, LOLGHP[N], XMGNH, MGNGHP[N], LOLGPP[N], XMGNP, XG)
                 )
             else:
                 f.write(
                     "      %2d         %8.2f  %8.2f            %s"
-                    % (N, LOLGPP[N], XMGNP, XG)
+                    % (N + 1, LOLGPP[N], XMGNP, XG)
                 )
 
             if LOLTHP[N] > 0:
@@ -520,12 +520,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "      %2d     %4d     %8.2f  %8d     %4d     %8.2f            %s"
-                    % (N, LOLTHP[N], XMGNH, MGNTHP[N], LOLTPP[N], XMGNP, XT)
+                    % (N + 1, LOLTHP[N], XMGNH, MGNTHP[N], LOLTPP[N], XMGNP, XT)
                 )
             else:
                 f.write(
                     "      %2d         %8.2f  %8.2f            %s"
-                    % (N, LOLTPP[N], XMGNP, XT)
+                    % (N + 1, LOLTPP[N], XMGNP, XT)
                 )
 
             if LOLSHP[N] > 0:
@@ -541,12 +541,12 @@ def year(
             if INDX != 1:
                 f.write(
                     "      %2d     %4d     %8.2f  %8d     %4d     %8.2f            %s"
-                    % (N, LOLSHP[N], XMGNH, MGNSHP[N], LOLSPP[N], XMGNP, XS)
+                    % (N + 1, LOLSHP[N], XMGNH, MGNSHP[N], LOLSPP[N], XMGNP, XS)
                 )
             else:
                 f.write(
                     "      %2d         %8.2f  %8.2f            %s"
-                    % (N, LOLSPP[N], XMGNP, XS)
+                    % (N + 1, LOLSPP[N], XMGNP, XS)
                 )
 
         if WOLGHP > 0.0:
-- 
2.43.0

