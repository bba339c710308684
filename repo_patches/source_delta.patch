From fb02d13ac605395cc544cfeb081db7a951fed6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 01/36] fix: hour no longer fails with IndexError when no area
 is short of capacity

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..62fddd2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,7 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From cff8fa9326501fa179656bfa2b2b174e798fb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 02/36] fix: keep the drawn unit and line states in force
 between draws

---
 reliabilityassessment/monte_carlo/contrl.py |  4 ++++
 reliabilityassessment/monte_carlo/events.py |  2 ++
 reliabilityassessment/monte_carlo/hour.py   | 16 ++++++++++------
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/contrl.py b/reliabilityassessment/monte_carlo/contrl.py
index 3e9cb9f..061563e 100644
--- a/reliabilityassessment/monte_carlo/contrl.py
+++ b/reliabilityassessment/monte_carlo/contrl.py
@@ -155,6 +155,9 @@ def contrl(
 
     print("In function 'contrl': ")
 
+    # unit and line states in force, kept from one hour to the next
+    DRAWS = {}
+
     while True:
         if IPOINT == -1:  # 0 in original Fortran
             print("Error: Pointer to event list is -1!")
@@ -385,4 +388,5 @@ def contrl(
                 XNEWP,
                 IGSEED,
                 ILSEED,
+                DRAWS,
             )
diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..eccaed0 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -136,6 +136,7 @@ def events(
     XNEWP,
     IGSEED,
     ILSEED,
+    DRAWS,
 ):
     """
     Simulation schedule for different time-scale of events
@@ -206,6 +207,7 @@ def events(
             NLS,
             IGSEED,
             ILSEED,
+            DRAWS,
         )
 
         JHOUR = JHOURT
diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 62fddd2..4964259 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -65,16 +65,19 @@ def hour(
     NLS,
     IGSEED,
     ILSEED,
+    DRAWS,
 ):
     """
     Schedule hourly simulation events
 
+    :param dict DRAWS: the unit and line states of the latest draw, which stay in
+        force until the next one; empty before the first draw of a simulation
     :return: (*tuple*)
     .. note:: 1) For descriptions of input and output variables, please refer to `variable
               descriptions.xlsx` in the project Dropbox folder at:
               https://www.dropbox.com/s/eahg8x584s9pg4j/variable%20descriptions.xlsx?dl=0
               2) arrays are modified in-place.
-              3) EVNTS is modified in place
+              3) EVNTS and DRAWS are modified in place
     """
     # print("Entering subroutine hour")
 
@@ -101,11 +104,12 @@ def hour(
 
     # ......Draw generator states and sum capacities by area...............
     NOAREA = CAPOWN.shape[0]
-    if JHOUR % JFREQ == 0 or JFREQ == 1:
-        PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
-        CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
-        LNSTAT = lstate(ILSEED, PROBL)
-        TRNSFR = findtn(JENT, INTCH, JDAY)
+    if JSTEP >= JFREQ or JHOUR % JFREQ == 0 or not DRAWS:
+        DRAWS["PCTAVL"], DRAWS["AVAIL"] = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
+        DRAWS["LNSTAT"] = lstate(ILSEED, PROBL)
+    PCTAVL, AVAIL, LNSTAT = DRAWS["PCTAVL"], DRAWS["AVAIL"], DRAWS["LNSTAT"]
+    CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
+    TRNSFR = findtn(JENT, INTCH, JDAY)
 
     # STMULT(I,1) IS FORWARD DIRECTION ADJUSTMENT
     # STMULT(I,2) IS BACKWARD DIRECTION ADJUSTMENT
-- 
2.43.0


From 2519d99fabf7684b9b284b57280b1641b5dfeba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 03/36] fix: the last hour of a year can be the pool peak hour
 of its day

---
 reliabilityassessment/monte_carlo/hour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 4964259..fa0ea96 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -90,15 +90,15 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOURT = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
+    JHOUR = JHOURT % DXX  # the last hour of a year is hour 8759, not hour -1
 
     # need to double check
     JDAY = np.floor(JHOUR / 24).astype(
         int
     )  # original Fortran, (JHOUR-.1)/24 + 1, since 1-based
 
-    JHOURT = JHOUR
     if JSTEP == 24:  # if only daily peak stats are collected
         JHOUR = MXPLHR[JDAY]  # MXPLHR stores the pool peak hour
 
-- 
2.43.0


From 47db8585405452c188326b3fbd1ff364448c31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/36] fix: keep the pool's weighted totals from one year to
 the next

---
 reliabilityassessment/monte_carlo/narpMain.py | 24 +++++++++----------
 reliabilityassessment/monte_carlo/year.py     |  8 +++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..57ad525 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,29 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..c8c2d91 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -693,26 +693,26 @@ def year(
             if KVSTAT == 1:
                 # LOOP FOR HOURLY, POOL, LOLE
                 if KVTYPE == 1:
-                    SUM = SWLSHP
+                    SUM = float(SWLSHP)
                 else:
                     SUM = SOLSHP[NOERR]
             # KVSTAT = 2, LOOP FOR HOURLY, POOL, EUE
             else:
                 if KVTYPE == 1:
-                    SUM = SWNSHP
+                    SUM = float(SWNSHP)
                 else:
                     SUM = SGNSHP[NOERR]
         # KVWHEN = 2, LOOP FOR PEAK, POOL, LOLE
         else:
             if KVSTAT == 1:
                 if KVTYPE == 1:
-                    SUM = SWLSPP
+                    SUM = float(SWLSPP)
                 else:
                     SUM = SOLSPP[NOERR]
             # KVWHEN=2, KVSTAT = 2, LOOP FOR PEAK, POOL, EUES
             else:
                 if KVTYPE == 1:
-                    SUM = SWNSPP
+                    SUM = float(SWNSPP)
                 else:
                     SUM = SGNSPP[NOERR]
 
-- 
2.43.0


From ac7dff9a5d6dfe3d1d7cd89b86f6a36b2918c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 05/36] fix: clear the annual area accounts of every area and
 forecast level

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index c8c2d91..3959108 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From bd9a86a15533f61fa426f81c6bf665f0066804e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 06/36] fix: print annual pool statistics of a year without
 capacity-deficiency loss

---
 reliabilityassessment/monte_carlo/year.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 3959108..d6314aa 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From a5daf29b525a64c57c674715ae8801d3a6017708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 07/36] fix: label the total row of the annual peak table as
 total

---
 reliabilityassessment/monte_carlo/year.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index d6314aa..9eb84f9 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -414,7 +414,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
-- 
2.43.0


From df96d234163ebd58b7c2eda44d42dcc74258f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 08/36] fix: snapshot everything a resumed simulation needs,
 once the year is finished

---
 reliabilityassessment/monte_carlo/events.py |   6 +
 reliabilityassessment/monte_carlo/intm.py   |  36 +++-
 reliabilityassessment/monte_carlo/year.py   | 218 ++++++++------------
 3 files changed, 130 insertions(+), 130 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index eccaed0..d88a0d4 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -359,6 +359,12 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
+            PLNDST,
+            RATING,
+            IQ,
+            JHOUR,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2a4e5ef..2dd93c0 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -60,6 +60,23 @@ def intm(
     XNEWP,
     WOLSHA,
     LSFLG,
+    RFLAG,
+    IQ,
+    JHOUR,
+    PLNDST,
+    RATING,
+    SWLSHP,
+    SWLGHP,
+    SWLTHP,
+    SWNSHP,
+    SWNGHP,
+    SWNTHP,
+    SWLSPP,
+    SWLGPP,
+    SWLTPP,
+    SWNSPP,
+    SWNGPP,
+    SWNTPP,
 ):
     """
     Save intermediate results into a pickle file, DUMP.pkl, in case of unintentional or
@@ -79,7 +96,7 @@ def intm(
     """
 
     snapshot_data = {
-        "ATRIB": ATRIB[1],
+        "ATRIB": ATRIB,
         "CLOCK": CLOCK,
         "IPOINT": IPOINT,
         "XLAST": XLAST,
@@ -137,6 +154,23 @@ def intm(
         "XNEWP": XNEWP,
         "WOLSHA": WOLSHA,
         "LSFLG": LSFLG,
+        "RFLAG": RFLAG,
+        "IQ": IQ,
+        "JHOUR": JHOUR,
+        "PLNDST": PLNDST,
+        "RATING": RATING,
+        "SWLSHP": SWLSHP,
+        "SWLGHP": SWLGHP,
+        "SWLTHP": SWLTHP,
+        "SWNSHP": SWNSHP,
+        "SWNGHP": SWNGHP,
+        "SWNTHP": SWNTHP,
+        "SWLSPP": SWLSPP,
+        "SWLGPP": SWLGPP,
+        "SWLTPP": SWLTPP,
+        "SWNSPP": SWNSPP,
+        "SWNGPP": SWNGPP,
+        "SWNTPP": SWNTPP,
     }
 
     with open("DUMP.pkl", "wb") as fp:
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 9eb84f9..e2a9e3c 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,12 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=None,
+    ILSEED=None,
+    PLNDST=None,
+    RATING=None,
+    IQ=None,
+    JHOUR=None,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -719,135 +725,6 @@ def year(
     RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
     NOERR = 1
 
-    if IYEAR == INTVT:
-        intm(
-            ATRIB,
-            CLOCK,
-            IPOINT,
-            XLAST,
-            SSQ,
-            MFA,
-            NUMINQ,
-            ITAB,
-            INTVT,
-            EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
-            LT,
-            BB,
-            ZB,
-            SOLTHA,
-            SOLGHA,
-            SOLSHA,
-            SGNTHA,
-            SGNGHA,
-            SGNSHA,
-            SOLTPA,
-            SOLGPA,
-            SOLSPA,
-            SGNTPA,
-            SGNGPA,
-            SGNSPA,
-            SWLSHA,
-            SWLGHA,
-            SWLTHA,
-            SWNSHA,
-            SWNGHA,
-            SWNTHA,
-            SWLSPA,
-            SWLGPA,
-            SWLTPA,
-            SWNSPA,
-            SWNGPA,
-            SWNTPA,
-            SOLTHP,
-            SOLGHP,
-            SOLSHP,
-            SGNTHP,
-            SGNGHP,
-            SGNSHP,
-            SOLTPP,
-            SOLGPP,
-            SOLSPP,
-            SGNTPP,
-            SGNGPP,
-            SGNSPP,
-            HLOLE,
-            DPLOLE,
-            EUES,
-            XNEWA,
-            XNEWP,
-            WOLSHA,
-            LSFLG,
-        )
-
-        INTVT += INTV
-
-    else:  # if IYEAR != INTVT
-        assert type(IYEAR) is int
-        IFIN = int(FINISH / 8760)
-        if IYEAR == IFIN:
-            intm(
-                ATRIB,
-                CLOCK,
-                IPOINT,
-                XLAST,
-                SSQ,
-                MFA,
-                NUMINQ,
-                ITAB,
-                INTVT,
-                EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
-                LT,
-                BB,
-                ZB,
-                SOLTHA,
-                SOLGHA,
-                SOLSHA,
-                SGNTHA,
-                SGNGHA,
-                SGNSHA,
-                SOLTPA,
-                SOLGPA,
-                SOLSPA,
-                SGNTPA,
-                SGNGPA,
-                SGNSPA,
-                SWLSHA,
-                SWLGHA,
-                SWLTHA,
-                SWNSHA,
-                SWNGHA,
-                SWNTHA,
-                SWLSPA,
-                SWLGPA,
-                SWLTPA,
-                SWNSPA,
-                SWNGPA,
-                SWNTPA,
-                SOLTHP,
-                SOLGHP,
-                SOLSHP,
-                SGNTHP,
-                SGNGHP,
-                SGNSHP,
-                SOLTPP,
-                SOLGPP,
-                SOLSPP,
-                SGNTPP,
-                SGNGPP,
-                SGNSPP,
-                HLOLE,
-                DPLOLE,
-                EUES,
-                XNEWA,
-                XNEWP,
-                WOLSHA,
-                LSFLG,
-            )
-
     if RFLAG == 1 or CLOCK >= FINISH:
         ITAB = report(
             IYEAR,
@@ -912,4 +789,87 @@ def year(
             XNEWP,
         )
 
+    # The snapshot is taken last, when nothing of this year is left to be done
+    IFIN = int(FINISH / 8760)
+    if IYEAR == INTVT or IYEAR == IFIN:
+        if IYEAR == INTVT:
+            INTVT += INTV
+        intm(
+            ATRIB,
+            CLOCK,
+            IPOINT,
+            XLAST,
+            SSQ,
+            MFA,
+            NUMINQ,
+            ITAB,
+            INTVT,
+            EVNTS,
+            IGSEED,
+            ILSEED,
+            LT,
+            BB,
+            ZB,
+            SOLTHA,
+            SOLGHA,
+            SOLSHA,
+            SGNTHA,
+            SGNGHA,
+            SGNSHA,
+            SOLTPA,
+            SOLGPA,
+            SOLSPA,
+            SGNTPA,
+            SGNGPA,
+            SGNSPA,
+            SWLSHA,
+            SWLGHA,
+            SWLTHA,
+            SWNSHA,
+            SWNGHA,
+            SWNTHA,
+            SWLSPA,
+            SWLGPA,
+            SWLTPA,
+            SWNSPA,
+            SWNGPA,
+            SWNTPA,
+            SOLTHP,
+            SOLGHP,
+            SOLSHP,
+            SGNTHP,
+            SGNGHP,
+            SGNSHP,
+            SOLTPP,
+            SOLGPP,
+            SOLSPP,
+            SGNTPP,
+            SGNGPP,
+            SGNSPP,
+            HLOLE,
+            DPLOLE,
+            EUES,
+            XNEWA,
+            XNEWP,
+            WOLSHA,
+            LSFLG,
+            RFLAG,
+            IQ,
+            JHOUR,
+            PLNDST,
+            RATING,
+            SWLSHP,
+            SWLGHP,
+            SWLTHP,
+            SWNSHP,
+            SWNGHP,
+            SWNTHP,
+            SWLSPP,
+            SWLGPP,
+            SWLTPP,
+            SWNSPP,
+            SWNGPP,
+            SWNTPP,
+        )
+
     return IPOINT, MFA, NUMINQ, SSQ, XLAST, RFLAG, INTVT, ITAB
-- 
2.43.0


From f16e28e76ca825cdd8e4ffdba768bb543b30ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 09/36] fix: replace the snapshot atomically so a crash cannot
 tear it

---
 reliabilityassessment/monte_carlo/intm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2dd93c0..3559b2d 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 
 
@@ -173,5 +174,9 @@ def intm(
         "SWNTPP": SWNTPP,
     }
 
-    with open("DUMP.pkl", "wb") as fp:
+    # The previous snapshot is replaced only when the new one is safely on disk
+    with open("DUMP.pkl.new", "wb") as fp:
         pickle.dump(snapshot_data, fp)
+        fp.flush()
+        os.fsync(fp.fileno())
+    os.replace("DUMP.pkl.new", "DUMP.pkl")
-- 
2.43.0


From de0028ccec8b6f91436573ea049a5cd74f1c6075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 10/36] fix: start the simulation in the first season's ratings

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 57ad525..447a2b3 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # no quarter yet; the event at the start of the year moves to the 1st one
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From fd84c3634dc3dd7beae30cacafc66a204a9c72c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 11/36] fix: change seasons at the weeks given in the input

---
 reliabilityassessment/monte_carlo/initl.py    | 9 +++++----
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..40d3938 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,14 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: first hour index of the last three quarters of a year
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +103,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 447a2b3..6d69ddc 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = -1  # no quarter yet; the event at the start of the year moves to the 1st one
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From 406fa7a63bebf3628a73bdadb363958f15457a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 12/36] fix: put each week's planned outages in force in that
 week of every year

---
 reliabilityassessment/monte_carlo/week.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..dd347bb 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -29,16 +29,18 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     .. note:: ATRIB, PLNDST, EVNTS are modified in place.
     """
 
-    # assigning the event attribute by shifting the clock for a week
-    ATRIB[0] = CLOCK + 168
+    # assigning the event attribute by shifting the clock for a week; the weeks start
+    # afresh with every year, whose last day is left over after the 52nd week
+    ATRIB[0] = min(CLOCK + 168, (CLOCK // 8760 + 1) * 8760 + 0.5)
 
     # place new entry into the event list
     NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
 
     PLNDST[:] = 1.0
 
-    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index;
+    # JHOUR is the hour before the new week
+    JWEEK = (JHOUR + 1) // 168
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From 3dc1e10a0065e34aed5c0ea2cb3921ded848de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 13/36] fix: planned outages last through the 52nd week

---
 reliabilityassessment/data_processing/smaint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..7de1d0d 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -89,8 +89,8 @@ def smaint(
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
-                # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                # j2 is the first week after the outage; a simulation year has 52 weeks
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From 8b20381feb9259dded7876bebce10174a6ade659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 14/36] fix: area capacity at peak uses the ratings of the
 season of the peak day

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..b4f6b48 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.sum((IDAY + 1) * 24 > QTR)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 662cba145eb34379d7fe6fd3c8b5e3eb6183d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 15/36] fix: read firm contracts: every contract, on its own
 days

---
 reliabilityassessment/data_processing/datax.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..17824a3 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -118,16 +118,19 @@ def datax(inputB_dict):
     # INTCHR: recording the from and to area no. for each contract
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
-        for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+        pairs = {}  # contracts from the same area to the same area share one pointer
+        for src, dst, beg_day, end_day, mw in zip(
+            inputB_dict["ZZFC"]["NAR"],
+            inputB_dict["ZZFC"]["NAE"],
+            inputB_dict["ZZFC"]["BEG DAY"],
+            inputB_dict["ZZFC"]["END DAY"],
+            inputB_dict["ZZFC"]["MW"],
         ):
+            i = pairs.setdefault((src, dst), len(pairs))
             JENT[src, dst] = i
             INTCHR[i, :] = src, dst
-            beg_day, end_day = (
-                inputB_dict["ZZFC"]["BEG DAY"][i],
-                inputB_dict["ZZFC"]["END DAY"][i],
-            )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            # days are numbered from 1 and both ends are included
+            INTCH[i, beg_day - 1 : end_day] += mw
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From 1e1e034422c40e9e5ef2b8caa4d55980464c7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 16/36] fix: read the percentages of jointly owned units

---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..ae699cd 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(percent).split(",")))
+            for percent in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 4e4902cae099c88b1777d02fa159f5661d679276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 17/36] fix: refuse incomplete hourly load data instead of
 taking it as zero load

---
 reliabilityassessment/data_processing/xldnew.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..2c70c3a 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -23,18 +23,23 @@ def xldnew(FileNameAndPath, PKLOAD):
     with open(FileNameAndPath, "r") as f:
         Lines = f.readlines()
 
-    HRLOAD = np.zeros((len(PKLOAD), 8760))
+    HRLOAD = np.full((len(PKLOAD), 8760), np.nan)
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
-            HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-                map(float, line.strip().split())
-            )[-12:]
+            values = list(map(float, line.split()))
+            # 12 hourly values, after a date in a line that does not start with a blank
+            if len(values) < 12 + (not line[0].isspace()):
+                raise ValueError("Hourly load data missing in: " + line)
+            HRLOAD[areaIdx, hourIdx : hourIdx + 12] = values[-12:]
             hourIdx += 12
 
+    if not np.isfinite(HRLOAD).all():
+        raise ValueError("Hourly load data missing for some area")
+
     # Normalize and re-scale the annual load data of each area
     HRLOAD = (
         HRLOAD
-- 
2.43.0


From 58f60635e8e55ded0471a99ce41d7edcf5986dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 18/36] fix: refuse input tables with missing fields

---
 .../data_processing/readInputB.py             | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index ae699cd..80ea23d 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,6 +4,21 @@ import numpy as np
 import pandas as pd
 
 
+def _read_table(filepath, name):
+    """
+    Read a data card, all fields of which must be given.
+
+    :param str filepath: root file path for input csvs.
+    :param str name: file name of the card.
+    :return: (*pandas.DataFrame*) -- the content of the card.
+    :raises ValueError: if a field is missing.
+    """
+    df = pd.read_csv(os.path.join(filepath, name))
+    if df.isna().to_numpy().any():
+        raise ValueError(f"Missing values in {name}")
+    return df
+
+
 def read_card_ZZTC(filepath):
     """
     ZZTC: title card
@@ -28,7 +43,7 @@ def read_card_ZZMC(filepath):
                          designated keys.
     """
 
-    df_ZZMC = pd.read_csv(os.path.join(filepath, "ZZMC.csv"))
+    df_ZZMC = _read_table(filepath, "ZZMC.csv")
     data = dict()
 
     """
@@ -178,7 +193,7 @@ def read_card_ZZLD(filepath):
     :return: (*dict*) -- a dictionary contains info from the raw dataframe with
         designated keys.
     """
-    df_ZZLD = pd.read_csv(os.path.join(filepath, "ZZLD.csv"))
+    df_ZZLD = _read_table(filepath, "ZZLD.csv")
     data = dict()
 
     RATES = np.zeros((len(df_ZZLD), 3))
@@ -256,7 +271,7 @@ def read_card_ZZUD(filepath):
         designated keys.
     """
 
-    df_ZZUD = pd.read_csv(os.path.join(filepath, "ZZUD.csv"))
+    df_ZZUD = _read_table(filepath, "ZZUD.csv")
     data = dict()
 
     # Note: the original Fortran code set the HRLOAD array as INT type;
@@ -355,7 +370,7 @@ def read_card_ZZTD(filepath):
         designated keys.
     """
 
-    df_ZZTD = pd.read_csv(os.path.join(filepath, "ZZTD.csv"))
+    df_ZZTD = _read_table(filepath, "ZZTD.csv")
     data = dict()
 
     ADM = np.zeros((len(df_ZZTD), 6))
@@ -412,7 +427,7 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = pd.read_csv(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = _read_table(filepath, "ZZFC.csv")
     data = dict()
 
     """
@@ -457,7 +472,7 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = pd.read_csv(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = _read_table(filepath, "ZZOD.csv")
     data = dict()
 
     """
-- 
2.43.0


From a4711c514665fe54f218e92f48f268a238b4bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 19/36] fix: draw from the seed given in the input

---
 reliabilityassessment/monte_carlo/narpMain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 6d69ddc..f866195 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -3,6 +3,7 @@ from pathlib import Path
 import numpy as np
 
 from reliabilityassessment.data_processing.dataf1 import dataf1
+from reliabilityassessment.data_processing.readInputB import read_card_ZZMC
 from reliabilityassessment.monte_carlo.contrl import contrl
 from reliabilityassessment.monte_carlo.initfl import initfl
 from reliabilityassessment.monte_carlo.initl import initl
@@ -88,7 +89,7 @@ def narpMain(TEST_DIR):
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
     # seeding:
-    JSEED = 123456
+    JSEED = int(read_card_ZZMC(TEST_DIR)["JSEED"])
     IGSEED, ILSEED = seeder(JSEED, NUNITS, NLINES)
     # ----------------------------Finish data processing part--------------------------
 
-- 
2.43.0


From 75af6544b61686a727aa761b0fb1b6ae95b3a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 20/36] fix: pass conls the arguments it takes, so that loss
 sharing works

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..244f9c0 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -234,7 +234,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From 9385ca0a2228533e9075210dedd80a7e3a7005ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 21/36] fix: restore the impedance matrix after the dispatch by
 linear program

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 244f9c0..ca8e6a7 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -302,6 +302,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 7e5bca1e54c3e7614cbf4a6f2b5ae324731e9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 22/36] fix: take a changed line to the reference area out of
 the admittance matrix

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ca8e6a7..ffc6ad6 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -103,7 +103,7 @@ def tm2(
         for bij in [BIJ, -BLP0[i]]:
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 14f14373281a6577ec9ae5e7d2416c5cc629c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 23/36] fix: take the first slack variable of the linear
 program as a slack variable

---
 reliabilityassessment/monte_carlo/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..8d71fa3 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 50dc5fbcf593d94832ee2fbe22da962d7d43a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 24/36] fix: charge scheduled flows against the right side of
 each area's limits

---
 reliabilityassessment/monte_carlo/transm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..d654401 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,12 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        # a flow is an export of its from-area and an import of its to-area
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 4], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 3], LP[:NL, 2], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:NN, [3, 4]] = BN[:NN, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 183d13255f1738074d989a5f121431097c459c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 25/36] fix: keep leftover artificial variables at zero in the
 linear program

---
 reliabilityassessment/monte_carlo/linp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..254e131 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -116,6 +116,12 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            if IPH == 2:
+                # an artificial variable still in the basis is zero and has to
+                # stay so: let it leave the basis before it would change
+                for i in np.where((IBAS[:M] >= N) & (abs(P[:M]) > 1e-07))[0]:
+                    IPIV = i
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From 28080fa3ff8db7b31061c05922937bdef4d8e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 26/36] fix: transmission trace no longer fails and keeps every
 hour

---
 reliabilityassessment/monte_carlo/tm2.py | 26 +++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ffc6ad6..481eb7b 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -180,29 +180,29 @@ def tm2(
         FLOW[0 : NXD2 - NXD1 + 1] = RES[NXD1 - 1 : NXD2, 0].copy()
 
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
 
             # print table of units on outage or derated to traout file
             # JXX is the unit number on outage, derated, or on planned maintenance.
-            # NNTAB[i] is index of unit on outage or on maintenance.
+            # NNTAB[i] is the number (from 1) of a unit on outage or on maintenance.
             # if unit is derated, then NNTAB[i] has a “-” sign.
 
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
+                    NNTAB[JXX] = i + 1
                     JXX += 1
-                    NNTAB[JXX] = i
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
-                NNTAB[JXX] = i
+                NNTAB[JXX] = i + 1
                 if PCTAVL[i] != 0.0:
-                    NNTAB[JXX] = -i
+                    NNTAB[JXX] = -(i + 1)
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -232,6 +232,7 @@ def tm2(
                         FLOW[i],
                     )
                 )
+            f.close()
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
             BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
@@ -261,20 +262,20 @@ def tm2(
         # except the JFLAG logic in file writing. Maybe we can put it in a
         # function to reduce duplicated code. (may consider in the future)
         if IOI != 0:
-            f = open("traout.txt ", "w")  # maybe 'a' ; need later check
+            f = open("traout.txt ", "a")
             f.write("\n     %8d  %4d  %1d\n" % (LCLOCK, JHOUR, JFLAG))
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
+                    NNTAB[JXX] = i + 1
                     JXX += 1
-                    NNTAB[JXX] = i
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
-                NNTAB[JXX] = i
+                NNTAB[JXX] = i + 1
                 if PCTAVL[i] != 0.0:
-                    NNTAB[JXX] = -i
+                    NNTAB[JXX] = -(i + 1)
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
@@ -299,6 +300,7 @@ def tm2(
                         FLOW[i],
                     )
                 )
+            f.close()
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-- 
2.43.0


From ccc98e5376b45316c020c2220be7198ef16a698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 27/36] fix: report the reserve of the pool, not of its last
 area

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..ec2dec3 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From ef22fcdef84e914fe01ac82faaf28af06ab32f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 28/36] fix: take a variance rounded below zero as zero

---
 reliabilityassessment/monte_carlo/cvchk.py  | 3 ++-
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..5e2f3dd 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,8 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    # rounding can leave the variance of equal years a little below zero
+    STDERR = pow(max((SSQ / IYEAR) - XMEAN**2, 0.0) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index ec2dec3..bd4cfee 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -451,10 +451,10 @@ def report(
 
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(SSQA[IAR, J], 0.0) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(SSQP[J], 0.0) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0


From bee41bafa0db52fb43c1484555cf59f8136d90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 29/36] fix: attribute a loss in a pool with exactly balanced
 capacity to one cause

---
 reliabilityassessment/monte_carlo/hrstat.py | 4 ++--
 reliabilityassessment/monte_carlo/pkstat.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/hrstat.py b/reliabilityassessment/monte_carlo/hrstat.py
index b4bdef8..4b93d88 100644
--- a/reliabilityassessment/monte_carlo/hrstat.py
+++ b/reliabilityassessment/monte_carlo/hrstat.py
@@ -56,7 +56,7 @@ def hrstat(
     for j, X in enumerate(MARGIN):
         if X < 0.0:
             LSFLG[j] += 1
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTHA[j, NST] += 1
                 MGNTHA[j, NST] += int(-X)
                 MGNTHP[NST] += int(-X)
@@ -122,7 +122,7 @@ def _hrstat(
         LOLGHP[NST] += 1
 
     LSFLG[MARGIN < 0] += 1
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTHA[:, NST][MARGIN < 0] += 1
         MGNTHA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTHP[NST] -= int(MARGIN[MARGIN < 0].sum())
diff --git a/reliabilityassessment/monte_carlo/pkstat.py b/reliabilityassessment/monte_carlo/pkstat.py
index c5a6d11..49da100 100644
--- a/reliabilityassessment/monte_carlo/pkstat.py
+++ b/reliabilityassessment/monte_carlo/pkstat.py
@@ -53,7 +53,7 @@ def _pkstat(
 
     for j, X in enumerate(MARGIN):
         if X < 0.0:
-            if SUM > 0.0:
+            if SUM >= 0.0:
                 LOLTPA[j, NST] += 1
                 MGNTPA[j, NST] -= int(X)
                 MGNTPP[NST] -= int(X)
@@ -114,7 +114,7 @@ def pkstat(NST, MARGIN, LOLGPA, LOLGPP, LOLTPA, LOLTPP, MGNGPA, MGNGPP, MGNTPA,
     else:
         LOLGPP[NST] += 1
 
-    if SUM > 0.0:
+    if SUM >= 0.0:
         LOLTPA[:, NST][MARGIN < 0] += 1
         MGNTPA[:, NST][MARGIN < 0] -= MARGIN[MARGIN < 0].astype(int)
         MGNTPP[NST] -= MARGIN[MARGIN < 0].sum().astype(int)
-- 
2.43.0


From afa488c2f902fd8d831fdb91718fd0e89cd0b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 30/36] fix: leave prescheduled outages where the input puts
 them

---
 reliabilityassessment/data_processing/pmsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..c148cf4 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -861,6 +861,8 @@ def pmsc(
     for i in range(NGU):
         IND = ID1[i, 0]
         IND = NR0[IND]
+        if ID[IND, 7] == 1:
+            continue  # prescheduled outages stay where the user put them
         ID[IND, 3] = (
             ID1[i, 3] // 168 + 1
         )  # maybe remvoe "+1" here; ID1[i, 3] / 168 + 1 in Fortran
-- 
2.43.0


From baabbcd6fe15242ed7433f301b75bf6ce565ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 31/36] fix: a failed write of the weekly loads before
 maintenance is no longer lost

The output file was opened a second time while the first handle still held
buffered text; that handle was then closed by the garbage collector, which
discards any write error.
---
 reliabilityassessment/data_processing/pmsc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index c148cf4..968b41f 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -303,8 +303,6 @@ def pmsc(
 
     ITC += 1  # increase the table no. by one
 
-    f = open("output.txt", "a")  # can put earlier
-
     if IREPM != 0:
         # 323
         f.write("\n ")
-- 
2.43.0


From 463f8193d15da1800bcf6f681f79a2d8506caf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 32/36] fix: a removed event's slot goes back in front of the
 free slots

remove() left the freed slot linked to the next pending event, so scheduling
two events after one removal overwrote that pending event.
---
 reliabilityassessment/monte_carlo/contrl.py   | 3 ++-
 reliabilityassessment/monte_carlo/narpMain.py | 1 +
 reliabilityassessment/monte_carlo/remove.py   | 8 +++++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/contrl.py b/reliabilityassessment/monte_carlo/contrl.py
index 061563e..55dbeca 100644
--- a/reliabilityassessment/monte_carlo/contrl.py
+++ b/reliabilityassessment/monte_carlo/contrl.py
@@ -133,6 +133,7 @@ def contrl(
     XNEWP,
     IGSEED,
     ILSEED,
+    MFA=None,
 ):
     """
     Call function 'events' to pull the next event from the list and check its time
@@ -241,7 +242,7 @@ def contrl(
             )
             return
         else:
-            MFA, NUMINQ, IPOINT = remove(NUMINQ, ATRIB, EVNTS, IPOINT)
+            MFA, NUMINQ, IPOINT = remove(NUMINQ, ATRIB, EVNTS, IPOINT, MFA)
             CLOCK = ATRIB[0]
             NUMBER = int(ATRIB[1])  # simulation type
 
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index f866195..6c1e6c5 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -313,4 +313,5 @@ def narpMain(TEST_DIR):
         XNEWP,
         IGSEED,
         ILSEED,
+        MFA,
     )
diff --git a/reliabilityassessment/monte_carlo/remove.py b/reliabilityassessment/monte_carlo/remove.py
index 6032241..fc5ac44 100644
--- a/reliabilityassessment/monte_carlo/remove.py
+++ b/reliabilityassessment/monte_carlo/remove.py
@@ -1,7 +1,7 @@
 import sys
 
 
-def remove(NUMINQ, ATRIB, EVNTS, IPOINT):
+def remove(NUMINQ, ATRIB, EVNTS, IPOINT, MFA=None):
     """
     Remove an event from event list
 
@@ -16,6 +16,7 @@ def remove(NUMINQ, ATRIB, EVNTS, IPOINT):
     :param numpy.ndarray EVNTS: 1D array of events
     :param int IPOINT: pointer of the first (already/previously stored) entry;
         initial value = -1
+    :param int MFA: pointer of the first available (i.e. empty) slot before the removal
     :return: (*tuple*) -- MFA: pointer of first available (i.e. empty) slot in the
         event list. IPOINT, NUMINQ: see above
 
@@ -38,6 +39,7 @@ def remove(NUMINQ, ATRIB, EVNTS, IPOINT):
         NUMINQ -= 1
 
         # Update event list pointers...First update MFA
+        NEXT_FREE = MFA
         MFA = IPOINT
         EVNTS[IPOINT + 1] = 0.0
         EVNTS[IPOINT + 2] = 0.0
@@ -46,4 +48,8 @@ def remove(NUMINQ, ATRIB, EVNTS, IPOINT):
         # item is always removed from this position (when called)
         IPOINT = int(EVNTS[IPOINT])
 
+        # the freed slot is followed by the slots that were available before
+        if NEXT_FREE is not None:
+            EVNTS[MFA] = NEXT_FREE
+
         return MFA, NUMINQ, IPOINT
-- 
2.43.0


From c0d34b165a431722d883d524d58bc54b4bbf1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 33/36] fix: control card options that are not numbers are
 refused

---
 reliabilityassessment/data_processing/readInputB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 80ea23d..c8a5cf4 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -43,7 +43,7 @@ def read_card_ZZMC(filepath):
                          designated keys.
     """
 
-    df_ZZMC = _read_table(filepath, "ZZMC.csv")
+    df_ZZMC = _read_table(filepath, "ZZMC.csv").apply(pd.to_numeric)
     data = dict()
 
     """
-- 
2.43.0


From 971acfdc72e84905b3c15b5f6380e964d3952f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 34/36] fix: an upper limit of the energy distribution below 20
 MWh no longer stops the study

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 6c1e6c5..0af1728 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -84,7 +84,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(int(MAXEUE // 20), 1)
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From 1c86db6de29a9bf2575aff61403991b348877c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 35/36] fix: areas that no line connects are not dispatched
 across the gap

---
 reliabilityassessment/monte_carlo/tm1.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/tm1.py b/reliabilityassessment/monte_carlo/tm1.py
index 2397b1b..2f30fa5 100644
--- a/reliabilityassessment/monte_carlo/tm1.py
+++ b/reliabilityassessment/monte_carlo/tm1.py
@@ -40,6 +40,14 @@ def tm1(BN, LP, BLP, NR):
     NOAREA = BN.shape[0]
     NX = NOAREA - 1
     BLP0 = BLP[:, 0].copy()
+
+    # rounding can hide that the matrix of a network in separate parts is singular
+    joined = np.arange(NOAREA) == NR
+    for _ in range(NX):
+        joined[LP[joined[LP[:, 1:3]].any(axis=1), 1:3]] = True
+    if not joined.all():
+        raise ValueError("the lines do not connect all the areas")
+
     BB = admitb(LP, BLP)  # generate B matrix
     BB, LT = admitr(BB, BN, NR)  # generate B matrix without ref bus
 
-- 
2.43.0


From 2ba73168dea4595d21c452a7dc5859141b7851f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:35 +0000
Subject: [PATCH 36/36] fix: the dispatch has room for networks of any size

---
 reliabilityassessment/monte_carlo/conls.py  | 6 ++++--
 reliabilityassessment/monte_carlo/connls.py | 5 +++--
 reliabilityassessment/monte_carlo/tm2.py    | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/conls.py b/reliabilityassessment/monte_carlo/conls.py
index a8a18e5..c723cdc 100644
--- a/reliabilityassessment/monte_carlo/conls.py
+++ b/reliabilityassessment/monte_carlo/conls.py
@@ -83,8 +83,10 @@ def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
     NP1 = 3 * NX + 1
     NP = 2 * NX + 1
     NP2 = NP1 + NX1
-    NMAX1 = 250
-    NMAX2 = 200
+    NL = BLP.shape[0]
+    # room for every column and row assigned below, however large the network is
+    NMAX1 = max(250, 2 * NX + 7 * NX1 + 2 * NL)
+    NMAX2 = max(200, 5 * NX1 + 2 * NL)
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/connls.py b/reliabilityassessment/monte_carlo/connls.py
index 49f537b..ecdca9b 100644
--- a/reliabilityassessment/monte_carlo/connls.py
+++ b/reliabilityassessment/monte_carlo/connls.py
@@ -92,8 +92,9 @@ def connls(BC, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS):
                            And modify several arrays in place.
     """
 
-    NMAX2 = 200
-    NMAX1 = 250
+    # room for every row and column assigned below, however large the network is
+    NMAX2 = max(200, 4 * (NX + 1) + 2 * BLP.shape[0])
+    NMAX1 = max(250, 2 * NX + 5 * (NX + 1) + 2 * BLP.shape[0])
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 481eb7b..98c8ecc 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -150,7 +150,6 @@ def tm2(
         ZB[:NX, :NX] = ZT[:NX, :NX].copy()
         return FLOW, INDIC
 
-    RES = np.zeros((250, 3))  # may use "N" as its size (check later)
     NUNITS = len(PLNDST)
     NNTAB = np.zeros(NUNITS)  # in Fortran, np.zeros(600)
 
@@ -159,6 +158,7 @@ def tm2(
             BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
+        RES = np.zeros((N, 3))
         # NXT = NX + 1 defined but not used in original Fortran
         N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
         net(B, B1, RES, IBAS, BS, M, N)
@@ -238,6 +238,7 @@ def tm2(
             BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
+        RES = np.zeros((N, 3))
         # NXT = NX + 1 defined but not used in original Fortran
         N, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
         net(B, B1, RES, IBAS, BS, M, N)
-- 
2.43.0

