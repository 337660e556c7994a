From 7d83e8de23236b5c3534ef0431ce86575f73188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 01/33] fix: merge keeps every same-named scope of a source

When one source held two siblings of the same name (two instance scopes,
covergroups, covergroup instances or coverpoints) only the last one was
merged and the hits of the others were silently lost.
---
 src/ucis/merge/db_merger.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..6ee62fc 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -33,21 +33,18 @@ class DbMerger(object):
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
 
-        for i,db in enumerate(src_db_l):
+        for db in src_db_l:
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -81,18 +78,17 @@ class DbMerger(object):
         cg_name_m : Dict[str,List] = {}
         cg_name_l = []
       
-        for i,src_scope in enumerate(src_scopes): 
+        for src_scope in src_scopes:
             for src_cg in src_scope.scopes(ScopeTypeT.COVERGROUP):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -115,18 +111,18 @@ class DbMerger(object):
         cg_i_m = {}
         cg_n_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             
             for src_cg_i in src_cg.scopes(ScopeTypeT.COVERINSTANCE):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -142,18 +138,17 @@ class DbMerger(object):
         cp_name_m : Dict[str,List] = {}
         cp_name_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             for cp in src_cg.scopes(ScopeTypeT.COVERPOINT):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
-- 
2.43.0


From e8189f701ebc813a896f53aafc97ddd773ea6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 02/33] fix: merge error path used a method scopes do not have

Reporting a cross over a missing coverpoint raised AttributeError instead
of the intended message.
---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 6ee62fc..98e277b 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -209,7 +209,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From f05af12b8fdde9e280600471b7a2d1fb126e09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 03/33] fix: overall report coverage spans all instances

The overall figure only reflected the covergroups of the last instance
scope, and building a report divided by zero when an instance held no
covergroups (or only zero-weight ones).
---
 src/ucis/report/coverage_report_builder.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..59a0576 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,25 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # Overall coverage spans the covergroups of all instances
+        coverage = 0.0
+        div = 0
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+        if div > 0: coverage /= div
+        self.report.coverage = coverage
+        
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From 72bdf386192adea6c4fd7f2a384d42a549273d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 04/33] fix: report honours the weight of a cross

Crosses always entered the covergroup average with weight 1.
---
 src/ucis/report/coverage_report_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 59a0576..5a6ed12 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -136,6 +136,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
-- 
2.43.0


From ddbf8bb708fd1f376ca3a5d9781ba2158f0af6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 05/33] fix: cross bins are reported hit against their at_least
 threshold

The report stored the (always 1) bin goal, so a cross bin below its
threshold counted as uncovered but was listed as hit.
---
 src/ucis/report/coverage_report_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 5a6ed12..1f16fcb 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -149,7 +149,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 22693fb2fde083f56c9d689d4314999274cd5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 06/33] fix: YAML type coverage keeps ignore and illegal bins
 apart

The type-level ignore/illegal bins were appended to the normal bins, one
copy per instance, and so counted towards type coverage.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From f193a7874f315c4d28944cacbb7fcccb90a353c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 07/33] fix: YAML cross whose first instance lists no bins

Reading raised AttributeError when a later instance did list bins.
---
 src/ucis/yaml/yaml_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..1152d83 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -197,15 +197,14 @@ class YamlReader(object):
                             cr_t_bins_m = {}
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
-                            
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
-- 
2.43.0


From 9ebf95a3b8f27692b1dc1c865f328b6c06683757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 08/33] fix: YAML covergroup without instances, per-instance
 cross operands

A covergroup without instances raised TypeError after the warning, and a
cross naming a coverpoint that only another instance defines was linked to
that other instance's coverpoint instead of being rejected.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 1152d83..208d54c 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -244,8 +244,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in cg_t.instances if cg_t.instances is not None else []:
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From e6ffb23647adec0499ebd0cd11db4c8f6d4c9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 09/33] fix: YAML type coverage honours the at-least threshold

The thresholds given for the instances were dropped from the aggregated
type coverpoints and crosses, so type bins counted as covered after a
single hit.
---
 src/ucis/yaml/yaml_reader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 208d54c..035017f 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -131,6 +131,11 @@ class YamlReader(object):
                         else:
                             cp_t = cp_t_m[str(cp.name)]
                             
+                        # The type threshold is the largest one of the instances
+                        if cp.atleast is not None and (
+                                cp_t.atleast is None or cp.atleast > cp_t.atleast):
+                            cp_t.atleast = int(cp.atleast)
+                            
                         # Now, do bins...
                         if cp.bins is not None:
                             if cp_t.bins is None:
@@ -201,6 +206,10 @@ class YamlReader(object):
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
+                        if cr.atleast is not None and (
+                                cr_t.atleast is None or cr.atleast > cr_t.atleast):
+                            cr_t.atleast = int(cr.atleast)
+                            
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
                             if cr_t.bins is None:
-- 
2.43.0


From 74ff0b26a780acf48db48ab70db461205eed7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 10/33] fix: XML keeps the kind of ignored and illegal cross
 bins

They were written as ordinary bins and read back as ordinary bins, so they
counted towards coverage after a round trip.
---
 src/ucis/xml/xml_reader.py | 23 ++++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..71dc657 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -371,14 +371,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 1, # weight
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -388,17 +388,26 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+        kind_a = self.getAttr(crb_e, "type", "default")
+        kind = UCIS_CVGBIN
+        
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+
+        if (name, kind) in cr_type_i[1].keys():
+            cr_type_i[1][(name, kind)] += count
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][(name, kind)] = count
 
         cr.createBin(
             name,
             srcinfo,
             1, # weight
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..ba4068f 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -279,7 +279,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From fd64e2c7c373ba9596c508b4a2eaf8996990f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 11/33] fix: XML type coverage does not mix bins of different
 kinds

Hits of an ignore or illegal bin were added to the ordinary bin of the
same name when the type coverage was rebuilt.
---
 src/ucis/xml/xml_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 71dc657..75193ed 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -316,11 +316,10 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+        if (cp_bin_name, kind) not in cp_type_i[1].keys():
+            cp_type_i[1][(cp_bin_name, kind)] = cp_bin_count
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][(cp_bin_name, kind)] += cp_bin_count
         
         cp.createBin(
             cp_bin_name,
@@ -333,7 +332,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From 63aaa6aa0492e970b1a6daf809c1756651d4271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 12/33] fix: XML no longer records failed tests as passing

Every test status is a non-zero value, so warning, error, fatal and
missing tests were all written with testStatus="true".
---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index ba4068f..0cb4205 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From cfee76ee7f5d074246e7227879f1c76a517d5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 13/33] fix: TEST_STATUS property reports the status that was
 set

All statuses read back as 1, and setting a status other than OK stored a
boolean that reads as no status at all.
---
 src/ucis/mem/mem_history_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..a7e20ae 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = TestStatusT(value)
         else:
             super().setIntProperty(coverindex, property, value)
     
-- 
2.43.0


From af238011328c2771b04db2387e29d709e7dc1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 14/33] fix: default history-node date uses the library's date
 format

The date defaulted to an integer timestamp, so writing a database with a
history node that was given no test data failed.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index a7e20ae..f3fbcc7 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From 04c05339c224895d6271fea359b7b96f1ede0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 15/33] fix: the ucis command exits non-zero when it fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From d01fabc4f88a041e10d939389cc079e6c3f2c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 16/33] fix: JSON report can hold crosses and names its
 coverpoints

Any cross made the JSON report fail, and coverpoints were emitted without
the name the report schema provides for.
---
 src/ucis/report/format_rpt_json.py | 5 ++---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..9704833 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -131,9 +132,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From 53243b96271ac3c0aa5260fdaa91403ac8c6c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 17/33] fix: text report does not round item coverage to whole
 percents

A coverpoint or cross at 99.6% was shown as 100.000000%.
---
 src/ucis/report/format_rpt_text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/format_rpt_text.py b/src/ucis/report/format_rpt_text.py
index 1e017c0..c9d75ab 100644
--- a/src/ucis/report/format_rpt_text.py
+++ b/src/ucis/report/format_rpt_text.py
@@ -54,7 +54,7 @@ class FormatRptText(FormatIfRpt):
                 self.report_covergroup(cg_i, True)
             
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
-        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage))
+        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
@@ -70,7 +70,7 @@ class FormatRptText(FormatIfRpt):
                     self.report_bins(cp.illegal_bins)
 
     def report_cross(self, cr : CoverageReport.Cross):
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
-- 
2.43.0


From 4797c73f379921531cdec9726302435baea9f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 18/33] fix: COMMENT string property of covergroups,
 coverpoints and crosses reaches the accessor

---
 src/ucis/mem/mem_cvg_scope.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..ca32f48 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -56,4 +57,22 @@ class MemCvgScope(MemScope,CvgScope):
     
     def setComment(self, c:str):
         self.m_comment = c
-        
+
+    def getStringProperty(
+        self,
+        coverindex:int,
+        property:StrProperty)->str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+
+    def setStringProperty(
+        self,
+        coverindex:int,
+        property:StrProperty,
+        value:str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
-- 
2.43.0


From c38db3f5b9a799c55a2951fe537222a6f697ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 19/33] fix: XML reader resolves crossed coverpoints whose
 names have surrounding blanks or are empty

---
 src/ucis/xml/xml_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 75193ed..fea37f4 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -237,7 +237,10 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        # Names may themselves contain surrounding blanks
+                        cp_n = crossExpr.text or ""
+                        if cp_n not in cp_m.keys():
+                            cp_n = cp_n.strip()
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -346,7 +349,9 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = crossExpr.text or ""
+            if cp_n not in cp_m.keys():
+                cp_n = cp_n.strip()
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
-- 
2.43.0


From f9cf31df10e5dff1fb47235e6bb76cc901fda4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 20/33] fix: XmlReader.read starts from empty tables, so a
 reader can be used for several documents

---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index fea37f4..3d08999 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -58,6 +58,9 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From a1fe4ca961c5f2538ec501769806fe85dc78ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 21/33] fix: write dates to XML without converting them through
 local time

Dates that do not exist in the local time zone (daylight saving) came out an hour later.
---
 src/ucis/xml/xml_writer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 0cb4205..6d3ea9b 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -20,7 +20,6 @@ Created on Jan 5, 2020
 @author: ballance
 '''
 
-import time
 import datetime
 from datetime import datetime
 from datetime import date
@@ -322,8 +321,8 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        # The library's dates have no time zone: no conversion via local time
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From f09a403955ec2b7c3a1a0e58d6ba2917b94cab57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 22/33] fix: accept XML dates with fractions of a second or a
 time zone

xsd:dateTime allows both; valid documents were rejected.
---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 3d08999..67e07f9 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -469,7 +469,8 @@ class XmlReader():
     
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
-        val = e.get(name)
+        # The library's dates have neither fractions of a second nor a time zone
+        val = e.get(name).strip()[:19]
         dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
-- 
2.43.0


From 4d265dad93bcddb240c9b68a13540f8dd439f20a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 23/33] fix: ignore comments inside crossExpr when reading XML

The text after a comment was lost, so the crossed coverpoint was not found.
---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 67e07f9..4d784ca 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -55,7 +55,7 @@ class XmlReader():
 
 
     def read(self, file) -> UCIS:
-        tree = etree.parse(file)
+        tree = etree.parse(file, etree.XMLParser(remove_comments=True, remove_pis=True))
         root = tree.getroot()
         self.db = MemUCIS()
         self.file_m = {}
-- 
2.43.0


From d95f117fbec3a129447a7287e98b54bfac605569 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 24/33] fix: write the cost of a test as xsd:decimal

Very small and very large costs were written with an exponent, which made the document invalid.
---
 src/ucis/xml/xml_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 6d3ea9b..cb6fb1e 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -23,6 +23,7 @@ Created on Jan 5, 2020
 import datetime
 from datetime import datetime
 from datetime import date
+from decimal import Decimal
 from typing import Dict, Iterator
 from ucis.cover_index import CoverIndex
 from ucis.cover_type_t import CoverTypeT
@@ -119,7 +120,9 @@ class XmlWriter():
             self.setIfNonNull(histN, "compulsory", h.getCompulsory())
             self.setAttrDateTime(histN, "date", h.getDate())
             self.setIfNonNull(histN, "userName", h.getUserName())
-            self.setIfNonNeg(histN, "cost", h.getCost())
+            if h.getCost() >= 0:
+                # xsd:decimal has no exponent
+                self.setAttr(histN, "cost", format(Decimal(str(h.getCost())), "f"))
             self.setAttr(histN, "toolCategory", h.getToolCategory())
             self.setAttr(histN, "ucisVersion", h.getUCISVersion())
             self.setAttr(histN, "vendorId", h.getVendorId())
-- 
2.43.0


From 9bb57c6f939497a5921b90481fb65003f1c489cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 25/33] fix: let the XML parser decode input files

Files were decoded with the locale's encoding whatever encoding the document declares, so valid documents
in other encodings were rejected or misread.
---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..343a722 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From 1078cefc552ec695ae1a607741c1e1b5590f6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 26/33] fix: write XML files as UTF-8

The text has no encoding declaration, so it has to be UTF-8 whatever the locale.
---
 src/ucis/xml/xml_factory.py | 2 +-
 src/ucis/xml/xml_ucis.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 343a722..8394d09 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -84,7 +84,7 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            fp = open(file_or_filename, "w", encoding="utf-8")
         else:
             fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4bba212 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -8,5 +8,5 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             writer.write(fp, self)
-- 
2.43.0


From c926ee98a3d799784aaa0e683154da1feab6d625 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 27/33] fix: let the YAML parser decode input files

YAML is UTF-8 or UTF-16 by definition, not in the locale's encoding.
---
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..1e6e7c5 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From 3e852de99c436e7e30355b36176d832cc466f69d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 28/33] fix: read YAML documents without a coverage section

The schema allows them; reading failed with an AttributeError.
---
 src/ucis/yaml/yaml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 035017f..a4d6352 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -98,7 +98,7 @@ class YamlReader(object):
 
         coverage = coverage.coverage
         
-        if coverage.covergroups is not None:
+        if coverage is not None and coverage.covergroups is not None:
             for cg_t in coverage.covergroups:
                 self.process_covergroup(cg_t)
                 
-- 
2.43.0


From 0ed1e38d350927d99a7897b2296f35e430d51e32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 29/33] fix: accept YAML documents with dates and other
 non-JSON values in additional properties

The schema allows additional properties of any type; reading failed with a TypeError.
---
 src/ucis/yaml/yaml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index a4d6352..987ec57 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -69,7 +69,7 @@ class YamlReader(object):
         jsonschema.validate(instance=cov_yml, schema=schema)
             
         coverage = self.cvg_ns.CoverageData()
-        coverage = coverage.from_json(json.dumps(cov_yml))
+        coverage = coverage.from_json(json.dumps(cov_yml, default=str))
         
         self.db = MemUCIS()
 
-- 
2.43.0


From 2b89bfc9214e559bd34607b300a57135c32cfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 30/33] fix: keep the crossed coverpoints of a cross when the
 caller changes its list

The list passed to createCross was stored by reference.
---
 src/ucis/mem/mem_cross.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..ddc41b4 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,8 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        # The caller may go on to use its list for another cross
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From 912fdf2bbc8182b0638aeb9a1654ce10c1321528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 31/33] fix: XML reader accepts every spelling of a true test
 status

xsd:boolean allows "1" besides "true"; such tests were read as failed.
---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 4d784ca..0c4a5fd 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -481,7 +481,8 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        # xsd:boolean spells a true value "true" or "1"
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From 9a4d2a8d00cc85232e01fdc4758a9160134fa750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:52 +0000
Subject: [PATCH 32/33] fix: design-unit scopes can hold design units

---
 src/ucis/mem/mem_du_scope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_du_scope.py b/src/ucis/mem/mem_du_scope.py
index 162e7a0..80b2d7d 100644
--- a/src/ucis/mem/mem_du_scope.py
+++ b/src/ucis/mem/mem_du_scope.py
@@ -42,6 +42,7 @@ class MemDUScope(MemScope, DUScope):
         if ScopeTypeT.DU_ANY(type):
             ret = MemDUScope(self, name, srcinfo, weight,
                               source, type, flags)
-            self.add_child(ret)
+            self.addChild(ret)
+            return ret
         else:
             raise UnimplError()
\ No newline at end of file
-- 
2.43.0


From 62cca88f51df4aeb53d3e99f1bb61ed6ca49c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:52 +0000
Subject: [PATCH 33/33] fix: DU_SIGNATURE string property of design units
 reaches the accessor

---
 src/ucis/mem/mem_du_scope.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_du_scope.py b/src/ucis/mem/mem_du_scope.py
index 80b2d7d..6a1d1ce 100644
--- a/src/ucis/mem/mem_du_scope.py
+++ b/src/ucis/mem/mem_du_scope.py
@@ -9,6 +9,7 @@ from ucis.mem.mem_scope import MemScope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.source_info import SourceInfo
 from ucis.source_t import SourceT
+from ucis.str_property import StrProperty
 from ucis.unimpl_error import UnimplError
 
 
@@ -30,7 +31,26 @@ class MemDUScope(MemScope, DUScope):
     
     def setSignature(self, sig):
         self.m_du_signature = sig
-        
+
+    def getStringProperty(
+        self,
+        coverindex:int,
+        property:StrProperty)->str:
+        if property == StrProperty.DU_SIGNATURE:
+            return self.getSignature()
+        else:
+            return super().getStringProperty(coverindex, property)
+
+    def setStringProperty(
+        self,
+        coverindex:int,
+        property:StrProperty,
+        value:str):
+        if property == StrProperty.DU_SIGNATURE:
+            self.setSignature(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
+
     def createScope(self,
                 name : str,
                 srcinfo : SourceInfo,
-- 
2.43.0

