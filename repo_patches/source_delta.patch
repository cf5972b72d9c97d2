From 588ae21427040d96b0ff29f797d87d547b6ec5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/95] fix: etree.write left the output file open, so its
 content could be incomplete on return

---
 lib/daeso/utils/etree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..ec632d4 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -33,7 +33,10 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     even when encoding is the default utf-8
     """
     if not hasattr(file, "write"):
-        file = open(file, "wb")
+        # close the file, so its content is complete when this returns
+        with open(file, "wb") as outf:
+            write(etree, outf, encoding, pprint)
+        return
         
     if pprint:
         indent(etree.getroot())
-- 
2.43.0


From be6062214cfd66d54e7dc00dc3dd19876fd42c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 02/95] fix: etree.equals failed on non-ASCII text, and took
 missing text to differ from blank text

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index ec632d4..3cbb29a 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -53,8 +53,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From 5d11305575dcea107e89669d92c6c71cdb930136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 03/95] fix: corpus != other raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From fa9ba89140a2e12f9f41ed2634f5f10a76791003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 04/95] fix: n * corpus raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From 97c4b720736b17f46d8d96c78fa28ca6daa94b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 05/95] fix: corpus.insert lacked its index argument

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From 18f695098272a7e300aec5244d5575899df7e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/95] fix: corpus.pop did not return the graph pair, and
 failed without index

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..69e3f7a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From 7a62ede98e7877bc717705cf4d8a0c5e73e0dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 07/95] fix: corpus.index did not support its documented start
 and stop arguments

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 69e3f7a..d77c490 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -489,13 +489,13 @@ class ParallelGraphCorpus(list):
         return self._relations
     
     
-    def index(self, graph_pair):
+    def index(self, graph_pair, *args):
         """
         corpus.index(graph_pair, [start, [stop]]) -> integer -- 
         return first index of graph_pair.
         Raises ValueError if the graph_pair is not present.
         """
-        return list.index(self, graph_pair)
+        return list.index(self, graph_pair, *args)
     
           
     def insert(self, index, graph_pair):
-- 
2.43.0


From 73d106de36a38befef683ad1f73715404c590704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 08/95] fix: pair != other compared identity rather than source
 and target

---
 lib/daeso/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
-- 
2.43.0


From 6de697050455799540852adcd6f3309283f7a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 09/95] fix: graph_pair != other compared identity rather than
 content

---
 lib/daeso/pgc/graphpair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..fa47d12 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -106,6 +106,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From 04635b4a94e9042b56643ac9528cf88a5b3cff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 10/95] fix: graph pair meta-data without subelements was
 replaced by an empty element

---
 lib/daeso/pgc/graphpair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index fa47d12..c8cdae7 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,10 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        # an Element without subelements is false, yet may hold text
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 3cb5c2a3908382d44991e46c4fa93bfdd8d3b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 11/95] fix: roots_aligned looked up the source root as target
 root

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index c8cdae7..47789a1 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -331,7 +331,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 52581cccd4abf595e09e21c8632323ca9af90c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 12/95] fix: str(graph_pair) applied list.__str__ to an object
 that is no list

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 47789a1..572242d 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -279,7 +279,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
-- 
2.43.0


From d0e5d65a2478f839c5a18095ae050426ad6f2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 13/95] fix: corpus meta-data without subelements was lost on
 writing

---
 lib/daeso/pgc/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index d77c490..02d938b 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1116,7 +1116,8 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        # an Element without subelements is false, yet may hold text
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
-- 
2.43.0


From cb97b37b9a0dae89c3a7596b75abb3dab4e4864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 14/95] fix: graph pair meta-data without subelements was lost
 on writing

---
 lib/daeso/pgc/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 02d938b..1d8cd48 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1158,8 +1158,11 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
-                graph_pair_elem.append(graph_pair._meta_data)
+            meta_data = graph_pair._meta_data
+            
+            # an Element without subelements is false, yet may hold text
+            if len(meta_data) or meta_data.attrib or meta_data.text:
+                graph_pair_elem.append(meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
-- 
2.43.0


From d0e11b3ea3b6dcea80e0356cdb14b96b00458601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 15/95] fix: reading a corpus with relative graphbank paths
 from a file-like object failed

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1d8cd48..252faf7 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -790,6 +790,9 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # cf. PGCGenerator.generate
+            self.dir = os.getcwd()
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From d5e5baa474a5e55909515b0b5dbb108972e20b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 16/95] fix: elements in user-defined meta-data were taken for
 elements of the corpus itself

---
 lib/daeso/pgc/corpus.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 252faf7..49856fb 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -750,6 +750,8 @@ class PGCParser(object):
     
     def __init__(self):
         self.in_meta_data=False
+        # the meta-data element which is currently open, if any
+        self.meta_data_elem = None
         self.graph_pair = None
         self.default_format = None
         self.relations = []
@@ -806,15 +808,18 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            if self.in_meta_data and elem is not self.meta_data_elem:
+                # user-defined meta-data may use any tag
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
-                    if not self.in_meta_data:
-                        warnings.warn(
-                            "Encountered illegal element <{0}>".format(elem.tag),
-                            DaesoWarning)
+                    warnings.warn(
+                        "Encountered illegal element <{0}>".format(elem.tag),
+                        DaesoWarning)
                     continue
             else:
                 try:
@@ -852,6 +857,7 @@ class PGCParser(object):
 
     def handle_meta_data_elem_start(self, elem):
         self.in_meta_data = True
+        self.meta_data_elem = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
-- 
2.43.0


From c42bf6451cab60c8851740904f911dff08024f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 17/95] fix: comparing a corpus with meta-data to one without
 failed

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 49856fb..a7c6e1c 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From 52dab824d53c2010b1e5eb2342f1222530e107a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 18/95] fix: comparing graphbanks failed if their files do not
 exist

---
 lib/daeso/gb/graphbank.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..ead46c0 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -88,8 +88,17 @@ class GraphBank(object):
         reasons of simplicity and efficiency no attempt is made to analyse
         their contents.)
         """
-        return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+        if not isinstance(other, GraphBank):
+            return False
+        
+        if self._file_path == other._file_path:
+            return True
+        
+        try:
+            return os.path.samefile(self._file_path, other._file_path)
+        except OSError:
+            # at least one of the files does not exist
+            return False
     
     
     def __ne__(self, other):
-- 
2.43.0


From 98a3587a7e8d9d05e5bd9f8acd0030b8275ee08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 19/95] fix: unknown graphbank format was not reported as such

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index ead46c0..1164e3b 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -171,9 +171,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From efa56d4b8df272d46f4a8cef946b90aa4a756a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 20/95] fix: root of graphs in GraphML graphbank was never set

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From 344125297dfb167971d03f13b5ccc543b6e2a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 21/95] fix: end of GraphML elements such as <e> was taken for
 end of node

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..0747903 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,7 +144,7 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
             elif tag == "data":
                 self._end_data()
-- 
2.43.0


From 54695c7763ddbc91239c88db28fde8d33754e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 22/95] fix: default values of GraphML keys were ignored

---
 lib/daeso/gb/graphml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0747903..c1553dc 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -148,8 +148,8 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_node()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
+        elif tag == "default":
+            self._end_default()
                 
         self._context.pop()
         
@@ -206,7 +206,8 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        # keys, and hence their defaults, are defined outside of graphs
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From 3a4a5b9594d8c094133cb93ffa1f79c3712a0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 23/95] fix: GraphML data of a graph was lost or misplaced when
 following a node or edge

---
 lib/daeso/gb/graphml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index c1553dc..1ab1e6a 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -146,6 +146,8 @@ class GraphmlParser(XmlGraphbankParser):
         elif self._graph_wanted():
             if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
         elif tag == "default":
@@ -175,11 +177,11 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From 40ea2d2ee4bc3176c9f4e69d4b9a490ffbbe4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 24/95] fix: parse_file failed without id2graph argument

---
 lib/daeso/gb/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..1bb4b81 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -75,7 +75,8 @@ class XmlGraphbankParser(object):
         if not hasattr(inf, "read"):
             inf = open(inf)
             
-        self._id2graph = id2graph
+        # keep an empty table, because the caller expects it to be filled
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
         
         self._parser.ParseFile(inf)
-- 
2.43.0


From c1967894f359e0843f9e929eb125458a10355cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 25/95] fix: creating an ordered graph from data, or with an
 illegal edge, raised NameError

---
 lib/daeso/graph/ograph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..2b69158 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
@@ -118,7 +119,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            networkx.convert.to_networkx_graph(data,create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 27116030c72c92eb10b250128b355b42828e0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 26/95] fix: nodes added by add_nodes_from shared a single
 attribute dict

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 2b69158..6d257b2 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -219,7 +219,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From e7e04226a6827bc8788835832f29c9c793c94f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 27/95] fix: illegal edge or attributes of a DaesoGraph raised
 NameError

---
 lib/daeso/graph/daesograph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..ba53c87 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
-- 
2.43.0


From 59af09ec2ad6e2e959860742f9bfa2362ca0e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 28/95] fix: non_terminals_iter and non_terminals called a
 method that does not exist

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index ba53c87..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -101,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From ccac6bc6c66cbb3a981f80d9fc5d27e880cb6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 29/95] fix: terminal_yield(0) returned the yield of the root

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 3bc6c6d..2f6aa5f 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -149,7 +149,7 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        queue = [self.root if n is None else n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From 85379601d1fdec659bbe5eb92f1086f2cd982a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 30/95] fix: parsing a graphbank string sparsely failed

---
 lib/daeso/gb/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 1bb4b81..93891b6 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -88,7 +88,7 @@ class XmlGraphbankParser(object):
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, inf=None):
         unresolved = [ '"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -96,7 +96,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        getattr(inf, "name", inf), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From ac7e157010748e30090b8507ffe8ef97aed5e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 31/95] fix: GraphML keys for elements other than graph, node
 and edge raised KeyError

---
 lib/daeso/gb/graphml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 1ab1e6a..10bbe68 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -102,7 +102,9 @@ class GraphmlParser(XmlGraphbankParser):
         key_for = attrs.get("for", "all")
         self._current_key = dict(name=attrs["attr.name"],
                                  type=attrs.get("attr.type", "string"))
-        self._key_table[key_for][attrs["id"]] =  self._current_key
+        # keys may be declared for other elements too (e.g. port or graphml)
+        component = self._key_table.setdefault(key_for, {})
+        component[attrs["id"]] =  self._current_key
                 
         
     def _start_graph(self, attrs):
-- 
2.43.0


From a80adeda49f0e8d57cc64dde342a860017662d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 32/95] fix: sparse parsing of a string in parts was refused
 before its end

---
 lib/daeso/gb/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 93891b6..bb69965 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -59,10 +59,6 @@ class XmlGraphbankParser(object):
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
-            
         return self._id2graph
 
         
@@ -70,6 +66,10 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        # more graphs may follow until all data is parsed
+        if self._sparse:
+            self._check_for_unresolved_graphs()
+            
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
-- 
2.43.0


From 74169335f949a8d5f5a02215aff7e175d59dffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 33/95] fix: ordered graph created from a named graph lost its
 name

---
 lib/daeso/graph/ograph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 6d257b2..426e6b3 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -123,7 +123,9 @@ class ODiGraph(networkx.DiGraph):
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-        self.name=name
+        # do not erase the name of an input graph
+        if name:
+            self.name=name
         self.edge=self.adj
 
         
-- 
2.43.0


From 47f59298db568540cfd3cebaaeb15691775593f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 34/95] fix: AlignEval.write left the report file open, so its
 content could be incomplete on return

---
 lib/daeso/pgc/evaluate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..503c8f0 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,7 +305,12 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            out_file = open(out, "w")
+            try:
+                self.write(out_file)
+            finally:
+                out_file.close()
+            return
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From d85f5bf8b5e526e08a22053739ccfac41f96c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 35/95] fix: pickles of agreement results were left open, so
 their content could be incomplete on return

---
 lib/daeso/pgc/agreement.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..e32d743 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -38,6 +38,15 @@ from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_SPARSE, LOAD_NONE
 from daeso.pgc.evaluate import AlignEval, AlignCounts
 
 
+def _pickle(obj, pickle_fn):
+    pickle_file = open(pickle_fn, "wb")
+    
+    try:
+        pickle.dump(obj, pickle_file)
+    finally:
+        pickle_file.close()
+
+
 def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     """
     Runs an evaluation of inter-annotator agreement. Takes as imput a list of
@@ -53,7 +62,7 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        _pickle((align_eval, tables), pickle_fn)
         
     return align_eval, tables
 
@@ -94,7 +103,7 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        _pickle(tables, pickle_fn)
         
     return tables
            
@@ -124,7 +133,7 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        _pickle(align_eval, pickle_fn)
         
     return align_eval
 
-- 
2.43.0


From 8a171cbbb2d7b72fc02f9cf0da9930fe58b90a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 36/95] fix: words_only option of pgc_diff called a method that
 does not exist and dropped word alignments of the second annotator

---
 lib/daeso/pgc/diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..461b82e 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,7 +77,7 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
+                 graphs.source.node_is_non_terminal(nodes.source) and
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 graphs.source.node_is_non_terminal(nodes.source) and
+                 graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From 98c0a657160306bc190bc6a2e465dfe4f72d8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 37/95] fix: pgc_diff did not write its headings of corpora and
 graph pairs

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 461b82e..a8e32e8 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From a44815cc5bcc0ce2bd1edd7d289417c622190eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 38/95] fix: pgc_diff failed on an empty comment

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index a8e32e8..6454be0 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -173,6 +173,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From 243a447086b23e2cbb1e8485686a97c8aef4314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 39/95] fix: pgc_diff left out alignments with relations that
 are not in the first corpus

---
 lib/daeso/pgc/diff.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6454be0..d05149b 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -47,9 +47,6 @@ def pgc_diff(corpus1, corpus2,
     """
     assert len(corpus1) == len(corpus2)
     
-    if not relations:
-        relations = corpus1.get_relations()
-    
     # counter for numbering the alignments when printing;
     # may be less than the actual number of alignments when identical alignments
     # are not printed (cf. show_ident option)
-- 
2.43.0


From 96f806dd7e235be6ccddeee735d66ae7dfb36279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 40/95] fix: pgc_diff failed on node ids that are no integers

---
 lib/daeso/pgc/diff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index d05149b..630b198 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -128,7 +128,15 @@ def pgc_diff(corpus1, corpus2,
         
         
 def cmp_nodes(nodes1, nodes2):
-    return cmp(int(nodes1.source), int(nodes2.source))
+    return cmp(node_key(nodes1.source), node_key(nodes2.source))
+
+
+def node_key(node):
+    # numerical order for integer ids, which precede any other ids 
+    try:
+        return 0, int(node)
+    except ValueError:
+        return 1, node
 
 
 def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
-- 
2.43.0


From c0573b0e5b97a5d320f5c533fb53483ec2952dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 41/95] fix: pgc_diff failed on nodes without begin and end

---
 lib/daeso/pgc/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 630b198..a9fdec2 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -155,16 +155,16 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
                 graphs.source.node[nodes.source]["label"].encode("utf-8"),
-                graphs.source.node[nodes.source]["begin"],
-                graphs.source.node[nodes.source]["end"],
+                graphs.source.node[nodes.source].get("begin", ""),
+                graphs.source.node[nodes.source].get("end", ""),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
             print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-                graphs.target.node[nodes.target]["begin"],
-                graphs.target.node[nodes.target]["end"],
+                graphs.target.node[nodes.target].get("begin", ""),
+                graphs.target.node[nodes.target].get("end", ""),
                 graphs.target.get_node_token_string(nodes.target))
             print >>out, s.encode("utf-8")
             
-- 
2.43.0


From 03f111d443454fd4d45465cc94e36c878ff374e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 42/95] fix: pgc_diff failed on labels and relations that are
 not ASCII

---
 lib/daeso/pgc/diff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index a9fdec2..1c85a9d 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -146,20 +146,21 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            rel1 = unicode(graph_pair1.get_align(nodes)).upper()
+            rel2 = unicode(graph_pair2.get_align(nodes)).upper()
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
             print >>out, "#%d:" % align_count 
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source].get("begin", ""),
                 graphs.source.node[nodes.source].get("end", ""),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
+            s = "<<< %s / %s >>>" % (rel1, rel2)
+            print >>out, s.encode("utf-8")
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-- 
2.43.0


From 141b9646905d84727d847aca0add2ab860ef2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 43/95] fix: graphs aligned several times were counted as
 single aligned if once in one direction

---
 lib/daeso/gb/gbstats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..96c668b 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -245,8 +245,8 @@ def graph_is_aligned(graph):
 def graph_is_single_aligned(graph):
     # This function can be called after daeso.pgc.pgcstats.graph_pair_stats
     # has added the "from_align" and "to_align" attributes to graphs and nodes.
-    return ( graph.graph.get("from_align") == 1 or
-             graph.graph.get("to_align") == 1 )
+    return ( graph.graph.get("from_align", 0) +
+             graph.graph.get("to_align", 0) == 1 )
     
 
 def root_aligned(graph):
-- 
2.43.0


From 7f50a376b3c7a5952a356327d155f2f489489976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 44/95] fix: pgc_stats.py failed on the type of its threshold
 option

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 696546523eecff90859cedde14c2978988067653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 45/95] fix: empty token string of a node counted as a
 punctuation token rather than as no tokens

---
 lib/daeso/gb/graphml.py       | 4 +++-
 lib/daeso/graph/daesograph.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 10bbe68..3793767 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -121,6 +121,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
+        # likewise, to tell a node without tokens from one with zero tokens
+        self._comp_attrs["tokens"] = None
         self._node = n 
         self._set_defaults()
         
@@ -175,7 +177,7 @@ class GraphmlParser(XmlGraphbankParser):
         # TODO: make error msg more specific
         if not self._comp_attrs.get("label"):
             raise DaesoError("node must have a 'label' attribute")
-        if not self._comp_attrs.get("tokens"):
+        if self._comp_attrs.get("tokens") is None:
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 2f6aa5f..7a07d94 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -140,7 +140,8 @@ class DaesoGraph(ODiGraph):
     
     
     def set_node_token_string(self, n, token_str):
-        self.node[n]["tokens"] = token_str.split(" ")
+        # consecutive blanks do not make up (empty) tokens
+        self.node[n]["tokens"] = [t for t in token_str.split(" ") if t]
         
         
     def terminal_yield(self, n=None, with_punct=True, with_empty=True):
-- 
2.43.0


From d9f7cb400bf5b24b70593e4f6a1d2330a7af5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 46/95] fix: truncated stats table in an object without name
 raised AttributeError

---
 lib/daeso/stats/table.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..359fb66 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -155,7 +155,12 @@ class StatsTable(OrderedDict):
         # doesn't read the summary
                 
         if not hasattr(file, "read"):
-            file = open(file, "r")
+            table_file = open(file, "r")
+            try:
+                self.read(table_file)
+            finally:
+                table_file.close()
+            return
         
         sep_count = 0
         rows = []
@@ -182,7 +187,8 @@ class StatsTable(OrderedDict):
                     else:
                         col.append(float(val))
         else:
-            raise EOFError("stats table truncated in file " + file.name)
+            raise EOFError("stats table truncated in file %s" % 
+                           getattr(file, "name", file))
                         
                         
     def is_separator(self, l):
-- 
2.43.0


From 9f7fe29161736a0e6ab00b18ef69052754c83e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 47/95] fix: stats table with blanks in file names was misread

---
 lib/daeso/stats/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 359fb66..3086945 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -177,7 +177,8 @@ class StatsTable(OrderedDict):
                     continue            
             elif sep_count == 1:
                 # read body
-                value_row = l.strip().split()
+                # only values of the first column may contain blanks
+                value_row = l.strip().rsplit(None, len(self) - 1)
                 
                 for col, val in zip(self.values(), value_row):
                     if col.type == "string":
-- 
2.43.0


From 10172d370f4468fe857a518ca916868e548f738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 48/95] fix: large numbers and file names that are not ASCII
 made stats tables unreadable

---
 lib/daeso/stats/table.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 3086945..66271d9 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -59,7 +59,7 @@ class Column(list):
         assert self.type == "string"
         
         try:
-            widest = max([len(e) for e in self])
+            widest = max([len(encode(e)) for e in self])
         except ValueError:
             # columns is empty
             widest = 0
@@ -67,6 +67,23 @@ class Column(list):
         return max(len(self.label), widest) + margin
     
     
+    def get_number_width(self, margin=1):
+        assert self.type != "string"
+        
+        values = list(self)
+        
+        if self.overall is not None:
+            values.append(self.overall)
+            
+        if self.type == "count":
+            widest = [len("%d" % v) for v in values]
+        else:
+            widest = [len("%.*f" % (self.prec, v)) for v in values]
+        
+        # prevents that large numbers run together with the preceding column
+        return max([self.width] + [w + margin for w in widest])
+    
+    
     
         
 class StatsTable(OrderedDict):
@@ -111,11 +128,11 @@ class StatsTable(OrderedDict):
                 out.write(c.label.ljust(w))
                 format += "%-" + str(w) + "s"
             elif c.type == "count":
-                w = c.width
+                w = c.get_number_width()
                 out.write(c.label.rjust(w))
                 format += "%" + str(w) + "d"
             else:
-                w = c.width
+                w = c.get_number_width()
                 out.write(c.label.rjust(w))
                 format += "%" + str(w) + "." + str(c.prec) + "f"
                 
@@ -133,7 +150,7 @@ class StatsTable(OrderedDict):
         out.write("\n" + tot_width * "-" + "\n")
                 
         for row in zip(*self.values()):
-            out.write(format % row)
+            out.write(format % tuple(map(encode, row)))
             
         out.write(tot_width * "-" + "\n" +
                   overalls + 3 * "\n" )
@@ -218,6 +235,13 @@ class StatsTable(OrderedDict):
     
 
 
+def encode(value):
+    if isinstance(value, unicode):
+        return value.encode("utf-8")
+    else:
+        return value
+    
+
 def percent(a, b):
     return (a / float(b)) * 100
 
-- 
2.43.0


From d26e941a99f496a431b46ec5c8c2487ced2d8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 49/95] fix: stats tables were left open, so their content
 could be incomplete when read

---
 lib/daeso/stats/corpus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..2d11413 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,8 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        out = open(fn, "w")
+        try:
+            table.write(out=out)
+        finally:
+            out.close()
\ No newline at end of file
-- 
2.43.0


From ced98fa36568129e073ed1d11d56dbc1694971f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 50/95] fix: table of an earlier run was reported for a
 subsegment without files

---
 lib/daeso/stats/corpus.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 2d11413..c565a83 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -32,7 +32,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from sys import stderr
 from glob import glob
-from os import getcwd, chdir, path
+from os import getcwd, chdir, path, remove
 
 from daeso.pgc.pgcstats import pgc_stats, PgcStatsTable 
 from daeso.gb.gbstats import GbStatsTable
@@ -166,9 +166,12 @@ def read_subtable(table, fn, verbose=True):
 def write_table(table, fn, verbose=True):
     """
     write a stats table for parallel graph corpora or graph banks
-    unless it is empty
+    unless it is empty, in which case a table from an earlier run is removed
     """
-    if not table.is_empty():
+    if table.is_empty():
+        if path.exists(fn):
+            remove(fn)
+    else:
         if verbose: print "Writing table", fn
         out = open(fn, "w")
         try:
-- 
2.43.0


From 87cc626faa5fca24b5c944f39461d91813aa6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 51/95] fix: written text corpora were left open, so their
 content could be incomplete when read

---
 lib/daeso/ptc/document.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..a6e1496 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -176,6 +176,11 @@ class HitaextDoc(ElementTree):
         # if the encoding is utf-8
         if not hasattr(file, "write"):
             file = open(file, "w")
+            try:
+                self.write(file)
+            finally:
+                file.close()
+            return
         print >>file, '<?xml version="1.0" encoding="utf-8"?>'
         ElementTree.write(self, file, "utf-8")
     
-- 
2.43.0


From ec5a0474d8a129fefd0e54961d4efaa0e7aa5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 52/95] fix: documents next to a text corpus were not found;
 the corpus file itself was returned

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index a6e1496..2ab7c7f 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 4b175368415f645036db33222c7d79613f696cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 53/95] fix: ignored elements without children were not marked,
 and marks and spans of an earlier update remained

---
 lib/daeso/ptc/ielemtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..fb4f669 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,9 +97,14 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # render settings may have changed since a previous update
+        for attr in ("_ignore", "_start", "_end"):
+            elem.attrib.pop(attr, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From 73bf87b222509f813e75c2aed6416e3221d0969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 54/95] fix: a text corpus file was destroyed when the corpus
 could not be written

---
 lib/daeso/ptc/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 2ab7c7f..ad29275 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -25,6 +25,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 
+from cStringIO import StringIO
 from xml.etree.cElementTree import Element, ElementTree, XML
 
 from daeso.ptc.ielemtree import IndexElemTree
@@ -175,9 +176,12 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
+            # serialize first, because opening destroys an existing file
+            buf = StringIO()
+            self.write(buf)
             file = open(file, "w")
             try:
-                self.write(file)
+                file.write(buf.getvalue())
             finally:
                 file.close()
             return
-- 
2.43.0


From 3054876997dd977e9a48b2f1def1240088780ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 55/95] fix: punctuation tokens were not removed from
 preprocessed word n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..27d61be 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From e7645be5f8f709c3439adf1c7f150cd9a0fc925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 56/95] fix: aligning with given document trees lost the links
 of the corpus and kept those of earlier alignments

---
 lib/daeso/ptc/textalign.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 27d61be..012668f 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -102,11 +102,16 @@ class TextAlignerBase(object):
             doc_trees = Pair(
                 get_doc_tree(corpus, "from", self.ignore_tags.source),
                 get_doc_tree(corpus, "to", self.ignore_tags.target))
+        else:
+            # remove alignments which remained from earlier use of the trees
+            for doc_tree in doc_trees:
+                for elem in doc_tree.getiterator():
+                    elem.set("_alignments", [])
             
-            # copy alignments from <aligment> section in corpus
-            # to "_alignments" attribute on elements
-            corpus.inject_alignments(doc_trees.source, 
-                                     doc_trees.target)
+        # copy alignments from <aligment> section in corpus
+        # to "_alignments" attribute on elements
+        corpus.inject_alignments(doc_trees.source, 
+                                 doc_trees.target)
         
         if self.scope_tags:
             scope_tags = self.scope_tags
-- 
2.43.0


From 750e445702a1fc8e722ce5246f6efb6a7626136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 57/95] fix: text alignment without scope tags added a link
 between the roots and lost other links of the source root

---
 lib/daeso/ptc/textalign.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 012668f..15376e2 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -121,6 +121,7 @@ class TextAlignerBase(object):
             source_root = doc_trees.source.getroot()
             target_root = doc_trees.target.getroot()
             scope_tags = Pair([source_root.tag], [target_root.tag])
+            root_alignments = source_root.get("_alignments")
             source_root.set("_alignments", [target_root])
             
         # TODO: semantics not entirely clear. 
@@ -137,6 +138,9 @@ class TextAlignerBase(object):
                 scope_elems = Pair(source_scope_elem, target_scope_elem)
                 self._align_within_scope(doc_trees,
                                          scope_elems)
+                
+        if not self.scope_tags:
+            source_root.set("_alignments", root_alignments)
     
         # finally copy alignment from "_alignments" attribute on elements
         # to <aligment> section in corpus
-- 
2.43.0


From ace451b546e3f2bb5eff269693ccabb2a1c2658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 58/95] fix: evaluation of text alignment took all number-based
 links for one link

---
 lib/daeso/ptc/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..2f4744e 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -92,8 +92,8 @@ def get_alignment(corpus, tag):
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
             alignments.add((
-                link_elem.get('from_id'),
-                link_elem.get('to_id')))
+                link_elem.get('from_id', link_elem.get('from_n')),
+                link_elem.get('to_id', link_elem.get('to_n'))))
             
     return alignments
 
-- 
2.43.0


From ad00ee2f502e98a400d12baecdbbb5ed615e106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 59/95] fix: diff of text alignments confused elements without
 identifier or with different tags, and failed on an absent tag

---
 lib/daeso/ptc/diff.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..09e1c01 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -50,13 +50,13 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
     count = 0
     
     for true_from_elem, pred_from_elem in zip(
-        true_from_tree.tagCountTable[tag],
-        pred_from_tree.tagCountTable[tag]):
+        true_from_tree.tagCountTable.get(tag, []),
+        pred_from_tree.tagCountTable.get(tag, [])):
         
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -87,6 +87,11 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 
     
     
+def same_elem(elem1, elem2):
+    # both trees are of the same document
+    return elem1.tag == elem2.tag and elem1.get("_n") == elem2.get("_n")
+    
+    
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
         corpus = HitaextDoc(file=corpus)
-- 
2.43.0


From e239a06774e64801ac480f6f1210b0c097534384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 60/95] fix: changing the directory of a document whose name is
 one capital letter failed

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..1ef12ae 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[0] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From e960a6d9ae11644c66c561f1bf4a2cf1b54d7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 61/95] fix: converting links from numbers to identifiers
 failed, as the list of corpora was taken for one corpus

---
 bin/ptc_n_to_id.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..8a24d36 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,25 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
     
-corpus.write(args.corpus)
-
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
+    
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
-- 
2.43.0


From ca606bc91eac5682787c44e919627fad9a9bd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 62/95] fix: longest common subsequence of unicode strings was
 a list of characters

---
 lib/daeso/string/lcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/lcs.py b/lib/daeso/string/lcs.py
index 475f7c0..da88061 100644
--- a/lib/daeso/string/lcs.py
+++ b/lib/daeso/string/lcs.py
@@ -75,8 +75,9 @@ def longest_common_subsequence(seq1, seq2):
     LCS.reverse()
     
     # output same type as input seq
-    if type(seq1) == type(seq2) == type(""):
-        return "".join(LCS)
+    if isinstance(seq1, basestring) and isinstance(seq2, basestring):
+        # joins to unicode if one of the strings is unicode 
+        return (seq1[:0] + seq2[:0]).join(LCS)
     elif type(seq1) == type(seq2) == type(()):
         return tuple(LCS)
     else:
-- 
2.43.0


From eddc87b588dee232296d211e7456dcc2a3c91904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 63/95] fix: global alignment was not optimal when elements
 have different gap costs

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 920ea0a76434fd5304413ca824f074d4af5927d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 64/95] fix: local alignment of sequences without any similar
 elements failed

---
 lib/daeso/string/smith_waterman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..d56d1aa 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -100,6 +100,10 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
             
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
+    
+    if not positives:
+        return scores, []
+    
     positives.sort()
     i,j = positives[-1][1]
     
-- 
2.43.0


From 62c17017cc7ab6d54358fd111d4428617132567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 65/95] fix: skip bigrams of long sequences failed

---
 lib/daeso/string/sgram.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/sgram.py b/lib/daeso/string/sgram.py
index 02de036..c47c832 100644
--- a/lib/daeso/string/sgram.py
+++ b/lib/daeso/string/sgram.py
@@ -36,12 +36,9 @@ def skip_bigram_slices(tokens, distance_limit=sys.maxint):
     """
     # distance_limit corresponds to d_skip in Lin04
     # distance_limit=0 gives ordinary bigrams
-    if tokens:
-        return ( [(tokens[0], next_token) 
-                  for next_token in tokens[1:2 + distance_limit]] +
-                 skip_bigram_slices(tokens[1:], distance_limit) )
-    else:
-        return []
+    return [ (token, next_token)
+             for i, token in enumerate(tokens)
+             for next_token in tokens[i + 1:i + 2 + distance_limit] ]
 
 
 def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint,
-- 
2.43.0


From 7fd24a96768d3653a8d1e0575cdb873e4c9033ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 66/95] fix: n-grams of unicode strings failed

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 38e25c407e4b7689f1df202e083d25cddf7befc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 67/95] fix: ROUGE scores of empty or short texts failed

---
 lib/daeso/string/rouge.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..594cea5 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -95,10 +95,10 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
-
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -135,10 +135,10 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 75a065849413e8619d052d4a7f6469d2a19d04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 68/95] fix: ROUGE-SU only accepted tuples

---
 lib/daeso/string/rouge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 594cea5..0963981 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -161,5 +161,5 @@ def rouge_su(tokens1, tokens2, distance_limit=sys.maxint,
     # "We can also obtain ROUGE-SU from ROUGE-S by adding a begin-of-sentence marker
     # at the beginning of candidate and reference sentences."
     # Note however that distance_limit may interfere with this trick!
-    return rouge_s((marker,) + tokens1, (marker,) + tokens2,
+    return rouge_s((marker,) + tuple(tokens1), (marker,) + tuple(tokens2),
                    distance_limit, beta)
-- 
2.43.0


From 7de493196ecfc26ffc74f92160268927d11c043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 69/95] fix: normalized term weights failed for less than two
 documents

---
 lib/daeso/string/tf_idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..8e435d3 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -84,7 +84,7 @@ TODO
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
@@ -151,7 +151,7 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-- 
2.43.0


From acdbc776f9b1a47e685f6624c096b5956365a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 70/95] fix: zeros within spelled out numbers were expressed,
 as in "een miljoen duizend nul"

---
 lib/daeso/string/number.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..eb1002a 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,10 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zeros remain unexpressed, except in zero itself
+            if n == 0:
+                words = "nul"
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
-- 
2.43.0


From 472f99428a0fa45713be7542ac94ad51875379cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 71/95] fix: importing the number module printed numbers

---
 lib/daeso/string/number.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index eb1002a..fcf100f 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -158,9 +158,6 @@ def _digit_triple_to_words(digits):
 
     
              
-print spell_out_number(4401)
-print spell_out_number(6028)
-print spell_out_number(271850)
 
     
     
-- 
2.43.0


From 4fa14677df4d5bc4e9e8c2e740773001594e927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 72/95] fix: pgc_split makes the requested number of parts

---
 bin/pgc_split.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..1b39934 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -77,11 +77,18 @@ log("Reading corpus from " + args.filename)
 corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
-if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
-
-for i in range(0, len(corpus), args.size): 
-    j = min(i + args.size, len(corpus))
+if args.size:
+    bounds = range(0, len(corpus), args.size) + [len(corpus)]
+else:
+    # parts of (nearly) equal size, but no empty ones
+    parts = max(1, min(args.parts, len(corpus)))
+    bounds = [len(corpus) * n // parts for n in range(parts + 1)]
+
+for i, j in zip(bounds, bounds[1:]):
+    if i == j:
+        # empty corpus
+        continue
+    
     part_corpus = corpus[i:j]
     part_filename = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
     log("Writing corpus part " + part_filename)
-- 
2.43.0


From 1041f040aefa02858a528036f7b424da575f6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 73/95] fix: pgc_chdir leaves file elements in meta-data alone

---
 bin/pgc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 7f509bb..3a11d96 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -85,7 +85,7 @@ for fn in args.corpus:
     # because of all the overhead of reading the treebanks etc.
     tree = ElementTree(file=fn)
         
-    for file_el in tree.findall("//file"):
+    for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
         if file_el.text.startswith(from_path):
-- 
2.43.0


From 1c8599438d06b6e77ee6b9d38722d52917aa5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 74/95] fix: pgc_chdir recognises paths surrounded by blanks

---
 bin/pgc_chdir.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 3a11d96..bd47fce 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -88,12 +88,15 @@ for fn in args.corpus:
     for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
-        if file_el.text.startswith(from_path):
+        # blanks around a path are not part of it
+        file_path = file_el.text.strip()
+        
+        if file_path.startswith(from_path):
             if args.verbose or args.test:
                 print >>stderr, "  Changing ", tostring(file_el).strip()
 
             i = len(from_path)
-            file_el.text = to_path + file_el.text[i:]
+            file_el.text = to_path + file_path[i:]
             
             if args.verbose or args.test:
                 print >>stderr, "  to       ", tostring(file_el).strip()
-- 
2.43.0


From b63e91d753a124ef8fb7cfb65c04761efc71ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 75/95] fix: pgc_zip stores a graphbank shared by corpora once

---
 bin/pgc_zip.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index aed0d4e..836aba5 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -50,6 +50,8 @@ from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 def pgc_zip(zip_filename, pgc_filenames):
     zip_arch = zipfile.ZipFile(zip_filename, "w")
     arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
+    # graphbanks shared by corpora are needed once
+    gb_filenames = set()
     
     for corpus_filename in multiglob(pgc_filenames):
         # add corpus to archive
@@ -62,6 +64,11 @@ def pgc_zip(zip_filename, pgc_filenames):
 
         for gb in corpus._graphbanks():
             gb_filename = gb.get_file_path()
+            
+            if gb_filename in gb_filenames:
+                continue
+            
+            gb_filenames.add(gb_filename)
             # add graphbank files to archive
             arch_filename = os.path.join( arch_dir,
                                           os.path.basename(gb_filename) )
-- 
2.43.0


From 78d19e2138fab2dad1fcf8e8216d34fe3502bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 76/95] fix: purge of a graph pair without alignments is
 limited to that pair

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index a7c6e1c..7763f59 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -568,7 +568,7 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From dd33a14041ed795a0d38bae971f4b0cf0b8e314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 77/95] fix: storing a key again left a stale entry in the
 recency list of the cache

---
 lib/daeso/thirdparty/GenericCache/LRUStock.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/thirdparty/GenericCache/LRUStock.py b/lib/daeso/thirdparty/GenericCache/LRUStock.py
index 313a9c9..80149d6 100644
--- a/lib/daeso/thirdparty/GenericCache/LRUStock.py
+++ b/lib/daeso/thirdparty/GenericCache/LRUStock.py
@@ -55,6 +55,8 @@ class LRUStock(object):
         """
         Add given object
         """
+        # an object can be in the list only once
+        self.discard(item)
         node = LRUNode(item)
         self.keys[item] = node
         node.next = self
-- 
2.43.0


From 5cb3953a94e4a82a847e5846dad3ea777776ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 78/95] fix: membership test of cache with keys that are no
 strings, and during updates

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..10868ad 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -195,10 +195,11 @@ class GenericCache(dict):
         """
         return [ key.key for key in self.values.keys() ]
 
+    @synchronized
     def has_key(self, key):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From bde5e89ccb62cdff259e69a09b132dd045cea7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 79/95] fix: list of keys during updates of the cache

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 10868ad..62903dd 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -189,6 +189,7 @@ class GenericCache(dict):
     __delitem__ = remove
     __len__ = size
 
+    @synchronized
     def keys(self):
         """
         Get stored keys
-- 
2.43.0


From d74dcf0a2c0b8780fc6ab9494a18d9c1630f1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 80/95] fix: cache with default_fail could not generate missing
 values

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 62903dd..06bcb5e 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
-- 
2.43.0


From 03c98f8cd907227f7ba75ab3268b962bc59354a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 81/95] fix: makedirs reported no failure to create a directory

---
 lib/daeso/utils/opsys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..214f738 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -36,9 +36,9 @@ def makedirs(path, mode=0777):
     try:
         os.makedirs(path, mode)
     except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+        if not os.path.isdir(path):
+            # anything else than that the dir already exists
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From f5f3f6e7ca0d9057eb5bfbbeca7756f6ed150213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 82/95] fix: assignment with costs greater than sys.maxint did
 not end

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index a130aff..972eba2 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -592,11 +592,11 @@ class Munkres:
 
     def __find_smallest(self):
         """Find the smallest uncovered value in the matrix."""
-        minval = sys.maxint
+        minval = None
         for i in range(self.n):
             for j in range(self.n):
                 if (not self.row_covered[i]) and (not self.col_covered[j]):
-                    if minval > self.C[i][j]:
+                    if minval is None or minval > self.C[i][j]:
                         minval = self.C[i][j]
         return minval
 
-- 
2.43.0


From 420698638882f030823af1f3167e1a2069236c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 83/95] fix: pad_matrix ignored its pad_value

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index 972eba2..76893a3 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -372,11 +372,11 @@ class Munkres:
             new_row = row[:]
             if total_rows > row_len:
                 # Row too short. Pad it.
-                new_row += [0] * (total_rows - row_len)
+                new_row += [pad_value] * (total_rows - row_len)
             new_matrix += [new_row]
 
         while len(new_matrix) < total_rows:
-            new_matrix += [[0] * total_rows]
+            new_matrix += [[pad_value] * total_rows]
 
         return new_matrix
 
-- 
2.43.0


From 7612627d018374680d9c20bfcc7b884f157dc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 84/95] fix: print_matrix failed for zeros and negative numbers

---
 lib/daeso/thirdparty/munkres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index 76893a3..9d40044 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -735,8 +735,6 @@ def print_matrix(matrix, msg=None):
         msg : str
             Optional message to print before displaying the matrix
     """
-    import math
-
     if msg is not None:
         print msg
 
@@ -744,7 +742,7 @@ def print_matrix(matrix, msg=None):
     width = 0
     for row in matrix:
         for val in row:
-            width = max(width, int(math.log10(val)) + 1)
+            width = max(width, len('%d' % val))
 
     # Make the format string
     format = '%%%dd' % width
-- 
2.43.0


From a8266ce938520c57eff95628380bd77e26ab9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 85/95] fix: unknown element with a non-ASCII name made reading
 of a corpus fail

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 7763f59..2e679bd 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -820,7 +820,7 @@ class PGCParser(object):
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
                     warnings.warn(
-                        "Encountered illegal element <{0}>".format(elem.tag),
+                        "Encountered illegal element <%s>" % elem.tag,
                         DaesoWarning)
                     continue
             else:
-- 
2.43.0


From 0b9dbda26d5d237f573ffa297b60cde09b54a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 86/95] fix: errors about non-ASCII graph and bank ids failed
 themselves with UnicodeEncodeError

---
 lib/daeso/gb/parser.py  |  4 ++--
 lib/daeso/pgc/corpus.py | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index bb69965..f7fdb95 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -89,13 +89,13 @@ class XmlGraphbankParser(object):
     
             
     def _check_for_unresolved_graphs(self, inf=None):
-        unresolved = [ '"{0}"'.format(id) 
+        unresolved = [ '"%s"' % id 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
     
         if unresolved:
             msg = ( "graphs with the following id's were not found"
-                    ' in graphbank file "{0}": {1}'.format(
+                    ' in graphbank file "%s": %s' % (
                         getattr(inf, "name", inf), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 2e679bd..752a096 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -844,7 +844,7 @@ class PGCParser(object):
             try:
                 gb.load()
             except IOError, inst:
-                msg = 'Cannot load graphbank from "{0}" ({1})'.format(
+                msg = 'Cannot load graphbank from "%s" (%s)' % (
                     inst.filename,
                     inst.strerror)
                 raise DaesoError(msg)
@@ -1022,29 +1022,29 @@ class PGCParser(object):
     
     def _missing_attrib_error(self, elem, attrib):
         # TODO: report line number
-        raise DaesoError('<{0}> element lacks required "{1}"'
-                         'attribute'.format(
+        raise DaesoError('<%s> element lacks required "%s"'
+                         'attribute' % (
                              elem.tag,
                              attrib))
     
     
     def _missing_source_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('source graph with id "{0}" not found in '
-                         'source graphbank with id "{1}"'.format(
+        raise DaesoError('source graph with id "%s" not found in '
+                         'source graphbank with id "%s"' % (
                              elem.get("from_graph_id"),
                              elem.get("from_bank_id")))
     
     def _missing_target_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('target graph with id "{0}" not found '
-                         'in target graphbank with id "{1}"'.format(
+        raise DaesoError('target graph with id "%s" not found '
+                         'in target graphbank with id "%s"' % (
                              elem.get("to_graph_id"),
                              elem.get("to_bank_id")))  
     
     def _missing_graph_bank_error(self, bank_id):
-        raise DaesoError('graphbank with id "{0}" not found'.format(
-            bank_id))
+        raise DaesoError('graphbank with id "%s" not found' % (
+            bank_id,))
     
     
     #-------------------------------------------------------------------------------
-- 
2.43.0


From 5fde54b713b7b0d8fdec9b39c9344eb1037323c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 87/95] fix: empty table given to parse_string was not filled

---
 lib/daeso/gb/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index f7fdb95..e24b4ab 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,7 +55,7 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
-- 
2.43.0


From 675d7ce0cea466a6560c9c7ca1b049f7d334f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 88/95] fix: number parts of large corpora such that sorted
 order is corpus order

---
 bin/pgc_split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index 1b39934..6476a0c 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -84,13 +84,17 @@ else:
     parts = max(1, min(args.parts, len(corpus)))
     bounds = [len(corpus) * n // parts for n in range(parts + 1)]
 
+# numbers of equal width, so parts in sorted order are in corpus order
+width = max(4, len(str(len(corpus))))
+
 for i, j in zip(bounds, bounds[1:]):
     if i == j:
         # empty corpus
         continue
     
     part_corpus = corpus[i:j]
-    part_filename = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
+    part_filename = "{0}_{1:0{w}d}-{2:0{w}d}{3}".format(root, i + 1, j, ext,
+                                                         w=width)
     log("Writing corpus part " + part_filename)
     part_corpus.write(outf=part_filename, pprint=args.format)
     
-- 
2.43.0


From 87df8826b998921d6ea3a98431c08fe92ff319a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 89/95] fix: exact long option with =value was ambiguous if
 another option starts with it

---
 lib/daeso/thirdparty/argparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 29963a2..d064e03 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -2003,6 +2003,13 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
             action = self._option_string_actions[arg_string]
             return action, arg_string, None
 
+        # if the long option before the "=" is present, return the action
+        if '=' in arg_string and arg_string[1] in self.prefix_chars:
+            option_string, explicit_arg = arg_string.split('=', 1)
+            if option_string in self._option_string_actions:
+                action = self._option_string_actions[option_string]
+                return action, option_string, explicit_arg
+
         # search through all possible prefixes of the option string
         # and all actions in the parser for possible interpretations
         option_tuples = self._get_option_tuples(arg_string)
-- 
2.43.0


From 339203c902184f6dfeac2fa0da263383ec50d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 90/95] fix: failed parses were counted for graphs which are
 left out

---
 lib/daeso/gb/gbstats.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 96c668b..1bd860b 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,11 +134,8 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        if graph.is_failed_parse() and not with_failed_parses:
+            continue
         
         if not root_aligned(graph):
             if with_unaligned_roots:
@@ -164,6 +161,11 @@ def graph_stats(gb,
                 gb_table["CGMA"][i] += 1
         
         gb_table["CG"][i] += 1
+        
+        # only now it is sure that the graph is counted
+        if graph.is_failed_parse():
+            gb_table["CGFP"][i] += 1
+            
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
         node_stats(gb_table, i, graph, with_empty_nodes, with_punc)
-- 
2.43.0


From 96d4c3c1b4584db389130a7fad67603760fa8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 91/95] fix: requested encoding was ignored when writing XML

---
 lib/daeso/ptc/document.py | 6 +++---
 lib/daeso/utils/etree.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index ad29275..50527ca 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -178,15 +178,15 @@ class HitaextDoc(ElementTree):
         if not hasattr(file, "write"):
             # serialize first, because opening destroys an existing file
             buf = StringIO()
-            self.write(buf)
+            self.write(buf, encoding)
             file = open(file, "w")
             try:
                 file.write(buf.getvalue())
             finally:
                 file.close()
             return
-        print >>file, '<?xml version="1.0" encoding="utf-8"?>'
-        ElementTree.write(self, file, "utf-8")
+        print >>file, '<?xml version="1.0" encoding="%s"?>' % encoding
+        ElementTree.write(self, file, encoding, xml_declaration=False)
     
     #===============================================================================
     # document tree methods
diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 3cbb29a..3bc30e7 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -41,8 +41,8 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     if pprint:
         indent(etree.getroot())
         
-    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-    etree.write(file, "utf-8")
+    file.write('<?xml version="1.0" encoding="%s"?>\n' % encoding)
+    etree.write(file, encoding, xml_declaration=False)
     
  
 def equals(elem1, elem2):
-- 
2.43.0


From 9c4b776bad5e1cbd6bc655f7fada81b2a0cf97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 92/95] fix: scores and alignments of an empty sequence could
 not be printed

---
 lib/daeso/string/needleman_wunsch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 081022c..7678081 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -119,9 +119,9 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
 def print_scores(seq1, seq2, scores, stdout=sys.stdout, 
                  header="SCORE MATRIX\n\n", trailer="\n\n"):
     space1a = len(str(len(seq1))) + 1
-    space1b = max([len(str(e)) for e in seq1]) + 1
+    space1b = max([len(str(e)) for e in seq1] or [0]) + 1
     space1 = space1a + space1b
-    space2 = max([len(str(e)) for e in seq2]) + 1
+    space2 = max([len(str(e)) for e in seq2] or [0]) + 1
     space2 = max(space2, 7)
     
     stdout.write(header)      
@@ -157,9 +157,9 @@ def print_scores(seq1, seq2, scores, stdout=sys.stdout,
 def print_alignment(seq1, seq2, alignment, stdout=sys.stdout, 
                     header="ALIGNMENT\n\n", trailer="\n\n"):
     space1a = len(str(len(seq1))) + 1
-    space1b = max([len(str(e)) for e in seq1]) + 1
+    space1b = max([len(str(e)) for e in seq1] or [0]) + 1
     space1 = space1a + space1b
-    space2 = max([len(str(e)) for e in seq2]) + 1
+    space2 = max([len(str(e)) for e in seq2] or [0]) + 1
     space2 = max(space2, len(str(len(seq2))) + 1)
     
     stdout.write(header)      
-- 
2.43.0


From 102b7b7563760ce88e9da7104d57f97f19d57672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 93/95] fix: score tables truncate fractional scores and run
 wide ones together

---
 lib/daeso/string/needleman_wunsch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 7678081..934ae14 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -122,7 +122,9 @@ def print_scores(seq1, seq2, scores, stdout=sys.stdout,
     space1b = max([len(str(e)) for e in seq1] or [0]) + 1
     space1 = space1a + space1b
     space2 = max([len(str(e)) for e in seq2] or [0]) + 1
-    space2 = max(space2, 7)
+    # scores are not necessarily whole numbers
+    cells = dict((pair, "%s:%s" % score) for (pair, score) in scores.items())
+    space2 = max([space2, 7] + [len(s) + 1 for s in cells.values()])
     
     stdout.write(header)      
     
@@ -146,8 +148,7 @@ def print_scores(seq1, seq2, scores, stdout=sys.stdout,
         stdout.write(label.ljust(space1b))
         
         for j in range(len(seq2) + 1):
-            s = "%d:%s" % scores[i,j]
-            stdout.write(s.rjust(space2))
+            stdout.write(cells[i,j].rjust(space2))
             
         stdout.write("\n")
         
-- 
2.43.0


From 48bc0c7c3abbafdea43ff1ab6f4107591476c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:08 +0000
Subject: [PATCH 94/95] fix: keep '--' given as a value of an argument on the
 command line

---
 lib/daeso/thirdparty/argparse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index d064e03..e2f356c 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1844,6 +1844,11 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
             # and add the Positional and its args to the list
             for action, arg_count in zip(positionals, arg_counts):
                 args = arg_strings[start_index: start_index + arg_count]
+                # for everything but PARSER args, strip out the '--' which
+                # ends the options; any other '--' is a value
+                if action.nargs is not PARSER:
+                    kinds = arg_strings_pattern[start_index:]
+                    args = [s for s, kind in zip(args, kinds) if kind != '-']
                 start_index += arg_count
                 take_action(action, args)
 
@@ -2127,10 +2132,6 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
     # Value conversion methods
     # ========================
     def _get_values(self, action, arg_strings):
-        # for everything but PARSER args, strip out '--'
-        if action.nargs is not PARSER:
-            arg_strings = [s for s in arg_strings if s != '--']
-
         # optional argument produces a default when not present
         if not arg_strings and action.nargs == OPTIONAL:
             if action.option_strings:
-- 
2.43.0


From 8e7c8ef2b07919170a07ab3554d417ec8ad38478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:17 +0000
Subject: [PATCH 95/95] fix: warn about discarded meta-data of another corpus
 only if it differs

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 752a096..72acd98 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -697,7 +697,7 @@ class ParallelGraphCorpus(list):
         if self._relations != other._relations:
             raise ValueError("alignment relations of corpora must be identical")
         
-        if self._meta_data != other._meta_data:
+        if not self._meta_data_equal(other):
             warnings.warn("meta data of other corpus is discarded!",
                           DaesoWarning)
         
-- 
2.43.0

