From a87925aa4328106a1ee47f4f9e6257702fdc1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 01/33] fix: copy the vertices and edges when building a Graph
 from another

map() is lazy in Python 3, so Graph(graph) was always empty.
---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..32151ab 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From 1f344467c2a77455ea8ee909da07047f34cde636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 02/33] fix: remove a vertex's edges along with the vertex

map() is lazy in Python 3, so removed vertices stayed in the edge lists of their
neighbours. The vertex queries return lists, as documented, so that the graph can
be edited while looping over them.
---
 solver/graph.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 32151ab..2e2c773 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -55,8 +55,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in self.ingoing_vertices(vertex):
+            self.remove_edge(u, vertex)
+
+        for w in self.outgoing_vertices(vertex):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
@@ -211,7 +214,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward)
 
     def edges(self):
         """Get a list of the edges in this graph"""
@@ -261,7 +264,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex])
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -271,7 +274,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex])
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From d745b3f03958a5d477d34a92d43c4c6a10cbdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 03/33] fix: keep edge values and isolated vertices when
 reversing a Graph

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 2e2c773..ebbb64d 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # copy vertices
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From c77c4ce19667ccc8847296ad4432596f5c5c9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 04/33] fix: report outgoing edges as (source, target)

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index ebbb64d..0ac62b2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From 2e2eb4df7294c22e6e46ddac47db17997a242163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 05/33] fix: call the method in connected_via_outgoing and
 connected_via_ingoing

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 0ac62b2..4eb1123 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -428,7 +428,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -438,7 +438,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From ebe5aef59b4c5df82a40c8492e55bdfb322987d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 06/33] fix: make Graph.connected_subsets return the connected
 components

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 4eb1123..de856df 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -457,13 +457,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From c3274df6a3ee8a6ac415d72d7f3bf247744dd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 07/33] fix: make str(Graph) work in Python 3 and show the
 contents

---
 solver/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index de856df..e49a722 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -468,11 +468,11 @@ class Graph(object):
         return subsets
 
     def __str__(self):
-        s = ""
+        s = []
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s.append("{0}: {{{1}}}".format(i, v))
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(", ".join(s))
-- 
2.43.0


From 1f0b91571abd124883c3f0692b37b35e0cb78b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 08/33] fix: do not lose changes when propagating a MethodGraph

Executing a method cleared the change flags of all its inputs, although other
methods on those inputs had not been executed yet, so their outputs stayed stale.
---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..959cf1a 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -485,11 +485,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 0b486a782644a4cc9c65d7f5eb1808f0495df209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 09/33] fix: execute methods added to a MethodGraph without
 propagation

Such a method was never executed, not even by a later propagate().
---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 959cf1a..88b42f8 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -392,6 +392,9 @@ by multiple methods".format(var))
         if prop:
             # execute includes propagation
             self.execute(met)
+        else:
+            # only the propagation is left for later
+            self._do_execute(met)
 
     def rem_method(self, met):
         """Removes a method"""
-- 
2.43.0


From 9fa6129c35a591bcd60c3624e7fefd0507afaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 10/33] fix: test for missing values by identity

Comparing with == None fails for values such as Vectors and arrays.
---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 88b42f8..014d41b 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -461,7 +461,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -484,7 +484,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From ae08d2edad5d20073cfa927476ec234d704210fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 11/33] fix: make SetMethod use the outputs attribute that
 Method defines

---
 solver/method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 014d41b..664dd8e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
-- 
2.43.0


From b5499a96ba5efefe4a4b12dad005056740cd8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 12/33] fix: make AssignMethod executable and printable

---
 solver/method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 664dd8e..0897580 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -161,15 +161,15 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 24956d90b2b7be3fda166ab9b4ee4411802e8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 13/33] fix: refuse to set a variable that is not in the
 MethodGraph

The unknown variable was recorded before failing, and every later propagation of
the graph then failed as well.
---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 0897580..bf6331d 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -350,6 +350,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From 586888c753e62092337750cc0a370646dbfa3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 14/33] fix: let selection constraints be added to a
 ConstraintGraph and printed

Their list of variables hid the variables() method of Constraint, and constraints
on variables that are not strings could not be printed.
---
 solver/geometric/constraint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..15f7308 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(var) for var in \
+        self._variables]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -83,14 +84,15 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join([str(var) for var in \
+        self._variables]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +121,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join([str(var) for var in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From 0810aacb3d7fd041f2dd3efc0682f41c3b73eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 15/33] fix: make relations between named points hashable and
 printable

Point names were wrapped in arrays, which are not hashable, and a class that
defines __eq__ loses its inherited __hash__ in Python 3.
---
 solver/geometric/relation.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..5da937d 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -20,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
@@ -49,12 +48,12 @@ class Distance(PointRelation):
 
         :param a: first point
         :param b: second point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -64,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining equality removes the inherited hash
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -77,13 +79,13 @@ class Angle(PointRelation):
         :param a: first point
         :param b: second point
         :param c: third point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
-        :type c: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
+        :type c: object
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
@@ -94,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining equality removes the inherited hash
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From 4f412825c563df249756f7309c8d1ba0f568408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 16/33] fix: count the angles of a Hedgehog with the imported
 function

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..219a0cd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From 4b808798e605dd3cc4b99260e42e73b03b8d6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 17/33] fix: call the methods in Cluster.common_constraints

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 219a0cd..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 0e7411ba4d1c20a3b43b7bbc547869aee328fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 18/33] fix: do not count a Hedgehog's central variable as one
 of the others

Hedgehog(1, [1, 2]) was accepted although it has only two unique variables.
---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..560e1fd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the other variables
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From b790152ec1ef94a8dc68ba8521a2759d8f36e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 19/33] fix: use abs in cl_int

math.abs does not exist, so any line that crossed a circle raised an error.
---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 99e952adac0c2ccf198761030564900714e3582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 20/33] fix: check both rays in rr_int, and allow parallel rays

Parallel rays raised an IndexError, and points behind the second ray were returned.
---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..87f26b7 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From e9e9dbbbbe6d39e45faa27ff3f575d0eb200ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 21/33] fix: compare matrix dimensions by value

Identity comparison of sizes fails for dimensions above 256.
---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 87f26b7..927bae3 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
@@ -197,7 +197,7 @@ class Vector(Matrix):
                     raise Exception('Matrix must be a single column')
 
                 # check that the matrix has 2 elements
-                if x.num_rows is not 2:
+                if x.num_rows != 2:
                     raise Exception('Matrix must have two rows')
 
                 y = x.elements[1][0]
-- 
2.43.0


From 5c25c2caa658563281928f9d181bfc6d201a40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 22/33] fix: let vectors be transposed

The transpose of a column vector is not a column vector.
---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 927bae3..5a52a46 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From c2b946cce3f743f0b2097d03e935ee44c1bb4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 23/33] fix: only call a Vector negative if all its coordinates
 are

This is what the documentation says; (1, -1) was negative.
---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 5a52a46..c891405 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -314,7 +314,7 @@ class Vector(Matrix):
         Assumes 0 is positive
         """
 
-        return not self.is_positive()
+        return self.x < 0 and self.y < 0
 
     def tol_eq(self, other, *args, **kwargs):
         return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \
-- 
2.43.0


From 8927da2bc1d399346fc8d08ac073fcb9cea189a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 24/33] fix: align configurations on points that are apart

If the first two shared points happened to coincide, rotated copies of a
configuration were unequal, and merges left the other shared points apart.
---
 solver/geometric/configuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..5293a93 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -171,9 +171,11 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
+            # get a shared variable and the shared variable furthest from it, since
+            # points on top of each other do not define a direction
             v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            v2 = max(shared - set([v1]), key=lambda v: distance_2p( \
+            self.mapping[v1], self.mapping[v]))
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
-- 
2.43.0


From 1b929c7abbd0f872a61175a6d29a628f5972d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 25/33] fix: set the underconstrained flag of merged
 configurations

---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 5293a93..0f38ce1 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -125,6 +125,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 437c1ad5407da8323d2e760e9d57ce8ed5d8e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 26/33] fix: compare configurations with other objects

If the hash values happened to be equal an AttributeError was raised.
---
 solver/geometric/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 0f38ce1..efa9e51 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -237,7 +237,9 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            return False
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0


From 3c271b2ed0dd8ab1e39f875797b969d012e402e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 27/33] fix: let constraints without variables be removed again

---
 solver/geometric/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 15f7308..29c5fec 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -286,6 +286,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph, as there may be no variables
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
-- 
2.43.0


From 291354cf7edd715a49da517ab391c2ae6894db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 28/33] fix: intersect lines that are almost horizontal

---
 solver/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index c891405..f0e97b4 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -543,17 +543,15 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    # zero if the lines are parallel
+    f = v1.x * v2.y - v1.y * v2.x
+
+    if Scalar.tol_zero(f):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / f
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From d0676abbe587924009ffe0c59f41a500ba96faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 29/33] fix: print function constraints whose function has no
 name

---
 solver/geometric/constraint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 29c5fec..851d92c 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -124,7 +124,10 @@ class FunctionConstraint(SelectionConstraint):
         self._variables]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
+        # not every callable has a name
+        function = getattr(self.function, "__name__", self.function)
+
+        return "{0}({1}, {2})".format(self.name, function, \
         ", ".join([str(var) for var in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
-- 
2.43.0


From f87b22b0cc064fc849d21751d5f8adc53c1eca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 30/33] fix: remove bidirectional loops without an error

A loop from a vertex to itself is its own reverse, so it was gone already when
the reverse edge was removed, and the removal raised an exception.
---
 solver/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index e49a722..ad515b4 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -123,7 +123,10 @@ class Graph(object):
         """
 
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # a loop is its own reverse
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 0a4b37f55fecd2b85073b5df0863b439f661b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 31/33] fix: intersect circles with lines and rays whatever the
 length of the direction

---
 solver/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index f0e97b4..fc380c1 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -480,8 +480,11 @@ def cl_int(p1, r, p2, v):
     D = p.x * v.y - v.x * p.y
     E = r * r * d2 - D * D
 
-    # check that d2 and E are both > 0 within tolerance
-    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
+    # squared half of the chord, which the length of v does not affect
+    h2 = E / d2
+
+    # check that h2 is > 0 within tolerance
+    if Scalar.tol_gt(h2, 0):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
@@ -489,7 +492,7 @@ def cl_int(p1, r, p2, v):
         y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
-    elif Scalar.tol_zero(E):
+    elif Scalar.tol_zero(h2):
         x1 = p1.x + D * v.y / d2
         y1 = p1.y + -D * v.x / d2
 
@@ -520,7 +523,7 @@ def cr_int(p1, r, p2, v):
     # loop over solutions of the circle and line intercept
     for s in cl_int(p1, r, p2, v):
         # check if a is >= 0 within tolerance
-        if Scalar.tol_ge((s - p2).dot(v), 0):
+        if Scalar.tol_ge((s - p2).dot(v) / v.length, 0):
             solutions.append(s)
 
     return solutions
-- 
2.43.0


From 8ad3e1e046ea86d3f6c6ca03dfe4d0154056dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 32/33] fix: intersect lines and rays whatever the length of
 their directions

---
 solver/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index fc380c1..cb02186 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -549,7 +549,10 @@ def ll_int(p1, v1, p2, v2):
     # zero if the lines are parallel
     f = v1.x * v2.y - v1.y * v2.x
 
-    if Scalar.tol_zero(f):
+    # tolerance in proportion to the lengths of the directions
+    tol = Scalar.abs_tol * v1.length * v2.length
+
+    if Scalar.tol_zero(f, abs_tol=tol):
         # lines don't intersect
         return []
 
@@ -580,7 +583,7 @@ def lr_int(p1, v1, p2, v2):
     s = ll_int(p1, v1, p2, v2)
 
     # check if s > 0 and a >= 0 within tolerance
-    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
+    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2) / v2.length, 0):
         return s
     else:
         # lines intersect behind ray
@@ -608,8 +611,8 @@ def rr_int(p1, v1, p2, v2):
     s = ll_int(p1, v1, p2, v2)
 
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
-    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
+    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1) / v1.length, 0) \
+    and Scalar.tol_ge((s[0] - p2).dot(v2) / v2.length, 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From 113c785078b648f140009764cebd43a4caaccdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 33/33] fix: measure vectors of very large and very small
 coordinates

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index cb02186..19a738b 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -298,7 +298,7 @@ class Vector(Matrix):
     def length(self):
         """Length between point defined by coordinates and the origin"""
 
-        return math.sqrt(self.x * self.x + self.y * self.y)
+        return math.hypot(self.x, self.y)
 
     def is_positive(self):
         """Checks if the coordinates are all positive
-- 
2.43.0

