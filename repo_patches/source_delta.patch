From c962bb8009b437d7d418fe4e4ecc065bcdacdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/19] fix: split_edge_str mistook a leading nested edge for
 outer parenthesis

star() of an edge, and patterns starting with an edge, failed on every
stored permutation that begins with a nested edge.
---
 gb/hypergraph/edge.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..a2fcf5f 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -93,9 +93,16 @@ def split_edge_str(edge_str):
     """Shallow split into tokens of a string representation of an edge,
     with or without outer parenthesis."""
 
-    edge_inner_str = edge_str
-    if edge_str[0] == '(':
-        edge_inner_str = edge_str[1:-1]
+    tokens = split_inner_str(edge_str)
+    if len(tokens) == 1 and edge_str[0] == '(':
+        tokens = split_inner_str(edge_str[1:-1])
+    return tokens
+
+
+def split_inner_str(edge_inner_str):
+    """Shallow split into tokens of a string representation of a sequence of
+    entities, without outer parenthesis."""
+
     stoks = edge_inner_str.split()
 
     tokens = []
-- 
2.43.0


From 353a9b62e9fd124f7d5bdbbe4099f55a0dead642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 02/19] fix: tokens without digits, such as "-" and ".", are
 symbols

They were classified as numbers, so that every query that met one of them
in the store raised a ValueError.
---
 gb/hypergraph/edge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index a2fcf5f..243a4ec 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -53,6 +53,7 @@ def token_type(token):
     s = token
     pos = 0
     point = False
+    digits = False
 
     while len(s) > 0:
         c = s[0]
@@ -66,9 +67,13 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digits = True
         s = s[1:]
         pos += 1
 
+    if not digits:
+        return TokenType.STRING
     if point:
         return TokenType.DOUBLE
     else:
-- 
2.43.0


From a337a5bbab2a3e5a0e786bb8617d8248b2660c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 03/19] fix: write floats without exponents in the string
 representation of edges

Floats such as 1e-07 or 1e+16 were read back as symbols, so that edges
containing them could not be found again.
---
 gb/hypergraph/edge.py | 13 +++++++++++--
 gb/hypergraph/sql.py  |  5 +----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 243a4ec..80ac123 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import numpy as np
 import gb.hypergraph.symbol as sym
 
 
@@ -140,6 +141,14 @@ def str2edge(edge_str):
         return elements[0]
 
 
+def atom2str(atom):
+    """Convert a non-edge entity to its string representation."""
+    if isinstance(atom, float):
+        # no exponents, which token_type does not recognize as part of a number
+        return np.format_float_positional(atom, trim='0')
+    return str(atom)
+
+
 def nodes2str(edge):
     """Convert a collection of nodes to a string representation (no outer parenthesis)."""
     node_strings = []
@@ -147,7 +156,7 @@ def nodes2str(edge):
         if sym.sym_type(node) == sym.SymbolType.EDGE:
             node_strings.append(edge2str(node))
         else:
-            node_strings.append(str(node))
+            node_strings.append(atom2str(node))
     return ' '.join(node_strings)
 
 
@@ -156,7 +165,7 @@ def edge2str(edge):
     if sym.sym_type(edge) == sym.SymbolType.EDGE:
         return '(%s)' % nodes2str(edge)
     else:
-        return str(edge)
+        return atom2str(edge)
 
 
 def is_negative(edge):
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..3b8e1fa 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -265,10 +265,7 @@ class SQL(Backend):
     def star(self, center):
         """Return all the edges that contain a given entity.
         Entity can be atomic or an edge."""
-        center_id = center
-        if isinstance(center, (list, tuple)):
-            center_id = ed.edge2str(center)
-        return self.str2perms(center_id)
+        return self.str2perms(ed.edge2str(center))
 
     def symbols_with_root(self, root):
         """Find all symbols with the given root."""
-- 
2.43.0


From 73497dd08f4e8f5c3e8dfb244451bdfecab5c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 04/19] fix: pattern2edges failed on some patterns

A pattern made only of wildcards raised an IndexError, and one whose last
entity ends in the last code point before the surrogates or in the last one
of all an error from str_plus_1. Entities are always followed by a space in
stored permutations, so the range now starts with one.
---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 3b8e1fa..bb43564 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,10 +193,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = '%s ' % ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From fff1c6713a800b377c22301395fccca571e530b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/19] fix: adding an edge reset its degree if it was already
 part of another edge

The degree of the edge became 0 and then negative when the other edge was
removed, and its timestamp was overwritten.
---
 gb/hypergraph/sql.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index bb43564..7b9552c 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -152,6 +152,14 @@ class SQL(Backend):
                               {'id': vert_str, 'degree': degree, 'timestamp': timestamp},
                               vert_str)
 
+    def is_vertex(self, vert_str):
+        """Checks if the given vertex, represented as a string, is stored."""
+        cur = self.open_cursor()
+        cur.execute('SELECT id FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
+        res = cur.fetchone() is not None
+        self.close_cursor(cur, local=True, commit=False)
+        return res
+
     def write_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
         self.update_or_insert('perms', {'id': eid}, eid)
@@ -231,7 +239,9 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            edge_str = ed.edge2str(edge)
+            if not self.is_vertex(edge_str):
+                self.add_str(edge_str, 0, timestamp)
             self.write_edge_permutations(edge)
         return edge
 
-- 
2.43.0


From 7233679dd8f67da647de37ed0366963a52b7035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 06/19] fix: degree and timestamp closed the cursor of the
 batch they were called from

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 7b9552c..aa6e8eb 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -308,7 +308,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -320,7 +320,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 67ebb1220cd644d4fc1f58a09d44141f371a4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 07/19] fix: removing an edge forgot the degree it has as part
 of other edges

Its vertex was deleted along with its degree and timestamp while other
edges in the hypergraph still contained it.
---
 gb/hypergraph/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index aa6e8eb..68c8758 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -263,7 +263,9 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            # edges that are part of other edges remain as vertices
+            if self.degree(edge) == 0:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From 30bf62c282cf4c3b70121a0bd6cf9697af4ffdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 08/19] fix: adding several edges inside of a batch ended the
 batch

batch_exec then failed with an AttributeError. Only the outermost batch
now closes the shared cursor.
---
 gb/hypergraph/sql.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 68c8758..835c07d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -102,6 +102,7 @@ class SQL(Backend):
         self.conn = conn
         self.create_tables()
         self.cur = None
+        self.batches = 0
         self.ph = ph
 
     def create_tables(self):
@@ -116,6 +117,7 @@ class SQL(Backend):
         else:
             if self.cur is None:
                 self.cur = self.conn.cursor()
+            self.batches += 1
             return self.cur
 
     def close_cursor(self, cur, local=True, commit=False):
@@ -125,10 +127,12 @@ class SQL(Backend):
                 if commit:
                     self.conn.commit()
         else:
-            if commit:
-                self.conn.commit()
-            self.cur.close()
-            self.cur = None
+            self.batches -= 1
+            if self.batches == 0:
+                if commit:
+                    self.conn.commit()
+                self.cur.close()
+                self.cur = None
 
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
-- 
2.43.0


From 153fc50bdb88a4a886c87bed1eab8aa09e5ca14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 09/19] fix: a batch interrupted by an error was never ended

Every later change was made as a part of that batch, never committed and
lost when the connection was closed.
---
 gb/hypergraph/sql.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 835c07d..c8789c2 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -254,9 +254,11 @@ class SQL(Backend):
         Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
             cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
+            try:
+                for edge in edges:
+                    self.add_raw(edge, timestamp)
+            finally:
+                self.close_cursor(cur, local=False, commit=True)
         else:
             self.add_raw(edges, timestamp)
         return edges
@@ -334,9 +336,11 @@ class SQL(Backend):
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
         cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        try:
+            for f in funs:
+                f(self)
+        finally:
+            self.close_cursor(cur, local=False, commit=True)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From ece2a58dc568fea0566bbf1079c6e1b7c11e5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 10/19] fix: f_all lost its place in a batch that queried the
 hypergraph meanwhile

---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index c8789c2..42e55b3 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -346,9 +346,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # not the cursor of the batch, which is used again between two results
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From ce3c443c4000789803b221569d170259ca188e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 11/19] fix: flushing an empty BatchHyperGraph raised an
 IndexError

---
 gb/hypergraph/batch_hypergraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..cf16032 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -33,8 +33,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
-        self.buffer = []
+        if len(self.buffer) > 0:
+            self.backend.add(self.buffer, timestamp)
+            self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
-- 
2.43.0


From d0bf5fa33469d40ab9dd942ef1bc98122d93e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 12/19] fix: BatchHyperGraph lost the timestamps of edges

Edges were stored with the timestamp of the last one added before the
buffer became full, or with none when flushed at the end.
---
 gb/hypergraph/batch_hypergraph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index cf16032..6cd3098 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -31,21 +31,31 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.backend = hg.backend
         self.buffer = []
         self.buffer_max = buffer_max
+        self.timestamp = -1
 
-    def flush(self, timestamp=-1):
+    def flush(self, timestamp=None):
+        """Adds the edges in the buffer, by default with the timestamp given
+        when they were added to it."""
         if len(self.buffer) > 0:
+            if timestamp is None:
+                timestamp = self.timestamp
             self.backend.add(self.buffer, timestamp)
             self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
+        if timestamp != self.timestamp:
+            # the edges in the buffer have another timestamp
+            self.flush()
+            self.timestamp = timestamp
+
         if isinstance(edges[0], (list, tuple)):
             self.buffer += edges
         else:
             self.buffer.append(edges)
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From 6d916bdd98880cc8c4265495a8e2faecc320f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 13/19] fix: ego always failed with a TypeError

It treated the set of edges as a list and the sets of the next level as
vertices. It now does what the original in ops.clj does.
---
 gb/hypergraph/hypergraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..f78d60f 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -102,13 +102,15 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
+        """Return all the edges found by following at most depth edges from
+        the given entity."""
         if depth > 0:
             edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
+            ids = [item for edge in edges for item in edge[1:]]
             ids = set(ids)
             next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+            return edges.union(*next_edges)
+        return set()
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From 51f20de86ca82d17f96818d31fff6b258031f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 14/19] fix: intersect always failed on its first edge and on
 its first walk

---
 gb/hypergraph/queries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..57732e6 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,7 +38,7 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
@@ -74,7 +74,7 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
+        all_walks.add(tuple(walk))
     else:
         neighbours = vemap[walk[-1]]['neighbours']
         next_steps = [node for node in neighbours if node not in walk]
-- 
2.43.0


From c05f1ef5c51f86e65110a9e8a79f8752e46a4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 15/19] fix: the parent of every token was the parser instead
 of a token

---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From 4d40b0a39d189df42f6d37fa7d7e8a6ead04e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 16/19] fix: no command worked with the mysql backend

The backend expects host, user and password, which were missing or had
other names.
---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From d5638ee6b267c658da4746c1e34f0dfc027d05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 17/19] fix: edges with a relation that is itself an edge were
 not removed

remove_by_pattern and remove_belief passed them to remove as if they were
several edges.
---
 gb/hypergraph/hypergraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index f78d60f..5d4d228 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -98,7 +98,7 @@ class HyperGraph(object):
         """Removes from the hypergraph all edges that match the pattern."""
         edges = self.pattern2edges(pattern)
         for edge in edges:
-            self.remove(edge)
+            self.remove((edge,))
 
     # TODO: this can be optimized
     def ego(self, center, depth):
@@ -140,4 +140,4 @@ class HyperGraph(object):
            removed."""
         self.remove((const.source, edge, source))
         if len(self.sources(edge)) == 0:
-            self.remove(edge)
+            self.remove((edge,))
-- 
2.43.0


From f3192a5f60f72c1b8940c7fb9c88b7999145607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 18/19] fix: str2symbol kept tabs, line breaks and other white
 space

Symbols with any white space cannot be read back from the hypergraph.
---
 gb/hypergraph/symbol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..850effd 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import re
 import string
 import random
 import numpy as np
@@ -110,7 +111,7 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    sym = re.sub(r"\s", "_", sym)
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From 7705a773e107d5f237291aab3f5077ebc6dcc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 19/19] fix: intersect failed with a KeyError if its first seed
 had no edges

---
 gb/hypergraph/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index 57732e6..27eeb10 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -124,7 +124,7 @@ def valid_walk(wmap, nodes, walk):
 
 def intersect(hg, seeds):
     edgesets = [node2edges(hg, seed) for seed in seeds]
-    vemap = {}
+    vemap = {seeds[0]: {'edges': [], 'neighbours': set()}}
     for edges in edgesets:
         edges2vemap(vemap, edges)
     wlks = set()
-- 
2.43.0

