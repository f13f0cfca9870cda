From 2b35174206c3470628be3dd01568aa9c785ff341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:25 +0000
Subject: [PATCH 01/41] fix: keep the grouping of comparisons and boolean
 expressions in generated C code

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..d8615f0 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -628,8 +628,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -706,7 +706,7 @@ class KernelGenerator(ast.NodeVisitor):
         for v in node.values:
             self.visit(v)
         op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        node.ccode = "(%s)" % op_str.join([v.ccode for v in node.values])
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From ea49a223a2dbaa136603461885544eb64cc0d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 02/41] fix: evaluate the fields used in a statement before it
 and test while loops before their body in JIT kernels

---
 parcels/compilation/codegenerator.py | 50 +++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index d8615f0..825f3e8 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -356,6 +356,45 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack = []
         return stmts
 
+    def visit_body(self, body):
+        """Visit a list of statements, each preceded by the field evaluations it needs"""
+        stmts = []
+        for stmt in body:
+            stmt = self.visit(stmt)
+            stmts += stmt if isinstance(stmt, list) else [stmt]
+        return stmts
+
+    def visit_Expr(self, node):
+        node.value = self.visit(node.value)
+        stmts = self.stmt_stack + [node]
+        self.stmt_stack = []
+        return stmts
+
+    def visit_Return(self, node):
+        if node.value is not None:
+            node.value = self.visit(node.value)
+        stmts = self.stmt_stack + [node]
+        self.stmt_stack = []
+        return stmts
+
+    def visit_If(self, node):
+        # The field evaluations of the test come before the whole statement
+        node.test = self.visit(node.test)
+        evals = self.stmt_stack
+        self.stmt_stack = []
+        node.body = self.visit_body(node.body)
+        node.orelse = self.visit_body(node.orelse)
+        return evals + [node]
+
+    def visit_While(self, node):
+        # The field evaluations of the test come before every evaluation of the test
+        node.test = self.visit(node.test)
+        evals = self.stmt_stack
+        self.stmt_stack = []
+        node.body = self.visit_body(node.body) + evals
+        node.orelse = self.visit_body(node.orelse)
+        return evals + [node]
+
     def visit_Call(self, node):
         node.func = self.visit(node.func)
         node.args = [self.visit(a) for a in node.args]
@@ -613,14 +652,9 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
-        ifcode = c.If(node.test.ccode, body, orelse)
-        node.ccode = c.Block([body0, ifcode])
+        node.ccode = c.If(node.test.ccode, body, orelse)
 
     def visit_Compare(self, node):
         self.visit(node.left)
@@ -742,7 +776,7 @@ class KernelGenerator(ast.NodeVisitor):
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
         body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        node.ccode = c.While(node.test.ccode, body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From 8fc209ecbc1e7b4423205e23c32df33b18a5fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 03/41] fix: keep the sum over the members of a summed field
 together in JIT expressions

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 825f3e8..82ca0fb 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -288,7 +288,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -297,9 +297,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
-- 
2.43.0


From 14a93ee39d0020de4ade194aa237c8cc4b1176e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 04/41] fix: check the sampling status of every member of a
 summed vector field

---
 parcels/compilation/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 82ca0fb..75152fc 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -884,8 +884,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
-- 
2.43.0


From 61647e82499f3f6f4eee44d613c84cf851c57b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 05/41] fix: do not share the declared array variables between
 kernels

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 75152fc..337f5b7 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -448,7 +448,6 @@ class KernelGenerator(ast.NodeVisitor):
 
     # Intrinsic variables that appear as function arguments
     kernel_vars = ['particle', 'fieldset', 'time', 'output_time', 'tol']
-    array_vars = []
 
     def __init__(self, fieldset=None, ptype=JITParticle):
         self.fieldset = fieldset
@@ -456,6 +455,7 @@ class KernelGenerator(ast.NodeVisitor):
         self.field_args = collections.OrderedDict()
         self.vector_field_args = collections.OrderedDict()
         self.const_args = collections.OrderedDict()
+        self.array_vars = []
 
     def generate(self, py_ast, funcvars):
         # Replace occurences of intrinsic objects in Python AST
-- 
2.43.0


From 61aee72e72bb3cb22d9af7cfd80bf33f9f734c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:07 +0000
Subject: [PATCH 06/41] fix: use the nodes in the right order in Scipy
 inverse-distance interpolation

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..905a247 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -913,7 +913,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
@@ -962,7 +962,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
-- 
2.43.0


From 598846b415ee9415422b7d10d164b9a4a36c92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:26 +0000
Subject: [PATCH 07/41] fix: do not treat every mesh as spherical when
 reconnecting indices in Scipy mode

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 905a247..a55d78d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -847,7 +847,7 @@ class Field(object):
                 yi -= 1
             elif eta > 1+tol:
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh)
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
             it += 1
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
-- 
2.43.0


From 8687c93642def5a5f5212d622fd5fb07b894416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:31 +0000
Subject: [PATCH 08/41] fix: keep reconnected indices inside the grid at the
 northern fold

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index a55d78d..1e1d44b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -695,7 +695,7 @@ class Field(object):
         if yi > ydim-2:
             yi = ydim-2
             if sphere_mesh:
-                xi = xdim - xi
+                xi = min(xdim - xi, xdim-2)
         return xi, yi
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..8a8dabe 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -158,8 +158,11 @@ static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, i
     }
     if (*yi > ydim-2){
       (*yi) = ydim-2;
-      if (sphere_mesh)
+      if (sphere_mesh){
         (*xi) = xdim - (*xi);
+        if (*xi > xdim-2)
+          (*xi) = xdim-2;
+      }
     }
   }
 }
-- 
2.43.0


From 219144331f3b7147a9ca01558c8a06a3c2bd21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 09/41] fix: pass time_periodic on when building a field from
 an xarray DataArray

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1e1d44b..f650225 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -485,7 +485,7 @@ class Field(object):
 
         grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
         return cls(name, data, grid=grid, allow_time_extrapolation=allow_time_extrapolation,
-                   interp_method=interp_method, **kwargs)
+                   interp_method=interp_method, time_periodic=time_periodic, **kwargs)
 
     def reshape(self, data, transpose=False):
 
-- 
2.43.0


From 66a343f26e3975a021c70434bceb6b8869069e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 10/41] fix: count the time step added for time_periodic in the
 time dimension of the grid

---
 parcels/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index f650225..7063f8a 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -159,6 +159,8 @@ class Field(object):
         self.vmax = vmax
 
         if not self.grid.defer_load:
+            if self.grid._add_last_periodic_data_timestep:
+                self.grid.tdim = self.grid.time.size - 1  # the data does not contain the additional time step yet
             self.data = self.reshape(self.data, transpose)
 
             # Hack around the fact that NaN and ridiculously large values
@@ -172,6 +174,9 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                self.grid.tdim = self.grid.time.size
+                if self.grid.z4d is True and self.grid.depth.shape[0] == self.grid.tdim - 1:
+                    self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1, :]), axis=0)
 
         self._scaling_factor = None
 
-- 
2.43.0


From e307600b9660e7c24c94bb5cf1897a796258c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 11/41] fix: look up several particle IDs in the whole
 collection instead of in a slice

---
 parcels/particlesets/collectionsoa.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..e4a144e 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,17 +369,13 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.intp)
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
 
         # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
+        if index == high:
             # Continue with the same bounds, but drop the median.
             return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
         elif self._data['id'][index] != sublist[median]:
@@ -394,7 +390,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index], dtype=np.intp), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From 61fdcd90d32838a55ac7ab14d76fcfd048d8edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 12/41] fix: do not share particle data when adding particles
 to an empty collection

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index e4a144e..1ba90a7 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -420,8 +420,9 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: np.copy(v) for d, v in same_class._data.items()}
             self._ncount = same_class.ncount
+            self._sorted = same_class._sorted
             return
 
         # Determine order of concatenation and update the sorted flag
-- 
2.43.0


From e394ebf5bcb748e847fd663f9d1e683dd72ec705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 13/41] fix: iterate in reverse over a subset of the particles

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 1ba90a7..9af6f63 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -975,7 +975,7 @@ class ParticleCollectionIteratorSOA(BaseParticleCollectionIterator):
                                 " particleset requires a list or numpy array"
                                 " of indices (of type int or np.int32).")
             if reverse:
-                self._indices = subset.reverse()
+                self._indices = subset[::-1]
             else:
                 self._indices = subset
             self.max_len = len(subset)
-- 
2.43.0


From e6ac4578aa63a3a2e47230b677ab1174e8481247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 14/41] fix: count the particles that are left after removing
 particles by index

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 9af6f63..bd78be6 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -641,7 +641,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = len(self._data['id'])
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From b676c257eacd811b186feafd730dca059eb1b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 15/41] fix: write a particle deleted at the first index of the
 collection

---
 parcels/particlesets/collectionsoa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index bd78be6..cf11b35 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -838,17 +838,19 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = np.where(np.isin(self._data['state'],
                                                             [OperationCode.Delete]))[0]
                     elif type(deleted_only) in [list, np.ndarray]:
-                        indices_to_write = deleted_only
+                        indices_to_write = np.asarray(deleted_only)
+                        if indices_to_write.dtype == bool:
+                            indices_to_write = np.where(indices_to_write)[0]
                 else:
-                    indices_to_write = _to_write_particles(self._data, time)
-                if np.any(indices_to_write) > 0:
+                    indices_to_write = np.where(_to_write_particles(self._data, time))[0]
+                if len(indices_to_write) > 0:
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
                     pfile.maxid_written = np.maximum(pfile.maxid_written, np.max(data_dict['id']))
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From 89da847b6c8eba40c867604b9bfd2da32a5d8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 16/41] fix: raise an exception for an invalid repeatdt

---
 parcels/particlesets/particlesetsoa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..af18efd 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -127,9 +127,9 @@ class ParticleSetSOA(BaseParticleSet):
         self.repeatdt = repeatdt.total_seconds() if isinstance(repeatdt, delta) else repeatdt
         if self.repeatdt:
             if self.repeatdt <= 0:
-                raise('Repeatdt should be > 0')
+                raise ValueError('Repeatdt should be > 0')
             if time[0] and not np.allclose(time, time[0]):
-                raise ('All Particle.time should be the same when repeatdt is not None')
+                raise ValueError('All Particle.time should be the same when repeatdt is not None')
             self.repeatpclass = pclass
             self.repeatkwargs = kwargs
 
-- 
2.43.0


From 3bfae1bca5b8e8a44e41424038356e1dc2ead856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 17/41] fix: release repeated particles where the first ones
 were released

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index af18efd..51d9459 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,11 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            self.repeatlon = np.copy(self._collection.data['lon'])
+            self.repeatlat = np.copy(self._collection.data['lat'])
+            self.repeatdepth = np.copy(self._collection.data['depth'])
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = np.copy(self._collection.data[kwvar])
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From 47eabb1e41eef11c0cd3fa2a071fbc0718b9d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 18/41] fix: accept an array of weights in ParticleSet.density

---
 parcels/particlesets/particlesetsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 51d9459..2d6c518 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -513,7 +513,7 @@ def search_kernel(particle, fieldset, time):
         if isinstance(particle_val, str):
             particle_val = self._collection._data[particle_val]
         else:
-            particle_val = particle_val if particle_val else np.ones(self.size)
+            particle_val = particle_val if particle_val is not None else np.ones(self.size)
         density = np.zeros((field.grid.lat.size, field.grid.lon.size), dtype=np.float32)
 
         for i, p in enumerate(self):
-- 
2.43.0


From ae754368b21ee76a99e01d2425d45d71416bc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 19/41] fix: execute particles without a fieldset over several
 output intervals and backward in time

---
 parcels/particlesets/baseparticleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..a489001 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -423,7 +423,7 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else np.inf
+        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else (np.infty if dt > 0 else - np.infty)
 
         tol = 1e-12
         if verbose_progress is None:
@@ -470,7 +470,7 @@ class BaseParticleSet(NDCluster):
                     for extFunc in postIterationCallbacks:
                         extFunc()
                 next_callback += callbackdt * np.sign(dt)
-            if time != endtime:
+            if time != endtime and self.fieldset is not None:
                 next_input = self.fieldset.computeTimeChunk(time, dt)
             if dt == 0:
                 break
-- 
2.43.0


From 48305a5592156129e97a95882fd77d88e5a9c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 20/41] fix: report a field sampling error as an interpolation
 error in Scipy mode

---
 parcels/kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..a14b39e 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -30,6 +30,7 @@ from parcels.tools.global_statics import get_cache_dir
 from parcels.field import Field
 from parcels.field import FieldOutOfBoundError
 from parcels.field import FieldOutOfBoundSurfaceError
+from parcels.field import FieldSamplingError
 from parcels.field import TimeExtrapolationError
 from parcels.field import NestedField
 from parcels.field import SummedField
@@ -328,6 +329,9 @@ class Kernel(object):
                 except FieldOutOfBoundSurfaceError as fse_z:
                     res = ErrorCode.ErrorThroughSurface
                     p.exception = fse_z
+                except FieldSamplingError as fse:
+                    res = ErrorCode.ErrorInterpolation
+                    p.exception = fse
                 except TimeExtrapolationError as fse_t:
                     res = ErrorCode.ErrorTimeExtrapolation
                     p.exception = fse_t
-- 
2.43.0


From 5dc276a6996aed2508507638a20049c330eab07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 21/41] fix: report sampling at an undefined position as an
 interpolation error in JIT mode

---
 parcels/include/index_search.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 8a8dabe..8ba29ec 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -263,9 +263,9 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   else
     *zeta = 0;
 
-  if ( (*xsi < 0) || (*xsi > 1) ) return ERROR_INTERPOLATION;
-  if ( (*eta < 0) || (*eta > 1) ) return ERROR_INTERPOLATION;
-  if ( (*zeta < 0) || (*zeta > 1) ) return ERROR_INTERPOLATION;
+  if ( !((*xsi >= 0) && (*xsi <= 1)) ) return ERROR_INTERPOLATION;
+  if ( !((*eta >= 0) && (*eta <= 1)) ) return ERROR_INTERPOLATION;
+  if ( !((*zeta >= 0) && (*zeta <= 1)) ) return ERROR_INTERPOLATION;
 
   return SUCCESS;
 }
@@ -400,9 +400,9 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
   else
     *zeta = 0;
 
-  if ( (*xsi < 0) || (*xsi > 1) ) return ERROR_INTERPOLATION;
-  if ( (*eta < 0) || (*eta > 1) ) return ERROR_INTERPOLATION;
-  if ( (*zeta < 0) || (*zeta > 1) ) return ERROR_INTERPOLATION;
+  if ( !((*xsi >= 0) && (*xsi <= 1)) ) return ERROR_INTERPOLATION;
+  if ( !((*eta >= 0) && (*eta <= 1)) ) return ERROR_INTERPOLATION;
+  if ( !((*zeta >= 0) && (*zeta <= 1)) ) return ERROR_INTERPOLATION;
 
   return SUCCESS;
 }
-- 
2.43.0


From 9a748544c2eee7bbe7aa9586276546c24a32dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 22/41] fix: report the position of a sampling error at the
 surface

---
 parcels/tools/statuscodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/tools/statuscodes.py b/parcels/tools/statuscodes.py
index e7bc8be..9c03205 100644
--- a/parcels/tools/statuscodes.py
+++ b/parcels/tools/statuscodes.py
@@ -207,7 +207,7 @@ def recovery_kernel_through_surface(particle, fieldset, time):
         raise ThroughSurfaceError(particle, fieldset)
     else:
         error = particle.exception
-        raise ThroughSurfaceError(particle, fieldset, error.z)
+        raise ThroughSurfaceError(particle, fieldset, error.x, error.y, error.z)
 
 
 def recovery_kernel_time_extrapolation(particle, fieldset, time):
-- 
2.43.0


From ff23bb8decf57860d3206c27d3a12c616f20c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 23/41] fix: use the fieldtype given for each variable in
 from_netcdf

---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..8c366bc 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -369,7 +369,7 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
             inds = indices[var] if (indices and var in indices) else indices
-            fieldtype = fieldtype[var] if (fieldtype and var in fieldtype) else fieldtype
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
             varchunksize = chunksize[var] if (chunksize and var in chunksize) else chunksize  # <varname> -> {<netcdf_dimname>: (<parcels_dimname>, <chunksize_as_int_numeral>) }
 
             grid = None
@@ -409,7 +409,7 @@ class FieldSet(object):
             fields[var] = Field.from_netcdf(paths, (var, name), dims, inds, grid=grid, mesh=mesh, timestamps=timestamps,
                                             allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, deferred_load=deferred_load,
-                                            fieldtype=fieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
+                                            fieldtype=varfieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
 
         u = fields.pop('U', None)
         v = fields.pop('V', None)
-- 
2.43.0


From 22010ed6eb46bce85af4dafca093f06a8d9f9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 24/41] fix: decide on time extrapolation for each field
 separately in from_data

---
 parcels/fieldset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 8c366bc..ceab363 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -104,8 +104,9 @@ class FieldSet(object):
             dims = dimensions[name] if name in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
 
-            if allow_time_extrapolation is None:
-                allow_time_extrapolation = False if 'time' in dims else True
+            fld_extrapolation = allow_time_extrapolation
+            if fld_extrapolation is None:
+                fld_extrapolation = False if 'time' in dims else True
 
             lon = dims['lon']
             lat = dims['lat']
@@ -122,7 +123,7 @@ class FieldSet(object):
                 kwargs['creation_log'] = 'from_data'
 
             fields[name] = Field(name, datafld, grid=grid, transpose=transpose,
-                                 allow_time_extrapolation=allow_time_extrapolation, time_periodic=time_periodic, **kwargs)
+                                 allow_time_extrapolation=fld_extrapolation, time_periodic=time_periodic, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From 9af297a1da379787816050fcb73b5e306ef24ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 25/41] fix: refuse mitgcm indexing on curvilinear s-grids too

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index ceab363..a386c23 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -211,7 +211,7 @@ class FieldSet(object):
             if U.gridindexingtype not in ['nemo', 'mitgcm', 'mom5', 'pop']:
                 raise ValueError("Field.gridindexing has to be one of 'nemo', 'mitgcm', 'mom5' or 'pop'")
 
-            if U.gridindexingtype == 'mitgcm' and U.grid.gtype in [GridCode.CurvilinearZGrid, GridCode.CurvilinearZGrid]:
+            if U.gridindexingtype == 'mitgcm' and U.grid.gtype in [GridCode.CurvilinearZGrid, GridCode.CurvilinearSGrid]:
                 raise NotImplementedError('Curvilinear Grids are not implemented for mitgcm-style grid indexing.'
                                           'If you have a use-case for this, please let us know by filing an Issue on github')
 
-- 
2.43.0


From 42ffcfdd36c8851f9b600654700bb9d47d9174c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 26/41] fix: compare longitudes with longitudes in
 AdvectionAnalytical

---
 parcels/kernels/advection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 456e9c0..a236d10 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -160,7 +160,7 @@ def AdvectionAnalytical(particle, fieldset, time):
         py = np.array([grid.lat[yi, xi], grid.lat[yi, xi + 1], grid.lat[yi + 1, xi + 1], grid.lat[yi + 1, xi]])
     if grid.mesh == 'spherical':
         px[0] = px[0]+360 if px[0] < particle.lon-225 else px[0]
-        px[0] = px[0]-360 if px[0] > particle.lat+225 else px[0]
+        px[0] = px[0]-360 if px[0] > particle.lon+225 else px[0]
         px[1:] = np.where(px[1:] - px[0] > 180, px[1:]-360, px[1:])
         px[1:] = np.where(-px[1:] + px[0] > 180, px[1:]+360, px[1:])
     if withW:
-- 
2.43.0


From 9324d53b2dc724205b05dbb615148f9767215b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 27/41] fix: include the halo in the extent of a curvilinear
 grid

---
 parcels/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..3d8f9f9 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -434,6 +434,7 @@ class CurvilinearGrid(Grid):
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.meridional_halo = halosize
+        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 79c6683b5e1db50bc648f833f0faaebeae13a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 28/41] fix: compare the data types of the fields in
 Field.advancetime

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 7063f8a..2f20ace 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1335,7 +1335,7 @@ class Field(object):
         return data
 
     def advancetime(self, field_new, advanceForward):
-        if isinstance(self.data) is not isinstance(field_new):
+        if type(self.data) is not type(field_new.data):
             logger.warning("[Field.advancetime] New field data and persistent field data have different types - time advance not possible.")
             return
         lib = np if isinstance(self.data, np.ndarray) else da
-- 
2.43.0


From c225ffc9b90e82c4794453d56b976599a6eb2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 29/41] fix: remove deleted particles from every kind of
 particle set, with or without output

---
 parcels/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index a14b39e..7821577 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -383,7 +383,7 @@ class Kernel(object):
             logger.info("Deleted {} particles.".format(len(indices)))
         if len(indices) > 0 and output_file is not None:
             output_file.write(pset, endtime, deleted_only=indices)
-            pset.remove_indices(indices)
+        pset.remove_indices(indices)
 
     def remove_deleted_soa(self, pset, output_file, endtime):
         """
-- 
2.43.0


From c0a105b4e4036de1c376d53bb160100938650979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 30/41] fix: compare the files of the axes before sharing a
 grid between fields in from_netcdf

---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a386c23..4347198 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -397,10 +397,10 @@ class FieldSet(object):
                     processedGrid = False
                     if ((not isinstance(filenames, dict)) or filenames[procvar] == filenames[var]):
                         processedGrid = True
-                    elif isinstance(filenames[procvar], dict):
+                    elif isinstance(filenames[procvar], dict) and isinstance(filenames[var], dict):
                         processedGrid = True
                         for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
+                            if dim in dims:
                                 processedGrid *= filenames[procvar][dim] == filenames[var][dim]
                     if processedGrid:
                         grid = fields[procvar].grid
-- 
2.43.0


From b34f13a653005138748806a4f842c949c9347a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 31/41] fix: write the variables marked once of every particle
 that is written

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index cf11b35..6ce5106 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -857,7 +857,7 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    first_write = (np.isin(np.arange(self._data['id'].size), indices_to_write) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From 115b4f1f265e78bd53f3730fbfa1dd068193259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 32/41] fix: recognise the pieces of variables marked once by
 their own name

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..2552af1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if not file_list[0].endswith('_once.npy') else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From d5c22249190fa54a6658fd6d5275c20a08612aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 33/41] fix: add the halo to the members of summed and nested
 fields too

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 4347198..de5f223 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -967,7 +967,7 @@ class FieldSet(object):
 
         for grid in self.gridset.grids:
             grid.add_periodic_halo(zonal, meridional, halosize)
-        for attr, value in iter(self.__dict__.items()):
+        for value in self.get_fields():
             if isinstance(value, Field):
                 value.add_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From eb798ec50760eec7b5364643c5c1d4b23b28ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 34/41] fix: write only the fields of a field set that can be
 written

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index de5f223..6c13d55 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -985,7 +985,7 @@ class FieldSet(object):
                 self.V.write(filename, varname='vomecrty')
 
             for v in self.get_fields():
-                if (v.name != 'U') and (v.name != 'V'):
+                if isinstance(v, Field) and (v.name != 'U') and (v.name != 'V'):
                     v.write(filename)
 
     def advancetime(self, fieldset_new):
-- 
2.43.0


From 565943d7056955616a50e5e7cceb054747a91645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:10 +0000
Subject: [PATCH 35/41] fix: write the calendar of the time origin with a field

---
 parcels/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 2f20ace..764148c 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1295,7 +1295,9 @@ class Field(object):
         else:
             raise NotImplementedError('Field.write only implemented for RectilinearZGrid and CurvilinearZGrid')
 
-        attrs = {'units': 'seconds since ' + str(self.grid.time_origin)} if self.grid.time_origin.calendar else {}
+        calendar = self.grid.time_origin.calendar
+        attrs = {'units': 'seconds since ' + str(self.grid.time_origin),
+                 'calendar': 'standard' if calendar == 'np_datetime64' else calendar} if calendar else {}
         time_counter = xr.DataArray(self.grid.time,
                                     dims=['time_counter'],
                                     attrs=attrs)
-- 
2.43.0


From 452dd5e0373c52183430583759fc8fbf5b3bf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:41 +0000
Subject: [PATCH 36/41] fix: start a backward deferred run in the window that
 holds its start time

---
 parcels/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 3d8f9f9..69164d7 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -212,7 +212,7 @@ class Grid(object):
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-                if signdt == -1 and self.ti > 0:
+                if signdt == -1 and self.ti > 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
-- 
2.43.0


From 535903179fceb8bd04b9fbb62fde4b52666d3ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:41 +0000
Subject: [PATCH 37/41] fix: take the added periodic time step from the first
 snapshot of the file

---
 parcels/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 764148c..60c774d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1370,7 +1370,10 @@ class Field(object):
         filebuffer.__enter__()
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
-        filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
+            filebuffer.ti = 0  # the added time step is the first one of the first file
+        else:
+            filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 9191d8d5eb57fbd86de333e8d828189e8f827931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 38/41] fix: forget the period of an earlier time once a time
 lies inside the axis

---
 parcels/field.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 60c774d..0310b2d 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1060,12 +1060,13 @@ class Field(object):
             raise TimeExtrapolationError(time, field=self)
         time_index = self.grid.time <= time
         if self.time_periodic:
-            if time_index.all() or np.logical_not(time_index).all():
-                periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
-                if isinstance(self.grid.periods, c_int):
-                    self.grid.periods.value = periods
-                else:
-                    self.grid.periods = periods
+            out_of_range = time_index.all() or np.logical_not(time_index).all()
+            periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0]))) if out_of_range else 0
+            if isinstance(self.grid.periods, c_int):
+                self.grid.periods.value = periods
+            else:
+                self.grid.periods = periods
+            if out_of_range:
                 time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
                 time_index = self.grid.time <= time
                 ti = time_index.argmin() - 1 if time_index.any() else 0
-- 
2.43.0


From 7a8e5c1f7ab08090126b41586293b3c2dcf344e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 39/41] fix: sample the uppermost MOM5 cell from the first
 level in both modes

---
 parcels/field.py          | 5 ++++-
 parcels/include/parcels.h | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 0310b2d..1ed6320 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -937,6 +937,9 @@ class Field(object):
 
     def interpolator3D(self, ti, z, y, x, time, particle=None):
         (xsi, eta, zeta, xi, yi, zi) = self.search_indices(x, y, z, ti, time, particle=particle)
+        if zi == -1 and self.interp_method in ['nearest', 'linear_invdist_land_tracer', 'cgrid_tracer', 'bgrid_tracer']:
+            # Since MOM5 is indexed at cell bottom, the uppermost cell takes the values of the first level
+            (zi, zeta) = (0, 0.)
         if self.interp_method == 'nearest':
             xii = xi if xsi <= .5 else xi+1
             yii = yi if eta <= .5 else yi+1
@@ -1006,7 +1009,7 @@ class Field(object):
                 xsi*(1-eta) * data[yi, xi+1] + \
                 xsi*eta * data[yi+1, xi+1] + \
                 (1-xsi)*eta * data[yi+1, xi]
-            if self.interp_method == 'bgrid_w_velocity' and self.gridindexingtype == 'mom5' and zi == -1:
+            if self.gridindexingtype == 'mom5' and zi == -1:
                 # Since MOM5 is indexed at cell bottom, allow linear interpolation of W to zero in uppermost cell
                 return zeta * f1
             else:
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..c3ceddf 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -517,6 +517,8 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
   } else {
     if ((gridindexingtype == MOM5) && (zi[igrid] == -1)) {
       status = getCell3D(f, xi[igrid], yi[igrid], 0, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
+      // the uppermost cell takes the values of the first level
+      if ((interp_method == NEAREST) || (interp_method == LINEAR_INVDIST_LAND_TRACER)) zeta = 0;
     } else if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2)) {
       status = getCell3D(f, xi[igrid], yi[igrid], zi[igrid]-1, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
     } else {
-- 
2.43.0


From 63ea7f48aa7a16847d6e0a48ee413104fd42ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 40/41] fix: read the levels of the deepest POP cell for
 nearest and inverse-distance interpolation in JIT mode

---
 parcels/include/parcels.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index c3ceddf..34a4c37 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -519,7 +519,8 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
       status = getCell3D(f, xi[igrid], yi[igrid], 0, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
       // the uppermost cell takes the values of the first level
       if ((interp_method == NEAREST) || (interp_method == LINEAR_INVDIST_LAND_TRACER)) zeta = 0;
-    } else if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2)) {
+    } else if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2) &&
+               (interp_method != NEAREST) && (interp_method != LINEAR_INVDIST_LAND_TRACER)) {
       status = getCell3D(f, xi[igrid], yi[igrid], zi[igrid]-1, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
     } else {
       status = getCell3D(f, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
-- 
2.43.0


From 51664be7c61b241c4a774049e4ac52a98648af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:10 +0000
Subject: [PATCH 41/41] fix: take only zeros as land when interpolating small
 tracer values in Scipy mode

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1ed6320..eb7c655 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -903,7 +903,7 @@ class Field(object):
                 (1-xsi)*eta * self.data[ti, yi+1, xi]
             return val
         elif self.interp_method == 'linear_invdist_land_tracer':
-            land = np.isclose(self.data[ti, yi:yi+2, xi:xi+2], 0.)
+            land = self.data[ti, yi:yi+2, xi:xi+2] == 0.
             nb_land = np.sum(land)
             if nb_land == 4:
                 return 0
@@ -955,7 +955,7 @@ class Field(object):
                 f1 = self.data[ti, zi+1, yi, xi]
             return (1-zeta) * f0 + zeta * f1
         elif self.interp_method == 'linear_invdist_land_tracer':
-            land = np.isclose(self.data[ti, zi:zi+2, yi:yi+2, xi:xi+2], 0.)
+            land = self.data[ti, zi:zi+2, yi:yi+2, xi:xi+2] == 0.
             nb_land = np.sum(land)
             if nb_land == 8:
                 return 0
-- 
2.43.0

