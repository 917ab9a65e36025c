From e6849d5c8865add813728348a758aa10649dac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 01/26] fix: use np.isin, np.in1d no longer exists in supported
 numpy releases

---
 hyperstatic/core/fe_model/assembly.py |  6 +++---
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..050d8df 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From 4bfd781d105dc00a0faac8b0ab6c793c95c08e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 02/26] fix: write saved models, assemblies and results
 atomically

A failed or interrupted save truncated the file in place, so a full disk or a
crash destroyed the previously saved model, assembly or result.
---
 hyperstatic/common/storage.py         | 35 +++++++++++++++++++++++++++
 hyperstatic/core/__init__.py          |  3 ++-
 hyperstatic/core/fe_model/assembly.py |  3 ++-
 hyperstatic/core/fe_solver/dynamic.py | 11 ++++++---
 hyperstatic/core/fe_solver/static.py  | 11 ++++++---
 5 files changed, 53 insertions(+), 10 deletions(-)
 create mode 100644 hyperstatic/common/storage.py

diff --git a/hyperstatic/common/storage.py b/hyperstatic/common/storage.py
new file mode 100644
index 0000000..3b82ac9
--- /dev/null
+++ b/hyperstatic/common/storage.py
@@ -0,0 +1,35 @@
+# -*- coding: utf-8 -*-
+import os
+import uuid
+from contextlib import contextmanager
+
+@contextmanager
+def atomic_open(path:str):
+    """以二进制写方式打开文件，仅在全部写入并落盘后才替换目标文件
+
+    The data goes to a temporary file beside the target, which is synchronised to
+    disk and renamed over the target when the block ends normally. At any moment,
+    also after an error or a crash, the target has its former or its complete new content.
+
+    Args:
+        path (str): 目标文件路径
+    """
+    tmp="%s.%s.tmp"%(path,uuid.uuid4().hex)
+    try:
+        with open(tmp,'xb') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp,path)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
+    if os.name=='posix': #make the new directory entry durable
+        fd=os.open(os.path.dirname(os.path.abspath(path)),os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..ffc69e6 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -16,6 +16,7 @@ from hyperstatic.core.fe_post.beam import BeamResultResolver
 from hyperstatic.core.fe_solver.dynamic import ModalSolver
 from hyperstatic.core.fe_solver.static import StaticSolver
 from hyperstatic.common.csys import Cartesian
+from hyperstatic.common.storage import atomic_open
 from hyperstatic.core.fe_post.node import NodeResultResolver
 
 class Api(object):
@@ -50,7 +51,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            with open(os.path.join(self.__workpath,filename+'.sep'),'wb+') as f:
+            with atomic_open(os.path.join(self.__workpath,filename+'.sep')) as f:
                 pickle.dump(self,f)
             return True
         except Exception as e:
diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 050d8df..8458882 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -5,6 +5,7 @@ import numpy as np
 from typing import Dict,List
 import scipy.sparse as spr
 import logging
+from hyperstatic.common.storage import atomic_open
 from hyperstatic.core.fe_model.load.loadcase import ModalCase, ResponseSpectrumCase
 from hyperstatic.core.fe_model.model import Model
 from hyperstatic.core.fe_model.load import LoadCase
@@ -310,7 +311,7 @@ class Assembly(object):
     def save(self,path,filename):
         if not os.path.exists(path):
             os.mkdir(path)
-        with open(os.path.join(path,filename),'wb+') as f:
+        with atomic_open(os.path.join(path,filename)) as f:
             pickle.dump(self,f)
 
 if __name__ == '__main__':
diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..feae0b2 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -12,6 +12,7 @@ from scipy import linalg
 from scipy import sparse as spr
 import scipy.sparse.linalg as sl
 
+from hyperstatic.common.storage import atomic_open
 from hyperstatic.core.fe_model.model import Model
 from hyperstatic.core.fe_model.load.loadcase import ModalCase,TimeHistoryCase
 from hyperstatic.core.fe_solver import Solver
@@ -66,10 +67,12 @@ class ModalSolver(Solver):
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
         logging.info('Done!')
-        path=os.path.join(self.workpath,casename+'.d') #vibration mode, ad nodal displacement
-        np.save(path,mode_)
-        path=os.path.join(self.workpath,casename+'.o') #omega
-        np.save(path,omega2s)
+        path=os.path.join(self.workpath,casename+'.d.npy') #vibration mode, ad nodal displacement
+        with atomic_open(path) as f:
+            np.save(f,mode_)
+        path=os.path.join(self.workpath,casename+'.o.npy') #omega
+        with atomic_open(path) as f:
+            np.save(f,omega2s)
         return True
         
     def solve_ritz(model:Model,n,F):
diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index c90d1fc..04d965d 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -13,6 +13,7 @@ from scipy import linalg
 from scipy import sparse as spr
 import scipy.sparse.linalg as sl
 
+from hyperstatic.common.storage import atomic_open
 from hyperstatic.core.fe_model.model import Model
 from hyperstatic.core.fe_model.load.loadcase import StaticCase
 from hyperstatic.core.fe_solver import Solver
@@ -131,8 +132,9 @@ class StaticSolver(Solver):
 
         d_=np.array(d).reshape((1,assembly.node_count*6)) #row-first, d_ contains all the displacements including the restraint DOFs
 
-        path=os.path.join(self.workpath,casename+'.d')
-        np.save(path,d_)
+        path=os.path.join(self.workpath,casename+'.d.npy')
+        with atomic_open(path) as f:
+            np.save(f,d_)
         return True
    
     def solve_2nd_order(self,casename,precase=None)->bool:
@@ -166,8 +168,9 @@ class StaticSolver(Solver):
 
         d_=delta.reshape((1,assembly.node_count*6)) #row-first, d_ contains all the displacements including the restraint DOFs
 
-        path=os.path.join(self.workpath,casename+'.d')
-        np.save(path,d_)
+        path=os.path.join(self.workpath,casename+'.d.npy')
+        with atomic_open(path) as f:
+            np.save(f,d_)
         return True
 
     def solve_3rd(self):
-- 
2.43.0


From 1a32a92951d66ac87c323ddf60e0ddb2ecd53d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 03/26] fix: let Api.solve_modal pass the number of modes to
 the solver

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index feae0b2..4a1f0e4 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -34,11 +34,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,num:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if num is None else num
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From 7e38e72ad2e6ae1f8aec65f987d3c5dca8c4c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 04/26] fix: make modal results reproducible with a fixed start
 vector

---
 hyperstatic/core/fe_solver/dynamic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 4a1f0e4..321666a 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -4,6 +4,7 @@ Created on Fri Dec 30 10:26:29 2016
 
 @author: HZJ
 """
+import inspect
 import os
 
 import logging
@@ -62,7 +63,12 @@ class ModalSolver(Solver):
         if k>assembly.DOF:
             logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
             k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        #a fixed start vector, otherwise the signs (and the basis of repeated modes) differ from run to run
+        rng=np.random.default_rng(0)
+        settings={'v0':rng.uniform(-1,1,K_.shape[0])}
+        if 'rng' in inspect.signature(sl.eigsh).parameters:
+            settings['rng']=rng
+        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM',**settings)
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
-- 
2.43.0


From 8fae89e8a09a2722acc6d20353b753375189e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 05/26] fix: pass the shell section to the model in the right
 position and report shell nodes

---
 hyperstatic/core/__init__.py       | 2 +-
 hyperstatic/core/fe_model/model.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index ffc69e6..821b8c3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -476,7 +476,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..7be2b83 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From b1a6a8a4386795cded7925b5a72cd5d52f1213d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 06/26] fix: set beam releases on the model's own beams

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 7be2b83..3559c01 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,13 +193,13 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
         u1j:float,u2j:float,u3j:float,r1j:float,r2j:float,r3j:float):
         d=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
-        return self.beams[name].f(d)
+        return self.__beams[name].f(d)
 
     def get_node_names(self):
         return list(self.__nodes.keys())
-- 
2.43.0


From 77a84bf847480ac80b9a9a6cf52958c5c04a4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 07/26] fix: create a pipe, not a rectangle, in
 Api.add_beam_section_pipe

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 821b8c3..aff1003 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -337,7 +337,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From 58a88820b88e0275509118b7af8811027e19cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 08/26] fix: report failure when restraining an undefined node

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index aff1003..8626a56 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -558,8 +558,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From 849c0659bf7f3a8acb4e3c298befc8a90cd91114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 09/26] fix: clear_workspace must remove a directory tree, not
 a file

---
 hyperstatic/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 8626a56..d44488d 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -2,6 +2,7 @@
 import pickle
 from datetime import datetime
 import os
+import shutil
 import logging
 from typing import Dict
 import numpy as np
@@ -86,7 +87,7 @@ class Api(object):
             return False
         else:
             try:
-                os.remove(workpath)
+                shutil.rmtree(workpath)
                 os.mkdir(workpath)
                 return True
             except Exception as e :
-- 
2.43.0


From 422ae7945fb5eafb60841e7666cdce5030609688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 10/26] fix: condense every released end of a beam, not only
 the last one

---
 .../core/fe_model/element/line/beam.py        | 21 ++++++++++---------
 .../core/fe_model/element/line/simple_beam.py | 21 ++++++++++---------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..a8dd56f 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,19 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = spr.csr_matrix(Ke)
+        d=k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n, n])>1e-9*abs(d[n]): #not yet free by former releases
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = spr.csr_matrix(Ke)
+        d=k_.diagonal()
+        r_ = np.array(re,dtype=float).reshape(12)
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
\ No newline at end of file
+            if self.__releases[n] == True and abs(k_[n, n])>1e-9*abs(d[n]): #not yet free by former releases
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..7bcd885 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,21 +216,22 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = spr.csr_matrix(Ke)
+        d=k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n, n])>1e-9*abs(d[n]): #not yet free by former releases
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = spr.csr_matrix(Ke)
+        d=k_.diagonal()
+        r_ = np.array(re,dtype=float).reshape(12)
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
+            if self.__releases[n] == True and abs(k_[n, n])>1e-9*abs(d[n]): #not yet free by former releases
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
 
 #code here should be revised
     def resolve_element_force(self,Ke,Me,re,ue):
-- 
2.43.0


From d1941941fba6fb63b52bb7912044249074510f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 11/26] fix: use the same restraints to solve a case and to
 expand its displacements

---
 hyperstatic/core/fe_model/assembly.py | 2 ++
 hyperstatic/core/fe_solver/static.py  | 4 ----
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8458882..5a59a19 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -299,6 +299,8 @@ class Assembly(object):
         else:
             loadcase=self.__loadcase[casename]
             rest=loadcase.get_nodal_restraint_dict()
+            if rest=={}: #case restraint first, then model, as in assemble_boundary
+                rest=self.__model.get_nodal_restraint_dict()
             
         dof=[]
         for node in rest.keys():
diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index 04d965d..84ba8ee 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -117,8 +117,6 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
 
         restraintDOF.sort()
         delta=list(delta)
@@ -161,8 +159,6 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+"time="+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
         for i in restraintDOF: 
             delta=np.insert(delta,i,0,0)
 
-- 
2.43.0


From 1d1070f683a93c0f1b8ab2f7e91923103df22dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 12/26] fix: keep the index of a node that is defined again

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 3559c01..dca421e 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid, kept when a node is redefined
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
-- 
2.43.0


From c55f47a4adc5b141e02dde942d7785e3f92a0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 13/26] fix: let a loaded model work in the path it was loaded
 from

---
 hyperstatic/core/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index d44488d..088c161 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -70,6 +70,7 @@ class Api(object):
         try:
             with open(os.path.join(workpath,filename+'.sep'),'rb') as f:
                 api=pickle.load(f)
+            api.__workpath=workpath
             return api
         except Exception as e:
             logging.info("Error loading api file "+ os.path.join(workpath,filename) +'. Exception: '+str(e))
-- 
2.43.0


From 90670e7c46cc3e87d11ce73e7f642c55053f9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 14/26] fix: limit the number of modes by the DOFs left by the
 case's own restraints

---
 hyperstatic/core/fe_solver/dynamic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 321666a..5f949fd 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -60,9 +60,10 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
+        k_max=K_.shape[0]-1 #limit of the iterative solver
+        if k>k_max:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%k_max)
+            k=k_max
         #a fixed start vector, otherwise the signs (and the basis of repeated modes) differ from run to run
         rng=np.random.default_rng(0)
         settings={'v0':rng.uniform(-1,1,K_.shape[0])}
-- 
2.43.0


From cc6d706c193ff0e3344cd0ecb9cb2f6cf66a33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 15/26] fix: take the root of the saved eigenvalues to resolve
 frequencies

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..403405e 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #the solver saves omega^2
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From 2066654cd0f2cb31622c9e808c08a68b1b2ca5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 16/26] fix: expand mode shapes to all nodes and refuse nodes
 that results do not cover

---
 hyperstatic/core/fe_post/__init__.py | 19 ++++++++++++++++++-
 hyperstatic/core/fe_post/node.py     |  5 +++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..6f55893 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -18,4 +18,21 @@ class ResultResolver(object):
 
     @property
     def assembly(self):
-        return self.__assembly
\ No newline at end of file
+        return self.__assembly
+
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        """读取某一步的全自由度位移
+
+        Args:
+            casename (str): name of load case
+            step (int, optional): load step or mode. Defaults to 1.
+
+        Returns:
+            np.array: displacements of all DOFs of all nodes
+        """
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        if 'n_modes' in self.__assembly.get_loadcase_setting(casename): #modes are saved without the restrained DOFs
+            full=np.zeros(self.__assembly.node_count*6)
+            full[np.delete(np.arange(full.size),self.__assembly.restraintDOF(casename))]=d
+            d=full
+        return d
\ No newline at end of file
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..ae1cc7f 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,9 +21,10 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
+        if hid*6+6>d.size:
+            raise Exception("Node %s is not in the results of %s"%(name,casename))
         return d[hid*6:hid*6+6]
 
     def resolve_nodal_reaction(self,name:str,casename:str,step:int=1):
-- 
2.43.0


From 49f36e1205c12a133396c66f87e97ec4d439846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 17/26] fix: resolve nodal reactions from the assembled
 stiffness and loads

---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 088c161..954662b 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -857,7 +857,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index ae1cc7f..15687a7 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -38,9 +38,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        d=self.load_displacement(casename,step)
+        f=self.__assembly.assemble_K().tocsr().dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(-1)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 83f42041b52caa95155d34ac04c44d7a6459c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:51 +0000
Subject: [PATCH 18/26] fix: resolve beam end forces from the displacements of
 both ends and the beam loads

---
 hyperstatic/core/fe_model/assembly.py |  8 ++++++++
 hyperstatic/core/fe_post/beam.py      | 18 +++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 5a59a19..397d996 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -52,6 +52,14 @@ class Assembly(object):
     def get_beam_K(self,elm:str):
         return self.__model.get_beam_K(elm)
 
+    def get_beam_condensated_K(self,elm:str):
+        return self.__model.get_beam_condensated_matrix(elm,self.__model.get_beam_K(elm))
+
+    def get_beam_f(self,elm:str,casename:str):
+        #equivalent nodal loads of the beam in its local system
+        re=self.__loadcase[casename].get_beam_f(elm,self.__model.get_beam_length(elm))
+        return self.__model.get_beam_condensated_f(elm,re)
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..a257412 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,13 +17,17 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
-        hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
-        return res
+        dd=self.__beam_displacement(name,casename,step)
+        K=self.__assembly.get_beam_condensated_K(name)
+        return K.dot(dd)-self.__assembly.get_beam_f(name,casename)
+
+    def __beam_displacement(self,name:str,casename:str,step:int):
+        #displacements of end i, then of end j, in the local system of the beam
+        d=self.load_displacement(casename,step)
+        dofs=[]
+        for i in self.__assembly.get_beam_node_hids(name):
+            dofs.extend(range(i*6,i*6+6))
+        return self.__assembly.get_beam_transform_matrix(name).dot(d[dofs])
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
         """Resolve beam deformation
-- 
2.43.0


From 53a3d2618be3901bd102c1f5a0afc9a59f22d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:51 +0000
Subject: [PATCH 19/26] fix: take the deformation of a beam from its ends in
 their order

---
 hyperstatic/core/fe_post/beam.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index a257412..c0373a8 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -41,17 +41,9 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        hids=self.__assembly.get_beam_node_hids(name)
-        mask=[]
-        for i in hids:
-            mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
-        T=self.__assembly.get_beam_transform_matrix(name)
-        dd=T.dot(dd)
+        dd=self.__beam_displacement(name,casename,step)
         axial=dd[np.isin(range(12),[0,6])]
         shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
         shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
@@ -64,8 +56,6 @@ class BeamResultResolver(ResultResolver):
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From fbe263252e5d9a63e90abb5adb0977a6f4f971cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:51 +0000
Subject: [PATCH 20/26] fix: interpolate axial displacement and twist over the
 location 0..1

---
 hyperstatic/core/fe_model/element/line/beam.py   | 16 ++++++++--------
 .../core/fe_model/element/line/simple_beam.py    | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index a8dd56f..e4a31a6 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -174,26 +174,26 @@ class Beam(Line):
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 7bcd885..f21738e 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -193,26 +193,26 @@ class SimpleBeam(Line):
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From 7603b1a90bd4cf7ce3116cba36eb106a406b4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 21/26] fix: do not report a solved case when the stiffness
 matrix is singular

---
 hyperstatic/core/fe_solver/static.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index 84ba8ee..8c301d2 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -116,6 +116,8 @@ class StaticSolver(Solver):
             raise Exception("NO such solver as "+str(use_solver))
 
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
+        if not np.all(np.isfinite(delta)):
+            raise Exception("The stiffness matrix is singular, the structure is unstable!")
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
 
         restraintDOF.sort()
-- 
2.43.0


From bb3dd2ecf97517fec8e10738da7d1a004de2239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:55 +0000
Subject: [PATCH 22/26] fix: hand out copies of node locations and nodal loads

---
 hyperstatic/core/__init__.py              | 2 +-
 hyperstatic/core/fe_model/load/pattern.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 954662b..61e8aea 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -136,7 +136,7 @@ class Api(object):
             tuple: 三维坐标
         """
         try:
-            return self.__model.get_node_location(name)
+            return tuple(self.__model.get_node_location(name))
         except Exception as e:
             logging.warning("Error when getting node location of %s"%name+" Exception: "+str(e))
             return None
diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..96bfb0a 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -32,7 +32,7 @@ class LoadPattern(object):
             return None
 
     def get_nodal_f_dict(self):
-        return self.__nodal_load.copy()
+        return dict([(k,np.array(v)) for k,v in self.__nodal_load.items()])
 
     def get_nodal_d(self,name):
         if name in self.__nodal_disp.keys():
-- 
2.43.0


From 97de4130b03811502603491021b45baeea52e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 23/26] fix: take the displacements of all nodes from the same
 results

---
 hyperstatic/core/__init__.py     |  3 +--
 hyperstatic/core/fe_post/node.py | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 61e8aea..9b1ecb4 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -895,8 +895,7 @@ class Api(object):
         try:
             workpath=self.__workpath
             resolver=NodeResultResolver(workpath,self.__filename)
-            res=dict([(node,resolver.resolve_nodal_displacement(node,case,step=1)) for node in self.get_node_names()])
-            return res
+            return resolver.resolve_nodal_displacements(self.get_node_names(),case,step=1)
         except Exception as e:
             logging.warning(str(e)+" when getting nodal displacement of "+str(case))
             return None
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 15687a7..9661d1d 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,11 +21,27 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
+        return self.resolve_nodal_displacements([name],casename,step)[name]
+
+    def resolve_nodal_displacements(self,names:list,casename:str,step:int=1)->dict:
+        """Displacements of several nodes, all from the same results
+
+        Args:
+            names (list): names of the nodes
+            casename (str): name of load case
+            step (int, optional): load step. Defaults to 1.
+
+        Returns:
+            dict: np.array by name of node
+        """
         d=self.load_displacement(casename,step)
-        hid=self.__assembly.get_node_hid(name)
-        if hid*6+6>d.size:
-            raise Exception("Node %s is not in the results of %s"%(name,casename))
-        return d[hid*6:hid*6+6]
+        res={}
+        for name in names:
+            hid=self.__assembly.get_node_hid(name)
+            if hid*6+6>d.size:
+                raise Exception("Node %s is not in the results of %s"%(name,casename))
+            res[name]=d[hid*6:hid*6+6]
+        return res
 
     def resolve_nodal_reaction(self,name:str,casename:str,step:int=1):
         """_summary_
-- 
2.43.0


From 58358288129ab8bef2c1c5bfd57d286cb939d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 24/26] fix: count the web of an I section between its flanges
 only in I22

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..a9f9aee 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -146,7 +146,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 423ea289134f6086bbc95022d2e0379e1cd87548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 25/26] fix: refuse a solution that does not satisfy the
 equations of an unstable structure

---
 hyperstatic/core/fe_solver/static.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index 8c301d2..89944f5 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -116,7 +116,8 @@ class StaticSolver(Solver):
             raise Exception("NO such solver as "+str(use_solver))
 
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
-        if not np.all(np.isfinite(delta)):
+        residual=A.dot(delta)-np.asarray(f_).reshape(N)
+        if not np.all(np.isfinite(delta)) or np.max(np.abs(residual))>1e-6*np.max(np.abs(f_)):
             raise Exception("The stiffness matrix is singular, the structure is unstable!")
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
 
-- 
2.43.0


From dd92407d225fcd322b07218edd0e5cca46269b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:21 +0000
Subject: [PATCH 26/26] fix: give the displacements of all nodes that were
 analysed, also when nodes were added since

---
 hyperstatic/core/__init__.py          |  2 +-
 hyperstatic/core/fe_model/assembly.py |  3 +++
 hyperstatic/core/fe_post/node.py      | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 9b1ecb4..dc0d87d 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -895,7 +895,7 @@ class Api(object):
         try:
             workpath=self.__workpath
             resolver=NodeResultResolver(workpath,self.__filename)
-            return resolver.resolve_nodal_displacements(self.get_node_names(),case,step=1)
+            return resolver.resolve_all_nodal_displacements(case,step=1) #the nodes analysed, the model may have others by now
         except Exception as e:
             logging.warning(str(e)+" when getting nodal displacement of "+str(case))
             return None
diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 397d996..0beef02 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -34,6 +34,9 @@ class Assembly(object):
     def node_count(self):
         return self.__model.node_count
 
+    def get_node_names(self):
+        return self.__model.get_node_names()
+
     def get_node_hid(self,node:str):
         return self.__model.get_node_hid(node)
 
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 9661d1d..f1072c2 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -43,6 +43,24 @@ class NodeResultResolver(ResultResolver):
             res[name]=d[hid*6:hid*6+6]
         return res
 
+    def resolve_all_nodal_displacements(self,casename:str,step:int=1)->dict:
+        """Displacements of all nodes the results cover
+
+        Args:
+            casename (str): name of load case
+            step (int, optional): load step. Defaults to 1.
+
+        Returns:
+            dict: np.array by name of node
+        """
+        d=self.load_displacement(casename,step)
+        res={}
+        for name in self.__assembly.get_node_names():
+            hid=self.__assembly.get_node_hid(name)
+            if hid*6+6<=d.size:
+                res[name]=d[hid*6:hid*6+6]
+        return res
+
     def resolve_nodal_reaction(self,name:str,casename:str,step:int=1):
         """_summary_
 
-- 
2.43.0

