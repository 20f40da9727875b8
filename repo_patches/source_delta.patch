From a474c0cea1ef412b976fe1b931311875ad3db60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 01/93] fix: membership test of a complemented mutable bitset
 honours the complement

---
 src/sets/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c282bc3..751602d 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1329,8 +1329,8 @@ NyMutBitSet_hasbit(NyMutBitSetObject *v, NyBit bit)
     bitno_to_field(bit, &f);
     fp = mutbitset_findpos(v, f.pos);
     if (!fp)
-        return 0;
-    return (fp->bits & f.bits) != 0;
+        return v->cpl != 0;
+    return ((fp->bits & f.bits) != 0) != (v->cpl != 0);
 }
 static int
 mutbitset_contains(NyMutBitSetObject *v, PyObject *w)
-- 
2.43.0


From 0eb827735765672151054fcf1bd82c5d4433fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/93] fix: clearing a complemented mutable bitset makes it
 empty

---
 src/sets/bitset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 751602d..41757fa 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1688,6 +1688,7 @@ mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    v->cpl = 0;
     return mutbitset_reset(v, 0);
 }
 
-- 
2.43.0


From 49a467246dfc9838bf6e2bb82eeebc6575965534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/93] fix: drop the cached length of bitset storage that is
 reused for in-place update

---
 src/sets/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 41757fa..3e32f41 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -988,6 +988,8 @@ sf_getrange_mut(NySetField *sf, NyBitField **slo, NyBitField **shi)
         sf->set = set;
         Py_DECREF(oset);
     }
+    /* The fields may get changed in place, so a cached length is no longer valid */
+    sf->set->ob_length = -1;
     *slo = sf->lo;
     *shi = sf->hi;
     return 0;
@@ -1163,6 +1165,8 @@ mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
                 /* It was found but some struct needs to be copied.
                    Just research in ins mode. */
                 f = mutbitset_findpos_ins(v, pos);
+            } else {
+                sf->set->ob_length = -1; /* Will be changed in place */
             }
         }
     }
-- 
2.43.0


From fc47595319a373e79e4d354430edf940513394fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 04/93] fix: comparing mutable bitsets skips any number of
 emptied segments

---
 src/sets/bitset.c | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 3e32f41..10e344c 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3190,17 +3190,17 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
     if (op == NyBits_TRUE)
         return 1;
 
-    if (as < ase) {
+    af = afe = 0;
+    while (af == afe && as < ase) {
         af = sf_getrange(as, &afe);
         as++;
-    } else
-        af = afe = 0;
+    }
 
-    if (bs < bse) {
+    bf = bfe = 0;
+    while (bf == bfe && bs < bse) {
         bf = sf_getrange(bs, &bfe);
         bs++;
-    } else
-        bf = bfe = 0;
+    }
 
     for (;;) {
         if (af < afe) {
@@ -3215,31 +3215,25 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
                         a = 0;
                     }
                     b = bf++->bits;
-                    if (bf == bfe) {
-                        if (bs < bse) {
-                            bf = sf_getrange(bs, &bfe);
-                            bs++;
-                        }
+                    while (bf == bfe && bs < bse) {
+                        bf = sf_getrange(bs, &bfe);
+                        bs++;
                     }
                 }
             } else {
                 a = af++->bits;
                 b = 0;
             }
-            if (af == afe) {
-                if (as < ase) {
-                    af = sf_getrange(as, &afe);
-                    as++;
-                }
+            while (af == afe && as < ase) {
+                af = sf_getrange(as, &afe);
+                as++;
             }
         } else if (bf < bfe) {
             a = 0;
             b = bf++->bits;
-            if (bf == bfe) {
-                if (bs < bse) {
-                    bf = sf_getrange(bs, &bfe);
-                    bs++;
-                }
+            while (bf == bfe && bs < bse) {
+                bf = sf_getrange(bs, &bfe);
+                bs++;
             }
         } else
             return 0;
-- 
2.43.0


From 976ddfaae2d22a83a9270a6976412a349e817eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 05/93] fix: copying a complemented mutable bitset with several
 segments keeps the complement

---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 10e344c..45f0856 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2169,6 +2169,8 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     Py_XDECREF(set);
     Py_XDECREF(root);
     if (!ms) return 0;
+    if (root)
+        ms->cpl = ((NyMutBitSetObject *)arg)->cpl;
     if (!(set || root)) {
         if (arg) {
             void *r = mutbitset_ior(ms, arg);
-- 
2.43.0


From 00f7f1c3c9d87768db31e58480ef08375f706583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:21 +0000
Subject: [PATCH 06/93] fix: in-place symmetric difference of a bitset with an
 iterable treats the iterable as a set

---
 src/sets/bitset.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 45f0856..b81cd26 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1805,7 +1805,8 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
 {
     PyObject *it = 0;      /* iter(v) */
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int msop = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1834,7 +1835,7 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, msop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1854,7 +1855,8 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyList_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int msop = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1869,7 +1871,7 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, msop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1888,7 +1890,8 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyTuple_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int msop = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
 
@@ -1904,7 +1907,7 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, msop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1922,8 +1925,9 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
 {
     Py_ssize_t i;
     NyMutBitSetObject *tms;
+    int msop = op;
     PyObject *key, *value;
-    if (op == NyBits_AND) {
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1939,7 +1943,7 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, msop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
-- 
2.43.0


From cd8b0a5ec87513fef96f916a591cc7c9dec05fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 07/93] fix: inserting in tightly filled bitset storage does
 not fail an assertion

---
 src/sets/bitset.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index b81cd26..2703f1a 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1040,7 +1040,7 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
+        /* Too little room to center it; it has to be reallocated. */
     }
 
     if (sf_realloc(sf, sf->hi + 1 - lo_tot) == -1)
@@ -1057,8 +1057,8 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
-
+        /* There is at least room for one field at the high end. */
+        assert(sf->hi < hi_tot);
     }
 
 MOVE_HI:
-- 
2.43.0


From 61310c38305c7ae88765fde549e779e3ae709449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 08/93] fix: empty instances of immutable bitset subclasses are
 false and have no items

---
 src/sets/bitset.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 2703f1a..0ac487c 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2893,7 +2893,7 @@ immbitset_lshift(NyImmBitSetObject *v, NyBit w)
     NyBit n;
     NyBit lopos, hipos;
     NyBit i;
-    if (v == NyImmBitSet_Empty) {
+    if (!Py_SIZE(v)) {
         Py_INCREF(NyImmBitSet_Empty);
         return NyImmBitSet_Empty;
     }
@@ -3067,7 +3067,7 @@ immbitset_subscript(NyImmBitSetObject *v, PyObject *w)
     i = PyLong_AsSsize_t(w);
     if (i == -1 && PyErr_Occurred())
         return 0;
-    if (v == NyImmBitSet_Empty) {
+    if (!Py_SIZE(v)) {
         PyErr_SetString(PyExc_IndexError, "empty immbitset - index out of range");
         return 0;
     }
@@ -3184,7 +3184,7 @@ immbitset(PyTypeObject *unused, PyObject *args, PyObject *kwds)
 static int
 immbitset_nonzero(NyImmBitSetObject *v)
 {
-    return v != NyImmBitSet_Empty;
+    return Py_SIZE(v) != 0;
 }
 
 static int
-- 
2.43.0


From b6641e2d11123d2f7099a3dec81570785184d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 09/93] fix: bitset slice bounds are clipped or rejected with
 TypeError, not SystemError

---
 src/sets/bitset.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 0ac487c..3e200c9 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2585,8 +2585,8 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->step == Py_None) {
             *step = 1;
     } else {
-        if (!PyLong_Check(r->step)) return -1;
-        *step = PyLong_AsSsize_t(r->step);
+        *step = PyNumber_AsSsize_t(r->step, NULL);
+        if (*step == -1 && PyErr_Occurred()) return -1;
         if (*step != 1) {
             PyErr_SetString(PyExc_IndexError, "bitset slicing step must be 1");
             return -1;
@@ -2595,14 +2595,14 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->start == Py_None) {
         *start = 0;
     } else {
-        if (!PyLong_Check(r->start)) return -1;
-        *start = PyLong_AsSsize_t(r->start);
+        *start = PyNumber_AsSsize_t(r->start, NULL);
+        if (*start == -1 && PyErr_Occurred()) return -1;
     }
     if (r->stop == Py_None) {
         *stop = PY_SSIZE_T_MAX;
     } else {
-        if (!PyLong_Check(r->stop)) return -1;
-        *stop = PyLong_AsSsize_t(r->stop);
+        *stop = PyNumber_AsSsize_t(r->stop, NULL);
+        if (*stop == -1 && PyErr_Occurred()) return -1;
     }
     return 0;
 }
@@ -2993,7 +2993,7 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
         }
         return bs;
     } else if (ilow < 0 && ihigh == PY_SSIZE_T_MAX) {
-        nbitswanted = - ilow;
+        nbitswanted = ilow < -PY_SSIZE_T_MAX ? PY_SSIZE_T_MAX : -ilow;
         for (s = se; --s >= ss;) {
             for (fs = sf_getrange(s, &f); --f >= fs; ) {
                 if (nbits >= nbitswanted)
-- 
2.43.0


From 1dbe1e7ae45ea527600d0d92b198a72eddd110f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 10/93] fix: the bitset unpickling helper checks its arguments

---
 src/sets/bitset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 3e200c9..0a9910e 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -4381,7 +4381,7 @@ NyBitSet_Form(PyObject *args)
     char *s;
     Py_ssize_t len,sz;
     int flags;
-    if (!(args && PyTuple_Check(args)) && PyTuple_GET_SIZE(args) == 2) {
+    if (!(args && PyTuple_Check(args) && PyTuple_GET_SIZE(args) == 2)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form() requires exactly 2 arguments");
         return 0;
     }
@@ -4390,6 +4390,8 @@ NyBitSet_Form(PyObject *args)
         return 0;
     }
     flags = PyLong_AsLong(PyTuple_GET_ITEM(args, 0));
+    if (flags == -1 && PyErr_Occurred())
+        return 0;
     str = PyTuple_GET_ITEM(args, 1);
     if (!PyBytes_Check(str)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form(): 2nd arg must be bytes");
-- 
2.43.0


From 8c808cae946c38315de44643e75110856135111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 11/93] fix: assigning several targets in a nodegraph takes a
 reference to each of them

---
 src/heapy/nodegraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index a7ea193..8cda4de 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -929,7 +929,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
         for (i = 0; i < regsize; i++) {
             PyObject *old = lo[i].tgt;
             lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo->tgt);
+            Py_INCREF(lo[i].tgt);
             Py_XDECREF(old);
         }
     }
-- 
2.43.0


From e586365f7d2bad1cd0fbb5663076e8191f591493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 12/93] fix: iterating over a nodegraph checks that the
 iterator could be allocated

---
 src/heapy/nodegraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 8cda4de..2e69df7 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -579,7 +579,7 @@ PyObject *
 ng_iter(NyNodeGraphObject *v)
 {
     NyNodeGraphIterObject *iter = PyObject_GC_New(NyNodeGraphIterObject, &NyNodeGraphIter_Type);
-    if (!v)
+    if (!iter)
         return 0;
     iter->nodegraph = v;
     Py_INCREF(v);
-- 
2.43.0


From b3e051df4021f6562b0cb496f0939cc805edc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 13/93] fix: assigning targets in a nodegraph survives a
 finalizer that changes it

---
 src/heapy/nodegraph.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 2e69df7..7f1af93 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -926,11 +926,17 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         }
-        for (i = 0; i < regsize; i++) {
-            PyObject *old = lo[i].tgt;
-            lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo[i].tgt);
-            Py_XDECREF(old);
+        {
+            /* The old targets are released last, since that may change ng */
+            PyObject *olds = PyTuple_New(regsize);
+            if (!olds)
+                return -1;
+            for (i = 0; i < regsize; i++) {
+                PyTuple_SET_ITEM(olds, i, lo[i].tgt);
+                lo[i].tgt = PyTuple_GET_ITEM(w, i);
+                Py_INCREF(lo[i].tgt);
+            }
+            Py_DECREF(olds);
         }
     }
     return 0;
-- 
2.43.0


From 2f98796f22bc479b42eb908fea7f11fe1544e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 14/93] fix: a nodegraph keeps its edges when there is no
 memory to resize them

---
 src/heapy/nodegraph.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 7f1af93..b6c2fb3 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -168,12 +168,13 @@ NyNodeGraph_AddEdge(NyNodeGraphObject *ng, PyObject *src, PyObject *tgt)
 
     if (ng->used_size >= ng->allo_size) {
         Py_ssize_t allo = roundupsize(ng->used_size + 1);
-        PyMem_RESIZE(ng->edges, NyNodeGraphEdge, allo);
-        if (!ng->edges) {
-            ng->used_size = ng->allo_size = 0;
+        NyNodeGraphEdge *edges = ng->edges;
+        PyMem_RESIZE(edges, NyNodeGraphEdge, allo);
+        if (!edges) {
             PyErr_NoMemory();
             return -1;
         }
+        ng->edges = edges;
         ng->allo_size = allo;
     }
     Py_INCREF(src);
@@ -235,7 +236,11 @@ ng_remove_dups(NyNodeGraphObject *ng)
 static void
 ng_trim(NyNodeGraphObject *ng)
 {
-    PyMem_RESIZE(ng->edges, NyNodeGraphEdge, ng->used_size);
+    NyNodeGraphEdge *edges = ng->edges;
+    PyMem_RESIZE(edges, NyNodeGraphEdge, ng->used_size);
+    if (!edges)
+        return; /* Keep the memory there is. */
+    ng->edges = edges;
     ng->allo_size = ng->used_size;
 }
 
-- 
2.43.0


From d3620e5e457b9bea971b30dfed4c620317f1a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 15/93] fix: relating a cleared frame does not crash on its
 missing cells

---
 src/heapy/stdtypes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca20586..3e9eae1 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -210,7 +210,8 @@ frame_locals(NyHeapRelate *r, PyObject *map, Py_ssize_t start, Py_ssize_t n, int
     Py_ssize_t i;
     for (i = start; i < start + n; i++) {
         if ((!deref && v->f_localsplus[i] == r->tgt) ||
-            (deref && PyCell_GET(v->f_localsplus[i]) == r->tgt)) {
+            (deref && v->f_localsplus[i] && PyCell_Check(v->f_localsplus[i]) &&
+             PyCell_GET(v->f_localsplus[i]) == r->tgt)) {
             PyObject *name;
             if (PyTuple_Check(map) && (i - start) < PyTuple_Size(map)) {
                 name = PyTuple_GetItem(map, i - start);
@@ -308,7 +309,8 @@ frame_relate(NyHeapRelate *r)
         if (!(kind & CO_FAST_CELL) && !(kind & CO_FAST_FREE))
             continue;
 
-        if (PyCell_GET(val) == r->tgt) {
+        /* A cleared frame has no cells */
+        if (val && PyCell_Check(val) && PyCell_GET(val) == r->tgt) {
             Py_INCREF(name);
             if (r->visit(NYHR_CELL, name, r))
                 return 1;
-- 
2.43.0


From a95a8e860ddfd348f0cd81102244618146cfb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 16/93] fix: the relation of a set to a member has its index
 and leaks no references

---
 src/heapy/stdtypes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 3e9eae1..442758a 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -159,11 +159,13 @@ set_relate(NyHeapRelate *r)
 
     Py_ssize_t i = 0;
     while ((obj = PyIter_Next(it))) {
+        Py_DECREF(obj);
         if (r->tgt == obj) {
-            r->visit(NYHR_INSET, PyLong_FromSsize_t(i++), r);
+            Py_DECREF(it);
+            r->visit(NYHR_INSET, PyLong_FromSsize_t(i), r);
             return 1;
         }
-        Py_DECREF(obj);
+        i++;
     }
 
     Py_DECREF(it);
-- 
2.43.0


From 37414161176641a3c17dae8334c09dbdfbaf7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 17/93] fix: relating a set does not call an __iter__ redefined
 by a subclass

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 442758a..94cf498 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -150,7 +150,8 @@ tuple_relate(NyHeapRelate *r)
 static int
 set_relate(NyHeapRelate *r)
 {
-    PyObject *it = PyObject_GetIter(r->src);
+    /* A subclass may have redefined __iter__ */
+    PyObject *it = PySet_Type.tp_iter(r->src);
     PyObject *obj;
 
     if (it == NULL) {
-- 
2.43.0


From 35020923af238d01df2e3d4e3f787fee94051163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 18/93] fix: in-place symmetric difference of a nodeset with an
 iterable treats the iterable as a set

---
 src/sets/nodeset.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index de1c2a3..8149985 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -138,6 +138,8 @@ NyNodeSetObject *
 NyImmNodeSet_SubtypeOfNodeSetDecRef(PyTypeObject *type, NyNodeSetObject *v);
 NyNodeSetObject *
 NyImmNodeSet_New(NyBit size, PyObject *hiding_tag);
+NyNodeSetObject *
+NyImmNodeSet_SubtypeNewIterable(PyTypeObject *type, PyObject *iterable, PyObject *hiding_tag);
 
 static NyNodeSetObject *
 immnodeset_op(NyNodeSetObject *v, NyNodeSetObject *w, int op);
@@ -1030,8 +1032,17 @@ nodeset_ixor(NyNodeSetObject *v, PyObject *w)
 {
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_xor((PyObject *)v, w);
-    else
-        return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
+    else {
+        /* An object that occurs several times in w counts once */
+        NyNodeSetObject *ws;
+        PyObject *ret;
+        ws = NyImmNodeSet_SubtypeNewIterable(&NyImmNodeSet_Type, w, 0);
+        if (!ws)
+            return 0;
+        ret = nodeset_iop_chk_iterable(v, (PyObject *)ws, NyNodeSet_invobj);
+        Py_DECREF(ws);
+        return ret;
+    }
 }
 
 static PyObject *
-- 
2.43.0


From 49690e3b3004133e191858daa37da46bf45457b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 19/93] fix: updating a nodeset in place survives finalizers
 that use it

---
 src/sets/nodeset.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 8149985..1183277 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -140,6 +140,8 @@ NyNodeSetObject *
 NyImmNodeSet_New(NyBit size, PyObject *hiding_tag);
 NyNodeSetObject *
 NyImmNodeSet_SubtypeNewIterable(PyTypeObject *type, PyObject *iterable, PyObject *hiding_tag);
+NyNodeSetObject *
+NyImmNodeSet_NewCopy(NyNodeSetObject *v);
 
 static NyNodeSetObject *
 immnodeset_op(NyNodeSetObject *v, NyNodeSetObject *w, int op);
@@ -625,12 +627,23 @@ int
 NyNodeSet_clear(NyNodeSetObject *v)
 {
     if (NyMutNodeSet_Check(v) && v->u.bitset) {
+        /* The elements are released when they are no longer in the set,
+           since finalizers may use it. */
+        NyNodeSetObject *old = 0;
         if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
+            old = NyImmNodeSet_NewCopy(v);
+            if (!old)
+                return -1;
         }
-        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
+        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1) {
+            Py_XDECREF(old);
             return -1;
+        }
         Py_SET_SIZE(v, 0);
+        if (old) {
+            NyNodeSet_iterate(old, nodeset_dealloc_iter, v);
+            Py_DECREF(old);
+        }
     } else {
         PyErr_Format(PyExc_ValueError,
                      "mutable nodeset required");
@@ -952,14 +965,24 @@ static PyObject *
 nodeset_iop_chk_iterable(NyNodeSetObject *v, PyObject *w,
                          int (*visit)(NyNodeSetObject *, PyObject *)) {
     IOPTravArg ta;
+    int r;
     ta.ns = v;
     ta.visit = visit;
     if (!(NyMutNodeSet_Check(v))) {
         PyErr_SetString(PyExc_TypeError, "iop: left argument must be mutable");
         return 0;
     }
-    if (iterable_iterate((PyObject *)w,
-                         (NyIterableVisitor) nodeset_iop_iterable_visit, &ta) == -1)
+    if (visit != NyNodeSet_setobj && NyMutNodeSet_Check(w)) {
+        /* Removing may run finalizers, that may change w */
+        w = (PyObject *)NyImmNodeSet_NewCopy((NyNodeSetObject *)w);
+        if (!w)
+            return 0;
+    } else
+        Py_INCREF(w);
+    r = iterable_iterate((PyObject *)w,
+                         (NyIterableVisitor) nodeset_iop_iterable_visit, &ta);
+    Py_DECREF(w);
+    if (r == -1)
         return 0;
     Py_INCREF(v);
     return (PyObject *)v;
@@ -989,6 +1012,8 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
 
 {
     IANDTravArg ta;
+    NyNodeSetObject *vs;
+    int r;
     if (!(NyMutNodeSet_Check(v))) {
         return nodeset_and((PyObject *)v, w);
     }
@@ -1004,7 +1029,13 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
             goto err;
         Py_DECREF(p);
     }
-    if (NyNodeSet_iterate(v, (NyIterableVisitor) nodeset_iand_visit, &ta) == -1)
+    /* Removing may run finalizers, that may change v */
+    vs = NyImmNodeSet_NewCopy(v);
+    if (!vs)
+        goto err;
+    r = NyNodeSet_iterate(vs, (NyIterableVisitor) nodeset_iand_visit, &ta);
+    Py_DECREF(vs);
+    if (r == -1)
         goto err;
     Py_INCREF(v);
 ret:
-- 
2.43.0


From 08664f930d3b4d8434325a3e7314398a7b84ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 20/93] fix: a negative partition index out of range is an
 IndexError

---
 guppy/heapy/Part.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a154608..45bdac8 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -511,6 +511,8 @@ class Partition:
         else:
             if index < 0:
                 index += self.numrows
+                if index < 0:
+                    raise IndexError('Partition index out of range.')
             return self.get_rowset(index)
 
     def get_sets(self, index=None):
-- 
2.43.0


From f4d5d79af86ec06e933f079a22b7f90cf44cc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 21/93] fix: get_rows_of_kinds finds kinds in any row

---
 guppy/heapy/Part.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 45bdac8..2eadf9c 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -395,7 +395,7 @@ class Stat:
             idx = kindtab.get(row.name)
             if idx is not None:
                 res[idx] = row
-            n += 1
+                n += 1
             if n >= N:
                 break
         return res
-- 
2.43.0


From e2e3a6b773aa7ba3f7cad440bc04a6910edebf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 22/93] fix: identity partitions of objects that have no order
 can be shown

---
 guppy/heapy/Part.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 2eadf9c..65858c7 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -630,7 +630,11 @@ class IdentityPartition(Partition):
                     else:
                         ks = [sortrender(x) for x in objects]
                     ks = [(kind, i) for i, kind in enumerate(ks)]
-                    ks.sort()
+                    try:
+                        ks.sort()
+                    except TypeError:
+                        # There is no order, eg for complex; any will do.
+                        pass
                     clu.objects = objects = self.mod.observation_list(
                         [objects[i] for (kind, i) in ks])
                     clu.issorted = True
-- 
2.43.0


From c612d492e98798e4258ab9ffd2537c4c67ddee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 23/93] fix: loading a statistic without rows stops at its end

---
 guppy/heapy/Part.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 65858c7..8c2f73b 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -215,7 +215,7 @@ class Stat:
         self.rows = []
 
         r = self.get_next()
-        while r and not r.startswith('.r:'):
+        while r and not r.startswith(('.r:', '.end:')):
             name = r[1:r.index(':')]
             value = r[r.index(':')+1:].strip()
             try:
-- 
2.43.0


From 9d0b7332b4fbf854816cd530149bf1dcc57f0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 24/93] fix: loadall ends cleanly after the last object

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 29f16b7..159226d 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -296,7 +296,11 @@ References
         if isinstance(f, str):
             f = open(f)
         while True:
-            yield self.load(f)
+            try:
+                stat = self.load(f)
+            except StopIteration:
+                return
+            yield stat
 
     def loadc(self, fn):
         f = open(fn, 'r', 1)
-- 
2.43.0


From d2d5486214a621bfa739ac9e9941c8e135dcd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 25/93] fix: a statistic with line breaks in its kind names can
 be loaded after a dump

---
 guppy/heapy/Part.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 8c2f73b..5f0ddb2 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -1,3 +1,8 @@
+def on_one_line(s):
+    # The dumped form of a statistic has one line per row.
+    return s.replace('\n', '\\n').replace('\r', '\\r')
+
+
 class Format(object):
     __slots__ = 'impl', 'mod'
 
@@ -76,7 +81,7 @@ class SetFormat(Format):
             impl.count, s, impl.size)
 
     def get_rowdata(self, row):
-        return '%d %d %s' % (row.count, row.size, row.name)
+        return '%d %d %s' % (row.count, row.size, on_one_line(row.name))
 
     def get_stat_header(self):
         return (
@@ -112,7 +117,7 @@ class IdFormat(Format):
         return part
 
     def get_rowdata(self, row):
-        return '%d %s' % (row.size, row.name)
+        return '%d %s' % (row.size, on_one_line(row.name))
 
     def get_stat_header(self):
         return (
@@ -155,7 +160,7 @@ class DiffFormat(Format):
         return x
 
     def get_rowdata(self, row):
-        return '%d %d %s' % (row.count, row.size, row.name)
+        return '%d %d %s' % (row.count, row.size, on_one_line(row.name))
 
     def get_stat_header(self):
         return (
@@ -334,7 +339,7 @@ class Stat:
             '.numrows: %d' % len(rows),
         ]
         for r in rows:
-            trows.append('.r: %d %d %s' % (r.count, r.size, r.name))
+            trows.append('.r: %d %d %s' % (r.count, r.size, on_one_line(r.name)))
         return self.mod.load(trows)
 
     def dump(self, fn, mode='a'):
@@ -533,7 +538,7 @@ class Partition:
         yield '.timemade: %f' % self.timemade
         yield '.count: %d' % self.count
         yield '.size: %d' % self.size
-        yield '.kindname: %s' % self.kindname
+        yield '.kindname: %s' % on_one_line(self.kindname)
         yield '.kindheader: %s' % self.kindheader
         yield '.numrows: %d' % self.numrows
         for row in self.get_rows():
-- 
2.43.0


From 86babea7782aec7944dd6d3f59c3788cf5ad6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 26/93] fix: paths and reference patterns with a percent sign
 in a relation can be printed

---
 guppy/heapy/Path.py   | 6 +++---
 guppy/heapy/RefPat.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3cdf5d4..d4c03dd 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -149,9 +149,9 @@ class Path:
     def __len__(self):
         return int((len(self.path) - 1) / 2)
 
-    def stra(self, safe=True):
+    def stra(self, safe=True, prefix=None):
         if self.path:
-            s = self.strprefix
+            s = self.strprefix if prefix is None else prefix
             for i in range(1, len(self.path), 2):
                 r = self.path[i]
                 s = r.stra(s, safe=safe)
@@ -166,7 +166,7 @@ class Path:
         return repr(str(self))
 
     def _get_line_iter(self):
-        yield '%2d: %s' % (self.index, str(self) % self.srcname)
+        yield '%2d: %s' % (self.index, self.stra(prefix=self.srcname))
 
     def types(self):
         return [type(x) for x in self.path]
diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 65c9c59..0ce8e22 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -158,7 +158,7 @@ class Paths:
                             if rel is mod.Path.norelation:
                                 k = '??'
                             else:
-                                k = str(rel) % ''
+                                k = rel.stra('')
                             k = ' '*(indent+indinc)+k
                             yield k, i, p
 
@@ -248,7 +248,7 @@ class Paths:
                     if rel is mod.Path.norelation:
                         k = '??'
                     else:
-                        k = str(rel) % ''
+                        k = rel.stra('')
                     relstrings.append(k)
 
                 relsstr = ' / '.join(relstrings)
-- 
2.43.0


From 40c27fb56fc2921da35d4fb3cd9912926decfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 27/93] fix: an error raised by __sizeof__ is reported as such
 when sizes are computed

---
 src/heapy/hv.c              | 5 ++++-
 src/heapy/hv_cli_indisize.c | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 54eb8b5..8ef5c2d 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -962,7 +962,10 @@ typedef struct {
 static int
 hv_indisize_sum_rec(PyObject *obj, SalArg *ta)
 {
-    ta->sum += hv_std_size(ta->hv, obj);
+    size_t size = hv_std_size(ta->hv, obj);
+    if (size == (size_t)-1 && PyErr_Occurred())
+        return -1;
+    ta->sum += size;
     return 0;
 }
 
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 95b8401..217f6f1 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -25,8 +25,12 @@ hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 static PyObject *
 hv_cli_indisize_classify(IndisizeObject *self, PyObject *obj)
 {
-    PyObject *size = PyLong_FromSsize_t(hv_std_size(self->hv, obj));
+    size_t z = hv_std_size(self->hv, obj);
+    PyObject *size;
     PyObject *memoedsize;
+    if (z == (size_t)-1 && PyErr_Occurred())
+        return 0;
+    size = PyLong_FromSsize_t(z);
     if (!size)
         return size;
     memoedsize = hv_cli_indisize_memoized_kind(self, size);
-- 
2.43.0


From 5389c7830bba10b3df2065fdbb2644ad7323dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 28/93] fix: sorting a nodegraph without edges passes no null
 pointer to qsort

---
 src/heapy/nodegraph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index b6c2fb3..0040e94 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -205,6 +205,8 @@ ng_compare_src_only(const void *x, const void *y)
 static void
 ng_sort(NyNodeGraphObject *ng)
 {
+    if (!ng->used_size)
+        return; /* There may be no edges array */
     qsort(ng->edges, ng->used_size, sizeof(NyNodeGraphEdge),
           ng->is_preserving_duplicates ? ng_compare_src_only : ng_compare);
 }
-- 
2.43.0


From c7dfb254e369dc58b22e600ed41bf19537db2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 29/93] fix: a heap snapshot includes what the frames of other
 threads hold

---
 src/heapy/rootstate.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 238f1ba..85cead6 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -353,8 +353,7 @@ rootstate_relate(NyHeapRelate *r)
         ts = is->tstate_head;
 #endif
         for (; ts; ts = ts->next) {
-            if ((ts == bts && r->tgt == hv->limitframe) ||
-                    (!hv->limitframe && isframe)) {
+            if (ts == bts && hv->limitframe ? r->tgt == hv->limitframe : isframe) {
                 int frameno = -1;
                 int numframes = 0;
                 PyFrameObject *frame;
@@ -490,7 +489,7 @@ rootstate_traverse(NyHeapTraverse *ta)
         for (; ts; ts = ts->next) {
             if (ts == bts && hv->limitframe) {
                 Py_VISIT(hv->limitframe);
-            } else if (!hv->limitframe) {
+            } else {
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
                 PyFrameObject *frame = PyThreadState_GetFrame(ts);
                 Py_VISIT(frame);
-- 
2.43.0


From 6683b950be01d674f2d0a153ab2ad5db555df12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 30/93] fix: reading a frame from the root state leaks no
 reference and accepts threads without frames

---
 src/heapy/rootstate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 85cead6..3ce3db3 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -602,6 +602,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     PyFrameObject *next_frame = PyFrame_GetBack(frame);
                                     numframes--;
                                     if (numframes == frameno) {
+                                        Py_XDECREF(next_frame);
                                         Py_DECREF(current_frame);
                                         Py_DECREF(name);
                                         return (PyObject *)frame;
@@ -609,7 +610,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
-                                Py_DECREF(current_frame);
+                                Py_XDECREF(current_frame);
 #else
                                 for (frame = ts->frame; frame; frame = frame->f_back) {
                                     numframes++;
-- 
2.43.0


From 2afead36354510201692b94d83664fcbf15373b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 31/93] fix: the relation of a function to its builtins and
 type parameters is reported

---
 src/heapy/stdtypes.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 94cf498..5f24904 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -191,6 +191,12 @@ function_relate(NyHeapRelate *r)
     RENAMEATTR(func_closure, __closure__);
     RENAMEATTR(func_annotations, __annotations__);
     RENAMEATTR(func_qualname, __qualname__);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 10
+    RENAMEATTR(func_builtins, __builtins__);
+#endif
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+    RENAMEATTR(func_typeparams, __type_params__);
+#endif
     return dict_relate_kv(r, v->func_dict, NYHR_HASATTR, NYHR_ATTRIBUTE);
 }
 
-- 
2.43.0


From 936419bb87e0c75b1d82cc0efddc4ce6cf2c2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 32/93] fix: classes refer to their metaclass

---
 src/heapy/stdtypes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 5f24904..c8b36c9 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -669,6 +669,10 @@ type_traverse(NyHeapTraverse *ta)
     Py_VISIT(type->tp_cache);
     Py_VISIT(type->tp_base);
 
+    /* Types own a reference to their type when it is a heap type */
+    if (Py_TYPE(type)->tp_flags & Py_TPFLAGS_HEAPTYPE)
+        Py_VISIT(Py_TYPE(type));
+
     if (!(type->tp_flags & Py_TPFLAGS_HEAPTYPE))
         return 0;
     Py_VISIT(((PyHeapTypeObject *)type)->ht_name);
-- 
2.43.0


From 8407237b026a486713dd668504353927bf045fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 33/93] fix: the relation of a frame to the calling frame is
 reported once

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index c8b36c9..01430f0 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -267,8 +267,9 @@ frame_relate(NyHeapRelate *r)
         return 1;
     }
     Py_XDECREF(next_frame);
-#endif
+#else
     ATTR(f_back)
+#endif
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
     GATTR(PyStackRef_AsPyObjectBorrow(iv->f_funcobj), f_funcobj, NYHR_INTERATTR);
 #elif PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
-- 
2.43.0


From eea0fd206a030c857f6cf643861e8d7fe6015298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 34/93] fix: the relation of an object to its dict is reported
 once

---
 src/heapy/hv.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 8ef5c2d..d3b4420 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -229,6 +229,35 @@ owht_relate(NyHeapRelate *r, PyTypeObject *type)
     return 0;
 }
 
+static int
+has_dict_member(PyTypeObject *type)
+{
+    PyMemberDef *mp;
+    for (; type; type = type->tp_base)
+        for (mp = type->tp_members; mp && mp->name; mp++)
+            if ((mp->type == T_OBJECT_EX || mp->type == T_OBJECT) &&
+                strcmp(mp->name, "__dict__") == 0)
+                return 1;
+    return 0;
+}
+
+static int
+instance_dict_relate(NyHeapRelate *r)
+{
+    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
+    if (dictptr) {
+        /* A member with the same name is already reported by owht_relate */
+        if (*dictptr == r->tgt && !has_dict_member(Py_TYPE(r->src))) {
+            if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
+                return 1;
+        }
+        if (dict_relate_kv(r, *dictptr, NYHR_HASATTR, NYHR_ATTRIBUTE)) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
 static NyHeapDef default_hd = {
     0,               /* flags */
     0,               /* type */
@@ -249,20 +278,9 @@ static int
 xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
     PyTypeObject *type = xt->xt_type;
-    PyObject **dictptr;
     if (owht_relate(r, type))
         return 1;
-    dictptr = _PyObject_GetDictPtr(r->src);
-    if (dictptr) {
-        if (*dictptr == r->tgt) {
-            if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
-                return 1;
-        }
-        if (dict_relate_kv(r, *dictptr, NYHR_HASATTR, NYHR_ATTRIBUTE)) {
-            return 1;
-        }
-    }
-    return 0;
+    return instance_dict_relate(r);
 }
 
 static int
-- 
2.43.0


From d2d7a883ee383323f54add70576d0d2431fe36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 35/93] fix: attributes of instances of list, dict, set and
 tuple subclasses are related

---
 src/heapy/hv.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index d3b4420..5cfabfd 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -258,6 +258,16 @@ instance_dict_relate(NyHeapRelate *r)
     return 0;
 }
 
+static int
+type_has_dict(PyTypeObject *type)
+{
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
+    if (type->tp_flags & Py_TPFLAGS_MANAGED_DICT)
+        return 1;
+#endif
+    return type->tp_dictoffset != 0;
+}
+
 static NyHeapDef default_hd = {
     0,               /* flags */
     0,               /* type */
@@ -292,8 +302,15 @@ xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 static int
 xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
-    if (owht_relate(r, xt->xt_type))
+    PyTypeObject *type = xt->xt_type;
+    if (owht_relate(r, type))
         return 1;
+    /* When the base has a relate function of its own, it doesn't know about
+       a dict that is added to its instances by a subtype. */
+    if (xt->xt_hd->relate && type_has_dict(type) && !type_has_dict(type->tp_base)) {
+        if (instance_dict_relate(r))
+            return 1;
+    }
     return xt->xt_base->xt_relate(xt->xt_base, r);
 }
 
-- 
2.43.0


From b7e8d6705f25c72f97e042f3e0f5e5a9fd2fa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 36/93] fix: the number of shortest paths agrees with the paths
 that are shown

---
 guppy/heapy/Path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index d4c03dd..ba1d203 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -331,7 +331,7 @@ class ShortestPaths:
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
             self.NP = NP
-        numedges = self.mod.hv.numedges
+        relations = self.mod.relations
         IG = self.IG
 
         def np(y):
@@ -342,7 +342,7 @@ class ShortestPaths:
                     sn = NP[z]
                     if sn is None:
                         sn = np(z)
-                    n += sn * numedges(y, z)
+                    n += sn * len(relations(y, z))
                 NP[y] = n
             return n
         num = 0
-- 
2.43.0


From 4124151af263d0ad11cbcda96b4d43e420116fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 37/93] fix: the mangled slot names of a class are not reported
 as its __slots__

---
 src/heapy/stdtypes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 01430f0..a3a90c4 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -719,7 +719,7 @@ type_relate(NyHeapRelate *r)
     et = (PyHeapTypeObject *)type;
 #define v et
     RENAMEATTR(ht_name, __name__);
-    RENAMEATTR(ht_slots, __slots__);
+    INTERATTR(ht_slots);
     RENAMEATTR(ht_qualname, __qualname__);
 
     INTERATTR(ht_module);
-- 
2.43.0


From 9bc3c32185d3810110e253cebdf520dfd7a95fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 38/93] fix: a mutable nodeset cleared by the garbage collector
 stays usable

---
 src/sets/nodeset.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 1183277..6e17a00 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -372,7 +372,7 @@ nodeset_dealloc_iter(PyObject *obj, void *v)
 }
 
 static int
-mutnodeset_gc_clear(NyNodeSetObject *v)
+mutnodeset_drop(NyNodeSetObject *v)
 {
     if (v->u.bitset) {
         PyObject *x = v->u.bitset;
@@ -390,12 +390,29 @@ mutnodeset_gc_clear(NyNodeSetObject *v)
     return 0;
 }
 
+static int
+mutnodeset_gc_clear(NyNodeSetObject *v)
+{
+    /* The set may still be used after it has been cleared, by finalizers and
+       by objects that can not be cleared, so it gets an empty bitset. */
+    NyNodeSetObject old = *v;
+    PyObject *bitset = (PyObject *)NyMutBitSet_New();
+    if (!bitset) {
+        PyErr_Clear();
+        return 0;
+    }
+    v->u.bitset = bitset;
+    v->_hiding_tag_ = 0;
+    Py_SET_SIZE(v, 0);
+    return mutnodeset_drop(&old);
+}
+
 static void
 mutnodeset_dealloc(NyNodeSetObject *v)
 {
     PyObject_GC_UnTrack(v);
     Py_TRASHCAN_BEGIN(v, mutnodeset_dealloc)
-    mutnodeset_gc_clear(v);
+    mutnodeset_drop(v);
     Py_TYPE(v)->tp_free((PyObject *)v);
     Py_TRASHCAN_END
 }
-- 
2.43.0


From 4590ff1412c6de11ab418e3cd2f0675ce7148153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 39/93] fix: the reference of an object to its type is a
 relation it is classified by

---
 src/heapy/hv_cli_rel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 8e67f94..2f4511b 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -321,7 +321,7 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
 
-        if (xt->xt_relate(xt, &crva.hr) == -1 || crva.err) {
+        if (xt_relate(xt, &crva.hr) == -1 || crva.err) {
             /* fprintf(stderr, "xt 0x%x\n", xt); */
             goto Err;
         }
-- 
2.43.0


From 0ba44e9e2aa2bfa7f9b2c1eb2ed92a2fc3996860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 40/93] fix: the input symbols of an automaton can be listed

---
 guppy/etc/FSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/FSA.py b/guppy/etc/FSA.py
index deb2847..d0f5afa 100644
--- a/guppy/etc/FSA.py
+++ b/guppy/etc/FSA.py
@@ -63,7 +63,7 @@ class FiniteAutomaton:
     def get_all_input_symbols(self):
         syms = {}
         for state, trans in list(self.table.items()):
-            for k, v in trans:
+            for k in trans:
                 syms[k] = 1
         return syms
 
-- 
2.43.0


From eaa186b6d1ec1f4e522268ef9ed804e13be740c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 41/93] fix: choosing between overlapping rectangles does not
 use the removed cmp()

---
 guppy/etc/RE_Rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/RE_Rect.py b/guppy/etc/RE_Rect.py
index d2f62e9..ff73d4f 100644
--- a/guppy/etc/RE_Rect.py
+++ b/guppy/etc/RE_Rect.py
@@ -104,7 +104,7 @@ def cmp_gauged(xs, ys, gauges):
     for gauge in gauges:
         gx = sum_gauge(gauge, xs)
         gy = sum_gauge(gauge, ys)
-        c = cmp(gx, gy)
+        c = (gx > gy) - (gx < gy)
         if c:
             return c
     return 0
-- 
2.43.0


From 8d3e618042cf6992c00fc9cbbc20bbdee8042a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 42/93] fix: simplifying a concatenation keeps its unions

---
 guppy/etc/RE.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 8b113e7..354fc48 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -527,8 +527,7 @@ class Union(RE):
             c.apseq(ap)
 
     def apseqatoms(self, ap):
-        for x in self:
-            x.apseqatoms(ap)
+        ap(self)
 
     def get_words_of_length_memoized(self, N, memo):
         xs = []
-- 
2.43.0


From 8b07a9798092815d72613bdfc470d11d9bf2ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 43/93] fix: the expression of an automaton that returns to its
 start state includes the loop

---
 guppy/etc/RE.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 354fc48..6ab7c11 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -925,7 +925,11 @@ class RegularSystem:
         # The equation system is now solved
         # The result is in Final term of Start equation
 
-        return X[Start][Final]
+        Ts = X[Start]
+        re = Ts[Final]
+        if Start in Ts:
+            re = Ts[Start]('*') + re
+        return re
 
 
 Nothing = Union()
-- 
2.43.0


From d1f55710652adf3cfbfbadba2254955fb8ea7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 44/93] fix: the sets of a Kan extension contain only
 irreducible elements

---
 guppy/etc/KanExtension.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/guppy/etc/KanExtension.py b/guppy/etc/KanExtension.py
index 156e837..ddbc39b 100644
--- a/guppy/etc/KanExtension.py
+++ b/guppy/etc/KanExtension.py
@@ -131,12 +131,11 @@ class LeftKanExtension:
             for b, tgtb in follows[target(xi)]:
                 bterm = (b,)
                 xib = xi + bterm
-                if xib in pplR:
-                    fsa.add_transition(xi, b, xib, tgtb)
-                elif (bterm in pplR and xib not in IR):
-                    fsa.add_transition(xi, b, bterm, tgtb)
-                elif xib not in IR:
-                    fsa.add_transition(xi, b, tgtb)
+                if self.irreducible(xib):
+                    # Both may be the beginning of something reducible
+                    nexts = [t for t in (xib, bterm) if t in pplR]
+                    nexts.append(tgtb)
+                    fsa.add_transition(xi, b, *nexts)
 
         for Bi in self.B.objects:
             for b, tgtb in follows[Bi]:
-- 
2.43.0


From 3bf676487f378d7d64f8380f611f6a5a927b4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 45/93] fix: automata that accept nothing and empty Kan
 extensions are handled

---
 guppy/etc/FSA.py | 2 +-
 guppy/etc/RE.py  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/guppy/etc/FSA.py b/guppy/etc/FSA.py
index d0f5afa..5174718 100644
--- a/guppy/etc/FSA.py
+++ b/guppy/etc/FSA.py
@@ -2,7 +2,7 @@ class FiniteAutomaton:
     def __init__(self, start_state, dump_state=''):
         self.start_state = start_state
         self.dump_state = dump_state
-        self.table = {self.dump_state: {}}
+        self.table = {self.dump_state: {}, self.start_state: {}}
         self.unresolved_composites = []
         self.resolved_composites = []
         self.composite_memo = {}
diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 6ab7c11..2bb6071 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -563,6 +563,8 @@ class Union(RE):
         # Create a simplfied union
         # Assuming args are simplified, non-unions
 
+        if not args:
+            return Nothing
         ch = [a.seqatoms() for a in args]
         return simpleunion(ch)
 
@@ -926,6 +928,9 @@ class RegularSystem:
         # The result is in Final term of Start equation
 
         Ts = X[Start]
+        if Final not in Ts:
+            # No word is accepted
+            return Nothing
         re = Ts[Final]
         if Start in Ts:
             re = Ts[Start]('*') + re
-- 
2.43.0


From e43e4fd3fdeaa0d929b887d19963b3ba86898f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:26 +0000
Subject: [PATCH 46/93] fix: objects of kinds given by size or module can be
 rendered

---
 guppy/heapy/Classifiers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 35081e6..2262dce 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -348,7 +348,8 @@ class IndiSizeFamily:
         return a.arg == self.classifier.cli.classify(b)
 
     def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
+        # Objects of any type may have the size.
+        return self.mod.summary_str.str_address
 
     def c_get_brief(self, a):
         return '<size = %d>' % a.arg
@@ -1027,7 +1028,7 @@ class ModuleFamily:
         return b is a.arg
 
     def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
+        return self.mod.summary_str(type(a.arg))
 
     def c_get_brief(self, a):
         return self.mod.summary_str(type(a.arg))(a.arg)
-- 
2.43.0


From 310776f4ad9b64e01f54e1d8c798dce3199e2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 47/93] fix: modules, bound methods and ints without a usual
 text can be printed

---
 guppy/heapy/UniSet.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d3b5874..a528eb0 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -2048,19 +2048,33 @@ class Summary_str:
         try:
             func_name = func.__func__
         except AttributeError:
-            func_name = func.__name__
+            func_name = getattr(func, '__name__', None)
+            if func_name is None:
+                # eg functools.partial
+                func_name = '<%s at %s>' % (
+                    self.str_type(func.__class__), self.str_address(func))
         return '%s.%s' % (cn, func_name)
     str_method._idpart_header = 'Type/<Type at address> . method'
 
     def str_module(self, x):
-        return x.__name__
+        name = getattr(x, '__name__', None)
+        if not isinstance(name, str):
+            return self.str_address(x)
+        return name
     str_module._idpart_header = 'Name'
 
     def str_limrepr(self, x):
         return self.mod._root.reprlib.repr(x)
     str_limrepr._idpart_header = 'Representation (limited)'
     str_limrepr._idpart_sortrender = 'IDENTITY'
-    str_repr = repr
+
+    def str_repr(self, x):
+        try:
+            return repr(x)
+        except ValueError:
+            # An int with more digits than repr() is willing to convert
+            return hex(x)
+    str_repr._idpart_sortrender = 'IDENTITY'
 
     def str_traceback(self, x):
         return '<in frame %s at %s>' % (self.str_frame(x.tb_frame), self.str_address(x))
-- 
2.43.0


From f3a6980946ce5a2244dac453067e3c22020fbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 48/93] fix: rows of a reference pattern labelled by digit-like
 letters can be found by name

---
 guppy/heapy/RefPat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 0ce8e22..2dc863e 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -5,10 +5,10 @@ def str_as_atr(s):
     i = 0
     while i < len(s):
         v = s[i]
-        if i + 1 < len(s) and s[i+1].isdigit():
+        if i + 1 < len(s) and s[i+1] in '0123456789':
             n = 0
             i = i + 1
-            while i < len(s) and s[i].isdigit():
+            while i < len(s) and s[i] in '0123456789':
                 n = n * 10 + int(s[i])
                 i += 1
         else:
-- 
2.43.0


From acaf11bfca936792fcd002cc8da8f194175999f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 49/93] fix: relations by keys without repr() can be printed

---
 guppy/heapy/Path.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index ba1d203..d5ee9e4 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -27,10 +27,13 @@ class R_INDEXVAL:
     code = 2
 
     def stra(self, a, safe=True):
-        if safe:
-            return '%s[%s]' % (a, self.saferepr(self.r))
-        else:
-            return '%s[%r]' % (a, self.r)
+        if not safe:
+            try:
+                return '%s[%r]' % (a, self.r)
+            except Exception:
+                # The key has no repr()
+                pass
+        return '%s[%s]' % (a, self.saferepr(self.r))
 
 
 class R_INDEXKEY:
@@ -452,7 +455,17 @@ class _GLUECLAMP_:
     def _get__hiding_tag_(self): return self._parent.View._hiding_tag_
     def _get_identity(self): return self.rel_table[R_IDENTITY.code]('')
     def _get_norelation(self): return self.rel_table[R_NORELATION.code]('')
-    def _get_saferepr(self): return self._root.reprlib.repr
+
+    def _get_saferepr(self):
+        class SafeRepr(self._root.reprlib.Repr):
+            def repr_int(self, x, level):
+                try:
+                    return super().repr_int(x, level)
+                except ValueError:
+                    # More digits than repr() is willing to convert
+                    return self.repr_instance(x, level)
+        return SafeRepr().repr
+
     def _get_shpathstep(self): return self.hv.shpathstep
 
     def sortedrels(self, IG, Src):
-- 
2.43.0


From c1e66c33075f62c11217f3bdb257cc16ee4d65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 50/93] fix: sets of complemented kinds and modules without a
 name can be summarised

---
 guppy/heapy/Classifiers.py | 4 +++-
 guppy/heapy/UniSet.py      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 2262dce..43602c7 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1098,7 +1098,9 @@ class ByModule(Classifier):
             return ''
         else:
             m = kind.arg
-            name = m.__name__
+            name = getattr(m, '__name__', None)
+            if not isinstance(name, str):
+                return 'at=%s' % hex(id(m))
             s = '%r' % name
             if self.mod._root.sys.modules.get(name) is not m:
                 s += ', at=%s' % hex(id(m))
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index a528eb0..67d8a60 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1473,7 +1473,8 @@ class InvertFamily(Family):
         return a.arg
 
     def c_get_render(self, a):
-        return a.arg.get_render()
+        # The objects are just those that a.arg can not render.
+        return self.mod.summary_str.str_address
 
     def c_get_brief(self, a):
         n = a.arg.brief
-- 
2.43.0


From 10cc68559607f1165dee0972c0ab1cf25a489969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 51/93] fix: no row for a kind without difference when several
 rows have its name

---
 guppy/heapy/Part.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 5f0ddb2..36a6f72 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -313,6 +313,8 @@ class Stat:
                 sr = StatRow(count, size, r.name)
                 stab[sr.name] = sr
                 rows.append(sr)
+        # Several rows of the same name may cancel out.
+        rows = [r for r in rows if r.count or r.size]
         rs = list(otab.values())
         rs.sort(key=lambda x: x.index)  # Preserve orig. order
         for r in rs:
-- 
2.43.0


From b0fea641a3ac24943eea7b10697fcaa22561a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 52/93] fix: default_reprefix can be changed

---
 guppy/heapy/Use.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 159226d..197edf1 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -20,7 +20,9 @@ class _GLUECLAMP_(guppy.etc.Glue.Interface):
                  'warnings', 'Stat'
                  )
 
-    default_reprefix = 'hpy().'
+    def _get_default_reprefix(self):
+        # Not a class attribute: it could not be changed.
+        return 'hpy().'
 
     def _get_gcobjs(self):
         return self.Nothing
-- 
2.43.0


From fdfd193549f16753a50798aaf2c5783342f8e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 53/93] fix: the prefix of representations does not depend on
 proxies in __main__

---
 guppy/heapy/Use.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 197edf1..162f316 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -43,7 +43,8 @@ class _GLUECLAMP_(guppy.etc.Glue.Interface):
         # so it becomes possible to evaluate it in a typical environment.
         import __main__
         for k, v in list(__main__.__dict__.items()):
-            if (isinstance(v, self.__class__) and
+            # Not isinstance(): it would ask v for its __class__.
+            if (issubclass(type(v), self.__class__) and
                     getattr(v, '_share', None) is self._share):
                 return '%s.' % k
         return self.default_reprefix
-- 
2.43.0


From 01c3f94ba36ee6b7abd012bed6fa50f6b694fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 54/93] fix: types made ready while a Horizon is alive can be
 deallocated

---
 src/heapy/horizon.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index ebf53d1..0d7f872 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -37,13 +37,17 @@ static void horizon_patched_dealloc(PyObject *v);
 static destructor
 horizon_get_org_dealloc(PyTypeObject *t)
 {
-    if (!rm.types && t->tp_dealloc != horizon_patched_dealloc)
+    /* A type made ready while its base was patched has inherited the
+       patched destructor, and keeps it when the base is restored. */
+    while (t && t->tp_dealloc == horizon_patched_dealloc) {
+        PyObject *d = rm.types ? PyDict_GetItem(rm.types, (PyObject *)t) : 0;
+        if (d)
+            return (destructor)PyLong_AsSsize_t(d);
+        t = t->tp_base;
+    }
+    if (t)
         return t->tp_dealloc;
 
-    PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
-    if (d)
-        return (destructor)PyLong_AsSsize_t(d);
-
     Py_FatalError("horizon_get_org_dealloc: no original destructor found");
 }
 
-- 
2.43.0


From 9818038287b7c454f393b523cba4320112abf01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 55/93] fix: a Horizon notices the deallocation of objects of
 extension heap types

---
 src/heapy/horizon.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 0d7f872..f92b7d5 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -30,6 +30,7 @@ typedef struct _NyHorizonObject {
 static struct {
     NyHorizonObject *horizons;
     PyObject *types;
+    destructor subtype_dealloc;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -81,11 +82,27 @@ horizon_dealloc(NyHorizonObject *rg)
 }
 
 
+/* Find the destructor of classes, which calls the one of their base. The
+   heap types of extension modules may have their own, which does not. */
+static int
+horizon_init_subtype_dealloc(void)
+{
+    if (!rm.subtype_dealloc) {
+        PyObject *c = PyObject_CallFunction((PyObject *)&PyType_Type, "s(){}",
+                                            "Horizon");
+        if (!c)
+            return -1;
+        rm.subtype_dealloc = ((PyTypeObject *)c)->tp_dealloc;
+        Py_DECREF(c);
+    }
+    return 0;
+}
+
 static PyTypeObject *
 horizon_base(PyObject *v)
 {
     PyTypeObject *t = Py_TYPE(v);
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+    while (t->tp_dealloc == rm.subtype_dealloc) {
         assert(t->tp_base);
         assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
             PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
@@ -154,6 +171,8 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
                                  kwlist,
                                  &X))
         goto err;
+    if (horizon_init_subtype_dealloc() == -1)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
     if (!hz)
         goto err;
-- 
2.43.0


From c7f4388ebae172b85bddd8f69b82f93c357d9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 56/93] fix: deallocation of deeply nested objects while a
 Horizon is alive

---
 src/heapy/horizon.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index f92b7d5..b7a36e1 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -120,7 +120,16 @@ horizon_patched_dealloc(PyObject *v)
         if (NyNodeSet_clrobj(r->hs, v) == -1)
             Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
     }
-    horizon_get_org_dealloc(horizon_base(v))(v);
+    if (Py_TYPE(v)->tp_dealloc == horizon_patched_dealloc && PyObject_IS_GC(v)) {
+        /* The original destructor does not limit the nesting itself, since
+           it is not the one of the type. */
+        PyObject_GC_UnTrack(v);
+        Py_TRASHCAN_BEGIN(v, horizon_patched_dealloc)
+        PyObject_GC_Track(v);
+        horizon_get_org_dealloc(horizon_base(v))(v);
+        Py_TRASHCAN_END
+    } else
+        horizon_get_org_dealloc(horizon_base(v))(v);
 }
 
 static int
-- 
2.43.0


From fa8af9bcc74aa632b49d35034b974206bad11216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 57/93] fix: paths follow a changed reprefix

---
 guppy/heapy/Path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index d5ee9e4..637f826 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -432,7 +432,7 @@ class _GLUECLAMP_:
         '_parent.Use:idset',
         '_parent.Use:iso',
         '_parent.Use:Nothing',
-        '_parent.Use:reprefix',
+        '_parent:Use',  # NOT Use.reprefix, since it may change
         '_parent.UniSet:idset_adapt',
         '_parent.View:hv',
         '_parent.View:nodegraph',
@@ -518,7 +518,7 @@ class _GLUECLAMP_:
         if src is None:
             Src = self.iso(self.View.root)
             if srcname is None and self.View.root is self.View.heapyc.RootState:
-                srcname = '%sRoot' % self.reprefix
+                srcname = '%sRoot' % self.Use.reprefix
         else:
             Src = self.idset_adapt(src)
         if avoid_nodes is None:
-- 
2.43.0


From d56fd3e6a16a928975a3fa74b9b3d52d844c5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 58/93] fix: destructors that call the one of their base can be
 patched by a Horizon

---
 src/heapy/horizon.c | 54 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index b7a36e1..d4239f0 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -27,27 +27,48 @@ typedef struct _NyHorizonObject {
    The struct rm must be a static/global singleton, since it is intimately bound to patching
  */
 
+/* An object whose original destructor, the one of type, is running */
+typedef struct HorizonDying {
+    struct HorizonDying *next;
+    PyObject *obj;
+    PyTypeObject *type;
+} HorizonDying;
+
 static struct {
     NyHorizonObject *horizons;
+    HorizonDying *dying;
     PyObject *types;
     destructor subtype_dealloc;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
 
+/* Get the original destructor of *tp or of the nearest base that has been
+   patched, and set *tp to the type it is from. */
 static destructor
-horizon_get_org_dealloc(PyTypeObject *t)
+horizon_get_org_dealloc(PyTypeObject **tp)
 {
+    PyTypeObject *t = *tp;
+    /* The destructor of a type may call the one of its base. */
+    while (t && t->tp_dealloc != horizon_patched_dealloc)
+        t = t->tp_base;
+    /* All may have been restored since the caller got the destructor. */
+    if (!t)
+        return (*tp)->tp_dealloc;
     /* A type made ready while its base was patched has inherited the
        patched destructor, and keeps it when the base is restored. */
     while (t && t->tp_dealloc == horizon_patched_dealloc) {
         PyObject *d = rm.types ? PyDict_GetItem(rm.types, (PyObject *)t) : 0;
-        if (d)
+        if (d) {
+            *tp = t;
             return (destructor)PyLong_AsSsize_t(d);
+        }
         t = t->tp_base;
     }
-    if (t)
+    if (t) {
+        *tp = t;
         return t->tp_dealloc;
+    }
 
     Py_FatalError("horizon_get_org_dealloc: no original destructor found");
 }
@@ -112,24 +133,47 @@ horizon_base(PyObject *v)
 }
 
 
+static void
+horizon_org_dealloc(PyObject *v, PyTypeObject *t)
+{
+    HorizonDying d, **p;
+    destructor org = horizon_get_org_dealloc(&t);
+    d.obj = v;
+    d.type = t;
+    d.next = rm.dying;
+    rm.dying = &d;
+    org(v);
+    for (p = &rm.dying; *p != &d; p = &((*p)->next))
+        ;
+    *p = d.next;
+}
+
 static void
 horizon_patched_dealloc(PyObject *v)
 {
     NyHorizonObject *r;
+    HorizonDying *d;
     for (r = rm.horizons; r; r = r->next) {
         if (NyNodeSet_clrobj(r->hs, v) == -1)
             Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
     }
+    for (d = rm.dying; d; d = d->next) {
+        if (d->obj == v) {
+            /* Called by the destructor of d->type */
+            horizon_org_dealloc(v, d->type->tp_base);
+            return;
+        }
+    }
     if (Py_TYPE(v)->tp_dealloc == horizon_patched_dealloc && PyObject_IS_GC(v)) {
         /* The original destructor does not limit the nesting itself, since
            it is not the one of the type. */
         PyObject_GC_UnTrack(v);
         Py_TRASHCAN_BEGIN(v, horizon_patched_dealloc)
         PyObject_GC_Track(v);
-        horizon_get_org_dealloc(horizon_base(v))(v);
+        horizon_org_dealloc(v, horizon_base(v));
         Py_TRASHCAN_END
     } else
-        horizon_get_org_dealloc(horizon_base(v))(v);
+        horizon_org_dealloc(v, horizon_base(v));
 }
 
 static int
-- 
2.43.0


From 1170441fd5d2723251711c07f6ff4ff8a5eb0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 59/93] fix: frames of the analyser are hidden by every query

---
 guppy/heapy/View.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 02823b9..83f4809 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -87,6 +87,18 @@ class _GLUECLAMP_:
     def _get__clear_hook(self):
         return self.mutnodeset()
 
+    def calling_frame(self):
+        # The innermost frame that is not executing code of ours
+        frame = self._root.sys._getframe(1)
+        while frame is not None:
+            name = frame.f_globals.get('__name__')
+            if (not isinstance(name, str) or
+                    not name.startswith(('guppy.heapy.', 'guppy.etc.')) or
+                    name.startswith('guppy.heapy.test.')):
+                break
+            frame = frame.f_back
+        return frame
+
     def clear_check(self):
         ch = self._clear_hook
         try:
@@ -228,8 +240,11 @@ Return a tuple of dominos for the tuple of sets of objects X."""
         T = self.hv.reachable
         S = self.immnodeset([self.root])
         D = self.immnodeset_union(D_)
-        W = T(S, D)
-        return tuple([self.retset(T(Di, W) - T(D, W | Di)) for Di in D_])
+
+        def f():
+            W = T(S, D)
+            return tuple([self.retset(T(Di, W) - T(D, W | Di)) for Di in D_])
+        return self.enter(f)
 
     def domisize(self, X):
         """domisize(X) -> int
@@ -251,8 +266,7 @@ Return a tuple of dominated sizes for the tuple of sets of objects X."""
         elif self.hv.limitframe is not None:
             return func()
         else:
-            import inspect
-            self.hv.limitframe = inspect.currentframe().f_back.f_back
+            self.hv.limitframe = self.calling_frame()
 
         try:
             retval = func()
@@ -377,7 +391,8 @@ Return the immediate dominators of a set of objects X. The immediate
 dominators is a subset of the referrers. It includes only those
 referrers that are reachable directly, avoiding any other referrer."""
         pred = self.nodeset_adapt(self.referrers(X))
-        visit = self.hv.reachable_x(self.immnodeset([self.root]), pred)
+        visit = self.enter(lambda: self.hv.reachable_x(
+            self.immnodeset([self.root]), pred))
         return self.retset(pred & visit)
 
     def indisize(self, X):
@@ -422,7 +437,8 @@ visible subobjects. See also: domisize."""
         except ValueError:
             pass
         try:
-            return self.immnodeset(self.hv.heap()).obj_at(addr)
+            return self.immnodeset(
+                self.enter(self.hv.heap)).obj_at(addr)
         except ValueError:
             raise ValueError('No object found at address %s' % hex(addr))
 
@@ -451,7 +467,8 @@ visible subobjects. See also: domisize."""
         """V.referents(X) -> idset
 Return the set of objects that are directly referred to by
 any of the objects in the set X."""
-        return self.retset(self.hv.relimg(self.nodeset_adapt(X)))
+        X = self.nodeset_adapt(X)
+        return self.retset(self.enter(lambda: self.hv.relimg(X)))
 
     def referrers(self, X):
         """V.referrers(X) -> idset
@@ -468,7 +485,8 @@ any of the objects in the set X."""
                     self.rg.clear()
                     import gc
                     gc.collect()
-                    self.hv.update_referrers_completely(self.rg)
+                    self.enter(lambda: self.hv.update_referrers_completely(
+                        self.rg))
                     addnoref = X - self.rg.get_domain()
                     self.norefer |= addnoref
             else:
@@ -481,7 +499,7 @@ any of the objects in the set X."""
                             Y |= t.set.nodes
                     Y |= self.rg.get_domain()
                     self.rg.clear()
-                    self.hv.update_referrers(self.rg, Y)
+                    self.enter(lambda: self.hv.update_referrers(self.rg, Y))
                     self.norefer.clear()
                     self.norefer |= (X | Y | self.rg.get_range())
                     self.norefer -= self.rg.get_domain()
-- 
2.43.0


From 156e56937aa6a4c607cbf87e2eb807ec855c9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 60/93] fix: a heap view survives a failure to allocate a type
 entry

---
 src/heapy/hv.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 5cfabfd..d2df936 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -423,42 +423,38 @@ xt_findout_relate(ExtraType *xt)
 }
 
 static ExtraType *
-hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **xtp)
+hv_new_xt_for_type(NyHeapViewObject *hv, PyTypeObject *type)
 {
-    ExtraType *xt = PyMem_New(ExtraType, 1);
+    ExtraType **xtp;
+    ExtraType *xt, *cur;
+    xt = PyMem_New(ExtraType, 1);
     if (!xt) {
         PyErr_NoMemory();
         return 0;
     }
     memset(xt, 0, sizeof(ExtraType));
-    *xtp = xt;
     xt->xt_hv = (void *)hv;
     xt->xt_type = type;
+    /* This may collect garbage and thus delete other entries of the table. */
     xt->xt_weak_type = PyWeakref_NewRef((PyObject *)type, hv->weak_type_callback);
     if (!xt->xt_weak_type) {
         PyMem_Del(xt);
         return 0;
     }
-    return xt;
-}
-
-static ExtraType *
-hv_new_xt_for_type(NyHeapViewObject *hv, PyTypeObject *type)
-{
-    int hash = XT_HASH(hv, type);
-    ExtraType **xtp = &hv->xt_table[hash];
-    ExtraType *xt;
-    while ((xt = *xtp)) {
-        if (xt->xt_type == type) {
+    xtp = &hv->xt_table[XT_HASH(hv, type)];
+    while ((cur = *xtp)) {
+        if (cur->xt_type == type) {
             PyErr_Format(PyExc_ValueError,
                          "Duplicate heap definition for type '%.50s'",
                          type->tp_name);
+            Py_DECREF(xt->xt_weak_type);
+            PyMem_Del(xt);
             return 0;
         }
-        xtp = &xt->xt_next;
+        xtp = &cur->xt_next;
     }
-    return hv_new_xt_for_type_at_xtp(hv, type, xtp);
-
+    *xtp = xt;
+    return xt;
 }
 
 static void
-- 
2.43.0


From 346a4ccc0736ca2ca75931d8046f394f5ad7cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 61/93] fix: bitsets and their operands stay valid when an
 allocation fails

---
 src/sets/bitset.c | 153 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 112 insertions(+), 41 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 0a9910e..9b827b0 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -724,6 +724,8 @@ NyImmBitSet_SubtypeNewArg(PyTypeObject *type, PyObject *v)
     if (vt == BITSET) {
         NyImmBitSetObject *bs = (NyImmBitSetObject *)v;
         NyImmBitSetObject *ret = NyImmBitSet_SubtypeNew(type, Py_SIZE(bs));
+        if (!ret)
+            return 0;
         memcpy(ret->ob_field, bs->ob_field, sizeof(NyBitField) * Py_SIZE(bs));
         return ret;
     }
@@ -791,9 +793,11 @@ mutbitset_initset(NyMutBitSetObject *v, NyImmBitSetObject *set)
         sf->hi = set->ob_field + Py_SIZE(set);
     } else {
         sf->set = immbitset_realloc(0, 1);
-        sf->lo = sf->hi = sf->set->ob_field;
-        if (!sf->set)
+        if (!sf->set) {
+            v->root->cur_size = 0;
             return -1;
+        }
+        sf->lo = sf->hi = sf->set->ob_field;
     }
     return 0;
 }
@@ -803,6 +807,7 @@ NyMutBitSet_SubtypeNew(PyTypeObject *type, NyImmBitSetObject *set, NyUnionObject
 {
     NyMutBitSetObject *v = (NyMutBitSetObject *)type->tp_alloc(type, 0);
     if (v) {
+        n_mutbitset++;
         v->cur_field = 0;
         v->cpl = 0;
         v->splitting_size = 500/*1000*/;
@@ -822,7 +827,6 @@ NyMutBitSet_SubtypeNew(PyTypeObject *type, NyImmBitSetObject *set, NyUnionObject
             v->root = root;
             Py_INCREF(root);
         }
-        n_mutbitset++;
     }
     return v;
 }
@@ -902,6 +906,12 @@ union_realloc(NyUnionObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * size);
+        if (!ret) {
+            /* The old object remains */
+            PyObject_InitVar((void *)self, Py_TYPE(self), Py_SIZE(self));
+            PyErr_NoMemory();
+            return 0;
+        }
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), size);
         return ret;
     }
@@ -959,6 +969,12 @@ immbitset_realloc(NyImmBitSetObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * upsize);
+        if (!ret) {
+            /* The old object remains */
+            PyObject_InitVar((void *)self, Py_TYPE(self), Py_SIZE(self));
+            PyErr_NoMemory();
+            return 0;
+        }
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), upsize);
         return ret;
     }
@@ -1083,8 +1099,13 @@ mutbitset_split_ins1(NyMutBitSetObject *v, NySetField *sf, NyBitField *f, NyBit
     if (!nsf)
         return 0;
     sf = v->root->ob_field + sfpos;
-    if (sf_realloc(nsf, b_size) == -1)
+    if (sf_realloc(nsf, b_size) == -1) {
+        /* Take out the new set field again */
+        NyBit nsfpos = sfpos + 1;
+        v->root->cur_size--;
+        sfp_move(nsf, nsf + 1, v->root->cur_size - nsfpos);
         return 0;
+    }
     nsf->lo = nsf->set->ob_field + (Py_SIZE(nsf->set) - b_size) / 2;
     nsf->hi = nsf->lo + b_size;
     fp_move(nsf->lo, f, b_size);
@@ -1138,14 +1159,18 @@ mutbitset_findpos(NyMutBitSetObject *v, NyBit pos)
 }
 
 
-static NyBitField *
-mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
+/* Set *fp to the field to update in place, or to 0 if it was not found.
+   Return -1 if the field could not be made changeable, otherwise 0. */
+
+static int
+mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos, NyBitField **fp)
 {
     NyBitField *f = v->cur_field;
     NyUnionObject *root;
     NySetField *sf;
+    *fp = f;
     if (f && f->pos == pos)
-        return f;
+        return 0;
     root = v->root;
     {
         NySetField *lo = &root->ob_field[0];
@@ -1165,12 +1190,15 @@ mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
                 /* It was found but some struct needs to be copied.
                    Just research in ins mode. */
                 f = mutbitset_findpos_ins(v, pos);
+                if (!f)
+                    return -1;
             } else {
                 sf->set->ob_length = -1; /* Will be changed in place */
             }
         }
     }
-    return f;
+    *fp = f;
+    return 0;
 }
 
 
@@ -1439,7 +1467,8 @@ mutbitset_iop_field(NyMutBitSetObject *v, int op, NyBitField *w)
         break;
     case NyBits_SUB:
         if (w->bits) {
-            f = mutbitset_findpos_mut(v, w->pos);
+            if (mutbitset_findpos_mut(v, w->pos, &f) == -1)
+                return -1;
             if (!f)  return 0;
             f->bits &= ~ w->bits;
         }
@@ -1515,11 +1544,28 @@ mutbitset_iop_convert(NyMutBitSetObject *v, int op)
     return cpl_conv_left(&v->cpl, op);
 }
 
+/* Make all fields changeable in place, so that what follows can not fail. */
+
+static int
+mutbitset_getrange_all_mut(NyMutBitSetObject *v, NySetField **slo, NySetField **shi)
+{
+    NySetField *s;
+    NyBitField *f, *end_f;
+    if (mutbitset_getrange_mut(v, slo, shi) < 0)
+        return -1;
+    for (s = *slo; s < *shi; s++) {
+        if (sf_getrange_mut(s, &f, &end_f) < 0)
+            return -1;
+    }
+    return 0;
+}
+
 static int
 mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_w, *end_f;
+    int v_cpl = v->cpl;
     end_s = 0; /* avoid warning */
     op = mutbitset_iop_convert(v, op);
     switch(op) {
@@ -1535,11 +1581,10 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
         break;
     case NyBits_AND:
         end_w = w + n;
-        if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-            return -1;
+        if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+            goto Err;
         for (; s < end_s; s++) {
-            if (sf_getrange_mut(s, &f, &end_f) < 0)
-                return -1;
+            f = sf_getrange(s, &end_f);
             for (; f < end_f; f++) {
                 while (w < end_w && f->pos > w->pos)
                 w++;
@@ -1557,15 +1602,14 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
             for (i = 0; i < n; i++) {
                 if (w[i].bits) {
                     if (!mutbitset_findpos_ins(v, w[i].pos))
-                        return -1;
+                        goto Err;
                 }
             }
             end_w = w + n;
-            if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-                return -1;
+            if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+                goto Err;
             for (; s < end_s; s++) {
-                if (sf_getrange_mut(s, &f, &end_f) < 0)
-                    return -1;
+                f = sf_getrange(s, &end_f);
                 for (; f < end_f; f++) {
                     while (w < end_w && f->pos > w->pos)
                         w++;
@@ -1585,6 +1629,10 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
         return -1;
     }
     return 0;
+Err:
+    /* Nothing but room has been added, as by the original representation */
+    v->cpl = v_cpl;
+    return -1;
 }
 
 static int
@@ -1600,6 +1648,7 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_f;
+    int v_cpl = v->cpl;
     end_s = 0; /* avoid warning */
     op = mutbitset_iop_convert(v, op);
     switch(op) {
@@ -1617,11 +1666,10 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
         }
         break;
     case NyBits_AND:
-        if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-            return -1;
+        if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+            goto Err;
         for (; s < end_s; s++) {
-            if (sf_getrange_mut(s, &f, &end_f) < 0)
-                return -1;
+            f = sf_getrange(s, &end_f);
             for (; f < end_f; f++) {
                 while (n > 0 && f->pos > pos) {
                     n--;
@@ -1643,14 +1691,13 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
             for (i = 0; i < n; i++) {
                 if (bits[i]) {
                     if (!mutbitset_findpos_ins(v, pos + i))
-                        return -1;
+                        goto Err;
                 }
             }
-            if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-                return -1;
+            if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+                goto Err;
             for (; s < end_s; s++) {
-                if (sf_getrange_mut(s, &f, &end_f) < 0)
-                    return -1;
+                f = sf_getrange(s, &end_f);
                 for (; f < end_f; f++) {
                     while (n > 0 && f->pos > pos) {
                         n--;
@@ -1674,6 +1721,10 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
         return -1;
     }
     return 0;
+Err:
+    /* Nothing but room has been added, as by the original representation */
+    v->cpl = v_cpl;
+    return -1;
 }
 
 
@@ -1686,14 +1737,25 @@ mutbitset_iop_immbitset(NyMutBitSetObject *v, int op, NyImmBitSetObject *w)
 static int
 mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 {
+    NyMutBitSetObject *nv = NyMutBitSet_SubtypeNew(&NyMutBitSet_Type, set, 0);
+    if (!nv)
+        return -1;
     mutbitset_clear(v);
-    return mutbitset_initset(v, set);
+    /* The new one has one set field, take it over */
+    v->fst_root.ob_field[0] = nv->fst_root.ob_field[0];
+    Py_SET_SIZE(&v->fst_root, 1);
+    v->fst_root.cur_size = 1;
+    nv->fst_root.cur_size = 0;
+    Py_DECREF(nv);
+    return 0;
 }
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    if (mutbitset_reset(v, 0) == -1)
+        return -1;
     v->cpl = 0;
-    return mutbitset_reset(v, 0);
+    return 0;
 }
 
 
@@ -1722,6 +1784,7 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
     int cpl = w->cpl;
     NySetField *s, *end_s;
     NyBitField *f, *end_f, *wf;
+    int v_cpl = v->cpl;
     end_s = 0; /* avoid warning */
     op = cpl_conv_right(op, &cpl);
     op = mutbitset_iop_convert(v, op);
@@ -1739,7 +1802,7 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
         case NyBits_SUBR:
         case NyBits_XOR:
             if (mutbitset_reset(v, 0) == -1)
-                return -1;
+                goto Err;
             break;
         default:
             PyErr_SetString(PyExc_ValueError,
@@ -1757,11 +1820,10 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
                     return -1;
         break;
     case NyBits_AND:
-        if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-            return -1;
+        if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+            goto Err;
         for (; s < end_s; s++) {
-            if (sf_getrange_mut(s, &f, &end_f) < 0)
-                return -1;
+            f = sf_getrange(s, &end_f);
             for (; f < end_f; f++) {
                 wf = mutbitset_findpos(w, f->pos);
                 if (wf)
@@ -1775,12 +1837,11 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
         for (s = mutbitset_getrange(w, &end_s); s < end_s; s++)
             for (f = sf_getrange(s, &end_f); f < end_f; f++)
                 if (!mutbitset_findpos_ins(v, f->pos))
-                    return -1;
-        if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
-            return -1;
+                    goto Err;
+        if (mutbitset_getrange_all_mut(v, &s, &end_s) < 0)
+            goto Err;
         for (; s < end_s; s++) {
-            if (sf_getrange_mut(s, &f, &end_f) < 0)
-                return -1;
+            f = sf_getrange(s, &end_f);
             for (; f < end_f; f++) {
                 wf = mutbitset_findpos(w, f->pos);
                 if (wf)
@@ -1798,6 +1859,10 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
     if (cpl)
         mutbitset_iop_complement(v);
     return 0;
+Err:
+    /* Nothing but room has been added, as by the original representation */
+    v->cpl = v_cpl;
+    return -1;
 }
 
 static int
@@ -2283,7 +2348,8 @@ mutbitset_set_or_clr(NyMutBitSetObject *v, NyBit bitno, int set_or_clr)
             return set_or_clr;
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        if (mutbitset_findpos_mut(v, f.pos, &fp) == -1)
+            return -1;
         if (!(fp && (fp->bits & f.bits))) {
             return set_or_clr;
         }
@@ -2419,7 +2485,8 @@ mutbitset_append_or_remove(NyMutBitSetObject *v, PyObject *w, int ap, char *errm
         }
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        if (mutbitset_findpos_mut(v, f.pos, &fp) == -1)
+            return 0;
         if (!(fp && (fp->bits & f.bits))) {
             PyErr_Format(PyExc_ValueError,
                          errmsg, bitno);
@@ -2967,6 +3034,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field;
         i = 0;
         for (s = ss; s < se; s++) {
@@ -3007,6 +3076,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field + nfields - 1;
         i = 0;
         for (s = se; --s >= ss;) {
-- 
2.43.0


From eaff5e4b918d030ef2512a099cbb6f85e3fecf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 62/93] fix: the iterator of a mutable node set released its
 index object on errors

---
 src/sets/nodeset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 6e17a00..887354c 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -234,10 +234,10 @@ mutnsiter_iternext(NyMutNodeSetIterObject *hi)
     if (!bitobj)
         return 0;
     bitno = PyLong_AsSsize_t(bitobj);
+    Py_DECREF(bitobj);
     if (bitno == -1 && PyErr_Occurred())
         return 0;
     ret = nodeset_bitno_to_obj(bitno);
-    Py_DECREF(bitobj);
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
     } else {
-- 
2.43.0


From ed65b9396178338f5e92590a5c79b9fe1bc340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 63/93] fix: a failing partition does not release a list it has
 borrowed

---
 src/heapy/classifier.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 0125d96..a261e48 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -99,12 +99,15 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     if (!kind)
         return -1;
 
-    sp = PyDict_GetItem(ta->map, kind);
+    sp = PyDict_GetItemWithError(ta->map, kind);
     if (!sp) {
+        if (PyErr_Occurred())
+            goto Err;
         sp = PyList_New(0);
         if (!sp)
             goto Err;
         if (PyObject_SetItem(ta->map, kind, sp) == -1) {
+            Py_DECREF(sp);
             goto Err;
         };
         Py_DECREF(sp);
@@ -114,8 +117,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     Py_DECREF(kind);
     return 0;
 Err:
-    Py_XDECREF(sp);
-    Py_XDECREF(kind);
+    Py_DECREF(kind);
     return -1;
 }
 
-- 
2.43.0


From 1eb7698746654523ce78cc1fd0478cd48d8c40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 64/93] fix: a failing referrer classification does not release
 a kind twice

---
 src/heapy/hv_cli_rcs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 133ae99..145a0a5 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -32,7 +32,7 @@ typedef struct {
 static PyObject *
 hv_cli_rcs_fast_memoized_kind(RetclasetObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
@@ -119,6 +119,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
         if (NyNodeSet_setobj(Ri, kind) == -1)
             goto Err;
         Py_DECREF(kind);
+        kind = 0;
     }
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
-- 
2.43.0


From fa2d7200613f5cd6aab70b83ae3bc557f921744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 65/93] fix: errors of lookups in the memos of classifiers are
 reported

---
 src/heapy/hv_cli_and.c      | 2 +-
 src/heapy/hv_cli_findex.c   | 2 +-
 src/heapy/hv_cli_indisize.c | 4 +++-
 src/heapy/hv_cli_prod.c     | 2 +-
 src/heapy/hv_cli_rel.c      | 8 +++++---
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/heapy/hv_cli_and.c b/src/heapy/hv_cli_and.c
index fc43cf4..2298c72 100644
--- a/src/heapy/hv_cli_and.c
+++ b/src/heapy/hv_cli_and.c
@@ -39,7 +39,7 @@ NyNodeTuple_New(Py_ssize_t size)
 static PyObject *
 hv_cli_and_fast_memoized_kind(CliAndObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index ea78882..5bd66c4 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -20,7 +20,7 @@ typedef struct {
 static PyObject *
 hv_cli_findex_memoized_kind(FindexObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 217f6f1..a86e899 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -11,8 +11,10 @@ typedef struct {
 static PyObject *
 hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 {
-    PyObject *memoedsize = PyDict_GetItem(self->memo, size);
+    PyObject *memoedsize = PyDict_GetItemWithError(self->memo, size);
     if (!memoedsize) {
+        if (PyErr_Occurred())
+            return 0;
         if (PyDict_SetItem(self->memo, size, size) == -1) {
             return 0;
         }
diff --git a/src/heapy/hv_cli_prod.c b/src/heapy/hv_cli_prod.c
index 01a8f57..a19d406 100644
--- a/src/heapy/hv_cli_prod.c
+++ b/src/heapy/hv_cli_prod.c
@@ -76,7 +76,7 @@ typedef struct {
 static PyObject *
 hv_cli_prod_memoized_kind(ProdObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 2f4511b..186c9c1 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -191,7 +191,7 @@ inrel_visit_memoize_relation(PyObject *obj, MemoRelArg *arg)
                Py_TYPE(obj)->tp_name);
         return -1;
     }
-    mrel = PyDict_GetItem(arg->memorel, obj);
+    mrel = PyDict_GetItemWithError(arg->memorel, obj);
     if (!mrel) {
         if (PyErr_Occurred())
             return -1;
@@ -208,7 +208,7 @@ static PyObject *
 inrel_fast_memoized_kind(InRelObject * self, PyObject *kind)
      /* When the elements are already memoized */
 {
-    PyObject *result = PyDict_GetItem(self->memokind, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memokind, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
@@ -270,7 +270,7 @@ hv_cli_inrel_visit(unsigned int kind, PyObject *relator, NyHeapRelate *arg_)
     arg->rel->kind = kind;
     arg->rel->relator = relator;
 
-    rel = PyDict_GetItem(arg->memorel, (PyObject *)arg->rel);
+    rel = PyDict_GetItemWithError(arg->memorel, (PyObject *)arg->rel);
     if (!rel) {
         rel = (PyObject *)NyRelation_New(kind, relator);
         if (!rel)
@@ -318,6 +318,8 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
             continue;
         crva.hr.src = cur->tgt;
         xt = hv_extra_type(self->hv, Py_TYPE(crva.hr.src));
+        if (xt == &xt_error)
+            goto Err;
         assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
 
-- 
2.43.0


From f444ba9e6159bfd1d52764c3614af2825b2335f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 66/93] fix: errors when walking frames are reported and
 release the frames

---
 src/heapy/rootstate.c | 37 +++++++++++++++++++++++++------------
 src/heapy/stdtypes.c  | 15 +++++++++++----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 3ce3db3..98584be 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -263,24 +263,24 @@ static struct PyMemberDef ts_members[] = {
 
 #define ISATTR_DIR(name) do {                           \
     attr = PyUnicode_FromFormat("i%d_%s", isno, #name); \
-    if (attr) {                                         \
-        if (PyList_Append(list, attr)) {                \
-            Py_DECREF(attr);                            \
-            goto Err;                                   \
-        }                                               \
+    if (!attr)                                          \
+        goto Err;                                       \
+    if (PyList_Append(list, attr)) {                    \
         Py_DECREF(attr);                                \
+        goto Err;                                       \
     }                                                   \
+    Py_DECREF(attr);                                    \
 } while (0)
 
 #define TSATTR_DIR(name) do {                                               \
     attr = PyUnicode_FromFormat("i%d_t%lu_%s", isno, THREAD_ID(ts), #name); \
-    if (attr) {                                                             \
-        if (PyList_Append(list, attr)) {                                    \
-            Py_DECREF(attr);                                                \
-            goto Err;                                                       \
-        }                                                                   \
+    if (!attr)                                                              \
+        goto Err;                                                           \
+    if (PyList_Append(list, attr)) {                                        \
         Py_DECREF(attr);                                                    \
+        goto Err;                                                           \
     }                                                                       \
+    Py_DECREF(attr);                                                        \
 } while (0)
 
 static int
@@ -367,6 +367,8 @@ rootstate_relate(NyHeapRelate *r)
                     Py_DECREF(frame);
                     frame = next_frame;
                 }
+                if (PyErr_Occurred())
+                    return -1;
 #else
                 for (frame = (PyFrameObject *)ts->frame; frame; frame = frame->f_back) {
                     numframes++;
@@ -492,8 +494,13 @@ rootstate_traverse(NyHeapTraverse *ta)
             } else {
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
                 PyFrameObject *frame = PyThreadState_GetFrame(ts);
-                Py_VISIT(frame);
-                Py_XDECREF(frame);
+                if (frame) {
+                    int vret = visit((PyObject *)frame, arg);
+                    Py_DECREF(frame);
+                    if (vret)
+                        return vret;
+                } else if (PyErr_Occurred())
+                    return -1;
 #else
                 Py_VISIT(ts->frame);
 #endif
@@ -611,6 +618,10 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     frame = next_frame;
                                 }
                                 Py_XDECREF(current_frame);
+                                if (PyErr_Occurred()) {
+                                    Py_DECREF(name);
+                                    return 0;
+                                }
 #else
                                 for (frame = ts->frame; frame; frame = frame->f_back) {
                                     numframes++;
@@ -784,6 +795,8 @@ rootstate_dir(PyObject *self, PyObject *args)
                 Py_DECREF(frame);
                 frame = next_frame;
             }
+            if (PyErr_Occurred())
+                goto Err;
 #else
             for (frame = (PyFrameObject *)ts->frame; frame; frame = frame->f_back) {
                 numframes++;
diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index a3a90c4..df60a27 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -261,6 +261,8 @@ frame_relate(NyHeapRelate *r)
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
     // Py 3.11 only holds f_back when FRAME_OWNED_BY_FRAME_OBJECT
     PyFrameObject *next_frame = PyFrame_GetBack(v);
+    if (!next_frame && PyErr_Occurred())
+        return -1;
     if ((PyObject *)next_frame == r->tgt && r->visit(
             NYHR_ATTRIBUTE, PyUnicode_FromString("f_back"), r)) {
         Py_XDECREF(next_frame);
@@ -404,7 +406,7 @@ frame_traverse(NyHeapTraverse *ta) {
     for (i = 0; co && i < co->co_nlocalsplus; i++) {
         _PyLocals_Kind kind = _PyLocals_GetKind(co->co_localspluskinds, i);
         PyObject *name = PyTuple_GET_ITEM(co->co_localsplusnames, i);
-        if (kind & CO_FAST_LOCAL && strcmp(PyUnicode_AsUTF8(name), "_hiding_tag_") == 0) {
+        if (kind & CO_FAST_LOCAL && PyUnicode_CompareWithASCIIString(name, "_hiding_tag_") == 0) {
             if (PyStackRef_AsPyObjectBorrow(iv->localsplus[i]) == ta->_hiding_tag_)
                 return 0;
             else
@@ -416,7 +418,7 @@ frame_traverse(NyHeapTraverse *ta) {
     if (PyTuple_Check(co->co_varnames)) {
         for (i = 0; i < nlocals; i++) {
             PyObject *name = PyTuple_GET_ITEM(co->co_varnames, i);
-            if (strcmp(PyUnicode_AsUTF8(name), "_hiding_tag_") == 0) {
+            if (PyUnicode_CompareWithASCIIString(name, "_hiding_tag_") == 0) {
                 if (v->f_localsplus[i] == ta->_hiding_tag_)
                     return 0;
                 else
@@ -430,8 +432,13 @@ frame_traverse(NyHeapTraverse *ta) {
     /* _PyFrame_Traverse is not exposed and CPython's frame_traverse only
       calls it when FRAME_OWNED_BY_FRAME_OBJECT :( */
     PyFrameObject *next_frame = PyFrame_GetBack(v);
-    Py_VISIT(next_frame);
-    Py_XDECREF(next_frame);
+    if (next_frame) {
+        int vret = visit((PyObject *)next_frame, arg);
+        Py_DECREF(next_frame);
+        if (vret)
+            return vret;
+    } else if (PyErr_Occurred())
+        return -1;
 
     Py_VISIT(v->f_trace);
 # if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
-- 
2.43.0


From 9fcf996e74c159979d1386381f960d6cb7f7bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 67/93] fix: errors when a heap view looks for dicts and hidden
 objects are reported

---
 src/heapy/hv.c            | 60 ++++++++++++++++++++++++++++++++-------
 src/heapy/hv_cli_dictof.c |  3 +-
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index d2df936..1e5c517 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -107,8 +107,10 @@ hv_PyList_Pop(PyObject *list)
         PyObject *r = PyList_GetItem(list, size - 1);
         Py_XINCREF(r);
         if (r)
-            if (PyList_SetSlice(list, size - 1, size, 0) < 0)
+            if (PyList_SetSlice(list, size - 1, size, 0) < 0) {
+                Py_DECREF(r);
                 return 0;
+            }
 
         return r;
     } else {
@@ -241,10 +243,28 @@ has_dict_member(PyTypeObject *type)
     return 0;
 }
 
+/* Get at the dict pointer of obj, with the dict made if obj has its attributes
+   stored otherwise. *dp is set to 0 if obj can have no dict. */
+
+static int
+hv_get_dictptr(PyObject *obj, PyObject ***dp)
+{
+    *dp = _PyObject_GetDictPtr(obj);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
+    if (!*dp && (Py_TYPE(obj)->tp_flags & Py_TPFLAGS_MANAGED_DICT)) {
+        PyErr_NoMemory();
+        return -1;
+    }
+#endif
+    return 0;
+}
+
 static int
 instance_dict_relate(NyHeapRelate *r)
 {
-    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
+    PyObject **dictptr;
+    if (hv_get_dictptr(r->src, &dictptr) == -1)
+        return -1;
     if (dictptr) {
         /* A member with the same name is already reported by owht_relate */
         if (*dictptr == r->tgt && !has_dict_member(Py_TYPE(r->src))) {
@@ -308,8 +328,9 @@ xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
     /* When the base has a relate function of its own, it doesn't know about
        a dict that is added to its instances by a subtype. */
     if (xt->xt_hd->relate && type_has_dict(type) && !type_has_dict(type->tp_base)) {
-        if (instance_dict_relate(r))
-            return 1;
+        int err = instance_dict_relate(r);
+        if (err)
+            return err;
     }
     return xt->xt_base->xt_relate(xt->xt_base, r);
 }
@@ -565,7 +586,9 @@ xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
         // and other references. To keep our results stable we have to
         // materialize this managed dict, which allocates a lot of memory
         // and will add additional overhead.
-        _PyObject_GetDictPtr(obj);
+        PyObject **dp;
+        if (hv_get_dictptr(obj, &dp) == -1)
+            return -1;
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 13
         if (Py_TYPE(obj)->tp_flags & Py_TPFLAGS_INLINE_VALUES) {
             // Additionally, in 3.13, PyObject_VisitManagedDict skips traversing
@@ -630,6 +653,8 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 {
     PyTypeObject *type = Py_TYPE(obj);
     ExtraType *xt = hv_extra_type(hv, type);
+    if (xt == &xt_error)
+        return -1;
     if (xt->xt_trav_code == XT_HE) {
         Py_ssize_t offs = xt->xt_he_offs;
         PyObject **phe = (PyObject **)((char *)obj + offs);
@@ -642,7 +667,9 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
         /* Fixes a dominos confusion; see Notes Apr 20 2005 */
         return 1;
     } else {
-        PyObject **dp = _PyObject_GetDictPtr(obj);
+        PyObject **dp;
+        if (hv_get_dictptr(obj, &dp) == -1)
+            return -1;
         if (dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) == hv->_hiding_tag_) {
             return 1;
         }
@@ -654,7 +681,10 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cms_rec(PyObject *obj, CMSTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj)) {
+    int hidden = hv_is_obj_hidden(ta->hv, obj);
+    if (hidden == -1)
+        return -1;
+    if (hidden) {
         if (PyList_Append(ta->rm, obj) == -1)
             return -1;
     }
@@ -763,8 +793,10 @@ NyHeapView_SubTypeNew(PyTypeObject *type, PyObject *root, PyTupleObject *heapdef
         goto err;
 
     hv->xt_table = PyMem_New(ExtraType *, hv->xt_size);
-    if (!hv->xt_table)
+    if (!hv->xt_table) {
+        PyErr_NoMemory();
         goto err;
+    }
     for (i = 0; i < hv->xt_size; i++)
         hv->xt_table[i] = 0;
 
@@ -926,7 +958,10 @@ typedef struct {
 static int
 hv_heap_rec(PyObject *obj, HeapTravArg *ta) {
     int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    r = hv_is_obj_hidden(ta->hv, obj);
+    if (r == -1)
+        return -1;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
@@ -1660,6 +1695,8 @@ err_inner_inner:
             // Recurse in
             int is_target = -1;
             ExtraType *xt = hv_extra_type(ta.hv, Py_TYPE(obj));
+            if (xt == &xt_error)
+                goto err_inner;
 
             if (xt->xt_trav_code == XT_NO) {
                 is_target = ta.targetset ? NyNodeSet_hasobj(ta.targetset, obj) :
@@ -1752,7 +1789,10 @@ int dummy;
 static int
 urco_traverse(PyObject *obj, URCOTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj))
+    int hidden = hv_is_obj_hidden(ta->hv, obj);
+    if (hidden == -1)
+        return -1;
+    if (hidden)
         return 0;
     if (NyNodeGraph_AddEdge(ta->rg, obj, ta->retainer) == -1)
         return -1;
diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 432f3ef..5863ffe 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -98,7 +98,8 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
             goto err;
         for (i = 0; i < len; i++) {
             PyObject *obj = PyList_GET_ITEM(objects, i);
-            dp = _PyObject_GetDictPtr(obj);
+            if (hv_get_dictptr(obj, &dp) == -1)
+                goto err;
             if (dp && *dp) {
                 if (NyNodeGraph_AddEdge(ta.rg, *dp, obj) == -1)
                     goto err;
-- 
2.43.0


From 45d45da03bc72446d84e9ea3d615fe1ac3bc8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 68/93] fix: a Horizon is not in use until it has its set of
 objects

---
 src/heapy/horizon.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index d4239f0..3c0bca6 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -218,6 +218,7 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
 
     PyObject *X;
+    NyNodeSetObject *hs;
     NyHorizonObject *hz = 0;
     static char *kwlist[] = {"X", 0};
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O:Horizon.__new__",
@@ -226,14 +227,18 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
         goto err;
     if (horizon_init_subtype_dealloc() == -1)
         goto err;
+    hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
+    if (!hs)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
-    if (!hz)
+    if (!hz) {
+        Py_DECREF(hs);
         goto err;
+    }
+    /* The patched destructors clear objects in hs as soon as it is linked */
+    hz->hs = hs;
     hz->next = rm.horizons;
     rm.horizons = hz;
-    hz->hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
-    if (!hz->hs)
-        goto err;
     if (iterable_iterate((PyObject *)X, (visitproc)horizon_update_trav, hz) == -1 ||
         horizon_update_trav((PyObject *)hz, hz) == -1)
         goto err;
-- 
2.43.0


From 38e20d1ff106cf8f1c5e78f80a07ee19efe3e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 69/93] fix: a frame of the root is not returned with an error
 set

---
 src/heapy/rootstate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 98584be..d8089f8 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -605,15 +605,20 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
+                                if (PyErr_Occurred()) {
+                                    Py_XDECREF(current_frame);
+                                    Py_DECREF(name);
+                                    return 0;
+                                }
                                 for (frame = (PyFrameObject *)Py_XNewRef(current_frame); frame;) {
-                                    PyFrameObject *next_frame = PyFrame_GetBack(frame);
+                                    PyFrameObject *next_frame;
                                     numframes--;
                                     if (numframes == frameno) {
-                                        Py_XDECREF(next_frame);
                                         Py_DECREF(current_frame);
                                         Py_DECREF(name);
                                         return (PyObject *)frame;
                                     }
+                                    next_frame = PyFrame_GetBack(frame);
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
-- 
2.43.0


From 0cb89c8a21336481cb1156cc7c3755c9a099c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 70/93] fix: comparing a type kind with what is no type raises
 TypeError

---
 src/heapy/hv_cli.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv_cli.c b/src/heapy/hv_cli.c
index 665f63f..3714b11 100644
--- a/src/heapy/hv_cli.c
+++ b/src/heapy/hv_cli.c
@@ -59,8 +59,13 @@ hv_cli_type_classify(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cli_type_le(PyObject * self, PyObject *a, PyObject *b)
 {
-    return (a == b) || PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b);
-
+    if (a == b)
+        return 1;
+    if (!PyType_Check(a) || !PyType_Check(b)) {
+        PyErr_SetString(PyExc_TypeError, "cli_type: a kind to compare must be a type.");
+        return -1;
+    }
+    return PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b);
 }
 
 static NyObjectClassifierDef hv_cli_type_def = {
-- 
2.43.0


From 4f05ac2f22b67cd2f0113817461023e364b30583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 71/93] fix: graphs are cleared although the callback of the
 collector failed

When the callback of the weak reference was interrupted or ran into an error
(KeyboardInterrupt, RecursionError), the referrer graph and dict ownership of
the session were never cleared again, and answers came from the old ones.
---
 guppy/heapy/Classifiers.py |  2 ++
 guppy/heapy/View.py        | 37 ++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 43602c7..e00d43b 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -109,6 +109,7 @@ class Classifier:
         return items
 
     def partition_cli(self, a):
+        self.mod.View.clear_ensure()
         ep = self.call_with_referrers(
             a,
             self.cli.epartition)
@@ -120,6 +121,7 @@ class Classifier:
         return self.mod.Use.union(kinds, maximized=1)
 
     def select_cli(self, a, b, cmp='=='):
+        self.mod.View.clear_ensure()
         return self.call_with_referrers(
             a,
             lambda a: self.cli.select(a, b, cmp))
diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 83f4809..14defab 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -104,13 +104,14 @@ class _GLUECLAMP_:
         try:
             wr = list(ch)[0]
         except IndexError:
-            self.clear_setup()
+            self.clear_callback(None)
         else:
             # When tracing is enabled, each local variable gets two references.
             # See Guppy 3 issue #3.
             c = [wr()]
             if c[0] is None:
-                self.clear_setup()
+                # The callback did not get to its end
+                self.clear_callback(wr)
             elif self._root.sys.getrefcount(c[0]) > 3:
                 print('GC hook object was referred to from somebody!')
                 self.clear_callback(wr)
@@ -122,6 +123,16 @@ class _GLUECLAMP_:
             m()
         self.clear_setup()
 
+    def clear_ensure(self):
+        # To be called before the graphs that may have been cleared are used.
+        # If the callback was interrupted or failed, they were perhaps not.
+        if self.referrers_lock or not self.clear_methods:
+            return
+        for wr in list(self._clear_hook):
+            if wr() is not None:
+                return
+        self.clear_callback(None)
+
     def clear_setup(self):
         ch = self._clear_hook
         ch.clear()
@@ -188,18 +199,17 @@ class _GLUECLAMP_:
 
     def _get_rg(self):
         rg = self.nodegraph()
-        self.clear_register_method(self._clear_rg)
-        return rg
 
-    def _clear_rg(self):
-        if self.referrers_lock:
-            return
-        rg = self.rg
-        if rg.is_sorted:
-            rg.clear()
-            self.norefer.clear()
-        else:
-            pass
+        def clear_rg():
+            if self.referrers_lock:
+                return
+            if rg.is_sorted:
+                rg.clear()
+                self.norefer.clear()
+            else:
+                pass
+        self.clear_register_method(clear_rg)
+        return rg
 
     def _get_referrers_lock(self): return 0
 
@@ -477,6 +487,7 @@ any of the objects in the set X."""
 
         X = self.nodeset_adapt(X)
 
+        self.clear_ensure()
         self.referrers_lock += 1
         try:
             if self.is_rg_update_all and self.root is self.heapyc.RootState:
-- 
2.43.0


From 571e54ab4ecb601187d68ce530500c29a0642079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 72/93] fix: cycles with an iterator of a MutNodeSet or a
 hiding tag are collected

---
 src/heapy/hv.c     |  1 +
 src/sets/nodeset.c | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 1e5c517..3ee01db 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -127,6 +127,7 @@ hv_gc_traverse(NyHeapViewObject *hv, visitproc visit, void *arg)
 {
     Py_VISIT(hv->root);
     Py_VISIT(hv->limitframe);
+    Py_VISIT(hv->_hiding_tag_);
     Py_VISIT(hv->static_types);
     Py_VISIT(hv->weak_type_callback);
 
diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 887354c..04082f4 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -213,9 +213,20 @@ typedef struct {
 static void
 mutnsiter_dealloc(NyMutNodeSetIterObject *v)
 {
+    PyObject_GC_UnTrack(v);
+    Py_TRASHCAN_BEGIN(v, mutnsiter_dealloc)
     Py_DECREF(v->bitset_iter);
     Py_DECREF(v->nodeset);
-    PyObject_DEL(v);
+    PyObject_GC_Del(v);
+    Py_TRASHCAN_END
+}
+
+static int
+mutnsiter_traverse(NyMutNodeSetIterObject *v, visitproc visit, void *arg)
+{
+    Py_VISIT(v->bitset_iter);
+    Py_VISIT(v->nodeset);
+    return 0;
 }
 
 static PyObject *
@@ -252,7 +263,8 @@ PyTypeObject NyMutNodeSetIter_Type = {
     .tp_basicsize = sizeof(NyMutNodeSetIterObject),
     .tp_dealloc   = (destructor)mutnsiter_dealloc,
     .tp_getattro  = PyObject_GenericGetAttr,
-    .tp_flags     = Py_TPFLAGS_DEFAULT,
+    .tp_flags     = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC,
+    .tp_traverse  = (traverseproc)mutnsiter_traverse,
     .tp_iter      = (getiterfunc)mutnsiter_getiter,
     .tp_iternext  = (iternextfunc)mutnsiter_iternext,
 };
@@ -542,7 +554,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     bitset_iter = Py_TYPE(v->u.bitset)->tp_iter(v->u.bitset);
     if (!bitset_iter)
         return 0;
-    iter = PyObject_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
+    iter = PyObject_GC_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
     if (!iter) {
         Py_DECREF(bitset_iter);
         return 0;
@@ -550,6 +562,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     iter->bitset_iter = bitset_iter;
     iter->nodeset = v;
     Py_INCREF(v);
+    PyObject_GC_Track(iter);
     return (PyObject *)iter;
 }
 
-- 
2.43.0


From a3d0d75e26144b97b597b8fa6bd4ad11257026d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 73/93] fix: changing a MutNodeSet while it is iterated over
 does not crash

---
 src/sets/immnodeset.c |  2 +-
 src/sets/nodeset.c    | 51 +++++++++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/sets/immnodeset.c b/src/sets/immnodeset.c
index 3842f52..4c2c7f4 100644
--- a/src/sets/immnodeset.c
+++ b/src/sets/immnodeset.c
@@ -140,7 +140,7 @@ NyImmNodeSet_SubtypeNewCopy(PyTypeObject *type, NyNodeSetObject *v)
     sa.ns = NyImmNodeSet_SubtypeNew(type, Py_SIZE(v), v->_hiding_tag_);
     if (!sa.ns)
         return 0;
-    NyNodeSet_iterate(v, (visitproc)as_immutable_visit, &sa);
+    nodeset_iterate_unchanging(v, (visitproc)as_immutable_visit, &sa);
     return sa.ns;
 }
 
diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 04082f4..f081883 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -131,6 +131,9 @@ PyDoc_STRVAR(mutnodeset_doc,
 /* Forward decls */
 
 static PyObject * nodeset_bitno_to_obj(NyBit bitno);
+static int
+nodeset_iterate_unchanging(NyNodeSetObject *ns, int (*visit)(PyObject *, void *),
+                           void *arg);
 PyTypeObject NyImmNodeSet_Type;
 PyTypeObject NyMutNodeSet_Type;
 
@@ -239,15 +242,20 @@ mutnsiter_getiter(PyObject *it)
 static PyObject *
 mutnsiter_iternext(NyMutNodeSetIterObject *hi)
 {
-    PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
     PyObject *ret;
     NyBit bitno;
-    if (!bitobj)
-        return 0;
-    bitno = PyLong_AsSsize_t(bitobj);
-    Py_DECREF(bitobj);
-    if (bitno == -1 && PyErr_Occurred())
-        return 0;
+    do {
+        PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+        if (!bitobj)
+            return 0;
+        bitno = PyLong_AsSsize_t(bitobj);
+        Py_DECREF(bitobj);
+        if (bitno == -1 && PyErr_Occurred())
+            return 0;
+        /* What has been removed since the iterator was made is gone */
+    } while (hi->nodeset->flags & NS_HOLDOBJECTS &&
+             !(hi->nodeset->u.bitset &&
+               NyMutBitSet_hasbit((NyMutBitSetObject *)hi->nodeset->u.bitset, bitno)));
     ret = nodeset_bitno_to_obj(bitno);
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
@@ -389,7 +397,7 @@ mutnodeset_drop(NyNodeSetObject *v)
     if (v->u.bitset) {
         PyObject *x = v->u.bitset;
         if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
+            nodeset_iterate_unchanging(v, nodeset_dealloc_iter, v);
         }
         v->u.bitset = 0;
         Py_DECREF(x);
@@ -484,7 +492,7 @@ mutnodeset_gc_traverse(NyNodeSetObject *v, visitproc visit, void *arg)
 {
     int err = 0;
     if (v->flags & NS_HOLDOBJECTS) {
-        err = NyNodeSet_iterate(v, visit, arg);
+        err = nodeset_iterate_unchanging(v, visit, arg);
         if (err)
             return err;
     }
@@ -519,9 +527,11 @@ mutnodeset_iterate_visit(NyBit bitno, nodeset_iterate_visit_arg *arg)
 }
 
 
-int
-NyNodeSet_iterate(NyNodeSetObject *ns, int (*visit)(PyObject *, void *),
-                  void *arg)
+/* The set must not change meanwhile. */
+
+static int
+nodeset_iterate_unchanging(NyNodeSetObject *ns, int (*visit)(PyObject *, void *),
+                           void *arg)
 {
     nodeset_iterate_visit_arg hia;
     if (!(ns->flags & NS_HOLDOBJECTS)) {
@@ -546,6 +556,23 @@ NyNodeSet_iterate(NyNodeSetObject *ns, int (*visit)(PyObject *, void *),
     }
 }
 
+int
+NyNodeSet_iterate(NyNodeSetObject *ns, int (*visit)(PyObject *, void *),
+                  void *arg)
+{
+    if (NyMutNodeSet_Check(ns) && ns->flags & NS_HOLDOBJECTS) {
+        /* The visitor may run code that changes the set */
+        NyNodeSetObject *copy = NyImmNodeSet_NewCopy(ns);
+        int r;
+        if (!copy)
+            return -1;
+        r = nodeset_iterate_unchanging(copy, visit, arg);
+        Py_DECREF(copy);
+        return r;
+    }
+    return nodeset_iterate_unchanging(ns, visit, arg);
+}
+
 PyObject *
 mutnodeset_iter(NyNodeSetObject *v)
 {
-- 
2.43.0


From b7e87b69df8710d4964cd9e110c6d37da6519005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 74/93] fix: a comparison operator that can not be encoded is
 an error

---
 src/heapy/classifier.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index a261e48..c96dfae 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -251,6 +251,8 @@ cli_cmp_as_int(PyObject *cmp)
         return -1;
     }
     s = PyUnicode_AsUTF8(cmp);
+    if (!s)
+        return -1;
     for (i = 0; (c = cmp_strings[i]); i++) {
         if (strcmp(c, s) == 0)
             return i;
-- 
2.43.0


From 959e4fd86d51fdebf59933bf47b4b8e40da7c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 75/93] fix: types without a constructor can not be
 instantiated

---
 src/include/guppy.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/include/guppy.h b/src/include/guppy.h
index 9aeb9e2..6125013 100644
--- a/src/include/guppy.h
+++ b/src/include/guppy.h
@@ -1,9 +1,6 @@
 #ifndef GUPPY_H_INCLUDED
 
 #define NYFILL(t) {                      \
-    if (!t.tp_new) {                     \
-        t.tp_new = PyType_GenericNew;    \
-    }                                    \
     if (PyType_Ready(&t) < 0) return -1; \
 }
 
-- 
2.43.0


From 64cce5bf08df39c2356666b5ceb729f7a7e39ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 76/93] fix: classifying may change the graph that is used

---
 src/heapy/hv_cli_dictof.c |  8 ++++++--
 src/heapy/hv_cli_rcs.c    | 18 +++++++++++-------
 src/heapy/hv_cli_rel.c    | 16 +++++++++-------
 src/heapy/nodegraph.c     | 22 ++++++++++++++++++++++
 src/heapy/nodegraph.h     |  1 +
 5 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 5863ffe..4920207 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -158,8 +158,12 @@ hv_cli_dictof_classify(DictofObject *self, PyObject *obj)
             }
         }
         if (lo < hi && lo->tgt != Py_None) {
-            PyObject *ownerkind = self->ownerclassifier->def->classify
-                (self->ownerclassifier->self, lo->tgt);
+            /* The classifier may run code that changes the owners */
+            PyObject *ownerkind, *owner = lo->tgt;
+            Py_INCREF(owner);
+            ownerkind = self->ownerclassifier->def->classify
+                (self->ownerclassifier->self, owner);
+            Py_DECREF(owner);
             return ownerkind;
         } else {
             Py_INCREF(self->notownedkind);
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 145a0a5..da88273 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -102,18 +102,20 @@ Err:
 static PyObject *
 hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
 {
-    NyNodeGraphEdge *lo, *hi, *cur;
-    PyObject *kind = 0;
+    PyObject *kind = 0, *referrers = 0;
+    Py_ssize_t i;
     NyNodeSetObject *Ri = hv_mutnodeset_new(self->hv);
     if (!Ri)
       goto Err;
-    if (NyNodeGraph_Region(self->rg, obj, &lo, &hi) == -1) {
+    /* The classifier may run code that changes rg */
+    referrers = NyNodeGraph_Targets(self->rg, obj);
+    if (!referrers)
        goto Err;
-    }
-    for (cur = lo; cur < hi; cur++) {
-        if (cur->tgt == Py_None)
+    for (i = 0; i < PyTuple_GET_SIZE(referrers); i++) {
+        PyObject *tgt = PyTuple_GET_ITEM(referrers, i);
+        if (tgt == Py_None)
             continue;
-        kind = self->cli->def->classify(self->cli->self, cur->tgt);
+        kind = self->cli->def->classify(self->cli->self, tgt);
         if (!kind)
             goto Err;
         if (NyNodeSet_setobj(Ri, kind) == -1)
@@ -121,6 +123,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
         Py_DECREF(kind);
         kind = 0;
     }
+    Py_CLEAR(referrers);
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
     kind = hv_cli_rcs_fast_memoized_kind(self, (PyObject *)Ri);
@@ -129,6 +132,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
 
 Err:
     Py_XDECREF(kind);
+    Py_XDECREF(referrers);
     Py_XDECREF(Ri);
     return 0;
 }
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 186c9c1..ee2ab07 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -293,8 +293,8 @@ ret:
 static PyObject *
 hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
 {
-    NyNodeGraphEdge *lo, *hi, *cur;
-    PyObject *result;
+    PyObject *result, *referrers;
+    Py_ssize_t i;
     ExtraType *xt;
     hv_cli_inrel_visit_arg crva;
     crva.hr.flags = 0;
@@ -309,14 +309,15 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
     if (!crva.relset)
         return 0;
 
-    if (NyNodeGraph_Region(self->rg, obj, &lo, &hi) == -1) {
+    /* Comparing relations may run code that changes rg */
+    referrers = NyNodeGraph_Targets(self->rg, obj);
+    if (!referrers)
         goto Err;
-    }
 
-    for (cur = lo; cur < hi; cur++) {
-        if (cur->tgt == Py_None)
+    for (i = 0; i < PyTuple_GET_SIZE(referrers); i++) {
+        crva.hr.src = PyTuple_GET_ITEM(referrers, i);
+        if (crva.hr.src == Py_None)
             continue;
-        crva.hr.src = cur->tgt;
         xt = hv_extra_type(self->hv, Py_TYPE(crva.hr.src));
         if (xt == &xt_error)
             goto Err;
@@ -333,6 +334,7 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         goto Err;
     result = inrel_fast_memoized_kind(self, (PyObject *)crva.relset);
 Ret:
+    Py_XDECREF(referrers);
     Py_DECREF(crva.relset);
     self->rel->relator = Py_None;
     return result;
diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 0040e94..edd82de 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -857,6 +857,28 @@ ng_length(PyObject *_ng)
 }
 
 
+/* The targets from src, in a tuple. It stays the same when ng is changed,
+   and keeps them alive. */
+
+PyObject *
+NyNodeGraph_Targets(NyNodeGraphObject *ng, PyObject *src)
+{
+    NyNodeGraphEdge *lo, *hi;
+    PyObject *ret;
+    Py_ssize_t i, size;
+    if (NyNodeGraph_Region(ng, src, &lo, &hi) == -1)
+        return 0;
+    size = hi - lo;
+    ret = PyTuple_New(size);
+    if (!ret)
+        return 0;
+    for (i = 0; i < size; i++, lo++) {
+        Py_INCREF(lo->tgt);
+        PyTuple_SET_ITEM(ret, i, lo->tgt);
+    }
+    return ret;
+}
+
 static PyObject *
 ng_subscript(NyNodeGraphObject *ng, PyObject *obj)
 {
diff --git a/src/heapy/nodegraph.h b/src/heapy/nodegraph.h
index e320ee0..8fd86e8 100644
--- a/src/heapy/nodegraph.h
+++ b/src/heapy/nodegraph.h
@@ -22,6 +22,7 @@ extern PyTypeObject NyNodeGraph_Type;
 
 
 NyNodeGraphObject *NyNodeGraph_New(void);
+PyObject *NyNodeGraph_Targets(NyNodeGraphObject *ng, PyObject *src);
 int NyNodeGraph_Region(NyNodeGraphObject *rg, PyObject *key,
 		       NyNodeGraphEdge **lop, NyNodeGraphEdge **hip);
 int NyNodeGraph_AddEdge(NyNodeGraphObject *rg, PyObject *src, PyObject *tgt);
-- 
2.43.0


From c006ff39eb9db56cde25957278c5ae89f62aa8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 77/93] fix: deleting the limit frame does not crash

---
 src/heapy/hv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 3ee01db..7ba1f83 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1551,6 +1551,10 @@ static int
 hv_set_limitframe(NyHeapViewObject *self, PyObject *arg, void *unused)
 {
     PyObject *orf = self->limitframe;
+    if (!arg) {
+        PyErr_SetString(PyExc_TypeError, "limitframe can not be deleted");
+        return -1;
+    }
     if (arg == Py_None) {
         self->limitframe = 0;
     } else if (PyFrame_Check(arg)) {
-- 
2.43.0


From 2956e9422f904b0eacf26739061399bbd8907f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 78/93] fix: visiting may change what a HeapView is iterating
 over

---
 src/heapy/hv.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 7ba1f83..5da150b 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -889,8 +889,6 @@ hv_delete_extra_type(NyHeapViewObject *hv, PyObject *wr)
 typedef struct {
     NyHeapViewObject *hv;
     NyNodeSetObject *hs;
-    PyObject *arg;
-    int (*visit)(PyObject *, void *);
     PyObject *to_visit;
 } IterTravArg;
 
@@ -902,11 +900,7 @@ iter_rec(PyObject *obj, IterTravArg *ta) {
         if (r)
             return r < 0 ? r : 0;
     }
-    r = ta->visit(obj, ta->arg);
-    if (!r) {
-        r = PyList_Append(ta->to_visit, obj);
-    }
-    return r;
+    return PyList_Append(ta->to_visit, obj);
 }
 
 int
@@ -916,24 +910,28 @@ NyHeapView_iterate(NyHeapViewObject *hv, int (*visit)(PyObject *, void *),
     IterTravArg ta;
     int r;
     ta.hv = hv;
-    ta.visit = visit;
-    ta.arg = arg;
     ta.hs = hv_mutnodeset_new(hv);
     ta.to_visit = PyList_New(0);
     if (!(ta.hs && ta.to_visit))
         goto err;
-    r = iter_rec(ta.hv->root, &ta);
+    if (iter_rec(ta.hv->root, &ta) == -1)
+        goto err;
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
             goto err;
-        if (hv_std_traverse(ta.hv, obj, (visitproc)iter_rec, &ta) == -1) {
-            Py_DECREF(obj);
-            goto err;
-        }
+        /* Not called while what refers to obj is traversed: the visitor may
+           run code that changes that. */
+        r = visit(obj, arg);
+        if (!r)
+            r = hv_std_traverse(ta.hv, obj, (visitproc)iter_rec, &ta);
         Py_DECREF(obj);
+        if (r == -1)
+            goto err;
+        if (r == 1)
+            break;
     }
-
+    r = 0;
     goto out;
 
 err:
-- 
2.43.0


From a743a0a161169b329665db1d53a1ed245dedee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 79/93] fix: a producer kind with any file or any line can be
 shown

---
 guppy/heapy/Classifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index e00d43b..2869349 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1182,7 +1182,8 @@ class ProdFamily:
         if a.arg is None:
             return 'unknown'
         else:
-            return '%s:%d' % a.arg
+            # None stands for any file or any line.
+            return '%s:%s' % tuple(['*' if x is None else x for x in a.arg])
 
     def c_repr(self, a):
         return '%s(%s)' % (self.classifier.get_reprname(),
-- 
2.43.0


From a28703b1954d1de0eca136b7b801e503b5ba5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 80/93] fix: superfluous parenthesis in the name of an
 intersection of kinds

---
 guppy/heapy/UniSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 67d8a60..b7edd98 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1165,7 +1165,7 @@ class AndFamily(Family):
     def c_get_brief(self, c):
         names = [kind.brief for kind in c.arg]
         # names.sort() ?? I think now I want them in given order.
-        return '(%s)' % ' & '.join(names) + ')'
+        return '(%s)' % ' & '.join(names)
 
     def c_get_ckc(self, a):
         return (
-- 
2.43.0


From c4788cfe8da03db9b5e34cdf8b023eb6d237c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 81/93] fix: class names with spaces or dots can be given by
 representation

---
 guppy/heapy/Classifiers.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 2869349..83dc405 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1375,19 +1375,17 @@ the object.
         s = k
         if not (s.startswith('<') and s.endswith('>')):
             raise ValueError(err)
-        s = s.lstrip('<').rstrip('>')
-        s = s.split(' ')
-        if len(s) < 2:
-            raise ValueError(err)
-        t = s[0]
-        addr = self.str2int(s[-1])
+        # The names may be any strings, also with spaces and dots.
+        t, _, s = s[1:-1].partition(' ')
+        names, at, addr = s.rpartition(' at ')
+        addr = self.str2int(addr)
         kind = self.View.obj_at(addr)
         if t == 'at':
-            if len(s) != 2:
+            if at:
                 raise ValueError(err)
             ty = None
         else:
-            if len(s) != 4:
+            if not at:
                 raise ValueError(err)
             if t not in ('type', 'class'):
                 raise ValueError(err)
@@ -1397,19 +1395,11 @@ the object.
                 ty = getattr(self.builtins, t.lower())
             if not isinstance(kind, ty):
                 raise TypeError('%s object expected' % t)
-            if not s[2] == 'at':
-                raise ValueError(err)
-            names = s[1].split('.')
-            if len(names) < 2:
+            if '.' not in names:
                 raise ValueError(err)
-            modulename = '.'.join(names[:-1])
-            tcname = names[-1]
-            if kind.__module__ != modulename:
-                raise ValueError(
-                    'The %s %r has wrong __module__, expected %r.' % (t, kind, modulename))
-            if kind.__name__ != tcname:
+            if '%s.%s' % (kind.__module__, kind.__name__) != names:
                 raise ValueError(
-                    'The %s %r has wrong __name__, expected %r.' % (t, kind, tcname))
+                    'The %s %r has wrong name, expected %r.' % (t, kind, names))
 
         return kind
 
-- 
2.43.0


From 6ef8172d3034f6147940af37b9d594752d49b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 82/93] fix: kinds that compare equal hash equally

---
 guppy/heapy/Classifiers.py | 5 ++++-
 guppy/heapy/UniSet.py      | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 83dc405..2495e6a 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -149,7 +149,7 @@ class SoKind(object):
         return a == b
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(frozenset(self.kinds))
 
     def __repr__(self):
         return self.classifier.get_sokindrepr(self)
@@ -867,6 +867,9 @@ class InRelFamily:
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
+    def c_hash(self, a):
+        return hash(frozenset(a.arg))
+
     def c_get_brief(self, a):
         return '<via %s>' % self.classifier.get_tabrendering(a, None)
 
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index b7edd98..cc0f78a 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1167,6 +1167,10 @@ class AndFamily(Family):
         # names.sort() ?? I think now I want them in given order.
         return '(%s)' % ' & '.join(names)
 
+    def c_hash(self, a):
+        # Equal sets may have their arguments in different order.
+        return hash(frozenset(a.arg))
+
     def c_get_ckc(self, a):
         return (
             self.mod.Classifiers.mker_and([x.biper for x in a.arg]).classifier,
@@ -1330,6 +1334,11 @@ class OrFamily(Family):
         names.sort()
         return '(' + ' | '.join(names) + ')'
 
+    def c_hash(self, a):
+        # Equal unions need not even have equal arguments:
+        # (~a & b) | a == (~b & a) | b
+        return hash(self.opname)
+
     def c_get_idpart_header(self, a):
         return 'Brief'
 
-- 
2.43.0


From 240c8c1579929422cec8c44c7826569a420ab89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 83/93] fix: the identity kind of an unhashable object can be
 hashed

---
 guppy/heapy/Classifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 2495e6a..95976c1 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -216,6 +216,10 @@ class IdentityFamily:
         # Just a possible optimization
         return self.mod.Use.idset(b.nodes & [a.arg])
 
+    def c_hash(self, a):
+        # The object need not be hashable.
+        return hash(id(a.arg))
+
     def c_get_brief(self, a):
         return '<id %s>' % hex(id(a.arg))
 
-- 
2.43.0


From dbbc34b94427832432a01dc2b26aba737017504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 84/93] fix: the kind of unreferred objects is the same however
 made, and shown as what it can be made from

---
 guppy/heapy/Classifiers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 95976c1..26b8b2b 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -792,6 +792,11 @@ class ByRetClaSet(Classifier):
             rks.append(self.referrer_classifier.get_kindarg(k))
         return self.mod.ImpSet.immnodeset(rks)
 
+    def get_kindarg(self, kind):
+        if kind is self.mod.refdbynothing:
+            return self.mod.ImpSet.immnodeset()
+        return Classifier.get_kindarg(self, kind)
+
     def get_kind(self, k):
         if k:
             return self.family(QuickSoKind(self.referrer_classifier, k))
@@ -819,7 +824,9 @@ class ByRetClaSet(Classifier):
         firstsok = None
         clikinds = []
         for arg in args:
-            if isinstance(arg, SoKind):
+            if isinstance(arg, SoNoKind):
+                pass
+            elif isinstance(arg, SoKind):
                 if not arg.classifier is self.referrer_classifier:
                     raise ValueError('Expected a SoKind with the %r classifier, argument had %r.' % (
                         self.referrer_classifier.name,
@@ -833,6 +840,9 @@ class ByRetClaSet(Classifier):
                 # get_kindarg takes care of classifier error checking
                 clikinds.append(self.referrer_classifier.get_kindarg(arg))
 
+        if not clikinds:
+            return self.mod.refdbynothing
+
         if len(args) > 1 or firstsok is None:
             sok = QuickSoKind(self.referrer_classifier,
                               self.mod.ImpSet.immnodeset(clikinds))
@@ -1468,7 +1478,7 @@ the object.
         )
 
     def _get_refdbynothing(self):
-        return self.sonokind.refdby
+        return self.Unity.refdby.classifier.family(self.sonokind)
 
     def sokind(self, *kinds):
         """sokind(0..*:Kind+) -> SetOfKind
-- 
2.43.0


From 50bcfb45cfeea98e97a6fd63e8a3d7b70ac4cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 85/93] fix: the kind of None is shown as an expression that
 can be evaluated

---
 guppy/heapy/Classifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 26b8b2b..b8ae449 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1462,7 +1462,8 @@ the object.
     def _get_invtypemod(self):
         invtypemod = {}
         for k, v in list(self.types._module.__dict__.items()):
-            if k.endswith('Type'):
+            # Type.None would be a syntax error.
+            if k.endswith('Type') and k != 'NoneType':
                 invtypemod[v] = k[:-4]
         return invtypemod
 
-- 
2.43.0


From 5205397a4b6d6c81be216ad805916f60fd28a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 86/93] fix: a dict whose owner has gone since it was
 classified can be shown

---
 guppy/heapy/Classifiers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index b8ae449..cbcb454 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -485,7 +485,11 @@ class OwnedDictFamily:
             ownrender = ka.get_render()
 
             def render(x):
-                ret = ownrender(self.mod.Use.iso(x).owners.theone)
+                owners = self.mod.Use.iso(x).owners
+                if not owners:
+                    # The owner has gone since the dict was classified
+                    return self.mod.Use.Type.Dict.get_render()(x)
+                ret = ownrender(owners.theone)
                 if '.' in ret:
                     ret = '..'+ret.split('.')[-1]
                 return ret
@@ -522,15 +526,20 @@ class OwnedDictFamily:
 
     def c_get_idpart_render(self, a):
         ka = self._get_ownerkind(a)
+        b = self.mod._parent.Spec.Type.Dict
+        dictrender = b.fam.c_get_idpart_render(b)
         if ka is not self.mod.Use.Nothing:
             owner_render = ka.fam.c_get_idpart_render(ka)
 
             def render(x):
-                return owner_render(self.mod.Use.iso(x).owners.theone)
+                owners = self.mod.Use.iso(x).owners
+                if not owners:
+                    # The owner has gone since the dict was classified
+                    return dictrender(x)
+                return owner_render(owners.theone)
             return render
         else:
-            b = self.mod._parent.Spec.Type.Dict
-            return b.fam.c_get_idpart_render(b)
+            return dictrender
 
     def c_get_idpart_header(self, a):
         ka = self._get_ownerkind(a)
-- 
2.43.0


From e15825fe1c32f18b92f931ba667418b5b02906d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 87/93] fix: lines of dotted trees that begin with several
 quotes and a dot are quoted too

---
 guppy/gsl/DottedTree.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 1b4a229..80d4b00 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -115,8 +115,8 @@ class _GLUECLAMP_:
             else:
                 break
         for (i, t) in enumerate(tag):
-            if (t.startswith(quotechar+dotchar) or
-                    t.startswith(quotechar+quotechar+dotchar)):
+            if (t.startswith(quotechar) and
+                    t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
         if tag == ['']:
             tag = '\n'
@@ -173,8 +173,7 @@ class _GLUECLAMP_:
         dotchar, quotechar = self.dotchar, self.quotechar
         tag = tag.split('\n')
         for (i, t) in enumerate(tag):
-            if (t.startswith(dotchar) or
-                    t.startswith(quotechar + dotchar)):
+            if t.lstrip(quotechar).startswith(dotchar):
                 tag[i] = quotechar + t
         tag = '\n'.join(tag)
         tag = dotchar*depth+tag
-- 
2.43.0


From 57c41682c5a80182785608195d3e4afedac414e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 88/93] fix: empty tags of dotted trees are kept by unparsing
 and parsing

---
 guppy/gsl/DottedTree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 80d4b00..a7daee2 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -118,7 +118,8 @@ class _GLUECLAMP_:
             if (t.startswith(quotechar) and
                     t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
-        if tag == ['']:
+        if tag == [''] and pos == 0:
+            # Only the root has no line at all when its tag is empty
             tag = '\n'
         else:
             tag = '\n'.join(tag)
@@ -167,6 +168,9 @@ class _GLUECLAMP_:
                 unparse(depth+1, x)
 
         unparse(0, sexpr)
+        if len(li) > 1 and not li[0]:
+            # The line would be taken for a tag
+            del li[0]
         return '\n'.join(li)
 
     def unparse_tag(self, depth, tag):
-- 
2.43.0


From cc37c1ddaa56ee5d7fe2f53bf442c2f3162750bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 89/93] fix: making a findex classifier without memory raises
 MemoryError

---
 src/heapy/hv_cli_findex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index 5bd66c4..1428364 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -124,7 +124,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     Py_INCREF(tmp.memo);
     s->kinds = PyTuple_New(numalts);
     s->cmps = PyTuple_New(numalts);
-    if (!s->kinds)
+    if (!s->kinds || !s->cmps)
         goto Err;
     for (i = 0; i < numalts; i++) {
         PyObject *ckc = PyTuple_GET_ITEM(tmp.alts, i);
-- 
2.43.0


From 8ea4a29d66fb9e118c639e768c81e25f21bf2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 90/93] fix: XHTML and Gsml import html.entities,
 htmlentitydefs is of Python 2

---
 guppy/gsl/Gsml.py  | 2 +-
 guppy/gsl/XHTML.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/gsl/Gsml.py b/guppy/gsl/Gsml.py
index 99b8f23..b56dcc0 100644
--- a/guppy/gsl/Gsml.py
+++ b/guppy/gsl/Gsml.py
@@ -55,7 +55,7 @@ class _GLUECLAMP_:
         '_root.html.parser:HTMLParser',
         '_parent.SpecNodes:node_of_taci',
         '_parent.SpecNodes:nodes_of_text',
-        '_root.htmlentitydefs:entitydefs',
+        '_root.html.entities:entitydefs',
     )
 
     encoding = "iso-8859-1"
diff --git a/guppy/gsl/XHTML.py b/guppy/gsl/XHTML.py
index 25cb6b8..f4be3bc 100644
--- a/guppy/gsl/XHTML.py
+++ b/guppy/gsl/XHTML.py
@@ -388,8 +388,8 @@ class _GLUECLAMP_:
         '_parent.Gsml:is_not_ascii',
         '_parent.Main:tgt_prefix',
         '_parent.Main:ReportedError',
-        '_root.htmlentitydefs:name2codepoint',
-        '_root.htmlentitydefs:codepoint2name',
+        '_root.html.entities:name2codepoint',
+        '_root.html.entities:codepoint2name',
         '_root:re',
         '_root:time',
     )
-- 
2.43.0


From 6d4f59136f077f73a887d5ad2fd3b1c736a263c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 91/93] fix: title and meta nodes in a document are put in the
 header of its HTML

They were added to attributes that do not exist.
---
 guppy/gsl/Html.py  | 4 ++--
 guppy/gsl/XHTML.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/guppy/gsl/Html.py b/guppy/gsl/Html.py
index 2308c35..1b038b2 100644
--- a/guppy/gsl/Html.py
+++ b/guppy/gsl/Html.py
@@ -206,7 +206,7 @@ class Node2Html:
     def visit_default(self, node):
         if node.tag in self.mod.stdhtml:
             if node.tag in self.mod._head_elements:
-                self.head_nodes.append(node)
+                self.header_nodes.append(node)
             else:
                 self.gen_stdhtml(node)
         else:
@@ -313,7 +313,7 @@ class Node2Html:
         self._visit_children(node)
 
     def visit_meta(self, node):
-        self.document_metas.append(node)
+        self.header_nodes.append(node)
 
     def visit_spc_colonkind(self, node):
         # self.append('&nbsp;<strong>:</strong>&nbsp;')
diff --git a/guppy/gsl/XHTML.py b/guppy/gsl/XHTML.py
index f4be3bc..8988a4d 100644
--- a/guppy/gsl/XHTML.py
+++ b/guppy/gsl/XHTML.py
@@ -223,7 +223,7 @@ class Node2XHTML:
     def visit_default(self, node):
         if node.tag in self.mod.stdhtml:
             if node.tag in self.mod._head_elements:
-                self.head_nodes.append(node)
+                self.header_nodes.append(node)
             else:
                 self.gen_stdhtml(node)
         else:
@@ -330,7 +330,7 @@ class Node2XHTML:
         self._visit_children(node)
 
     def visit_meta(self, node):
-        self.document_metas.append(node)
+        self.header_nodes.append(node)
 
     def visit_spc_colonkind(self, node):
         # self.append('&nbsp;<strong>:</strong>&nbsp;')
-- 
2.43.0


From 047cfd33ad2089f24c92bc762bc6301840361296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 92/93] fix: attribute values are encoded in HTML

They were written as Python writes strings.
---
 guppy/gsl/Html.py  | 2 +-
 guppy/gsl/XHTML.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/gsl/Html.py b/guppy/gsl/Html.py
index 1b038b2..0e3d521 100644
--- a/guppy/gsl/Html.py
+++ b/guppy/gsl/Html.py
@@ -134,7 +134,7 @@ class Node2Html:
         if tag is None:
             tag = node.tag
         node, attrs = node.split_attrs(tag)
-        self.begin(tag, ' '.join(['%s=%r' % (key, val)
+        self.begin(tag, ' '.join(['%s="%s"' % (key, self.encode(val))
                                   for (key, val) in attrs]))
         if tag in self.mod._no_end_tag_elements:
             if node.arg:
diff --git a/guppy/gsl/XHTML.py b/guppy/gsl/XHTML.py
index 8988a4d..3b76115 100644
--- a/guppy/gsl/XHTML.py
+++ b/guppy/gsl/XHTML.py
@@ -151,7 +151,7 @@ class Node2XHTML:
         if tag is None:
             tag = node.tag
         node, attrs = node.split_attrs(tag)
-        self.begin(tag, ' '.join(['%s=%r' % (key, val)
+        self.begin(tag, ' '.join(['%s="%s"' % (key, self.encode(val))
                                   for (key, val) in attrs]))
         if tag in self.mod._no_end_tag_elements:
             if node.arg:
-- 
2.43.0


From dc6ae0f96ad36b5a571f3b00b615c570173c76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 93/93] fix: the size of a node set includes its header for the
 garbage collector

---
 src/sets/nodeset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index f081883..807ef36 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -10,6 +10,12 @@
 #include "../heapy/heapdef.h"
 #include "sets_internal.h"
 
+#define Py_BUILD_CORE
+/* PyGC_Head */
+# undef _PyGC_FINALIZED
+# include <internal/pycore_gc.h>
+#undef Py_BUILD_CORE
+
 PyDoc_STRVAR(nodeset_doc,
 "The class NodeSet is the base class for ImmNodeSet and MutNodeSet.\n"
 "A nodeset is a set of objects with equality based on heap address.\n"
@@ -444,6 +450,8 @@ nodeset_indisize(PyObject *v)
     NyBit r = generic_indisize(v);
     if (NyMutNodeSet_Check(v))
         r += anybitset_indisize(ns->u.bitset);
+    if (PyObject_IS_GC(v))
+        r += sizeof(PyGC_Head);
     return r;
 }
 
-- 
2.43.0

