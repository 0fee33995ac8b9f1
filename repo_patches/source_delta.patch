From f7f6a9ad6a2cc05fba28b883f0a1d56ba105efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 01/34] fix: C checker crashed on attribute names that cannot
 be encoded as UTF-8

Checker_check_int encoded every unmapped name to UTF-8 (up to three times,
leaking the bytes object each time) and dereferenced the result without
checking for failure, so getattr(proxy, '\ud800') was a segfault.
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..ee452c7 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GET_LENGTH(name) >= 2
+              && PyUnicode_READ_CHAR(name, 0) == '_'
+              && PyUnicode_READ_CHAR(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From b70a9e2aeeb78bde9073789d09c9b0a483a15f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/34] fix: C checker treated a permission of None as a
 permission to ask for

The checker tables document None as 'access is forbidden' (and the Python
checker implements that), but the C checker asked the security policy for
the permission None, which permissive policies and system users are granted.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index ee452c7..739d942 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -228,7 +228,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From c0d0a6a97dc599d811c664cd3fca21e6a71e81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 03/34] fix: next() on the C proxy of a non-iterator crashed

PyIter_Next() must not be called on objects whose type has no tp_iternext.
A built-in checker grants __next__ for such objects, e.g. the keys() view
of an OrderedDict, so next(ProxyFactory(OrderedDict().keys())) segfaulted.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..bd9f606 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -353,6 +353,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (!PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From dbbeddcb17a239701f80d562c4b9fadb49efed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 04/34] fix: C proxy did not check __index__

The slot was inherited from zope.proxy, so operator.index(), slicing and
bytes() converted the proxied object without asking the checker.
---
 src/zope/security/_proxy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index bd9f606..f26b97e 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -71,6 +71,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -568,6 +569,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -728,6 +730,7 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -897,6 +900,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 522400d3fdf696ac7bf04b4eca760d9e499052b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 05/34] fix: C proxy handed out unproxied str subclasses from
 str() and repr()

---
 src/zope/security/_proxy.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index f26b97e..253a439 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -426,6 +426,20 @@ default_repr(PyObject *object)
   return result;
 }
 
+/* The result of a string conversion is handed out unproxied, so it has to
+   be a plain string and not an instance of some subclass. */
+static PyObject *
+plain_string(PyObject *string)
+{
+  PyObject *result;
+
+  if (string == NULL || PyUnicode_CheckExact(string))
+    return string;
+  result = PyUnicode_FromObject(string);
+  Py_DECREF(string);
+  return result;
+}
+
 static PyObject *
 proxy_str(SecurityProxy *self)
 {
@@ -433,7 +447,7 @@ proxy_str(SecurityProxy *self)
 
   if (check(self, str_check, str___str__) >= 0)
     {
-      result = PyObject_Str(self->proxy.proxy_object);
+      result = plain_string(PyObject_Str(self->proxy.proxy_object));
     }
   else
     {
@@ -449,7 +463,7 @@ proxy_repr(SecurityProxy *self)
   PyObject *result = NULL;
 
   if (check(self, str_check, str___repr__) >= 0) {
-    result = PyObject_Repr(self->proxy.proxy_object);
+    result = plain_string(PyObject_Repr(self->proxy.proxy_object));
   }
   else {
     PyErr_Clear();
-- 
2.43.0


From 3914b0c0ce825263783768e24ca0a7a38669b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 06/34] fix: C proxy's generic repr crashed on unencodable or
 non-string names

default_repr() dereferenced the result of a failing UTF-8 encoding of the
class or module name, and leaked the encoded bytes otherwise.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 253a439..a6db411 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -391,7 +388,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -400,22 +396,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From f3ed5f55e91dc0f5755b5d448868819524b932a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:03 +0000
Subject: [PATCH 07/34] fix: pure-Python proxy leaked unproxied results of rich
 comparisons

---
 src/zope/security/proxy.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..9ab4338 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,14 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _comparison_result(proxy, result):
+    # Like the C implementation: booleans are handed out directly, any other
+    # result of a rich comparison is proxied.
+    if result is True or result is False:
+        return result
+    return getCheckerPy(proxy).proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +185,32 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        return _comparison_result(self, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        return _comparison_result(self, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        return _comparison_result(self, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        return _comparison_result(self, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        return _comparison_result(self, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        return _comparison_result(self, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From d2df842da11302ee44edd47d7871f67171f96686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 08/34] fix: pure-Python proxy corrupted itself on in-place
 operators

An in-place operator stored whatever the wrapped object's method returned
(even NotImplemented) as the new wrapped object of the existing proxy, so
every holder of that proxy suddenly saw another object, and results of the
fallback to the plain operator kept the old checker. Use the real in-place
operation, return the same proxy if it returned its target, and otherwise
proxy the result, like the C implementation does.
---
 src/zope/security/proxy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 9ab4338..e87c1c6 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,17 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    inplace = getattr(operator, name)
 
     def _wrapper(self, *args, **kw):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        result = inplace(wrapped, *args, **kw)
+        if result is wrapped:
+            # The operation was really carried out in place.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(result)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 0c2fb62b1f862d700463cdf625cbe14f8402b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 09/34] fix: CombinedChecker ignored the checks of its first
 part

It only used the permission tables of checker1, so when checker1 was itself
a combined checker (or overrides its checks) the combination was not the
documented logical or: what checker1 grants was refused.
---
 src/zope/security/checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..eb57437 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -559,12 +559,13 @@ class CombinedChecker(Checker):
                          checker1.get_permissions,
                          checker1.set_permissions)
 
+        self._checker1 = checker1
         self._checker2 = checker2
 
     def check(self, object, name):
         'See IChecker'
         try:
-            Checker.check(self, object, name)
+            self._checker1.check(object, name)
         except ForbiddenAttribute:
             self._checker2.check(object, name)
         except Unauthorized as unauthorized_exception:
@@ -578,7 +579,7 @@ class CombinedChecker(Checker):
     def check_setattr(self, object, name):
         'See IChecker'
         try:
-            Checker.check_setattr(self, object, name)
+            self._checker1.check_setattr(object, name)
         except ForbiddenAttribute:
             self._checker2.check_setattr(object, name)
         except Unauthorized as unauthorized_exception:
-- 
2.43.0


From 71a97d50d5cbab5b3399ff4cfdc1f7c909768d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 10/34] fix: spurious DuplicationError for equal permission ids

NamesChecker and MultiChecker compared permission ids by identity, so the
same id given twice as two equal strings was reported as a conflict.
---
 src/zope/security/checker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index eb57437..117796c 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -375,7 +375,7 @@ def NamesChecker(names=(), permission_id=CheckerPublic, **__kw__):
     data = {}
     data.update(__kw__)
     for name in names:
-        if data.get(name, permission_id) is not permission_id:
+        if data.get(name, permission_id) != permission_id:
             raise DuplicationError(name)
         data[name] = permission_id
 
@@ -416,12 +416,12 @@ def MultiChecker(specs):
             if IInterface.providedBy(names):
                 names = names.names(all=True)
             for name in names:
-                if data.get(name, permission_id) is not permission_id:
+                if data.get(name, permission_id) != permission_id:
                     raise DuplicationError(name)
                 data[name] = permission_id
         else:
             for name, permission_id in spec.items():
-                if data.get(name, permission_id) is not permission_id:
+                if data.get(name, permission_id) != permission_id:
                     raise DuplicationError(name)
                 data[name] = permission_id
 
-- 
2.43.0


From 7ab3d35ed977d46e9170a042211c72bd4dde1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 11/34] fix: removing a participation could remove another one
 that compares equal

list.remove() uses equality, so with participations that define __eq__ the
interaction could keep the removed participation and drop a different one,
and with it the principal the policy has to consider.
---
 src/zope/security/simplepolicies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..414a6b6 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,8 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        self.participations[:] = [p for p in self.participations
+                                  if p is not participation]
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From 27c4e9c0bdb48111e97b7b20bbb5386ff730daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 12/34] fix: iteration over legacy sequences bypassed the
 __getitem__ permission

Checkers let __iter__ through for objects that do not have it, expecting an
attribute error. But iter() falls back to __getitem__, so every item of a
proxied object with only __getitem__ could be fetched without permission.
Require what __getitem__ requires in that case.
---
 src/zope/security/_zope_security_checker.c | 13 ++++++++++---
 src/zope/security/checker.py               |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 739d942..f5dd32f 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -45,6 +45,7 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 DECLARE_STRING(checkPermission);
 DECLARE_STRING(__Security_checker__);
+DECLARE_STRING(__getitem__);
 DECLARE_STRING(interaction);
 
 #define CLEAR(O) if (O) {PyObject *t = O; O = 0; Py_DECREF(t); }
@@ -178,9 +179,14 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
       if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+        {
+          /* Without __iter__, iteration gets the items by __getitem__. */
+          if (PyObject_HasAttr(object, str___getitem__))
+            return Checker_check_int(self, object, str___getitem__);
+          /* We want an attr error if we're asked for __iter__ and we don't
+             have it. We'll get one by allowing the access. */
+          return 0;
+        }
     }
 
   {
@@ -591,6 +597,7 @@ if((str_##S = INTERN(#S)) == NULL) return MOD_ERROR_VAL
 
   INIT_STRING(checkPermission);
   INIT_STRING(__Security_checker__);
+  INIT_STRING(__getitem__);
   INIT_STRING(interaction);
 
   if ((_checkers = PyDict_New()) == NULL)
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 117796c..b909f47 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -274,6 +274,9 @@ class CheckerPy:
         if name != '__iter__' or hasattr(object, name):
             __traceback_supplement__ = (TracebackSupplement, object)
             raise ForbiddenAttribute(name, object)
+        if hasattr(object, '__getitem__'):
+            # Without __iter__, iteration gets the items by __getitem__.
+            CheckerPy.check(self, object, '__getitem__')
 
     check_getattr = check  # 'See IChecker'
 
-- 
2.43.0


From 72e680e965bae72a3e9f3c8f32bdbc399e55bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:04 +0000
Subject: [PATCH 13/34] fix: canAccess(obj, '__iter__') was True although
 iteration is forbidden

The checker was given the proxy instead of the protected object, so its
test for a missing __iter__ saw the proxy's own refusal as absence. Check
the object itself, as actual access through the proxy does.
---
 src/zope/security/checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index b909f47..b23b5d8 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -86,6 +86,7 @@ from zope.security.interfaces import ISecurityProxyFactory
 from zope.security.interfaces import Unauthorized
 from zope.security.proxy import Proxy
 from zope.security.proxy import getChecker
+from zope.security.proxy import removeSecurityProxy
 
 
 try:
@@ -149,6 +150,7 @@ def canWrite(obj, name):
     """
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    obj = removeSecurityProxy(obj)
     try:
         checker.check_setattr(obj, name)
     except Unauthorized:
@@ -186,6 +188,7 @@ def canAccess(obj, name):
     # implementation, special names like __getitem__
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    obj = removeSecurityProxy(obj)
     try:
         checker.check_getattr(obj, name)
     except Unauthorized:
-- 
2.43.0


From 6f34a4e60bf449e9c8e1ae08279b2583999bf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 14/34] fix: pure-Python proxy let any code rebind its object
 and checker

Assigning to the _wrapped or _checker attribute of a pure-Python proxy
replaced the wrapped object or the checker without any check, so untrusted
code could give itself access to everything.  Refuse it, like reading and
deleting these attributes.
---
 src/zope/security/proxy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index e87c1c6..180444a 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -88,16 +88,17 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
-        inst = super().__new__(cls)
-        inst._wrapped = value
-        inst._checker = checker
+        inst = object.__new__(cls)
+        setattr_ = super(ProxyPy, inst).__setattr__
+        setattr_('_wrapped', value)
+        setattr_('_checker', checker)
         return inst
 
     def __init__(self, value, checker):
         if checker is None:
             raise ValueError('checker may now be None')
-        self._wrapped = value
-        self._checker = checker
+        super().__setattr__('_wrapped', value)
+        super().__setattr__('_checker', checker)
 
     # Attribute protocol
     def __getattribute__(self, name):
@@ -168,7 +169,7 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
-            return super().__setattr__(name, value)
+            raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_setattr(wrapped, name)
-- 
2.43.0


From ae3ad30ec1f168da16dd398ea6c73c3df54568c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 15/34] fix: watching checks changed their outcome if an
 object's repr() fails

---
 src/zope/security/checker.py | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index b23b5d8..898f26d 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -595,6 +595,15 @@ class CombinedChecker(Checker):
                 raise unauthorized_exception
 
 
+def _repr(object):
+    # For messages about a check, whose outcome must not depend on whether
+    # the object can be represented.
+    try:
+        return repr(object)
+    except Exception:
+        return f'<{type(object).__name__} at 0x{id(object):x}>'
+
+
 class CheckerLoggingMixin:
     """
     Debugging mixin for checkers.
@@ -620,18 +629,18 @@ class CheckerLoggingMixin:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, _repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {_repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {_repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {_repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -640,20 +649,20 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, _repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, _repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
+                f'[CHK] - Unauthorized getattr: {name} on {_repr(object)}'
             )
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                f'[CHK] - Forbidden getattr: {name} on {_repr(object)}')
             raise
 
     __setitem__ = check_getattr
@@ -663,16 +672,16 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, _repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, _repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                f'[CHK] - Forbidden setattr: {name} on {_repr(object)}')
             raise
 
 
-- 
2.43.0


From 722a0635fc48c0598d337bd97e2ba3db78bcdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:51 +0000
Subject: [PATCH 16/34] fix: C checker failed on results whose
 __Security_checker__ is None

---
 src/zope/security/_zope_security_checker.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index f5dd32f..aab368c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -278,9 +278,11 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         checker = getattr(value, '__Security_checker__', None) */
   checker = PyObject_GetAttr(value, str___Security_checker__);
 /*         if checker is None: */
-  if (checker == NULL)
+  if (checker == NULL || checker == Py_None)
     {
-      PyErr_Clear();
+      if (checker == NULL)
+        PyErr_Clear();
+      Py_XDECREF(checker);
 
 /*             checker = selectChecker(value) */
       checker = selectChecker(NULL, value);
@@ -296,20 +298,6 @@ Checker_proxy(Checker *self, PyObject *value)
           return value;
         }
     }
-  else if (checker == Py_None)
-    {
-      PyObject *errv = Py_BuildValue("sO",
-                                     "Invalid value, None. "
-                                     "for security checker",
-                                     value);
-      if (errv != NULL)
-        {
-          PyErr_SetObject(PyExc_ValueError, errv);
-          Py_DECREF(errv);
-        }
-
-      return NULL;
-    }
 
   r = PyObject_CallFunctionObjArgs(Proxy, value, checker, NULL);
   Py_DECREF(checker);
-- 
2.43.0


From 85e40e984d17953726c13a6d38b70a39215e7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:01 +0000
Subject: [PATCH 17/34] fix: C checker ignored errors from looking up a
 result's own checker

---
 src/zope/security/_zope_security_checker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index aab368c..9f7d04e 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -281,7 +281,11 @@ Checker_proxy(Checker *self, PyObject *value)
   if (checker == NULL || checker == Py_None)
     {
       if (checker == NULL)
-        PyErr_Clear();
+        {
+          if (!PyErr_ExceptionMatches(PyExc_AttributeError))
+            return NULL;
+          PyErr_Clear();
+        }
       Py_XDECREF(checker);
 
 /*             checker = selectChecker(value) */
-- 
2.43.0


From 96ff6fce056e4293af3f307c783dbb91b1992a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:21 +0000
Subject: [PATCH 18/34] fix: C selectChecker returned a result with an
 exception set

---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 9f7d04e..a2bbf22 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -516,11 +516,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int is_exception = PyObject_IsInstance(object, PyExc_Exception);
+      if (is_exception < 0)
+        return NULL;
+      if (is_exception)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 330cb0cda12955008ed3f3e7236f1f4d91dd4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 19/34] fix: pure-Python proxies gave their own __doc__ for
 that of the object

---
 src/zope/security/proxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 180444a..635b045 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -122,7 +122,7 @@ class ProxyPy(PyProxyBase):
             # for backwards compatibility, we need to be able to
             # pickle proxies. See checker:Global for an example.
             val = getattr(wrapped, name)
-        elif name == '__module__':
+        elif name in ('__module__', '__doc__'):
             # The superclass deals with descriptors found in the type
             # of this object just like the Python language spec states, letting
             # them have precedence over things found in the instance. This
@@ -136,7 +136,8 @@ class ProxyPy(PyProxyBase):
             # pickling, and checker:Global can't return anything more
             # sophisticated than a str (a tuple) because it gets proxied and
             # breaks pickling again. Our solution is to match the C version for
-            # this one attribute.
+            # this one attribute. The same goes for __doc__, which otherwise
+            # is the documentation of the proxy class.
             val = getattr(wrapped, name)
         else:
             val = super().__getattribute__(name)
-- 
2.43.0


From ab55729dc945c42dc2995333a251e10bcef4322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 20/34] fix: interaction() took an interaction that is a false
 value for none

---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From ab081468a4a39e6caf60475a6c88a939ad47cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 21/34] fix: redefining a permission in an included file
 changed the including file

---
 src/zope/security/zcml.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index d24e04d..81b2162 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -119,8 +119,12 @@ class IRedefinePermission(Interface):
 def redefinePermission(_context, from_, to):
     _context = _context.context
 
-    # check if context has any permission mappings yet
-    if not hasattr(_context, 'permission_mapping'):
-        _context.permission_mapping = {}
-
-    _context.permission_mapping[from_] = to
+    # check if context has any permission mappings of its own yet: those of
+    # an enclosing context (an including file) apply but must not be changed
+    mapping = getattr(_context, 'permission_mapping', None)
+    outer = getattr(_context, 'context', None)
+    if mapping is None \
+            or mapping is getattr(outer, 'permission_mapping', None):
+        mapping = _context.permission_mapping = dict(mapping or {})
+
+    mapping[from_] = to
-- 
2.43.0


From 5b5b6ea4d154b27ec83dce775b17a77b25f0394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 22/34] fix: redefining a permission again redefined what it
 had been replaced by

---
 src/zope/security/zcml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index 81b2162..a119e44 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -102,10 +102,16 @@ def permission(_context, id, title, description=''):
     utility(_context, IPermission, permission, name=id)
 
 
+class _OriginalPermission(Permission):
+    """A permission that is itself meant, even where it is redefined."""
+
+    fromUnicode = Id.fromUnicode
+
+
 class IRedefinePermission(Interface):
     """Define a permission to replace another permission."""
 
-    from_ = Permission(
+    from_ = _OriginalPermission(
         title="Original permission",
         description="Original permission ID to redefine.",
         required=True)
-- 
2.43.0


From 9311e093cdac1a43975084b48ea9c28d2b65eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 23/34] fix: require in a module directive rejected the
 documented interface attribute

---
 src/zope/security/metadirectives.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..c06add7 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -198,6 +198,13 @@ class IRequire(Interface):
         value_type=PythonIdentifier(),
         required=False)
 
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require permission for. "
+                     "Multiple interfaces can be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
+
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
-- 
2.43.0


From d4addd03d3d7f5ae2cc1391a0f94361976700d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 24/34] fix: checkPermission took a registered permission that
 is a false value for undefined

---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From bc45cb98ea766c6c36e83150c2db1259af94986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 25/34] fix: report refusals of the C default checker when
 watching checks

---
 src/zope/security/_zope_security_checker.c | 25 ++++++++++++++++++++++
 src/zope/security/checker.py               | 12 +++++++----
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index a2bbf22..40ef8ce 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -559,9 +559,34 @@ static char
 module___doc__[] = "C optimizations for zope.security.checker";
 
 
+static char _setDefaultChecker_doc[] =
+"Replace the checker that selectChecker uses for objects of other types.";
+
+static PyObject *
+_setDefaultChecker(PyObject *ignored, PyObject *checker)
+{
+  PyObject *old;
+
+  if (! PyObject_TypeCheck(checker, &CheckerType))
+    {
+      PyErr_SetString(PyExc_TypeError, "not a checker");
+      return NULL;
+    }
+
+  old = _defaultChecker;
+  Py_INCREF(checker);
+  _defaultChecker = checker;
+  Py_XDECREF(old);
+
+  Py_INCREF(Py_None);
+  return Py_None;
+}
+
 static PyMethodDef
 module_functions[] = {
   {"selectChecker", (PyCFunction)selectChecker, METH_O, selectChecker_doc},
+  {"_setDefaultChecker", (PyCFunction)_setDefaultChecker, METH_O,
+   _setDefaultChecker_doc},
   {NULL}  /* Sentinel */
 };
 
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 898f26d..d8754d9 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -707,14 +707,18 @@ class WatchingCombinedChecker(CombinedChecker, WatchingChecker):
 
 if WATCH_CHECKERS:  # pragma: no cover
     # When we make these the default, we also need to be sure
-    # to update the _defaultChecker's type (if it's not the C
-    # extension) so that selectCheckerPy can properly recognize
-    # it as a Checker.
+    # to update the _defaultChecker's type so that selectCheckerPy
+    # can properly recognize it as a Checker. The type of the C
+    # extension's one can't change, so that is replaced.
     # See https://github.com/zopefoundation/zope.security/issues/8
     Checker = WatchingChecker
     CombinedChecker = WatchingCombinedChecker
 
-    if not _c_available:
+    if _c_available:
+        from zope.security._zope_security_checker import _setDefaultChecker
+        _defaultChecker = Checker({})
+        _setDefaultChecker(_defaultChecker)
+    else:
         _defaultChecker.__class__ = Checker
 
 
-- 
2.43.0


From 46ee280d6c943ff67d03534af8aa2f8484b859cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 26/34] fix: deleting an item of a C checker crashed

---
 src/zope/security/_zope_security_checker.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 40ef8ce..a3d45a3 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -423,10 +423,23 @@ static PyGetSetDef Checker_getset[] = {
    that we call alot.  The security proxy implementation participates
    in the same hack. */
 
+static int
+Checker_ass_subscript(Checker *self, PyObject *object, PyObject *name)
+{
+  if (name == NULL)
+    {
+      PyErr_SetString(PyExc_TypeError,
+                      "Checkers don't support item deletion");
+      return -1;
+    }
+
+  return Checker_check_int(self, object, name);
+}
+
 static PyMappingMethods Checker_as_mapping = {
     /* mp_length        */ NULL,
     /* mp_subscript     */ (binaryfunc)Checker_proxy,
-    /* mp_ass_subscript */ (objobjargproc)Checker_check_int,
+    /* mp_ass_subscript */ (objobjargproc)Checker_ass_subscript,
 };
 
 
-- 
2.43.0


From f552b24618624c09c5e6a4243cce3589d3d36b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 27/34] fix: initialising a C checker again leaked its tables

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index a3d45a3..354c586 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -369,9 +369,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
+  Py_XSETREF(self->getperms, getperms);
   Py_XINCREF(setperms);
-  self->setperms = setperms;
+  Py_XSETREF(self->setperms, setperms);
 
   return 0;
 }
-- 
2.43.0


From 4e0bf007e67b329ab688ad2c7c0d42edcfad5b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 28/34] fix: a pure-Python proxy could be bound to another
 object by initialising it again

---
 src/zope/security/proxy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 635b045..49f4301 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -88,6 +88,8 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
+        if checker is None:
+            raise ValueError('checker may now be None')
         inst = object.__new__(cls)
         setattr_ = super(ProxyPy, inst).__setattr__
         setattr_('_wrapped', value)
@@ -95,10 +97,9 @@ class ProxyPy(PyProxyBase):
         return inst
 
     def __init__(self, value, checker):
-        if checker is None:
-            raise ValueError('checker may now be None')
-        super().__setattr__('_wrapped', value)
-        super().__setattr__('_checker', checker)
+        # Everything is set up in __new__, like in the C implementation: a
+        # proxy that exists must not be bound to anything else.
+        pass
 
     # Attribute protocol
     def __getattribute__(self, name):
-- 
2.43.0


From 95eefd37a00b131e1a6b59891ea6540b240e8552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 29/34] fix: a name that is an instance of a str subclass was
 checked as one name and used as another

---
 src/zope/security/_proxy.c | 17 +++++++++++++++--
 src/zope/security/proxy.py | 10 ++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index a6db411..a19e6fa 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -368,20 +368,33 @@ proxy_getattro(SecurityProxy *self, PyObject *name)
 {
   PyObject *result = NULL;
 
+  /* An instance of a subclass of str could pass for one name when it is
+     checked and for another one when it is used. */
+  name = PyUnicode_FromObject(name);
+  if (name == NULL)
+    return NULL;
   if (check(self, str_check_getattr, name) >= 0)
     {
       result = PyObject_GetAttr(self->proxy.proxy_object, name);
       PROXY_RESULT(self, result);
     }
+  Py_DECREF(name);
   return result;
 }
 
 static int
 proxy_setattro(SecurityProxy *self, PyObject *name, PyObject *value)
 {
+  int result = -1;
+
+  /* as for proxy_getattro */
+  name = PyUnicode_FromObject(name);
+  if (name == NULL)
+    return -1;
   if (check(self, str_check_setattr, name) >= 0)
-    return PyObject_SetAttr(self->proxy.proxy_object, name, value);
-  return -1;
+    result = PyObject_SetAttr(self->proxy.proxy_object, name, value);
+  Py_DECREF(name);
+  return result;
 }
 
 static PyObject *
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 49f4301..c00696a 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -74,6 +74,12 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _plain_name(name):
+    # An instance of a subclass of str could pass for one name when it is
+    # checked and for another one when it is used.
+    return name if type(name) is str else str.__str__(name)
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -103,6 +109,7 @@ class ProxyPy(PyProxyBase):
 
     # Attribute protocol
     def __getattribute__(self, name):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
             if sys._getframe(1).f_locals.get('self') is not self:
@@ -164,12 +171,14 @@ class ProxyPy(PyProxyBase):
         # but we're consistent. We would provide a better error
         # message or even subclass of AttributeError, but that's liable to
         # break (doc)tests.
+        name = _plain_name(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_getattr(wrapped, name)
         raise AttributeError(name)
 
     def __setattr__(self, name, value):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
@@ -178,6 +187,7 @@ class ProxyPy(PyProxyBase):
         setattr(wrapped, name, value)
 
     def __delattr__(self, name):
+        name = _plain_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError()
         wrapped = super().__getattribute__('_wrapped')
-- 
2.43.0


From fe2e1b8cec3c48cd342e3f7bd0d15d710334fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 30/34] fix: an object whose __class__ claims to be a security
 proxy was taken for one and left unprotected

---
 src/zope/security/checker.py   | 4 ++--
 src/zope/security/decorator.py | 2 +-
 src/zope/security/proxy.py     | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index d8754d9..97acb14 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -109,7 +109,7 @@ def ProxyFactory(object, checker=None):
 
     The proxy checker is looked up if not provided.
     """
-    if isinstance(object, Proxy):
+    if issubclass(type(object), Proxy):  # whatever __class__ says
         if checker is None or checker is getChecker(object):
             return object
         else:
@@ -285,7 +285,7 @@ class CheckerPy:
 
     def proxy(self, value):
         'See IChecker'
-        if isinstance(value, Proxy):
+        if issubclass(type(value), Proxy):  # whatever __class__ says
             return value
         checker = getattr(value, '__Security_checker__', None)
         if checker is None:
diff --git a/src/zope/security/decorator.py b/src/zope/security/decorator.py
index 5ad9649..97834f9 100644
--- a/src/zope/security/decorator.py
+++ b/src/zope/security/decorator.py
@@ -36,7 +36,7 @@ class DecoratedSecurityCheckerDescriptor:
             return self
         else:
             proxied_object = getProxiedObject(inst)
-            if isinstance(proxied_object, Proxy):
+            if issubclass(type(proxied_object), Proxy):
                 checker = getChecker(proxied_object)
             else:
                 checker = getattr(proxied_object, '__Security_checker__', None)
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index c00696a..08d9d79 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -365,7 +365,8 @@ _builtin_isinstance = sys.modules['builtins'].isinstance
 
 
 def getObjectPy(proxy):
-    if not _builtin_isinstance(proxy, ProxyPy):
+    if not _builtin_isinstance(proxy, ProxyPy) \
+            or not issubclass(type(proxy), ProxyPy):  # whatever __class__ says
         return proxy
     return super(ProxyPy, proxy).__getattribute__('_wrapped')
 
-- 
2.43.0


From 8fad75242a09c425503f24d6525f354d26dc3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 31/34] fix: the C checker used a permission that had been
 removed from its table while the policy was asked

---
 src/zope/security/_zope_security_checker.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 354c586..23a5126 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -106,21 +106,29 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
         return -1;
+      /* The permission is borrowed from a table that may change while the
+         policy is asked. */
+      Py_INCREF(permission);
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        {
+          Py_DECREF(permission);
+          return -1;
+        }
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
-      if (i < 0)
-        return -1;
-      if (i)
-        return 0;
+      if (i != 0)
+        {
+          Py_DECREF(permission);
+          return i < 0 ? -1 : 0;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
+      Py_DECREF(permission);
       if (r == NULL)
         return -1;
       PyErr_SetObject(Unauthorized, r);
-- 
2.43.0


From db5f1864c555bbaa90f0501941d4ac45cf1406f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 32/34] fix: the C selectChecker believed __class__ and left
 objects unprotected that claim to be exceptions

---
 src/zope/security/_zope_security_checker.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23a5126..69bb4f5 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -534,19 +534,14 @@ selectChecker(PyObject *ignored, PyObject *object)
       return Py_None;
     }
 
-/*     if checker is _defaultChecker and isinstance(object, Exception): */
+/*     if checker is _defaultChecker and issubclass(type(object), Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker)
+  if (checker == _defaultChecker
+      && PyObject_TypeCheck(object, (PyTypeObject *)PyExc_Exception))
     {
-      int is_exception = PyObject_IsInstance(object, PyExc_Exception);
-      if (is_exception < 0)
-        return NULL;
-      if (is_exception)
-        {
-          Py_INCREF(Py_None);
-          return Py_None;
-        }
+      Py_INCREF(Py_None);
+      return Py_None;
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From ae0e3ae4c6de3e100f064c2bb215a9586ed9c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 33/34] fix: types added to or removed from BasicTypes by
 setdefault, |=, pop, popitem or pairs did not reach the registry

---
 src/zope/security/checker.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 97acb14..93ab3de 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -786,10 +786,32 @@ class _BasicTypes(dict):
         # Make sure you cannot clear the values
         raise NotImplementedError
 
-    def update(self, d):
+    def update(self, *args, **kw):
+        d = dict(*args, **kw)
         dict.update(self, d)
         _checkers.update(d)
 
+    def __ior__(self, d):
+        self.update(d)
+        return self
+
+    def setdefault(self, name, value=None):
+        if name not in self:
+            self[name] = value
+        return self[name]
+
+    def pop(self, name, *default):
+        if default and name not in self:
+            return default[0]
+        value = self[name]
+        del self[name]
+        return value
+
+    def popitem(self):
+        name, value = dict.popitem(self)
+        del _checkers[name]
+        return name, value
+
 
 _basic_types = {
     object: NoProxy,
-- 
2.43.0


From 24ab398d8151e394cedee94edd71616934fd52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:11 +0000
Subject: [PATCH 34/34] fix: a decorator class reached through a proxy got a
 descriptor instead of a checker

---
 src/zope/security/decorator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/decorator.py b/src/zope/security/decorator.py
index 97834f9..83e480e 100644
--- a/src/zope/security/decorator.py
+++ b/src/zope/security/decorator.py
@@ -33,7 +33,8 @@ class DecoratedSecurityCheckerDescriptor:
 
     def __get__(self, inst, cls=None):
         if inst is None:
-            return self
+            # The class itself is protected like other classes are.
+            return None
         else:
             proxied_object = getProxiedObject(inst)
             if issubclass(type(proxied_object), Proxy):
-- 
2.43.0

