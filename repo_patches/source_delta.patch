From e9bfd68f93f848f22c18d2b1b55f98f82cef66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 01/34] fix: do not crash or leak when checking attribute names

The C checker encoded every name that it did not find to a new UTF-8
bytes object, which it never released and did not check for NULL: a name
that UTF-8 cannot encode (a lone surrogate) crashed the interpreter.
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..d25897d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GetLength(name) >= 2
+              && PyUnicode_ReadChar(name, 0) == '_'
+              && PyUnicode_ReadChar(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From a468c2928b18f07346806c1d9fd867de2eb19d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 02/34] fix: a permission of None forbids access in the C
 checker too

As documented, and as the Python implementation does, a name whose
permission is None is forbidden. The C checker passed None on to the
interaction as if it were a permission, which system_user interactions
and permissive policies grant.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d25897d..3b30a4c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -228,7 +228,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From 03bf9fbdad0a36bcd53bc4a9afa6ff820e051c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 03/34] fix: keep the permission alive while the interaction is
 asked

The C checker used a reference borrowed from its permission dictionary
after calling the interaction, which may have changed the dictionary and
so released the permission.
---
 src/zope/security/_zope_security_checker.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 3b30a4c..7bd65a5 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -98,33 +98,43 @@ static int
 checkPermission(PyObject *permission, PyObject *object, PyObject *name)
 {
       PyObject *interaction, *r;
-      int i;
+      int i, result = -1;
 
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
         return -1;
+
+      /* permission is borrowed from a dictionary of the checker, and the
+         interaction may change that dictionary. */
+      Py_INCREF(permission);
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        goto done;
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
       if (i < 0)
-        return -1;
+        goto done;
       if (i)
-        return 0;
+        {
+          result = 0;
+          goto done;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
       if (r == NULL)
-        return -1;
+        goto done;
       PyErr_SetObject(Unauthorized, r);
       Py_DECREF(r);
-      return -1;
+
+ done:
+      Py_DECREF(permission);
+      return result;
 }
 
 
-- 
2.43.0


From 6c3aa67c8bcbe4477050c2c2ef168ee0c1ab31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 04/34] fix: selectChecker must not take a failing isinstance
 for a yes

An object whose __class__ raises was taken for an exception and so
returned without a proxy (as a SystemError: result with an exception set).
---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 7bd65a5..dcf9392 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -528,11 +528,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int isexc = PyObject_IsInstance(object, PyExc_Exception);
+      if (isexc < 0)
+        return NULL;
+      if (isexc)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 7e81c5efd249d77e57297f5e687958b6771e4127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 05/34] fix: do not ignore errors from looking up
 __Security_checker__

The C checker ignored every exception, even KeyboardInterrupt, and used
the checker of the type instead. Like the Python implementation, only take
AttributeError for a missing __Security_checker__.
---
 src/zope/security/_zope_security_checker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index dcf9392..3b52f35 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -284,6 +284,8 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         if checker is None: */
   if (checker == NULL)
     {
+      if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+        return NULL;
       PyErr_Clear();
 
 /*             checker = selectChecker(value) */
-- 
2.43.0


From b7b889ad101247a4da7d37294277bc5874262a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 06/34] fix: do not leak the dictionaries of a checker
 initialised again

---
 src/zope/security/_zope_security_checker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 3b52f35..5c03ebe 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -383,8 +383,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
   Py_XINCREF(setperms);
+  Checker_clear(self);
+  self->getperms = getperms;
   self->setperms = setperms;
 
   return 0;
-- 
2.43.0


From 1860947ac4473b15e6c99e1ea30bd5372d0aac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 07/34] fix: do not crash or leak in the default repr of the C
 proxy

It encoded the names of the module and the class to new UTF-8 bytes
objects, which it never released and did not check for NULL: a __module__
or __name__ that is no string, or that UTF-8 cannot encode, crashed.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..5ce1822 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -384,7 +381,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -393,22 +389,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From 4bd26150f2b625ab6961be3e93821eb5c963fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 08/34] fix: check __index__ in the C proxy

The C security proxy inherited this operation from zope.proxy, so that it
was carried out on the proxied object without asking the checker and its
result was not proxied.
---
 src/zope/security/_proxy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5ce1822..4e33e58 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -68,6 +68,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -552,6 +553,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -712,6 +714,7 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -881,6 +884,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 434d74be762a35133d4f56238634f7a1d6c07c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 09/34] fix: str() and repr() of a C proxy return plain strings

They returned an instance of a subclass of str as it was, without the
security proxy that any other result gets.
---
 src/zope/security/_proxy.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 4e33e58..bbf89f9 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -410,6 +410,21 @@ default_repr(PyObject *object)
   return result;
 }
 
+/* str() and repr() must return strings, so their results can not be proxied.
+   Do not hand out instances of subclasses of str either, they could have
+   arbitrary attributes. */
+static PyObject *
+plain_string(PyObject *result)
+{
+  if (result != NULL && ! PyUnicode_CheckExact(result))
+    {
+      PyObject *tmp = PyUnicode_FromObject(result);
+      Py_DECREF(result);
+      result = tmp;
+    }
+  return result;
+}
+
 static PyObject *
 proxy_str(SecurityProxy *self)
 {
@@ -417,7 +432,7 @@ proxy_str(SecurityProxy *self)
 
   if (check(self, str_check, str___str__) >= 0)
     {
-      result = PyObject_Str(self->proxy.proxy_object);
+      result = plain_string(PyObject_Str(self->proxy.proxy_object));
     }
   else
     {
@@ -433,7 +448,7 @@ proxy_repr(SecurityProxy *self)
   PyObject *result = NULL;
 
   if (check(self, str_check, str___repr__) >= 0) {
-    result = PyObject_Repr(self->proxy.proxy_object);
+    result = plain_string(PyObject_Repr(self->proxy.proxy_object));
   }
   else {
     PyErr_Clear();
-- 
2.43.0


From 610a04914d145e6182c9c270305962212dbc6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:22 +0000
Subject: [PATCH 10/34] fix: canAccess and canWrite check the object itself, as
 the proxy does

They handed the security proxy to the checker, so that the answer could
differ from what the access does: '__iter__' was reported accessible
although it is forbidden, and policies saw a proxy.
---
 src/zope/security/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..1565421 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -86,6 +86,7 @@ from zope.security.interfaces import ISecurityProxyFactory
 from zope.security.interfaces import Unauthorized
 from zope.security.proxy import Proxy
 from zope.security.proxy import getChecker
+from zope.security.proxy import getObject
 
 
 try:
@@ -149,6 +150,8 @@ def canWrite(obj, name):
     """
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # Like the proxy, have the checker look at the object itself.
+    obj = getObject(obj)
     try:
         checker.check_setattr(obj, name)
     except Unauthorized:
@@ -186,6 +189,8 @@ def canAccess(obj, name):
     # implementation, special names like __getitem__
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # Like the proxy, have the checker look at the object itself.
+    obj = getObject(obj)
     try:
         checker.check_getattr(obj, name)
     except Unauthorized:
-- 
2.43.0


From a5c9a1b20e012d5cdff61f1438e06a9c759fcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:44 +0000
Subject: [PATCH 11/34] fix: CombinedChecker asks the whole first checker

It only took over the permissions of the first checker: when that is a
combined checker itself, its second checker was silently dropped.
---
 src/zope/security/checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 1565421..75ee445 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -564,12 +564,14 @@ class CombinedChecker(Checker):
                          checker1.get_permissions,
                          checker1.set_permissions)
 
+        # checker1 may be more than its permissions, for example combined.
+        self._checker1 = checker1
         self._checker2 = checker2
 
     def check(self, object, name):
         'See IChecker'
         try:
-            Checker.check(self, object, name)
+            self._checker1.check(object, name)
         except ForbiddenAttribute:
             self._checker2.check(object, name)
         except Unauthorized as unauthorized_exception:
@@ -583,7 +585,7 @@ class CombinedChecker(Checker):
     def check_setattr(self, object, name):
         'See IChecker'
         try:
-            Checker.check_setattr(self, object, name)
+            self._checker1.check_setattr(object, name)
         except ForbiddenAttribute:
             self._checker2.check_setattr(object, name)
         except Unauthorized as unauthorized_exception:
-- 
2.43.0


From 7ba8df1004bdab67e237d2115c3b3dabf764403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:09 +0000
Subject: [PATCH 12/34] fix: proxy the views of a dictionary

The keys, values and items views counted as basic types, so that a proxied
dictionary handed out its values without security proxies: the values() of
a dictionary in a proxied object gave untrusted code the bare objects.
---
 src/zope/security/checker.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 75ee445..3751bb8 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -744,6 +744,12 @@ _iteratorChecker = NamesChecker([
     '__length_hint__',
 ])
 
+_dictViewChecker = NamesChecker([
+    '__iter__', '__len__', '__str__', '__contains__', 'isdisjoint',
+    '__and__', '__or__', '__sub__', '__xor__',
+    '__rand__', '__ror__', '__rsub__', '__rxor__',
+])
+
 _setChecker = NamesChecker([
     '__iter__', '__len__', '__str__', '__contains__',
     'copy', 'difference', 'intersection', 'issubset',
@@ -793,9 +799,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -854,6 +857,10 @@ _default_checkers = {
     list: NamesChecker(['__getitem__', '__len__', '__iter__',
                         '__contains__', 'index', 'count', '__str__',
                         '__add__', '__radd__', ]),
+    # These refer to the contents of the dictionary, so they are not rocks.
+    type({}.keys()): _dictViewChecker,
+    type({}.values()): _dictViewChecker,
+    type({}.items()): _dictViewChecker,
     set: _setChecker,
     frozenset: _setChecker,
     # XXX: actually decimal.Decimal has more methods, which are unlisted here
@@ -939,6 +946,9 @@ def _fixup_dictlike(dict_type):
                 _default_checkers[iter_type] = _iteratorChecker
 
 
+_fixup_dictlike(dict)
+
+
 def _fixup_odict():
     from collections import OrderedDict
 
-- 
2.43.0


From 0a058a3593883a2d00e88b44de920511a300b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 13/34] fix: iterating by means of __getitem__ requires access
 to it

A checker lets __iter__ pass for an object that has none, to have the
access fail. It does not fail for an object with a __getitem__ method:
iter() then returned an iterator over all items, with no permission at all.
---
 src/zope/security/_zope_security_checker.c | 14 +++++++++++---
 src/zope/security/checker.py               |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 5c03ebe..783d6ae 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -45,6 +45,7 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 DECLARE_STRING(checkPermission);
 DECLARE_STRING(__Security_checker__);
+DECLARE_STRING(__getitem__);
 DECLARE_STRING(interaction);
 
 #define CLEAR(O) if (O) {PyObject *t = O; O = 0; Py_DECREF(t); }
@@ -188,9 +189,15 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
       if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+        {
+          /* Without __iter__, Python iterates by means of __getitem__. */
+          if (PyObject_HasAttr(object, str___getitem__))
+            return Checker_check_int(self, object, str___getitem__);
+
+          /* We want an attr error if we're asked for __iter__ and we don't
+             have it. We'll get one by allowing the access. */
+          return 0;
+        }
     }
 
   {
@@ -609,6 +616,7 @@ if((str_##S = INTERN(#S)) == NULL) return MOD_ERROR_VAL
 
   INIT_STRING(checkPermission);
   INIT_STRING(__Security_checker__);
+  INIT_STRING(__getitem__);
   INIT_STRING(interaction);
 
   if ((_checkers = PyDict_New()) == NULL)
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3751bb8..4dbee44 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -280,6 +280,10 @@ class CheckerPy:
             __traceback_supplement__ = (TracebackSupplement, object)
             raise ForbiddenAttribute(name, object)
 
+        if hasattr(object, '__getitem__'):
+            # Without __iter__, Python iterates by means of __getitem__.
+            CheckerPy.check(self, object, '__getitem__')
+
     check_getattr = check  # 'See IChecker'
 
     def proxy(self, value):
-- 
2.43.0


From 77f43f09496b6c10b7d56bf7b318b6696ef5d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:41 +0000
Subject: [PATCH 14/34] fix: proxy the results of comparisons in the Python
 proxy

Like the C proxy does: rich comparisons may return any object, not only
True and False, and untrusted code got that object without a proxy.
---
 src/zope/security/proxy.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..4f373ef 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,13 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _proxy_comparison(checker, result):
+    # Comparisons are not checked, but their results may be anything.
+    if result is True or result is False:
+        return result
+    return checker.proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +184,38 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        checker = super().__getattribute__('_checker')
+        return _proxy_comparison(checker, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From ae694b2e0d1e678101f531fbd1a0c42941017097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:05 +0000
Subject: [PATCH 15/34] fix: in-place operations of the Python proxy follow
 Python's rules

The proxy called the special method itself and put whatever it returned
into the existing proxy: NotImplemented became the new value, and a new
object of any type got the checker of the old one. Like the C proxy, leave
it to Python, keep the proxy if the object was changed in place and proxy
the result if it was not.
---
 src/zope/security/proxy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 4f373ef..82c1a4e 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,17 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    operation = getattr(operator, name)
 
-    def _wrapper(self, *args, **kw):
+    def _wrapper(self, other):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = operation(wrapped, other)
+        if res is wrapped:
+            # It was really carried out in place: keep the proxy, too.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From fc151ca7ec72797c8e5ea01240947f62672972ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 16/34] fix: do not let others replace the checker of a Python
 proxy

Setting _checker or _wrapped on a proxy was not checked, so that untrusted
code could give itself all permissions on the proxied object.
---
 src/zope/security/proxy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 82c1a4e..1854f84 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -73,6 +73,9 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+_set_slot = object.__setattr__
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -87,16 +90,17 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
-        inst = super().__new__(cls)
-        inst._wrapped = value
-        inst._checker = checker
+        # The superclass would set an attribute, which we do not allow.
+        inst = object.__new__(cls)
+        _set_slot(inst, '_wrapped', value)
+        _set_slot(inst, '_checker', checker)
         return inst
 
     def __init__(self, value, checker):
         if checker is None:
             raise ValueError('checker may now be None')
-        self._wrapped = value
-        self._checker = checker
+        _set_slot(self, '_wrapped', value)
+        _set_slot(self, '_checker', checker)
 
     # Attribute protocol
     def __getattribute__(self, name):
@@ -167,7 +171,7 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
-            return super().__setattr__(name, value)
+            raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_setattr(wrapped, name)
-- 
2.43.0


From 3943946330af36419390379be35da543d646af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 17/34] fix: testing.interaction leaves an interaction alone
 even if it is false

An interaction that counts as false, say for its length, was taken for none,
and beginning another one then failed.
---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From fcfd2288aacbe7bdf303557c50fceeb4fef55263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 18/34] fix: next() of a proxied object that is not an iterator
 crashed

---
 src/zope/security/_proxy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index bbf89f9..10565a0 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -351,6 +351,13 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (!PyIter_Check(self->proxy.proxy_object))
+        {
+          /* PyIter_Next() would crash. */
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From 0566024b25ed63d881d49c58f5e55aa8b669380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:01 +0000
Subject: [PATCH 19/34] fix: int() and float() of a C proxy convert everything
 that they convert without

---
 src/zope/security/_proxy.c | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 10565a0..b1f8c06 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -487,22 +487,6 @@ proxy_call(SecurityProxy *self, PyObject *args, PyObject *kwds)
  * Number methods.
  */
 
-#define NUMBER_METHOD(M) \
-static PyObject * \
-call_##M(PyObject *self) \
-{ \
-  PyNumberMethods *nb = self->ob_type->tp_as_number; \
-  if (nb == NULL || nb->nb_##M == NULL) { \
-    PyErr_SetString(PyExc_TypeError, \
-                    "object can't be converted to " #M); \
-    return NULL; \
-  } \
-  return nb->nb_##M(self); \
-}
-
-NUMBER_METHOD(int)
-NUMBER_METHOD(float)
-
 static PyObject *
 call_ipow(PyObject *self, PyObject *other)
 {
@@ -573,8 +557,8 @@ proxy_bool(PyObject *self)
 }
 
 UNOP(invert, PyNumber_Invert)
-UNOP(int, call_int)
-UNOP(float, call_float)
+UNOP(int, PyNumber_Long)
+UNOP(float, PyNumber_Float)
 UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
-- 
2.43.0


From 4bd075ca7474cd6594e5c1b4729336592e00055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 20/34] fix: deleting an item of a checker crashed

---
 src/zope/security/_zope_security_checker.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 783d6ae..af34d22 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -150,6 +150,15 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   PyObject *permission=NULL;
   int operator;
 
+  if (name == NULL)
+    {
+      /* del checker[object] */
+      PyErr_Format(PyExc_TypeError,
+                   "'%.200s' object does not support item deletion",
+                   Py_TYPE(self)->tp_name);
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From 212e350ed6944ca07e8a15f1677b2c0ee542796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:00 +0000
Subject: [PATCH 21/34] fix: own the permission table and the permission while
 they are used

---
 src/zope/security/_zope_security_checker.c | 68 +++++++++++++---------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index af34d22..87aff9c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -55,23 +55,34 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
+/* Look a permission up: a new reference, or NULL without an exception.
+   Looking the name up may run any code, which may replace the table. */
+static PyObject *
+get_permission(PyObject *perms, PyObject *name)
+{
+  PyObject *permission;
+
+  if (perms == NULL)
+    return NULL;
+  Py_INCREF(perms);
+  permission = PyDict_GetItem(perms, name);
+  Py_XINCREF(permission);
+  Py_DECREF(perms);
+  return permission;
+}
+
 /*     def permission_id(self, name): */
 static PyObject *
 Checker_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._permission_func(name) */
-  PyObject *result;
+  PyObject *result = get_permission(self->getperms, name);
 
-  if (self->getperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->getperms, name);
-      if (result == NULL)
-        result = Py_None;
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -80,18 +91,13 @@ static PyObject *
 Checker_setattr_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._setattr_permission_func(name) */
-  PyObject *result;
+  PyObject *result = get_permission(self->setperms, name);
 
-  if (self->setperms)
+  if (result == NULL)
     {
-      result = PyDict_GetItem(self->setperms, name);
-      if (result == NULL)
-        result = Py_None;
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -160,21 +166,21 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     }
 
 /*         permission = self._permission_func(name) */
-  if (self->getperms)
-    permission = PyDict_GetItem(self->getperms, name);
+  permission = get_permission(self->getperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission == CheckerPublic)
-        return 0;
+      int result = 0;
 
-      if (checkPermission(permission, object, name) < 0)
-        return -1;
-      return 0;
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      return result;
     }
+  Py_XDECREF(permission);
 
 
   operator = (IS_STRING(name)
@@ -250,21 +256,25 @@ Checker_check_setattr(Checker *self, PyObject *args)
     return NULL;
 
 /*         permission = self._permission_func(name) */
-  if (self->setperms)
-    permission = PyDict_GetItem(self->setperms, name);
+  permission = get_permission(self->setperms, name);
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission != CheckerPublic
-          && checkPermission(permission, object, name) < 0)
+      int result = 0;
+
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      if (result < 0)
         return NULL;
 
       Py_INCREF(Py_None);
       return Py_None;
     }
+  Py_XDECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From b20f303462d0e07d769e75d2c11712e14bbcaaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 22/34] fix: do not leak the tables of a checker that is
 initialised again meanwhile

---
 src/zope/security/_zope_security_checker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 87aff9c..d4a8190 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -400,7 +400,7 @@ Checker_traverse(Checker *self, visitproc visit, void *arg)
 static int
 Checker_init(Checker *self, PyObject *args, PyObject *kwds)
 {
-  PyObject *getperms, *setperms=NULL;
+  PyObject *getperms, *setperms=NULL, *oldget, *oldset;
   static char *kwlist[] = {"get_permissions", "set_permissions", NULL};
 
   if (! PyArg_ParseTupleAndKeywords(args, kwds, "O!|O!:Checker", kwlist,
@@ -408,11 +408,15 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
                                     &PyDict_Type, &setperms))
     return -1;
 
+  /* Freeing the old tables may run any code, so do that last. */
+  oldget = self->getperms;
+  oldset = self->setperms;
   Py_INCREF(getperms);
   Py_XINCREF(setperms);
-  Checker_clear(self);
   self->getperms = getperms;
   self->setperms = setperms;
+  Py_XDECREF(oldget);
+  Py_XDECREF(oldset);
 
   return 0;
 }
-- 
2.43.0


From b817a5f431b1d07f6586d257fe1ad24ced6c078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 23/34] fix: redefinePermission in a nested context does not
 apply to the enclosing one

---
 src/zope/security/zcml.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index d24e04d..972baa5 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -120,7 +120,11 @@ def redefinePermission(_context, from_, to):
     _context = _context.context
 
     # check if context has any permission mappings yet
-    if not hasattr(_context, 'permission_mapping'):
-        _context.permission_mapping = {}
-
-    _context.permission_mapping[from_] = to
+    mapping = getattr(_context, 'permission_mapping', None)
+    enclosing = getattr(_context, 'context', None)
+    if mapping is getattr(enclosing, 'permission_mapping', None):
+        # There are none, or only those of the enclosing context, for which
+        # this redefinition must not apply.
+        mapping = _context.permission_mapping = dict(mapping or {})
+
+    mapping[from_] = to
-- 
2.43.0


From 616dda8c009b8b61ba7e2ca04dc5d1b65bd1bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 24/34] fix: let the require directive of modules name
 interfaces, as documented

---
 src/zope/security/metadirectives.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..5561aa4 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -198,6 +198,15 @@ class IRequire(Interface):
         value_type=PythonIdentifier(),
         required=False)
 
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require permission for. The "
+                     "permission will be required for all of the names "
+                     "defined by the interface(s). Multiple interfaces can be "
+                     "supplied."),
+        value_type=GlobalInterface(),
+        required=False)
+
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
-- 
2.43.0


From 38e6bd09b5ae3967fe3485a66968acf4b829c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 25/34] fix: a permission object that counts as false is
 defined all the same

---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From 0d826dfba9b7863464668f10cbd6a7090590e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 26/34] fix: pop, popitem, setdefault and |= of BasicTypes take
 effect for proxying

---
 src/zope/security/checker.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 4dbee44..87d185c 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -787,6 +787,25 @@ class _BasicTypes(dict):
         dict.update(self, d)
         _checkers.update(d)
 
+    def __ior__(self, d):
+        self.update(d)
+        return self
+
+    def setdefault(self, name, value=None):
+        if name not in self:
+            self[name] = value
+        return self[name]
+
+    def pop(self, name, *default):
+        if name in self:
+            _checkers.pop(name, None)
+        return dict.pop(self, name, *default)
+
+    def popitem(self):
+        name, value = dict.popitem(self)
+        _checkers.pop(name, None)
+        return name, value
+
 
 _basic_types = {
     object: NoProxy,
-- 
2.43.0


From 51ccc8073fd4012957423ff7d1b25820649d85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 27/34] fix: next() as a method of the pure Python proxy needs
 permission, too

---
 src/zope/security/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 1854f84..844557e 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -352,6 +352,9 @@ for name in ['__iadd__',
     meth = getattr(PyProxyBase, name)
     setattr(ProxyPy, name, _check_name_inplace(meth))
 
+# Python 2's name of it is inherited, too, but would not be checked.
+ProxyPy.next = ProxyPy.__next__
+
 
 def getCheckerPy(proxy):
     return super(ProxyPy, proxy).__getattribute__('_checker')
-- 
2.43.0


From 6ce588b244900a84b15bf321a53d606fab1977db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 28/34] fix: calling __init__ of the pure Python proxy again
 replaces nothing

---
 src/zope/security/proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 844557e..63ae786 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -99,8 +99,8 @@ class ProxyPy(PyProxyBase):
     def __init__(self, value, checker):
         if checker is None:
             raise ValueError('checker may now be None')
-        _set_slot(self, '_wrapped', value)
-        _set_slot(self, '_checker', checker)
+        # Nothing else to do: set up by __new__, and calling this again
+        # must not replace the object or the checker.
 
     # Attribute protocol
     def __getattribute__(self, name):
-- 
2.43.0


From 698d081dedae564f684eb75e430f4e82c9387a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 29/34] fix: a name whose hash and equality change cannot pass
 as another one

---
 src/zope/security/_proxy.c | 17 +++++++++++++++--
 src/zope/security/proxy.py | 10 ++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index b1f8c06..f0d3cd9 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -369,20 +369,33 @@ proxy_getattro(SecurityProxy *self, PyObject *name)
 {
   PyObject *result = NULL;
 
+  /* A subclass of str could be one name for the checker and another one
+     for the object. */
+  name = PyUnicode_FromObject(name);
+  if (name == NULL)
+    return NULL;
   if (check(self, str_check_getattr, name) >= 0)
     {
       result = PyObject_GetAttr(self->proxy.proxy_object, name);
       PROXY_RESULT(self, result);
     }
+  Py_DECREF(name);
   return result;
 }
 
 static int
 proxy_setattro(SecurityProxy *self, PyObject *name, PyObject *value)
 {
+  int result = -1;
+
+  /* See proxy_getattro. */
+  name = PyUnicode_FromObject(name);
+  if (name == NULL)
+    return -1;
   if (check(self, str_check_setattr, name) >= 0)
-    return PyObject_SetAttr(self->proxy.proxy_object, name, value);
-  return -1;
+    result = PyObject_SetAttr(self->proxy.proxy_object, name, value);
+  Py_DECREF(name);
+  return result;
 }
 
 static PyObject *
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 63ae786..855855e 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -76,6 +76,12 @@ def _fmt_address(obj):
 _set_slot = object.__setattr__
 
 
+def _exact_name(name):
+    # A subclass of str could be one name for the checker and another one
+    # for the object.
+    return name if type(name) is str else str.__str__(name)
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -104,6 +110,7 @@ class ProxyPy(PyProxyBase):
 
     # Attribute protocol
     def __getattribute__(self, name):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
             if sys._getframe(1).f_locals.get('self') is not self:
@@ -164,12 +171,14 @@ class ProxyPy(PyProxyBase):
         # but we're consistent. We would provide a better error
         # message or even subclass of AttributeError, but that's liable to
         # break (doc)tests.
+        name = _exact_name(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_getattr(wrapped, name)
         raise AttributeError(name)
 
     def __setattr__(self, name, value):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
@@ -178,6 +187,7 @@ class ProxyPy(PyProxyBase):
         setattr(wrapped, name, value)
 
     def __delattr__(self, name):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError()
         wrapped = super().__getattribute__('_wrapped')
-- 
2.43.0


From e2d7eff7241b0c0c39fa67879a9fa9b994a368b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:23 +0000
Subject: [PATCH 30/34] fix: give the __doc__ and __slots__ of the object, not
 those of the Python proxy

---
 src/zope/security/proxy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 855855e..41b1b24 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -131,7 +131,7 @@ class ProxyPy(PyProxyBase):
             # for backwards compatibility, we need to be able to
             # pickle proxies. See checker:Global for an example.
             val = getattr(wrapped, name)
-        elif name == '__module__':
+        elif name in ('__module__', '__doc__', '__slots__'):
             # The superclass deals with descriptors found in the type
             # of this object just like the Python language spec states, letting
             # them have precedence over things found in the instance. This
@@ -139,13 +139,15 @@ class ProxyPy(PyProxyBase):
             # C version of this code in _proxy doesn't take that same care and
             # instead uses the generic object attribute access methods directly
             # on the wrapped object. This is a behaviour difference; so far,
-            # it's only been noticed for the __module__ attribute, which
+            # it's only been noticed for __doc__ and __slots__ (those of this
+            # object's type were taken for those of the wrapped object) and
+            # for the __module__ attribute, which
             # checker:Global wants to override but couldn't because this
             # object's type's __module__ would get in the way. That broke
             # pickling, and checker:Global can't return anything more
             # sophisticated than a str (a tuple) because it gets proxied and
             # breaks pickling again. Our solution is to match the C version for
-            # this one attribute.
+            # these attributes.
             val = getattr(wrapped, name)
         else:
             val = super().__getattribute__(name)
-- 
2.43.0


From ad0c4fa93f6115ae4486ba335c000cc60e703ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:46 +0000
Subject: [PATCH 31/34] fix: an object whose repr() fails does not change what
 a watching checker decides

The exception of the repr() replaced the refusal, or refused what was granted.
---
 src/zope/security/checker.py | 40 +++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 87d185c..d8490b4 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -599,6 +599,14 @@ class CombinedChecker(Checker):
                 raise unauthorized_exception
 
 
+def _safe_repr(obj):
+    # A failing repr() must not replace what is logged.
+    try:
+        return repr(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
 class CheckerLoggingMixin:
     """
     Debugging mixin for checkers.
@@ -624,18 +632,18 @@ class CheckerLoggingMixin:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {_safe_repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {_safe_repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {_safe_repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -644,20 +652,20 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
+                f'[CHK] - Unauthorized getattr: {name} on {_safe_repr(object)}'
             )
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                f'[CHK] - Forbidden getattr: {name} on {_safe_repr(object)}')
             raise
 
     __setitem__ = check_getattr
@@ -667,16 +675,16 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, _safe_repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                f'[CHK] - Forbidden setattr: {name} on {_safe_repr(object)}')
             raise
 
 
-- 
2.43.0


From c712eda57cd69a66c5e8dcdadb776ceb8072d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:50 +0000
Subject: [PATCH 32/34] fix: a C checker does not proxy an instance of a
 subclass of Proxy again

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d4a8190..68c4e24 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -297,9 +297,9 @@ Checker_proxy(Checker *self, PyObject *value)
 {
   PyObject *checker, *r;
 
-/*        if type(value) is Proxy: */
+/*        if isinstance(value, Proxy): */
 /*            return value */
-  if ((PyObject*)Py_TYPE(value) == Proxy)
+  if (PyObject_TypeCheck(value, (PyTypeObject*)Proxy))
     {
       Py_INCREF(value);
       return value;
-- 
2.43.0


From f138ce0051201b032f7313c05eeafa60e8b0c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:43 +0000
Subject: [PATCH 33/34] fix: what an object's __length_hint__ returns is
 proxied

---
 src/zope/security/_proxy.c | 4 ++++
 src/zope/security/proxy.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index f0d3cd9..87068bb 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -614,6 +614,10 @@ proxy_length_hint(SecurityProxy *self)
             Py_INCREF(result);
       }
   }
+  else if (result != Py_NotImplemented) {
+      /* Not checked, but it may be anything. */
+      PROXY_RESULT(self, result);
+  }
   return result;
 }
 
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 41b1b24..e3db06e 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -250,8 +250,12 @@ class ProxyPy(PyProxyBase):
             hint = wrapped.__length_hint__
         except AttributeError:
             return NotImplemented
-        else:
-            return hint()
+        result = hint()
+        if result is NotImplemented:
+            return result
+        # It may be anything.
+        checker = super().__getattribute__('_checker')
+        return checker.proxy(result)
 
     def __str__(self):
         try:
-- 
2.43.0


From da0d2fcdf6000043bb9e2b6f56b41782fc20a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:18 +0000
Subject: [PATCH 34/34] fix: BasicTypes.update takes an iterator

---
 src/zope/security/checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index d8490b4..07a6f45 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -792,6 +792,7 @@ class _BasicTypes(dict):
         raise NotImplementedError
 
     def update(self, d):
+        d = dict(d)  # Iterators can be used only once.
         dict.update(self, d)
         _checkers.update(d)
 
-- 
2.43.0

