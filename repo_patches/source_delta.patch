From 2452b98630ff41926061ae9573ec06788d5354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 01/42] fix: detect endless substitutions and never mistake
 long footprints for cycles

A value referring to itself (directly or through extras) looped forever,
whereas a footprint with more than 50 attributes, or a legitimate chain
of substitutions, was refused as circular.
---
 src/footprints/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..1f716ce 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -447,14 +447,19 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        if nbpass > max(50, len(self.attr)):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
         guessk = guess[k]
 
         changed = 1
+        nbsub = 0
         while changed:
+            nbsub += 1
+            if nbsub > 1000:
+                logger.error('Endless substitutions in %s = %s', k, guess[k])
+                raise FootprintMaxIter('Too many substitutions in a single Footprint attribute')
             changed = 0
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
@@ -568,8 +573,11 @@ class Footprint:
             todokset.discard(k)
             kdef = attrs[k]
             nbpass += 1
-            if (not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset) or
-                    guess[k] is None):
+            if not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset):
+                continue
+            # Some progress was made: only consecutive failures may reveal a cycle
+            nbpass = 0
+            if guess[k] is None:
                 continue
 
             attr_seen.add(k)
-- 
2.43.0


From b29a0ff35aae33267ef2d52fca340c586fb4af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 02/42] fix: looping remaps never end, and values that cannot
 be hashed break the resolution

A remap that comes back to an already seen value (autoremap='first' with a
repeated value for example) looped forever. Containers with a __hash__ method
but unhashable contents (FPDict(a=[1, 2]), tuples of lists, ...) or weak
proxies raised a TypeError.
---
 src/footprints/__init__.py |  5 ++++-
 src/footprints/util.py     | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1f716ce..0acd837 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -582,8 +582,11 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            remapped = list()
+            while (util.hashable(guess[k]) and guess[k] in kdef['remap'] and
+                    guess[k] not in remapped):
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                remapped.append(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..5946711 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -40,6 +40,18 @@ def list2dict(a, klist):
     return a
 
 
+def hashable(obj):
+    """
+    Tell if *obj* can actually be hashed. Looking for a ``__hash__`` method is not
+    enough (think of a tuple that contains a list, or of a weak reference's proxy).
+    """
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 def inplace(desc, key, value, globs=None, globalindex=None):
     """
     Redefine the ``key`` value in a deep copy of the description ``desc``.
-- 
2.43.0


From e37904f7e5e33edc8685580922d46425bb39585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 03/42] fix: allowed/excluded values cannot be checked against
 unhashable containers

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 0acd837..743766c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -527,7 +527,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if util.hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
-- 
2.43.0


From 29abb012d066f92ea296b596ce649ff2438ff8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 04/42] fix: substituted values containing backslashes are
 corrupted

---
 src/footprints/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 743766c..c2fc90f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,7 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            guessk = replattr.sub(lambda u_mobj: myautofmt(starter), guessk, count=1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -502,7 +502,7 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                guessk = replattr.sub(lambda u_mobj: myautofmt(guess[replk]), guessk, count=1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -510,7 +510,7 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            guessk = replattr.sub(lambda u_mobj: myautofmt(extras[replk]), guessk, count=1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
-- 
2.43.0


From 16970d4fc7aa59f8f59613b070029e3b35b06c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 05/42] fix: globbed pieces of a file name are corrupted by
 backslashes or substituted twice

---
 src/footprints/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 5946711..6a77007 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -71,8 +71,9 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+            newd[k] = re.sub(r'\[glob:(\w+)\]',
+                             lambda mobj: globs.get(mobj.group(1), mobj.group(0)),
+                             newd[k])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From ca8397db4d2ec6cad9ec27af0a1477518a41c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 06/42] fix: some of the values/outcast entries are not
 converted to the attribute's type

The set was modified while iterating on it: depending on the hash seed, some
entries were left unconverted or a RuntimeError was raised.
---
 src/footprints/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c2fc90f..f99c0d3 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,16 +209,17 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
+                reclassed = set()
                 for v in fp['attr'][a][autoreclass]:
                     if not isinstance(v, ktype):
-                        fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-                            fp['attr'][a][autoreclass].add(v)
                             logger.debug('Init Footprint [%s] %s reclassed = %s', autoreclass, a, v)
                         except Exception:
                             logger.error('Bad init footprint in [%s]', autoreclass)
                             raise
+                    reclassed.add(v)
+                fp['attr'][a][autoreclass] = reclassed
         self._fp = fp
         self._firstguess_keys_internal = None
         self._resolve_keys_internal = None
-- 
2.43.0


From 13b523d6b76d5cfe251bfdf75c5d639a4dbd471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 07/42] fix: a failed priority insertion removes the level from
 the set

---
 src/footprints/priorities.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..dd17034 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -200,17 +200,20 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
-        self.extend(tag)
+        # Compute the new order first: nothing should change with an improper reference
+        newlevels = [x for x in self._levels if x != tag]
         if after is not None:
-            self._levels.remove(tag)
             if isinstance(after, PriorityLevel):
                 after = after.tag
-            self._levels.insert(self._levels.index(after.upper()) + 1, tag)
+            newlevels.insert(newlevels.index(after.upper()) + 1, tag)
         elif before is not None:
-            self._levels.remove(tag)
             if isinstance(before, PriorityLevel):
                 before = before.tag
-            self._levels.insert(self._levels.index(before.upper()), tag)
+            newlevels.insert(newlevels.index(before.upper()), tag)
+        else:
+            newlevels.append(tag)
+        self.extend(tag)
+        self._levels = newlevels
         return self.level(tag)
 
 
-- 
2.43.0


From bdc920b0dcf3ac5178eefd52add4c2218fbd2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 08/42] fix: copying a footprint detaches its priority level
 from the priority set

With nodefault=True (or as_copy) the level was deep-copied with its whole set,
and later priority changes were ignored.
---
 src/footprints/priorities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index dd17034..1bad2c6 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -83,6 +83,14 @@ class PriorityLevel:
         """Return the previous priority level in the set... if any."""
         return self.inset.levelbyindex(self.rank - 1)
 
+    def __copy__(self):
+        """A level is meaningless outside of its priority set, so ``self`` is returned."""
+        return self
+
+    def __deepcopy__(self, memo):
+        """No deepcopy expected, so ``self`` is returned."""
+        return self
+
     def as_dump(self):
         """Return a nicely formated class name for dump in footprint."""
         return '{0.tag} (rank={0.rank:d})'.format(self)
-- 
2.43.0


From 94dfd604bb89276be8b00fc388a9d91906539251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 09/42] fix: optional weak attributes left unset, or given as
 weak proxies, are not usable

Weak proxies to the UNKNOWN marker were attempted (TypeError), and cloning an
object with a weak attribute resulted in a proxy to a proxy.
---
 src/footprints/__init__.py | 3 ++-
 src/footprints/access.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f99c0d3..e3ca4af 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -642,7 +642,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..556cafd 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -54,7 +54,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From 926b5102b56c535e5d8ff926ecec982fafc6c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 10/42] fix: a copied object shares its attributes' storage
 with the original one

---
 src/footprints/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e3ca4af..5c53701 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -942,6 +942,8 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __getstate__(self):
         d = self.__dict__.copy()
         del d['_observer']
+        # A copy should not share its attributes with the original object
+        d['_attributes'] = dict(self._attributes)
         return d
 
     def __setstate__(self, state):
-- 
2.43.0


From fa2adc5e49420f184708279bdbea8fe7687434bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 11/42] fix: unset optional attributes of unpickled objects
 read as '__unknown__'

---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 5c53701..b7e258c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -949,6 +949,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # The UNKNOWN marker is looked for by identity, which is lost when unpickling
+        for k, v in self._attributes.items():
+            if type(v) is str and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 5de905e73f01f8ca9f053a8d993dec38bf80a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 12/42] fix: deleting an attribute of one object breaks it for
 the whole class

---
 src/footprints/access.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/access.py b/src/footprints/access.py
index 556cafd..7903567 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + ']')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -60,7 +65,6 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
 
     def __delete__(self, instance):
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From e85692c5dbb21dbbf9e7d98c1b5e4810af91b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 13/42] fix: deleted or dead weak attributes of any object make
 default and grep fail

---
 src/footprints/__init__.py   | 12 ++++++++----
 src/footprints/collectors.py | 14 +++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b7e258c..ee56542 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1100,10 +1100,14 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         resolved, u_inputattr, u_attr_seen = fp.resolve(rd, fatal=False, report=None)  # @UnusedVariable
         rc = resolved and None not in resolved.values()
         if rc:
-            for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
-                    rc = False
-                    break
+            try:
+                for k in resolved.keys():
+                    if k not in self._attributes or self._attributes[k] != resolved[k]:
+                        rc = False
+                        break
+            except ReferenceError:
+                # One of the weak attributes is dead
+                rc = False
         return rc
 
     def footprint_cleanup(self, rd):
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..d7f200a 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -411,12 +411,16 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         the set of attributes given as named arguments.
         """
         okmatch = list()
-        for item in self.instances:
+        for item in self.instances():
             ok = True
-            for k, v in kw.items():
-                if not hasattr(item, k) or getattr(item, k) != v:
-                    ok = False
-                    break
+            try:
+                for k, v in kw.items():
+                    if not hasattr(item, k) or getattr(item, k) != v:
+                        ok = False
+                        break
+            except ReferenceError:
+                # One of the weak attributes is dead
+                ok = False
             if ok:
                 okmatch.append(item)
         return okmatch
-- 
2.43.0


From 26d152bf7b77fdd42635998da439ba392055bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 14/42] fix: a rejected class definition remains registered in
 some of the collectors

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ee56542..243f4f9 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -831,11 +831,12 @@ class FootprintBaseMeta(type):
         if not abstract:
             if realcls._explicit and not realcls.footprint_mandatory():
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
-        # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
             if cname in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        # Add all classes in collectors but take into accout the abstract key
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 6677add400d84a8aa0c25154e8937c2826dbeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 15/42] fix: the fasttrack index fails on values that cannot be
 hashed or converted

---
 src/footprints/collectors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index d7f200a..3cc7bba 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -12,7 +12,7 @@ from bronx.fancies import dump, loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -224,15 +224,16 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
                     # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
+                    if util.hashable(v) and v in self._fasttrack_index[k]:
                         indexkey = v
                     else:
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
+                        except Exception:
                             v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                        if (v_conv is not None and util.hashable(v_conv) and
+                                v_conv in self._fasttrack_index[k]):
                             indexkey = v_conv
                         else:
                             # Ok we give up...
-- 
2.43.0


From 0ba5b092623db90c470588a9920040fc5efa52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 16/42] fix: classes reached through a remap are ignored when
 using the fasttrack index

---
 src/footprints/collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 3cc7bba..e354bdc 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -150,8 +150,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values (a remap could lead to any of them) ?
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
-- 
2.43.0


From 23a162b4dc3d96fb65157fcf65bbb4e182bd61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 17/42] fix: classes removed with clear or pop are still found
 through the fasttrack index

---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index e354bdc..21e3bcb 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -268,6 +268,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary entry from current catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Remove all of the entries from current catalog."""
+        super().clear()
+        self.fasttrack = self.fasttrack
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 0a9e6c42be7cc6fe10a4497222879b286ab2239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 18/42] fix: the fasttrack index and the resolution disagree on
 the converted values

The index was looked up with the raw value first: it is not relevant whenever
the value contains substitutions or when the conversion changes it.
---
 src/footprints/collectors.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 21e3bcb..e6930dc 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -223,21 +223,23 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             objgroup_list = list()
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
+                    # Forget about the index if the actual value is not known yet
+                    if isinstance(v, str) and '[' in v:
+                        continue
+                    # As for the resolution, values are converted whenever it is necessary
+                    ftype = self._fasttrack_type[k]
+                    try:
+                        v_conv = (v if isinstance(v, ftype) else
+                                  ftype(v, ** self._fasttrack_typeargs[k]))
+                    except Exception:
+                        v_conv = None
                     # Check if the key's value is in the index
-                    if util.hashable(v) and v in self._fasttrack_index[k]:
-                        indexkey = v
+                    if (v_conv is not None and util.hashable(v_conv) and
+                            v_conv in self._fasttrack_index[k]):
+                        indexkey = v_conv
                     else:
-                        # A type conversion might be usefull
-                        try:
-                            v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except Exception:
-                            v_conv = None
-                        if (v_conv is not None and util.hashable(v_conv) and
-                                v_conv in self._fasttrack_index[k]):
-                            indexkey = v_conv
-                        else:
-                            # Ok we give up...
-                            indexkey = None
+                        # Ok we give up...
+                        indexkey = None
 
                     if indexkey is not None:
                         logger.debug('Fasttrack subsetting took place for key %s', k)
-- 
2.43.0


From 938e96d0356ca461181dcfeb939ffece35f48c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 19/42] fix: reduce_to_last fails, and a cleared report forgets
 its maximum length

---
 src/footprints/reporting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..b584661 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -234,11 +234,12 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log = collections.deque(maxlen=self._log.maxlen)
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
 
     @property
     def last(self):
-- 
2.43.0


From e63f923ed0ec8d82af351bbed8cd63b0c2552da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 20/42] fix: outdated or mixed up views of the footprints
 reports

The cached XML and dictionary views shared a single modification flag (and the
dictionary with and without stamps a single cache), and searches recorded with
the very same clock stamp were merged.
---
 src/footprints/reporting.py | 39 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index b584661..ab9b5d8 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -209,9 +209,6 @@ class FootprintLog(getbytag.GetByTag):
         self._log = collections.deque(maxlen=log_maxlen)
         self._weak = weak
         self._current = None
-        self._xml = None
-        self._dict = dict()
-        self._touch = False
 
     def info(self):
         """Return a simple description as a string."""
@@ -255,7 +252,6 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -264,7 +260,6 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -272,7 +267,6 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
 
     def add(self, **kw):
         """
@@ -310,27 +304,24 @@ class FootprintLog(getbytag.GetByTag):
             return None
 
     def as_xml(self, force=False):
-        """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
-            self._xml = StandardReport(tag=self.tag)
-            for item in self._log:
-                item.feed_xml(self._xml)
-            self._touch = False
-        return self._xml
+        """Return a true class:`xml.dom.minidom.Document` (always up to date)."""
+        xml = StandardReport(tag=self.tag)
+        for item in self._log:
+            item.feed_xml(xml)
+        return xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
-            self._dict = dict()
-            for i, item in enumerate(self._log):
-                key = item.name
-                if stamp:
-                    key += ' ' + item.stamp.isoformat()
-                else:
-                    key += '_{:04d}'.format(i + 1)
-                self._dict[key] = item.as_dict()
-            self._touch = False
-        return self._dict
+        dico = dict()
+        for i, item in enumerate(self._log):
+            key = item.name
+            if stamp:
+                key += ' ' + item.stamp.isoformat()
+            if not stamp or key in dico:
+                # NB: The clock does not always tick between two searches
+                key += '_{:04d}'.format(i + 1)
+            dico[key] = item.as_dict()
+        return dico
 
     def fulldump(self, stamp=False):
         """Shortcut to :mod:``dump`` facilities."""
-- 
2.43.0


From e1d9278d89cd96ed0acae2e78ce42fad427b4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 21/42] fix: searches fail whenever a restricted attribute has
 no value, single string restrictions never match

Without any report (which is the default for the first pass of a search) the
missing value of a restriction clause raised an AttributeError. A restriction
given as a plain string was compared character by character.
---
 src/footprints/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 243f4f9..f7e3017 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -652,9 +652,10 @@ class Footprint:
         """Ensure that the resolved description also matches at least one item per ``only`` feature."""
         if resolvecache is None:
             resolvecache = collectors.ResolveCache()
+        report = report or setup.nullreport
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
@@ -685,8 +686,7 @@ class Footprint:
 
             if not checkflag:
                 rd = False
-                if report:
-                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTMATCH, args=v)
+                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTMATCH, args=v)
                 break
 
         return rd
-- 
2.43.0


From 944bfcf263e6fd7b5c4b50c2a1f824cb4a1d49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 22/42] fix: before/after restrictions on an unset optional
 attribute make the whole search fail

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f7e3017..fb3bff5 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -668,7 +668,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
-            if actualvalue is None:
+            if actualvalue is None or (actualvalue is UNKNOWN and (after or before)):
                 rd = False
                 report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
-- 
2.43.0


From 98a44fa50199b7d9b41143b06b87e3e54ce3bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 23/42] fix: the true reason of a failure is overwritten in the
 reports

A value that could not be converted was also reported as None not being in the
allowed values, and a null string as a missing value.
---
 src/footprints/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index fb3bff5..5428a41 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -610,12 +610,13 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                # NB: At this stage, None stands for an already reported conversion failure
+                if kdef['values'] and guess[k] is not None and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
                     guess[k] = None
-                if kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
+                if kdef['outcast'] and guess[k] is not None and self.in_values(guess[k], kdef['outcast']):
                     # logger.debug(' > Attr %s value excluded from range = %s %s', k, guess[k], kdef['outcast'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])
                     diags[k] = True
@@ -632,6 +633,7 @@ class Footprint:
                 logger.warning(' > Attr %s is a null string', k)
                 if k not in diags:
                     report.add(attribute=k, why=reporting.REPORT_WHY_INVALID)
+                    diags[k] = True
             if guess[k] is None:
                 attr_input.discard(k)
                 if k not in diags:
-- 
2.43.0


From 6c757c8295fbb7ea3355da4e1befe472750f07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 24/42] fix: searches fail, or feed some unrelated report, when
 reporting is turned off

---
 src/footprints/collectors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index e6930dc..53853c5 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -332,7 +332,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = None
+        if self.report and self.report != config.ONERROR_REPORTING:
+            report_log = self.report_log
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -358,7 +360,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = None
+        if self.report and self.report != config.ONERROR_REPORTING:
+            report_log = self.report_log
         while requeue:
             requeue = False
             found = list()
-- 
2.43.0


From 0a2d17ce5d5f10ed1ce74b82a516fe16f304d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 25/42] fix: a class defined while searching in the same
 collector makes the search fail

---
 src/footprints/collectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 53853c5..c38b83f 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -339,7 +339,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             requeue = False
             if self.report and report_log is not None:
                 report_log.add(collector=self)
-            for item in self._fasttrack_subsetting(desc):
+            # NB: Resolving a footprint may run any code, including a new class definition
+            for item in list(self._fasttrack_subsetting(desc)):
                 resolved, u_input = item.footprint_couldbe(desc,  # @UnusedVariable
                                                            resolvecache=resolvecache,
                                                            report=report_log)
@@ -368,7 +369,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             found = list()
             if self.report and report_log is not None:
                 report_log.add(collector=self)
-            for item in self._fasttrack_subsetting(desc):
+            # NB: Resolving a footprint may run any code, including a new class definition
+            for item in list(self._fasttrack_subsetting(desc)):
                 resolved, theinput = item.footprint_couldbe(desc,
                                                             resolvecache=resolvecache,
                                                             report=report_log)
-- 
2.43.0


From d130681fd079464bd7d2bdca017dfe3ff3605dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 26/42] fix: the reports of nested or concurrent searches are
 mixed up

The current entry of the log was shared: depending on what is done during a
search, failures were attributed to an other class or FootprintBadLogEntry was
raised.
---
 src/footprints/collectors.py |  8 ++++----
 src/footprints/reporting.py  | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index c38b83f..9a2a501 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -334,7 +334,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         requeue = True
         report_log = None
         if self.report and self.report != config.ONERROR_REPORTING:
-            report_log = self.report_log
+            report_log = self.report_log.newsearch()
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -349,7 +349,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if (self.report == config.ONERROR_REPORTING and
                     report_log is None):
                 requeue = True
-                report_log = self.report_log
+                report_log = self.report_log.newsearch()
         return None
 
     def find_all(self, desc, resolvecache=None):
@@ -363,7 +363,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         requeue = True
         report_log = None
         if self.report and self.report != config.ONERROR_REPORTING:
-            report_log = self.report_log
+            report_log = self.report_log.newsearch()
         while requeue:
             requeue = False
             found = list()
@@ -380,7 +380,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                     self.report == config.ONERROR_REPORTING and
                     report_log is None):
                 requeue = True
-                report_log = self.report_log
+                report_log = self.report_log.newsearch()
         return found
 
     def find_best(self, desc, resolvecache=None):
diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index ab9b5d8..41ccf28 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -248,6 +248,13 @@ class FootprintLog(getbytag.GetByTag):
             self._current = node
         return self._current
 
+    def newsearch(self):
+        """
+        Return an object that feeds the present log with its own current entry. It should be
+        used whenever several searches may overlap (nested calls or threads).
+        """
+        return FootprintLogFeeder(self)
+
     def add_collector(self, node, **kw):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
@@ -328,6 +335,31 @@ class FootprintLog(getbytag.GetByTag):
         print(dump.fulldump(self.as_dict(force=True, stamp=stamp)))
 
 
+class FootprintLogFeeder:
+    """Add the entries of a single search to a given :class:`FootprintLog`."""
+
+    def __init__(self, log):
+        self._target = log
+        self._current = None
+
+    @property
+    def _log(self):
+        return self._target.items()
+
+    @property
+    def weak(self):
+        """Boolean value, true if the log was built with weak references."""
+        return self._target.weak
+
+    def __len__(self):
+        return len(self._target)
+
+    add = FootprintLog.add
+    add_collector = FootprintLog.add_collector
+    add_candidate = FootprintLog.add_candidate
+    add_attribute = FootprintLog.add_attribute
+
+
 class StandardReport:
     """XML structured report."""
 
-- 
2.43.0


From 65464dae8906e1aad556da3bc75c854c1a2abba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 27/42] fix: half-built or outdated footprints caches are used
 in the resolution

The caches of the footprints were visible before being complete: an interrupt
at the wrong time, or another thread, led to attributes being ignored forever.
Changes of setup.fastkeys were also ignored by the already used footprints.
---
 src/footprints/__init__.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 5428a41..13f01a2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -234,31 +234,34 @@ class Footprint:
 
     @property
     def _resolve_keys(self):
-        if self._resolve_keys_internal is None:
+        fastkeys = tuple(setup.fastkeys)
+        internal = self._resolve_keys_internal
+        if internal is None or internal[3] != fastkeys:
             candidates = list()
             for k, item in self.attr.items():
-                candidates.append((not item['optional'], k in self._fastkeys or k in setup.fastkeys, k))
+                candidates.append((not item['optional'], k in self._fastkeys or k in fastkeys, k))
             candidates.sort(reverse=True)
-            self._resolve_keys_internal = [list(), list(), None]
-            for item in candidates:
-                self._resolve_keys_internal[0].append(item[2])  # key name
-                self._resolve_keys_internal[1].append(item[1])  # fast
-            self._resolve_keys_internal[0] = collections.deque(self._resolve_keys_internal[0])
-            self._resolve_keys_internal[1] = collections.deque(self._resolve_keys_internal[1])
-            self._resolve_keys_internal[2] = set(self._resolve_keys_internal[0])
-        return [collections.deque(self._resolve_keys_internal[0]),
-                collections.deque(self._resolve_keys_internal[1]),
-                set(self._resolve_keys_internal[2])]
+            # NB: The cached value should never be accessible until it is complete
+            internal = [collections.deque([item[2] for item in candidates]),  # key name
+                        collections.deque([item[1] for item in candidates]),  # fast
+                        {item[2] for item in candidates},
+                        fastkeys]
+            self._resolve_keys_internal = internal
+        return [collections.deque(internal[0]),
+                collections.deque(internal[1]),
+                set(internal[2])]
 
     @property
     def _firstguess_keys(self):
         if self._firstguess_keys_internal is None:
-            self._firstguess_keys_internal = collections.deque()
+            # NB: The cached value should never be accessible until it is complete
+            firstguess_keys = collections.deque()
             for k, item in self.attr.items():
                 kdefault = item['default']
-                self._firstguess_keys_internal.append(
+                firstguess_keys.append(
                     (k, item['optional'], item['alias'], kdefault, hasattr(kdefault, 'footprint_value'))
                 )
+            self._firstguess_keys_internal = firstguess_keys
         return self._firstguess_keys_internal
 
     def __str__(self):
-- 
2.43.0


From 4d71570ef0c1bd1089edbb11617fa0d75f8b8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 28/42] fix: the hash seed decides which alias is used when
 several ones are given

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 13f01a2..3f3a0f6 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -259,7 +259,7 @@ class Footprint:
             for k, item in self.attr.items():
                 kdefault = item['default']
                 firstguess_keys.append(
-                    (k, item['optional'], item['alias'], kdefault, hasattr(kdefault, 'footprint_value'))
+                    (k, item['optional'], sorted(item['alias']), kdefault, hasattr(kdefault, 'footprint_value'))
                 )
             self._firstguess_keys_internal = firstguess_keys
         return self._firstguess_keys_internal
-- 
2.43.0


From 784f48dac2eeadcf2bdc56247c679e31baf9fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 29/42] fix: equal FPSet or FPDict objects do not have the same
 hash

---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 2d2fb06b291b1f7e9c1b99afaa80d235a73b20ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 30/42] fix: defining a class alters the footprint dictionaries
 it is built from

---
 src/footprints/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 6a77007..4403cd2 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -36,6 +36,8 @@ def list2dict(a, klist):
             ad = dict()
             for item in a[k]:
                 ad.update(item)
+            # NB: a could be shared with others
+            a = dict(a)
             a[k] = ad
     return a
 
-- 
2.43.0


From 376e7495eba0cb7fbbf4bb0ceed08ed503466d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 31/42] fix: an interrupted priority change looses a level of
 the set

Each change is now prepared on the side, and applied in one go. That way, the
order is also consistent at any time for any other thread.
---
 src/footprints/priorities.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1bad2c6..dd70abe 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -154,20 +154,23 @@ class PrioritySet:
 
     def restore(self, tag):
         """Restore previously frozen defaults under the specified ``tag``."""
-        self._levels = self._freeze[tag.lower()][:]
-        for levelname in [x for x in self._levels if x not in self.__dict__]:
+        newlevels = self._freeze[tag.lower()][:]
+        for levelname in [x for x in newlevels if x not in self.__dict__]:
             self.__dict__[levelname] = PriorityLevel(levelname, pset=self)
+        self._levels = newlevels
 
     def extend(self, *levels):
         """
         Extends the set of logical names for priorities.
         Existing levels are reranked at top priority as well as new one.
         """
+        newlevels = self._levels[:]
         for levelname in [x.upper() for x in levels]:
-            while levelname in self._levels:
-                self._levels.remove(levelname)
-            self._levels.append(levelname)
+            while levelname in newlevels:
+                newlevels.remove(levelname)
+            newlevels.append(levelname)
             self.__dict__[levelname] = PriorityLevel(levelname, pset=self)
+        self._levels = newlevels
 
     def levelbyindex(self, ipos):
         """Returns the relative position of the priority named ``tag``."""
@@ -189,8 +192,10 @@ class PrioritySet:
         ipos = self._levels.index(tag) + upd
         if ipos < 0:
             ipos = 0
-        self._levels.remove(tag)
-        self._levels.insert(ipos, tag)
+        newlevels = self._levels[:]
+        newlevels.remove(tag)
+        newlevels.insert(ipos, tag)
+        self._levels = newlevels
         return self.level(tag)
 
     def remove(self, tag):
@@ -199,7 +204,9 @@ class PrioritySet:
             tag = tag.tag
         else:
             tag = str(tag).upper()
-        self._levels.remove(tag)
+        newlevels = self._levels[:]
+        newlevels.remove(tag)
+        self._levels = newlevels
         del self.__dict__[tag]
 
     def insert(self, tag=None, after=None, before=None):
@@ -220,7 +227,7 @@ class PrioritySet:
             newlevels.insert(newlevels.index(before.upper()), tag)
         else:
             newlevels.append(tag)
-        self.extend(tag)
+        self.__dict__[tag] = PriorityLevel(tag, pset=self)
         self._levels = newlevels
         return self.level(tag)
 
-- 
2.43.0


From c02adea7d7585ce888beaa6f2a38386f108e5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 32/42] fix: files with a trailing newline in their name match
 any globbing pattern

---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 4403cd2..8cd4d8c 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -287,7 +287,7 @@ def expand(desc):
                     g_names, g_re, g_glob = _parse_globs(v)
                     repld = list()
                     for filename in sorted(glob.glob(g_glob)):
-                        m = g_re.match(filename)
+                        m = g_re.fullmatch(filename)
                         if m:
                             globmap = dict()
                             for g in g_names:
-- 
2.43.0


From 328716dcee6a14f7f890b936ba02abeacd2cb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 33/42] fix: dictionary matching fails when the referred key is
 still to be expanded

Whether expand worked or raised a KeyError was depending on the order of the
keys in the description.
---
 src/footprints/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 8cd4d8c..130b473 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -239,6 +239,14 @@ def expand(desc):
         ...  [{'test': 'alpha', 'niv2': footprints.stdtypes.FPStr('x,y,z'), 'index_expansion': 1}])
         True
     """
+    def expandable(v):
+        """Whether or not **v** is still to be expanded."""
+        if v.__class__.__name__.startswith('FP'):
+            return False
+        return (isinstance(v, (list, tuple, set, dict)) or
+                (isinstance(v, str) and
+                 bool(re.search(r',|{glob:\w+:|^range\(\d+\)$', v, re.IGNORECASE))))
+
     ld = deque([desc, ])
     todo = True
     nbpass = 0
@@ -300,7 +308,7 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not (expandable(dv) or isinstance(dv, (list, tuple, set))):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From f13c2cd8998d664d512cc89c1b76ac8fbd3defe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 34/42] fix: expand: a protected string (FPStr) remains so when
 files are globbed

As soon as a pattern of file names was expanded, FPStr values were turned
into plain strings and therefore expanded afterwards.
---
 src/footprints/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 130b473..3096e80 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -73,9 +73,11 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            newd[k] = re.sub(r'\[glob:(\w+)\]',
-                             lambda mobj: globs.get(mobj.group(1), mobj.group(0)),
-                             newd[k])
+            # NB: Protected strings (e.g. FPStr) should remain so
+            newd[k] = newd[k].__class__(
+                re.sub(r'\[glob:(\w+)\]',
+                       lambda mobj: globs.get(mobj.group(1), mobj.group(0)),
+                       newd[k]))
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From ea05fceb1b8b5acad6c90086d0c2b1b9faec1e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 35/42] fix: references to globs in containers still to be
 expanded are left unresolved

---
 src/footprints/util.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 3096e80..16c118c 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -54,6 +54,23 @@ def hashable(obj):
     return True
 
 
+def _fill_globs(value, globs):
+    """
+    Put the actual **globs** in place of their references in **value**, including in
+    the items of a container that remains to be expanded.
+    """
+    if isinstance(value, str):
+        # NB: Protected strings (e.g. FPStr) should remain so
+        return value.__class__(re.sub(r'\[glob:(\w+)\]',
+                                      lambda mobj: globs.get(mobj.group(1), mobj.group(0)),
+                                      value))
+    if type(value) in (list, tuple, set):
+        return type(value)([_fill_globs(x, globs) for x in value])
+    if type(value) is dict:
+        return {k: _fill_globs(x, globs) for k, x in value.items()}
+    return value
+
+
 def inplace(desc, key, value, globs=None, globalindex=None):
     """
     Redefine the ``key`` value in a deep copy of the description ``desc``.
@@ -72,12 +89,8 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd = copy.deepcopy(desc)
     newd[key] = value
     if globs:
-        for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            # NB: Protected strings (e.g. FPStr) should remain so
-            newd[k] = newd[k].__class__(
-                re.sub(r'\[glob:(\w+)\]',
-                       lambda mobj: globs.get(mobj.group(1), mobj.group(0)),
-                       newd[k]))
+        for k in [x for x in newd.keys() if x != key]:
+            newd[k] = _fill_globs(newd[k], globs)
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 9690159f4d61ddadfe65bcbcd3e6682e30a2147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 36/42] fix: default settings changed in the middle of a search
 are partly taken into account

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3f3a0f6..05c2d8d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -556,7 +556,7 @@ class Footprint:
 
         if setup.extended:
             # + Add arguments from defaults footprint not already defined to extra parameters
-            self._addextras(extras, guess, setup.defaults)
+            self._addextras(extras, guess, resolvecache.defaults)
 
         attrs = self.attr
 
-- 
2.43.0


From eddc43baeda30c7168e8325b33a6c59c4d681c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 37/42] fix: a weak attribute that was not resolved yet makes a
 search fail

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 05c2d8d..c21fea9 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -647,7 +647,7 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                if ('weak' in attrs[k]['access'] and k in attr_seen and guess[k] is not UNKNOWN and
                         not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
-- 
2.43.0


From dab0bbe94144cf310cef217066d94a059c50a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 38/42] fix: something else than a class given for a class
 attribute makes a search fail

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c21fea9..f42ab98 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -596,7 +596,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
-- 
2.43.0


From 5be0335701d00de5ce2b18e9e40cd82e29c0a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 39/42] fix: a string that is not a valid expression for a
 FPRegex attribute makes a search fail

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f42ab98..971a08d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -607,7 +607,7 @@ class Footprint:
                     try:
                         guess[k] = ktype(guess[k], **kwargs)
                         # logger.debug(' > Attr %s reclassed = %s', k, guess[k])
-                    except (ValueError, TypeError, FootprintException):
+                    except (ValueError, TypeError, re.error, FootprintException):
                         # logger.debug(' > Attr %s badly reclassed as %s = %s', k, ktype, guess[k])
                         report.add(attribute=k, why=reporting.REPORT_WHY_RECLASS,
                                    args=(ktype.__name__, str(guess[k])))
-- 
2.43.0


From 482ef322589ae5cb3fec8fda188135567e3f6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 40/42] fix: filtering or resetting priorities with an unknown
 level name acts upon wrong classes

---
 src/footprints/collectors.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 9a2a501..93a738d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -113,9 +113,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                 print('Bye...', x)
             self.discard(x)
 
+    @staticmethod
+    def _actual_level(tag):
+        """Return the priority level associated to ``tag``, provided that there is one."""
+        plevel = priorities.top.level(tag)
+        if plevel is None or plevel not in priorities.top:
+            raise ValueError('No such level priority: {!s}'.format(tag))
+        return plevel
+
     def filter_higher_level(self, tag):
         """Find in current collector classes with priority level higher or equal to ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._actual_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() >= plevel]
 
     def discard_higher_level(self, tag, verbose=True):
@@ -127,7 +135,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def filter_lower_level(self, tag):
         """Find in current collector classes with priority level lower than ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._actual_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() < plevel]
 
     def discard_lower_level(self, tag, verbose=True):
@@ -139,7 +147,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def reset_package_level(self, packname, tag):
         """Reset priority level current collector classes with name starting with ``packname``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._actual_level(tag)
         for cl in self.filter_package(packname):
             fp = cl.footprint_retrieve()
             fp.priority['level'] = plevel
-- 
2.43.0


From 303e951fc2bf3640fda9c24afa971a4e6ec185d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 41/42] fix: a definition that cannot be documented is rejected
 but stays in its collectors

---
 src/footprints/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 971a08d..1df41c1 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -840,6 +840,8 @@ class FootprintBaseMeta(type):
             if cname in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        # The documentation may fail: do it before anything is registered
+        fpdoc = doc.format_docstring(realcls._footprint, setup.docstrings) if setup.docstrings else ''
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
@@ -853,10 +855,7 @@ class FootprintBaseMeta(type):
         basedoc = realcls.__doc__
         if not basedoc:
             basedoc = 'Not documented yet.'
-        realcls.__doc__ = basedoc
-        if setup.docstrings:
-            realcls.__doc__ += doc.format_docstring(realcls._footprint,
-                                                    setup.docstrings)
+        realcls.__doc__ = basedoc + fpdoc
 
         return realcls
 
-- 
2.43.0


From 93064f2a73707dac12ac6db6c6c8e012d04acb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 42/42] fix: a load that fails breaks when the report log keeps
 no entry

---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 93a738d..cf464a9 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -309,7 +309,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         elif emptywarning:
             dumper = dump.get()
             logger.warning("No %s found in description \n%s", self.tag, dumper.cleandump(desc))
-            if mkstdreport and self.report:
+            if mkstdreport and self.report and self.report_last is not None:
                 print("\n", self.report_log.info(), "\n")
                 if reportstyle == config.RAW_REPORTINGSTYLE:
                     self.report_last.lightdump()
-- 
2.43.0

