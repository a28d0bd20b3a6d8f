From 21721b403db1b438695ea362fa54890ac97cae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 01/25] fix: use the right handler for dictionary keys and
 values on first use

When the handler of the values was not in the cache yet, it replaced the
handler of the keys.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..e903d24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From 1072157d2410bf87bb79b84f7a421f2f791b8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 02/25] fix: register every type met for ForwardRef, before
 publishing its handler

Types met as fields, items, keys or union members were looked up directly
and put in the cache without becoming known, so that references to them
could never be resolved afterwards. A type was also visible in the cache
before its name was known, to other threads or after an interruption.
---
 typedload/dataloader.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e903d24..8181cdf 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -260,6 +260,22 @@ class Loader:
                 return i
         raise ValueError('No matching condition found')
 
+    def _findhandler(self, type_: Type[T]) -> Callable[['Loader', Any, Any], Any]:
+        """
+        Returns the handler for the given type and adds it to the cache.
+
+        If no condition matches, ValueError is raised.
+        """
+        func = self.handlers[self.index(type_)][1]
+
+        # Add type to known types, to resolve ForwardRef later on.
+        # Types that are in the cache must already be known.
+        if self.frefs is not None and hasattr(type_, '__name__'):
+            self.frefs.setdefault(type_.__name__, type_)
+
+        self._indexcache[type_] = func
+        return func
+
     def load(self, value: Any, type_: Type[T], *, annotation: Optional[Annotation] = None) -> T:
         """
         Loads value into the typed data structure.
@@ -279,7 +295,7 @@ class Loader:
             func = cached_f
         else:
             try:
-                index = self.index(type_)
+                func = self._findhandler(type_)
             except ValueError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(type_),
@@ -287,14 +303,6 @@ class Loader:
                     type_=type_
                 )
 
-            func = self._indexcache[type_] = self.handlers[index][1]
-
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
@@ -379,7 +387,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         key_f = key_handler
     else:
         try:
-            key_f = l._indexcache[key_type] = l.handlers[l.index(key_type)][1]
+            key_f = l._findhandler(key_type)
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (key of %s)' % (tname(key_type), tname(type_)),
@@ -393,7 +401,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._findhandler(value_type)
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
@@ -445,7 +453,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
             for v, h, t in zip(
                 compress(value, ctr),
-                (l._indexcache.get(t) or l.handlers[l.index(t)][1] for t in args),
+                (l._indexcache.get(t) or l._findhandler(t) for t in args),
                 args
             )
         )
@@ -588,7 +596,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
             loader_f = cached_loader
         else:
             try:
-                loader_f = l._indexcache[field_type] = l.handlers[l.index(field_type)][1]
+                loader_f = l._findhandler(field_type)
             except ValueError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(field_type),
@@ -719,7 +727,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 f = handler
             else:
                 try:
-                    f = l._indexcache[t] = l.handlers[l.index(t)][1]
+                    f = l._findhandler(t)
                 except ValueError:
                     raise TypedloadValueError(
                         'Cannot deal with value of type %s (key of %s)' % (tname(t), tname(type_)),
@@ -916,7 +924,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
         f = cached_f
     else:
         try:
-            f = l._indexcache[t] = l.handlers[l.index(t)][1]
+            f = l._findhandler(t)
         except ValueError:
             raise TypedloadTypeError(
                 'Cannot deal with value of type %s' % tname(t),
-- 
2.43.0


From 2f1a2b4563ccd5b65f6fec565501109489feb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 03/25] fix: do not modify the annotations of a TypedDict when
 loading it

NotRequired was being removed from the class itself.
---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8181cdf..6ff46ba 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -639,7 +639,8 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # Copied, because it gets modified
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From 460fcd3c853dc4c7b80a8fe54789d29c908e0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/25] fix: errors of enums with type hints can be printed

Plain exceptions were being listed among the failed attempts, which made
printing the error fail with an AttributeError. Failures that are not load
errors are not failed attempts.
---
 typedload/dataloader.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6ff46ba..887971f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -786,12 +786,23 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
         pass
 
     # Try with the typing hints
-    exceptions = []
+    exceptions = []  # type: List[TypedloadException]
     for _, t in get_type_hints(type_).items():
+        annotation = Annotation(AnnotationType.UNION, t)
         try:
-            return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+            loaded = l.load(value, t, annotation=annotation)
+        except TypedloadException as e:
             exceptions.append(e)
+            continue
+        try:
+            return type_(loaded)
+        except Exception as e:
+            exceptions.append(TypedloadValueError(
+                str(e),
+                trace=[TraceItem(value, t, annotation)],
+                value=value,
+                type_=type_
+            ))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From f3d2ef41933c1e1615557b46ce717ada68d5f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 05/25] fix: do not turn unrelated exceptions into failed
 conversions

An exception that is not a TypedloadException, for example an I/O error of
the source being iterated, was turned into a TypedloadTypeError inside lists
and tuples. An union around them would then pick another of its types and
return wrong data, as if nothing had happened. The original exception now
reaches the caller, also in place of the AssertionError.
---
 typedload/dataloader.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 887971f..f9ad8f1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -305,8 +305,7 @@ class Loader:
 
         try:
             return func(self, value, type_)
-        except Exception as e:
-            assert isinstance(e, TypedloadException)
+        except TypedloadException as e:
             e.trace.insert(0, TraceItem(value, type_, annotation))
             raise e
 
@@ -464,8 +463,6 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         raise e
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
-    except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
 
 
 def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra: bool) -> Dict[str, Any]:
@@ -960,5 +957,3 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
         raise e
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
-    except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
-- 
2.43.0


From ca593ec1dec753f591af670290786591694e8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 06/25] fix: running out of memory or stack is not a failed
 conversion

The error was hidden and another type of the union, or another reading of
an enum, was used instead.
---
 typedload/dataloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index f9ad8f1..cea203c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -362,6 +362,8 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
                 raise TypedloadValueError(str(e), value=value, type_=type_)
             except TypeError as e:
                 raise TypedloadTypeError(str(e), value=value, type_=type_)
+            except (MemoryError, RecursionError):
+                raise
             except Exception as e:
                 raise TypedloadException(str(e), value=value, type_=type_)
         else:
@@ -779,6 +781,8 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     try:
         # Try naïve conversion
         return type_(value)
+    except (MemoryError, RecursionError):
+        raise
     except Exception:
         pass
 
@@ -793,6 +797,8 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
             continue
         try:
             return type_(loaded)
+        except (MemoryError, RecursionError):
+            raise
         except Exception as e:
             exceptions.append(TypedloadValueError(
                 str(e),
@@ -907,6 +913,8 @@ def _strconstructload(l: Loader, value, type_):
         raise TypedloadValueError(str(e), type_=type_, value=value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (MemoryError, RecursionError):
+        raise
     except Exception as e:
         raise TypedloadException(str(e), type_=type_, value=value)
 
-- 
2.43.0


From 6c4f4570eeccfaf86e63b884204324e91f1f12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 07/25] fix: report malformed data with a TypedloadException

A tuple loaded from something without a length, an unhashable value in the
field that discriminates an union, dates and durations out of range or not
a number, patterns with huge repetitions and unknown fields that are not
strings were escaping as other exceptions.
---
 typedload/dataloader.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index cea203c..1370161 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -443,9 +443,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        length = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
@@ -575,7 +579,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(str(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
@@ -710,7 +714,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # The value is not hashable, so it matches no literal
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
@@ -838,7 +846,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
             return type_(*value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
-    except ValueError as e:
+    except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
 
 
@@ -849,7 +857,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
-    except re.error as e:
+    except (re.error, OverflowError) as e:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
@@ -860,6 +868,8 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (ValueError, OverflowError) as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From 931ae696e408fb091511b29e874785f90fc70d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 08/25] fix: load dictionaries in one pass

After a failure the dictionary was loaded again to find the position of the
error, at every level of nesting, taking exponential time. Doing it twice
also did not work for mappings that can be read only once.
---
 typedload/dataloader.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1370161..b7f5b10 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -412,24 +412,29 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     value = _dictequivalence(l, value)
 
-    # Try fast load
     try:
-        return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
-            for k, v in value.items()
-        }
-    except Exception:
-        # Failed, do the slow method with exception tracking
-        pass
-
-    try:
-        return {
-            l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
-            for k, v in value.items()}
+        items = value.items()
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
+    r = {}
+    for k, v in items:
+        try:
+            key = k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type)
+        except TypedloadException as e:
+            e.trace.insert(0, TraceItem(k, key_type, Annotation(AnnotationType.KEY, k)))
+            raise e
+        try:
+            val = v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type)
+        except TypedloadException as e:
+            e.trace.insert(0, TraceItem(v, value_type, Annotation(AnnotationType.VALUE, v)))
+            raise e
+        try:
+            r[key] = val
+        except TypeError as e:
+            raise TypedloadTypeError(str(e), type_=type_, value=value)
+    return r
+
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     """
-- 
2.43.0


From d67842d0878acb68c5962cc628d948a030317592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 09/25] fix: a ValueError in a condition is not the lack of an
 handler

With raiseconditionerrors the error of the condition was hidden, and unions
went on with their other types. In tuples, a TypeError was hidden too.
---
 typedload/dataloader.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b7f5b10..45644b1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -45,6 +45,13 @@ __all__ = [
 T = TypeVar('T')
 
 
+class _NoHandlerError(ValueError):
+    """
+    Raised when no handler is found. It is a class of its own so that
+    it is different from a ValueError raised inside a condition.
+    """
+
+
 class Loader:
     """
     A loader object that recursively loads data into
@@ -258,7 +265,7 @@ class Loader:
                 match = False
             if match:
                 return i
-        raise ValueError('No matching condition found')
+        raise _NoHandlerError('No matching condition found')
 
     def _findhandler(self, type_: Type[T]) -> Callable[['Loader', Any, Any], Any]:
         """
@@ -296,7 +303,7 @@ class Loader:
         else:
             try:
                 func = self._findhandler(type_)
-            except ValueError:
+            except _NoHandlerError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(type_),
                     value=value,
@@ -389,7 +396,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     else:
         try:
             key_f = l._findhandler(key_type)
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (key of %s)' % (tname(key_type), tname(type_)),
                 value=value,
@@ -403,7 +410,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     else:
         try:
             value_f = l._findhandler(value_type)
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
                 value=value,
@@ -457,15 +464,25 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
+    handlers = []
+    for t in args:
+        h = l._indexcache.get(t)
+        if h is None:
+            try:
+                h = l._findhandler(t)
+            except _NoHandlerError:
+                raise TypedloadTypeError(
+                    'Cannot deal with value of type %s' % tname(t),
+                    value=value,
+                    type_=t
+                )
+        handlers.append(h)
+
     ctr = count(1)  # Keep track of the position in the tuple
 
     try:
         return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
-            for v, h, t in zip(
-                compress(value, ctr),
-                (l._indexcache.get(t) or l._findhandler(t) for t in args),
-                args
-            )
+            for v, h, t in zip(compress(value, ctr), handlers, args)
         )
     except TypedloadException as e:
         index = next(ctr) - 2
@@ -605,7 +622,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         else:
             try:
                 loader_f = l._findhandler(field_type)
-            except ValueError:
+            except _NoHandlerError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(field_type),
                     value=value,
@@ -741,7 +758,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
             else:
                 try:
                     f = l._findhandler(t)
-                except ValueError:
+                except _NoHandlerError:
                     raise TypedloadValueError(
                         'Cannot deal with value of type %s (key of %s)' % (tname(t), tname(type_)),
                         value=value,
@@ -957,7 +974,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     else:
         try:
             f = l._findhandler(t)
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadTypeError(
                 'Cannot deal with value of type %s' % tname(t),
                 value=value,
-- 
2.43.0


From fdab3794b9c1850b932358ea8ce6c092477a8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 10/25] fix: dump dataclasses containing forward references

The names were being looked up nowhere, so the dump failed.
---
 typedload/datadumper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..576fb36 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -268,7 +268,11 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(t)
+        except NameError:
+            # References that can't be resolved. The hints are not essential
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From a28d78d108dbcb0520103f302df7b3ec9797096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 11/25] fix: dump attrs classes having defaults that depend on
 the instance

---
 typedload/datadumper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 576fb36..4c68f0a 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,11 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                takes_self = getattr(attr.default, 'takes_self', False)
+                default = attr.default.factory(value) if takes_self else attr.default.factory()
+                if attrval == default:
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From c3c4bd8f0aa3cb7755a33a8a1dca4f375383663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 12/25] fix: load what was dumped from classes having fields
 with init=False

Those fields are dumped, but loading them back passed them to the
constructor, which does not accept them. They are now ignored.
---
 typedload/dataloader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 45644b1..e3587c1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -537,6 +537,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
             type_hints = get_type_hints(type_)
         else:
             type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
+        # Fields that are not for the constructor are known but not loaded
+        type_hints = {k: v for k, v in type_hints.items() if k in fields and type_.__dataclass_fields__[k].init}
 
         #Name mangling
 
@@ -610,8 +612,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
 
     params = {}
     for k, v in value.items():
-        if k not in fields:
-            # Field in value is not in the type
+        if k not in type_hints:
+            # Field in value is not in the type, or is not for the constructor
             continue
 
         # loading field directly, skipping load()
@@ -914,7 +916,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
 
     fields = {i.name for i in type_.__attrs_attrs__}
     necessary_fields = set()
-    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
+    # Fields that are not for the constructor are known but not loaded
+    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__ if i.init}
     namesmap = {}  # type: Dict[str, str]
 
     for attribute in type_.__attrs_attrs__:
-- 
2.43.0


From eecb4c900ce2e0e9275617818dcbf40594f18c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 13/25] fix: StopIteration in a handler does not truncate lists

When a handler or a constructor raised StopIteration, the elements
following it were silently discarded.
---
 typedload/dataloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e3587c1..6f74b56 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -24,7 +24,7 @@ Module to load data into typed data structures
 import datetime
 from enum import Enum
 import ipaddress
-from itertools import compress, count, repeat
+from itertools import compress, count
 from functools import reduce
 from pathlib import Path
 import re
@@ -992,7 +992,8 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
         elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
-            return function(map(f, repeat(l), compress(value, ctr), repeat(t)))
+            # Not map(), so that a StopIteration from f is not taken as the end of value
+            return function((f(l, i, t) for i in compress(value, ctr)))
     except TypedloadException as e:
         index = next(ctr) - 2
         annotation = Annotation(AnnotationType.INDEX, index)
-- 
2.43.0


From 7f41ec69739cae76d9080eb2a6967362fcae56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 14/25] fix: running out of memory or stack is not a false
 condition

With raiseconditionerrors=False, the wrong handler was selected, and then
used for all the following values of the same type.
---
 typedload/datadumper.py | 3 +++
 typedload/dataloader.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 4c68f0a..06db742 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -169,6 +169,9 @@ class Dumper:
         for i, cond in ((j[0], j[1][0]) for j in enumerate(self.handlers)):
             try:
                 match = cond(value)
+            except (MemoryError, RecursionError):
+                # Says nothing about the type
+                raise
             except Exception:
                 if self.raiseconditionerrors:
                     raise
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6f74b56..66e8538 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -259,6 +259,9 @@ class Loader:
         for i, cond in ((q[0], q[1][0]) for q in enumerate(self.handlers)):
             try:
                 match = cond(type_)
+            except (MemoryError, RecursionError):
+                # Says nothing about the type
+                raise
             except Exception:
                 if self.raiseconditionerrors:
                     raise
-- 
2.43.0


From b4c546c506aa8341741b5d366e37b92090b63375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 15/25] fix: loading a union does not depend on other unions of
 the same types

The loader kept what it knew about the Literal fields by type, but unions
having the same types in another order are equal. So when more than one type
accepted a value, the one chosen depended on which union was met first.
---
 typedload/dataloader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 66e8538..c73fb1e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -247,7 +247,7 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -718,7 +718,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasattr(value, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        # Not using type_, because unions with the same types in a different order are equal
+        discriminatorscache = l._unionload_discriminatorcache.get(args)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -736,7 +737,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[args] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From dfa926058ab6f497e4eb001009a3a7511849f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 16/25] fix: the member of an union does not depend on hash
 randomisation

With several Literal fields in common, the one to use was chosen randomly at
every execution, and the type loaded could change because of that.
---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c73fb1e..03c64c7 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -730,7 +730,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
 
             cachedict = {}
             if keys:
-                key = keys.pop()
+                # Always the same one. The order of a set changes at every execution
+                key = min(keys)
                 for t, d in data.items():
                     for literal in d[key]:
                         cachedict[literal] = t
-- 
2.43.0


From edf2e8023b0f7ebfa20dec47130fa437371d5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 17/25] fix: dump the fields of dataclasses in order

With more than one field failing, the error depended on hash randomisation.
---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 06db742..b2a5e0e 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -154,7 +154,7 @@ class Dumper:
         ]  # type: List[Tuple[Callable[[Any], bool], Callable[['Dumper', Any, Any], Any]|Callable[['Dumper', Any], Any]]]
 
         self._handlerscache = {}  # type: Dict[Type[Any], Callable[['Dumper', Any, Any], Any]]
-        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any]]]
+        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[List[str], Dict[str, Any], Dict[str, Any]]]
 
         for k, v in kwargs.items():
             setattr(self, k, v)
@@ -270,7 +270,7 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        fields = list(value.__dataclass_fields__.keys())
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From 5632f4b471c5843e02914fe250afc98cc331a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 18/25] fix: errors of constructors tell the value and the type

They had neither, and the exception in place of the description.
---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 03c64c7..e978986 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -642,9 +642,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 134d4dc6901f6da3124af451aeb58989f00acd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 19/25] fix: custom handlers of unions work inside of lists too

A handler for Optional[int] was not used for the values of a List[Optional[int]].
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e978986..6b8c005 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -994,7 +994,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
         ctr = count(1)
         if t in l.basictypes:
             return function((i if isinstance(i, t) else f(l, i, t) for i in compress(value, ctr)))
-        elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
+        elif f is _unionload and is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
             # Not map(), so that a StopIteration from f is not taken as the end of value
-- 
2.43.0


From ecb1e931e08039ee7217415881f351a4950f7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 20/25] fix: Pattern[bytes] and Pattern[str] accepted each
 other's data

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6b8c005..b93e104 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -880,7 +880,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From 35f6854a0ccb536591e370b2c8d3a2b8b60f3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 21/25] fix: attrs classes with converters that are not
 functions could not be loaded

---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b93e104..05fb56f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -908,7 +908,11 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    try:
+        hints = get_type_hints(c)
+    except TypeError:
+        # Callable object that is not a function, for example functools.partial
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-- 
2.43.0


From 55cfb7046ea4af5b3fafe00ae41c454ac790f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 22/25] fix: loading List[int] made the references to a class
 named List resolve to it

---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 05fb56f..11510cf 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -280,7 +280,8 @@ class Loader:
 
         # Add type to known types, to resolve ForwardRef later on.
         # Types that are in the cache must already be known.
-        if self.frefs is not None and hasattr(type_, '__name__'):
+        # The name of List[int] is "List", and it is not a name one can refer to.
+        if self.frefs is not None and hasattr(type_, '__name__') and not hasattr(type_, '__args__'):
             self.frefs.setdefault(type_.__name__, type_)
 
         self._indexcache[type_] = func
-- 
2.43.0


From 8fd423e7ade0174b4968e41399424feac27e6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 23/25] fix: dumping a class decided how all the following
 classes are dumped

---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index b2a5e0e..b4398e0 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -142,11 +142,11 @@ class Dumper:
         self.handlers = [
             (lambda value: type(value) in self.basictypes, _identitydump),
             (lambda value: isinstance(value, tuple) and hasattr(value, '_fields') and hasattr(value, '_asdict'), _namedtupledump),
-            (lambda value: '__dataclass_fields__' in dir(value), _dataclassdump),
+            (lambda value: hasattr(type(value), '__dataclass_fields__'), _dataclassdump),
             (lambda value: isinstance(value, (list, tuple, set, frozenset)), _iteratordump),
             (lambda value: isinstance(value, Enum), lambda l, value, t: l.dump(value.value)),
             (lambda value: isinstance(value, Dict), lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),
-            (is_attrs, _attrdump),
+            (lambda value: is_attrs(type(value)), _attrdump),
             (lambda value: isinstance(value, (datetime.date, datetime.time)), _datetimedump),
             (lambda value: isinstance(value, datetime.timedelta), _timedeltadump),
             (lambda value: isinstance(value, re.Pattern), _patterndump),
-- 
2.43.0


From bbcba85ae788936355ea4745118ee89d0d4a9f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:53 +0000
Subject: [PATCH 24/25] fix: attrs converters that only annotate what they
 return made load() raise StopIteration

There is nothing about the type of the parameter then, so it is Any.
---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 11510cf..7d25118 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -917,7 +917,8 @@ def _get_attr_converter_type(c: "Callable"):
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-        return next(iter(hints.values()))
+        if hints:
+            return next(iter(hints.values()))
     return Any
 
 
-- 
2.43.0


From a5d6df51c4d250f51075b77bee290ced83b00911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:55 +0000
Subject: [PATCH 25/25] fix: paths of nested exceptions in the text of errors

The text of an exception of a union inside of another union was missing the
beginning of the path, as the parameter with the trace was not used.
---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..3e80c16 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -126,9 +126,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0

