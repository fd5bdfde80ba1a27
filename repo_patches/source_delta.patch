From 0c97535e8f4dade89c264754a83d769eea58c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 01/71] fix: keep the minutes of negative UTC offsets

The minutes were taken from the negative number of seconds, so that -03:15
was dumped as -03:45.
---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..2d8d5c2 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -87,7 +87,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     """
     offset_s = tdelta.total_seconds()
     offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
+    offset_m = int((abs(offset_s) / 60) % 60)
     offset_t = time(abs(offset_h), abs(offset_m))
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
-- 
2.43.0


From 9cbd49ba2fc9161edb944ef86063b533655aca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 02/71] fix: dump years before 1000 with four digits

strftime does not pad %Y on Linux, so such dates were dumped as text that is
not RFC3339 and that cannot be loaded.
---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 2d8d5c2..7d12b91 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,9 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    if getattr(dt, 'year', 1000) < 1000:
+        # Not every platform pads the year to 4 digits.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 6c060049cac2cb622694437f2d19659863168ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 03/71] fix: do not dump a timezone named UTC with another
 offset as Z

---
 jsons/_datetime_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 7d12b91..f37efd3 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -75,7 +75,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if tzone is timezone.utc or tzone.utc is timezone.utc:
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    if (tzone.utcoffset(None)
+            or tzone.tzname(None) not in ('UTC', 'UTC+00:00')):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 817ef96d9b2146a0a5855a440bfa3436babefdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 04/71] fix: load times with microseconds

A time with microseconds is dumped with a fraction, which the deserializer
did not accept.
---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 4cb1e8ad4af2d4f7ab27d258a8e74d439fc65db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 05/71] fix: do not take text that is no RFC3339 timestamp for
 a datetime

strptime and int accept more than RFC3339 allows, so that strings such as
'2018-1-1T1:2:3Z' or '2018-01-01T01:02:03+-1:00' were turned into datetimes
when loaded without a type.
---
 jsons/deserializers/default_datetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsons/deserializers/default_datetime.py b/jsons/deserializers/default_datetime.py
index 2bd4fa1..b80bbc8 100644
--- a/jsons/deserializers/default_datetime.py
+++ b/jsons/deserializers/default_datetime.py
@@ -3,6 +3,10 @@ import re
 
 from jsons._datetime_impl import get_datetime_inst, RFC3339_DATETIME_PATTERN
 
+# strptime is more lenient than RFC3339 (e.g. it accepts unpadded numbers).
+RFC3339_REGEX = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?'
+                           r'(Z|[+-]\d\d:[0-5]\d)', re.ASCII)
+
 
 def default_datetime_deserializer(obj: str,
                                   cls: type = datetime,
@@ -14,6 +18,8 @@ def default_datetime_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.datetime`` instance.
     """
+    if not RFC3339_REGEX.fullmatch(obj):
+        raise ValueError('Not an RFC3339 timestamp.')
     pattern = RFC3339_DATETIME_PATTERN
     if '.' in obj:
         pattern += '.%f'
-- 
2.43.0


From b2d3b4344595ff8911d74f460989709dcb01da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 06/71] fix: dump tuples with a bare tuple type

Dumping with tuple, Tuple or Tuple[()] failed, as these have no type
arguments to look for an ellipsis in.
---
 jsons/_compatibility_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..509967d 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        # A bare tuple has no __args__ and Tuple[()] has empty ones.
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From bb449176f4eed3113cc54360ca491fe835f541ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 07/71] fix: dump and load empty sequences with multiple tasks

The size of the slices was computed with a division by zero.
---
 jsons/_multitasking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..021413f 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -18,6 +18,8 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    if not len(obj):
+        return []
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
-- 
2.43.0


From 2d34a0c25e9a5ef1681485e1dfb45ac641d7e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 08/71] fix: raise errors that occur in the tasks of a parallel
 dump or load

An element that could not be processed by a task was silently replaced by 0.
---
 jsons/_multitasking.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index 021413f..7aaf732 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,6 +8,8 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
@@ -27,12 +29,26 @@ def multi_task(
     for task in tasks_instances:
         task.join()
 
-    return list(result)
+    result = list(result)
+    for elem in result:
+        if isinstance(elem, _Failure):
+            raise elem.error
+    return result
+
+
+class _Failure:
+    # Holds the place of an element that was not (successfully) processed.
+    def __init__(self, error: Exception):
+        self.error = error
+
+    def __reduce__(self):
+        # Not every error survives being sent to another process.
+        return _Failure, (JsonsError(str(self.error)),)
 
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    result = [_Failure(JsonsError('Element was not processed.'))] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -80,5 +96,8 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            list_to_fill[i_] = func(obj[i_], tasks=tasks, *args, **kwargs)
+        except Exception as err:
+            # Make sure that the error is raised once all tasks are done.
+            list_to_fill[i_] = _Failure(err)
-- 
2.43.0


From 8c257a1ed84cbb7ae695f524f891b450c554ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 09/71] fix: respect fork_inst and warn_on_fail when loading a
 list with tasks

They were not handed to the tasks. Failures of elements now carry the index
of the element as well, as they do without tasks.
---
 jsons/deserializers/default_list.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..79279ba 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -1,5 +1,5 @@
 from multiprocessing import Process
-from typing import Type
+from typing import Tuple, Type
 
 from typish import get_args
 
@@ -41,7 +41,10 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        kwargs_['task_type'] = task_type
+        loaded = multi_task(_load_in_task, list(enumerate(obj)), tasks,
+                            task_type, cls_, warn_on_fail, fork_inst, kwargs_)
+        result = [elem for elems in loaded for elem in elems]
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
@@ -52,11 +55,13 @@ def _do_load(
         cls: type,
         warn_on_fail: bool,
         fork_inst: Type[StateHolder],
-        kwargs) -> list:
+        kwargs,
+        tasks: int = 1,
+        start: int = 0) -> list:
     result = []
-    for index, elem in enumerate(obj):
+    for index, elem in enumerate(obj, start):
         try:
-            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
+            result.append(load(elem, cls=cls, tasks=tasks, fork_inst=fork_inst, **kwargs))
         except DeserializationError as err:
             new_msg = ('Could not deserialize element at index %s. %s' %
                        (index, err.message))
@@ -67,3 +72,15 @@ def _do_load(
                 raise new_err from err
 
     return result
+
+
+def _load_in_task(
+        index_and_elem: Tuple[int, object],
+        cls: type,
+        warn_on_fail: bool,
+        fork_inst: Type[StateHolder],
+        kwargs,
+        tasks: int) -> list:
+    # Load one element; the result is empty if it failed with just a warning.
+    index, elem = index_and_elem
+    return _do_load([elem], cls, warn_on_fail, fork_inst, kwargs, tasks, index)
-- 
2.43.0


From 5f22bb9d2f529e70d6479cecb37d04d84fffcb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 10/71] fix: accept any collection of names for strip_attr

A list of names, though documented, raised a TypeError.
---
 jsons/serializers/default_object.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..a3f4535 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -162,10 +162,9 @@ def _add_dumped_elem(
 def _normalize_strip_attr(strip_attr) -> tuple:
     # Make sure that strip_attr is always a tuple.
     strip_attr = strip_attr or tuple()
-    if (not isinstance(strip_attr, MutableSequence)
-            and not isinstance(strip_attr, tuple)):
+    if isinstance(strip_attr, str):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From a9d36e265b3e9fd4ebc99cfcd70dd495fc1f0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 11/71] fix: let the key transformers accept empty strings and
 lone separators

They raised an IndexError, e.g. on dumping a dict with the key '_'.
---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From da1baf600299f6a90dbb8cd68753ff7cd144f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 12/71] fix: apply key transformers to string keys only

Dumping or loading a dict with other keys (e.g. ints or hashed keys) together
with a key_transformer failed.
---
 jsons/deserializers/default_dict.py | 7 +++++--
 jsons/serializers/default_dict.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..9f3bcc0 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -69,9 +69,11 @@ def _deserialize(
         keys_were_hashed: bool,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
-    key_func = key_transformer
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
 
+    def key_func(key):
+        return key_transformer(key) if isinstance(key, str) else key
+
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
@@ -80,7 +82,8 @@ def _deserialize(
             # ensure that the keys in the result are <key>. If the keys were
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+            transform = key_func
+            key_func = lambda key: load(transform(key), **kwargs_k)
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..5418d40 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -53,7 +53,7 @@ def default_dict_serializer(
                            strict=strict,
                            **kwargs)
         if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
+            if key_transformer and isinstance(key, str):
                 key = key_transformer(key)
             result[key] = dumped_elem
     return result
-- 
2.43.0


From 20830bdcc9e69dccffc503481454186e812224c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 13/71] fix: do not empty the -keys of the caller's dict on
 loading

Loading the same dump a second time failed.
---
 jsons/deserializers/default_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 9f3bcc0..a237ff6 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -46,7 +46,7 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
+        result = {**obj, '-keys': {**obj['-keys']}}
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-- 
2.43.0


From 3a48137f58b5de6100e1016bd8df7e255c817d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 14/71] fix: give forks their own validators and announced
 classes

They were shared with the forked instance and all of its other forks.
---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..a8cb91c 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From 8b340a53d0c26875769cef7101f34b8ae966e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 15/71] fix: let new serializers, deserializers and validators
 take effect at once

An earlier lookup for the same type was still answered from the cache.
---
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..24365d7 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..c2e8b57 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+        clear()
 
 
 @cached
-- 
2.43.0


From f98827675bdd81ae278f8a227bbd4913032803ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 16/71] fix: let an announcement take effect also when it was
 made before

announce_class was cached: announcing a class again under a name that had
been given to another class in the meantime had no effect.
---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From c9336e40ba3c7a2286fa4acbe6f5de8f431a6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 17/71] fix: dump values typed as Any or object by their own
 class

They were dumped by the serializer for plain objects, as if e.g. an int was
an object with the methods of int as its attributes.
---
 jsons/serializers/default_object.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index a3f4535..b572dbd 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,7 +1,7 @@
 import inspect
 from datetime import datetime, timezone
 from inspect import isfunction
-from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
+from typing import Any, Optional, Callable, Union, MutableSequence, Tuple, Dict
 
 from typish import get_type, get_mro
 
@@ -58,6 +58,21 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
+    if cls in (Any, object):
+        # Such a type does not tell how obj must be serialized.
+        serializer = get_serializer(obj.__class__, fork_inst)
+        return serializer(obj,
+                          cls=None,
+                          key_transformer=key_transformer,
+                          strip_nulls=strip_nulls,
+                          strip_privates=strip_privates,
+                          strip_properties=strip_properties,
+                          strip_class_variables=strip_class_variables,
+                          strip_attr=strip_attr,
+                          verbose=verbose,
+                          strict=strict,
+                          fork_inst=fork_inst,
+                          **kwargs)
     if cls and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
-- 
2.43.0


From 6b13dd191ba2a3a405c7219c57e8444a5d5b2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 18/71] fix: load values typed as object as if no type was
 given

Anything but a dict failed to load and a dict lost its contents.
---
 jsons/_load_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..c417449 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -79,6 +79,9 @@ def load(
         return json_obj
     if isinstance(cls, str):
         cls = get_cls_from_str(cls, json_obj, fork_inst)
+    if cls is object:
+        # This is no more specific than giving no class at all.
+        cls = None
     original_cls = cls
     cls, meta_hints = _check_and_get_cls_and_meta_hints(
         json_obj, cls, fork_inst, kwargs.get('_inferred_cls', False))
-- 
2.43.0


From f52f773de45bbd04af5a17c34b2b6d6ca5114949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 19/71] fix: resolve nested generic type names and fail cleanly
 on others

Names such as 'typing.Dict[str, typing.List[int]]', which verbose dumps
contain, could not be resolved. Names that do not denote a type, such as
'sys.path' or 'int[str]', raised a TypeError instead of an
UnknownClassError.
---
 jsons/_common_impl.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..49a57d8 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -7,7 +7,7 @@ throughout `jsons`.
 import builtins
 import warnings
 from importlib import import_module
-from typing import Callable, Optional, Tuple, TypeVar, Any
+from typing import Callable, List, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
@@ -86,19 +86,37 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+        hash(cls)  # A type can be hashed, e.g. for looking up a deserializer.
+    except (ImportError, AttributeError, ValueError, TypeError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
-    subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
-    return origin[tuple(subtypes)]
+    subtypes = [... if s == '...' else get_cls_from_str(s, source, fork_inst)
+                for s in _split_subtypes(subtypes_str)]
+    try:
+        # A single subtype is not given as a tuple, e.g. for Optional.
+        return origin[tuple(subtypes) if len(subtypes) > 1 else subtypes[0]]
+    except TypeError:
+        return _lookup_announced_class(cls_str, source, fork_inst)
+
+
+def _split_subtypes(subtypes_str: str) -> List[str]:
+    # Split at any comma that is not in between brackets.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += {'[': 1, ']': -1}.get(char, 0)
+        if char == ',' and not depth:
+            result.append('')
+        else:
+            result[-1] += char
+    return [s.strip() for s in result]
 
 
 def determine_precedence(
-- 
2.43.0


From 4f515a8f32857feab3caf340a11f733e53b71ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 20/71] fix: load with the name of a type as with the type
 itself

The name was resolved too late, so that None was never accepted and values
that already had the requested type were loaded nevertheless.
---
 jsons/_load_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index c417449..5476c0a 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -73,12 +73,12 @@ def load(
     :param kwargs: the keyword args are passed on to the deserializer function.
     :return: an instance of ``cls`` if given, a dict otherwise.
     """
+    if isinstance(cls, str):
+        cls = get_cls_from_str(cls, json_obj, fork_inst)
     _check_for_none(json_obj, cls)
     if _should_skip(json_obj, cls, strict):
         validate(json_obj, cls, fork_inst)
         return json_obj
-    if isinstance(cls, str):
-        cls = get_cls_from_str(cls, json_obj, fork_inst)
     if cls is object:
         # This is no more specific than giving no class at all.
         cls = None
-- 
2.43.0


From 02d0ac8ed88964e2d48270bcb735886761fc69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 21/71] fix: fail with a jsons error on malformed meta
 information

Meta information without classes, as dumped with Verbosity.WITH_DUMP_TIME,
is no longer an error; anything malformed raised a KeyError or TypeError.
---
 jsons/_common_impl.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 49a57d8..50ed8df 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,7 @@ from typing import Callable, List, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import DeserializationError, UnknownClassError
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -139,9 +139,17 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        classes = meta.get('classes', {}) if isinstance(meta, dict) else None
+        if (not isinstance(classes, dict)
+                or not all(isinstance(elem, str) or elem is None
+                           for elem in classes.values())):
+            raise DeserializationError('Invalid meta information: "{}"'
+                                       .format(meta), json_obj, None)
+        cls_str = classes.get('/')
+        cls = (get_cls_from_str(cls_str, json_obj, fork_inst)
+               if cls_str is not None else None)
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From f0382695d23daeafd85acdd7e9205bab6a778510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 22/71] fix: keep the class of objects in dicts in a verbose
 dump

Only objects in lists had their own meta information. Objects in a dict lost
their class unless all values of that dict had the same class.
---
 jsons/serializers/default_dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 5418d40..c93e951 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -33,6 +33,10 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+    # The meta kwarg store_cls is filtered out, because the elements should
+    # have their own -meta attribute.
+    kwargs_ = {**kwargs}
+    kwargs_.pop('_store_cls', None)
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
@@ -51,7 +55,7 @@ def default_dict_serializer(
                            key_transformer=key_transformer,
                            strip_nulls=strip_nulls,
                            strict=strict,
-                           **kwargs)
+                           **kwargs_)
         if not (strip_nulls and dumped_elem is None):
             if key_transformer and isinstance(key, str):
                 key = key_transformer(key)
-- 
2.43.0


From 1f0758fc8b04bdb85170d4c84c02d674b760c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 23/71] fix: load elements of a verbose dump with their own
 class hints

The meta information of an element was overridden by that of the enclosing
object, so that nested objects lost their class or even got another one.
---
 jsons/_load_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 5476c0a..28abc3d 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -91,6 +91,10 @@ def load(
     # Is this the initial call or a nested?
     initial = kwargs.get('_initial', True)
 
+    if meta_hints and not initial:
+        # Hints in json_obj itself replace those of an enclosing object.
+        kwargs['meta_hints'] = meta_hints
+
     kwargs_ = {
         'meta_hints': meta_hints,  # Overridable by kwargs.
         **kwargs,
-- 
2.43.0


From 690322747b2dcb38a00a1549b66c2d8768f78cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 24/71] fix: allow verbose dumps with dicts that have other
 keys than strings

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index b572dbd..3b24ca7 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -312,9 +312,9 @@ def _fill_collection_of_types(
         if attr != META_ATTR and isinstance(obj_[attr], dict):
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   '{}{}/'.format(prefix, attr),
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_['{}{}'.format(prefix, attr)] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From f44bbf78f71b4b8aa8d57b7799f699f13d35e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 25/71] fix: keep the other attributes if one attribute fails
 to dump

---
 jsons/serializers/default_object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 3b24ca7..8490dd4 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -146,14 +146,14 @@ def _do_serialize(
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=str(err)) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr, get_class_name(cls), err),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From c3c521cb6c2a1bebe44d83f8a75a34d01e0a9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 26/71] fix: let decorators map keyword arguments and variable
 arguments

---
 jsons/decorators.py | 55 +++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..6b54686 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -136,28 +136,38 @@ def _get_async_wrapper(
     return _async_wrapper
 
 
-def _get_params_sig(args, func):
-    sig = signature(func)
-    params = sig.parameters
-    param_names = [param_name for param_name in params]
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
-    return result
-
-
-def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
-    params_sig = _get_params_sig(args, decorated)
-    new_args = []
-    for arg, sig in params_sig:
+def _get_params_sig(args, kwargs, func):
+    # Return the parameters that correspond with the given args and kwargs.
+    params = list(signature(func).parameters.values())
+    var_args = [p for p in params if p.kind is Parameter.VAR_POSITIONAL]
+    positionals = [p for p in params if p.kind in
+                   (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)]
+    positionals += var_args * (len(args) - len(positionals))
+    var_kwargs = [p for p in params if p.kind is Parameter.VAR_KEYWORD]
+    keywords = {p.name: p for p in params if p.kind in
+                (Parameter.KEYWORD_ONLY, Parameter.POSITIONAL_OR_KEYWORD)}
+    keywords = {name: [keywords[name]] if name in keywords else var_kwargs
+                for name in kwargs}
+    return positionals, keywords
+
+
+def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    positionals, keywords = _get_params_sig(args, kwargs, decorated)
+    if len(positionals) < len(args) or not all(keywords.values()):
+        # Let the function raise on the arguments that it does not accept.
+        return args, kwargs
+
+    def _map_arg(arg, sig):
         if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
             # `decorated` is a method and arg is either `self` or `cls`.
-            new_arg = arg
-        else:
-            cls = sig.annotation if sig.annotation != Parameter.empty else None
-            new_arg = mapper(arg, cls=cls, fork_inst=fork_inst,
-                             **mapper_kwargs)
+            return arg
+        cls = sig.annotation if sig.annotation != Parameter.empty else None
+        return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
-        new_args.append(new_arg)
-    return new_args
+    new_args = [_map_arg(arg, sig) for arg, sig in zip(args, positionals)]
+    new_kwargs = {name: _map_arg(kwargs[name], keywords[name][0])
+                  for name in kwargs}
+    return new_args, new_kwargs
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
@@ -168,10 +178,11 @@ def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
 
 
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
-    new_args = args
+    new_args, new_kwargs = args, kwargs
     if mapper:
-        new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
-    result = decorated(*new_args, **kwargs)
+        new_args, new_kwargs = _map_args(args, kwargs, decorated, fork_inst,
+                                         mapper, mapper_kwargs)
+    result = decorated(*new_args, **new_kwargs)
     return result
 
 
-- 
2.43.0


From 92ebcf7da71ce683e8458ab5147899937cc0da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 27/71] fix: call attr_getters once and only for absent
 attributes

---
 jsons/deserializers/default_object.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..a46f4cf 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -41,6 +41,12 @@ def default_object_deserializer(
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
     instance = cls(**constructor_args)
+    # Only use the getters for attributes that do not have a value yet.
+    attr_getters = kwargs.get('attr_getters') or {}
+    kwargs['attr_getters'] = {
+        attr_name: attr_getters[attr_name] for attr_name in attr_getters
+        if attr_name not in constructor_args
+        and attr_name not in remaining_attrs}
     _set_remaining_attrs(instance, remaining_attrs, **kwargs)
     return instance
 
-- 
2.43.0


From 41816985b52f3a0e2ca99f9c8a09bc5868c94b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 28/71] fix: reject values that do not have the length of their
 tuple type

---
 jsons/deserializers/default_tuple.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..46c1c06 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -6,7 +6,7 @@ from jsons._common_impl import NoneType
 from jsons._compatibility_impl import (get_type_hints, get_union_params,
                                        tuple_with_ellipsis)
 from jsons._load_impl import load
-from jsons.exceptions import UnfulfilledArgumentError
+from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
 
 def default_tuple_deserializer(obj: list,
@@ -29,6 +29,12 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        elif tuple_types == ((),):
+            tuple_types = ()  # An empty tuple: Tuple[()].
+        if len(tuple_types) != len(obj):
+            msg = ('Expected {} elements for "{}", but found {}'
+                   .format(len(tuple_types), cls, len(obj)))
+            raise DeserializationError(msg, obj, cls)
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
-- 
2.43.0


From 054e031d51547b7dc6caaad291a7316e4696a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 29/71] fix: use defaults for named tuple fields that are
 absent in a dict

---
 jsons/deserializers/default_tuple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 46c1c06..5d85276 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -64,11 +64,10 @@ def default_namedtuple_deserializer(
 
     args = []
     for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
+        if is_dict and field_name in tfm_obj:
+            field = tfm_obj[field_name]
+        elif not is_dict and index < len(obj):
+            field = obj[index]
         else:
             field = cls._field_defaults.get(field_name, None)
 
-- 
2.43.0


From b8d0677517550fb5e581602de3cc0a325e0c93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 30/71] fix: allow None in named tuple fields that can hold
 None

---
 jsons/deserializers/default_tuple.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 5d85276..bc5fcf4 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,7 +2,7 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
+from jsons._common_impl import NoneType, can_match_with_none
 from jsons._compatibility_impl import (get_type_hints, get_union_params,
                                        tuple_with_ellipsis)
 from jsons._load_impl import load
@@ -81,7 +81,9 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
+            is_present = field_name in tfm_obj if is_dict else index < len(obj)
+            if (NoneType not in (get_union_params(hint) or [])
+                    and not (is_present and can_match_with_none(hint))):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From 78d7221c1f10f8ec5f6bc441f322936c272cbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 31/71] fix: load into a subscripted dict

---
 jsons/deserializers/default_mapping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..b39ce39 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,7 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
-        result = cls(dict_)
+    naked_cls = get_naked_class(cls)
+    if not isinstance(result, naked_cls):
+        result = naked_cls(dict_)
     return result
-- 
2.43.0


From d1b0a066c81c4199ca08acd00e0ade29a9f0b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 32/71] fix: strictly dump iterables that cannot be sliced

---
 jsons/serializers/default_iterable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..496b312 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -76,6 +76,5 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
 def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
     if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
+        cls_ = get_type([obj[0]])
     return cls_
-- 
2.43.0


From c63b05b8e0f78b22294769eed99ab984ddacac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 33/71] fix: dump with the serializers of the class in
 with_dump

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..3b3a92a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__, **kwargs_,
+                                 **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From a88dfb1ab900a8b038aacd796776c7abbc6cd650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 34/71] fix: keep hashed dict keys apart and drop those of
 stripped values

---
 jsons/serializers/default_dict.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index c93e951..cd8247c 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -33,6 +33,7 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+    numeric_keys = {key for key in obj if isinstance(key, (int, float))}
     # The meta kwarg store_cls is filtered out, because the elements should
     # have their own -meta attribute.
     kwargs_ = {**kwargs}
@@ -41,31 +42,33 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
+        dumped_elem = dump(obj_,
+                           cls=cls_,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           **kwargs_)
+        if strip_nulls and dumped_elem is None:
+            continue
+
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, numeric_keys,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
         if dict_and_key:
             result, key = dict_and_key
-
-        dumped_elem = dump(obj_,
-                           cls=cls_,
-                           key_transformer=key_transformer,
-                           strip_nulls=strip_nulls,
-                           strict=strict,
-                           **kwargs_)
-        if not (strip_nulls and dumped_elem is None):
-            if key_transformer and isinstance(key, str):
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        if key_transformer and isinstance(key, str):
+            key = key_transformer(key)
+        result[key] = dumped_elem
     return result
 
 
 def _store_and_hash(
         obj: dict,
         key: object,
+        numeric_keys: set,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -78,6 +81,8 @@ def _store_and_hash(
         if not _is_valid_json_key(dumped_key):
             # Apparently, this was not enough; the key is still not "jsonable".
             key_hash = hash(key)
+            while key_hash in obj or key_hash in numeric_keys:
+                key_hash += 1  # Different keys may have the same hash.
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
             obj_['-keys'][key_hash] = dumped_key
-- 
2.43.0


From 5810cfa65479e72b1b21f275effc975b6f5e5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 35/71] fix: raise a DecodeError on bytes that cannot be
 decoded

---
 jsons/_load_impl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 28abc3d..254c52f 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -188,7 +188,13 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        doc = bytes_.decode(encoding=encoding, errors='replace')
+        raise DecodeError('Could not load a dict; the given bytes could not '
+                          'be decoded.', bytes_, cls,
+                          JSONDecodeError(err.reason, doc, err.start)) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From f633c2021de84cc239028cced31d860778859360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 36/71] fix: load and strictly dump with any NewType

---
 jsons/_lizers_impl.py               | 7 +++----
 jsons/_load_impl.py                 | 7 ++++++-
 jsons/serializers/default_object.py | 2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 24365d7..301b2b4 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -118,14 +118,13 @@ def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
-        fork_inst: type,
-        recursive: bool = False) -> callable:
+        fork_inst: type) -> callable:
     cls_name = get_class_name(cls, str.lower, fully_qualified=True)
     lizer = (lizers.get(cls_name, None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
-    if not lizer and not recursive and hasattr(cls, '__supertype__'):
+    if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
-                          classes_lizers, fork_inst, True)
+                          classes_lizers, fork_inst)
     return lizer
 
 
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 254c52f..b51fb83 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -117,7 +117,12 @@ def _do_load(json_obj: object,
     if deserializer is None:
         raise DeserializationError('No deserializer for type "{}"'.format(cls_name), json_obj, cls)
     try:
-        result = deserializer(json_obj, cls, **kwargs)
+        cls_ = cls
+        while (hasattr(cls_, '__supertype__') and deserializer is
+               get_deserializer(cls_.__supertype__, kwargs['fork_inst'])):
+            # Deserializers do not need to know of any NewType.
+            cls_ = cls_.__supertype__
+        result = deserializer(json_obj, cls_, **kwargs)
         validate(result, cls, kwargs['fork_inst'])
     except Exception as err:
         clear()
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 8490dd4..f0ce358 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -58,6 +58,8 @@ def default_object_serializer(
     of ``obj``.
     """
     strip_attr = _normalize_strip_attr(strip_attr)
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__  # In case cls is a NewType.
     if cls in (Any, object):
         # Such a type does not tell how obj must be serialized.
         serializer = get_serializer(obj.__class__, fork_inst)
-- 
2.43.0


From 0e75f54301cd80b77034f12d6596e8be1e38a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 37/71] fix: dump a timezone whose type is given

---
 jsons/serializers/default_timezone.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..1af8e1a 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -1,14 +1,19 @@
 from datetime import timezone
+from typing import Optional
 
 from jsons._dump_impl import dump
 
 
-def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
+def default_timezone_serializer(obj: timezone,
+                                cls: Optional[type] = None,
+                                **kwargs) -> dict:
     """
     Serialize the given timezone instance to a dict holding the total
     seconds.
     :param obj: the timezone instance that is to be serialized.
-    :param kwargs: not used.
+    :param cls: not used.
+    :param kwargs: any keyword arguments that are passed to the serializer of
+    the offset.
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-- 
2.43.0


From f0ea1cf01a6085905bee82efabd6c6c38518434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 38/71] fix: do not strip attributes of instances as class
 variables

---
 jsons/serializers/default_object.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index f0ce358..436d992 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -78,7 +78,7 @@ def default_object_serializer(
     if cls and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
-            strip_attr, strict)
+            strip_attr, strict, _get_instance_attributes(obj))
     else:
         attributes = _get_attributes_from_object(
             obj, strip_privates, strip_properties, strip_class_variables,
@@ -191,12 +191,13 @@ def _get_attributes_from_class(
         strip_properties: bool,
         strip_class_variables: bool,
         strip_attr: tuple,
-        strict: bool) -> Dict[str, Optional[type]]:
+        strict: bool,
+        instance_attrs: frozenset) -> Dict[str, Optional[type]]:
     # Get the attributes that are known in the class.
     attributes_and_types = _get_attributes_and_types(cls, strict)
     return _filter_attributes(cls, attributes_and_types, strip_privates,
                               strip_properties, strip_class_variables,
-                              strip_attr)
+                              strip_attr, instance_attrs)
 
 
 def _get_attributes_from_object(
@@ -213,7 +214,15 @@ def _get_attributes_from_object(
                   for attr in dir(obj)}
     return _filter_attributes(cls, attributes, strip_privates,
                               strip_properties, strip_class_variables,
-                              strip_attr)
+                              strip_attr, _get_instance_attributes(obj))
+
+
+def _get_instance_attributes(obj: object) -> frozenset:
+    # Get the names of the attributes that are held by the object itself.
+    slots = [attr for cls in obj.__class__.__mro__
+             for attr, value in cls.__dict__.items()
+             if inspect.ismemberdescriptor(value)]
+    return frozenset([*getattr(obj, '__dict__', ()), *slots])
 
 
 @cached
@@ -243,7 +252,8 @@ def _filter_attributes(
         strip_privates: bool,
         strip_properties: bool,
         strip_class_variables: bool,
-        strip_attr: tuple) -> Dict[str, Optional[type]]:
+        strip_attr: tuple,
+        instance_attrs: frozenset) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
     excluded_elems = dir(JsonSerializable)
@@ -253,7 +263,8 @@ def _filter_attributes(
             if not attr.startswith('__')
             and not (strip_privates and attr.startswith('_'))
             and not (strip_properties and attr in props)
-            and not (strip_class_variables and attr in other_cls_vars)
+            and not (strip_class_variables and attr in other_cls_vars
+                     and attr not in instance_attrs)
             and attr not in strip_attr
             and attr != 'json'
             and not inspect.ismethod(getattr(cls, attr, None))
-- 
2.43.0


From ec960a734426a184153e9c71fbb146a829b5d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 39/71] fix: transform keys and strip nulls of named tuples

---
 jsons/serializers/default_tuple.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..874386a 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,4 +1,4 @@
-from typing import Union, Optional, Tuple
+from typing import Callable, Union, Optional, Tuple
 
 from typish import get_args
 
@@ -28,14 +28,35 @@ def default_tuple_serializer(obj: tuple,
     return default_iterable_serializer(obj, cls_, **kwargs)
 
 
-def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
+def default_namedtuple_serializer(
+        obj: tuple,
+        *,
+        key_transformer: Optional[Callable[[str], str]] = None,
+        strip_nulls: bool = False,
+        **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param key_transformer: a function that will be applied to all keys in the
+    resulting dict.
+    :param strip_nulls: if ``True`` the resulting dict will not contain null
+    values.
     :param kwargs: any keyword arguments that may be given to the serialization
     process.
     :return: a dict of which all elements are serialized.
     """
-    result = {field_name: dump(getattr(obj, field_name), **kwargs)
-              for field_name in obj._fields}
+    result = {}
+    # The meta kwarg store_cls is filtered out, because the elements should
+    # have their own -meta attribute.
+    kwargs_ = {**kwargs}
+    kwargs_.pop('_store_cls', None)
+    for field_name in obj._fields:
+        dumped_elem = dump(getattr(obj, field_name),
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           **kwargs_)
+        if strip_nulls and dumped_elem is None:
+            continue
+        key = key_transformer(field_name) if key_transformer else field_name
+        result[key] = dumped_elem
     return result
-- 
2.43.0


From 7f36ebf6698537459132c612eafb309cb4d7c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 40/71] fix: restore named tuples from a verbose dump

---
 jsons/serializers/default_object.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 436d992..6223ff6 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -343,6 +343,9 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
         cls = get_type(original_obj)
+        if hasattr(original_obj, '_fields'):
+            # A named tuple is dumped as a dict, unlike any other tuple.
+            cls = type(original_obj)
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From aca1f56c83b9f675514a0e5c118dfcb9353a2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 41/71] fix: resolve the name of the empty tuple type

---
 jsons/_common_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 50ed8df..8d5cdc0 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -97,7 +97,9 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
-    subtypes = [... if s == '...' else get_cls_from_str(s, source, fork_inst)
+    special_cases = {'...': ..., '()': ()}
+    subtypes = [special_cases[s] if s in special_cases
+                else get_cls_from_str(s, source, fork_inst)
                 for s in _split_subtypes(subtypes_str)]
     try:
         # A single subtype is not given as a tuple, e.g. for Optional.
-- 
2.43.0


From 4cf8e6b9d28d26c33bf6d5a26d52d02784b4f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:15 +0000
Subject: [PATCH 42/71] fix: strictly dump attrs instances with private
 attributes

---
 jsons/serializers/default_object.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 6223ff6..901a199 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -231,7 +231,11 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        attributes = dict(get_type_hints(cls))
+        for attr in getattr(cls, '__attrs_attrs__', ()):
+            if attr.name.startswith('_'):
+                # The constructor takes this attribute by its public name.
+                attributes.pop(attr.name.lstrip('_'), None)
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
-- 
2.43.0


From fa1f12b99e87d2dad722c01dc221a5a1cd51b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 43/71] fix: dump and load enum values that are not JSON values

---
 jsons/deserializers/default_enum.py | 20 +++++++++++++++++---
 jsons/serializers/default_enum.py   | 20 +++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/jsons/deserializers/default_enum.py b/jsons/deserializers/default_enum.py
index 6dd8b46..68d58b9 100644
--- a/jsons/deserializers/default_enum.py
+++ b/jsons/deserializers/default_enum.py
@@ -1,6 +1,8 @@
 from enum import EnumMeta
 from typing import Optional
 
+from jsons._dump_impl import dump
+
 
 def default_enum_deserializer(obj: str,
                               cls: EnumMeta,
@@ -23,10 +25,22 @@ def default_enum_deserializer(obj: str,
     if use_enum_name:
         result = cls[obj]
     elif use_enum_name is False:
-        result = cls(obj)
+        result = _from_value(obj, cls)
     else:  # use_enum_name is None
         try:
             result = cls[obj]
-        except KeyError:
-            result = cls(obj)  # May raise a ValueError (which is expected).
+        except (KeyError, TypeError):
+            # May raise a ValueError (which is expected).
+            result = _from_value(obj, cls)
     return result
+
+
+def _from_value(obj: object, cls: EnumMeta) -> object:
+    try:
+        return cls(obj)
+    except ValueError:
+        # The value of a member may not be a JSON value itself (e.g. a date).
+        for member in cls:
+            if dump(member.value, use_enum_name=False) == obj:
+                return member
+        raise
diff --git a/jsons/serializers/default_enum.py b/jsons/serializers/default_enum.py
index 2861ae8..6b31bcb 100644
--- a/jsons/serializers/default_enum.py
+++ b/jsons/serializers/default_enum.py
@@ -1,18 +1,28 @@
 from enum import EnumMeta
+from typing import Optional
+
+from jsons._common_impl import JSON_KEYS
+from jsons._dump_impl import dump
 
 
 def default_enum_serializer(obj: EnumMeta,
+                            cls: Optional[type] = None,
                             *,
                             use_enum_name: bool = True,
-                            **_) -> str:
+                            **kwargs) -> object:
     """
     Serialize the given obj. By default, the name of the enum element is
     returned.
     :param obj: an instance of an enum.
+    :param cls: not used.
     :param use_enum_name: determines whether the name or the value should be
     used for serialization.
-    :param _: not used.
-    :return: ``obj`` serialized as a string.
+    :param kwargs: any keyword arguments that may be given to the serialization
+    process.
+    :return: the name of ``obj`` or its serialized value.
     """
-    attr = 'name' if use_enum_name else 'value'
-    return getattr(obj, attr)
+    if use_enum_name:
+        return obj.name
+    if isinstance(obj.value, JSON_KEYS):
+        return obj.value
+    return dump(obj.value, use_enum_name=use_enum_name, **kwargs)
-- 
2.43.0


From d7a94ca38d9d037a93f1aa42dd78f1adc2793754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 44/71] fix: strictly dump elements of different types

---
 jsons/serializers/default_iterable.py | 21 ++++++++++++---------
 jsons/serializers/default_list.py     | 10 +++++++++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index 496b312..e666aad 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -2,7 +2,7 @@ from collections.abc import Iterable
 from multiprocessing import Process
 from typing import Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
@@ -33,9 +33,10 @@ def default_iterable_serializer(
     # its own -meta attribute.
     kwargs_ = {**kwargs, 'strict': strict}
     kwargs_.pop('_store_cls', None)
-    if strict:
-        cls_ = _determine_cls(obj, cls)
-        subclasses = _get_subclasses(obj, cls_)
+    if strict and cls:
+        subclasses = _get_subclasses(obj, cls)
+    elif strict:
+        subclasses = _infer_subclasses(obj)
     else:
         subclasses = _get_subclasses(obj, None)
 
@@ -73,8 +74,10 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
     return dump(*obj_cls_tuple, *args, **kwargs_)
 
 
-def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
-    cls_ = cls
-    if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        cls_ = get_type([obj[0]])
-    return cls_
+def _infer_subclasses(obj: Iterable) -> Tuple[Optional[type], ...]:
+    # Take the type of the first element for all elements that it applies to.
+    if not hasattr(obj, '__getitem__') or not len(obj):
+        return _get_subclasses(obj, None)
+    inferred_cls = type(obj[0])
+    return tuple(inferred_cls if isinstance(elem, inferred_cls) else None
+                 for elem in obj)
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..25b89b8 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -35,6 +35,7 @@ def default_list_serializer(
     kwargs_.pop('_store_cls', None)
 
     inner_type = None
+    inferred = False
     serializer = dump
 
     cls_args = get_args(cls)
@@ -43,6 +44,13 @@ def default_list_serializer(
         serializer = get_serializer(inner_type, fork_inst)
     elif strict:
         inner_type = type(obj[0])
+        inferred = True
         serializer = get_serializer(inner_type, fork_inst)
 
-    return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj]
+    def _dump_elem(elem):
+        if inferred and not isinstance(elem, inner_type):
+            # The type of the first element does not apply to this one.
+            return dump(elem, fork_inst=fork_inst, **kwargs_)
+        return serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_)
+
+    return [_dump_elem(elem) for elem in obj]
-- 
2.43.0


From 9c07fe11c740c81112a01ccb0988ff18aa1002fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 45/71] fix: let the types of a union win over meta information
 naming it

---
 jsons/deserializers/default_union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..83b5222 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -17,6 +17,8 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     deserialized successfully.
     """
+    # The types of the union take precedence over any meta info in obj.
+    kwargs = {**kwargs, '_inferred_cls': False}
     for sub_type in get_union_params(cls):
         try:
             return load(obj, sub_type, **kwargs)
-- 
2.43.0


From 83bcd9a987d341cc4e1223292991898e98776377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 46/71] fix: refuse elements for an empty tuple type

---
 jsons/deserializers/default_tuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index bc5fcf4..3935bb5 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -25,7 +25,7 @@ def default_tuple_deserializer(obj: list,
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
     cls_args = get_args(cls)
-    if cls_args:
+    if cls_args or getattr(cls, '__args__', None) == ():
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
-- 
2.43.0


From fba1efd45c4bc401723911d5910746272ca70ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 47/71] fix: load the other keys of a dict with hashed keys
 with the key type

---
 jsons/deserializers/default_dict.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index a237ff6..bb93b53 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -23,20 +23,21 @@ def default_dict_deserializer(
     """
     cls_args = get_args(cls)
 
-    obj_, keys_were_hashed = _load_hashed_keys(
+    obj_, loaded_keys = _load_hashed_keys(
         obj, cls, cls_args, key_transformer=key_transformer, **kwargs)
 
-    return _deserialize(obj_, cls_args, key_transformer, keys_were_hashed, kwargs)
+    return _deserialize(obj_, cls_args, key_transformer, loaded_keys, kwargs)
 
 
 def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, bool]:
+        **kwargs) -> Tuple[dict, set]:
     # Load any hashed keys and return a copy of the given obj if any hashed
-    # keys are unpacked.
+    # keys are unpacked, together with the loaded keys.
     result = obj
+    loaded_keys = set()
 
     stored_keys = set(obj.get('-keys', set()))
     if stored_keys:
@@ -55,18 +56,19 @@ def _load_hashed_keys(
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
+            loaded_keys.add(loaded_key)
             del result['-keys'][key]
             del result[key]
 
         del result['-keys']
-    return result, len(stored_keys) > 0
+    return result, loaded_keys
 
 
 def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Callable[[str], str],
-        keys_were_hashed: bool,
+        loaded_keys: set,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
@@ -77,13 +79,13 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
-        if not keys_were_hashed:
-            # In case of cls is something like Dict[<key>, <value>], we need to
-            # ensure that the keys in the result are <key>. If the keys were
-            # hashed though, they have been loaded already.
-            kwargs_k = {**kwargs, 'cls': cls_k}
-            transform = key_func
-            key_func = lambda key: load(transform(key), **kwargs_k)
+        # In case of cls is something like Dict[<key>, <value>], we need to
+        # ensure that the keys in the result are <key>. Any keys that were
+        # hashed though, have been loaded already.
+        kwargs_k = {**kwargs, 'cls': cls_k}
+        transform = key_func
+        key_func = lambda key: (transform(key) if key in loaded_keys
+                                else load(transform(key), **kwargs_k))
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
-- 
2.43.0


From 2f81481532133bc5bce63248a40b3f3807772516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 48/71] fix: use defaults and None for missing fields of named
 tuples as for other classes

---
 jsons/deserializers/default_tuple.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 3935bb5..ab0a6e1 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType, can_match_with_none
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
@@ -68,8 +67,12 @@ def default_namedtuple_deserializer(
             field = tfm_obj[field_name]
         elif not is_dict and index < len(obj):
             field = obj[index]
+        elif field_name in cls._field_defaults:
+            # A default is a value of the field already, it is not loaded.
+            args.append(cls._field_defaults[field_name])
+            continue
         else:
-            field = cls._field_defaults.get(field_name, None)
+            field = None
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
@@ -81,9 +84,7 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            is_present = field_name in tfm_obj if is_dict else index < len(obj)
-            if (NoneType not in (get_union_params(hint) or [])
-                    and not (is_present and can_match_with_none(hint))):
+            if not can_match_with_none(hint):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From af8be5382d00359b7641d7c7fd29bff02ae52dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 49/71] fix: keep (de)serializers and validators of classes
 with the same name apart

---
 jsons/_lizers_impl.py | 26 +++++++++++++++-----------
 jsons/_validation.py  |  7 +++----
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 301b2b4..2435aa0 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -7,7 +7,7 @@ deserializers.
 from typing import Optional, Dict, Sequence, Union
 
 from jsons._cache import cached, clear
-from jsons._common_impl import StateHolder, get_class_name
+from jsons._common_impl import NoneType, StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
 
@@ -40,10 +40,9 @@ def set_serializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         fork_inst._classes_serializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name.lower()] = func
+        fork_inst._serializers[_get_key(cls)] = func
     else:
-        fork_inst._serializers['nonetype'] = func
+        fork_inst._serializers[NoneType] = func
     clear()
 
 
@@ -77,10 +76,9 @@ def set_deserializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name.lower()] = func
+        fork_inst._deserializers[_get_key(cls)] = func
     else:
-        fork_inst._deserializers['nonetype'] = func
+        fork_inst._deserializers[NoneType] = func
     clear()
 
 
@@ -114,13 +112,20 @@ def get_deserializer(
     return deserializer
 
 
+def _get_key(cls: type) -> Union[type, str]:
+    # Different classes may have the same name, other types (e.g. Union) are
+    # registered by name.
+    if isinstance(cls, type) and cls is get_naked_class(cls):
+        return cls
+    return get_class_name(cls, str.lower, fully_qualified=True)
+
+
 def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
         fork_inst: type) -> callable:
-    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
-    lizer = (lizers.get(cls_name, None)
+    lizer = (lizers.get(_get_key(cls), None)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
     if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
@@ -136,8 +141,7 @@ def _get_lizer_by_parents(
     result = None
     parents = _get_parents(cls, classes_lizers)
     if parents:
-        pname = get_class_name(parents[0], str.lower, fully_qualified=True)
-        result = lizers[pname]
+        result = lizers[_get_key(parents[0])]
     return result
 
 
diff --git a/jsons/_validation.py b/jsons/_validation.py
index c2e8b57..33839d0 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -6,8 +6,8 @@ This module contains functionality for validating objects.
 from typing import Union, Sequence, Callable
 
 from jsons._cache import cached, clear
-from jsons._common_impl import StateHolder, get_class_name
-from jsons._lizers_impl import _get_lizer
+from jsons._common_impl import StateHolder
+from jsons._lizers_impl import _get_key, _get_lizer
 from jsons.exceptions import ValidationError
 
 
@@ -30,8 +30,7 @@ def set_validator(
         for cls_ in cls:
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name.lower()] = func
+        fork_inst._validators[_get_key(cls)] = func
         fork_inst._classes_validators.append(cls)
         clear()
 
-- 
2.43.0


From 0c415804aa0f08cf4c028e9215e434ec790560bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 50/71] fix: dump attributes that are named like a member of
 JsonSerializable

---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 901a199..8e62b61 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -260,7 +260,9 @@ def _filter_attributes(
         instance_attrs: frozenset) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    # Other classes may very well have attributes with these names.
+    excluded_elems = (dir(JsonSerializable) if issubclass(cls, StateHolder)
+                      else ())
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -270,7 +272,6 @@ def _filter_attributes(
             and not (strip_class_variables and attr in other_cls_vars
                      and attr not in instance_attrs)
             and attr not in strip_attr
-            and attr != 'json'
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From 688c9bc4e66986d266ce14ac671bfb1b16c64eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 51/71] fix: construct objects whose constructor does not name
 its instance self

---
 jsons/deserializers/default_object.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index a46f4cf..7e33cfc 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -65,18 +65,18 @@ def _get_constructor_args(
     attr_getters = dict(**(attr_getters or {}))
 
     result = {}
-    for sig_key, sig in signature_parameters.items():
-        if sig_key != 'self':
-            key, value = _get_value_for_attr(obj=obj,
-                                             orig_cls=cls,
-                                             meta_hints=meta_hints,
-                                             attr_getters=attr_getters,
-                                             sig_key=sig_key,
-                                             cls=hints.get(sig_key, None),
-                                             sig=sig,
-                                             **kwargs)
-            if key:
-                result[key] = value
+    # The first parameter is the instance itself, whatever its name.
+    for sig_key, sig in list(signature_parameters.items())[1:]:
+        key, value = _get_value_for_attr(obj=obj,
+                                         orig_cls=cls,
+                                         meta_hints=meta_hints,
+                                         attr_getters=attr_getters,
+                                         sig_key=sig_key,
+                                         cls=hints.get(sig_key, None),
+                                         sig=sig,
+                                         **kwargs)
+        if key:
+            result[key] = value
     return result
 
 
-- 
2.43.0


From 296c3f970eff784918d3d235db8b9906accb8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 52/71] fix: keep meta information when loading with a key
 transformer

---
 jsons/deserializers/default_object.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 7e33cfc..a51b5af 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -181,14 +181,28 @@ def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
     if key_transformer:
-        obj = {key_transformer(key): obj[key] for key in obj}
+        obj = {key if key == META_ATTR else key_transformer(key): obj[key]
+               for key in obj}
         kwargs = {
             **kwargs,
             'key_transformer': key_transformer
         }
+        if kwargs.get('meta_hints'):
+            # The hints are given with the keys as they were.
+            kwargs['meta_hints'] = {
+                _transform_path(path, key_transformer): hint
+                for path, hint in kwargs['meta_hints'].items()}
     return obj, kwargs
 
 
+def _transform_path(path: str, key_transformer: Callable[[str], str]) -> str:
+    # Transform the first key in the path (e.g. 'someAttr' in '/someAttr/x').
+    root, *keys = path.split('/')
+    if root == '' and keys and keys[0]:
+        keys[0] = key_transformer(keys[0])
+    return '/'.join([root, *keys])
+
+
 def _get_remaining_args(obj: dict,
                         cls: type,
                         constructor_args: dict,
-- 
2.43.0


From 059a85fc13b502d45a5293aa568bf5c169f092cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 53/71] fix: transform the keys of objects in tuples on loading

---
 jsons/deserializers/default_tuple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index ab0a6e1..7172885 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -34,10 +34,10 @@ def default_tuple_deserializer(obj: list,
             msg = ('Expected {} elements for "{}", but found {}'
                    .format(len(tuple_types), cls, len(obj)))
             raise DeserializationError(msg, obj, cls)
-        list_ = [load(value, tuple_types[i], **kwargs)
+        list_ = [load(value, tuple_types[i], key_transformer=key_transformer, **kwargs)
                  for i, value in enumerate(obj)]
     else:
-        list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
+        list_ = [load(value, key_transformer=key_transformer, **kwargs) for i, value in enumerate(obj)]
     return tuple(list_)
 
 
-- 
2.43.0


From 44fc43dbc5a30b0b7f7eb8763d095c804a0ffad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 54/71] fix: restore the classes of all nested values of a
 verbose dump

---
 jsons/_load_impl.py                        | 11 +++++++----
 jsons/deserializers/default_defaultdict.py |  3 ++-
 jsons/deserializers/default_list.py        |  3 ---
 jsons/deserializers/default_union.py       |  2 +-
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index b51fb83..254bb99 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -82,15 +82,17 @@ def load(
     if cls is object:
         # This is no more specific than giving no class at all.
         cls = None
+    # Is this the initial call or a nested?
+    initial = kwargs.get('_initial', True)
+
+    # The class of a nested value is only known from a type hint.
+    inferred_cls = not initial and not kwargs.get('_explicit_cls')
     original_cls = cls
     cls, meta_hints = _check_and_get_cls_and_meta_hints(
-        json_obj, cls, fork_inst, kwargs.get('_inferred_cls', False))
+        json_obj, cls, fork_inst, inferred_cls)
 
     deserializer = get_deserializer(cls, fork_inst)
 
-    # Is this the initial call or a nested?
-    initial = kwargs.get('_initial', True)
-
     if meta_hints and not initial:
         # Hints in json_obj itself replace those of an enclosing object.
         kwargs['meta_hints'] = meta_hints
@@ -103,6 +105,7 @@ def load(
         'attr_getters': attr_getters,
         '_initial': False,
         '_inferred_cls': cls is not original_cls,
+        '_explicit_cls': False,
     }
 
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index 2ad860e..b134619 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -28,5 +28,6 @@ def default_defaultdict_deserializer(
         key, value = get_args(cls)
         cls_ = Dict[key, value]
         default_factory = value
-    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs)
+    kwargs_ = {**kwargs, '_explicit_cls': True}
+    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs_)
     return defaultdict(default_factory, loaded)
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 79279ba..344f5e1 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -34,9 +34,6 @@ def default_list_deserializer(
     cls_args = get_args(cls)
     if cls_args:
         cls_ = cls_args[0]
-        # Mark the cls as 'inferred' so that later it is known where cls came
-        # from and the precedence of classes can be determined.
-        kwargs_['_inferred_cls'] = True
 
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index 83b5222..eec3718 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -18,7 +18,7 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     deserialized successfully.
     """
     # The types of the union take precedence over any meta info in obj.
-    kwargs = {**kwargs, '_inferred_cls': False}
+    kwargs = {**kwargs, '_explicit_cls': True}
     for sub_type in get_union_params(cls):
         try:
             return load(obj, sub_type, **kwargs)
-- 
2.43.0


From 2d4b81deb148dcfccc8dcb81a5e0da18b6611601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 55/71] fix: use the class hints of a verbose dump only for the
 attribute they belong to

---
 jsons/deserializers/default_object.py | 28 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index a51b5af..e751e76 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -119,10 +119,11 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
+def _rebase_hints(meta_hints: dict, prefix: str) -> dict:
+    # Return the hints for what is below prefix: prefix becomes the new root.
+    return {key[len(prefix):] or '/': meta_hints[key]  # Map '' to '/'.
+            for key in meta_hints
+            if key == prefix or key.startswith(prefix + '/')}
 
 
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
@@ -131,18 +132,14 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
     cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
     cls_from_meta = None
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
+    # Rebuild the class hints: those of other attributes do not apply here.
+    new_hints = _rebase_hints(meta_hints, cls_key)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
     return value
 
@@ -166,9 +163,14 @@ def _set_remaining_attrs(instance,
                             'that you did not provide an annotation in your '
                             'class (ending up in __annotations__).'
                             .format(attr_name), 'hashed-keys-without-hint')
-        attr_type = attr_type or type(remaining_attrs[attr_name])
-
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        if not attr_type and not (
+                kwargs['meta_hints']
+                and isinstance(remaining_attrs[attr_name], (dict, list))):
+            # There is no meta info that tells what to load.
+            attr_type = type(remaining_attrs[attr_name])
+
+        loaded_attr = _get_value_from_obj(remaining_attrs, attr_type, None,
+                                          attr_name, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
-- 
2.43.0


From cc4049fc446ff52874fe02d73fab59a183702566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 56/71] fix: let decorated functions keep their signature

---
 jsons/decorators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 6b54686..3d57cbe 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -2,6 +2,7 @@
 This module contains decorators that facilitate the `jsons` functions in an
 alternative fashion.
 """
+from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
@@ -105,6 +106,7 @@ def _get_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     def _wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
@@ -123,6 +125,7 @@ def _get_async_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     async def _async_wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
-- 
2.43.0


From d1ad3e3dffea7bea066a52f0c67ce592c5f389d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 57/71] fix: do not map self or cls of methods with a private
 name

---
 jsons/decorators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 3d57cbe..113a0f1 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -160,8 +160,13 @@ def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
         # Let the function raise on the arguments that it does not accept.
         return args, kwargs
 
+    # Methods with a private name are not found by their name.
+    scope = getattr(decorated, '__qualname__', '').rpartition('.')[0]
+    is_method = scope and not scope.endswith('<locals>')
+
     def _map_arg(arg, sig):
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
+        if (sig.name in ('self', 'cls') and (is_method or hasattr(
+                arg, decorated.__name__))):
             # `decorated` is a method and arg is either `self` or `cls`.
             return arg
         cls = sig.annotation if sig.annotation != Parameter.empty else None
-- 
2.43.0


From 56a45691f060a117531b39614184a37df6b917ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 58/71] fix: keep options bound by an earlier with_dump or
 with_load

---
 jsons/classes/json_serializable.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 3b3a92a..1321ae7 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -51,10 +51,14 @@ class JsonSerializable(StateHolder):
         :return: a class with customized behavior.
         """
 
+        # Also keep what an earlier ``with_dump`` provides.
+        bound = {**getattr(cls.dump, 'bound_kwargs', {}), **kwargs}
+
         def _wrapper(inst, **kwargs_):
             return dump(inst, **{'fork_inst': inst.__class__, **kwargs_,
-                                 **kwargs})
+                                 **bound})
 
+        _wrapper.bound_kwargs = bound
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
         return type_
@@ -84,12 +88,15 @@ class JsonSerializable(StateHolder):
         :return: a class with customized behavior.
         """
 
-        @classmethod
+        # Also keep what an earlier ``with_load`` provides.
+        bound = {**getattr(cls.load, 'bound_kwargs', {}), **kwargs}
+
         def _wrapper(cls_, inst, **kwargs_):
-            return load(inst, cls_, fork_inst=cls_, **{**kwargs_, **kwargs})
+            return load(inst, cls_, fork_inst=cls_, **{**kwargs_, **bound})
 
+        _wrapper.bound_kwargs = bound
         type_ = cls.fork() if fork else cls
-        type_.load = _wrapper
+        type_.load = classmethod(_wrapper)
         return type_
 
     @property
-- 
2.43.0


From 39eb9e61a6c7b6047455c55706d140a9df64c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 59/71] fix: resolve annotations given by name in decorators

---
 jsons/decorators.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 113a0f1..1eebe85 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -4,6 +4,7 @@ alternative fashion.
 """
 from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
+from typing import get_type_hints
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
 from jsons.exceptions import InvalidDecorationError
@@ -169,7 +170,7 @@ def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
                 arg, decorated.__name__))):
             # `decorated` is a method and arg is either `self` or `cls`.
             return arg
-        cls = sig.annotation if sig.annotation != Parameter.empty else None
+        cls = _get_type(decorated, sig.name, sig.annotation)
         return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
     new_args = [_map_arg(arg, sig) for arg, sig in zip(args, positionals)]
@@ -178,9 +179,22 @@ def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
     return new_args, new_kwargs
 
 
+def _get_type(func, name, annotation):
+    # Return the type that is meant with the annotation.
+    if annotation == Parameter.empty:
+        return None
+    if isinstance(annotation, str):
+        try:
+            annotation = get_type_hints(func)[name]
+        except (NameError, TypeError):
+            return annotation
+        return annotation if annotation is not type(None) else None
+    return annotation
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
-    cls = return_annotation if return_annotation != Parameter.empty else None
+    cls = _get_type(decorated, 'return', return_annotation)
     result = mapper(returnvalue, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
     return result
 
-- 
2.43.0


From bf30215b362d7f50d983b26768cdf9c535ead56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 60/71] fix: transform with mappers that are false as a
 condition

---
 jsons/_transform_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_transform_impl.py b/jsons/_transform_impl.py
index 195e202..53da873 100644
--- a/jsons/_transform_impl.py
+++ b/jsons/_transform_impl.py
@@ -35,6 +35,6 @@ def transform(
     dump_args_ = dump_args or []
     dump_kwargs_ = dump_kwargs or {}
     dumped = dump(obj, dump_cls, *dump_args_, **dump_kwargs_)
-    mapper_ = mapper or (lambda x: x)
+    mapper_ = (lambda x: x) if mapper is None else mapper
     dumped_mapped = mapper_(dumped)
     return load(dumped_mapped, cls, **kwargs)
-- 
2.43.0


From 856da2a7e67b8995b6012c3cd8431cb78636b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 61/71] fix: do not merge dict keys with the same dump or hash

---
 jsons/serializers/default_dict.py | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index cd8247c..7196b48 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -33,7 +33,8 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
-    numeric_keys = {key for key in obj if isinstance(key, (int, float))}
+    taken = {_transform(key, key_transformer)
+             for key in obj if _is_valid_json_key(key)}
     # The meta kwarg store_cls is filtered out, because the elements should
     # have their own -meta attribute.
     kwargs_ = {**kwargs}
@@ -53,22 +54,21 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key, numeric_keys,
+        dict_and_key = _store_and_hash(result, key, taken,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
         if dict_and_key:
             result, key = dict_and_key
-        if key_transformer and isinstance(key, str):
-            key = key_transformer(key)
-        result[key] = dumped_elem
+        result[_transform(key, key_transformer)] = dumped_elem
     return result
 
 
 def _store_and_hash(
         obj: dict,
         key: object,
-        numeric_keys: set,
+        taken: set,
+        key_transformer: Optional[Callable[[str], str]] = None,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -76,12 +76,18 @@ def _store_and_hash(
     result = None
     if not _is_valid_json_key(key):
         # First try to dump the key, that might be enough already.
-        dumped_key = dump(key, **kwargs)
+        dumped_key = dump(key, key_transformer=key_transformer, **kwargs)
         result = obj, dumped_key
-        if not _is_valid_json_key(dumped_key):
-            # Apparently, this was not enough; the key is still not "jsonable".
+
+        def _is_taken(key_):
+            return key_ in taken or key_ in obj
+
+        if (not _is_valid_json_key(dumped_key)
+                or _is_taken(_transform(dumped_key, key_transformer))):
+            # Apparently, this was not enough; the key is still not "jsonable"
+            # or it would replace another key.
             key_hash = hash(key)
-            while key_hash in obj or key_hash in numeric_keys:
+            while _is_taken(key_hash) or _is_taken(str(key_hash)):
                 key_hash += 1  # Different keys may have the same hash.
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
@@ -90,5 +96,14 @@ def _store_and_hash(
     return result
 
 
+def _transform(
+        key: object,
+        key_transformer: Optional[Callable[[str], str]]) -> object:
+    # Return the key in the style of the key_transformer, if there is any.
+    if key_transformer and isinstance(key, str):
+        return key_transformer(key)
+    return key
+
+
 def _is_valid_json_key(key: object) -> bool:
     return any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
-- 
2.43.0


From fbb1309a2b0ae6fed84ebdb85bce2c6d04ae7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 62/71] fix: load hashed keys that are equal to their hash

---
 jsons/deserializers/default_dict.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index bb93b53..6f41400 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -47,20 +47,17 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj, '-keys': {**obj['-keys']}}
+        result = {key: obj[key] for key in obj
+                  if key != '-keys' and key not in stored_keys}
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
+            original_key = obj['-keys'][key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
-            result[loaded_key] = result[key]
+            result[loaded_key] = obj[key]
             loaded_keys.add(loaded_key)
-            del result['-keys'][key]
-            del result[key]
-
-        del result['-keys']
     return result, loaded_keys
 
 
-- 
2.43.0


From bac80c088d0765d46bd9757008d3023873c26b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:26 +0000
Subject: [PATCH 63/71] fix: dump enum members that are dict keys like other
 enum members

---
 jsons/serializers/default_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 7196b48..7d860ed 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Callable, Dict, Optional, Tuple
 
 from jsons._common_impl import JSON_KEYS
@@ -106,4 +107,6 @@ def _transform(
 
 
 def _is_valid_json_key(key: object) -> bool:
-    return any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
+    # Enum members may be instances of int or str as well.
+    return (not isinstance(key, Enum)
+            and any(issubclass(type(key), json_key) for json_key in JSON_KEYS))
-- 
2.43.0


From d6ee96dc0ccec9361f558f82c46baebe829685a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 64/71] fix: load timedeltas that were keys of a dict from text

---
 jsons/deserializers/default_timedelta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_timedelta.py b/jsons/deserializers/default_timedelta.py
index 54b3739..a0e7e9d 100644
--- a/jsons/deserializers/default_timedelta.py
+++ b/jsons/deserializers/default_timedelta.py
@@ -11,4 +11,5 @@ def default_timedelta_deserializer(obj: float,
     :param kwargs: not used.
     :return: a ``datetime.timedelta`` instance.
     """
-    return timedelta(seconds=obj)
+    # A timedelta that was the key of a dict is a string in JSON.
+    return timedelta(seconds=float(obj) if isinstance(obj, str) else obj)
-- 
2.43.0


From 626e640c8f41ea9887cece45cf90902fe9a4bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 65/71] fix: name the attribute that failed to dump in the
 warning

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 8e62b61..66b3b95 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -153,7 +153,7 @@ def _do_serialize(
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err),
+                                .format(attr_name, get_class_name(cls), err),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From ea0bd553352252176944be151e9c5b4f8ce306e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 66/71] fix: do not dump inherited inner classes as attributes

---
 jsons/serializers/default_object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 66b3b95..b1de48c 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -361,8 +361,12 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-    return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+    if not isinstance(attr_obj, type):
+        return False
+    # The inner class may have been inherited.
+    return any(attr_obj.__module__ == elder.__module__
+               and attr_obj.__qualname__.startswith(elder.__qualname__ + '.')
+               for elder in get_mro(cls))
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From 890b9ee3d62794909dd2ca10902cc4ae9c9ef5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 67/71] fix: raise an UnknownClassError for any name that
 cannot be resolved

---
 jsons/_common_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 8d5cdc0..69265db 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -87,7 +87,7 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
         hash(cls)  # A type can be hashed, e.g. for looking up a deserializer.
-    except (ImportError, AttributeError, ValueError, TypeError):
+    except Exception:  # Importing a module may raise anything.
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
@@ -104,7 +104,7 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     try:
         # A single subtype is not given as a tuple, e.g. for Optional.
         return origin[tuple(subtypes) if len(subtypes) > 1 else subtypes[0]]
-    except TypeError:
+    except Exception:  # E.g. a KeyError if origin is an enum.
         return _lookup_announced_class(cls_str, source, fork_inst)
 
 
-- 
2.43.0


From d1a2f635963dac6e974aafdab273f55aa106c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 68/71] fix: resolve announced names that are those of builtin
 functions

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 69265db..30a0f9e 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -76,7 +76,7 @@ def _get_special_cases(cls: type):
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     cls = getattr(builtins, cls_str, None)
-    if cls:
+    if isinstance(cls, type):
         return cls
     if '[' in cls_str and ']' in cls_str:
         return _get_generic_cls_from_str(cls_str, source, fork_inst)
-- 
2.43.0


From 9a2d64156fcd3f56f58f76a8f990bd18fb35efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 69/71] fix: resolve announced names with brackets

---
 jsons/_common_impl.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 30a0f9e..87c6412 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -96,11 +96,16 @@ def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
     origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
-    origin = get_cls_from_str(origin_str, source, fork_inst)
     special_cases = {'...': ..., '()': ()}
-    subtypes = [special_cases[s] if s in special_cases
-                else get_cls_from_str(s, source, fork_inst)
-                for s in _split_subtypes(subtypes_str)]
+    try:
+        origin = get_cls_from_str(origin_str, source, fork_inst)
+        subtypes = [special_cases[s] if s in special_cases
+                    else get_cls_from_str(s, source, fork_inst)
+                    for s in _split_subtypes(subtypes_str)]
+    except UnknownClassError:
+        if cls_str not in fork_inst._announced_classes:
+            raise
+        return _lookup_announced_class(cls_str, source, fork_inst)
     try:
         # A single subtype is not given as a tuple, e.g. for Optional.
         return origin[tuple(subtypes) if len(subtypes) > 1 else subtypes[0]]
-- 
2.43.0


From 357cf6da85e178b700b06f8550611b8e875141fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 70/71] fix: resolve the name of the type of None

---
 jsons/_common_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 87c6412..b81b5c1 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -75,7 +75,9 @@ def _get_special_cases(cls: type):
 
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
-    cls = getattr(builtins, cls_str, None)
+    # The type of None is not among the names of builtins.
+    cls = (NoneType if cls_str == NoneType.__name__
+           else getattr(builtins, cls_str, None))
     if isinstance(cls, type):
         return cls
     if '[' in cls_str and ']' in cls_str:
-- 
2.43.0


From 258c24bb0462cb4615f009651fe0698292be6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 71/71] fix: do not confuse unions that hold the same types in
 another order

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 509967d..0891e61 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -51,8 +51,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Not cached; unions with the same types in another order are equal.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0

