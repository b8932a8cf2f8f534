From 9f5a5a5363b8a8e1551cfaf439e0f4e5d8f1177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 01/12] fix: Text emits an empty string when the number of
 words is zero

---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..f57bca2 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,11 +287,13 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(length - 1 for length in lengths if length)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
+            render = []
             if length:
-                render = [next(words)]
+                render.append(next(words))
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From 7ea83d8a7b583c967cdc5bf9121bc5400ddbf862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 02/12] fix: Setting a BasedOnFields action no longer uses up
 source field data

---
 src/fauxdoc/emitters/fromfields.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..96b9d46 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -237,6 +237,15 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
         """
         self.action = BoundWrapper(function, self)
 
+    @staticmethod
+    def _peek(field: FieldLike[SourceT]) -> FieldReturn[SourceT]:
+        """Gets a source field's value without using up its data."""
+        value = field.previous
+        if value is None:
+            value = field()
+            field.reset()
+        return value
+
     @property
     def action(self) -> BoundWrapper[FieldReturn[SourceT], OutputT]:
         """The 'action' attribute."""
@@ -252,11 +261,11 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
         """
         self._action = action
         if len(self.source) == 1:
-            args = [self.source[0]()]
+            args = [self._peek(self.source[0])]
             kwargs = {}
         else:
             args = []
-            kwargs = {field.name: field() for field in self.source}
+            kwargs = {f.name: self._peek(f) for f in self.source}
         try:
             self._action.try_mock_call(*args, **kwargs)
         except TypeError:
-- 
2.43.0


From 9e227057a4fee62a0448687d6def835ff0280fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 03/12] fix: do_method no longer hides errors raised by the
 methods it runs

---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..a071dd3 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -51,9 +51,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From 08b044127107dad036e6b6aeb26e64f7728bc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 04/12] fix: Seeding no longer hides errors raised while
 seeding the parent

---
 src/fauxdoc/mixins.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..7315db6 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -154,7 +154,4 @@ class RandomWithChildrenMixin(RandomMixin, ChildrenMixin):
     def seed(self, rng_seed: Any) -> None:
         """Seeds RNG for this emitter and all children."""
         self._emitters.do_method('seed', rng_seed)
-        try:
-            super().seed(rng_seed)
-        except AttributeError:
-            pass
+        super().seed(rng_seed)
-- 
2.43.0


From a27887e988aab98fe4b7c804cf48a5e22f47591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 05/12] fix: Count unique values even if items are not hashable

---
 src/fauxdoc/emitters/choice.py |  2 +-
 src/fauxdoc/mixins.py          | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..d366cfc 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return self._count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index 7315db6..7113f56 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -92,7 +92,16 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return self._count_unique(self._items)
+
+    @staticmethod
+    def _count_unique(values: Sequence[T]) -> int:
+        """Counts the unique values in a sequence."""
+        try:
+            return len(set(values))
+        except TypeError:
+            # Some values aren't hashable: compare them one by one.
+            return sum(val not in values[:i] for i, val in enumerate(values))
 
 
 class ChildrenMixin:
-- 
2.43.0


From 03f9d2e3066dcfdc89a0e688c022636fc41c1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 06/12] fix: Choice rejects empty weights, as it does any other
 wrong number

---
 src/fauxdoc/emitters/choice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index d366cfc..953ab7a 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -111,7 +111,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
                 f"The 'items' argument must be a non-empty sequence. "
                 f"(Provided: {items})"
             )
-        if weights and cum_weights:
+        if weights is not None and cum_weights is not None:
             raise TypeError(
                 "Only one of 'weights' or 'cum_weights' (cumulative weights) "
                 "may be supplied -- not both."
@@ -121,8 +121,8 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         self._replace = replace or replace_only_after_call
         self._replace_only_after_call = replace_only_after_call
         self.noun = noun
-        weights_to_set = weights or cum_weights
-        weights_are_cumulative = bool(cum_weights)
+        weights_are_cumulative = cum_weights is not None
+        weights_to_set = cum_weights if weights_are_cumulative else weights
         self._set_all_weights(weights_to_set, weights_are_cumulative, items)
         super().__init__(items=items, rng_seed=rng_seed)
 
-- 
2.43.0


From 7a122766fbdb198b94967a3122e7624a0c32499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 07/12] fix: dtrange gives an empty range if stop is not ahead
 of start

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..85cc905 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -354,4 +354,4 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 97f67c3a8980e81198cab4c5133081f35a3c8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 08/12] fix: dtrange supports full-clock time ranges with a
 negative step

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 85cc905..6cedc7d 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,7 +349,7 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        stop_refdate = start_refdate + timedelta(days=1 if step > 0 else -1)
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-- 
2.43.0


From 600daebf434c1f0c84a99cb9c0eb7cd98fb2c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 09/12] fix: Searching a range for an incompatible date/time
 value finds nothing

---
 src/fauxdoc/dtrange.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 6cedc7d..a3e28a0 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -240,7 +240,12 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # Not comparable, e.g. a datetime and a date, or one is
+                # timezone-aware and the other isn't.
+                raise ValueError(f'{value} is not in range')
             if not rem and index in self._index_range[start:stop]:
                 return index
         raise ValueError(f'{value} is not in range')
-- 
2.43.0


From ad93969813c4ffd7d24a41f67eaf09d0d3c379c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 10/12] fix: Equal ranges hash equally even if one is of a
 subclass

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index a3e28a0..7791171 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -224,7 +224,7 @@ class DateOrTimeRange(Sequence[DT]):
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self.step if my_len > 1 else None
-        return hash((type(self), my_len, start, step))
+        return hash((DateOrTimeRange, my_len, start, step))
 
     def index(self,
               value: DT,
-- 
2.43.0


From 482e8945d73967906d4ac2ba37b194eb4a28b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 11/12] fix: Time ranges keep the timezone of their start time

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 7791171..c2dcd29 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From 58f6bf7cbfd86fdace234c2e99f3e5b3ced64642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 12/12] fix: parts that count as false are used, not replaced
 by the default

A gate, repeat or separator emitter whose truth value is false (one with
a length of zero, say) was silently swapped for the default emitter.
---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index f57bca2..0177071 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -190,7 +190,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..e1facb9 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0

