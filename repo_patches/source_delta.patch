From 35d31b6eb8299b182e0e5fb8c5d27e32cd313ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 01/36] fix: a missing wildcard is one combination, not
 endlessly many

Combinatorial generation repeated the literal fallback of a missing wildcard
forever: '{a|b} __missing__' never reached 'b', and '{a|__missing__}' hung.
---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..728e04a 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -148,7 +148,8 @@ class CombinatorialSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
-            yield from get_wildcard_not_found_fallback(command, context)
+            # The fallback repeats forever, but it is a single combination.
+            yield next(get_wildcard_not_found_fallback(command, context))
             return
 
         for val in values.iterate_string_values_weighted():
-- 
2.43.0


From 0a2bd4f726d1959e2f7a9c31d8089357abd0ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 02/36] fix: a missing wildcard inside a variant falls back to
 its literal text

'{__missing__}' and '{2$$__missing__}' raised RuntimeError/StopIteration (or
produced nothing) in every sampler, unlike a missing wildcard anywhere else.
---
 src/dynamicprompts/samplers/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 25ec8bb..22e9003 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -4,6 +4,7 @@ import logging
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     VariantOption,
     WildcardCommand,
@@ -26,13 +27,17 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    min_bound = min(min_bound, len(values))
-    max_bound = min(max_bound, len(values))
-
-    variant_options = [
-        VariantOption(parse(v, parser_config=context.parser_config))
-        for v in values.iterate_string_values_weighted()
-    ]
+    if values:
+        variant_options = [
+            VariantOption(parse(v, parser_config=context.parser_config))
+            for v in values.iterate_string_values_weighted()
+        ]
+    else:
+        logger.warning(f"No values found for wildcard {wildcard!r}")
+        wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)
+        variant_options = [VariantOption(LiteralCommand(wrapped_wildcard))]
+    min_bound = min(min_bound, len(values) or 1)
+    max_bound = min(max_bound, len(values) or 1)
 
     wildcard_variant = VariantCommand(
         variant_options,
-- 
2.43.0


From 3801c0e7ca73fda12f4a75a0bd4d4c4bea06a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:35 +0000
Subject: [PATCH 03/36] fix: keep a wildcard's parameters when it is a
 variant's only option

'{__w(x=1)__}' and '{2$$__w(x=1)__}' dropped the parameters, so values using
${x} raised KeyError or used their default.
---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 728e04a..5f66345 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..af78dc0 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..1326c24 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -77,7 +77,10 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(command.values[0].variables),
+                )
             else:
                 yield from context.generator_from_command(
                     command.values[0],
-- 
2.43.0


From 8f9bd56a7c9d089e53290d66b5a09e19b6dc3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:41 +0000
Subject: [PATCH 04/36] fix: keep weights aligned with the remaining values
 when choosing several

choose_without_replacement removed the first *equal* weight instead of the
chosen value's own one, so later picks used the wrong weights (even an option
of weight 0 could be picked), and it returned a value for zero choices.
---
 src/dynamicprompts/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..ae296f0 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -88,12 +88,13 @@ def choose_without_replacement(
     if len(values) == 0:
         return []
     elif len(values) == 1:
-        return values
+        return values[:num_choices]
     else:
         chosen_values = []
         for _ in range(num_choices):
             chosen = rand.choices(values, weights=weights, k=1)[0]
             chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
+            index = values.index(chosen)
+            del weights[index]
+            del values[index]
         return chosen_values
-- 
2.43.0


From 0c58e3cb5f0b518daef2309ffdde37b7f8436fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:47 +0000
Subject: [PATCH 05/36] fix: honour a zero bound of a variant with a single
 option

Random sampling of '{0$$a}' always gave 'a', and '{0-1$$a}' never gave ''.
---
 src/dynamicprompts/samplers/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 1326c24..f195fc7 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -81,11 +81,12 @@ class RandomSampler(Sampler):
                     wildcard_variant,
                     context.with_variables(command.values[0].variables),
                 )
-            else:
+                return
+            if command.min_bound > 0:
                 yield from context.generator_from_command(
                     command.values[0],
                 )
-            return
+                return
         while True:
             command = command.adjust_range()
 
-- 
2.43.0


From d90c8d3c9b697c30427bdf1b1578d2a041c58b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 06/36] fix: use weights, not repetition, for a wildcard inside
 a random variant

Values of a weighted wildcard were repeated by their integer weight, so
'{2$$__weighted__}' could pick one value twice ('x,x') and values with a weight
below 1 could never be picked.
---
 src/dynamicprompts/samplers/random.py |  1 +
 src/dynamicprompts/samplers/utils.py  | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index f195fc7..ba41d8b 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -75,6 +75,7 @@ class RandomSampler(Sampler):
                     min_bound=command.min_bound,
                     max_bound=command.max_bound,
                     separator=command.separator,
+                    repeat_weighted=False,
                 )
 
                 yield from self._get_variant(
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 22e9003..8ebea58 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -24,14 +24,23 @@ def wildcard_to_variant(
     min_bound=1,
     max_bound=1,
     separator=",",
+    repeat_weighted=True,
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    if values:
+    if values and repeat_weighted:
         variant_options = [
             VariantOption(parse(v, parser_config=context.parser_config))
             for v in values.iterate_string_values_weighted()
         ]
+    elif values:
+        variant_options = [
+            VariantOption(
+                parse(str(item), parser_config=context.parser_config),
+                weight=getattr(item, "weight", 1.0),
+            )
+            for item in values
+        ]
     else:
         logger.warning(f"No values found for wildcard {wildcard!r}")
         wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)
-- 
2.43.0


From dad56ef05e734bbbc95dba0308dfaac2f0670dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:08 +0000
Subject: [PATCH 07/36] fix: let variable assignments see the assignments
 before them

'${x=a}${x?=b}' overwrote x although it was set, and an immediate assignment
using an earlier variable ('${x=a}${y=!${x}}') raised KeyError.
---
 src/dynamicprompts/sampling_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..148e861 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -151,7 +151,11 @@ class SamplingContext:
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Earlier assignments are visible to later ones
+                context = self.with_variables(new_variables)
+                new_variables[command.name] = context.process_variable_assignment(
+                    command,
+                )
             else:
                 new_commands.append(command)
         if new_variables:
-- 
2.43.0


From 256d376b25efaa1f423eab34cb86d946e9213f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 08/36] fix: name the wildcard that was missing when its path
 is random

The fallback sampled the path a second time, so '__{a|zz}__' could yield the
literal '__a__' although wildcard 'a' exists and 'zz' was the missing one.
---
 src/dynamicprompts/samplers/random.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index ba41d8b..40f4872 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import dataclasses
 import logging
 from random import Random
 from typing import Iterator
@@ -124,6 +125,8 @@ class RandomSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if len(values) == 0:
+            # The path may contain random parts; report the one that was looked up
+            command = dataclasses.replace(command, wildcard=wildcard_path)
             yield from get_wildcard_not_found_fallback(command, context)
             return
 
-- 
2.43.0


From 84af2a7264a011edf5e7aa7e26a9e3725384457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:58 +0000
Subject: [PATCH 09/36] fix: let a variant combine two equal wildcards

'{2$$__colours__|__colours__}', as in the syntax documentation, produced
nothing in combinatorial mode (and hung in cyclical mode), because choosing one
option also ruled out every option equal to it.
---
 src/dynamicprompts/commands/variant_command.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..3c39c8a 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -86,7 +86,14 @@ class VariantCommand(Command):
         if k <= 0:
             yield []
         else:
-            for value in values:
-                other_values = [v for v in values if v != value]
+            for i, value in enumerate(values):
+                # Equal literals would only repeat each other; other equal
+                # commands (e.g. the same wildcard twice) may still differ.
+                is_literal = isinstance(value, LiteralCommand)
+                other_values = [
+                    v
+                    for j, v in enumerate(values)
+                    if j != i and not (is_literal and v == value)
+                ]
                 for item in self.get_value_combinations(k - 1, values=other_values):
                     yield [value] + item
-- 
2.43.0


From 778f1dc534944200a1e5b54f284e1c930e16436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 10/36] fix: end instead of looping forever when a cyclical
 variant has no combinations

'{@2$$a|a}' hung: with no combination to cycle through, the sampler kept
restarting an empty cycle. It is now an empty result, as in combinatorial mode.
---
 src/dynamicprompts/samplers/base.py  | 6 +++++-
 src/dynamicprompts/samplers/cycle.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..a739842 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -76,7 +76,11 @@ class Sampler:
         sub_generators = [context.generator_from_command(c) for c in tokens]
 
         while True:
-            yield rotate_and_join(sub_generators, separator=command.separator)
+            try:
+                result = rotate_and_join(sub_generators, separator=command.separator)
+            except StopIteration:  # A part that can't produce anything
+                return
+            yield result
 
     def _get_literal(
         self,
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index af78dc0..ab197d5 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -94,8 +94,8 @@ class CyclicalSampler(Sampler):
                 for combo in combinations
             )
 
-            while True:
-                yield from next_sampler_next_value(cycle(combination_samplers))
+            # Endless, unless there are no combinations at all
+            yield from next_sampler_next_value(cycle(combination_samplers))
 
     def _get_wildcard(
         self,
-- 
2.43.0


From 123786be606fbbd2c9a828a467a22e698451dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:11 +0000
Subject: [PATCH 11/36] fix: an empty part of a combinatorial sequence means no
 prompts, not an error

'x {2$$a|a}' raised RuntimeError('generator raised StopIteration') while
'{2$$a|a}' alone yields no prompts.
---
 src/dynamicprompts/samplers/command_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..e179e38 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -16,7 +16,9 @@ class CommandCollection:
     def __init__(self, commands: Iterable[Command], context: SamplingContext) -> None:
         self._commands = list(commands)
         self._generators = [context.generator_from_command(c) for c in self._commands]
-        self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
+        self._values: list[SamplingResult | None] = [
+            next(g, None) for g in self._generators
+        ]
 
     def get_value(self, command: Command) -> SamplingResult | None:
         try:
-- 
2.43.0


From d54f4aabb70a542367390e7f8ad2ea008c78d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 12/36] fix: advance equal cyclical parts of a combinatorial
 prompt separately

In '{x|y} {@a|b} {@a|b}' both cyclical parts shared one generator, so they
advanced twice per prompt and got out of step ('x b a', 'y b a').
---
 src/dynamicprompts/samplers/command_collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index e179e38..5ccceab 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -22,7 +22,14 @@ class CommandCollection:
 
     def get_value(self, command: Command) -> SamplingResult | None:
         try:
-            index = self._commands.index(command)
+            # Equal commands (e.g. two "{@a|b}") each have their own generator,
+            # so look for the very same command first.
+            index = next(
+                (i for i, c in enumerate(self._commands) if c is command),
+                None,
+            )
+            if index is None:
+                index = self._commands.index(command)
         except ValueError:
             raise ValueError(f"Command {command} not in collection") from None
 
-- 
2.43.0


From 7ca1f610e431aeb56d1ab53718cbad569a141b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:10 +0000
Subject: [PATCH 13/36] fix: build the wildcard tree in a fixed order, whatever
 order the OS lists files in

---
 src/dynamicprompts/wildcards/tree/build.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 9c94a84..09f0a9f 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -64,8 +64,9 @@ def build_tree_from_path(root_path: Path) -> WildcardTree:
     path_to_file: dict[str, WildcardCollection] = {}
 
     for dirname, dirnames, filenames in os.walk(root_path, followlinks=True):
-        dirnames[:] = [d for d in dirnames if not d.startswith(".")]
-        for filename in filenames:
+        # Sorted, so the result doesn't depend on the order the OS lists files in
+        dirnames[:] = sorted(d for d in dirnames if not d.startswith("."))
+        for filename in sorted(filenames):
             path_to_file.update(
                 _get_wildcard_collections_from_path(
                     file_path=Path(dirname) / filename,
-- 
2.43.0


From f1a7ae04a91b1818dbd720c6761d0b7c9bec9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:35 +0000
Subject: [PATCH 14/36] fix: draw weighted wildcard values one by one, so
 per-prompt seeds determine them

---
 src/dynamicprompts/wildcards/values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..b754946 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -115,10 +115,10 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # One at a time, so that reseeding `rng` between values
+                # determines the next value.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
+                    k=1,
                 )
-- 
2.43.0


From bcf07fbd978bea68973e3832ebb2c4d6c8fb46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:05 +0000
Subject: [PATCH 15/36] fix: honour seeds=0

---
 src/dynamicprompts/generators/randomprompt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..e782081 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -54,10 +54,10 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
-            if isinstance(seeds, int):
-                seeds = [seeds]
+        if isinstance(seeds, int):  # 0 is a seed too
+            seeds = [seeds]
 
+        if seeds:
             if len(seeds) == 1:
                 seeds = seeds * num_images
 
-- 
2.43.0


From e584dba9b18ab74738cf39be77a14f7b0f07c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:25 +0000
Subject: [PATCH 16/36] fix: return no prompts for an empty template, also when
 seeds are given

---
 src/dynamicprompts/generators/randomprompt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index e782081..26968b7 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -64,11 +64,14 @@ class RandomPromptGenerator(PromptGenerator):
             if len(seeds) != num_images:
                 raise ValueError(f"Expected {num_images} seeds, but got {len(seeds)}")
 
-            gen = self._context.sample_prompts(template, num_images)
+            gen = iter(self._context.sample_prompts(template, num_images))
             prompts = []
             for seed in seeds:
                 self._context.rand.seed(seed)
-                prompts.append(str(next(iter(gen))))
+                prompt = next(gen, None)
+                if prompt is None:  # e.g. an empty template
+                    break
+                prompts.append(str(prompt))
         else:
             prompts = [
                 str(p) for p in self._context.sample_prompts(template, num_images)
-- 
2.43.0


From 50cd31a2da6b7163a5f967924fe01453f5e95b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 17/36] fix: read the weight of a structured wildcard value
 that itself contains '::'

---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..eaf9a32 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -24,7 +24,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         if isinstance(item, str):
             # See if the item _could_ have a prefix weight before attempting to parse.
             if item[0].isdigit() and "::" in item:
-                weight_text, _, content = item.rpartition("::")
+                weight_text, _, content = item.partition("::")
                 try:
                     yield WildcardItem(content=content, weight=float(weight_text))
                     continue
-- 
2.43.0


From f51179bab45e082eb486a06b79e12728ccf27137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 18/36] fix: keep the full directory name of structured
 wildcard files

---
 src/dynamicprompts/wildcards/tree/build.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 09f0a9f..110f600 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -36,10 +36,10 @@ def _get_wildcard_collections_from_path(
         return
 
     if file_path.suffix in (".json", ".yaml"):
-        pantry_root_prefix = _get_wildcard_file_name_from_path(
-            path=file_path.parent,
-            root_path=root_path,
-        )
+        # The directory's name, whole: a dot in it doesn't start a suffix
+        pantry_root_prefix = file_path.parent.relative_to(root_path).as_posix()
+        if pantry_root_prefix == ".":
+            pantry_root_prefix = ""
         if pantry_root_prefix:
             # Suffix the / here, so we don't need to worry about pantries
             # in the root later
-- 
2.43.0


From be05fe8f45364e6c647a1e6abc1fddd4521e08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:59 +0000
Subject: [PATCH 19/36] fix: return sorted values again after shuffling is
 turned off

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..17ca93b 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -196,7 +196,9 @@ class WildcardManager:
         if self.dedup_wildcards:
             wildcards = list(dict.fromkeys(wildcards, None))
 
-        if self.sort_wildcards and not self.shuffle_wildcards:
+        # Shuffling is applied to a copy by `get_values`, so the cached values
+        # stay right when it's turned off later.
+        if self.sort_wildcards:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
-- 
2.43.0


From a1d86b241f804b6322501b6ee69d2176c23d6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:36 +0000
Subject: [PATCH 20/36] fix: replace a wildcard file in one step, so a failed
 save keeps the old contents

---
 .../wildcards/collection/text_file.py         | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/text_file.py b/src/dynamicprompts/wildcards/collection/text_file.py
index c05789f..8321907 100644
--- a/src/dynamicprompts/wildcards/collection/text_file.py
+++ b/src/dynamicprompts/wildcards/collection/text_file.py
@@ -1,5 +1,9 @@
 from __future__ import annotations
 
+import contextlib
+import os
+import shutil
+import threading
 from pathlib import Path
 
 from dynamicprompts.constants import DEFAULT_ENCODING
@@ -42,6 +46,25 @@ class WildcardTextFile(WildcardCollection):
     def write_text(self, contents: str) -> None:
         """
         Rewrite the file's contents with the given string.
+
+        The new contents replace the old ones in one step: if writing fails,
+        or the process dies meanwhile, the file keeps its old contents.
         """
-        self._path.write_text(contents, encoding=self._encoding)
-        self._cache = None
+        target = Path(os.path.realpath(self._path))
+        temp = target.with_name(
+            f".{target.name}.{os.getpid()}-{threading.get_ident()}.tmp",
+        )
+        try:
+            with temp.open("w", encoding=self._encoding) as f:
+                f.write(contents)
+                f.flush()
+                os.fsync(f.fileno())
+            if target.exists():
+                shutil.copymode(target, temp)
+            os.replace(temp, target)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                temp.unlink()
+            raise
+        finally:
+            self._cache = None
-- 
2.43.0


From d27e47f258cc7f79b6bcab9a93fd3dbc16a3566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:43 +0000
Subject: [PATCH 21/36] fix: let threads share a wildcard manager

---
 .../wildcards/wildcard_manager.py             | 108 +++++++++++++-----
 1 file changed, 79 insertions(+), 29 deletions(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 17ca93b..037662f 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
+import dataclasses
 import logging
+import threading
 import warnings
 from pathlib import Path
 from typing import TYPE_CHECKING, Iterable
@@ -20,6 +22,25 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
+# Serializes changes of managers' states.
+_state_lock = threading.Lock()
+
+
+@dataclasses.dataclass
+class _State:
+    """
+    The settings of a wildcard manager and everything cached under them.
+
+    Replaced as a whole when it becomes outdated, so threads still working with
+    an old state can't put outdated values into the new one.
+    """
+
+    sort: bool = True
+    dedup: bool = True
+    shuffle: bool = False
+    tree: WildcardTree | None = None
+    values: dict[str, WildcardValues] = dataclasses.field(default_factory=dict)
+
 
 class WildcardManager:
     def __init__(
@@ -36,11 +57,7 @@ class WildcardManager:
         """
         self._path: Path | None = Path(path) if path else None
         self._wildcard_wrap = wildcard_wrap
-        self._tree: WildcardTree | None = None
-        self._values_cache: dict[str, WildcardValues] = {}
-        self._sort_wildcards = True
-        self._dedup_wildcards = True
-        self.shuffle_wildcards = False
+        self._state = _State()
         self._root_map = {}
         if root_map:
             if self._path:
@@ -54,24 +71,33 @@ class WildcardManager:
         """
         Whether to sort wildcard values.
         """
-        return self._sort_wildcards
+        return self._state.sort
 
     @sort_wildcards.setter
     def sort_wildcards(self, value: bool) -> None:
-        self._sort_wildcards = value
-        self.clear_cache()
+        self._reset_state(sort=value)
 
     @property
     def dedup_wildcards(self) -> bool:
         """
         Whether to deduplicate wildcard values.
         """
-        return self._dedup_wildcards
+        return self._state.dedup
 
     @dedup_wildcards.setter
     def dedup_wildcards(self, value: bool) -> None:
-        self._dedup_wildcards = value
-        self.clear_cache()
+        self._reset_state(dedup=value)
+
+    @property
+    def shuffle_wildcards(self) -> bool:
+        """
+        Whether to shuffle wildcard values.
+        """
+        return self._state.shuffle
+
+    @shuffle_wildcards.setter
+    def shuffle_wildcards(self, value: bool) -> None:
+        self._reset_state(shuffle=value)
 
     @property
     def path(self) -> Path | None:
@@ -112,27 +138,49 @@ class WildcardManager:
 
         If the tree has not been built yet, it will be built from the configured root(s).
         """
-        if self._tree is None:
-            self._tree = build_tree_from_root_map(self._root_map)
-        return self._tree
+        return self._get_tree(self._state)
+
+    def _get_tree(self, state: _State) -> WildcardTree:
+        tree = state.tree
+        if tree is None:
+            tree = state.tree = build_tree_from_root_map(self._root_map)
+        return tree
+
+    def _reset_state(self, **changes: bool) -> None:
+        """
+        Forget everything cached, applying the given changes of settings.
+        """
+        with _state_lock:
+            self._state = dataclasses.replace(
+                self._state,
+                tree=None,
+                values={},
+                **changes,
+            )
 
     def clear_cache(self) -> None:
         """
         Clear the cache of the wildcard manager.
         """
-        self._tree = None
-        self._values_cache.clear()
+        self._reset_state()
 
     def match_collections(self, wildcard: str) -> Iterable[WildcardCollection]:
         """
         Find `WildcardCollection` objects that match the given glob pattern.
         """
+        return self._match_collections(wildcard, self._state)
+
+    def _match_collections(
+        self,
+        wildcard: str,
+        state: _State,
+    ) -> Iterable[WildcardCollection]:
         try:
             wildcard = clean_wildcard(wildcard, wildcard_wrap=self._wildcard_wrap)
         except ValueError:
             logger.warning(f"Invalid wildcard: {wildcard}", exc_info=True)
             return []
-        return self.tree.match_collections(wildcard)
+        return self._get_tree(state).match_collections(wildcard)
 
     def get_file(self, name: str) -> WildcardCollection:
         """
@@ -160,27 +208,29 @@ class WildcardManager:
         """
         Get all wildcard values matching the given wildcard pattern.
         """
-        values = self._get_values(wildcard)
+        state = self._state
+        values = self._get_values(wildcard, state)
 
-        if self.shuffle_wildcards:
+        if state.shuffle:
             values = values.shuffled()
 
         return values
 
-    def _get_values(self, wildcard: str) -> WildcardValues:
+    def _get_values(self, wildcard: str, state: _State) -> WildcardValues:
         """
         Get all wildcard values matching the given wildcard pattern.
         """
-        if wildcard in self._values_cache:
-            return self._values_cache[wildcard]
+        cached_values = state.values.get(wildcard)
+        if cached_values is not None:
+            return cached_values
 
         values: list[str | WildcardItem] = []
-        for f in self.match_collections(wildcard):
+        for f in self._match_collections(wildcard, state):
             values.extend(f.get_values())
         if not values and not wildcard.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
             rec_wildcard = f"**/{wildcard}"
-            rec_colls = list(self.match_collections(rec_wildcard))
+            rec_colls = list(self._match_collections(rec_wildcard, state))
             for f in rec_colls:
                 values.extend(f.get_values())
             if values:
@@ -193,21 +243,21 @@ class WildcardManager:
 
         wildcards = list(values)
 
-        if self.dedup_wildcards:
+        if state.dedup:
             wildcards = list(dict.fromkeys(wildcards, None))
 
         # Shuffling is applied to a copy by `get_values`, so the cached values
         # stay right when it's turned off later.
-        if self.sort_wildcards:
+        if state.sort:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
 
-        if len(self._values_cache) > 100:
+        if len(state.values) > 100:
             # Naive way to limit the size of the cache.
             # We can't use `popitem` because it's guaranteed to be LIFO and we'd want FIFO.
-            self._values_cache.clear()
+            state.values.clear()
 
-        self._values_cache[wildcard] = values_object
+        state.values[wildcard] = values_object
 
         return values_object
-- 
2.43.0


From 5b459e9e86ccc4f3f144b76f81d5744d0891de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:49 +0000
Subject: [PATCH 22/36] fix: don't cache a text wildcard's old values when it's
 rewritten meanwhile

---
 .../wildcards/collection/text_file.py             | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/text_file.py b/src/dynamicprompts/wildcards/collection/text_file.py
index 8321907..e83adb8 100644
--- a/src/dynamicprompts/wildcards/collection/text_file.py
+++ b/src/dynamicprompts/wildcards/collection/text_file.py
@@ -23,19 +23,22 @@ class WildcardTextFile(WildcardCollection):
     ) -> None:
         self._path = path
         self._encoding = encoding
-        self._cache: list[str] | None = None
+        # Holds the values once they've been read.  Replaced when the file is
+        # rewritten, so a concurrent read can't leave outdated values in it.
+        self._cache: list[list[str]] = []
 
     def __repr__(self) -> str:
         return f"<TxtWildcardFile: {self._path}>"
 
     def get_values(self) -> list[str]:
-        if self._cache is not None:
-            return self._cache
+        cache = self._cache
+        if cache:
+            return cache[0]
 
         with self._path.open(encoding=self._encoding, errors="ignore") as f:
             lines = [line.strip() for line in f if not is_empty_line(line)]
-            self._cache = lines
-            return self._cache
+            cache.append(lines)
+            return lines
 
     def read_text(self) -> str:
         """
@@ -67,4 +70,4 @@ class WildcardTextFile(WildcardCollection):
                 temp.unlink()
             raise
         finally:
-            self._cache = None
+            self._cache = []
-- 
2.43.0


From 0577e914d370eab8c90171e51a9c467ea0393f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:43 +0000
Subject: [PATCH 23/36] fix: let threads take turns using a parser

---
 src/dynamicprompts/parser/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..8ac8197 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -32,6 +32,7 @@ from __future__ import annotations
 
 import re
 from functools import partial
+from threading import RLock
 from typing import Iterable
 from weakref import WeakKeyDictionary
 
@@ -526,6 +527,9 @@ def create_parser(
 # Cache of parsers, keyed by parser config. Since parser configs are immutable,
 # we can use them as keys; we still use a weak key dictionary to avoid leaking
 # memory if a custom parser config is garbage collected.
+# Parsers adjust themselves while they're used for the first time,
+# so threads must take turns.
+_parser_lock = RLock()
 _parser_cache: WeakKeyDictionary[ParserConfig, pp.ParserElement] = WeakKeyDictionary()
 
 
@@ -554,10 +558,11 @@ def parse(
     if prompt.isalnum():  # no need to actually parse anything
         return LiteralCommand(prompt)
 
-    tokens = get_cached_parser(parser_config).parse_string(
-        prompt,
-        parse_all=True,
-    )
+    with _parser_lock:
+        tokens = get_cached_parser(parser_config).parse_string(
+            prompt,
+            parse_all=True,
+        )
     if len(tokens) != 1:
         raise ValueError(f"Could not parse prompt {prompt!r}")
 
-- 
2.43.0


From 2651eb421be0c0cf6aedd8da093c121cdc50bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:30 +0000
Subject: [PATCH 24/36] fix: don't keep a text wildcard's old values when a
 save is interrupted

---
 src/dynamicprompts/wildcards/collection/text_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/wildcards/collection/text_file.py b/src/dynamicprompts/wildcards/collection/text_file.py
index e83adb8..de2702a 100644
--- a/src/dynamicprompts/wildcards/collection/text_file.py
+++ b/src/dynamicprompts/wildcards/collection/text_file.py
@@ -64,6 +64,9 @@ class WildcardTextFile(WildcardCollection):
                 os.fsync(f.fileno())
             if target.exists():
                 shutil.copymode(target, temp)
+            # Forget the old values before replacing the file too, so that being
+            # interrupted right afterwards can't leave them cached.
+            self._cache = []
             os.replace(temp, target)
         except BaseException:
             with contextlib.suppress(OSError):
-- 
2.43.0


From 3813791ff5f5637fa0f861498060247c94515535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 25/36] fix: report the model a MagicPrompt generator uses, not
 the one loaded last

---
 src/dynamicprompts/generators/magicprompt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 7b9b780..43a3d3c 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -163,6 +163,9 @@ class MagicPromptGenerator(PromptGenerator):
         else:
             self._generator = MagicPromptGenerator.generator
 
+        # Another instance may load another model later.
+        self._model_name = model_name
+
     def generate(self, *args, max_attempts: int = 20, **kwargs) -> list[str]:
         prompts = self._prompt_generator.generate(*args, **kwargs)
 
-- 
2.43.0


From 33c9a1307500ed23a6412433ebfe9341d0271a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:59 +0000
Subject: [PATCH 26/36] fix: load a MagicPrompt model again after loading it
 failed

---
 src/dynamicprompts/generators/magicprompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 43a3d3c..5b6e3ce 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -156,7 +156,8 @@ class MagicPromptGenerator(PromptGenerator):
 
     def set_model(self, model_name: str) -> None:
         if model_name != MagicPromptGenerator._model_name:
-            MagicPromptGenerator._model_name = model_name
+            # No model counts as loaded until loading has succeeded.
+            MagicPromptGenerator._model_name = None
             MagicPromptGenerator.generator = None
 
             self._generator = self._load_pipeline(model_name)
-- 
2.43.0


From 4b990bd346cd074c800950cf6c4d10ccec572426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 27/36] fix: don't wait forever for a stalled Lexica response

---
 src/dynamicprompts/generators/feelinglucky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 31adc3f..747eb09 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -23,7 +23,7 @@ def query_lexica(query) -> dict:
         ) from ie
     url = f"https://lexica.art/api/v1/search?q={query}"
     logger.info(f"Requesting {url}")
-    response = requests.get(url)
+    response = requests.get(url, timeout=30)
     response.raise_for_status()
     return response.json()
 
-- 
2.43.0


From ca00488b051fbfbe873b2ee1b75a1e1b5f1bb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 28/36] fix: escape the Lexica search query

---
 src/dynamicprompts/generators/feelinglucky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 747eb09..7c85756 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -21,9 +21,9 @@ def query_lexica(query) -> dict:
             "Install with `pip install dynamicprompts[feelinglucky]` or "
             "`pip install requests`",
         ) from ie
-    url = f"https://lexica.art/api/v1/search?q={query}"
-    logger.info(f"Requesting {url}")
-    response = requests.get(url, timeout=30)
+    url = "https://lexica.art/api/v1/search"
+    logger.info(f"Requesting {url} for {query!r}")
+    response = requests.get(url, params={"q": query}, timeout=30)
     response.raise_for_status()
     return response.json()
 
-- 
2.43.0


From b963ba7d19f9d7007ccb2d24ec23cb42bdf94797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 29/36] fix: search for anything when there's no query at all

---
 src/dynamicprompts/generators/feelinglucky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 7c85756..7330598 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -38,7 +38,8 @@ class FeelingLuckyGenerator(PromptGenerator):
             self._generator = generator
 
     def generate(self, search_query: str, num_prompts: int, **kwargs) -> list[str]:
-        search_query = self._generator.generate(search_query, 1, **kwargs)[0]
+        queries = self._generator.generate(search_query, 1, **kwargs)
+        search_query = queries[0] if queries else ""
 
         if search_query.strip() == "":
             query = str(random.randint(0, 10000000))
-- 
2.43.0


From 7e8518be0e39eb2edcf6e027379b7d91163ec926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:44 +0000
Subject: [PATCH 30/36] fix: stop at once when a part of a combinatorial prompt
 has no values

---
 src/dynamicprompts/samplers/combinatorial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 5f66345..4958ada 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -90,8 +90,13 @@ class CombinatorialSampler(Sampler):
                 else:
                     gen = context.generator_from_command(first_command)
                     for first_val in gen:
+                        rest_is_empty = True
                         for rest_vals in get_sequence(rest):
+                            rest_is_empty = False
                             yield [first_val] + rest_vals
+                        if rest_is_empty:
+                            # No other first value has anything to go with either
+                            return
 
         for result_arr in get_sequence(augmented_tokens):
             yield SamplingResult.joined(result_arr, separator=command.separator)
-- 
2.43.0


From 72732ac2ef9065cf1a42a970db5a61f83010bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 31/36] fix: don't follow symbolic links between wildcard
 directories in circles

---
 src/dynamicprompts/wildcards/tree/build.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 110f600..8f3515e 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -62,10 +62,20 @@ def build_tree_from_path(root_path: Path) -> WildcardTree:
     :param root_path: Root filesystem path.
     """
     path_to_file: dict[str, WildcardCollection] = {}
+    # The real paths of each directory and of the ones it's in
+    real_paths = {os.fspath(root_path): {os.path.realpath(root_path)}}
 
     for dirname, dirnames, filenames in os.walk(root_path, followlinks=True):
         # Sorted, so the result doesn't depend on the order the OS lists files in
-        dirnames[:] = sorted(d for d in dirnames if not d.startswith("."))
+        subdirs = sorted(d for d in dirnames if not d.startswith("."))
+        dirnames.clear()
+        for subdir in subdirs:
+            path = os.path.join(dirname, subdir)
+            real_path = os.path.realpath(path)
+            # Don't follow a link back to where we came from: there's no end to it
+            if real_path not in real_paths[dirname]:
+                real_paths[path] = real_paths[dirname] | {real_path}
+                dirnames.append(subdir)
         for filename in sorted(filenames):
             path_to_file.update(
                 _get_wildcard_collections_from_path(
-- 
2.43.0


From 803c00cb4222f7fc696d0cfc5b14468612088e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:46 +0000
Subject: [PATCH 32/36] fix: let variables and their defaults be empty

---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a739842..81acb9e 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -97,7 +97,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 80fa026ce80e17dcb3d6e6dc1db62558bb074391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 33/36] fix: remove the option that was picked, not another one
 that looks the same

---
 src/dynamicprompts/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ae296f0..3945ae2 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -92,9 +92,9 @@ def choose_without_replacement(
     else:
         chosen_values = []
         for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            index = values.index(chosen)
+            # By index: equal values may have different weights
+            index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+            chosen_values.append(values[index])
             del weights[index]
             del values[index]
         return chosen_values
-- 
2.43.0


From 7f1654739029fc957a55b352d8238bd3516c0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:02 +0000
Subject: [PATCH 34/36] fix: search recursively for wrapped wildcards, and when
 the wrap is **

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 037662f..7202344 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -14,7 +14,7 @@ from dynamicprompts.wildcards.tree import (
     WildcardTree,
     build_tree_from_root_map,
 )
-from dynamicprompts.wildcards.utils import clean_wildcard
+from dynamicprompts.wildcards.utils import clean_wildcard, combine_name_parts
 from dynamicprompts.wildcards.values import WildcardValues
 
 if TYPE_CHECKING:
@@ -174,12 +174,18 @@ class WildcardManager:
         self,
         wildcard: str,
         state: _State,
+        *,
+        recursive: bool = False,
     ) -> Iterable[WildcardCollection]:
         try:
             wildcard = clean_wildcard(wildcard, wildcard_wrap=self._wildcard_wrap)
         except ValueError:
             logger.warning(f"Invalid wildcard: {wildcard}", exc_info=True)
             return []
+        if recursive:
+            if wildcard.startswith("**"):  # Recursive anyway
+                return []
+            wildcard = combine_name_parts("**", wildcard)
         return self._get_tree(state).match_collections(wildcard)
 
     def get_file(self, name: str) -> WildcardCollection:
@@ -227,17 +233,15 @@ class WildcardManager:
         values: list[str | WildcardItem] = []
         for f in self._match_collections(wildcard, state):
             values.extend(f.get_values())
-        if not values and not wildcard.startswith("**"):
+        if not values:
             # If the wildcard doesn't match anything, try again with a recursive wildcard
-            rec_wildcard = f"**/{wildcard}"
-            rec_colls = list(self._match_collections(rec_wildcard, state))
+            rec_colls = list(self._match_collections(wildcard, state, recursive=True))
             for f in rec_colls:
                 values.extend(f.get_values())
             if values:
                 logger.warning(
-                    "No matches for wildcard %r, used %r to match %s",
+                    "No matches for wildcard %r, searched recursively to match %s",
                     wildcard,
-                    rec_wildcard,
                     ", ".join(str(coll) for coll in rec_colls),
                 )
 
-- 
2.43.0


From c868c175e73b4a09f392b09740892a4f1510f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:08 +0000
Subject: [PATCH 35/36] fix: end texts and separators at all configured
 delimiters

---
 src/dynamicprompts/parser/parse.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 8ac8197..d27d761 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -78,15 +78,27 @@ sampler_symbol_to_method = {
 }
 
 
-def _configure_range() -> pp.ParserElement:
+def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     hyphen = pp.Suppress("-")
 
     # Exclude:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
-    # - }, which is used to indicate the end of a variant
+    # - } and {, which are used to indicate the end and the start of a variant, variable or wrap
+    #   (or whatever they are set to)
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(pp.printables + " ", exclude_chars="${}")(
+    excluded = "|".join(
+        re.escape(delimiter)
+        for delimiter in (
+            parser_config.variant_start,
+            parser_config.variant_end,
+            parser_config.variable_start,
+            parser_config.variable_end,
+            parser_config.wrap_start,
+            parser_config.wrap_end,
+        )
+    )
+    separator = pp.Regex(rf"(?:(?!{excluded})[ -#%-~])+")(
         "separator",
     ).leave_whitespace()
 
@@ -161,10 +173,15 @@ def _configure_literal_sequence(
 
     if is_variant_literal:
         # Inside a variant the following characters are also not allowed
-        # - } denotes the end of a variant (or whatever right brace is set to)
+        # - } denotes the end of a variant (or whatever right brace is set to),
+        #   or of a variable or wrap command (or whatever variable_end/wrap_end are set to)
         # - | denotes the end of a variant option
         # - $ denotes the end of a bound expression
-        non_literal_chars += rf"|${parser_config.variant_end}"
+        non_literal_chars += (
+            rf"|${parser_config.variant_end}"
+            rf"{parser_config.variable_end}"
+            rf"{parser_config.wrap_end}"
+        )
 
     if is_wildcard_literal:
         # Inside a wildcard the following characters are also not allowed
@@ -439,7 +456,7 @@ def create_parser(
     *,
     parser_config: ParserConfig,
 ) -> pp.ParserElement:
-    bound_expr = _configure_range()
+    bound_expr = _configure_range(parser_config)
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
-- 
2.43.0


From 75c48dd7c3287a64c5d98aa205a8e1f4798c2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 36/36] fix: end a cycle without an error when one of its
 values can't produce anything

---
 src/dynamicprompts/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index 3945ae2..eb581e5 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -52,7 +52,12 @@ def rotate_and_join(
 def next_sampler_next_value(
     samplers: Iterable[ResultGen],
 ) -> ResultGen:
-    yield from (next(iter(sampler)) for sampler in cycle(samplers))
+    for sampler in cycle(samplers):
+        try:
+            value = next(iter(sampler))
+        except StopIteration:  # A sampler that can't produce anything
+            return
+        yield value
 
 
 def cross(l1: Iterable[T], l2: Iterable[T]) -> Iterable[tuple[T, T]]:
-- 
2.43.0

