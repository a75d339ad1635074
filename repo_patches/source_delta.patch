From 6cfa97b767074089388d0fc4c68f7470bc6a5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 1/8] fix: export of an unnamed driven control to CSV

Exporting a control without a name to CSV raised KeyError, because the
optional name entry was removed unconditionally.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..f87bb30 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            _ = control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From 891901701a9ba2e8abb1a56bffdf452216e1bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 2/8] fix: export of controls whose Rabi rate is zero on all
 segments

Normalizing to a maximum Rabi rate of zero produced NaN values in the
plot data and in the exported files (and invalid JSON). The zero Rabi
rates are now exported as zeros.
---
 .../driven_controls/driven_control.py             | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f87bb30..c6759e5 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -355,15 +355,14 @@ class DrivenControl:
         if self.name is not None:
             control_info["name"] = self.name
 
+        # a control with zero Rabi rate on all segments needs no normalization
+        normalizer = self.maximum_rabi_rate if self.maximum_rabi_rate > 0 else 1.0
+
         if coordinates == Coordinate.CARTESIAN.value:
-            control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
-            )
-            control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
-            )
+            control_info["amplitude_x"] = list(self.amplitude_x / normalizer)
+            control_info["amplitude_y"] = list(self.amplitude_y / normalizer)
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(self.rabi_rates / normalizer)
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
@@ -537,7 +536,7 @@ class DrivenControl:
             {"coordinates": coordinates},
         )
 
-        if dimensionless_rabi_rate:
+        if dimensionless_rabi_rate and self.maximum_rabi_rate > 0:
             normalizer = self.maximum_rabi_rate
         else:
             normalizer = 1
-- 
2.43.0


From eeaa96af1db3b9b4bc5fd90c5209eafe25aceed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 3/8] fix: printed detunings of controls with non-positive
 maximum detuning

A control with detunings such as [-1, 0] was printed as "[0,0] x 0.0",
which hides the negative detuning. The printed detunings are now scaled
by the largest magnitude.
---
 qctrlopencontrols/driven_controls/driven_control.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index c6759e5..e0ad3bd 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -592,11 +592,12 @@ class DrivenControl:
             [str(azimuthal_angle / np.pi) for azimuthal_angle in self.azimuthal_angles]
         )
 
+        # the largest detuning can be zero or negative, so scale by magnitude
+        detuning_scale = np.amax(np.abs(self.detunings))
+
         pretty_detuning = ",".join(
             [
-                str(detuning / self.maximum_detuning)
-                if self.maximum_detuning != 0
-                else "0"
+                str(detuning / detuning_scale) if detuning_scale != 0 else "0"
                 for detuning in self.detunings
             ]
         )
@@ -612,7 +613,7 @@ class DrivenControl:
             "Azimuthal Angles = [{}] x pi".format(pretty_azimuthal_angles)
         )
         driven_control.append(
-            "Detunings = [{}] x {}".format(pretty_detuning, self.maximum_detuning)
+            "Detunings = [{}] x {}".format(pretty_detuning, detuning_scale)
         )
         driven_control.append(
             "Durations = [{}] x {}".format(pretty_durations, self.duration)
-- 
2.43.0


From e0b441490707cda4b5e33827b9b02398f811903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 4/8] fix: reject pulses combining Rabi and negative detuning
 rotations

The conversion to a driven control does not support simultaneous Rabi
and detuning rotations, but only positive detunings were rejected. The
negative detuning rotation was silently dropped.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..7dd237f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -529,6 +529,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From 83c9b03c43ba2504b89f5cec3243603857e8d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 5/8] fix: conversion of short sequences dropped all pulses

A sequence shorter than 1e-8 s was treated as a free evolution, because
its pulse timings were compared to zero with an absolute tolerance. The
special case is not needed: a free evolution is converted to a single
segment by the general code.
---
 .../dynamic_decoupling_sequence.py                     | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 7dd237f..d2f9e5c 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -464,16 +464,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From 33db13fbf7329327d5154ed918ca887bdb2cef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 6/8] fix: conversion of short sequences accepted overlapping
 pulses

The gaps between pulses were compared to the minimum segment duration
with an absolute tolerance of 1e-8 s. For sequences on the nanosecond
scale this accepted overlapping pulses, and the resulting control was
longer than the sequence. The tolerance is now relative to the sequence
duration.
---
 .../dynamic_decoupling_sequence.py                            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index d2f9e5c..72bda62 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -444,7 +444,9 @@ def convert_dds_to_driven_control(
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
+            ),
         )
     ):
         raise ArgumentsValueError(
-- 
2.43.0


From d320aec3b1a5becd8679b0e7924ba9c1a57d04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 7/8] fix: XY-concatenated sequences of order three and above

The recursion assumed that the inner sequence always ends with a Y
pulse. For even inner orders it ends with a free evolution, which was
overwritten, so the pulses were at wrong times and some coincided.
---
 .../predefined.py                             | 35 +++++++------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 8167239..539d214 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1232,26 +1232,15 @@ def _concatenation_xy(concatenation_sequence) -> np.ndarray:
 
     if concatenation_sequence == 1:
         return np.array([1, -1, 1, -2, 1, -1, 1, -2])
-    cumulations = np.concatenate(
-        (_concatenation_xy(concatenation_sequence - 1), np.array([-1])), axis=0
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-2]
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-1])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    if cumulations[-1] == -2 and cumulations[-2] == -2:
-        cumulations = cumulations[0:-2]
-    return cumulations
+
+    # a Y pulse at the end of the inner sequence merges with the following X pulse (into a
+    # Z pulse) or with the following Y pulse (into an identity)
+    inner = _concatenation_xy(concatenation_sequence - 1)
+    if inner[-1] == -2:
+        x_block = np.append(inner[:-1], [-3])
+        y_block = inner[:-1]
+    else:
+        x_block = np.append(inner, [-1])
+        y_block = np.append(inner, [-2])
+
+    return np.concatenate((x_block, y_block, x_block, y_block), axis=0)
-- 
2.43.0


From 599af9fe35b6491f417e1a46dee81feab05eacd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:02 +0000
Subject: [PATCH 8/8] fix: XY-concatenated sequences rejected for most
 durations

The pulse positions were summed in floating point.
The last pulse of an odd order could land just after the sequence end.
Positions are now counted in whole units and scaled once.
---
 .../dynamic_decoupling_sequences/predefined.py           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 539d214..2142969 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1020,8 +1020,7 @@ def new_xy_concatenated_sequence(
     rabi_operations = rabi_operations[rabi_operations != -3]
     rabi_positions = np.zeros(rabi_operations.shape)
     rabi_positions[rabi_operations != -1] = 1
-    rabi_positions = rabi_positions * unit_spacing
-    rabi_positions = np.cumsum(rabi_positions)
+    rabi_positions = np.cumsum(rabi_positions) * unit_spacing
 
     values, counts = np.unique(rabi_positions, return_counts=True)
     rabi_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
@@ -1030,8 +1029,7 @@ def new_xy_concatenated_sequence(
     azimuthal_operations = azimuthal_operations[azimuthal_operations != -3]
     azimuthal_positions = np.zeros(azimuthal_operations.shape)
     azimuthal_positions[azimuthal_operations != -2] = 1
-    azimuthal_positions = azimuthal_positions * unit_spacing
-    azimuthal_positions = np.cumsum(azimuthal_positions)
+    azimuthal_positions = np.cumsum(azimuthal_positions) * unit_spacing
 
     values, counts = np.unique(azimuthal_positions, return_counts=True)
     azimuthal_offsets = [
@@ -1042,8 +1040,7 @@ def new_xy_concatenated_sequence(
     detuning_operations = detuning_operations[detuning_operations != -1]
     detuning_positions = np.zeros(detuning_operations.shape)
     detuning_positions[detuning_operations != -3] = 1
-    detuning_positions = detuning_positions * unit_spacing
-    detuning_positions = np.cumsum(detuning_positions)
+    detuning_positions = np.cumsum(detuning_positions) * unit_spacing
 
     values, counts = np.unique(detuning_positions, return_counts=True)
     detuning_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
-- 
2.43.0

