From 9a555fb10a11cfc248cb1edbcb354a0024a259cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 01/26] fix: refuse flight states with alpha or beta outside
 [-90, 90] degrees

The two range conditions were combined with 'and', so no angle was ever refused.
---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..d0d1f79 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,7 +219,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From f25dd0caddd737de8299a97d54e6f90ac6ae1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 02/26] fix: accept state parameters set to None along with
 lists of flight points

A parameter set to None was turned into a list with one entry, so that an
aeroperformance map with two or more points was refused for 'different lengths'.
---
 src/lib/pytornado/objects/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index d0d1f79..fa3f4ae 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -159,6 +159,11 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # 'None' means that the parameter is not given
+            if value is None:
+                self.aero[key] = None
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
-- 
2.43.0


From fbf28a5b14388e7d85c26b4a6040151ef63be89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 03/26] fix: keep strips at least MIN_ETA_LIMIT wide and
 controls within their borders

Division lines were only kept apart from the line on their inner side. A control
surface ending just beyond an existing line took over the whole next strip, and
a control narrower than the limit the whole rest of the segment.
---
 src/lib/pytornado/objects/aircraft.py | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..b25cf65 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -764,6 +764,11 @@ class WingSegment:
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
 
+        if (prev_subdivision.rel_vertices['eta_b'] - eta_a) < MIN_ETA_LIMIT:
+            logger.debug("Refusing to create a subdivision close to existing division "
+                         "(Delta eta_b = {:.3f})".format(prev_subdivision.rel_vertices['eta_b'] - eta_a))
+            return self.subdivision[idx_prev]
+
         # Relative vertices of new subdivision
         subdivision_rel_vertices = {}
         subdivision_rel_vertices['eta_a'] = eta_a
@@ -858,6 +863,22 @@ class WingSegment:
 
         return outer_neighbour
 
+    def _get_close_division_line(self, eta):
+        """
+        Get the eta position of an existing division line very close to 'eta'
+
+        Args:
+            :eta: (float) eta position
+
+        Returns:
+            :eta: (float) position of the closest division line (segment edges
+                included), or 'eta' itself if there is no such line nearby
+        """
+
+        lines = [0] + [subdivision.rel_vertices['eta_b'] for subdivision in self.subdivision.values()]
+        closest = min(lines, key=lambda line: abs(line - eta))
+        return closest if abs(closest - eta) < MIN_ETA_LIMIT else eta
+
     def add_subdivision_for_control(self, eta_a, eta_b, parent_control, xsi1, xsi2, xsi_h1=None, xsi_h2=None):
         """
         Add a subdivision for with a control device for a specified range
@@ -883,6 +904,15 @@ class WingSegment:
             xsi_h2 = xsi2
             logger.warning("Hinge position xsi_h2 is not defined (assuming xsi2).")
 
+        # Borders very close to an existing division line are moved onto that line
+        eta_a = self._get_close_division_line(eta_a)
+        eta_b = self._get_close_division_line(eta_b)
+
+        if (eta_b - eta_a) < MIN_ETA_LIMIT:
+            logger.warning("Control is narrower than the minimum strip width "
+                           f"on segment '{self.uid}' and is not modelled there.")
+            return []
+
         # Add a first subdivision (sd1) beginning at eta_a
         if eta_a == 0:
             sd1 = self.subdivision[0]
-- 
2.43.0


From 2d69c152d645cfce7e3ba613ef600721a6526202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 04/26] fix: place control surfaces of wings mirrored about the
 yz plane on the right edge

The mirrored strip has leading and trailing edge exchanged, but the xsi positions
of patches and hinge lines were still measured from the original edge.
---
 src/lib/pytornado/objects/aircraft.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index b25cf65..45c3fea 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1900,6 +1900,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # Leading and trailing edge change place: xsi is measured from the opposite edge
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1933,6 +1937,9 @@ class StripSubdivision:
         # Only in case of type 2 symmetry, the xsi coordinates should be swapped
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+        # In case of type 3 symmetry, xsi is measured from the opposite edge
+        elif mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
 
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
-- 
2.43.0


From 3d3f599ddc427b8b5d5ec0333b2ac754bce4159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 05/26] fix: turn camber normals about the same axis on both
 sides of a symmetric wing

The rotation axis was built from the patch edge 'ad', which on an xz image is
the other edge of the original patch. Twisted, cambered wings were therefore
not exactly symmetric.
---
 src/lib/pytornado/objects/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 45c3fea..5927356 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1983,10 +1983,13 @@ class StripSubdivision:
 
         a = subarea_vertices['a']
         b = subarea_vertices['b']
+        c = subarea_vertices['c']
         d = subarea_vertices['d']
 
         ab = b - a
-        ad = d - a
+
+        # In case of type 2 symmetry, the inner edge 'ad' of the original is the edge 'bc' of its image
+        ad = c - b if (mirror and self.symmetry == 2) else d - a
 
         subarea_normal = np.cross(ab, ad)
         rot_axis = np.cross(subarea_normal, ad)
-- 
2.43.0


From a8efe87663293b13c5181e354192fdea1962b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 06/26] fix: Do not share mutable default settings between
 instances

The default list of the plot settings 'opt' was one and the same object in
all settings instances and in the template, so that changing it for one
instance changed the defaults of all others.
---
 src/lib/pytornado/objects/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..8501508 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -28,6 +28,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 """
 
 
+from copy import deepcopy
 from collections import OrderedDict
 from collections.abc import MutableMapping
 
@@ -124,5 +125,6 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        # Mutable defaults must not be shared between dictionaries
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From 29bb19f6f266791eab34a01002da883db82b6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 07/26] fix: Saving settings must not change them

The hidden settings ('_epsilon', ...) were deleted from the live settings
instance when it was saved.
---
 src/lib/pytornado/fileio/native/settings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..71941d8 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -27,6 +27,7 @@ Functions for reading and writing of PyTornado execution settings file.
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import logging
 import json
 from pathlib import Path
@@ -78,10 +79,10 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From bb29f0d751dc16ff6523e2c5a762129e54c09b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 08/26] fix: Do not write the plot directory into the settings

After a run the settings contained path objects and could not be saved
anymore.
---
 src/lib/pytornado/plot/makeplots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..9c46080 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,8 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        # Copy, the plot directory is not part of the settings
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From 4a95e1f6de9d493d857ebded6dfecdd6a6155fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 09/26] fix: Keep defaults of nested settings and do not alias
 the given dictionary

Nested dictionaries ('plot', 'save_results') replaced the defaults as a
whole, so that leaving out an entry raised a KeyError. Moreover, they were
shared with the caller (and with other instances made from the same
dictionary).
---
 src/lib/pytornado/objects/settings.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..262f7f2 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -27,6 +27,7 @@ Data structures for execution settings.
 Developed for Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import os
 import logging
 from pathlib import Path
@@ -108,6 +109,22 @@ class PATHS:
             return os.path.join(PATHS.DIR.AIRFOILS, f"blade.{name_airfoil}")
 
 
+def _update_nested(target, source):
+    """
+    Update a dictionary with copies of the values of another one
+
+    Args:
+        :target: Dictionary to be updated
+        :source: Dictionary with new values (nested dictionaries may be incomplete)
+    """
+
+    for key, value in source.items():
+        if isinstance(value, dict) and isinstance(target.get(key), dict):
+            _update_nested(target[key], value)
+        else:
+            target[key] = deepcopy(value)
+
+
 class Settings:
 
     def __init__(self, settings_filename, project_dir, *,
@@ -208,8 +225,7 @@ class Settings:
             :plot: Dictionary with plot settings
         """
 
-        for key, value in settings_dict.items():
-            self.settings[key] = value
+        _update_nested(self.settings, settings_dict)
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
-- 
2.43.0


From 679e6b190804b34f1e7b4ef5b2f62c557d080e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 10/26] fix: Check the type of settings which may be 'None'

Any value was accepted for 'deformation'.
---
 src/lib/pytornado/objects/utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 8501508..0a412b1 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -74,18 +74,19 @@ def check_dict(template_dict, test_dict):
         :TypeError: If types of test and template dictionary don't match
     """
 
-    # TODO: handle None better!!!
-
     for key, (value, dtype) in template_dict.items():
         dtype = (dtype,) if not isinstance(dtype, tuple) else dtype
 
-        if None not in dtype:
-            if not isinstance(test_dict[key], dtype):
-                err_msg = f"""
-                Unexpected data type for key '{key}'.
-                Expected {dtype}, got {type(test_dict[key])}.
-                """
-                raise TypeError(err_msg)
+        # 'None' means that the value may be left out
+        if None in dtype and test_dict[key] is None:
+            continue
+
+        if not isinstance(test_dict[key], tuple(t for t in dtype if t is not None)):
+            err_msg = f"""
+            Unexpected data type for key '{key}'.
+            Expected {dtype}, got {type(test_dict[key])}.
+            """
+            raise TypeError(err_msg)
 
         if dtype[0] is dict:
             check_dict(value, test_dict[key])
-- 
2.43.0


From b33399c343d127ff6e09eeadf89780b6628c601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 11/26] fix: Check the type of plot options before completing
 them

---
 src/lib/pytornado/objects/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index 262f7f2..ac2580e 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -227,12 +227,12 @@ class Settings:
 
         _update_nested(self.settings, settings_dict)
 
+        self._check_settings_dict()
+
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
             self.settings['plot']['results']['opt'] = ['cp']
 
-        self._check_settings_dict()
-
     def clean(self):
         """
         Remove old files in project directory
-- 
2.43.0


From dd2fd14c5b715d9b838ecd4599107f0290d2ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 12/26] fix: Save paths of all airfoil files of the project as
 relative paths

---
 src/lib/pytornado/fileio/native/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..deacea3 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -158,11 +158,11 @@ def save(aircraft, settings):
 
             segment_entry['airfoils'] = {}
             for key, value in segment.airfoils.items():
-                # If airfoil is "blade" file, make sure to save as relative path
+                # If airfoil is a file of the project, make sure to save as relative path
                 # Note: Airfoil definition may also be for instance "NACA1234"
-                if "blade." in value:
-                    # Make path relative!
-                    value = os.path.join(PATHS.DIR.AIRFOILS, os.path.basename(value))
+                rel_path = os.path.relpath(value, settings.paths('root'))
+                if os.path.isabs(value) and rel_path.startswith(PATHS.DIR.AIRFOILS + os.sep):
+                    value = rel_path
                 segment_entry['airfoils'][key] = value
 
             segment_entry['panels'] = {}
-- 
2.43.0


From 0a439f19f7590422a34e30974cb8e34b716e9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 13/26] fix: Do not save derived flight state parameters as if
 they were input

---
 src/lib/pytornado/fileio/native/state.py | 4 ++++
 src/lib/pytornado/objects/state.py       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/lib/pytornado/fileio/native/state.py b/src/lib/pytornado/fileio/native/state.py
index c7ece43..abc7f99 100644
--- a/src/lib/pytornado/fileio/native/state.py
+++ b/src/lib/pytornado/fileio/native/state.py
@@ -81,5 +81,9 @@ def save(state, settings):
     for key in ['aero']:
         output[key] = dict(getattr(state, key))
 
+    # Derived values must not be saved along with the values they follow from
+    for param in state.derived_params:
+        output['aero'][param] = None
+
     with open(state_file, 'w') as fp:
         dump_pretty_json(output, fp)
diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index fa3f4ae..93e526a 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -130,6 +130,9 @@ class FlightState:
         for param in GLOBAL_COEFFS:
             self.results[param] = []
 
+        # Parameters which have been computed from other input parameters
+        self.derived_params = set()
+
         # Number of values in the aeroperformance map
         self.num_apm_entries = 0
         self.idx_current_state = None
@@ -205,6 +208,8 @@ class FlightState:
             if self.aero[prop] is not None:
                 self.aero[prop] = np.array(self.aero[prop], dtype=float)
 
+        self.derived_params = {AIRSPEED, DENSITY} - input_props
+
         # ----- Compute airspeed and density if necessary -----
         if is_input[ALTITUDE]:
             atmosphere = Atmosphere(self.aero[ALTITUDE])
-- 
2.43.0


From e68a5238859f9be4f33f5dd46b3b20f21b528a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 14/26] fix: Strip only the suffix '_m' from names of
 deformation fields

---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 54ebf8105ede1f5ea7ebc0f3912bab4020cb4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 15/26] fix: Do not change deformation fields while
 interpolating

---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 5927356..a2bf66a 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1007,7 +1007,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # Use a copy since the interpolation changes the entries of the field
+        def_point = get_deformed_point(point, def_field.copy())
         return def_point
 
     def generate(self):
-- 
2.43.0


From 4980ce08ae8a022cf4af7d282668abc659dfb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 16/26] fix: Let control surfaces be defined without panels

---
 src/lib/pytornado/fileio/native/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index deacea3..d8721a6 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,10 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                for key, value in control_entry['panels'].items():
+                    control.panels[key] = value
+
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From 96832aed736d88f9a234e1cf727c3fd11a8bc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 17/26] fix: Refuse control surfaces on segments that do not
 exist

---
 src/lib/pytornado/objects/aircraft.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index a2bf66a..ade0e52 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1523,6 +1523,13 @@ class WingControl:
         self.REL_VERTICES_SCHEMA.validate(self.rel_vertices)
         self.REL_HINGE_VERTICES_SCHEMA.validate(self.rel_hinge_vertices)
 
+        # ----- Check that the segments exist -----
+        for segment_uid in (self.segment_uid['inner'], self.segment_uid['outer']):
+            if segment_uid not in self.parent_wing.segments:
+                raise ComponentDefinitionError(
+                    f"Control '{self.uid}': there is no segment '{segment_uid}' in wing '{self.parent_wing.uid}'."
+                )
+
         # ----- Check device type -----
         if self.device_type is None:
             raise ComponentDefinitionError("'device' is not defined.")
-- 
2.43.0


From 333a378e662f3dc8d4613e4b0e2e8c49e7e43fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 18/26] fix: Let optional settings be switched off with 'false'

---
 src/lib/pytornado/objects/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 0a412b1..8e47aa2 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -77,8 +77,8 @@ def check_dict(template_dict, test_dict):
     for key, (value, dtype) in template_dict.items():
         dtype = (dtype,) if not isinstance(dtype, tuple) else dtype
 
-        # 'None' means that the value may be left out
-        if None in dtype and test_dict[key] is None:
+        # 'None' means that the value may be left out ('None' or 'False')
+        if None in dtype and (test_dict[key] is None or test_dict[key] is False):
             continue
 
         if not isinstance(test_dict[key], tuple(t for t in dtype if t is not None)):
-- 
2.43.0


From 5f903ef1afb5f54a58e7f9ae210445b3de8f4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 19/26] fix: Find the subareas of a control among subareas
 without control

---
 src/lib/pytornado/objects/objecttools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/objecttools.py b/src/lib/pytornado/objects/objecttools.py
index 24f850b..f9483b2 100644
--- a/src/lib/pytornado/objects/objecttools.py
+++ b/src/lib/pytornado/objects/objecttools.py
@@ -131,7 +131,9 @@ def all_subareas_of_control(aircraft, control_uid):
     """
 
     for this_subarea, _, _, _ in all_subareas(aircraft):
-        if this_subarea[2].parent_control.uid == control_uid:
+        parent_control = this_subarea[2].parent_control
+        # Subareas which are not part of any control have no parent control
+        if parent_control is not None and parent_control.uid == control_uid:
             yield this_subarea
 
 
-- 
2.43.0


From 9b62a0996dbbd35cce90d81a6f9c217e5e2a4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 20/26] fix: Read CPACS control deflections when all wings are
 known

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..aea0744 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # Deflections can refer to controls of any wing
+    get_aircraft_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -285,6 +288,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
+
+def get_aircraft_control_deflections(aircraft, tixi):
+    """
+    Extract the deflections of all control surfaces and check the controls
+
+    Args:
+        :aircraft: Aircraft model
+        :tixi: Tixi handle
+    """
+
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-- 
2.43.0


From dba5fd43d4236ac9f25dacd22784bb78ed53f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 21/26] fix: Use the same segment names for controls as for
 segments (CPACS)

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index aea0744..fe0c848 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -285,8 +285,8 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = segment_uid_inner
-                control.segment_uid['outer'] = segment_uid_outer
+                control.segment_uid['inner'] = parse_str(segment_uid_inner)
+                control.segment_uid['outer'] = parse_str(segment_uid_outer)
 
 
 def get_aircraft_control_deflections(aircraft, tixi):
-- 
2.43.0


From 6eebefb733689894c11de9cfe1666028a0b92480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 22/26] fix: Swap airfoils and controls of reversed segments as
 well (CPACS)

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 35 ++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index fe0c848..5c581c4 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -110,8 +110,8 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         aircraft.wings[wing_uid].symmetry = tigl.wingGetSymmetry(idx_wing)
 
         # For each wing we set segment and control data
-        get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
-        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
+        reversed_segments = get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
+        get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments)
 
     # Deflections can refer to controls of any wing
     get_aircraft_control_deflections(aircraft, tixi)
@@ -128,8 +128,13 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         :idx_wing: Wing index
         :tixi: Tixi handle
         :tigl: Tigl handle
+
+    Returns:
+        :reversed_segments: Names of the segments for which inner and outer side have been swapped
     """
 
+    reversed_segments = set()
+
     xpath_segments = xpath_wing + '/segments'
     if not tixi.checkElement(xpath_segments):
         err_msg = f"Could not find path '{xpath_segments}'"
@@ -166,6 +171,7 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
         # * This is done so that the segments (thus panel normals point in the correct direction)
         if b[1] - a[1] < 0.0 or (b[1] == a[1] and b[2] - a[2] < 0.0):
             a, b, c, d = b, a, c, d
+            reversed_segments.add(segment_uid)
         if c[1] - d[1] < 0.0 or (c[1] == d[1] and c[2] - d[2] < 0.0):
             a, b, c, d = a, b, d, c
         if d[0] - a[0] < 0.0:
@@ -183,9 +189,14 @@ def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_win
 
         # ----- Set airfoils -----
         get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment)
+        if segment_uid in reversed_segments:
+            airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
+            airfoils['inner'], airfoils['outer'] = airfoils['outer'], airfoils['inner']
+
+    return reversed_segments
 
 
-def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
+def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl, reversed_segments):
     """
     Extract the controls surfaces
 
@@ -195,6 +206,7 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
         :idx_wing: Index of the wing
         :tixi: Tixi handle
         :tigl: Tigl handle
+        :reversed_segments: Names of the segments for which inner and outer side have been swapped
 
     .. warning::
 
@@ -270,6 +282,19 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                     _, _, _, xsi_h1 = tigl.get_eta_xsi(name_comp_section, etaLE_ib, hingeXsi_ib)
                     _, _, _, xsi_h2 = tigl.get_eta_xsi(name_comp_section, etaLE_ob, hingeXsi_ob)
 
+                segment_uid_inner = parse_str(segment_uid_inner)
+                segment_uid_outer = parse_str(segment_uid_outer)
+
+                # Account for segments with swapped inner and outer side
+                if segment_uid_inner in reversed_segments:
+                    eta_inner = 1 - eta_inner
+                if segment_uid_outer in reversed_segments:
+                    eta_outer = 1 - eta_outer
+                if segment_uid_inner == segment_uid_outer and segment_uid_inner in reversed_segments:
+                    eta_inner, eta_outer = eta_outer, eta_inner
+                    xsi_inner, xsi_outer = xsi_outer, xsi_inner
+                    xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+
                 # ADD WING CONTROL AND SET ATTRIBUTES
                 control = aircraft.wings[wing_uid].add_control(control_uid)
                 control.device_type = 'flap' if device_pos == 'trailing' else 'slat'
@@ -285,8 +310,8 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = parse_str(segment_uid_inner)
-                control.segment_uid['outer'] = parse_str(segment_uid_outer)
+                control.segment_uid['inner'] = segment_uid_inner
+                control.segment_uid['outer'] = segment_uid_outer
 
 
 def get_aircraft_control_deflections(aircraft, tixi):
-- 
2.43.0


From 234dc720faf3009678f98f700102bef3aa03d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 23/26] fix: Measure the dihedral of twisted segments at the
 axis

---
 src/lib/pytornado/objects/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index ade0e52..aec67cb 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1187,13 +1187,13 @@ class WingSegment:
 
         # axi_x = r_i*self.geometry['inner_axis']*cos_bi
         axi_y = r_i*self.geometry['inner_axis']*sin_bi
-        axi_z = r_i*self.geometry['inner_axis']*cos_bi*tan_ai
-        # Offset of point A wrt axis point (dihedral line) on AD
+        axi_z = -r_i*self.geometry['inner_axis']*cos_bi*tan_ai
+        # Offset of axis point (dihedral line) on AD wrt point A
 
         # axo_x = r_o*self.geometry['outer_axis']*cos_bo
         axo_y = r_o*self.geometry['outer_axis']*sin_bo
-        axo_z = r_o*self.geometry['outer_axis']*cos_bo*tan_ao
-        # Offset of point B wrt axis point (dihedral line) on BC
+        axo_z = -r_o*self.geometry['outer_axis']*cos_bo*tan_ao
+        # Offset of axis point (dihedral line) on BC wrt point B
 
         # Relative y, z-offset between axis on B, C-edge and axis on A, B-edge
         axs_y = axo_y - axi_y
-- 
2.43.0


From d65b434eaed40450fc6d7840fc9bb48b97e4b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 24/26] fix: Do not include the origin in the size of the
 aircraft

---
 src/lib/pytornado/objects/aircraft.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index aec67cb..7c55e0b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -167,7 +167,7 @@ class Aircraft:
         Approximate characteristic size of aircraft (diagonal of a bounding box)
         """
 
-        bbox = np.zeros((2, 3))
+        bbox = np.array([[np.inf]*3, [-np.inf]*3])
         for wing_uid, wing in self.wings.items():
             for segment_uid, segment in wing.segments.items():
                 # Segment vertices
@@ -207,6 +207,10 @@ class Aircraft:
                         bbox[1, 0] = -points_min[0]
                     center[0] = 0.0
 
+        # There is nothing to enclose if there are no segments
+        if np.isinf(bbox).any():
+            return 0.0
+
         size = np.linalg.norm(bbox[1, :] - bbox[0, :])
         return size
 
-- 
2.43.0


From 74a9dd8d8e204b8943ace7fe3b4f4b922520cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 25/26] fix: Use a relative tolerance when interpolating
 control edges on a segment

---
 src/lib/pytornado/objects/aircraft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 7c55e0b..42680da 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -2139,7 +2139,9 @@ def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
     segment_normal = np.cross(b-a, d-a)
     intersect_plane_normal = np.cross(segment_normal, p_lower-p_upper)
 
-    p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner)
+    # The tolerance is to be relative: lines and planes on small segments are not (nearly) parallel
+    epsilon = 1e-6*np.linalg.norm(intersect_plane_normal)*np.linalg.norm(insegment_direction)
+    p_intersect = get_plane_line_intersect(intersect_plane_normal, p_upper, insegment_direction, p_inner, epsilon)
     xsi_interpol = np.linalg.norm(p_intersect-p_upper)/np.linalg.norm(p_lower-p_upper)
 
     return xsi_interpol
-- 
2.43.0


From f21b9a1d8c05b028564652e7328284f140160af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 26/26] fix: Accept segments which are described by corner
 points and geometric properties

---
 src/lib/pytornado/objects/aircraft.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 42680da..538b444 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1052,16 +1052,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
@@ -1091,7 +1091,7 @@ class WingSegment:
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
             cos_bi = cos(radians(self.geometry['inner_beta']))
-            sin_bi = sin(radians(self.geometry['inner_beta']))
+            sin_bi = -sin(radians(self.geometry['inner_beta']))
 
             r_i = self.geometry['inner_chord']/sqrt(1.0 + tan_ai**2.0*cos_bi**2.0)
 
@@ -1135,12 +1135,12 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
             cos_bo = cos(radians(self.geometry['outer_beta']))
-            sin_bo = sin(radians(self.geometry['outer_beta']))
+            sin_bo = -sin(radians(self.geometry['outer_beta']))
 
             r_o = self.geometry['outer_chord']/sqrt(1.0 + tan_ao*tan_ao*cos_bo*cos_bo)
 
@@ -1326,10 +1326,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z], dtype=float, order='C')
+            self.vertices['b'] = np.array([b_x, b_y, b_z], dtype=float, order='C')
+            self.vertices['c'] = np.array([c_x, c_y, c_z], dtype=float, order='C')
+            self.vertices['d'] = np.array([d_x, d_y, d_z], dtype=float, order='C')
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1348,7 +1348,8 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
-            self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
+            if self.vertices[key] is not None:
+                self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
         """Check type and value of geometry dictionary"""
-- 
2.43.0

