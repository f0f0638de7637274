From 42468f2cb4e10bf817b4f37c7ae150f3bd9c5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 01/89] fix: Incar.get(tag, comment=True) returned the value in
 place of the comment

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..65f4c13 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From d84f30c46c1b545fe9324230459105661fc1d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 02/89] fix: keep the comment of the SYSTEM, MAGMOM and
 M_CONSTR tags in INCAR

---
 parsevasp/incar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 65f4c13..9cab5d4 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -543,7 +543,8 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                clean_comment = comment.strip() if comment is not None else None
+                return clean_tag, clean_value, clean_comment
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From 75e12bc2f3105b0d5b8e40849e4845b665edf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 03/89] fix: write lists of logicals in INCAR in a form that is
 read back as logicals

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 9cab5d4..6f7c664 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -267,7 +267,7 @@ class Incar(BaseParser):
 
         if isinstance(value, list):
             # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            string = ' '.join(self._convert_value_to_string(item) for item in value)
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From e44521fb2cf6709dbec6e48a3c637e3a2b945fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 04/89] fix: accept INCAR lines that end with ; when given as a
 string, or followed by blanks or a comment

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 6f7c664..79446fc 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From e718d5fcb86c7d2f2e9c00f2f682086f54a304bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 05/89] fix: refuse an INCAR dictionary or string given
 together with a file

---
 parsevasp/incar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 79446fc..1b512ef 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -73,9 +73,10 @@ class Incar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+            self._incar_string is not None and from_file
+        ) or (self._incar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-- 
2.43.0


From 182c6a9fc9dccb81e71e0f7e051d2bd7822763ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 06/89] fix: do not take inf and nan for integers when reading
 INCAR values

---
 parsevasp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..78631af 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -161,10 +161,11 @@ def test_string_content(string):
 
     """
     try:
-        float(string)
+        number = float(string)
         return 'int' if ((string.count('.') == 0) and \
                          ('e' not in string) and \
-                         ('E' not in string)) else 'float'
+                         ('E' not in string) and \
+                         math.isfinite(number)) else 'float'
     except ValueError:
         return 'string'
 
-- 
2.43.0


From d5c303c440bb235e9811b6098f1b346cd69f6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 07/89] fix: use the sites of a POSCAR dictionary that are
 given as dictionaries

---
 parsevasp/poscar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..f42b2d5 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,8 +145,11 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        sites = self._poscar_dict['sites'][:]
+        # Do not touch the supplied dictionary
+        self._poscar_dict = dict(self._poscar_dict)
+        self._poscar_dict['sites'] = sites
+        for index, site in enumerate(sites):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -158,7 +161,7 @@ class Poscar(BaseParser):
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                     direct = True
-                site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
+                sites[index] = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
             else:
                 if not site.get_direct():
                     # Cartesian, so convert.
-- 
2.43.0


From 22c1a2a1599d3ecc88e5f81bf99f8028103a5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 08/89] fix: do not convert direct POSCAR velocities that
 follow Cartesian positions

---
 parsevasp/poscar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f42b2d5..8f9ee35 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -287,9 +287,9 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert velocities to direct, if they are not already,
+                # irrespective of the coordinates of the positions
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 8b189b7e33cf00c30e4e387302d1fbe79f619e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 09/89] fix: do not drop POSCAR velocities below a Cartesian
 header that starts with k

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 8f9ee35..702aa95 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -285,7 +285,7 @@ class Poscar(BaseParser):
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
             first_char = poscar[loopmax_pos][0].lower()
-            if first_char in ('d', 'c'):
+            if first_char in ('d', 'c', 'k'):
                 velocities = True
                 # Make sure we convert velocities to direct, if they are not already,
                 # irrespective of the coordinates of the positions
-- 
2.43.0


From caec78d4751dba725ad8a89e5dca0aef33cf5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 10/89] fix: allow blank lines at the end of POSCAR

---
 parsevasp/poscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 702aa95..029bab0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -197,6 +197,9 @@ class Poscar(BaseParser):
 
         """
 
+        # Blank lines at the end carry no information
+        while poscar and not poscar[-1].strip():
+            poscar.pop()
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From 5b717fb84ee8da34e8e248d4e6e2e47dbb6e97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 11/89] fix: detect VASP 4 POSCAR files irrespective of the
 blanks around the counts

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 029bab0..6799d0d 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -203,7 +203,7 @@ class Poscar(BaseParser):
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-        if utils.is_numbers(poscar[5]):
+        if utils.is_numbers(' '.join(poscar[5].split())):
             vasp5 = False
         # Set direct, test is done later
         direct = True
-- 
2.43.0


From 7f0d5e16836892c12946417159b6656b7ff8e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 12/89] fix: Poscar.get raised for every existing entry

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 6799d0d..ac2c0ab 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -761,7 +761,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From 5f51286e08f0badc0d6e0edcddb3e4b77eeb5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 13/89] fix: exit with the documented code when a POSCAR entry
 is missing

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index ac2c0ab..1ba69f8 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -481,7 +481,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -507,7 +507,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if self.entries['comment'] is not None:
@@ -533,7 +533,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -554,7 +554,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From a961eabb514aa588f24b3edee5a6ae3f12c90d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 14/89] fix: check the type of a new POSCAR comment also when
 the present one is None

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 1ba69f8..7f51703 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -510,7 +510,7 @@ class Poscar(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From b5f2bb4423347ab66ac60e24f97fee00a25f6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 15/89] fix: refuse a POSCAR dictionary or string given
 together with a file

---
 parsevasp/poscar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7f51703..5dbb53e 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -81,9 +81,10 @@ class Poscar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+            self._poscar_string is not None and from_file
+        ) or (self._poscar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From a83ca35f7a7144017ddbb3162d1d370ed70eb63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 16/89] fix: skip the blank lines of line mode KPOINTS given as
 a string or containing blanks

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..207fb95 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -257,7 +257,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 7fac42e5bf1510a174d4b22341b0be8337c496c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 17/89] fix: do not drop the shift of KPOINTS when more lines
 follow it

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 207fb95..2e777aa 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -235,8 +235,8 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
-                    shifts = [float(element) for element in kpoints[4].split()]
+                if len(kpoints) > 4 and utils.is_numbers(' '.join(kpoints[4].split()[:3])):
+                    shifts = [float(element) for element in kpoints[4].split()[:3]]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
                 generating_vectors = []
-- 
2.43.0


From ef966b11877ea475c67cc4ec48a1c59ce2e90ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 18/89] fix: allow comments behind the grid of automatic
 KPOINTS

---
 parsevasp/kpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 2e777aa..1027cb4 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -234,15 +234,15 @@ class Kpoints(BaseParser):
                     centering = 'Gamma'
                 else:
                     centering = 'Monkhorst-Pack'
-                divisions = [int(element) for element in kpoints[3].split()]
+                divisions = [int(element) for element in kpoints[3].split()[:3]]
                 if len(kpoints) > 4 and utils.is_numbers(' '.join(kpoints[4].split()[:3])):
                     shifts = [float(element) for element in kpoints[4].split()[:3]]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
                 generating_vectors = []
                 for line_no in range(3, 6):
-                    generating_vectors.append([float(element) for element in kpoints[line_no].split()])
-                shifts = [float(element) for element in kpoints[6].split()]
+                    generating_vectors.append([float(element) for element in kpoints[line_no].split()[:3]])
+                shifts = [float(element) for element in kpoints[6].split()[:3]]
             elif third_line_char in ('d', 'c'):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_EXPERT])
                 sys.exit(self.ERROR_NO_EXPERT)
-- 
2.43.0


From d1b055270f5b39e4fbd0a356f3ecc12d4079d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 19/89] fix: allow blank lines behind the points of explicit
 KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1027cb4..3388e92 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -209,7 +209,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From feee53e90ad93dabcd2e6c1f74374dff5251aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 20/89] fix: Kpoints.get raised for every existing entry

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3388e92..654280d 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -799,7 +799,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From beca4955313f54de534a11cb95309d64350d8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 21/89] fix: allow to modify the generating vectors of KPOINTS

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 654280d..bd267df 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -409,7 +409,7 @@ class Kpoints(BaseParser):
 
         if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
                 ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+                ('centering' in entry) or ('generating_vectors' in entry)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From 6a14618c452b9d1eb2da1287b371e1b5eecad131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 22/89] fix: check the type of a new KPOINTS comment also when
 the present one is None

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index bd267df..1ef5bd5 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -431,7 +431,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
-- 
2.43.0


From c53a26dbc6b3251ff9a8767d52fe655437f484c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 23/89] fix: keep the number of points of explicit KPOINTS in
 step when points are deleted or replaced

---
 parsevasp/kpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1ef5bd5..f688e48 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -346,6 +346,8 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
+            if entry == 'points':
+                self._update_num_kpoints()
 
     def delete_point(self, point_number):
         """
@@ -362,6 +364,13 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        self._update_num_kpoints()
+
+    def _update_num_kpoints(self):
+        """Keep the number of points in step with the explicit list of points."""
+
+        if self.entries['mode'] == 'explicit' and self.entries['points'] is not None:
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def add_point(self, point_number):
         """
-- 
2.43.0


From 640c96c2eb68357acc4d26cfa77cd2dff26f28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 24/89] fix: refuse a KPOINTS dictionary or string given
 together with a file

---
 parsevasp/kpoints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index f688e48..ac8db89 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -99,9 +99,10 @@ class Kpoints(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
+        from_file = self._file_path is not None or self._file_handler is not None
         if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+            self._kpoints_string is not None and from_file
+        ) or (self._kpoints_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From 80bdb2e9e790a3ec6eb734e119985477a71c7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 25/89] fix: report the spin resolved columns of DOSCAR under
 the right name

---
 parsevasp/doscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..bbee01e 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         # Partial density of states
         pdos_items = []
@@ -237,7 +237,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, 1 + i * num_spin:1 + (i + 1) * num_spin]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From 022e5a6fcfbcf6bfcdda512c255309ddd7eca874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 26/89] fix: name the d(x2-y2) orbital of non-collinear DOSCAR
 as in all other layouts

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index bbee01e..a537ae5 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From 188dccd80bde535c0455b616d2dba978d257d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 27/89] fix: look for the partial DOSCAR data only behind the
 total density of states

---
 parsevasp/doscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index a537ae5..72bb7cf 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -217,8 +217,8 @@ class Doscar(BaseParser):
         # Partial density of states
         pdos_items = []
         pdos = np.array([])  # Partial dos is empty by default
-        if line_2 in data:
-            start = data.index(line_2) + 1
+        if data[ndos:ndos + 1] == [line_2]:
+            start = ndos + 1
             for _ in range(num_ions):
                 pdos_items += [data[start:start + ndos]]
                 start += (ndos + 1)
-- 
2.43.0


From 24417055a0da24d379565761270e4bbab5a3d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 28/89] fix: allow several blank lines between the blocks and
 at the end of EIGENVAL

---
 parsevasp/eigenval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..a327610 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -99,7 +99,7 @@ class Eigenval(BaseParser):
 
         # Datablocks
         data = re.split(utils.empty_line, data)
-        data = [[line.split() for line in block.splitlines()] for block in data]
+        data = [[line.split() for line in block.splitlines()] for block in data if block.strip()]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
-- 
2.43.0


From 32c544b8023811501cf7646d1a34897094ddb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 29/89] fix: do not flip the sign of the CHGCAR densities of
 left-handed cells

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..301c8cb 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -75,7 +75,7 @@ class Chgcar(BaseParser):
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
-            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
+            volume = abs(np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2])))
         # First line of content should now be NGXF, NGYF, NGZF
         temp = content.split('\n', 1)
         ngf_string = temp[0]
-- 
2.43.0


From 45760ecb7cc9afc99a4bc1c1ec4a48048d616bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 30/89] fix: allow blanks on the empty line of CHGCAR

---
 parsevasp/chgcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 301c8cb..9aaf949 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -1,4 +1,5 @@
 """Handle CHGCAR."""
+import re
 import sys
 
 import numpy as np
@@ -62,7 +63,7 @@ class Chgcar(BaseParser):
         """
         content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
         # Extract header
-        temp = content.split('\n\n', 1)
+        temp = re.split(utils.empty_line, content, maxsplit=1)
         header = temp[0]
         content = temp[1]
         header = header.split('\n')
-- 
2.43.0


From 0ae74472cd0941b44f62c32ba63378a4e1963d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 31/89] fix: detect the data sets of CHGCAR irrespective of the
 blanks around the grid size

---
 parsevasp/chgcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 9aaf949..1b42368 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -81,12 +81,13 @@ class Chgcar(BaseParser):
         temp = content.split('\n', 1)
         ngf_string = temp[0]
         content = temp[1]
-        ngf = [int(item) for item in ngf_string.split()]
+        ngf_items = ngf_string.split()
+        ngf = [int(item) for item in ngf_items]
         # Need to reverse as CHGCAR is x fastest, while we want
         # to comply with z fastest (C order).
         ngf.reverse()
         # Check how many datasets we have
-        content = content.split(ngf_string)
+        content = re.split(r'^[ \t]*' + r'[ \t]+'.join(ngf_items) + r'[ \t]*$', content, flags=re.MULTILINE)
         num_datasets = len(content)
         # First dataset is always there
         self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-- 
2.43.0


From 3163167cb19efbe05ce57d048feef7561575c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 32/89] fix: use the same key for absent and present
 non-symmetrized elastic moduli of OUTCAR

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..0ce440e 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From fb712dd094bafdf4f1f2df3bb7c95ca29adc4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 33/89] fix: report the number of primitive cells in a
 supercell, not the whole line of OUTCAR

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 0ce440e..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From df5a0df011835ef5e62de9c0336124dbb41d8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 34/89] fix: read the OUTCAR of runs that stopped while a table
 was printed

---
 parsevasp/outcar.py | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index cac1a7c..088e6f3 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -130,6 +130,10 @@ class Outcar(BaseParser):
         iter_counter = None
         nelec_steps = {}
 
+        if outcar and not outcar[-1].endswith('\n'):
+            # The run stopped while this line was printed
+            outcar = outcar[:-1]
+
         for index, line in enumerate(outcar):  # pylint: disable=R1702
             # Check the iteration counter
             match = re.search(r'Iteration *(\d+)\( *(\d+)\)', line)
@@ -157,38 +161,30 @@ class Outcar(BaseParser):
                 config = 'dynamic'
             if config:
                 if line.strip().startswith('Subroutine PRICEL returns'):
-                    text = outcar[index + 1].strip().lower()
+                    text = ''.join(outcar[index + 1:index + 2]).strip().lower()
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
                     text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
-                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
+                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a') and \
+                   index + 1 < len(outcar):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
                 if line.strip().startswith('Subroutine GETGRP returns'):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
 
             # then the elastic tensors etc. in kBar
             if line.strip().startswith('ELASTIC MODULI  (kBar)'):
-                tensor = []
-                for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
-                self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
+                self._data['elastic_moduli']['non_symmetrized'] = self._parse_elastic_moduli(outcar[index + 3:index + 9])
             if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):
-                tensor = []
-                for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
-                self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
+                self._data['elastic_moduli']['symmetrized'] = self._parse_elastic_moduli(outcar[index + 3:index + 9])
             if line.strip().startswith('TOTAL ELASTIC MODULI'):
-                tensor = []
-                for idx in range(3, 9):
-                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
-                self._data['elastic_moduli']['total'] = np.asarray(tensor)
+                self._data['elastic_moduli']['total'] = self._parse_elastic_moduli(outcar[index + 3:index + 9])
             for _proj in ['x', 'y', 'z']:
                 if line.strip().startswith(f'magnetization ({_proj})'):
                     _counter = 0
                     mag_found = False
-                    while not mag_found:
+                    while not mag_found and index + 4 + _counter < len(outcar):
                         if outcar[index + 4 + _counter].strip().split():
                             if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
                                 index + 4 + _counter].strip().startswith('tot'):
@@ -388,6 +384,25 @@ class Outcar(BaseParser):
         status = self._data['run_status']
         return status
 
+    @staticmethod
+    def _parse_elastic_moduli(lines):
+        """
+        Parse the rows of elastic moduli.
+
+        Parameters
+        ----------
+        lines : list
+            A list of lines containing the rows of the table.
+
+        Returns
+        -------
+        tensor : nparray
+            The elastic moduli, or None if the run stopped while the table was printed.
+        """
+        if len(lines) < 6:
+            return None
+        return np.asarray([[float(item) for item in line.strip().split()[1:]] for line in lines])
+
     @staticmethod
     def _parse_timings_memory(timing_lines):
         """
-- 
2.43.0


From 0f6b9c79821ee4f1af1506262d2c4c66471cc9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 35/89] fix: find the POTCAR symbol also behind several blanks

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..1dc937a 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -142,7 +142,7 @@ class Potcar(BaseParser):
                 self.metadata[key] = _parameters_to_parse[key](val)
 
         try:
-            self._symbol = self.metadata['TITEL'].split(' ')[1].strip()
+            self._symbol = self.metadata['TITEL'].split()[1]
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-- 
2.43.0


From b49bce4d284fe68bca8e40f9ba88653399ad879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 36/89] fix: read POTCAR items that follow ; without a blank

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 1dc937a..031fce2 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -137,7 +137,7 @@ class Potcar(BaseParser):
         ).group(1)
 
         self.metadata = {}
-        for key, val in re.findall(r'(\S+)\s*=\s*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
+        for key, val in re.findall(r'([^\s;]+)\s*=\s*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
             if key in _parameters_to_parse:
                 self.metadata[key] = _parameters_to_parse[key](val)
 
-- 
2.43.0


From c5b22a643dbcfbb442c1bad223cafc5879ffaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 37/89] fix: do not replace a file with an empty one when asked
 to write POTCAR

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 031fce2..2110afd 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -208,5 +208,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From 0bc7840169125fea8191c7c4e80393d200842738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 38/89] fix: leave the present file as it is when its new
 content can not be written

---
 parsevasp/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..3c0c10e 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -4,6 +4,7 @@ import logging
 import os
 import sys
 from abc import ABC, abstractmethod
+from io import StringIO
 
 
 class BaseParser(ABC):  # pylint: disable=R0903
@@ -86,16 +87,15 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
-        if file_path:
-            # Open file
-            file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
-
         # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
-        self._write(file_handler, **kwargs)
+        # bring any extra arguments. Nothing is done to a file before its whole content is there.
+        content = StringIO() if file_path else file_handler
+        self._write(content, **kwargs)
 
         if file_path:
-            # Close file
+            # Open file, write and close
+            file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
+            file_handler.write(content.getvalue())
             open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
     def _check_file(self, file_path=None):
-- 
2.43.0


From b72f6963b052757882f313aa398c83f51deec8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 39/89] fix: do not take a string for a sequence when looking
 for lines

---
 parsevasp/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 78631af..be44be0 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -136,7 +136,9 @@ def is_sequence(arg):
 
     """
 
-    if not hasattr(arg, 'strip') and hasattr(arg, '__getitem__'):
+    if isinstance(arg, str):
+        return False
+    if hasattr(arg, '__getitem__'):
         return True
     if hasattr(arg, '__iter__'):
         return True
-- 
2.43.0


From c8266ba680e1bb2da0e4d906d8d74d5e49bf90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 40/89] fix: do not report complete vasprun.xml files that are
 short or end with blank lines as truncated

---
 parsevasp/vasprun.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..0788b48 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3643,24 +3643,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        last_line = ''
-        xml_truncated = True
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
-            if self._file_handler is not None:
-                self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
-                # Reset pointer
-                self._file_handler.seek(0)
-            else:
-                with open(self._file_path, 'rb') as file_handler:
-                    file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
-            if b'</modeling>' in last_line:
-                # The XML file is not truncated.
-                xml_truncated = False
-
-        self._xml_truncated = xml_truncated
+        shift = max(self._file_size - 1024, 0)
+        if self._file_handler is not None:
+            self._file_handler.seek(shift)
+            last_part = self._file_handler.read()
+            # Reset pointer
+            self._file_handler.seek(0)
+        else:
+            with open(self._file_path, 'rb') as file_handler:
+                file_handler.seek(shift)
+                last_part = file_handler.read()
+
+        self._xml_truncated = b'</modeling>' not in last_part
-- 
2.43.0


From c3437e1a4f61394ef6fdda5640f7f38c414a82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 41/89] fix: read vasprun.xml from open text files

---
 parsevasp/vasprun.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0788b48..3468fe2 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1,8 +1,10 @@
 """Handle vasprun.xml."""
 # pylint: disable=C0302
 import copy
+import io
 import logging
 import os
+import re
 import sys
 
 import numpy as np
@@ -104,6 +106,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         The lxml library should be used and is required for large files.
         """
 
+        if file_handler is not None:
+            file_handler = self._get_binary_handler(file_handler)
         super().__init__(file_path=file_path, file_handler=file_handler, logger=logger)
 
         self._sizecutoff = 500
@@ -178,6 +182,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Parse parse parse
         self._parse()
 
+    @staticmethod
+    def _get_binary_handler(file_handler):
+        """Return a handler of the bytes, as the XML library needs them, also when text is read from the supplied one."""
+
+        if not isinstance(file_handler.read(0), str):
+            return file_handler
+        if hasattr(file_handler, 'buffer'):
+            return file_handler.buffer
+        content = file_handler.read()
+        declared = re.match(r'<\?xml[^>]*encoding=["\']([\w-]+)', content)
+        return io.BytesIO(content.encode(declared.group(1) if declared else 'utf8'))
+
     def _write(self, *args, **kwargs):
         """Write not supported for XML."""
         raise NotImplementedError('Writing XML files is not supported.')
-- 
2.43.0


From 525514f406478e5cb1a0b4f889406e1c5cc8f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 42/89] fix: report quantities that are not in vasprun.xml as
 None instead of raising

---
 parsevasp/vasprun.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3468fe2..8a580e8 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2988,8 +2988,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     def get_epsilon(self):
         """
         Return the """
-        epsilon = self._data['dielectrics']['epsilon']
-        return epsilon
+        dielectrics = self._data['dielectrics'] or {}
+        return dielectrics.get('epsilon')
 
     def get_epsilon_ion(self):
         """
@@ -3003,8 +3003,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        epsilon_ion = self._data['dielectrics']['epsilon_ion']
-        return epsilon_ion
+        dielectrics = self._data['dielectrics'] or {}
+        return dielectrics.get('epsilon_ion')
 
     def get_fermi_level(self):
         """
@@ -3017,6 +3017,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos'] is None:
+            return None
         fermi_level = self._data['dos']['total']['fermi_level']
         return fermi_level
 
@@ -3032,6 +3034,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos_specific'] is None:
+            return None
         fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
         return fermi_level_specific
 
@@ -3548,7 +3552,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        import re
+        if self._version is None:
+            return None
 
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
-- 
2.43.0


From 2d2a0affc06287c7537d9dd0f6a7441ba9abf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 43/89] fix: return partial densities of states and projectors
 of vasprun.xml also when there are not exactly nine orbitals

---
 parsevasp/vasprun.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8a580e8..65289b5 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -499,16 +499,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -569,16 +569,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2177,9 +2177,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2187,9 +2187,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, len(entry_partial_ispin2[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2204,9 +2204,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2614,14 +2614,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        pdata.append(self._convert_array2D_f(spin1, len(spin1[0].text.split())))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2, len(spin2[0].text.split())))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
-- 
2.43.0


From f8cdc2b473aeea42d70b185c40315c5ea0032db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 44/89] fix: do not mix the density of states on the
 interpolated k-point grid of vasprun.xml with the regular one

---
 parsevasp/vasprun.py | 91 ++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 49 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 65289b5..51cac3f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1,6 +1,5 @@
 """Handle vasprun.xml."""
 # pylint: disable=C0302
-import copy
 import io
 import logging
 import os
@@ -531,7 +530,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos'] = copy.deepcopy(dos)
+                    self._data['dos'] = dos
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -602,6 +602,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
                     self._data['dos_specific'] = dos
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -2057,8 +2058,39 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        sections = self._findall(xml, './/calculation/dos') or []
+        dos = self._fetch_dos_sectionw(xml, [item for item in sections if item.get('comment') is None])
+
+        # Now extract the density of states for specific k-point grids
+        dos_specific = self._fetch_dos_sectionw(xml, [item for item in sections if item.get('comment') == 'interpolated'])
+
+        return dos, dos_specific
+
+    def _fetch_dos_sectionw(self, xml, sections):
+        """
+        Fetch the density of states of the last of the supplied sections.
+
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        sections : list
+            The density of states sections on one k-point grid.
+
+        Returns
+        -------
+        dos : dict
+            A dictionary with ndarrays containing the energies, total and
+            integrated density of states. None if there is no such section.
+
+        """
+
+        if not sections:
+            return None
+        section = sections[-1]
+
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._find(section, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2066,20 +2098,20 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall(section, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall(section, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall(section, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
+        entry_partial_ispin2 = self._findall(section, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-            return None, None
+            return None
 
         num_atoms = 0
         species = self._lattice['species']
@@ -2088,52 +2120,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None
+                return None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
-
-        # Now extract the density of states for specific k-point grids
-        # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
-
-        # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return dos, None
-
-        dos_specific = self._extract_dos(
+        return self._extract_dos(
             entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
         )
 
-        return dos, dos_specific
-
     def _extract_dos(
         self, entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
     ):
-- 
2.43.0


From 77d413cbffcf7b80362db376648db451f0113494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 45/89] fix: assign the cell, positions, forces and stress of
 vasprun.xml to the ionic step they are printed in

---
 parsevasp/vasprun.py | 90 ++++++++++----------------------------------
 1 file changed, 19 insertions(+), 71 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 51cac3f..3cffe46 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1537,79 +1537,27 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 force[1] = None
                 force[2] = None
         else:
-            structures = self._findall(xml, './/calculation/structure')
-            entrycell = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
-            entrypos = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
-            entryforce = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            entrystress = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if structures is not None:
-                num_calcs = len(structures)
-            else:
+            calculations = self._findall(xml, './/calculation')
+            if calculations is None or self._find(xml, './/calculation/structure') is None:
                 return None, None, None, None
 
-            num_entrycell = 0
-            num_entrypos = 0
-            num_entryforce = 0
-            num_entrystress = 0
-
-            if entrycell is not None:
-                num_entrycell = len(entrycell)
-                cell[1] = self._convert_array2D_f(entrycell[0:3], 3)
-                if num_entrycell > 3:
-                    cell[2] = self._convert_array2D_f(entrycell[-3:], 3)
-                else:
-                    cell[2] = None
-            else:
-                cell[1] = None
-                cell[2] = None
-
-            if entrypos is not None:
-                num_entrypos = len(entrypos)
-                pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
-                    pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
-                else:
-                    pos[2] = None
-            else:
-                pos[1] = None
-                pos[2] = None
-
-            if entryforce is not None:
-                num_entryforce = len(entryforce)
-                force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
-                    force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
-                else:
-                    force[2] = None
-            else:
-                force[1] = None
-                force[2] = None
-
-            if entrystress is not None:
-                num_entrystress = len(entrystress)
-                stress[1] = self._convert_array2D_f(entrystress[0:3], 3)
-                if num_entrystress > 3:
-                    stress[2] = self._convert_array2D_f(entrystress[-3:], 3)
-                else:
-                    stress[2] = None
-            else:
-                stress[1] = None
-                stress[2] = None
-
-            max_entries = max(num_entrystress, max(num_entryforce, max(num_entrycell, num_entrypos)))
-            if max_entries > 6:
-                for calc in range(1, num_calcs):
-                    basecell = calc * 3
-                    basepos = calc * num_atoms
-                    if entrycell is not None:
-                        cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
-                        pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
-                        force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
-                        stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
+            paths = {
+                './structure/crystal/varray[@name="basis"]/v': cell,
+                './structure/varray[@name="positions"]/v': pos,
+                './varray[@name="forces"]/v': force,
+                './varray[@name="stress"]/v': stress
+            }
+            for path, steps in paths.items():
+                for index, calculation in enumerate(calculations):
+                    entry = self._findall(calculation, path)
+                    if entry is not None:
+                        steps[index + 1] = self._convert_array2D_f(entry, 3)
+                if not steps:
+                    steps[1] = None
+                    steps[2] = None
+            if len(calculations) > 1:
+                # What is present belongs to the step it was printed for
+                return cell, pos, force, stress
 
         # If we still only have one entry, or number two is None, last and initial should
         # be the same, force them to be similar. We could do this earlier, but this is done
-- 
2.43.0


From bfc0b17f79a6546b1fbe8dcfc4ab2352aabd5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 46/89] fix: report one dielectric function, and the dielectric
 tensors, of vasprun.xml in both readers

---
 parsevasp/vasprun.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3cffe46..0ceb0a6 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -302,6 +302,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dynmat = {}
         _dos = {}
         _dos2 = {}
+        _diel = {}
+        epsilon = {}
 
         # Bool to control extraction of content
         extract_generator = False
@@ -684,14 +686,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
-                    diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    # The density-density part if it is marked, otherwise the first one
+                    if not _diel or element.attrib.get('comment') == 'density-density':
+                        diel = np.split(self._convert_array2D_f(data, 7), 2)
+                        _diel['energy'] = diel[0][:, 0]
+                        _diel['imag'] = diel[0][:, 1:7]
+                        _diel['real'] = diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    epsilon[element.attrib['name']] = self._convert_array2D_f(element.findall('v'), 3)
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -1102,6 +1107,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not found_totens:
             totens = None
 
+        if _diel or epsilon:
+            dielectrics = {'energy': None, 'imag': None, 'real': None, 'epsilon': None, 'epsilon_ion': None}
+            dielectrics.update(_diel)
+            dielectrics.update(epsilon)
+            self._data['dielectrics'] = dielectrics
+
         # Store
         self._lattice['unitcell'] = cell
         self._lattice['positions'] = pos
@@ -2226,7 +2237,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             elif transfer == 'current':
                 tag = 'dielectricfunction[@comment="current-current"]'
             else:
-                tag = 'dielectricfunction'
+                # The density-density part if it is marked, otherwise the first one
+                tag = 'dielectricfunction[@comment="density-density"]'
+                if self._find(xml, './/calculation/' + tag) is None:
+                    tag = 'dielectricfunction[1]'
 
             # imaginary part
             entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
-- 
2.43.0


From bc4e1a6a8ed64c67ddb82bc78ca70305198b9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 47/89] fix: read the values of vasprun.xml in event mode only
 when their element is complete

---
 parsevasp/vasprun.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0ceb0a6..1cf7c6f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -412,54 +412,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -794,17 +794,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -988,7 +988,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -1004,7 +1004,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From 4c7840d95d30dd9e10580dd226a720c66dd6b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 48/89] fix: do not label the magnetization of non-collinear
 vasprun.xml as spin channels

---
 parsevasp/vasprun.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1cf7c6f..8fb1e7d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -499,7 +499,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if data2 and _dos2:
                         dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -570,7 +570,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if data2 and _dos2:
                         dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -2556,8 +2556,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Number of kpoints to disect the eigenvalue sets later
         num_kpoints = self._lattice['kpoints'].shape[0]
 
-        # Value of ispin
-        # ispin = self._parameters['ispin']
+        # For non-collinear calculations (ISPIN=1) the sets are the total and the magnetization
+        # along each direction
+        if self._parameters['ispin'] == 1:
+            spin2 = None
 
         # Number of bands
         num_bands = self._parameters['nbands']
-- 
2.43.0


From 7baadc430fd7ab16931ce6dc9192db252c92f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 49/89] fix: do not take the eigenvalues in the projected
 section of vasprun.xml for the regular ones in event mode

---
 parsevasp/vasprun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8fb1e7d..202101b 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -642,6 +642,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_scstep = False
                 if (
                     event == 'start' and element.tag == 'eigenvalues' and not extract_eigenvelocities and
+                    not extract_projected and
                     element.attrib.get('comment') != 'interpolated' and not extract_eigenvalues_specific
                 ):
                     extract_eigenvalues = True
-- 
2.43.0


From fa32f7a77a1d4617e16fb812f61d63a23c5952a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 50/89] fix: detect every overflowed or missing number in the
 arrays of vasprun.xml

---
 parsevasp/vasprun.py | 66 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 202101b..d8515d2 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2600,6 +2600,37 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _convert_row(self, element, size=None, dtype='double'):
+        """
+        Convert the text of an element to a numpy array.
+
+        Parameters
+        ----------
+        element : object
+            An Element object containing numbers separated by blank spaces.
+        size : int, optional
+            How many numbers there should be.
+        dtype : string, optional
+            The type of the numbers.
+
+        Returns
+        -------
+        data : ndarray
+            | Dimension: (N)
+            An array containing N numbers.
+
+        """
+
+        text = element.text or ''
+        if '*' in text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+        data = np.fromstring(text, sep=' ', dtype=dtype)
+        if size is not None and data.size != size:
+            raise ValueError(f'Expected {size} numbers but found: {text!r}')
+
+        return data
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2620,12 +2651,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='intc')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_row(entry, dtype='intc')
 
         return data
 
@@ -2649,12 +2675,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='double')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_row(entry, dtype='double')
 
         return data
 
@@ -2680,12 +2701,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_row(element, 1)[0]
 
         return data
 
@@ -2712,12 +2728,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_row(element, 1)[0]
 
         return data
 
@@ -2747,12 +2758,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_row(element, dim)
 
         return data
 
-- 
2.43.0


From 0c9fcc94c09be3fd4b68ce19812c45717aff31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 51/89] fix: only return what is complete in a truncated
 vasprun.xml

---
 parsevasp/vasprun.py | 73 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index d8515d2..6f05457 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -35,6 +35,9 @@ _SUPPORTED_TOTAL_ENERGIES = {
     'energy_no_entropy': 'e_wo_entrp'
 }
 
+# The elements that collect others, which make sense also without those that would have followed.
+_COLLECTIONS = ('modeling', 'generator', 'incar', 'parameters', 'separator', 'kpoints', 'atominfo', 'calculation')
+
 
 class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     """Class to handle vasprun.xml."""
@@ -237,8 +240,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if USE_LXML and xml_truncated:
             if xml_truncated:
                 self._logger.debug('Running LXML in recovery mode.')
-            parser = etree.XMLParser(recover=True)
-            vaspxml = etree.parse(filer, parser=parser)
+            vaspxml = self._parse_truncated(filer)
         else:
             vaspxml = etree.parse(filer)
 
@@ -274,6 +276,51 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['dynmat'] = self._fetch_dynmatw(vaspxml)
         self._data['born'] = self._fetch_bornw(vaspxml)
 
+    @staticmethod
+    def _parse_truncated(filer):
+        """
+        Parse what is complete of a truncated XML file.
+
+        Parameters
+        ----------
+        filer : string or object
+            The path of the file, or a file like object of its content.
+
+        Returns
+        -------
+        xml : object
+            An ElementTree object without the element the file stops in. The elements that only collect others are
+            kept, with what is complete of them.
+
+        """
+
+        parser = etree.XMLPullParser(events=('start', 'end'), recover=True)
+        if isinstance(filer, (str, os.PathLike)):
+            with open(filer, 'rb') as file_handler:
+                parser.feed(file_handler.read())
+        else:
+            parser.feed(filer.read())
+
+        root = None
+        unfinished = []
+        for event, element in parser.read_events():
+            if root is None:
+                root = element
+            if event == 'start':
+                unfinished.append(element)
+            else:
+                unfinished.pop()
+        if root is None:
+            raise ValueError('The truncated XML file does not contain any data.')
+
+        for element in unfinished:
+            if element.tag not in _COLLECTIONS:
+                if element is not root:
+                    element.getparent().remove(element)
+                break
+
+        return root.getroottree()
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
@@ -1461,7 +1508,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
@@ -1511,7 +1558,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = species.shape[0]
 
         if not extract_all:
-            entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v')
+            final = self._find(xml, './/structure[@name="finalpos"]')
+            if final is None:
+                # Truncated, use the last geometry there is
+                structures = self._findall(xml, './/calculation/structure')
+                final = structures[-1] if structures is not None else None
+            entry = self._findall(final, './crystal/varray[@name="basis"]/v') if final is not None else None
             if entry is not None:
                 cell[2] = self._convert_array2D_f(entry, 3)
             else:
@@ -1521,7 +1573,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 cell[1] = self._convert_array2D_f(entry, 3)
             else:
                 cell[1] = None
-            entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v')
+            entry = self._findall(final, './varray[@name="positions"]/v') if final is not None else None
             if entry is not None:
                 pos[2] = self._convert_array2D_f(entry, 3)
             else:
@@ -1985,7 +2037,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             for supported_energy, supported_key in _SUPPORTED_TOTAL_ENERGIES.items():
                 data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    return self._get_complete_energies(energies)
                 data = self._convert_array1D_f(data)
                 energies_pr_calc[supported_energy] = data
 
@@ -1994,13 +2046,20 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 # extrapolated energy
                 data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    return self._get_complete_energies(energies)
                 data = self._convert_f(data[0])
                 energies_pr_calc[supported_energy + '_final'] = data
             energies[index + 1] = energies_pr_calc
 
         return energies
 
+    def _get_complete_energies(self, energies):
+        """Return the energies of the steps up to an incomplete one, which only makes sense for a truncated file."""
+
+        if self._xml_truncated and energies:
+            return energies
+        return None
+
     def _fetch_dosw(self, xml):
         """
         Fetch the density of states using etree.
-- 
2.43.0


From 6846dd76d1ad26b3a7f49f04f03cbe8c9f1220ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 52/89] fix: read truncated vasprun.xml in event mode, and do
 not report incomplete energies

---
 parsevasp/vasprun.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 6f05457..eb4e868 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -321,6 +321,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return root.getroottree()
 
+    def _iterate(self, filer):
+        """Yield the events of the XML file, for a truncated one as far as it goes."""
+
+        try:
+            yield from etree.iterparse(filer, events=('start', 'end'))
+        except etree.ParseError:
+            if not self._xml_truncated:
+                raise
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
@@ -410,7 +419,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         # Index that control the calculation step (e.g. ionic step)
         calc = 1
-        for event, element in etree.iterparse(filer, events=('start', 'end')):  # pylint: disable=R1702
+        for event, element in self._iterate(filer):  # pylint: disable=R1702
             # Set extraction points (what to read and when to read it)
             # here we also set the relevant data elements when the tags
             # close when they contain more than one element
@@ -1137,22 +1146,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
-        # Check totens for entries, if all arrays empty and no float detected set force totens to None
-        found_totens = False
+        # The energies of a calculation the file stops in are not complete
+        totens.pop(calc, None)
+
+        # All the energies have to be present for all calculations
         for energies in totens.values():
-            for value in energies.values():
-                try:
-                    if value.size != 0:
-                        # Fails if there is a float for value and if there is a float, there is a value, so
-                        # protected by try block, or we have entries for the array values.
-                        found_totens = True
-                        break
-                except AttributeError:
-                    found_totens = True
-            if found_totens:
+            for supported_energy in _SUPPORTED_TOTAL_ENERGIES:
+                if energies[supported_energy].size == 0 or supported_energy + '_final' not in energies:
+                    totens = None
+                    break
+            if totens is None:
                 break
-
-        if not found_totens:
+        if not totens:
             totens = None
 
         if _diel or epsilon:
-- 
2.43.0


From d616247a4f8f54254f34eab70121de2fb7c33c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 53/89] fix: do not fail on an incomplete tag at the end of a
 truncated vasprun.xml in event mode

---
 parsevasp/vasprun.py | 54 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index eb4e868..56285ca 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -468,54 +468,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'end' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib.get('name') == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib.get('name') == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib.get('name') == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib.get('name') == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib.get('name') == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib.get('name') == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib.get('name') == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib.get('name') == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib.get('name') == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'end' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib.get('name') == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -673,18 +673,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'end' and element.tag == 'structure':
                     extract_latticedata = False
                 if event == 'start' and element.tag == 'varray' and \
-                   element.attrib['name'] == 'forces':
+                   element.attrib.get('name') == 'forces':
                     extract_forces = True
                 if event == 'end' and element.tag == 'varray' and \
-                   element.attrib['name'] == 'forces':
+                   element.attrib.get('name') == 'forces':
                     force[calc] = self._convert_array2D_f(data, 3)
                     data = []
                     extract_forces = False
                 if event == 'start' and element.tag == 'varray' and \
-                   element.attrib['name'] == 'stress':
+                   element.attrib.get('name') == 'stress':
                     extract_stress = True
                 if event == 'end' and element.tag == 'varray' and \
-                   element.attrib['name'] == 'stress':
+                   element.attrib.get('name') == 'stress':
                     stress[calc] = self._convert_array2D_f(data, 3)
                     data = []
                     extract_stress = False
@@ -764,14 +764,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # an array element without attributes, so we get
                     # KeyErrors
                     try:
-                        if element.attrib['name'] == 'born_charges':
+                        if element.attrib.get('name') == 'born_charges':
                             extract_born = True
                     except KeyError:
                         pass
                 if event == 'end' and element.tag == 'array':
                     # Again a bit special
                     try:
-                        if element.attrib['name'] == 'born_charges':
+                        if element.attrib.get('name') == 'born_charges':
                             num_atoms = 0
                             if self._lattice['species'] is not None:
                                 num_atoms = self._lattice['species'].shape[0]
@@ -790,28 +790,28 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if extract_scstep:
                     # Extrapolated energy
                     if event == 'start' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_0_energy':
+                       element.attrib.get('name') == 'e_0_energy':
                         extract_e_0_energy = True
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_0_energy':
+                       element.attrib.get('name') == 'e_0_energy':
                         extract_e_0_energy = False
                     if extract_e_0_energy:
                         data3.append(element)
                     # Free energy
                     if event == 'start' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_fr_energy':
+                       element.attrib.get('name') == 'e_fr_energy':
                         extract_e_fr_energy = True
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_fr_energy':
+                       element.attrib.get('name') == 'e_fr_energy':
                         extract_e_fr_energy = False
                     if extract_e_fr_energy:
                         data4.append(element)
                     # energy without entropy
                     if event == 'start' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_wo_entrp':
+                       element.attrib.get('name') == 'e_wo_entrp':
                         extract_e_wo_entrp = True
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_wo_entrp':
+                       element.attrib.get('name') == 'e_wo_entrp':
                         extract_e_wo_entrp = False
                     if extract_e_wo_entrp:
                         data5.append(element)
@@ -852,15 +852,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if extract_energies:
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_0_energy':
+                       element.attrib.get('name') == 'e_0_energy':
                         totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_fr_energy':
+                       element.attrib.get('name') == 'e_fr_energy':
                         totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
                     if event == 'end' and element.tag == 'i' and \
-                       element.attrib['name'] == 'e_wo_entrp':
+                       element.attrib.get('name') == 'e_wo_entrp':
                         totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
@@ -1046,7 +1046,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                             data.append(element)
                     try:
                         if event == 'end' and \
-                           element.attrib['name'] == 'eigenvalues':
+                           element.attrib.get('name') == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
                         pass
@@ -1062,7 +1062,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if extract_kpointdata:
                 try:
                     if event == 'end' and element.tag == 'v' and \
-                       element.attrib['name'] == 'divisions':
+                       element.attrib.get('name') == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
                     pass
-- 
2.43.0


From 9a60a3cc278be3db92eee5926bf68d615b06c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 54/89] fix: exit with the documented code if the vasprun.xml
 does not exist

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 56285ca..e112eaa 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3667,7 +3667,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # check if file exists
             if not utils.file_exists(self._file_path, logger=self._logger):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+                sys.exit(self.ERROR_FILE_NOT_FOUND)
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From 3ae48746c3f5cda919637cfacb35431cc05c870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 55/89] fix: leave an open file at its end after the removal of
 a newline

---
 parsevasp/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index be44be0..7353fb5 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -245,7 +245,10 @@ def remove_newline(fobj, num_newlines=1):
     # remove last newline, check number of chars, different
     # for each OS
     remove_chars = len(os.linesep) + num_newlines - 1
-    fobj.truncate(fobj.tell() - remove_chars)
+    # leave the position at the new end, such that what is written next does
+    # not follow a gap
+    fobj.seek(fobj.tell() - remove_chars)
+    fobj.truncate()
 
 
 def dir_to_cart(vector, lattice):
-- 
2.43.0


From 5cfc967e7711b7267ebbe0b5556a0b066ca18de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 56/89] fix: refuse stream conditions of an unsupported kind
 instead of ignoring them

---
 parsevasp/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..3ae4ce3 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -139,9 +139,9 @@ class Stream(BaseParser):  # pylint: disable=R0902
         for _, value in self._stream_config.items():
             kind = value['kind']
             if isinstance(kind, str):
-                if kind.upper() in VaspStream._ALLOWED_STREAMS:  # pylint: disable=W0212
-                    if not kind in stream_kinds:
-                        stream_kinds.append(kind)
+                # Whether the kind is supported is checked when the triggers are built
+                if not kind in stream_kinds:
+                    stream_kinds.append(kind)
             else:
                 raise ValueError('One of the kind entries is not a string.')
         return stream_kinds
-- 
2.43.0


From 51e22ae282584adbd3627620049b120f5b6718fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 57/89] fix: do not convert the supplied Cartesian sites in
 place

The same Site object used for a second structure with another unit cell
ended up at the wrong place.
---
 parsevasp/poscar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5dbb53e..2d76901 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -169,11 +169,12 @@ class Poscar(BaseParser):
                     position = site.get_position()
                     velocities = site.get_velocities()
                     position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                    # Do not touch the supplied site
+                    sites[index] = Site(
+                        site.get_specie(), position, site.get_selective(), velocities, site.get_predictors(), True
+                    )
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From a776cfc9192cd26a021e1d71bd004c8a369fdbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 58/89] fix: editing a Kpoints object changed the supplied
 dictionary and lists

Two objects made from the same dictionary, or given the same list of
points, were edited at the same time.
---
 parsevasp/kpoints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index ac8db89..d5f52d9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -121,8 +121,10 @@ class Kpoints(BaseParser):
             # Create dictionary from a string
             self._kpoints_dict = self._from_string()
 
-        # Ctore entries
-        self.entries = self._kpoints_dict
+        # Ctore entries, without touching the supplied dictionary
+        self.entries = dict(self._kpoints_dict)
+        if isinstance(self.entries.get('points'), list):
+            self.entries['points'] = self.entries['points'][:]
 
         # Validate dictionary
         self._validate()
@@ -327,6 +329,8 @@ class Kpoints(BaseParser):
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
                         sys.exit(self.ERROR_CONVERSION)
+                # Do not touch the supplied list
+                value = value[:]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
-- 
2.43.0


From e7646e017c3e4d61a6bfcf1476ad3926d0c43dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 59/89] fix: deleting a site shortened the list of sites
 supplied to modify

---
 parsevasp/poscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2d76901..142550e 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -400,6 +400,8 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                # Do not touch the supplied list
+                value = value[:]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From f86404d45789f126471336faad87a0df45c2031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 60/89] fix: lists that mix logicals with text were accepted

---
 parsevasp/incar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 1b512ef..12ae1fa 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -565,6 +565,8 @@ class IncarItem:
                 else:
                     # We have here also have a bool, so check that
                     cnt = self._test_string_for_bool(element)
+                    if isinstance(cnt, bool):
+                        content_type[-1] = 'bool'
                 clean_value.append(cnt)
 
             # Now if there is only one element in clean_value
-- 
2.43.0


From 96fd2cc553be757db158b64b4a60956acb5ad0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 61/89] fix: text with a dotted logical somewhere inside was
 read as that logical

---
 parsevasp/incar.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 12ae1fa..96bdb28 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -618,16 +618,9 @@ class IncarItem:
             depending on what is detected.
 
         """
-        if '.True.' in string \
-           or '.TRUE.' in string \
-           or '.true.' in string \
-           or '.t.' in string \
-           or '.T.' in string:
+        # As in Fortran, what follows the logical does not matter
+        if string.startswith(('.True.', '.TRUE.', '.true.', '.t.', '.T.')):
             return True
-        if '.False.' in string \
-             or '.FALSE.' in string \
-             or '.false.' in string \
-             or '.f.' in string \
-             or '.F.' in string:
+        if string.startswith(('.False.', '.FALSE.', '.false.', '.f.', '.F.')):
             return False
         return string
-- 
2.43.0


From 17baa31f9d8c89674298ab5887cd446ac9d7a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 62/89] fix: refuse a k-point dictionary that lacks its points
 with the documented exit code

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d5f52d9..e2b141e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -405,8 +405,8 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if ((self.entries.get('divisions') is None) and (self.entries.get('points') is None) and
+            (self.entries.get('generating_vectors') is None)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
-- 
2.43.0


From 0c0cc5cc6f19a858c8ca8782c7c31a627c8716b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 63/89] fix: refuse k-points that are not points or are
 Cartesian however they are supplied

---
 parsevasp/kpoints.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index e2b141e..a075bfe 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -322,13 +322,6 @@ class Kpoints(BaseParser):
         else:
             if entry == 'points':
                 self._check_points(points=value)
-                # Check that all points are in direct, if not,
-                # convert
-                for point in value:
-                    if not point.get_direct():
-                        point = self._to_direct(point)
-                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
-                        sys.exit(self.ERROR_CONVERSION)
                 # Do not touch the supplied list
                 value = value[:]
             if entry == 'comment':
@@ -477,32 +470,26 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            for point in points:
+                self._check_point(point)
 
-    def _check_point(self, point=None):
+    def _check_point(self, point):
         """
-        Check that the point entry is a Kpoint() object.
+        Check that the point is a Kpoint() object in direct coordinates.
 
         Parameters
         ----------
-        point, optional
-            The point to be checked. If not supplied the entries under
-            the 'points' key in the 'entries' is checked.
+        point
+            The point to be checked.
 
         """
-        if point is None:
-            try:
-                points = self.entries['points']
-            except KeyError:
-                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'points'.")
-                sys.exit(self.ERROR_NO_KEY)
-            for _point in points:
-                if not isinstance(_point, Kpoint):
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
-                    sys.exit(self.ERROR_WRONG_OBJECT)
-        else:
-            if not isinstance(point, Kpoint):
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
-                sys.exit(self.ERROR_WRONG_OBJECT)
+        if not isinstance(point, Kpoint):
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+            sys.exit(self.ERROR_WRONG_OBJECT)
+        # The points are written in direct coordinates and can not be converted
+        if not point.get_direct():
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+            sys.exit(self.ERROR_CONVERSION)
 
     def _check_point_number(self, point_number):
         """
-- 
2.43.0


From 16e5631c591163ca280014b323c5f10a9368215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 64/89] fix: keep the number of k-points right when the mode is
 changed or the points are removed

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a075bfe..5243c7e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -323,7 +323,7 @@ class Kpoints(BaseParser):
             if entry == 'points':
                 self._check_points(points=value)
                 # Do not touch the supplied list
-                value = value[:]
+                value = value[:] if value is not None else None
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
@@ -344,7 +344,7 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
-            if entry == 'points':
+            if entry in ('points', 'mode'):
                 self._update_num_kpoints()
 
     def delete_point(self, point_number):
-- 
2.43.0


From b6db2496595842bc7bed76958d3cf2848d5c327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 65/89] fix: refuse k-point divisions, shifts and generating
 vectors that are not three

---
 parsevasp/kpoints.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 5243c7e..82366fd 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -531,9 +531,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'shifts'.")
                 sys.exit(self.ERROR_NO_KEY)
         if shifts is not None:
-            if not isinstance(shifts, list):
+            if not isinstance(shifts, list) or len(shifts) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -589,9 +589,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'divisions'.")
                 sys.exit(self.ERROR_NO_KEY)
         if divisions is not None:
-            if not isinstance(divisions, list):
+            if not isinstance(divisions, list) or len(divisions) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -623,14 +623,15 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_NO_KEY)
         if generating_vectors is not None:
-            if not isinstance(generating_vectors, list):
+            if not isinstance(generating_vectors, list) or len(generating_vectors) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'generating_vectors' should be a list."
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                    "The key 'generating_vectors' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
                 for vec in generating_vectors:
-                    if not isinstance(vec, list):
+                    if not isinstance(vec, list) or len(vec) != 3:
                         self._logger.error(
                             f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
                             "The key 'generating_vectors' should be a list of lists."
-- 
2.43.0


From 1ecf63a84888816f973f3d1cdb5e924f1d69cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 66/89] fix: refuse a structure dictionary that lacks its sites
 or holds wrong ones with the documented exit code

---
 parsevasp/poscar.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 142550e..5bdff07 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -146,11 +146,27 @@ class Poscar(BaseParser):
 
         """
 
+        # Check what is converted below before touching it
+        self.entries = self._poscar_dict
+        self._validate()
         sites = self._poscar_dict['sites'][:]
         # Do not touch the supplied dictionary
         self._poscar_dict = dict(self._poscar_dict)
         self._poscar_dict['sites'] = sites
         for index, site in enumerate(sites):
+            if not isinstance(site, (Site, dict)):
+                self._logger.error(
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                    "The elements of the key 'sites' are neither Site() objects nor dictionaries."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if isinstance(site, dict):
+                for key in ('specie', 'position', 'selective', 'velocities', 'predictors', 'direct'):
+                    if key not in site:
+                        self._logger.error(
+                            f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is '{key}' of a site."
+                        )
+                        sys.exit(self.ERROR_NO_KEY)
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
-- 
2.43.0


From 3b19f80d551f1a1afb15a826144a2c2b16646399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 67/89] fix: convert Cartesian sites to direct coordinates and
 refuse other objects when sites are modified

---
 parsevasp/poscar.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5bdff07..eca46a7 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -180,17 +180,22 @@ class Poscar(BaseParser):
                     direct = True
                 sites[index] = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
             else:
-                if not site.get_direct():
-                    # Cartesian, so convert.
-                    position = site.get_position()
-                    velocities = site.get_velocities()
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    if velocities is not None:
-                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                    # Do not touch the supplied site
-                    sites[index] = Site(
-                        site.get_specie(), position, site.get_selective(), velocities, site.get_predictors(), True
-                    )
+                sites[index] = self._site_to_direct(site, self._poscar_dict['unitcell'])
+
+    def _site_to_direct(self, site, unitcell):
+        """Return the site in direct coordinates, without touching the supplied one.
+
+        """
+
+        if site.get_direct():
+            return site
+        # Cartesian, so convert.
+        position = self._to_direct(site.get_position(), unitcell)
+        velocities = site.get_velocities()
+        if velocities is not None:
+            velocities = self._to_direct(velocities, unitcell)
+
+        return Site(site.get_specie(), position, site.get_selective(), velocities, site.get_predictors(), True)
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
@@ -412,12 +417,14 @@ class Poscar(BaseParser):
             if not utils.is_number(site_number):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_SITE_NUMBER])
                 sys.exit(self.ERROR_SITE_NUMBER)
-            self.entries['sites'][site_number] = value
+            self.entries['sites'][site_number] = self._site_to_direct(value, self.entries['unitcell'])
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                for site in value:
+                    self._check_site(site)
                 # Do not touch the supplied list
-                value = value[:]
+                value = [self._site_to_direct(site, self.entries['unitcell']) for site in value]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 995d29b80145e96817e2e210e7fd47654b19647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 68/89] fix: refuse None as a unit cell or as sites of a
 structure

---
 parsevasp/poscar.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index eca46a7..b79673e 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -408,6 +408,12 @@ class Poscar(BaseParser):
         self._check_allowed_entries(entry)
         # Check that entries exists
         self._check_dict()
+        # Only the comment can be left out
+        if value is None and entry != 'comment':
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if site_number is not None:
             # Check that a Site() object is supplied
             self._check_site(value)
@@ -566,36 +572,21 @@ class Poscar(BaseParser):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
-    def _check_site(self, site=None):
+    def _check_site(self, site):
         """
         Check that the site entry is a Site() object.
 
         Parameters
         ----------
-        site, optional
-            The site to be checked. If not supplied the entries under
-            the 'sites' key in the 'entries' is checked.
+        site
+            The site to be checked.
 
         """
-        if site is None:
-            try:
-                sites = self.entries['sites']
-            except KeyError:
-                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
-                sys.exit(self.ERROR_NO_KEY)
-            for _site in sites:
-                if not isinstance(_site, Site):
-                    self._logger.error(
-                        f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                        "The elements of the key 'sites' are not Site() objects."
-                    )
-                    sys.exit(self.ERROR_KEY_INVALID_TYPE)
-        else:
-            if not isinstance(site, Site):
-                self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'site' is not a Site() object."
-                )
-                sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        if not isinstance(site, Site):
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'site' is not a Site() object."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_site_number(self, site_number):
         """
-- 
2.43.0


From b99fbf06ba45a8a1df2a8adb537f99985433109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 69/89] fix: refuse to write a structure where only some sites
 have velocities or predictors

---
 parsevasp/poscar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b79673e..e233ccb 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -670,6 +670,12 @@ class Poscar(BaseParser):
             sites.append([specie, position, select, direct, vel, pre])
             species.append(specie)
 
+        # Either all sites have a velocity (predictor) or none
+        for site in sites:
+            if (velocities and site[4] is None) or (predictors and site[5] is None):
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_VEL_OR_PRED])
+                sys.exit(self.ERROR_NO_VEL_OR_PRED)
+
         if not self._conserve_order:
             # Find unique entries and their number
             counter = Counter(species)
-- 
2.43.0


From d7a74fd9e922822b2b0eea069d78d8ff2a030ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 70/89] fix: refuse entries whose name only contains that of an
 allowed one

---
 parsevasp/kpoints.py | 5 ++---
 parsevasp/poscar.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 82366fd..9bd659c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -414,9 +414,8 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering' in entry) or ('generating_vectors' in entry)):
+        if entry not in ('comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'mode', 'num_kpoints', 'shifts',
+                         'centering', 'generating_vectors'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e233ccb..02c5940 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -493,7 +493,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From a65a126e151b41be36de8d7be98ac17d18806be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 71/89] fix: refuse a number in vasprun.xml of which only the
 start can be read

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e112eaa..755c9bd 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2689,7 +2689,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if '*' in text:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
             sys.exit(self.ERROR_OVERFLOW)
-        data = np.fromstring(text, sep=' ', dtype=dtype)
+        data = np.array(text.split(), dtype=dtype)
         if size is not None and data.size != size:
             raise ValueError(f'Expected {size} numbers but found: {text!r}')
 
-- 
2.43.0


From 4e0aecc8d2a86e60bbbcd88b3ade2f48950db3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 72/89] fix: treat the energies of vasprun.xml as incomplete
 when the steps of the energies differ in number

---
 parsevasp/vasprun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 755c9bd..77bb393 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1149,10 +1149,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # The energies of a calculation the file stops in are not complete
         totens.pop(calc, None)
 
-        # All the energies have to be present for all calculations
+        # All the energies have to be present for all calculations and for all of their electronic steps
         for energies in totens.values():
             for supported_energy in _SUPPORTED_TOTAL_ENERGIES:
-                if energies[supported_energy].size == 0 or supported_energy + '_final' not in energies:
+                size = energies[supported_energy].size
+                if size == 0 or size != energies['energy_free'].size or supported_energy + '_final' not in energies:
                     totens = None
                     break
             if totens is None:
@@ -2054,6 +2055,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     return self._get_complete_energies(energies)
                 data = self._convert_f(data[0])
                 energies_pr_calc[supported_energy + '_final'] = data
+            # All the energies have to be present for all the electronic steps
+            if len({energies_pr_calc[supported_energy].size for supported_energy in _SUPPORTED_TOTAL_ENERGIES}) > 1:
+                return self._get_complete_energies(energies)
             energies[index + 1] = energies_pr_calc
 
         return energies
-- 
2.43.0


From b708dc4bb4a14144c59edac824f35481c873e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 73/89] fix: exit with a message when vasprun.xml has
 eigenvalues or eigenvelocities but no k-points

---
 parsevasp/vasprun.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 77bb393..34dd7cf 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -703,7 +703,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
-                    num_kpoints = len(self._lattice['kpoints'])
+                    num_kpoints = self._count_kpoints(self._lattice['kpoints'])
                     if not data2:
                         eigenvalues, occupancies = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -719,7 +719,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_eigenvalues_specific = True
 
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues_specific:
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._count_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvalues_specific, _ = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -731,7 +731,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'eigenvelocities':
                     extract_eigenvelocities = True
                 if event == 'end' and element.tag == 'eigenvelocities':
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._count_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvelocities = self._extract_eigenvelocities(data, None, num_kpoints)
                     else:
@@ -1865,7 +1865,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None, None
 
-        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._lattice['kpoints']))
+        num_kpoints = self._count_kpoints(self._lattice['kpoints'])
+        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvalues, occupancies
 
@@ -1915,7 +1916,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None
 
-        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        num_kpoints = self._count_kpoints(self._data['kpoints'])
+        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvalues
 
@@ -1968,7 +1970,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             'kpoints/varray[@name="weights"]/v'
         )
 
-        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        num_kpoints = self._count_kpoints(self._data['kpoints'])
+        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvelocities
 
@@ -2418,6 +2421,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         #         diel_real.append([float(x) for x in energy.text.split()])
         #     return diel_imag, diel_real
 
+    def _count_kpoints(self, kpoints):
+        """Return the number of the supplied kpoints, which have to be there."""
+
+        if kpoints is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
+        return len(kpoints)
+
     def _extract_eigenvalues(self, spin1, spin2, num_kpoints):
         """
         Extract the eigenvalues.
-- 
2.43.0


From 6d971e0c260bacd197527bbda646583112735a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 74/89] fix: report missing species, not missing bands, for
 projectors without species

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 34dd7cf..adaf572 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2629,8 +2629,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = 0
         # Also need the number of atoms if the projected values are supplied
         if self._lattice['species'] is None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
-            sys.exit(self.ERROR_NO_NBANDS)
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
+            sys.exit(self.ERROR_NO_SPECIES)
         else:
             num_atoms = self._lattice['species'].shape[0]
 
-- 
2.43.0


From d98c420f326dcdb0627203c258a5d095431a51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 75/89] fix: refuse an incomplete EIGENVAL file instead of
 filling it with zeros

---
 parsevasp/eigenval.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index a327610..2c3ec6c 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -102,6 +102,10 @@ class Eigenval(BaseParser):
         data = [[line.split() for line in block.splitlines()] for block in data if block.strip()]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
+        # The file has to be complete
+        if len(data) != num_kp:
+            raise ValueError('The EIGENVAL file does not contain all the k-points.')
+        width = None
         # Iterate over blocks, pr. k-point
         for k, field in enumerate(data):
             # Remove empty lines
@@ -110,7 +114,12 @@ class Eigenval(BaseParser):
             kpi = [float(x) for x in kpbs.pop(0)]
             kpoints[k] = kpi
             # The rest is the band energies
+            if sorted(int(point[0]) for point in kpbs) != list(range(1, num_bands + 1)):
+                raise ValueError('The EIGENVAL file does not contain all the bands.')
             for point in kpbs:
+                width = width or len(point)
+                if len(point) != width or width < num_spins + 1:
+                    raise ValueError('The EIGENVAL file contains an incomplete line.')
                 eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
 
         # Create the metadata dict
-- 
2.43.0


From b807cb8b8c4c9f7b327d86d67d2ff55b346d51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 76/89] fix: refuse a DOSCAR in which rows of the partial
 density of states are missing

---
 parsevasp/doscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 72bb7cf..07cc556 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -223,6 +223,9 @@ class Doscar(BaseParser):
                 pdos_items += [data[start:start + ndos]]
                 start += (ndos + 1)
 
+            if any(len(item) != ndos for item in pdos_items):
+                raise ValueError('The partial density of states in DOSCAR is not complete.')
+
             # Get the number of columns for the pdos section.
             count = len(pdos_items[-1][-1])
             pdos_data = np.array(pdos_items)
-- 
2.43.0


From 6b91171e13a82eb0dedb9967ffd8f163cf60ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 77/89] fix: refuse a CHGCAR with missing or unreadable values
 instead of taking -1 or the start of a number

---
 parsevasp/chgcar.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 1b42368..59f732b 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -90,25 +90,37 @@ class Chgcar(BaseParser):
         content = re.split(r'^[ \t]*' + r'[ \t]+'.join(ngf_items) + r'[ \t]*$', content, flags=re.MULTILINE)
         num_datasets = len(content)
         # First dataset is always there
-        self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-                                            sep=' ').reshape(ngf) / volume
+        self._data['total'] = self._read_grid(content[0], ngf) / volume
         if num_datasets == 2:
             # Collinear spin
-            self._data['magnetization'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization'] = self._read_grid(content[1], ngf) / volume
         elif num_datasets == 4:
             # Non-collinear spin
             self._data['magnetization'] = {}
-            self._data['magnetization']['x'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['y'] = np.fromstring(
-                content[2].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['z'] = np.fromstring(
-                content[3].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization']['x'] = self._read_grid(content[1], ngf) / volume
+            self._data['magnetization']['y'] = self._read_grid(content[2], ngf) / volume
+            self._data['magnetization']['z'] = self._read_grid(content[3], ngf) / volume
+
+    @staticmethod
+    def _read_grid(text, ngf):
+        """
+        Read the values on the grid of one dataset.
+
+        Parameters
+        ----------
+        text : string
+            The text of the dataset, possibly followed by the augmentation occupancies.
+        ngf : list
+            The number of grid points along each direction.
+
+        Returns
+        -------
+        grid : ndarray
+            The values, where all of them have to be present and readable.
+
+        """
+        values = text.split('augmentation occupancies')[0].split()
+        return np.array(values, dtype=float).reshape(ngf)
 
     @property
     def charge_density(self):
-- 
2.43.0


From 3ef230ebcb8e8c1289421bd25a5aa4158134cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 78/89] fix: refuse a k-point of a line with less than three
 coordinates

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9bd659c..ab2011e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -261,8 +261,8 @@ class Kpoints(BaseParser):
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
                 if kpoints[true_index].strip():
-                    entry = kpoints[true_index].split()[0:3]
-                    coordinate = np.asarray([float(element) for element in entry])
+                    entry = kpoints[true_index].split()
+                    coordinate = np.asarray([float(entry[axis]) for axis in range(3)])
                     point = Kpoint(coordinate, 1.0)
                     points.append(point)
 
-- 
2.43.0


From 1bd3c5ae71826256b1eea5fa32710a2229f95fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 79/89] fix: do not mix the moments of a table that was cut
 with those of the previous one

---
 parsevasp/outcar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 088e6f3..75ac58c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -184,6 +184,9 @@ class Outcar(BaseParser):
                 if line.strip().startswith(f'magnetization ({_proj})'):
                     _counter = 0
                     mag_found = False
+                    sphere = self._data['magnetization']['sphere'][f'{_proj}']
+                    previous = dict(sphere)
+                    sphere['site_moment'] = {}
                     while not mag_found and index + 4 + _counter < len(outcar):
                         if outcar[index + 4 + _counter].strip().split():
                             if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
@@ -215,6 +218,9 @@ class Outcar(BaseParser):
                                 )[0]]
                             mag_found = True
                         _counter = _counter + 1
+                    if not mag_found:
+                        # The run stopped while this table was printed
+                        sphere.update(previous)
             if line.strip().startswith('number of electron'):
                 # Only take the last value
                 self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:]]
-- 
2.43.0


From ba34207258286d98456919012566b77b9f0a09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 80/89] fix: read POSCAR coordinate headers with leading
 blanks, and as VASP does what is not Cartesian as direct

---
 parsevasp/poscar.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 02c5940..6cf3b65 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -254,14 +254,12 @@ class Poscar(BaseParser):
             atoms = [int(x) for x in poscar[6].split()]
             for num_ions in atoms:
                 nions = nions + num_ions
-            if poscar[7][0].lower() == 's':
+            if poscar[7].strip()[:1].lower() == 's':
                 selective = True
                 loopmax = 9
-                if not poscar[8][0].lower() == 'd':
-                    direct = False
-            if not selective:
-                if not poscar[7][0].lower() == 'd':
-                    direct = False
+            # As in VASP, what is not Cartesian is direct
+            if poscar[loopmax - 1].strip()[:1].lower() in ('c', 'k'):
+                direct = False
         else:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_VASPFOUR])
             sys.exit(self.ERROR_VASPFOUR)
@@ -310,7 +308,7 @@ class Poscar(BaseParser):
         # Now check if there is more in the POSCAR
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
-            first_char = poscar[loopmax_pos][0].lower()
+            first_char = poscar[loopmax_pos].strip()[:1].lower()
             if first_char in ('d', 'c', 'k'):
                 velocities = True
                 # Make sure we convert velocities to direct, if they are not already,
-- 
2.43.0


From 367f6e2b5a1c0fa9c876f5c89a681b386bf4dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 81/89] fix: do not mix the KPOINTS_OPT sections of vasprun.xml
 into those of the run when streaming

---
 parsevasp/vasprun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index adaf572..2217baa 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -362,6 +362,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         epsilon = {}
 
         # Bool to control extraction of content
+        skip_section = False
         extract_generator = False
         extract_parameters = False
         extract_calculation = False
@@ -420,6 +421,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Index that control the calculation step (e.g. ionic step)
         calc = 1
         for event, element in self._iterate(filer):  # pylint: disable=R1702
+            # The sections on the k-points of KPOINTS_OPT are not those of the run
+            if element.tag in ('eigenvalues_kpoints_opt', 'projected_kpoints_opt'):
+                skip_section = event == 'start'
+            if skip_section:
+                continue
             # Set extraction points (what to read and when to read it)
             # here we also set the relevant data elements when the tags
             # close when they contain more than one element
-- 
2.43.0


From 55566c0f6efbbe735f617a8e2bc59ea13736ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 82/89] fix: do not take comments echoed in OUTCAR for the run
 status

---
 parsevasp/outcar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 75ac58c..adce3c6 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -136,7 +136,7 @@ class Outcar(BaseParser):
 
         for index, line in enumerate(outcar):  # pylint: disable=R1702
             # Check the iteration counter
-            match = re.search(r'Iteration *(\d+)\( *(\d+)\)', line)
+            match = re.match(r' *-+ *Iteration *(\d+)\( *(\d+)\)', line)
             if match:
                 iter_counter = [int(match.group(1)), int(match.group(2))]
                 # Increment the counter
@@ -149,10 +149,11 @@ class Outcar(BaseParser):
             utils.match_integer_param(self._data['run_status'], 'NSW', line)
             utils.match_integer_param(params, 'IBRION', line)
             utils.match_integer_param(self._data['run_status'], 'NELM', line)
-            if 'NBANDS=' in line:
-                self._data['run_status']['nbands'] = int(line.split('NBANDS=')[1].strip())
+            match = re.match(r' *k-points .*NBANDS= *(\d+)', line)
+            if match:
+                self._data['run_status']['nbands'] = int(match.group(1))
             # Test if the end of execution has reached
-            if 'timing and accounting informations' in line:
+            if line.strip().startswith('General timing and accounting informations'):
                 self._data['run_status']['finished'] = True
             # Fetch the symmetry
             if line.strip().startswith('Analysis of symmetry for initial positions (statically)'):
-- 
2.43.0


From 11803bb72f62a24e5e7cf067c45c715b3723bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 83/89] fix: read POTCAR numbers with a positive exponent or
 sign

---
 parsevasp/potcar.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2110afd..36a769a 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -113,21 +113,21 @@ class Potcar(BaseParser):
             'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'EATOM': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RPACOR': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'POMASS': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'ZVAL': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RCORE': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RWIGS': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'ENMAX': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'ENMIN': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RCLOC': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'EAUG': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'DEXC': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RMAX': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RAUG': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RDEP': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
+            'RDEPT': lambda val: float(re.search(r'^[-+]?\d*\.?\d*([eE][-+]?\d+)?', val).group(0)),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
-- 
2.43.0


From 756287a865efe0dcf980b58a831413048dddb842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 84/89] fix: recognise blank lines with tabs in POSCAR, which
 dropped the predictors behind them

---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 6cf3b65..2b1f843 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -314,7 +314,7 @@ class Poscar(BaseParser):
                 # Make sure we convert velocities to direct, if they are not already,
                 # irrespective of the coordinates of the positions
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not poscar[loopmax_pos].strip():
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
@@ -344,7 +344,7 @@ class Poscar(BaseParser):
             # the velocities
             loopmax_pos = nions + loopmax_pos
             if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
                     if utils.is_number(poscar[loopmax_pos].split()[0]):
                         for i in range(nions):
-- 
2.43.0


From ccae73b9bfc6ea6006f15fce40a6c0d5c58924aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 85/89] fix: split strings and the content of handlers into
 lines like files

---
 parsevasp/incar.py   | 2 +-
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 parsevasp/utils.py   | 4 +++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 96bdb28..19cc971 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -122,7 +122,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = self._incar_string.splitlines()
+        incar = io.StringIO(self._incar_string, newline=None).readlines()
         return incar
 
     def _from_list(self, incar):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index ab2011e..3fe94a3 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -145,7 +145,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = self._kpoints_string.splitlines()
+        kpoints = io.StringIO(self._kpoints_string, newline=None).readlines()
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2b1f843..f835bcc 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -136,7 +136,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = self._poscar_string.splitlines(True)
+        poscar = io.StringIO(self._poscar_string, newline=None).readlines()
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 7353fb5..803c8ea 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -1,4 +1,5 @@
 """Utiles."""
+import io
 import logging
 import math
 import os
@@ -45,7 +46,8 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         logger = logging.getLogger(sys._getframe().f_code.co_name)  # pylint: disable=W0212
 
     if input_file_handler is not None:
-        inputfile = input_file_handler
+        # Translate the line ends as is done when opening a file
+        inputfile = io.StringIO(input_file_handler.read(), newline=None)
         if not lines:
             # Only want a string of file content, return.
             return inputfile.read()
-- 
2.43.0


From ceee6faa21f420a526e56fbabaf83a207b694170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 86/89] fix: refuse lists of INCAR values that are not scalars
 of one kind

---
 parsevasp/incar.py | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 19cc971..a39a01a 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -2,6 +2,7 @@
 # pylint: disable=consider-using-f-string
 import io
 import logging
+import numbers
 import sys
 
 from parsevasp import constants, utils
@@ -592,7 +593,7 @@ class IncarItem:
                     f'is not recognized. The tag in question is: {clean_tag.upper()}'
                 )
                 sys.exit(self.ERROR_INVALID_TYPE)
-            clean_value = value
+            clean_value = self._clean_list(clean_tag, value) if isinstance(value, list) else value
 
         # Finally clean comment by removing any redundant spaces
         if comment is not None:
@@ -602,6 +603,47 @@ class IncarItem:
 
         return clean_tag, clean_value, clean_comment
 
+    def _clean_list(self, tag, values):
+        """
+        Make sure the elements of a list are scalars of the same type, since other lists can not be read back.
+
+        Parameters
+        ----------
+        tag : string
+            The entry tag of the INCAR entry.
+        values : list
+            The list to be checked.
+
+        Returns
+        -------
+        values : list
+            The list, where integers among floats are floats.
+
+        """
+        kinds = set()
+        for value in values:
+            # A bool is also an integer, so it has to come first
+            kinds.add(next((kind for kind in (bool, numbers.Integral, numbers.Real, str) if isinstance(value, kind)), None))
+
+        if None in kinds:
+            self._logger.error(
+                'The type of one of the elements of the list supplied for the INCAR tag '
+                f'is not recognized. The tag in question is: {tag.upper()}'
+            )
+            sys.exit(self.ERROR_INVALID_TYPE)
+
+        # What SYSTEM and the likes contain is not checked when reading either
+        if len(kinds) > 1 and tag not in ('system', 'magmom', 'm_constr'):
+            if kinds == {numbers.Integral, numbers.Real}:
+                return [float(value) for value in values]
+            self._logger.error(
+                'All values of an INCAR tag are not of the same type.'
+                f' The tag in question is: {tag.upper()}'
+            )
+            sys.exit(self.ERROR_VALUES_NOT_SAME_TYPE)
+
+        return values
+
     def _test_string_for_bool(self, string):
         """
         Detects if string contains Fortran bool.
-- 
2.43.0


From df7200fb971a872f3331cdb1becd2aa776e639ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 87/89] fix: refuse line breaks in what INCAR, POSCAR and
 KPOINTS write on one line

---
 parsevasp/incar.py   | 22 ++++++++++++++++++++++
 parsevasp/kpoints.py |  4 ++--
 parsevasp/poscar.py  |  4 ++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index a39a01a..ab54aa2 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -540,11 +540,13 @@ class IncarItem:
         # However, let us also open for the fact that users might
         # give a value what they would in INCAR
 
+        self._check_line_breaks(clean_tag, comment)
         if isinstance(value, str):
             if clean_tag in ('system', 'magmom', 'm_constr'):
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
+                self._check_line_breaks(clean_tag, clean_value)
                 clean_comment = comment.strip() if comment is not None else None
                 return clean_tag, clean_value, clean_comment
 
@@ -603,6 +605,25 @@ class IncarItem:
 
         return clean_tag, clean_value, clean_comment
 
+    def _check_line_breaks(self, tag, text):
+        """
+        Check that there are no line breaks inside a text, since what follows would be read as another entry.
+
+        Parameters
+        ----------
+        tag : string
+            The entry tag of the INCAR entry.
+        text
+            What is to be checked, if it is a string.
+
+        """
+        if isinstance(text, str) and ('\n' in text.strip() or '\r' in text.strip()):
+            self._logger.error(
+                'There is a line break in the value or the comment of an INCAR tag.'
+                f' The tag in question is: {tag.upper()}'
+            )
+            sys.exit(self.ERROR_INVALID_TYPE)
+
     def _clean_list(self, tag, values):
         """
         Make sure the elements of a list are scalars of the same type, since other lists can not be read back.
@@ -622,6 +643,7 @@ class IncarItem:
         """
         kinds = set()
         for value in values:
+            self._check_line_breaks(tag, value)
             # A bool is also an integer, so it has to come first
             kinds.add(next((kind for kind in (bool, numbers.Integral, numbers.Real, str) if isinstance(value, kind)), None))
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3fe94a3..343b792 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -438,9 +438,9 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
-            if not isinstance(comment, str):
+            if not isinstance(comment, str) or '\n' in comment or '\r' in comment:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string of one line."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f835bcc..f6d4e51 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -542,9 +542,9 @@ class Poscar(BaseParser):
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
-            if not isinstance(comment, str):
+            if not isinstance(comment, str) or '\n' in comment or '\r' in comment:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string of one line."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
-- 
2.43.0


From 930b2a876f711115a159226a1fc3fe6c530247c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 88/89] fix: POSCAR with a species without positions gave its
 neighbours' positions to it

---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f6d4e51..e84bad0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -272,8 +272,8 @@ class Poscar(BaseParser):
         predictor = False
         # Loop positions
         for i in range(nions):
-            # Fetch specie
-            if index > atoms[specie_slot]:
+            # Fetch specie, there can be some without any positions
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From a8ddb317aa687becb5eee454c14da2b48a217487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:29 +0000
Subject: [PATCH 89/89] fix: KPOINTS entries that do not fit the mode were
 written as a broken file (or crashed after part was written)

---
 parsevasp/kpoints.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 343b792..eec5404 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -773,6 +773,46 @@ class Kpoints(BaseParser):
         self._check_num_kpoints()
         self._check_tetra()
         self._check_tetra_volume()
+        self._check_entries_of_mode()
+
+    def _check_entries_of_mode(self):
+        """
+        Check that the entries the mode needs are present, and that no other
+        one would be written in their place.
+
+        """
+
+        entries = self.entries
+        mode = entries['mode']
+        if mode is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_MODE])
+            sys.exit(self.ERROR_INVALID_MODE)
+        if mode == 'automatic':
+            if entries['centering'] is None:
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_CENTERING])
+                sys.exit(self.ERROR_INVALID_CENTERING)
+            needed, other = 'divisions', 'generating_vectors'
+            if entries['centering'] == 'Reciprocal':
+                needed, other = other, needed
+            valid = entries[needed] is not None and entries[other] is None
+        else:
+            valid = entries['points'] is not None
+        if not valid:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
+            sys.exit(self.ERROR_DIVISIONS)
+        if mode == 'explicit':
+            if entries['num_kpoints'] != len(entries['points']):
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'num_kpoints' should be the number "
+                    "of 'points'."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if entries['tetra'] is not None and entries['tetra_volume'] is None:
+                self._logger.error(
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'tetra_volume' should be a float "
+                    "where 'tetra' is given."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _to_direct(self, point):
 
-- 
2.43.0

