From 9ec196c91a921c4bfef9d9876e9a61e0f5d0548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 01/57] fix: implied K'' of the Vinet equation of state is
 -(1/K0)[(K'/2)^2 + K'/2 - 19/36]

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..f739887 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -732,7 +732,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From 3d442c7386883b8dfa04bde40f4557610444b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 02/57] fix: pressure of third-order E-V equations of state
 uses their implied K''

---
 quantas/qha/utils/ev_eos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..a009ce9 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -369,6 +369,7 @@ class EnergyEOS(object):
         pv_pars[0] = ev_pars[1]
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
-        # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        # Calculate pressures, with the value of K'' implied by the third-order
+        # formulations of the E-V EoS
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From f413900b55207b92b274fb799ca0dfe49f7ed7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 03/57] fix: EoS fit starts from (and keeps) the parameters
 provided by the user

---
 quantas/eosfit/utils/pv_eos.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index f739887..098b2a7 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,16 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            # Work on a copy, the values provided by the caller are left as is
+            p0 = np.array(guess, dtype=float)
         except TypeError:
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
+            #
+            # Check if we're going to perform a linearized fit
+            if linear == True:
+                p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From 19b674a2c17c92cd91d5ea4e3b58064bce424782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 04/57] fix: EoS input readers do not share their data

---
 quantas/IO/eos_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..96cf546 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -79,6 +79,9 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        # Every reader owns its data
+        self._data = dict(self._data)
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
-- 
2.43.0


From 54f45c29f8ec67eadf7d6b213b23346406094c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 05/57] fix: EoS reader honours abbreviated sub-keywords and
 reports missing pressure

---
 quantas/IO/eos_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 96cf546..53a4ea4 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -242,7 +242,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
@@ -263,7 +263,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if self._format.get('p') is None:
             self.error = 'No pressure data provided in input file'
             return
 
-- 
2.43.0


From 574a24efafe853ca337ae8ee0f1db83a5bdefe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 06/57] fix: EoS reader takes the JOB description as free text

---
 quantas/IO/eos_reader.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 53a4ea4..d631a3b 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -173,15 +173,17 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        job_line = None
         for i in range(len(data)):
             line = data[i]
-            # If empty or commented (#) lines are found, skip them
-            if self.is_comment(line):
+            # If empty or commented (#) lines are found, skip them. The
+            # description of the job is free text, hence it has no keywords
+            if self.is_comment(line) or i == job_line:
                 continue
 
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                job_line = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
@@ -206,14 +208,17 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the line where the name of the job was found.
+
         """
-        while self._data['job'] == 'Unknown':
-            line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
-                idx += 1
-            else:
-                self._data['job'] = line
-        return
+        while self.is_comment(inpdata[idx]):
+            idx += 1
+        self._data['job'] = inpdata[idx].rstrip('\n')
+        return idx
 
     def set_data_format(self, inpdata, idx):
         """
-- 
2.43.0


From 054bb7d3619ceb22b33041baa8aca8e4f40ee21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 07/57] fix: the angstrom is 1e-10 m, not the x-ray unit
 "Angstrom star"

---
 quantas/utils/physics/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..c990ac2 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom   # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
-- 
2.43.0


From 7e9d48e69f2c7a08d5c5c68c6fb31ce280ad1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 08/57] fix: energy conversion accepts the full names of the
 units

---
 quantas/utils/physics/units.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index c990ac2..033764e 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,26 +149,26 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
-    elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif old_scale.lower() in ['electron volt', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
-    elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif old_scale.lower() in ['kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
-    elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif new_scale.lower() in ['electron volt', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
-    elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif new_scale.lower() in ['kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
-- 
2.43.0


From d505003200c468497e2941288496eb07522f01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 09/57] fix: energy/pressure conversions leave their argument
 as is and accept integers

---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 033764e..6b5039b 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From e4a816c333e0859a40f89d57619348dde9dc844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 10/57] fix: temperature and pressure grids end at their
 maximum

---
 quantas/harmonic/harmonic.py | 3 ++-
 quantas/qha/qha.py           | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..dd94ac6 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,8 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = np.arange(
+            temp[0], temp[1] + 1.e-6*temp[2], temp[2])  # maximum included
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..2cbacb6 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,8 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        self._pressure = np.arange(
+            press[0], press[1] + 1.e-6*press[2], press[2])  # maximum included
         return
 
     @property
@@ -310,7 +311,8 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = np.arange(
+            temp[0], temp[1] + 1.e-6*temp[2], temp[2])  # maximum included
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 7874911c5e2a8d08a966080303dcc38a1365ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 11/57] fix: SOEC input readers do not share their data

---
 quantas/IO/soec_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..2da51eb 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -31,12 +31,6 @@ class SOECInputFileReader(BasicReader):
         Text explaining the error encountered in the input file.
     """
 
-    _data ={
-        'job': 'Unknown',
-        'stiffness': None,
-        'density': 0.
-        }
-
     def __init__(self, soec_input):
         """ Class constructor.
 
@@ -45,6 +39,11 @@ class SOECInputFileReader(BasicReader):
         soec_input: str
             Path of the SOEC input file.
         """
+        self._data = {
+            'job': 'Unknown',
+            'stiffness': None,
+            'density': 0.
+            }
         BasicReader.__init__(self, soec_input)
         return
 
-- 
2.43.0


From e367512173d79fccac7865d5946e4c18a932cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 12/57] fix: SOEC reader accepts lower triangular matrices and
 refuses ragged ones

---
 quantas/IO/soec_reader.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 2da51eb..842e09d 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -123,27 +123,33 @@ class SOECInputFileReader(BasicReader):
             self.error += 'shape.\nPlease, check the input file and retry.'
             return
 
+        # ... check its form...
+        form = [len(row.split()) for row in matstr]
+        lower = form == [1,2,3,4,5,6]
+        upper = form == [6,5,4,3,2,1]
+        if not (lower or upper or form == [6,6,6,6,6,6]):
+            self.error = 'The SOEC matrix should be symmetric '
+            self.error += 'or triangular'
+            return
+
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
+                shift = 0 if lower else 6-n
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j+shift] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
-            if form == [6,5,4,3,2,1]:  # upper triangular
+            if upper:
                 matrix = matrix + np.triu(matrix, 1).transpose()
-            if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+            if lower:
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From 857719902e374461d2d976e69af79c3362efc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 13/57] fix: SOEC reader takes descriptions that start with a
 digit (or rows with a sign) for what they are

---
 quantas/IO/soec_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 842e09d..fde8ecc 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -109,7 +109,8 @@ class SOECInputFileReader(BasicReader):
         # Does the first line contain the job name?
         line = data[0]
         try:
-            np.float64(line.strip()[0])
+            np.float64(line.split()[0])
+            np.array(line.split(), dtype=np.float64)
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From a24ce6c8fc6056e006c2d42ac083d0539d37fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 14/57] fix: crystal system of trigonal and hexagonal elastic
 tensors

---
 quantas/soec/utils/symmetry.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..7ac6813 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8, -9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -117,8 +117,8 @@ def run_check(m, symmetry):
     for i in range(0,22):
         l = []
         for key in Cij_map.keys():
-            # Collect the combinations
-            if Cij_map[key] == i:
+            # Collect the combinations (those with opposite sign, too)
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,14 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    sign = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - sign*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From 9ce646f56240912f7ada6bfa117592a7b5732e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 15/57] fix: the SOEC analysis stops if the crystal is
 mechanically unstable

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..cc2a41a 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -245,9 +245,10 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if min(eigv) <= 0:
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
+            self.error = msg
             self.echo(msg)
             self.echo('No further analysis will be performed.')
             return
-- 
2.43.0


From 93180d9d68ecefa13fa0dfd38bbafc182e07fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 16/57] fix: first axis of the extremes of shear modulus and
 Poisson's ratio

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index cc2a41a..ecdce0f 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -421,8 +421,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 68c4eb81de31c6630f5b00049469fd266cec4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 17/57] fix: wave velocities are not reported without a density

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ecdce0f..7e8809a 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -395,7 +395,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From 509fab0baafceb6fc1dd61682d8631cd4d2d2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 18/57] fix: exported compliances are in the declared unit
 (TPa^-1)

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 7e8809a..3da96ed 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -542,7 +542,8 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance',
+                                    data=self.soec.compliance*1000)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From aaf11d434259ffebddf8b40c5d503d737c53eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 19/57] fix: eigenvalues of elastic tensors are real (symmetry
 within the accepted tolerance)

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 3da96ed..ed6f77f 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -233,7 +233,7 @@ class SOECCalculator(BasicCalculator):
         #
         # Calculate stiffness eigenvalues
         self.echo_debug(' - Calculation stiffness eigenvalues')
-        eigv = sorted(np.linalg.eig(self.soec.stiffness)[0])
+        eigv = sorted(np.linalg.eigvalsh(self.soec.stiffness))
         #
         # Report current data
         
-- 
2.43.0


From cf6f115afcb74fdc3e9dca4d5d798a6dd4d3af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 20/57] fix: a singular elastic matrix is reported as an error
 of the input

---
 quantas/soec/soec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ed6f77f..4e034c3 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -179,7 +179,10 @@ class SOECCalculator(BasicCalculator):
             self.echo_debug('Input file correctly read')
             self._job = reader.jobname
             self.echo_debug('Job name set')
-            self._soec = SOEC(reader.stiffness, reader.density)
+            try:
+                self._soec = SOEC(reader.stiffness, reader.density)
+            except ValueError as e:
+                return 'The elastic constants cannot be used: ' + str(e)
             self.echo_debug('SOEC object instantiated')
             self._system = check_symmetry(self._soec.stiffness)
             self.echo_debug('Crystal system: {}'.format(self._system))
-- 
2.43.0


From 99a7443bd13f69af87a0a75b57a302490e517a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 21/57] fix: export objects do not share the data of the file
 they loaded

---
 quantas/harmonic/utils/export.py | 3 +++
 quantas/qha/utils/export.py      | 3 +++
 quantas/soec/utils/export.py     | 1 +
 3 files changed, 7 insertions(+)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..fec0a0d 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -27,6 +27,9 @@ class QuantasHarmonicExport(object):
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..b708139 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -27,6 +27,9 @@ class QuantasQHAExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..aeda7bc 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -26,6 +26,7 @@ class QuantasSOECExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
-- 
2.43.0


From b9ca64491bdb533c24982ebda6a96585eb26257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 22/57] fix: azimuth of cartesian and group directions of
 seismic waves

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From 8e7a5993d8b07e0181ea6cd35af5cdada48a3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 23/57] fix: QHA equilibrium volume is the minimum within the
 sampled volumes

---
 quantas/qha/qha.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 2cbacb6..cc8ec9b 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1053,7 +1053,10 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
+            minima = find_polynomial_minimum(parameters, pressure)
+            # other minima, if any, are extrapolations far from the data
+            centre = (np.max(volume) + np.min(volume)) / 2.
+            volume_PT = minima[np.argmin(np.abs(minima - centre))]
             return volume_PT, 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
-- 
2.43.0


From f69b033501c3247a754619c8c2d8727a0bbaf677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 24/57] fix: starting guess of the energy EoS with four volumes
 is the minimum of the data

---
 quantas/qha/utils/ev_eos.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index a009ce9..e0c9cdf 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -143,13 +143,16 @@ class EnergyEOS(object):
             `float` type.
 
         """
-        pars = np.polyfit(V, E, 4)
+        pars = np.polyfit(V, E, min(4, len(V) - 1))
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
-        V0 = np.real(V_roots[root_minimum])
+        V_roots = np.real(V_roots[np.isreal(V_roots)])
+        minima = V_roots[np.polyval(second_derivative, V_roots) > 0.]
+        if len(minima) > 0:
+            V0 = minima[np.argmin(np.abs(minima - np.mean(V)))]
+        else:
+            V0 = V[np.argmin(E)]
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
         guess_pars = [E0, K0, 4., V0]
-- 
2.43.0


From 83a5f1112cdfd70704034bf6d21bab10d4a966df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 25/57] fix: isobaric heat capacity is exported with its unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index cc8ec9b..ce2ca57 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1285,7 +1285,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('Cv', 'S', 'Cp', 'Cp-Cv'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 9b764f1168f7e1e290b3315d19431ef15e93cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 26/57] fix: QHA results file reports the name of the job

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index ce2ca57..2cf64de 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1249,7 +1249,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From caf5c73f3e4dde9c5bd9c155d631d5d2ec1a1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:21 +0000
Subject: [PATCH 27/57] fix: export of the static and zero-point energies of
 harmonic results

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..4efa423 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -155,6 +157,8 @@ class QHATableFile():
             f.write(newrow())
             f.write(separator(totw, '+', '='))
             f.write(nl)
+            # static and zero-point energies do not depend on x (temperature)
+            z = np.broadcast_to(z, (len(x), len(y)))
             for i in range(len(x)):
                 f.write(put_data(x[i], self.types[xname]['numstyle']))
                 for j in range(len(y)):
-- 
2.43.0


From 8a9b99c111a20d79d79a914d6ee549b34bf04967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 28/57] fix: readers of elastic and QHA outputs do not share
 their data

---
 quantas/interfaces/crystal.py | 38 +++++++++++++++++------------------
 quantas/interfaces/vasp.py    |  9 ++++-----
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..00dbb11 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -791,22 +791,21 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
         BasicReader.__init__(self, crystal_output)
         return
 
@@ -1420,14 +1419,13 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, crystal_soec_output)
         return
 
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..dce07f0 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,14 +20,13 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, vasp_outcar)
         return
 
-- 
2.43.0


From 18975f944344e43695d3559b82bc6991628901e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 29/57] fix: elastic constants of VASP in Voigt order

---
 quantas/interfaces/vasp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index dce07f0..66d73c3 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -55,8 +55,10 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # VASP order is XX, YY, ZZ, XY, YZ, ZX; Voigt order is XX, YY, ZZ, YZ,
+        # ZX, XY
+        order = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][np.ix_(order, order)]
 
         self.completed = True
         return
-- 
2.43.0


From e4909a816acccbc40c8cd5d0c014e4f527a4ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 30/57] fix: a malformed phonopy file is reported as an error

---
 quantas/interfaces/phonopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..93d19ef 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -209,8 +209,9 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = str(exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
-- 
2.43.0


From 9a329ee4251b1c145e357a3ac3a0d23eba9a9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 31/57] fix: atomic positions of phonopy are not truncated to
 integers

---
 quantas/interfaces/phonopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 93d19ef..c0b7e73 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -221,7 +221,7 @@ class PhonopyReader(BasicReader):
 
         natom = len(idata['supercell']['points'])
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['supercell']['lattice']
 
         for i in range(natom):
@@ -236,7 +236,7 @@ class PhonopyReader(BasicReader):
         """
         natom = idata['natom']
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['lattice']
 
         for i in range(natom):
-- 
2.43.0


From 12f7ed549eeca182f2e7b532a1bea85660361ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 32/57] fix: an incomplete list of modes is reported, not
 waited for

---
 quantas/interfaces/crystal.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 00dbb11..160d107 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -727,27 +727,25 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
-                band = np.zeros(self.nphonon, dtype=float)
-                line_counter = 0
-                freq_counter = 0
+                band = []
 
-                while not finished or freq_counter != self.nphonon:
-                    line = data[i + line_counter + 2].split()
+                for line in data[i+2:]:
+                    line = line.split()
 
                     if len(line) == 0:
-                        finished = True
-                        continue
+                        break
 
                     mode_n1 = int(line[0][:-1])
                     mode_n2 = int(line[1])
 
                     for j in range(mode_n2 - mode_n1 + 1):
-                        band[freq_counter] = float(line[3])
-                        freq_counter += 1
+                        band.append(float(line[3]))
 
-                    line_counter += 1
+                if len(band) != self.nphonon:
+                    # incomplete list of modes
+                    return {}
 
+                band = np.array(band, dtype=float)
                 phonons[band_counter] = band
                 band_counter +=1
 
-- 
2.43.0


From 162d77d82aa9b0ef280df8c279b74beb5214c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 33/57] fix: frequencies of a supercell without phonon
 dispersion can be read

---
 quantas/interfaces/crystal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 160d107..9c26a20 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -101,8 +101,12 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
+            if self.scelphono_on:
+                self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                              self.set_q_mesh(file)
+            else:
+                self.qcoords = [[0., 0., 0.]]
+                self.weights = [1]
 
         else:
             self.unitcell = self.set_wf_cell(file)
-- 
2.43.0


From 443c092fd64b7ca403a60a14d25efd6bf7030492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 34/57] fix: phonon data that miss some q-points are reported

---
 quantas/interfaces/crystal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 9c26a20..cdf1ae2 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -132,6 +132,9 @@ class CrystalPhononReader(BasicReader):
         if not bool(self.phonons):
             self.error = 'No phonon data in {0}'.format(file)
             return
+        if len(self.phonons) != self.qpoints:
+            self.error = 'Incomplete phonon data in {0}'.format(file)
+            return
         self.completed = True
         return
 
-- 
2.43.0


From b07ac1cb31d6fe7135e476cd67f07a321cbcf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 35/57] fix: QHA input creators do not share their data

---
 quantas/IO/qha_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..9c1d838 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -31,12 +31,12 @@ class QHAInputCreator(object):
         }
     
     interface = None
-    phondata = []
-    reference = {}
 
     def __init__(self, interface=None):
         """
         """
+        self.phondata = []
+        self.reference = {}
         self.interface_flag = interface
         return
 
-- 
2.43.0


From 72e86209bc08b4398a33f52c5c77458dbb2243a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 36/57] fix: QHA input files are readable for every description
 of the job

---
 quantas/IO/qha_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 9c1d838..acd01de 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -109,7 +109,8 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        # quoted, as the description is free text
+        data.append("job: '{}'".format(jobname.replace("'", "''")))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -161,7 +162,8 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        # quoted, as the description is free text
+        data.append("job: '{}'".format(jobname.replace("'", "''")))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From e6ad3993838e2464157c17c527b0d15b0e110931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 37/57] fix: job description of a QHA input can be a number

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..c9b2100 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -99,7 +99,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
-- 
2.43.0


From d931fb1282738abaa0dbaf003d9aae622f0847d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 38/57] fix: QHA inputs without mandatory data are reported

---
 quantas/IO/qha_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index c9b2100..29bc8bf 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -69,7 +69,9 @@ class QHAInputFileReader(BasicReader):
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self._data, dict):
+            if self.error is None:
+                self.error = 'The provided input does not contain any data'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
@@ -80,6 +82,10 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
+        for key in ('natom', 'supercell', 'qpoints'):
+            if not key in self._data:
+                self.error = 'No {} value in input file'.format(key)
+                return
         self.completed = True
         return
 
-- 
2.43.0


From e83ccb6fff674d30890c6fab42c1a1b757fecdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 39/57] fix: invalid reference of the QHA input generator is
 reported

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From 9c85f7ce956b13cad9967ecf2f029a5c37fbe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 40/57] fix: volumes and expansions of left-handed cells are
 positive

---
 quantas/IO/qha_reader.py      |  2 +-
 quantas/interfaces/crystal.py | 14 +++++++-------
 quantas/interfaces/phonopy.py |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 29bc8bf..3874640 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -124,7 +124,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return abs(int(np.around(np.linalg.det(self._data['supercell']),0)))
 
     @property
     def qpoints(self):
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index cdf1ae2..c8896dd 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -308,11 +308,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -410,7 +410,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def qpoints(self):
@@ -1016,7 +1016,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def energy(self):
@@ -1033,7 +1033,7 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = abs(np.linalg.det(self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1309,7 +1309,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index c0b7e73..a831f04 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -176,7 +176,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def qpoints(self):
-- 
2.43.0


From 6af805038c16432df59391e9b72fd72c28cec343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 41/57] fix: an incomplete QHA output of CRYSTAL is reported as
 an error

---
 quantas/interfaces/crystal.py | 47 +++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index c8896dd..b24295b 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -841,18 +841,23 @@ class CrystalQHAReader(BasicReader):
 
         self.supercell_on = self.is_supercell(file)
 
-        if self.supercell_on:
-            self.dim = self.set_expansion(file)
-
-        self.qpoints, self.qcoords, self.weights = self.set_dummy_qmesh()
-        ordered_volumes = self.set_volume(file)
-        cells = self.set_unit_cells(file)
-        self._data['unitcell'] = self.set_ordered_cells(cells,
-                                                        ordered_volumes)
-
-        self._data['energy'] = self.set_energy(file)
-
-        self.phonons = self.set_phonons(file)
+        try:
+            if self.supercell_on:
+                self.dim = self.set_expansion(file)
+
+            self.qpoints, self.qcoords, self.weights = self.set_dummy_qmesh()
+            ordered_volumes = self.set_volume(file)
+            cells = self.set_unit_cells(file)
+            self._data['unitcell'] = self.set_ordered_cells(cells,
+                                                            ordered_volumes)
+
+            self._data['energy'] = self.set_energy(file)
+
+            self.phonons = self.set_phonons(file)
+        except (IndexError, ValueError):
+            self.error = 'The CRYSTAL14/17 output of the QHA calculation is '
+            self.error += 'incomplete or \nnot readable'
+            return
 
         self.completed = True
         return
@@ -1149,7 +1154,7 @@ class CrystalQHAReader(BasicReader):
             data = f.readlines()
 
         points = 0
-        for i in range(sline, sline+100):
+        for i in range(sline, min(sline+100, len(data))):
             if len(data[i].split()) != 2:
                 break
             else:
@@ -1307,16 +1312,14 @@ class CrystalQHAReader(BasicReader):
             List of ordered unit cell data by increasing unit cell volume.
 
         """
-        indexes = []
-        for i in range(len(cells)):
-            volume = abs(np.linalg.det(cells[i]['lattice']))
-            for j in range(len(cells)):
-                if np.isclose(volume, ordered_volumes[j]):
-                    indexes.append(j)
-
         ordered_cells = []
-        for i in range(len(cells)):
-            ordered_cells.append(cells[indexes.index(i)])
+        for volume in ordered_volumes:
+            for cell in cells:
+                if np.isclose(abs(np.linalg.det(cell['lattice'])), volume):
+                    ordered_cells.append(cell)
+                    break
+            else:
+                raise ValueError('No cell with volume {}'.format(volume))
 
         return ordered_cells
 
-- 
2.43.0


From c27d957ede8be2671ac72517e0d86e4addba7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 42/57] fix: acoustic entropy of Kieffer's model is the
 derivative of its free energy

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..b967d09 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -227,7 +227,7 @@ class Kieffer(object):
         wmin = 1.e-6
         wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From af61542e43c32f07e003e2d9a16a43e6021485c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 43/57] fix: missing acoustic frequencies are reported as an
 error

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 2cf64de..1b4196d 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -259,7 +259,7 @@ class QHACalculator(BasicCalculator):
         ndarray(dtype=float, ndim=2)
             Array containing the acoustic frequency values at each volume.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From d3b5a38c34bfc27507c4ec80fef46450d36a0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 44/57] fix: acoustic heat capacity of Kieffer's model at very
 low temperature is not NaN

---
 quantas/qha/utils/kieffer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index b967d09..4e88f8e 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -149,9 +149,8 @@ class Kieffer(object):
             """
             xi = xnti / temperature
             num = np.power(np.arcsin(x/xi), 2.) * np.power(x, 2.)
-            num *= np.exp(x)
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= (np.exp(x) - 1.) * (1. - np.exp(-x))
             value = num / den
             return value
 
-- 
2.43.0


From 892e3b2f517bfbb88631dd3a04693851c6a0cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 45/57] fix: interactive EoS fitting works with the supported
 versions of numpy

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From 889081c7d0520a5b0e153d60dfd0c2cb9db83571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 46/57] fix: output file of the EoS fitting can be chosen

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From e4dd6a56a63cb19548a95f696964dbbdf890b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 47/57] fix: commands do not overwrite their input file

---
 quantas/eosfit/commands/cmd_eosfit.py   | 6 ++++++
 quantas/harmonic/commands/cmd_ha.py     | 6 ++++++
 quantas/harmonic/commands/cmd_inpgen.py | 6 ++++++
 quantas/qha/commands/cmd_qha.py         | 6 ++++++
 quantas/soec/commands/cmd_inpgen.py     | 6 ++++++
 quantas/soec/commands/cmd_soec.py       | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..48f80cb 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -54,6 +54,12 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+    if os.path.abspath(logfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..0c87448 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -72,6 +72,12 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if os.path.abspath(logfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..d83dd2c 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -64,6 +64,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo_highlight(quantas_title())
 
+    if os.path.abspath(outfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     if not os.path.isfile(filename):
         echo_error(quantas_error(), bold=True)
         echo_error("'{}' is not a file".format(filename))
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..bfa12e2 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -116,6 +116,12 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if os.path.abspath(logfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..aafa822 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -59,6 +59,12 @@ def soec_inpgen(filename, outfile, interface):
 
     echo_highlight(quantas_title())
 
+    if os.path.abspath(outfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     if not os.path.isfile(filename):
         echo_error(quantas_error(), bold=True)
         echo_error('{} is not a file'.format(filename))
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..e5ade43 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -64,6 +64,12 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    if os.path.abspath(logfile) == os.path.abspath(filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}'".format(
+            filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From c98fbd6168e1bcad4c36a21477822d632fbc75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 48/57] fix: header of input errors is reported in the log file

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 quantas/harmonic/commands/cmd_ha.py   | 2 +-
 quantas/qha/commands/cmd_qha.py       | 2 +-
 quantas/soec/commands/cmd_soec.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 48f80cb..50b9c06 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -82,7 +82,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 0c87448..1acd4bf 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -105,7 +105,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index bfa12e2..ee1c1c9 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -157,7 +157,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index e5ade43..195e51e 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -97,7 +97,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From c802a19400f6e58995e09401cf41064b50236010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 49/57] fix: unit of the volumes in the report of the
 quasi-harmonic results

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 1b4196d..0e970e3 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1210,7 +1210,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From b06b7d9b8f69e368d7f63aa47ef999279d6f741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 50/57] fix: fit parameters and uncertainties of the static
 energy were reported with lost or wrong digits

---
 quantas/qha/qha.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 0e970e3..67ed379 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -405,20 +405,14 @@ class QHACalculator(BasicCalculator):
                 if i == 3:
                     label = 'V0'
                 try:
-                    magnitude = np.log10(err)
-                    if magnitude < 0.:
-                        magnitude = -int(np.floor(magnitude))
-                    else:
-                        magnitude = int(magnitude)
+                    # number of decimals that leaves one digit in the error
+                    magnitude = max(0, -int(np.floor(np.log10(err))))
                     red_err = err*np.power(10., magnitude)
-                    if np.log10(int(np.round(red_err,0))) >= 1.:
+                    if magnitude > 0 and np.round(red_err, 0) >= 10.:
                         magnitude -= 1
                         red_err = err*np.power(10., magnitude)
-                    if magnitude > 0:
-                        red_val = np.round(val, magnitude)
-                    else:
-                        red_val = int(np.round(val, magnitude))
-                    red_err = int(np.round(red_err,0))
+                    red_val = '{:.{}f}'.format(val, magnitude)
+                    red_err = int(np.round(red_err, 0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
                 except OverflowError:
                     self.echo('{} = {}({})'.format(label, val, err))
-- 
2.43.0


From 49134a46c09285e2bd4ad8a2742bec472332510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 51/57] fix: exported tables could overwrite the file entered
 instead of an existing one without asking

---
 quantas/harmonic/utils/export.py | 7 +++----
 quantas/qha/utils/export.py      | 7 +++----
 quantas/seismic/utils/export.py  | 7 +++----
 quantas/soec/utils/export.py     | 7 +++----
 4 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index fec0a0d..8706f76 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -75,11 +75,10 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index b708139..aadeb24 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -75,11 +75,10 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..a6fdb49 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -74,11 +74,10 @@ class QuantasSeismicExport(object):
                 if selection in key:
                     data = self.data[key]['values']
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             self.new_info = self.info.splitlines()
             self.new_info[9] = 'This file contains the following dataset:'
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index aeda7bc..a783524 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -81,11 +81,10 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = SOECTableFile()
             tabled_data.write(outfile, degree, data, selection, unit)
-- 
2.43.0


From 10b42b779e9b59a5110d5ef3955e992afdf6f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:08 +0000
Subject: [PATCH 52/57] fix: negative lobes of the linear compressibility were
 cut in the figures

---
 quantas/soec/utils/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..182ea88 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
-- 
2.43.0


From e72a180969aabac02ff760336f63dae39d920b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 53/57] fix: cofactor of a matrix was computed but not returned

---
 quantas/utils/math/fast_math.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/math/fast_math.pyx b/quantas/utils/math/fast_math.pyx
index 8c259f3..38034d9 100644
--- a/quantas/utils/math/fast_math.pyx
+++ b/quantas/utils/math/fast_math.pyx
@@ -129,5 +129,5 @@ cpdef cofactor(double[:,::1] mat):
     c[2][0] = m[0][1]*m[1][2] - m[0][2]*m[1][1]
     c[2][1] = m[0][2]*m[1][0] - m[0][0]*m[1][2]
     c[2][2] = m[0][0]*m[1][1] - m[0][1]*m[1][0]
-    return
+    return cof
 
-- 
2.43.0


From cb6679e099a9fe5855cb05b62c8b37efc668e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 54/57] fix: malformed or incomplete EoS inputs raised an
 exception or were accepted without data

---
 quantas/IO/eos_reader.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index d631a3b..041f39c 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -189,6 +189,10 @@ class EoSInputFileReader(BasicReader):
             if keyword.lower() == 'data':
                 self.set_data(data, i)
 
+        if self.error is None and (
+                self.pressure is None or len(self.pressure) == 0):
+            self.error = 'No data (DATA keyword) provided in input file'
+
         if not isinstance(self.error, type(None)):
             self.completed = False
         else:
@@ -215,8 +219,11 @@ class EoSInputFileReader(BasicReader):
             Index of the line where the name of the job was found.
 
         """
-        while self.is_comment(inpdata[idx]):
+        while idx < len(inpdata) and self.is_comment(inpdata[idx]):
             idx += 1
+        if idx == len(inpdata):
+            self.error = 'No job name follows the JOB keyword'
+            return idx
         self._data['job'] = inpdata[idx].rstrip('\n')
         return idx
 
@@ -237,6 +244,9 @@ class EoSInputFileReader(BasicReader):
         """
         found = False
         while not found:
+            if idx >= len(inpdata):
+                self.error = 'No data format follows the FORMAT keyword'
+                return
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -292,8 +302,13 @@ class EoSInputFileReader(BasicReader):
                 stop = True
                 continue
 
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except (IndexError, ValueError):
+                self.error = 'Data line "{}" does not match the format'.format(
+                    line.strip())
+                return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From 8d408ba81b1495217ef28cc65452a7622872931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 55/57] fix: (Q)HA inputs with a wrong number of data were
 accepted

---
 quantas/IO/qha_reader.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 3874640..1d6b2ea 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -86,9 +86,37 @@ class QHAInputFileReader(BasicReader):
             if not key in self._data:
                 self.error = 'No {} value in input file'.format(key)
                 return
-        self.completed = True
+        try:
+            self.error = self._check_sizes()
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
+            self.error = 'Wrong type of data in input file'
+        if self.error is None:
+            self.completed = True
         return
 
+    def _check_sizes(self):
+        """
+        Check that the number of data is the expected one.
+
+        Returns
+        -------
+
+        None or str
+            Description of the first inconsistency found in the input data.
+        """
+        if np.size(self.energy) != self.nvol:
+            return 'Number of energy values different from that of volumes'
+        if len(self._data['phonon']) != self.qpoints:
+            return 'Number of phonon data different from that of q-points'
+        for q in self._data['phonon']:
+            if len(q['band']) != self.natoms*3:
+                return 'Number of phonon bands different from 3*natom'
+            for band in q['band']:
+                if np.size(self._get_float(band['frequency'])) != self.nvol:
+                    return 'Number of frequencies different from that of ' \
+                        'volumes'
+        return None
+
     @staticmethod
     def _get_float(item):
         try:
-- 
2.43.0


From d4c811102bd2fe1a4962a6f3e3fefc98a87ac7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 56/57] fix: incomplete tables of elastic constants raised an
 exception

---
 quantas/interfaces/crystal.py | 4 ++--
 quantas/interfaces/vasp.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index b24295b..72a3f35 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1458,11 +1458,11 @@ class CrystalSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].replace('|','').split()
+            line = ''.join(data[i+sline:i+sline+1]).replace('|','').split()
             for j in range(6-i):
                 try:
                     self._data['stiffness'][i, j+i] = float(line[j])
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+i+1)
                     self.error += 'Please, check the CRYSTAL output file'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 66d73c3..4c5176f 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -45,11 +45,11 @@ class VASPSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].split()
+            line = ''.join(data[i+sline:i+sline+1]).split()
             for j in range(6):
                 try:
                     self._data['stiffness'][i, j] = float(line[j+1]) / 10.
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+1)
                     self.error += 'Please, check the OUTCAR file'
-- 
2.43.0


From e4421427a0bffe3d088ced66c2c48cd0adc66c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 57/57] fix: incomplete phonopy and VASP files raised an
 exception

---
 quantas/interfaces/phonopy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index a831f04..65b8f9a 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -92,7 +92,11 @@ class PhonopyReader(BasicReader):
         #
         vasprun = os.path.splitext(file)[0] + '.xml'
         if os.path.exists(vasprun):
-            root = ET.parse(vasprun).getroot()
+            try:
+                root = ET.parse(vasprun).getroot()
+            except ET.ParseError as exc:
+                self.error = 'VASP output cannot be read: ' + str(exc)
+                return
             energy_results = root.findall('calculation/energy/i')
             for energy_elem in energy_results:
                 if energy_elem.attrib['name'] == 'e_wo_entrp':
@@ -107,15 +111,18 @@ class PhonopyReader(BasicReader):
             self.error = ' File not found!'.format(file)
             return
 
-        self.unitcell = self.set_unit_cell(idata)
-
         error, exception, dispdata = self.load_yaml(dispfile)
         if error:
             self.error = exception
             return
-        self.supercell = self.set_displacements(dispdata)
 
-        self.set_phonons(idata)
+        try:
+            self.unitcell = self.set_unit_cell(idata)
+            self.supercell = self.set_displacements(dispdata)
+            self.set_phonons(idata)
+        except (IndexError, KeyError, TypeError, ValueError):
+            self.error = 'Incomplete or wrong data in the phonopy files'
+            return
 
         self.completed = True
         return
-- 
2.43.0

