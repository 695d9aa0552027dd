From f607e6c9f64f6450378f4d7f8a420a1e4b93de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 01/73] fix: SOEC reader keeps its data per instance

The data dictionary was a class attribute: every instance shared it, so a
file without a job name or density reported those of the file read before.
---
 quantas/IO/soec_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..e69386e 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -31,12 +31,6 @@ class SOECInputFileReader(BasicReader):
         Text explaining the error encountered in the input file.
     """
 
-    _data ={
-        'job': 'Unknown',
-        'stiffness': None,
-        'density': 0.
-        }
-
     def __init__(self, soec_input):
         """ Class constructor.
 
@@ -99,6 +93,12 @@ class SOECInputFileReader(BasicReader):
 
         """
 
+        self._data = {
+            'job': 'Unknown',
+            'stiffness': None,
+            'density': 0.
+            }
+
         with open(filename, 'r') as f:
             data = f.readlines()
 
-- 
2.43.0


From a837f02cff7d38c97704532fdd5d1bf795762516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 02/73] fix: EoS reader keeps its data and format per instance

Both dictionaries were class attributes: columns of the file read before
were looked up (and reported) in the next file, too.
---
 quantas/IO/eos_reader.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..706df6c 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -31,20 +31,6 @@ class EoSInputFileReader(BasicReader):
 
     """
 
-    _data ={
-        'job': 'Unknown',   # Job name
-        'v': None,          # Volume values
-        'sigmav': None,     # Error in volume measures
-        'p': None,          # Pressure values
-        'sigmap': None,     # Error in pressure measures
-        'a': None,          # a lattice parameter values
-        'sigmaa': None,     # Error in a-axis measures
-        'b': None,          # b lattice parameter values
-        'sigmab': None,     # Error in b-axis measures
-        'c': None,          # c lattice parameter values
-        'sigmac': None,     # Error in a-axis measures
-        }
-
     _formats = [
         'v', 'sigmav',
         'p', 'sigmap',
@@ -66,8 +52,6 @@ class EoSInputFileReader(BasicReader):
         'sigmac': ['sigmac', 'sigc'],
         }
 
-    _format = {}
-
     def __init__(self, eos_input):
         """
         Constructor method of the class.
@@ -167,6 +151,21 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
+        self._data = {
+            'job': 'Unknown',   # Job name
+            'v': None,          # Volume values
+            'sigmav': None,     # Error in volume measures
+            'p': None,          # Pressure values
+            'sigmap': None,     # Error in pressure measures
+            'a': None,          # a lattice parameter values
+            'sigmaa': None,     # Error in a-axis measures
+            'b': None,          # b lattice parameter values
+            'sigmab': None,     # Error in b-axis measures
+            'c': None,          # c lattice parameter values
+            'sigmac': None,     # Error in a-axis measures
+            }
+        self._format = {}
+
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
-- 
2.43.0


From b9274b5bcf358f93af4fc19515002b4f6050d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 03/73] fix: EoS reader stores aliased uncertainty columns
 under their own key

'sigP', 'sigV', ... are accepted in FORMAT, but were stored under the alias
and never found again: the uncertainties were silently ignored.
---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 706df6c..f5b0c8b 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -238,7 +238,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
-- 
2.43.0


From c22be3142b8ee32dd7f3366161b93348560f5fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 04/73] fix: EoS reader ends on a job named 'Unknown' or a
 missing job name

The search for the job name looped forever when the name was 'Unknown', and
stopped with an IndexError on a blank line or at the end of the file.
---
 quantas/IO/eos_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index f5b0c8b..4082175 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -203,12 +203,12 @@ class EoSInputFileReader(BasicReader):
             Index of the line where the name of the job is supposed to be.
 
         """
-        while self._data['job'] == 'Unknown':
+        while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
-                idx += 1
-            else:
+            if not self.is_comment(line):
                 self._data['job'] = line
+                break
+            idx += 1
         return
 
     def set_data_format(self, inpdata, idx):
-- 
2.43.0


From fe272a594a54b7d19f7edd5ad475b28f428638d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 05/73] fix: CRYSTAL QHA and SOEC readers keep their data per
 instance

The dictionaries (and arrays in them) were class attributes: a second SOEC
output was added to the first one, and an earlier reader changed under its
user.
---
 quantas/interfaces/crystal.py | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..44b77af 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -791,21 +791,6 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
         BasicReader.__init__(self, crystal_output)
         return
@@ -814,6 +799,21 @@ class CrystalQHAReader(BasicReader):
         """
 
         """
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
+
         if not self.is_qha(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to QHA calculations'
@@ -1420,11 +1420,6 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
@@ -1434,6 +1429,11 @@ class CrystalSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to elastic constants calculations'
-- 
2.43.0


From 8f40a99bdd1d93111c6d4e80042c357a0104c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 06/73] fix: VASP SOEC reader keeps its data per instance

The stiffness array was a class attribute: an earlier reader changed under
its user when another OUTCAR was read.
---
 quantas/interfaces/vasp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..36713b9 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,11 +20,6 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
@@ -34,6 +29,11 @@ class VASPSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = "'{}' does not appear to be a VASP output\n".format(
                 file)
-- 
2.43.0


From a1cbf7453cb41cd7a70f1fa82440ab36a82fd07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 07/73] fix: VASP elastic moduli are stored in Voigt's order

OUTCAR lists them as XX YY ZZ XY YZ ZX; exchanging the 4th and 6th only left
the 4th and 5th (YZ and ZX) interchanged, unnoticed in cubic crystals.
---
 quantas/interfaces/vasp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 36713b9..fad7813 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -56,8 +56,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # from the VASP order (XX YY ZZ XY YZ ZX) to Voigt's (.. YZ ZX XY)
+        voigt = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][voigt][:, voigt]
 
         self.completed = True
         return
-- 
2.43.0


From bf9914942ad91eaef394d19a842ec256393892a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 08/73] fix: CRYSTAL phonon reader ends on, and refuses,
 incomplete frequencies

A list of modes shorter than expected (e.g. a truncated output) made the
search loop forever; missing k points were left out without notice.
---
 quantas/interfaces/crystal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 44b77af..20383df 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -732,7 +732,7 @@ class CrystalPhononReader(BasicReader):
                 line_counter = 0
                 freq_counter = 0
 
-                while not finished or freq_counter != self.nphonon:
+                while not finished:
                     line = data[i + line_counter + 2].split()
 
                     if len(line) == 0:
@@ -748,12 +748,20 @@ class CrystalPhononReader(BasicReader):
 
                     line_counter += 1
 
+                # frequencies are missing
+                if freq_counter != self.nphonon:
+                    return {}
+
                 phonons[band_counter] = band
                 band_counter +=1
 
                 if band_counter == self.qpoints:
                     break
 
+        # bands are missing
+        if band_counter != self.qpoints:
+            return {}
+
         return phonons
 
     def _get_start_line(self, file, search_string):
-- 
2.43.0


From 1395573d7b7564061873fb807d6b1d64b2cf57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 09/73] fix: interactive EoS fitting no longer uses the removed
 numpy aliases

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From 137de59aa1268cefe4a0f691fcbecf26060e372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 10/73] fix: eosfit honours its --outfile option

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From acd572cf99227d12052ea2bb421762bae2405131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 11/73] fix: (Q)HA input creator keeps its data per instance

---
 quantas/IO/qha_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..d1cb906 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,7 @@ class QHAInputCreator(object):
         """
         """
         self.interface_flag = interface
+        self.phondata = []
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
-- 
2.43.0


From a5ebd7249bdbf1f64c777ea1fc843e2ea6d4690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 12/73] fix: exporters keep their data per instance

---
 quantas/harmonic/utils/export.py | 3 +++
 quantas/qha/utils/export.py      | 3 +++
 quantas/soec/utils/export.py     | 1 +
 3 files changed, 7 insertions(+)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..fec0a0d 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -27,6 +27,9 @@ class QuantasHarmonicExport(object):
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..b708139 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -27,6 +27,9 @@ class QuantasQHAExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..aeda7bc 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -26,6 +26,7 @@ class QuantasSOECExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
-- 
2.43.0


From c3e7495a8355f860068130fcf3745d0b1804da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 13/73] fix: phonopy reader reports YAML errors

---
 quantas/interfaces/phonopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..93d19ef 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -209,8 +209,9 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = str(exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
-- 
2.43.0


From eb43bce3b12a61c205e1900c570a72a264fc0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 14/73] fix: (Q)HA input generator refuses a reference outside
 of the list

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From 632af8c80cab0dc644b7c9c03962b80e4412648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 15/73] fix: exporters ask before overwriting the alternative
 file too

---
 quantas/harmonic/utils/export.py | 7 +++----
 quantas/qha/utils/export.py      | 7 +++----
 quantas/soec/utils/export.py     | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index fec0a0d..8706f76 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -75,11 +75,10 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index b708139..aadeb24 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -75,11 +75,10 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index aeda7bc..a783524 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -81,11 +81,10 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+                    break
+                outfile = click.prompt('Please, enter a file name')
 
             tabled_data = SOECTableFile()
             tabled_data.write(outfile, degree, data, selection, unit)
-- 
2.43.0


From 3e115af18ff4f2959f5a83ededaa657aeb6231fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 16/73] fix: HA exporter writes quantities that do not depend
 on temperature

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..ec6b46b 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -133,6 +135,8 @@ class QHATableFile():
               y, yname, yunit,
               z, zname, zunit
               ):
+        # Some quantities (U0, Uzp) do not depend on x
+        z = np.broadcast_to(np.atleast_2d(z), (len(x), len(y)))
         with open(outfile, 'wt', encoding='utf8') as f:
             totw, dataw = calc_space(len(y))
             # Write the header
-- 
2.43.0


From 0b9f846dd6678584727edd12c60076d5585d2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 17/73] fix: SOEC results hold no made-up polar data

---
 quantas/soec/soec.py         | 24 +-----------------------
 quantas/soec/utils/export.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..5306996 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -126,29 +126,7 @@ class SOECCalculator(BasicCalculator):
         results_dict = {
             'avgs': None,
             'eigv': None,
-            'polar': {
-                'xy': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'xz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'yz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    }
-                },
+            'polar': {},
             }
         return results_dict
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index a783524..1f8b6ec 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -47,16 +47,21 @@ class QuantasSOECExport(object):
                 self.error += ' file'
                 return
 
-            self.keys = ['E', 'LC', 'G', 'Nu']
+            self.keys = []
             for key in f.keys():
                 if not 'polar_' in key:
                     continue
                 else:
-                    if 'waves' in key and not 'waves' in self.keys:
-                        self.keys.append('waves')
+                    name = key.split('_')[1]
+                    if not name in self.keys:
+                        self.keys.append(name)
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if not self.keys:
+                self.error = 'This file does not contain polar data, run the '
+                self.error += 'SOEC analysis with the --polar option'
         return
 
     def run(self):
-- 
2.43.0


From 9d032667e5ca4cef902e0787886be9906027d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 18/73] fix: a log line that cannot be written is no longer
 lost silently

---
 quantas/cmdline/utils/messages.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/quantas/cmdline/utils/messages.py b/quantas/cmdline/utils/messages.py
index 0e215e4..354aeee 100644
--- a/quantas/cmdline/utils/messages.py
+++ b/quantas/cmdline/utils/messages.py
@@ -86,7 +86,8 @@ def init_logfile(logfile=None):
     
     """
     if not isinstance(logfile, type(None)):
-        print('', file=open(logfile, 'w'))
+        with open(logfile, 'w') as f:
+            print('', file=f)
     return
 
 
@@ -114,7 +115,8 @@ def echo(msg, logfile=None, silent=False, bold=False):
     if not silent:
         click.secho(msg, bold=bold)
     if not isinstance(logfile, type(None)):
-        print(msg, file=open(logfile, 'a'))
+        with open(logfile, 'a') as f:
+            print(msg, file=f)
     return
 
 
@@ -141,7 +143,8 @@ def echo_error(msg, logfile=None, silent=False, bold=False):
     """
     click.secho(msg, bold=bold, fg=FGCOLORS['error'])
     if not isinstance(logfile, type(None)):
-        print(msg, file=open(logfile, 'a'))
+        with open(logfile, 'a') as f:
+            print(msg, file=f)
     return
 
 def echo_warning(msg, logfile=None, silent=False, bold=False):
@@ -167,7 +170,8 @@ def echo_warning(msg, logfile=None, silent=False, bold=False):
     """
     click.secho(msg, bold=bold, fg=FGCOLORS['warning'])
     if not isinstance(logfile, type(None)):
-        print(msg, file=open(logfile, 'a'))
+        with open(logfile, 'a') as f:
+            print(msg, file=f)
     return
 
 
@@ -195,7 +199,8 @@ def echo_highlight(msg, logfile=None, silent=False, bold=True):
     if not silent:
         click.secho(msg, bold=bold, fg=FGCOLORS['highlight'])
     if not isinstance(logfile, type(None)):
-        print(msg, file=open(logfile, 'a'))
+        with open(logfile, 'a') as f:
+            print(msg, file=f)
     return
 
 
-- 
2.43.0


From 760d8c9005481e8e2af1c6d074d519f6541fc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 19/73] fix: the log of a run never overwrites its input file

---
 quantas/cmdline/utils/messages.py     | 10 +++++++++-
 quantas/eosfit/commands/cmd_eosfit.py |  2 +-
 quantas/harmonic/commands/cmd_ha.py   |  2 +-
 quantas/qha/commands/cmd_qha.py       |  2 +-
 quantas/soec/commands/cmd_soec.py     |  2 +-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/quantas/cmdline/utils/messages.py b/quantas/cmdline/utils/messages.py
index 354aeee..509fd99 100644
--- a/quantas/cmdline/utils/messages.py
+++ b/quantas/cmdline/utils/messages.py
@@ -74,7 +74,7 @@ ___________.__       .__       .__
     return msg
 
 
-def init_logfile(logfile=None):
+def init_logfile(logfile=None, inputfile=None):
     """
     Init the file used to log information on the current software run.
 
@@ -83,9 +83,17 @@ def init_logfile(logfile=None):
 
     logfile: str
         Path to the log file.
+
+    inputfile: str, optional
+        Path to the input file of the run, which must not be the log file.
     
     """
     if not isinstance(logfile, type(None)):
+        if (not isinstance(inputfile, type(None)) and os.path.exists(logfile)
+                and os.path.samefile(logfile, inputfile)):
+            raise click.UsageError(
+                "The log file '{}' would overwrite the input file, please "
+                "select another output file".format(logfile))
         with open(logfile, 'w') as f:
             print('', file=f)
     return
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..37705c5 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -54,7 +54,7 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
-    init_logfile(logfile)
+    init_logfile(logfile, filename)
 
     echo_highlight(quantas_title(), logfile)
 
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..ba610db 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -72,7 +72,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
-    init_logfile(logfile)
+    init_logfile(logfile, filename)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..13ba39a 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -116,7 +116,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
-    init_logfile(logfile)
+    init_logfile(logfile, filename)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..83d7780 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -64,7 +64,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
-    init_logfile(logfile)
+    init_logfile(logfile, filename)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
 
-- 
2.43.0


From 2163cbbec78806481a6528bef68500499f302e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 20/73] fix: input generators ask before overwriting an
 existing file

---
 quantas/harmonic/commands/cmd_inpgen.py | 6 ++++++
 quantas/soec/commands/cmd_inpgen.py     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..5d6730d 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -89,6 +89,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error(error)
         return
 
+    if os.path.exists(outfile):
+        if not confirm('Output file {} exists. '
+                       'Would you like to overwrite it?'.format(outfile)):
+            echo('Input file not saved')
+            return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
         if not 0 <= ref < len(generator.phondata):
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..8683e76 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -84,6 +84,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error(error)
         return
 
+    if os.path.exists(outfile):
+        if not confirm('Output file {} exists. '
+                       'Would you like to overwrite it?'.format(outfile)):
+            echo('Input file not saved')
+            return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     msg = '\nPlease, enter a short description for the input file: '
     jobname = prompt(msg, default='Unknown', show_default=False)
-- 
2.43.0


From cb074f606e87d0eb0b20b33704a16e80e3e90687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 21/73] fix: SOEC analysis stops on a mechanically unstable
 matrix

---
 quantas/soec/soec.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 5306996..8a545d0 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -223,11 +223,10 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if eigv[0] <= 0:
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
-            self.echo(msg)
-            self.echo('No further analysis will be performed.')
+            self.error = msg + '\nNo further analysis will be performed.'
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From 79badfd29faf8b4b1f720205c7095f4beb0a4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 22/73] fix: (Q)HA reader refuses incomplete phonon data

---
 quantas/IO/qha_reader.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..5516a41 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -69,7 +69,10 @@ class QHAInputFileReader(BasicReader):
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self.error, type(None)):
+            return
+        if not isinstance(self._data, dict):
+            self.error = 'No (Q)HA data in input file'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
@@ -80,9 +83,38 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
+        try:
+            consistent = self._has_all_data()
+        except (KeyError, TypeError, ValueError, AttributeError, IndexError):
+            consistent = False
+        if not consistent:
+            self.error = 'Phonon data are missing or not consistent with the '
+            self.error += 'number of atoms, q-points and volumes'
+            return
         self.completed = True
         return
 
+    def _has_all_data(self):
+        """
+        Check that each declared q-point provides its weight and each of its
+        bands, with one frequency per volume.
+        """
+        nvol = np.size(self.volume)
+        nband = 3*int(self.natoms)
+        if np.size(self.energy) != nvol or self.kpoints < 1:
+            return False
+        if len(self._data['phonon']) != int(self.qpoints):
+            return False
+        for q in self._data['phonon']:
+            if np.size(self._get_float(q['weight'])) != 1:
+                return False
+            if len(q['band']) != nband:
+                return False
+            for item in q['band']:
+                if np.size(self._get_float(item['frequency'])) != nvol:
+                    return False
+        return True
+
     @staticmethod
     def _get_float(item):
         try:
-- 
2.43.0


From 81c9fa96f27995914cfda04eca5d9235b53d1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 23/73] fix: EoS reader reports missing and incomplete data

---
 quantas/IO/eos_reader.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 4082175..bed7224 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -183,6 +183,10 @@ class EoSInputFileReader(BasicReader):
             if keyword.lower() == 'data':
                 self.set_data(data, i)
 
+        if (isinstance(self._data['p'], type(None)) and
+                isinstance(self.error, type(None))):
+            self.error = 'No data (DATA keyword) provided in input file'
+
         if not isinstance(self.error, type(None)):
             self.completed = False
         else:
@@ -227,7 +231,7 @@ class EoSInputFileReader(BasicReader):
 
         """
         found = False
-        while not found:
+        while not found and idx < len(inpdata):
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -259,7 +263,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if not 'p' in self._format:
             self.error = 'No pressure data provided in input file'
             return
 
@@ -283,8 +287,13 @@ class EoSInputFileReader(BasicReader):
                 stop = True
                 continue
 
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except (IndexError, ValueError):
+                self.error = 'Data do not follow the provided format, line '
+                self.error += '{}'.format(idx + 1)
+                return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From 0bc90a97d902681124d2e27e8357b29fdc7c07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 24/73] fix: SOEC reader accepts lower triangular matrices

---
 quantas/IO/soec_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index e69386e..eca021b 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -127,11 +127,12 @@ class SOECInputFileReader(BasicReader):
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
+            lower = [len(line.split()) for line in matstr] == [1,2,3,4,5,6]
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j if lower else j+(6-n)] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
@@ -144,7 +145,7 @@ class SOECInputFileReader(BasicReader):
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
             if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From 3f89057619529fe1d018f8659915c7a2c8c57138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 25/73] fix: axial EoS fits start from the parameters shown to
 the user

---
 quantas/eosfit/eosfit.py       | 2 ++
 quantas/eosfit/utils/pv_eos.py | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index 2297145..c93140a 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -163,6 +163,8 @@ class EoSFitCalculator(BasicCalculator):
 
                 if do_init_guess:
                     guess = eos.guess(values, self.input.pressure)
+                    if linearized:
+                        guess[0] = guess[0]*3.
                     do_init_guess = False
 
                 while not change_eos:
diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..e3551c6 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -143,10 +143,10 @@ class EOS(object):
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
+            #
+            # Check if we're going to perform a linearized fit
+            if linear == True:
+                p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From c36b58eb338f1fcb9d5db11d78b94bef358a7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 26/73] fix: eosfit reports a rejected fit instead of
 uninitialised memory

---
 quantas/eosfit/eosfit.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index c93140a..acf0dd5 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -14,6 +14,8 @@ Quantas, alongside specific functions used by interactive runs.
 """
 import numpy as np
 
+from quantas.cmdline.utils.messages import echo_error
+
 # Basic claculator
 from quantas.core.calculator import BasicCalculator
 
@@ -179,14 +181,21 @@ class EoSFitCalculator(BasicCalculator):
                         linear=linearized, fixed=fix
                         )
 
-                    self.report_fit(
-                        results, values, data_name, eos.__repr__(), order,
-                        weights, fix, labels
-                        )
-
-                    if confirm('Update the parameters'):
-                        guess = results.beta[:]
+                    if results.info >= 10000:
+                        # ODRPACK rejected the problem, nothing was fitted
                         self.echo('')
+                        echo_error('Fit not possible: {0}'.format(
+                            ', '.join(results.stopreason)), self.log)
+                        self.echo('')
+                    else:
+                        self.report_fit(
+                            results, values, data_name, eos.__repr__(),
+                            order, weights, fix, labels
+                            )
+
+                        if confirm('Update the parameters'):
+                            guess = results.beta[:]
+                            self.echo('')
 
                     change_data = not confirm('Would you like to continue '
                                               'fitting on the same data?')
-- 
2.43.0


From d910f6df86ad05d6a66acc90d7b17d8ff574d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 27/73] fix: QHA results label Cp and Cp-Cv with their unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..6cd551c 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1280,7 +1280,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ['Cv', 'S', 'Cp', 'Cp-Cv']:
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 157e17df2c33bbcbc7621b900f5f0741aaef5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 28/73] fix: CRYSTAL SOEC reader refuses incomplete matrix rows

---
 quantas/interfaces/crystal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 20383df..882cc0d 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1461,6 +1461,11 @@ class CrystalSOECReader(BasicReader):
 
         for i in range(6):
             line = data[i+sline].replace('|','').split()
+            if len(line) != 6-i:
+                self.error = 'Row {} of the SOEC matrix is '.format(i+1)
+                self.error += 'missing or not complete\n'
+                self.error += 'Please, check the CRYSTAL output file'
+                return
             for j in range(6-i):
                 try:
                     self._data['stiffness'][i, j+i] = float(line[j])
-- 
2.43.0


From 5a1b46a7a4f97a693e78156aa67ada943b9b7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 29/73] fix: SOEC reader refuses matrices with incomplete rows

---
 quantas/IO/soec_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index eca021b..5455bdf 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -141,6 +141,11 @@ class SOECInputFileReader(BasicReader):
             form = []
             for i in range(6):
                 form.append(len(matstr[i].split()))
+            # Each row should be complete
+            if form not in ([6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6]):
+                self.error = 'The SOEC matrix should be either complete '
+                self.error += 'or triangular'
+                return
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
-- 
2.43.0


From 8863088704c3d0520ff04298aaf35699e441ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 30/73] fix: inpgen ha refuses sources with different numbers
 of atoms or q-points

---
 quantas/IO/qha_writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index d1cb906..8c27cf4 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -72,6 +72,14 @@ class QHAInputCreator(object):
                 self.phondata = data
             else:
                 self.phondata.append(data)
+                first = self.phondata[0]
+                if (data.natom != first.natom or
+                        data.qpoints != first.qpoints):
+                    error = 'File {} is not consistent with '.format(file)
+                    error += '{}:\nthe numbers of atoms and '.format(
+                        file_list[0])
+                    error += 'q-points should be the same'
+                    return False, error
 
             if c == reference and self.interface_flag != 'crystal-qha':
                 echo(' Done! (Reference)')
-- 
2.43.0


From d5951fb747db5fc2733ab9a1525b5c53feef59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 31/73] fix: EoS reader refuses files without data rows

---
 quantas/IO/eos_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index bed7224..7212af5 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -295,6 +295,10 @@ class EoSInputFileReader(BasicReader):
                 self.error += '{}'.format(idx + 1)
                 return
 
+        if not data['p']:
+            self.error = 'No data follow the DATA keyword in input file'
+            return
+
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
         return
-- 
2.43.0


From 983b3aff74b0e282dc23d8a7b1c35c2e69472e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 32/73] fix: (Q)HA reader refuses empty values instead of
 reading them as nan

---
 quantas/IO/qha_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 5516a41..30dd85c 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -117,6 +117,8 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_float(item):
+        if item is None or (isinstance(item, list) and None in item):
+            raise TypeError('missing value')
         try:
             return np.float64(item)
         except ValueError:
-- 
2.43.0


From c509725a5d39cce0c62d0f151334631be82c17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 33/73] fix: VASP SOEC reader refuses incomplete matrix rows

---
 quantas/interfaces/vasp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index fad7813..0f5579c 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -47,6 +47,11 @@ class VASPSOECReader(BasicReader):
 
         for i in range(6):
             line = data[i+sline].split()
+            if len(line) != 7:
+                self.error = 'Row {} of the SOEC matrix is '.format(i+1)
+                self.error += 'missing or not complete\n'
+                self.error += 'Please, check the OUTCAR file'
+                return
             for j in range(6):
                 try:
                     self._data['stiffness'][i, j] = float(line[j+1]) / 10.
-- 
2.43.0


From 9d01c72e969e710385c3ec27ce7c4a626212fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 34/73] fix: (Q)HA reader takes text for a list of values only
 if nothing else is given

---
 quantas/IO/qha_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 30dd85c..36d1eee 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -122,6 +122,8 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.float64(item)
         except ValueError:
+            if not isinstance(item, list) or len(item) != 1:
+                raise
             return np.array(item[0].split(), dtype=np.float64)
 
     @staticmethod
-- 
2.43.0


From 86f29098ceaf641659dfca64a7c306c4c74c6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 35/73] fix: CRYSTAL readers do not repeat a single value for a
 whole lattice vector

---
 quantas/interfaces/crystal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 882cc0d..49e482f 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -580,7 +580,7 @@ class CrystalPhononReader(BasicReader):
             if lattice_vectors in data[i]:
                 for j in range(3):
                     lattice[j] = np.asarray(data[i+2+j].split(),
-                                            dtype=np.float64)
+                                            dtype=np.float64).reshape(3)
                 break
 
         return natoms, numbers, positions, lattice
@@ -619,7 +619,7 @@ class CrystalPhononReader(BasicReader):
         for i in range(3):
             line = data[sline+i].split()
             del(line[0])
-            expansion[i] = np.asarray(line, dtype=float)
+            expansion[i] = np.asarray(line, dtype=float).reshape(3)
         return expansion
 
     def set_q_mesh(self, file):
@@ -1194,7 +1194,7 @@ class CrystalQHAReader(BasicReader):
         for i in range(3):
             line = data[sline+i].split()
             del(line[0])
-            expansion[i] = np.asarray(line, dtype=float)
+            expansion[i] = np.asarray(line, dtype=float).reshape(3)
         return expansion
 
     def set_energy(self, file):
@@ -1369,7 +1369,7 @@ class CrystalQHAReader(BasicReader):
             if lattice_vectors in data[i]:
                 for j in range(3):
                     lattice[j] = np.asarray(data[i+2+j].split(),
-                                            dtype=np.float64)
+                                            dtype=np.float64).reshape(3)
                 break
 
         return natoms, numbers, positions, lattice
-- 
2.43.0


From 2b3adfa0d967b3de7f0aa1cc9405b5e0dceb2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 36/73] fix: log the error banner of refused inputs like that
 of other errors

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 quantas/harmonic/commands/cmd_ha.py   | 2 +-
 quantas/qha/commands/cmd_qha.py       | 2 +-
 quantas/soec/commands/cmd_soec.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 37705c5..eb75085 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -76,7 +76,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index ba610db..326ae7d 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -99,7 +99,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 13ba39a..738250a 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -151,7 +151,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 83d7780..7a6a68a 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -91,7 +91,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From 3a98faaf854c5993d6cf79ff130bf855cd6b454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 37/73] fix: an interrupted export does not leave a loadable
 results file

---
 quantas/harmonic/harmonic.py | 4 +++-
 quantas/qha/qha.py           | 4 +++-
 quantas/soec/soec.py         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..d4e23f5 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -313,7 +313,6 @@ temperature.
         properties = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']
 
         with h5py.File(filename, 'w') as f:
-            f.attrs['info'] = info
             dset = f.create_dataset('V', data=self.input.volume)
             dset.attrs['desc'] = 'Unit cell volume'
             dset.attrs['unit'] = self._vunit
@@ -332,5 +331,8 @@ temperature.
                     dset.attrs['unit'] = 'm'+self._eunit
                 else:
                     dset.attrs['unit'] = self._eunit
+            # last, as a file without it is refused: an interrupted export
+            # does not leave a file that looks complete
+            f.attrs['info'] = info
         self.echo('Calculated data exported to {0}'.format(filename))
         return
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 6cd551c..7f3e3d7 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1270,7 +1270,6 @@ pressure and temperature.
                       ]
 
         with h5py.File(filename, 'w') as f:
-            f.attrs['info'] = info
             dset = f.create_dataset('T', data=self.temperature)
             dset.attrs['desc'] = 'Temperature'
             dset.attrs['unit'] = self._tunit
@@ -1292,6 +1291,9 @@ pressure and temperature.
                     dset.attrs['unit'] = 'K^-1'
                 else:
                     dset.attrs['unit'] = self._eunit
+            # last, as a file without it is refused: an interrupted export
+            # does not leave a file that looks complete
+            f.attrs['info'] = info
         
         self.echo('Calculated data exported to {0}'.format(filename))
         
diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 8a545d0..de7379f 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -515,7 +515,6 @@ It contains the results of the analysis of the second-order elastic constants
 
 '''.format(self._punit, 'kg m^-3')
         with h5py.File(filename, 'w') as f:
-            f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
             dset = f.create_dataset('compliance', data=self.soec.compliance)
@@ -538,6 +537,9 @@ It contains the results of the analysis of the second-order elastic constants
                         dset.attrs['unit'] = 'km s^-1'
                     else:
                         dset.attrs['unit'] = ''
+            # last, as a file without it is refused: an interrupted export
+            # does not leave a file that looks complete
+            f.attrs['info'] = info
         
         self.echo('')
         self.echo('Calculated data exported to {0}'.format(filename))
-- 
2.43.0


From 2e892c2ea2ad12757b6b5d6b6471c897674ff008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 38/73] fix: results are flushed dataset by dataset so that
 write errors are reported

---
 quantas/harmonic/harmonic.py | 6 ++++++
 quantas/qha/qha.py           | 5 +++++
 quantas/soec/soec.py         | 7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index d4e23f5..87f5db3 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -312,18 +312,23 @@ temperature.
            self._tunit)
         properties = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']
 
+        # each dataset is flushed when written, as an error met later, when
+        # the library releases it, is not reported
         with h5py.File(filename, 'w') as f:
             dset = f.create_dataset('V', data=self.input.volume)
             dset.attrs['desc'] = 'Unit cell volume'
             dset.attrs['unit'] = self._vunit
+            dset.flush()
 
             dset = f.create_dataset('T', data=self.temperature)
             dset.attrs['desc'] = 'Temperature'
             dset.attrs['unit'] = self._tunit
+            dset.flush()
 
             dset = f.create_dataset('U0', data=self.input.energy)
             dset.attrs['desc'] = 'Static (electronic) energies'
             dset.attrs['unit'] = self._eunit
+            dset.flush()
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
@@ -331,6 +336,7 @@ temperature.
                     dset.attrs['unit'] = 'm'+self._eunit
                 else:
                     dset.attrs['unit'] = self._eunit
+                dset.flush()
             # last, as a file without it is refused: an interrupted export
             # does not leave a file that looks complete
             f.attrs['info'] = info
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 7f3e3d7..46920e7 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1269,13 +1269,17 @@ pressure and temperature.
                       'gruneisen'
                       ]
 
+        # each dataset is flushed when written, as an error met later, when
+        # the library releases it, is not reported
         with h5py.File(filename, 'w') as f:
             dset = f.create_dataset('T', data=self.temperature)
             dset.attrs['desc'] = 'Temperature'
             dset.attrs['unit'] = self._tunit
+            dset.flush()
             dset = f.create_dataset('P', data=self.pressure)
             dset.attrs['desc'] = 'Pressure'
             dset.attrs['unit'] = self._punit
+            dset.flush()
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
@@ -1291,6 +1295,7 @@ pressure and temperature.
                     dset.attrs['unit'] = 'K^-1'
                 else:
                     dset.attrs['unit'] = self._eunit
+                dset.flush()
             # last, as a file without it is refused: an interrupted export
             # does not leave a file that looks complete
             f.attrs['info'] = info
diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index de7379f..730d641 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -514,15 +514,21 @@ It contains the results of the analysis of the second-order elastic constants
   - density: {1}
 
 '''.format(self._punit, 'kg m^-3')
+        # each dataset is flushed when written, as an error met later, when
+        # the library releases it, is not reported
         with h5py.File(filename, 'w') as f:
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
+            dset.flush()
             dset = f.create_dataset('compliance', data=self.soec.compliance)
             dset.attrs['unit'] = 'TPa^-1'
+            dset.flush()
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
+            dset.flush()
             dset = f.create_dataset('eigenvals', data=self.results['eigv'])
             dset.attrs['unit'] = self._punit
+            dset.flush()
             for key in self.results['polar']:
                 for var in self.results['polar'][key]:
                     dsetname = 'polar_'+var+'_'+key
@@ -537,6 +543,7 @@ It contains the results of the analysis of the second-order elastic constants
                         dset.attrs['unit'] = 'km s^-1'
                     else:
                         dset.attrs['unit'] = ''
+                    dset.flush()
             # last, as a file without it is refused: an interrupted export
             # does not leave a file that looks complete
             f.attrs['info'] = info
-- 
2.43.0


From c9511effa54b65a80d87700a6c32e45e691f21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 39/73] fix: quote job names that YAML would read otherwise in
 generated inputs

---
 quantas/IO/qha_writer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 8c27cf4..b9f4d01 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -9,6 +9,7 @@
 ##############################################################################
 
 import os
+import yaml
 import numpy as np
 from copy import deepcopy
 
@@ -111,6 +112,13 @@ class QHAInputCreator(object):
             self.write_from_multiple_files(outfile, jobname, ref)
         return
 
+    @staticmethod
+    def _job_line(jobname):
+        """ Job name, quoted if YAML could read it as anything else. """
+        line = yaml.safe_dump({'job': jobname}, allow_unicode=True,
+                              width=float('inf'))
+        return line.rstrip('\n')
+
     def write_from_multiple_files(self, outfile, jobname, ref=0):
         """
         """
@@ -118,7 +126,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append(self._job_line(jobname))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -170,7 +178,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append(self._job_line(jobname))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From 35c2b80b0023b1a0c5d4da833b80d828bfe6837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 40/73] fix: SOEC reader recognises job names that begin with a
 digit or are blank

---
 quantas/IO/soec_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 5455bdf..35314a0 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -107,9 +107,13 @@ class SOECInputFileReader(BasicReader):
             self.error += 'the SOEC matrix'
             return
 
-        # Does the first line contain the job name?
+        # Does the first line contain the job name? It does if it is followed
+        # by a whole matrix, whatever it looks like
+        forms = ([6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6])
         line = data[0]
         try:
+            if [len(item.split()) for item in data[1:7]] in forms:
+                raise ValueError
             np.float64(line.strip()[0])
             start = 0
         except ValueError:
@@ -142,7 +146,7 @@ class SOECInputFileReader(BasicReader):
             for i in range(6):
                 form.append(len(matstr[i].split()))
             # Each row should be complete
-            if form not in ([6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6]):
+            if form not in forms:
                 self.error = 'The SOEC matrix should be either complete '
                 self.error += 'or triangular'
                 return
-- 
2.43.0


From 08d7792e47868c1ca4e9281658c336b0ae26230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 41/73] fix: input creator used again starts from the new
 sources

---
 quantas/IO/qha_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index b9f4d01..a805b11 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -50,6 +50,7 @@ class QHAInputCreator(object):
             return False, error
 
         c = 0
+        self.phondata = []
 
         if is_list:
             file_list = self.get_files_from_list(filename)
-- 
2.43.0


From 164457004376791763e6d91ac16c2bcd17c50500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 42/73] fix: an invalid EoS parameter is asked again

---
 quantas/eosfit/utils/interactive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index a8ad538..e4b1cca 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -315,7 +315,7 @@ def set_parameters(parameters, labels):
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
             parameters[i] = float(prompt("  {: <8}".format(
-                labels[i]), np.round(parameters[i], 5)))
+                labels[i]), np.round(parameters[i], 5), type=float))
     echo('')
     return parameters
 
-- 
2.43.0


From cf1fa73c617364a34b50668ca4982611e5a5e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 43/73] fix: an EoS fit does not change the starting parameters
 it is given

---
 quantas/eosfit/utils/pv_eos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index e3551c6..af9967a 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,7 +138,8 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            # a copy, as the fit sets the implied parameters in its own array
+            p0 = np.array(guess)
         except TypeError:
             #
             # Perform a guess on the parameters
-- 
2.43.0


From 695b836ad0822a929d1fff6924c59823c0a5b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 44/73] fix: temperature and pressure ranges do not exceed
 their maximum

---
 quantas/core/calculator.py   | 26 ++++++++++++++++++++++++++
 quantas/harmonic/harmonic.py |  2 +-
 quantas/qha/qha.py           |  4 ++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..2650231 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -13,6 +13,8 @@ This module contains a basic class that can be used as a base for other more
 sophisticated classes.
 """
 
+import numpy as np
+
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_warning
 from quantas.cmdline.utils.messages import echo_error
@@ -122,6 +124,30 @@ class BasicCalculator(object):
         """ Constructor for the basic calculator. """
         return
 
+    @staticmethod
+    def make_range(limits):
+        """
+        Return the values of a range that do not exceed its maximum.
+
+        Parameters
+        ----------
+        limits: tuple
+            Tuple containing the minimum, maximum and increment of the range.
+
+        Returns
+        -------
+        values: ndarray(dtype=float, ndim=1)
+            Array containing the values in the range. The minimum is always
+            the first one.
+
+        """
+        minimum, maximum, step = limits
+        values = np.arange(minimum, maximum + step, step)
+        # rounding errors must not exclude the maximum
+        inside = (values - maximum) / step < 1.e-6
+        inside[:1] = True
+        return values[inside]
+
     def read_input(self, filename):
         """
         Dummy method that will be overwritten in other classes.
diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 87f5db3..4bc9c01 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,7 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.make_range(temp)
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 46920e7..c0df766 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        self._pressure = self.make_range(press)
         return
 
     @property
@@ -310,7 +310,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.make_range(temp)
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 2264bc498b5656be521fc8bda0eafd1aaaccc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 45/73] fix: the Angstrom is 1e-10 m

---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..cc45fd2 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
@@ -588,7 +588,7 @@ def convert_volume(val, old_scale, new_scale):
     --------
     >>> from quantascli.utils.units import convert_volume
     >>> convert_volume(10.9897, 'Angstrom', 'bohr')
-    74.1654978184323
+    74.1621715953097
 
     """
     # Convert from `old_scale` to metres
-- 
2.43.0


From 853d9208c1456786cd2f36e5e06f71a1debd0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 46/73] fix: quasi-harmonic report labels volumes with their
 unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index c0df766..d341bc0 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1205,7 +1205,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 3a83d0cb54f736dfc9c73f66d96da2cbc87e5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 47/73] fix: quasi-harmonic results name their job

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index d341bc0..ee4713c 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1244,7 +1244,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From bdf2d74dbe42a2cd3cd9f55b105c5d4b76c60a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 48/73] fix: report the first axis of shear modulus and Poisson
 ratio extremes, not the second one twice

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 730d641..5fafb58 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -397,8 +397,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From e1e9271e5a2813ba547baad166ef7dafb2eb24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 49/73] fix: store the compliance in the unit it is labelled
 with

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 5fafb58..ea2972e 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -520,7 +520,7 @@ It contains the results of the analysis of the second-order elastic constants
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
             dset.flush()
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance', data=self.soec.compliance*1000)
             dset.attrs['unit'] = 'TPa^-1'
             dset.flush()
             dset = f.create_dataset('averages', data=self.results['avgs'])
-- 
2.43.0


From 72ff8f7000f899827ef6e483ea304a180c59959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 50/73] fix: do not report average velocities without a density

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ea2972e..c130d7a 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -371,7 +371,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From 98a5682662db9ab1930b04c457d261751fcdec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 51/73] fix: eigenvalues of the stiffness matrix by the
 symmetric solver

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index c130d7a..cb4c855 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -211,7 +211,7 @@ class SOECCalculator(BasicCalculator):
         #
         # Calculate stiffness eigenvalues
         self.echo_debug(' - Calculation stiffness eigenvalues')
-        eigv = sorted(np.linalg.eig(self.soec.stiffness)[0])
+        eigv = sorted(np.linalg.eigvalsh(self.soec.stiffness))
         #
         # Report current data
         
-- 
2.43.0


From eae089c910a787c497eb0a3bd717c2ff80a3ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 52/73] fix: tell tetragonal and trigonal crystals from
 hexagonal ones

---
 quantas/soec/utils/symmetry.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..771a055 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8, -9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Equal moduli may be of opposite sign
+                    s = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - s*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ('hexagonal', 'trigonal_high', 'trigonal_low'):
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From 099e7848f33b17e81a57bf784423f6716dfc7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 53/73] fix: find the extremes of shear modulus and Poisson
 ratio around each polar direction

---
 quantas/soec/utils/soec_obj.py | 59 +++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..0507e17 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -11,7 +11,6 @@
 import math
 import numpy as np
 from numpy import linalg
-from scipy import optimize
 import itertools as it
 from click import progressbar
 
@@ -338,23 +337,53 @@ class SOEC(object):
         Vs = np.sqrt(1000.0*G/self.density)
         return np.array([Vs, Vs, Vp])
 
+    @staticmethod
+    def extreme_chi(func, x, inverse=False):
+        """
+        Third angles for which the shear modulus or the Poisson's ratio along
+        a direction has its smallest and largest value. The Poisson's ratio
+        and the inverse of the shear modulus are quadratic forms of the
+        measurement vector, i.e. :math:`a + b \\cos 2\\chi + c \\sin 2\\chi`.
+
+        Parameters
+        ----------
+
+        func: function
+            Method calculating the property.
+
+        x: tuple
+            Tuple containing the :math:`\\theta` and :math:`\\phi`
+            angular values.
+
+        inverse: bool, optional
+            If True, it is the inverse of the property that has this form.
+
+        Returns
+        -------
+
+        tuple
+            Angles of the smallest and of the largest value.
+
+        """
+        val = [float(func([x[0], x[1], z])) for z in (0., np.pi/4., np.pi/2.)]
+        if inverse:
+            val = [1./v for v in val]
+        mean = (val[0] + val[2])/2.
+        chi = 0.5*np.arctan2(val[1] - mean, val[0] - mean)
+        if inverse:
+            return (chi, chi + np.pi/2.)
+        return (chi + np.pi/2., chi)
+
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.shear_modulus([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.shear_modulus([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (float(r1.fun), -float(r2.fun))
+        zmin, zmax = self.extreme_chi(self.shear_modulus, x, inverse=True)
+        return (float(self.shear_modulus([x[0], x[1], zmin])),
+                float(self.shear_modulus([x[0], x[1], zmax])))
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.poisson_ratio([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (min(0,float(r1.fun)), max(0,float(r1.fun)), -float(r2.fun))
+        zmin, zmax = self.extreme_chi(self.poisson_ratio, x)
+        numin = float(self.poisson_ratio([x[0], x[1], zmin]))
+        numax = float(self.poisson_ratio([x[0], x[1], zmax]))
+        return (min(0, numin), max(0, numin), numax)
 
     def phase_velocity(self, angles):
         """
-- 
2.43.0


From fb1e8a60bfeffd45d7746a446994809e9ce87d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 54/73] fix: find the global extremes of the elastic properties

---
 quantas/soec/soec.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index cb4c855..9051666 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -16,6 +16,7 @@ except ImportError:
 
 import numpy as np
 from scipy import optimize
+from scipy.ndimage import minimum_filter
 import h5py
 try:
     import matplotlib.pyplot as plt
@@ -62,8 +63,14 @@ def minimize(func, dim, method='fmin'):
         n = 10
         x0 = [1., 1., 1.]
     if method == 'fmin':
-        return optimize.brute(func, r, Ns = n, full_output = True,
-                              finish = optimize.fmin)[0:2]
+        _, _, grid, values = optimize.brute(func, r, Ns=n, full_output=True,
+                                            finish=None)
+        # Refine the lowest among the minima of the grid
+        low = np.argwhere(values == minimum_filter(values, size=3))
+        low = sorted([tuple(i) for i in low], key=lambda i: values[i])[:5]
+        res = [optimize.fmin(func, [g[i] for g in grid], full_output=True,
+                             disp=False)[0:2] for i in low]
+        return min(res, key=lambda x: x[1])
     elif method == 'bh':
         res = optimize.basinhopping(func, x0, niter=200)
         return [ res.x, res.fun ]
@@ -382,13 +389,26 @@ class SOECCalculator(BasicCalculator):
         self.echo('')
         return
 
-    def directional_variation(self, func, dim):
+    def directional_variation(self, func, dim, inverse=False):
         """
         """
         #
         # Minimum and maximum value
-        minval = minimize(func, dim)
-        maxval = maximize(func, dim)
+        if dim == 2:
+            minval = minimize(func, dim)
+            maxval = maximize(func, dim)
+        else:
+            # the third angle of the extremes follows from the other two
+            def low(x):
+                return [*x, self.soec.extreme_chi(func, x, inverse)[0]]
+
+            def high(x):
+                return [*x, self.soec.extreme_chi(func, x, inverse)[1]]
+
+            minval = minimize(lambda x: func(low(x)), 2)
+            minval = (low(minval[0]), minval[1])
+            maxval = maximize(lambda x: func(high(x)), 2)
+            maxval = (high(maxval[0]), maxval[1])
         #
         # Anisotropy
         if minval[1] > 0.:
@@ -419,7 +439,8 @@ class SOECCalculator(BasicCalculator):
     def dual_vector_variation(self):
         """
         """
-        G_var = self.directional_variation(self.soec.shear_modulus, 3)
+        G_var = self.directional_variation(self.soec.shear_modulus, 3,
+                                           inverse=True)
         Nu_var = self.directional_variation(self.soec.poisson_ratio, 3)
         return G_var, Nu_var
 
-- 
2.43.0


From 7084e018c3d7678c74e35e9009604c07674b84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 55/73] fix: a SOEC calculator used again keeps nothing of its
 previous run

---
 quantas/soec/soec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 9051666..63c9640 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -203,6 +203,11 @@ class SOECCalculator(BasicCalculator):
         Start SOEC analysis.
         """
         #
+        # Nothing is kept of a previous run
+        self.completed = False
+        self.error = None
+        self._results['polar'] = {}
+        #
         # Start timing
         tstart = clock()
         self.echo_debug('Start SOEC analysis')
-- 
2.43.0


From 8acfb8cfa747c83ede1efdc4b0a473e8b84e032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 56/73] fix: read a stiffness matrix without a job name that
 begins with a negative value

---
 quantas/IO/soec_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 35314a0..d83955b 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -114,7 +114,7 @@ class SOECInputFileReader(BasicReader):
         try:
             if [len(item.split()) for item in data[1:7]] in forms:
                 raise ValueError
-            np.float64(line.strip()[0])
+            np.float64(line.split()[0])
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From 4fc04e50eacfeb961427b4eda9217098e9d291d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 57/73] fix: refine distinct minima only in the search for the
 elastic extremes

---
 quantas/soec/soec.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 63c9640..dbf4505 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -65,9 +65,13 @@ def minimize(func, dim, method='fmin'):
     if method == 'fmin':
         _, _, grid, values = optimize.brute(func, r, Ns=n, full_output=True,
                                             finish=None)
-        # Refine the lowest among the minima of the grid
-        low = np.argwhere(values == minimum_filter(values, size=3))
-        low = sorted([tuple(i) for i in low], key=lambda i: values[i])[:5]
+        # Refine the lowest among the minima of the grid, once per value: a
+        # direction may be in the grid several times (e.g. theta = 0)
+        low = [tuple(i) for i in
+               np.argwhere(values == minimum_filter(values, size=3))]
+        _, first = np.unique(np.array(['%.9e' % values[i] for i in low]),
+                             return_index=True)
+        low = sorted([low[i] for i in first], key=lambda i: values[i])[:8]
         res = [optimize.fmin(func, [g[i] for g in grid], full_output=True,
                              disp=False)[0:2] for i in low]
         return min(res, key=lambda x: x[1])
-- 
2.43.0


From 3d93916cdf20115f0efcfaac9319997c74a1e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 58/73] fix: azimuth of a direction is the angle from x to y

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From 42a02081076153b3fab74ec74e5a955180d7ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 59/73] fix: a seismic solution interrupted half-way is not
 taken as complete

---
 quantas/seismic/utils/seismic_obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 36d7cc5..5b15784 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -457,8 +457,9 @@ class Seismic(object):
         """
         eigenval, eigenvec = np.linalg.eigh(self.M)
         sorting = np.argsort(eigenval)
-        self._eigenval = eigenval[sorting]
         self._eigenvec = eigenvec.T[sorting]
+        # The eigenvalues are the mark of a complete solution
+        self._eigenval = eigenval[sorting]
         return
 
     @property
-- 
2.43.0


From c9801f170aa4b337a2b9280e4f210d39e1e8a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 60/73] fix: sample every 4 degrees in the search for the
 elastic extremes

---
 quantas/soec/soec.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index dbf4505..f0dc2de 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -53,10 +53,9 @@ tv = '    {:10}' + 3*' | {: ^22.4f}'                # Triple value
 hh = '    {:10}' + 3*' | {: ^10}  {: ^10}'          # Hexa header
 hv = '    {:10}' + 3*' | {: ^10.4f}  {: ^10.4f}'    # Hexa values
 
-def minimize(func, dim, method='fmin'):
+def minimize(func, dim, method='fmin', n=46):
     if dim == 2:
         r = ((0, np.pi), (0, np.pi))
-        n = 25
         x0 = [1., 1.]
     elif dim == 3:
         r = ((0, np.pi), (0, np.pi), (0, np.pi))
@@ -80,8 +79,8 @@ def minimize(func, dim, method='fmin'):
         return [ res.x, res.fun ]
 
 
-def maximize(func, dim):
-    res = minimize(lambda x: -func(x), dim)
+def maximize(func, dim, n=46):
+    res = minimize(lambda x: -func(x), dim, n=n)
     return (res[0], -res[1])
 
 
@@ -414,9 +413,9 @@ class SOECCalculator(BasicCalculator):
             def high(x):
                 return [*x, self.soec.extreme_chi(func, x, inverse)[1]]
 
-            minval = minimize(lambda x: func(low(x)), 2)
+            minval = minimize(lambda x: func(low(x)), 2, n=25)
             minval = (low(minval[0]), minval[1])
-            maxval = maximize(lambda x: func(high(x)), 2)
+            maxval = maximize(lambda x: func(high(x)), 2, n=25)
             maxval = (high(maxval[0]), maxval[1])
         #
         # Anisotropy
-- 
2.43.0


From 79895b9e6061407ef7b89c11844f707e55aae1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 61/73] fix: close each polar figure once it is saved

---
 quantas/soec/soec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index f0dc2de..3f9b3b6 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -282,6 +282,7 @@ class SOECCalculator(BasicCalculator):
                 figure = self._plot_functions[prop](
                     polar['xy'][prop], polar['xz'][prop], polar['yz'][prop])
                 figure.savefig(figname, dpi=self._plot_dpi)
+                plt.close(figure)
                 self.echo(' - figure {} generated'.format(figname))
 
         elif self._plotting and not mpl:
-- 
2.43.0


From 621380f733e393e17a084a6102b8f38acd712ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 62/73] fix: let every curve fit in the polar figures

---
 quantas/soec/utils/plotting.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..538f7f5 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -91,15 +91,15 @@ def young_polar_plot(xy, xz, yz):
     title = "Young's modulus"
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.tight_layout()
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
@@ -182,17 +182,17 @@ def shear_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 2]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 2]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 2]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Minimum", "Maximum"), fontsize=12)
@@ -230,19 +230,19 @@ def poisson_polar_plot(xy, xz, yz):
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='blue', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 3], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 3]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='blue', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 3], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 3]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='blue', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 3], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 3]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Negative", "Minimum", "Maximum"), fontsize=12)
@@ -280,19 +280,19 @@ def seismic_waves_polar_plot(xy, xz, yz):
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='blue', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 3], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 3]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='blue', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 3], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 3]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='blue', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 3], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 3]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("$v_{s1}$", "$v_{s2}$", "$v_{p}$"), fontsize=12)
-- 
2.43.0


From 6f5b7ce40fc99ba0fbf97e718765fe7dedb097f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 63/73] fix: write the weight of a q-point as it was read

---
 quantas/IO/qha_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index a805b11..1013136 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -154,7 +154,7 @@ class QHAInputCreator(object):
         for i in range(reference.qpoints):
             data.append('- q-position: [ %12.7f, %12.7f, %12.7f ]'
                         % tuple(reference.qcoords[i]/reference.shrinkf))
-            data.append('  weight: %-5d' % reference.weights[i])
+            data.append('  weight: %-5.12g' % reference.weights[i])
             data.append('  band:')
             for j in range(reference.nphonon):
                 data.append('  - # {0}'.format(j+1))
@@ -207,7 +207,7 @@ class QHAInputCreator(object):
             data.append(
                 '- q-position: [ %12.7f, %12.7f, %12.7f ]'
                 % tuple(self.phondata.qcoords[i]/self.phondata.shrinkf))
-            data.append('  weight: %-5d' % self.phondata.weights[i])
+            data.append('  weight: %-5.12g' % self.phondata.weights[i])
             data.append('  band:')
             for j in range(self.phondata.nphonon):
                 data.append('  - # {0}'.format(j+1))
-- 
2.43.0


From ae77fa3ae1e206a1fa2fa4b205ca9cd8bc454ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 64/73] fix: refuse QHA outputs with more frequencies than
 their atoms have

---
 quantas/interfaces/crystal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 49e482f..494e09b 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -857,6 +857,10 @@ class CrystalQHAReader(BasicReader):
         self._data['energy'] = self.set_energy(file)
 
         self.phonons = self.set_phonons(file)
+        if not self.phonons:
+            self.error = 'The phonon frequencies do not match the number of '
+            self.error += 'atoms in {0}'.format(file)
+            return
 
         self.completed = True
         return
@@ -1390,6 +1394,10 @@ class CrystalQHAReader(BasicReader):
                 if data[i].split()[0] == 'FREQUENCY':
                     freq_idx.append(i+3)
 
+        # three for each atom and sampled k-point
+        if len(freq_idx) != nfreq:
+            return {}
+
         for i in range(nfreq):
             for j in range(self.points):
                 frequency_line = data[freq_idx[i] + j].split()
-- 
2.43.0


From 100a4022102ee7a616ec2ae54ee33942e670dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 65/73] fix: refuse phonopy outputs whose bands do not match
 their atoms and q-points

---
 quantas/interfaces/phonopy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 93d19ef..89d94ea 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -116,6 +116,8 @@ class PhonopyReader(BasicReader):
         self.supercell = self.set_displacements(dispdata)
 
         self.set_phonons(idata)
+        if not isinstance(self.error, type(None)):
+            return
 
         self.completed = True
         return
@@ -252,6 +254,12 @@ class PhonopyReader(BasicReader):
         nf = 3 * idata['natom']
         nq = idata['nqpoint']
 
+        if (len(idata['phonon']) != nq
+                or any(len(q['band']) != nf for q in idata['phonon'])):
+            self.error = 'The phonon bands do not match the number of atoms '
+            self.error += 'and q-points'
+            return
+
         self._data['nphonon'] = nf
         self._data['qpoints'] = nq
 
-- 
2.43.0


From 7287dfcc5588713ad16d34a735924827a27d2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 66/73] fix: refuse lines of QHA frequencies with anything but
 two numbers

---
 quantas/interfaces/crystal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 494e09b..560d9bd 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1401,6 +1401,8 @@ class CrystalQHAReader(BasicReader):
         for i in range(nfreq):
             for j in range(self.points):
                 frequency_line = data[freq_idx[i] + j].split()
+                if len(frequency_line) != 2:
+                    return {}
                 phonon_matrix[i, j] = float(frequency_line[1])
 
         bands = phonon_matrix.reshape(self.qpoints, self.natom*3, self.points)
-- 
2.43.0


From d87c60f7e91f48f32c91b067981166a0489fd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 67/73] fix: refuse phonon outputs with no cell in their
 supercell

---
 quantas/IO/qha_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 1013136..d34ba8c 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -70,6 +70,11 @@ class QHAInputCreator(object):
             if not data.completed:
                 return False, data.error
 
+            if data.kpoints < 1 or np.any(np.equal(data.shrinkf, 0)):
+                error = 'The expansion matrix or the shrinking factors '
+                error += 'in {} are not valid'.format(file)
+                return False, error
+
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
-- 
2.43.0


From ab2897617ff45ecc5dbc796c5f3ae7f1604a4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 68/73] fix: do not take the name of an EoS job for a keyword

---
 quantas/IO/eos_reader.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 7212af5..e185bb1 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -169,15 +169,17 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        name_line = None
         for i in range(len(data)):
             line = data[i]
-            # If empty or commented (#) lines are found, skip them
-            if self.is_comment(line):
+            # If empty or commented (#) lines are found, skip them. The name
+            # of the job is no keyword, whatever it begins with
+            if self.is_comment(line) or i == name_line:
                 continue
 
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                name_line = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
@@ -206,14 +208,23 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int or None
+            Index of the line with the name of the job, None if there is no
+            name before the next keyword or the end of the file.
+
         """
         while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
             if not self.is_comment(line):
+                if line.strip().lower() in ['job', 'format', 'data']:
+                    return None
                 self._data['job'] = line
-                break
+                return idx
             idx += 1
-        return
+        return None
 
     def set_data_format(self, inpdata, idx):
         """
-- 
2.43.0


From 0ee7ad227dc34494633fe3282d63c09de31d1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 69/73] fix: accept any job name in (Q)HA input files

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 36d1eee..a51e4d2 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -135,7 +135,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return 'Unknown' if item is None else str(item).rstrip()
 
     @property
     def data(self):
-- 
2.43.0


From 3ead4ec945ea757675b511f454352deee8432553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:33 +0000
Subject: [PATCH 70/73] fix: take the minimum of F + PV within the sampled
 volumes

---
 quantas/qha/qha.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index ee4713c..a733ce2 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1051,7 +1051,10 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
+            # a polynomial may have another minimum, far from the data
+            minima = find_polynomial_minimum(parameters, pressure)
+            middle = (np.min(volume) + np.max(volume)) / 2.
+            volume_PT = minima[np.argmin(np.abs(minima - middle))]
             return volume_PT, 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
-- 
2.43.0


From d8a87f4465b6ce1f2f56f67c2c77d3d34408ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:33 +0000
Subject: [PATCH 71/73] fix: start the E-V fit from the energy minimum among
 the data

---
 quantas/qha/utils/ev_eos.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..6e5ed11 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -147,8 +147,13 @@ class EnergyEOS(object):
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
+        # the minimum next to the data, as there may be others far from them
+        minima = np.isreal(V_roots) & \
+            (np.polyval(second_derivative, np.real(V_roots)) > 0.)
+        if np.any(minima):
+            V_roots = V_roots[minima]
+        middle = (np.min(V) + np.max(V)) / 2.
+        root_minimum = np.argmin(np.abs(V_roots - middle))
         V0 = np.real(V_roots[root_minimum])
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
-- 
2.43.0


From b478ef3116b8a9427bf3184c93ae843cc866c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:07 +0000
Subject: [PATCH 72/73] fix: static pressures of a quasi-harmonic report follow
 the volumes

---
 quantas/qha/qha.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index a733ce2..2644667 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -379,8 +379,11 @@ class QHACalculator(BasicCalculator):
             pressures = eos.pressure(
                 self.eos_formulation, eos_pars, self.volume)
         else:
-            pressures = -energy_to_pressure(
-                np.gradient(self.static_energy, self.volume),
+            # by the neighbouring volumes, whatever their order in the input
+            order = np.argsort(self.volume)
+            pressures = np.zeros(len(order), dtype=np.float64)
+            pressures[order] = -energy_to_pressure(
+                np.gradient(self.static_energy[order], self.volume[order]),
                 self._eunit, self._vunit, self._punit)
         self.echo(' {:15} {: ^15} {: ^30}'.format(plabel, vlabel, elabel))
         self.echo(' {:-^15} {:-^15} {:-^30}'.format('', '', ''))
-- 
2.43.0


From c38798593bb20d39fae62f007af7a487b9063041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:22 +0000
Subject: [PATCH 73/73] fix: CRYSTAL QHA outputs with an incomplete supercell
 section are refused

---
 quantas/interfaces/crystal.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 560d9bd..fdbe33e 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -847,6 +847,10 @@ class CrystalQHAReader(BasicReader):
 
         if self.supercell_on:
             self.dim = self.set_expansion(file)
+        elif self.is_expanded(file):
+            self.error = 'The supercell section in {0} is not complete'.format(
+                file)
+            return
 
         self.qpoints, self.qcoords, self.weights = self.set_dummy_qmesh()
         ordered_volumes = self.set_volume(file)
@@ -942,6 +946,31 @@ class CrystalQHAReader(BasicReader):
                     return True
             return False
 
+    def is_expanded(self, file):
+        """
+        This method checks if the CRYSTAL14/17 output file reports the
+        expansion matrix of a supercell.
+
+        Parameters
+        ----------
+
+        file: str
+            Path to the CRYSTAL14/17 output file.
+
+
+        Returns
+        -------
+
+        bool
+            Returns True if the matrix is reported, otherwise False.
+
+        """
+        with open(file, 'r') as f:
+            for line in f:
+                if supercell_expansion in line:
+                    return True
+            return False
+
     @property
     def results(self):
         """
-- 
2.43.0

