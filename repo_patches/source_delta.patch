From 2d3f72a1b222024f9049bccbf9f48130102997f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:53 +0000
Subject: [PATCH 01/24] fix: SMEFT translators honour the parameters passed by
 the user

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 206952788f3e73ad66781e934aa92ea8654d4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:53 +0000
Subject: [PATCH 02/24] fix: defining a child basis no longer modifies its
 parent basis

---
 wcxf/classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..502932e 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -222,10 +222,12 @@ class Basis(WCxf, NamedInstanceClass):
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
-                self.sectors.update(sectors)
+                parent_sectors = Basis[self.eft, self.parent].sectors
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
+            # copy to avoid modifying the parent basis
+            self.sectors = parent_sectors.copy()
+            self.sectors.update(sectors)
         else:
             self.sectors = sectors
         self._all_wcs = None
-- 
2.43.0


From fa066b5f2a653e18200995ed7732b8dcd6eefc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:53 +0000
Subject: [PATCH 03/24] fix: do not register a basis whose parent cannot be
 found

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 502932e..182bc85 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -217,7 +217,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -231,6 +230,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # register the instance only once it is complete
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From 7d69f3aed99f7f3141366ac572bdffa5634bb49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 04/24] fix: WC.validate rejects unknown coefficients also
 under python -O

---
 wcxf/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 182bc85..a08b9fc 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -364,8 +364,9 @@ class WC(WCxf):
         except (AttributeError, KeyError):
             raise ValueError("Basis {} not defined for EFT {}".format(self.basis, self.eft))
         unknown_keys = set(self.values.keys()) - set(basis_instance.all_wcs)
-        assert unknown_keys == set(), \
-            "Wilson coefficients do not exist in this basis: " + str(unknown_keys)
+        if unknown_keys:
+            raise ValueError("Wilson coefficients do not exist in this basis: "
+                             + str(unknown_keys))
 
     @property
     def dict(self):
-- 
2.43.0


From 225e8d4690dc37bbd90aafc77705e1ea9d2ccaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 05/24] fix: basis validation when latex is absent or writes no
 log file

Without a log file, an UnboundLocalError was raised; without latex, the
temporary directory was left behind.
---
 wcxf/classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index a08b9fc..2081f8e 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -73,6 +73,8 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -80,6 +82,7 @@ def _testtex(s, delete=True):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
         with open(logf, 'r') as f:
             logl = f.readlines()
-- 
2.43.0


From 79b2886330ddf9bad633961e3247251268813318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 06/24] fix: string representation of a basis with empty
 coefficient definitions

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 2081f8e..6e37840 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -307,6 +307,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}  # the definition of a coefficient can be empty
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From ae38205cc88b6796e3e38117015842217c36e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 07/24] fix: EFT.known_bases before any basis has been defined

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 6e37840..8a0109d 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -206,7 +206,8 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in getattr(Basis, 'instances', ())
+                     if basis[0] == self.eft)
 
     @property
     def known_translators(self):
-- 
2.43.0


From 4253c2a8128d1472a0aa5bf17200bdfc33720263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 08/24] fix: wcxf command reports failures by its exit status

The return values of the subcommands were discarded, and every
AttributeError was hidden behind the help text.
---
 wcxf/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..e653e80 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,18 +75,21 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):  # no subcommand given
         parser.print_help()
+        return
+    return args.func(args)
 
 
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
+    elif args.FORMAT.lower() == 'yaml':
+        return convert_yaml(args.FILE, args.output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        return 1
 
 
 def translate(args):
-- 
2.43.0


From 3b61e8028d091595fc6e0b95c5da3e405c9f6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 09/24] fix: m_c(m_c) is the initial condition with 4 flavours
 only

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..6227df8 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From 7f4fc9a1f30fcafc207069eb6373b799818a8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 10/24] fix: matching of SMEFT files without scalar
 coefficients

Missing scalar coefficients were filled in as arrays of shape (1,).
---
 wcxf/util/smeftutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..0e86d64 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -573,7 +573,8 @@ def add_missing(C):
     """Add arrays with zeros for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        shape = C_keys_shape[k]
+        C_out[k] = 0. if shape == 1 else np.zeros(shape)
     return C_out
 
 
-- 
2.43.0


From 8cdb40b2ee9f54d5d09494257c2dca091eafa90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 11/24] fix: rotate down-type dipole coefficients to the mass
 basis

---
 wcxf/translators/wet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..72d6b85 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -963,8 +963,13 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ia,jb,ijkl->abkl',
                          UdL.conj(), UdL,
                          C_in[k])
+    # type dL X
+    for k in ['dgamma', 'dG']:
+        C[k] = np.einsum('ia,ij->aj',
+                         UdL.conj(),
+                         C_in[k])
     # type dL X dL X
-    for k in ['S1ddRR', ]:
+    for k in ['S1ddRR', 'S8ddRR']:
         C[k] = np.einsum('ia,kc,ijkl->ajcl',
                          UdL.conj(), UdL.conj(),
                          C_in[k])
-- 
2.43.0


From f6aad483bda11534c60271a9444b6dd6e1cc9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 12/24] fix: index order of VddRR and VuuRR in the 4-quark
 Fierz basis

---
 wcxf/translators/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 72d6b85..86df27f 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -294,7 +294,7 @@ def _JMS_to_Fierz_III_IV_V(C, qqqq):
                  'F'+ qqqq +'10' : -C["S1ddRR"][f1, f4, f3, f2] / 8
                                    + C["S8ddRR"][f3, f2, f1, f4] / (16 * Nc),
                  'F'+ qqqq +'1p' : C["VddRR"][f3, f4, f1, f2],
-                 'F'+ qqqq +'2p' : C["VddRR"][f1, f3, f4, f2],
+                 'F'+ qqqq +'2p' : C["VddRR"][f1, f4, f3, f2],
                  'F'+ qqqq +'3p' : C["V1ddLR"][f3, f4, f1, f2]
                                    - C["V8ddLR"][f3, f4, f1,f2] / (2 * Nc),
                  'F'+ qqqq +'4p' : C["V8ddLR"][f3, f4, f1, f2] / 2,
@@ -337,7 +337,7 @@ def _JMS_to_Fierz_III_IV_V(C, qqqq):
                 'F' + qqqq + '10' : -C["S1uuRR"][f1, f4, f3, f2] / 8
                                     + C["S8uuRR"][f3, f2, f1, f4] / (16 * Nc),
                 'F'+ qqqq + '1p': C["VuuRR"][f3, f4, f1, f2],
-                'F' + qqqq + '2p': C["VuuRR"][f1, f3, f4, f2],
+                'F' + qqqq + '2p': C["VuuRR"][f1, f4, f3, f2],
                 'F' + qqqq + '3p' : C["V1uuLR"][f3, f4, f1, f2]
                                     - C["V8uuLR"][f3, f4, f1,f2] / (2 * Nc),
                 'F' + qqqq + '4p' : C["V8uuLR"][f3, f4, f1, f2] / 2,
-- 
2.43.0


From c759d5db0161756e0704480aab0784559664402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 13/24] fix: s->d nu nu coefficients in the formflavor basis

They were overwritten by the d->b ones.
---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 86df27f..86972a3 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From dab178dd6cc81a0ff2da3854dffa30596febd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 14/24] fix: normalization of leptonic dipoles in the
 formflavor basis

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 86972a3..57d7c35 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From ec178f13f6a275c7b793a855200bc33684381005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 15/24] fix: flavio to Bern translation drops the s->d nu nu
 coefficients

---
 wcxf/translators/wet.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 57d7c35..0d24be1 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -554,12 +554,18 @@ def JMS_to_Fierz_lep(C, ddll):
         }
 
 
-def Fierz_to_Bern_lep(C,ddll):
+def Fierz_to_Bern_lep(C, ddll, include_charged=True):
     """From semileptonic Fierz basis to Bern semileptonic basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
     ind = ddll.replace('l_','').replace('nu_','')
-    return {'1' + ind : 5 * C['F'+ ind + '10'] / 3 + C['F'+ ind + '9'],
+    dic = {
+            'nu1' + ind : C['F' + ind + 'nu'],
+            'nu1p' + ind : C['F' + ind + 'nup']
+            }
+    if include_charged:
+        dic.update({
+            '1' + ind : 5 * C['F'+ ind + '10'] / 3 + C['F'+ ind + '9'],
             '3' + ind : -C['F' + ind + '10'] / 6,
             '5' + ind : C['F' + ind + 'S'] - 5 * C['F' + ind + 'P'] / 3,
             '7' + ind : 2 * C['F' + ind + 'P'] / 3 + C['F' + ind + 'T']
@@ -571,9 +577,8 @@ def Fierz_to_Bern_lep(C,ddll):
             '7p' + ind : -2 * C['F' + ind + 'Pp'] / 3 + C['F' + ind + 'T']
                         - C['F' + ind + 'T5'],
             '9p' + ind : -C['F' + ind + 'Pp'] / 24,
-            'nu1' + ind : C['F' + ind + 'nu'],
-            'nu1p' + ind : C['F' + ind + 'nup']
-            }
+            })
+    return dic
 
 
 def Bern_to_Fierz_lep(C,ddll):
@@ -634,7 +639,7 @@ def Fierz_to_Flavio_lep(C, ddll, parameters, include_charged=True):
     return {k: prefactor * v for k,v in dic.items()}
 
 
-def Flavio_to_Fierz_lep(C, ddll, parameters):
+def Flavio_to_Fierz_lep(C, ddll, parameters, include_charged=True):
     """From  Flavio semileptonic basis to semileptonic Fierz basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
@@ -654,6 +659,11 @@ def Flavio_to_Fierz_lep(C, ddll, parameters):
     e = sqrt(4* pi * parameters['alpha_e'])
     mb = parameters['m_b']
     dic = {
+        'F' + ind + 'nu': C["CL_" + indnu] / ((8 * pi**2) / e**2),
+        'F' + ind + 'nup': C["CR_" + indnu] / ((8 * pi**2) / e**2),
+        }
+    if include_charged:
+        dic.update({
         'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
         'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
         'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
@@ -662,11 +672,9 @@ def Flavio_to_Fierz_lep(C, ddll, parameters):
         'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
         'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
         'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'nu': C["CL_" + indnu] / ((8 * pi**2) / e**2),
-        'F' + ind + 'nup': C["CR_" + indnu] / ((8 * pi**2) / e**2),
         'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
         'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
-        }
+        })
     prefactor = sqrt(2)/p['GF']/xi/4
     return {k: v / prefactor for k, v in dic.items()}
 
@@ -1148,6 +1156,11 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
             d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
                                         'db'+'l_'+l+'nu_'+lp, p),
                                         'db'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        include_charged=False),
+                                        'ds'+'l_'+l+'nu_'+lp,
+                                        include_charged=False))
 
     # Class V chromomagnetic
     d.update(Fierz_to_Bern_chrom(Flavio_to_Fierz_chrom(C, 'sb', p), 'sb', p))
-- 
2.43.0


From d9fbd63db559b98c56dc4b7041d9afde55e8c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:03 +0000
Subject: [PATCH 16/24] fix: keep the sign of real coefficients in the SMEFTsim
 card

The diagonal phil1 ... phie coefficients and (set A) ee_3333 are real and
have no phase entry, but only their modulus was written.
---
 wcxf/converters/smeftsim.py | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..0285d54 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -739,48 +739,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(wc.dict['phil1_11'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(wc.dict['phil1_22'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(wc.dict['phil1_33'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(wc.dict['phil3_11'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(wc.dict['phil3_22'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(wc.dict['phil3_33'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(wc.dict['phiq1_11'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(wc.dict['phiq1_22'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(wc.dict['phiq1_33'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(wc.dict['phiq3_11'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(wc.dict['phiq3_22'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(wc.dict['phiq3_33'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(wc.dict['phie_11'] * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(wc.dict['phie_22'] * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(wc.dict['phie_33'] * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(wc.dict['phiu_11'] * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(wc.dict['phiu_22'] * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(wc.dict['phiu_33'] * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(wc.dict['phid_11'] * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(wc.dict['phid_22'] * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(wc.dict['phid_33'] * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -958,7 +958,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
@@ -2703,66 +2703,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(wc.dict['phil1_11']* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(wc.dict['phil1_22']* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(wc.dict['phil1_33']* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format(wc.dict['phil3_11']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format(wc.dict['phil3_22']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format(wc.dict['phil3_33']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format(wc.dict['phiq1_11']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format(wc.dict['phiq1_22']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format(wc.dict['phiq1_33']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format(wc.dict['phiq3_11']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format(wc.dict['phiq3_22']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format(wc.dict['phiq3_33']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format(wc.dict['phiu_11']* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format(wc.dict['phiu_22']* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format(wc.dict['phiu_33']* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format(wc.dict['phid_11']* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format(wc.dict['phid_22']* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format(wc.dict['phid_33']* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format(wc.dict['phie_11']* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format(wc.dict['phie_22']* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format(wc.dict['phie_33']* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From f41a733c3015a2650e7e4956446a3599f22ede7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:03 +0000
Subject: [PATCH 17/24] fix: SMEFTsim card for files without all coefficients

Absent coefficients raised a KeyError; values given as Re/Im mapping were
written as complex numbers even for real coefficients.
---
 wcxf/converters/smeftsim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 0285d54..f0b367a 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,7 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -88,7 +88,16 @@ def initialize_smeftsim_card(model_set):
   return card
 
 
+class _CompleteWC(object):
+  """Wilson coefficients of a wcxf.WC instance, where coefficients that are
+  absent are zero and complex numbers without imaginary part are real."""
+  def __init__(self, wc):
+    self.dict = defaultdict(float, {k: v.real if v.imag == 0 else v
+                                    for k, v in wc.dict.items()})
+
+
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  wc = _CompleteWC(wc)
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From bcc551cfd8b4e829c58fcebc687409f29d479ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:08 +0000
Subject: [PATCH 18/24] fix: YAML output of a document consisting of null only

---
 wcxf/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 8a0109d..9d41efd 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -16,7 +16,9 @@ yaml.add_representer(OrderedDict, _represent_dict_order)
 # the following is necessary to have Null values be represented by
 # emptyness rather than 'null'
 def represent_none(self, _):
-    return self.represent_scalar('tag:yaml.org,2002:null', '')
+    # a document consisting of Null only must not be empty
+    value = '' if self.represented_objects else 'null'
+    return self.represent_scalar('tag:yaml.org,2002:null', value)
 yaml.add_representer(type(None), represent_none)
 
 # the following is necessary to load YAML mappings as OrderedDicts
-- 
2.43.0


From a0b141c8771ed07c204763beddf319269265cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 19/24] fix: basis validation when the latex log contains
 undecodable bytes

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 9d41efd..c899cd3 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -86,7 +86,8 @@ def _testtex(s, delete=True):
     res['log'] = ''
     logl = []
     try:
-        with open(logf, 'r') as f:
+        # log files can contain undecodable bytes
+        with open(logf, 'r', errors='replace') as f:
             logl = f.readlines()
     except FileNotFoundError:
         pass
-- 
2.43.0


From b75f0c0ecb517a97e46e392e33035caf40e510de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 20/24] fix: cached QCD running results returned for equal
 arguments of a type that is rejected

alpha_s(4.2, 5.0) raises ValueError, but returned a value if
alpha_s(4.2, 5) had been called before.
---
 wcxf/util/qcd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 6227df8..21f4bda 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -13,7 +13,7 @@ def _sane(scale, f):
 MZ = 91.1876
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def alpha_s(scale, f, alphasMZ=0.1185):
     """3-loop cumputation of alpha_s for f flavours
     with initial condition alpha_s(MZ) = 0.1185"""
@@ -48,7 +48,7 @@ def alpha_s(scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_b(mbmb, scale, f, alphasMZ=0.1185):
     r"""Get running b quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_b(m_b)$"""
@@ -86,7 +86,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
@@ -113,7 +113,7 @@ def m_c(mcmc, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_s(ms2, scale, f, alphasMZ=0.1185):
     r"""Get running s quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_s(2 \,\text{GeV})$"""
-- 
2.43.0


From 9a24dae115f856dbc78d8f2c082b543ea014f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 21/24] fix: wcxf translate, match and convert exited with
 status zero if the output file could not be written

---
 wcxf/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index e653e80..52a121e 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -78,7 +78,10 @@ def wcxf_cli():
     if not hasattr(args, 'func'):  # no subcommand given
         parser.print_help()
         return
-    return args.func(args)
+    status = args.func(args)
+    if getattr(args, 'output', None) is not None:
+        args.output.flush()  # failure to write must not be ignored
+    return status
 
 
 def convert(args):
-- 
2.43.0


From 9de0dad607c0f82b41d3dc29dd8c86edc80ca760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:37 +0000
Subject: [PATCH 22/24] fix: --output without file name discarded the result
 (exit status zero) or crashed

---
 wcxf/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 52a121e..54fc4c7 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -23,7 +23,7 @@ def wcxf_cli():
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
                                       type=argparse.FileType('w'),
-                                      default=sys.stdout,
+                                      default=sys.stdout, const=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -38,7 +38,7 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
+                                  type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -56,7 +56,7 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
+                              type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -132,7 +132,7 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
-- 
2.43.0


From 4ef047890bf39b687171b77f3caa86f9ff7d2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:04 +0000
Subject: [PATCH 23/24] fix: wcxf convert with undecodable input ended with a
 traceback

---
 wcxf/converters/yamljson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/converters/yamljson.py b/wcxf/converters/yamljson.py
index a4af9f3..e134246 100644
--- a/wcxf/converters/yamljson.py
+++ b/wcxf/converters/yamljson.py
@@ -7,7 +7,7 @@ import logging
 def convert_json(stream_in, stream_out):
     try:
         return wcxf.classes._yaml_to_json(stream_in, stream_out, indent=2)
-    except yaml.YAMLError:
+    except (yaml.YAMLError, UnicodeDecodeError):
         logging.error("Input file cannot be parsed as YAML.")
         return 1
 
@@ -16,6 +16,6 @@ def convert_yaml(stream_in, stream_out):
     try:
         return wcxf.classes._json_to_yaml(stream_in, stream_out,
                                           default_flow_style=False)
-    except json.decoder.JSONDecodeError:
+    except (json.decoder.JSONDecodeError, UnicodeDecodeError):
         logging.error("Input file cannot be parsed as JSON.")
         return 1
-- 
2.43.0


From cb9222a83a70267634276d328a0c798992b42be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 24/24] fix: Basis.validate removes its temporary directory
 also if LaTeX cannot be started or is interrupted

---
 wcxf/classes.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index c899cd3..296da77 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -58,6 +58,15 @@ def _testtex(s, delete=True):
     """Function that takes a string and tries to compile a LaTeX file with
     the string as document body. Returns a dictionary with keys 'success'
     (True or False) and 'log', trying to extract the first error message."""
+    tmpd = tempfile.mkdtemp()
+    try:
+        return _testtex_in(tmpd, s)
+    finally:
+        if delete:
+            shutil.rmtree(tmpd)
+
+def _testtex_in(tmpd, s):
+    """Compile the string `s` in the existing directory `tmpd`."""
     _preamble = r"""\documentclass{article}
     \usepackage{amsmath,amssymb}
     \begin{document}
@@ -65,7 +74,6 @@ def _testtex(s, delete=True):
     _enddoc = r"""
     \end{document}"""
     doc = _preamble + s + _enddoc
-    tmpd = tempfile.mkdtemp()
     tmpf = os.path.join(tmpd, 'textest.tex')
     with open(tmpf, 'w') as f:
         f.write(doc)
@@ -75,8 +83,6 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
-        if delete:
-            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -105,8 +111,6 @@ def _testtex(s, delete=True):
                 l = logl[i]
             except IndexError:
                 break
-    if delete:
-        shutil.rmtree(tmpd)
     return res
 
 
-- 
2.43.0

