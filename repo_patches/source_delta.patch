From 6dcaaa2adc9ccf0ed6aed18ca0617195f73f281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 01/75] fix: CiscoRange addition, subtraction and as_list() no
 longer modify their operands

---
 ciscoconfparse/ccp_util.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..1c615f9 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5205,9 +5205,9 @@ class CiscoRange(MutableSequence):
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-            self._list.extend(other._list)
-            self._list = sorted(set(self._list))
-            return self
+            retval = copy.copy(self)
+            retval._list = sorted(set(self._list + other._list))
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5215,13 +5215,15 @@ class CiscoRange(MutableSequence):
 
     def __sub__(self, other):
         if isinstance(other, CiscoRange):
+            retval = copy.copy(self)
+            retval._list = copy.copy(self._list)
             for ii in other._list:
                 try:
-                    self._list.remove(ii)
+                    retval._list.remove(ii)
                 except ValueError:
                     # Skip the item if it does not exist...
                     pass
-            return self
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5391,17 +5393,6 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
         try:
             # Disable linter qa checks on this embedded list syntax...
             retval = sorted(set(self._list), reverse=self.reverse) # noqa
-- 
2.43.0


From a4e994cff2a455c915213a078d107cbbc73a095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 02/75] fix: read_config_file() raises OSError instead of
 BaseException and closes the file it probes

---
 ciscoconfparse/ciscoconfparse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..a2fe684 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -871,7 +871,8 @@ class CiscoConfParse(object):
             if self.debug > 0:
                 logger.debug(f"filepath not found - '{filepath}'")
             try:
-                _ = open(file=filepath, **self.openargs)
+                with open(file=filepath, **self.openargs):
+                    pass
             except FileNotFoundError:
                 error = f"""FATAL - Attempted to open(file='{filepath}', mode='r', encoding="{_encoding}"); the filepath named:"{filepath}" does not exist."""
                 logger.critical(error)
@@ -882,9 +883,10 @@ class CiscoConfParse(object):
                 logger.critical(error)
                 raise OSError(error)
 
-            except BaseException:
-                logger.critical(f"Cannot open {filepath}")
-                raise BaseException
+            except BaseException as eee:
+                error = f"Cannot open {filepath}"
+                logger.critical(error)
+                raise OSError(error) from eee
 
         else:
             error = f'Unexpected condition processing filepath: {filepath}'
-- 
2.43.0


From 540c895e9e35869e414fa22ef05a3c307673326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 03/75] fix: CiscoRange.append() reports a failed append unless
 ignore_errors is set

---
 ciscoconfparse/ccp_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1c615f9..450493d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5312,6 +5312,8 @@ class CiscoRange(MutableSequence):
             if ignore_errors is True:
                 logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
         except Exception as eee:
+            if ignore_errors is not True:
+                raise
             logger.warning(f"CiscoRange().append({val}) was skipped because of an error: {eee}")
 
         return self
-- 
2.43.0


From c160dede32bab34059e47f6ca9eaa2f1afe17842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 04/75] fix: Diff() closes the files it reads, decodes them
 with ENCODING and reads no other file

---
 ciscoconfparse/ciscoconfparse.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a2fe684..d285b66 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -45,7 +45,6 @@ import os
 from deprecated import deprecated
 from loguru import logger
 import hier_config
-import yaml
 import toml
 
 from ciscoconfparse.models_cisco import IOSHostnameLine, IOSRouteLine
@@ -4033,7 +4032,8 @@ class Diff(object):
             old_config = []
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
-            old_config = open(old_config).read()
+            with open(old_config, encoding=ENCODING) as fh:
+                old_config = fh.read()
         elif isinstance(old_config, str):
             pass
         elif isinstance(old_config, (list, tuple)):
@@ -4050,7 +4050,8 @@ class Diff(object):
             new_config = []
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
             # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            with open(new_config, encoding=ENCODING) as fh:
+                new_config = fh.read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
@@ -4072,12 +4073,6 @@ class Diff(object):
         # For now, we will not use options_ios.yml... see
         #     https://github.com/netdevops/hier_config/blob/master/tests/fixtures/options_ios.yml
         ###################################################################
-        # _ represents ios options as a dict... for now we use an empty
-        # dict below...
-        try:
-            _ = yaml.load(open('./options_ios.yml'), Loader=yaml.SafeLoader)
-        except FileNotFoundError:
-            pass
         # For now, we use {} instead of `options_ios.yml`
         self.host = hier_config.Host('example_hostname', 'ios', {})
 
-- 
2.43.0


From b99c3d2ef1cc8568949b41ee46aa6a550b242577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 05/75] fix: CiscoRange as_list/as_set/as_compressed_str test
 result types with identity instead of isinstance and return empty containers
 of their own kind

---
 ciscoconfparse/ccp_util.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 450493d..a729051 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5354,7 +5354,7 @@ class CiscoRange(MutableSequence):
                 elif result_type is None:
                     # These are CiscoIOSInterface() or CiscoIOSXRInterface()
                     new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
-                elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+                elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                     # These are CiscoIOSInterface() or CiscoIOSXRInterface()
                     new_list = [result_type(ii) for ii in list_before if ii != arg]
                 else:
@@ -5403,10 +5403,10 @@ class CiscoRange(MutableSequence):
                     result_type = self.member_type
                     return [result_type(ii) for ii in retval]
                 else:
-                    return set()
+                    return list()
             elif result_type is None:
                 return [CiscoIOSInterface(ii) for ii in retval]
-            elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+            elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                 return [result_type(ii) for ii in retval]
             elif result_type is str:
                 return [str(ii) for ii in retval]
@@ -5433,13 +5433,13 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
-                return list()
+                return set()
         elif result_type is None:
             return set([CiscoIOSInterface(ii) for ii in retval])
-        elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             return set([result_type(ii) for ii in retval])
         elif result_type is str:
             return set([str(ii) for ii in retval])
@@ -5471,7 +5471,7 @@ class CiscoRange(MutableSequence):
             retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        if isinstance(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        if self.member_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
             magic_string = "3141592653591892234109876543212345678"
             this_obj = self.member_type(self.text.split(",")[0])
-- 
2.43.0


From 7f51dc477eda653f32ffb43ab145391a33494506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 06/75] fix: in_ipv4_subnets() returns False for an empty
 collection of subnets instead of an unbound local

---
 ciscoconfparse/models_asa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..2fc2df1 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -501,6 +501,7 @@ class BaseASAIntfLine(ASACfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
-- 
2.43.0


From 550bb75541de99174f629824357050bb5c113ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 07/75] fix: NXOS hsrp timers and ip_helper_addresses no longer
 read names that were never assigned

---
 ciscoconfparse/models_nxos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..ba82771 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1212,6 +1212,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
            >>>"""
         retval = list()
 
+        vrf = ""
         for child in self.children:
             if "vrf member" in child.text:
                 vrf = child.re_match_typed(r"vrf\s+member\s+(\S+)", default="")
@@ -1545,7 +1546,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def hsrp_hold_timer(self):
@@ -1569,7 +1570,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def has_hsrp_track(self):
-- 
2.43.0


From 9f2fb41c8b6c19109488d3db7f7db7448478f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:19 +0000
Subject: [PATCH 08/75] fix: in_ipv4_subnets() of the IOS, IOS-XR and NX-OS
 models returns False when no subnet is usable

---
 ciscoconfparse/models_cisco.py | 1 +
 ciscoconfparse/models_iosxr.py | 1 +
 ciscoconfparse/models_nxos.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..d864aa3 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1886,6 +1886,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             if subnet.empty is True:
                 continue
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..f466868 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1235,6 +1235,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ba82771..74c0c5e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1040,6 +1040,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
-- 
2.43.0


From 4ab83b77ddaecb47b81c0aa4df213816fe72f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:26 +0000
Subject: [PATCH 09/75] fix: find_object_branches() accepts a single-element
 branchspec

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d285b66..0e44e07 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1236,8 +1236,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 4d1f110974a1cc7eb4d0d2eadce6d6ebebcd6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:01 +0000
Subject: [PATCH 10/75] fix: CiscoRange.remove()/attribute_sort() and the TXT
 branch of dns_query() no longer read unassigned locals

---
 ciscoconfparse/ccp_util.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a729051..11d5b35 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2787,7 +2787,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response = DNSResponse(
                     query_type=query_type,
                     duration=duration,
-                    input_str=inaddr,
+                    input_str=input_str,
                     result_str=str(result.strings),
                 )
                 retval.add(response)
@@ -5255,6 +5255,8 @@ class CiscoRange(MutableSequence):
                         new_list = sorted(target_list, key=lambda x: int(x), reverse=reverse)
                     else:
                         error = f"CiscoRange() member {target_list[0]} {type(target_list[0])} was an unhandled member type."
+                        logger.critical(error)
+                        raise ValueError(error)
                 else:
                     error = f"`target_list` must be a list; however, we got `target_list`: {target_list} {type(target_list)}"
                     logger.critical(error)
@@ -5330,6 +5332,8 @@ class CiscoRange(MutableSequence):
         length_before = len(self._list)
         # WAS DEEPCOPY
         list_before = copy.deepcopy(self._list)
+        new_list = list_before
+        result_type = self.result_type
 
         # Ignore absent arg if ignore_errors is True
         if arg not in self._list and ignore_errors is True:
@@ -5342,21 +5346,13 @@ class CiscoRange(MutableSequence):
         elif len(self._list) > 0:
 
             # Try removing some common result types...
-            for result_type in [None, int, str, float, 0]:
-                if len(self._list) > 0 and result_type is not type(self._list[0]):
+            for result_type in [CiscoIOSInterface, CiscoIOSXRInterface, int, str, float]:
+                if result_type is not type(self._list[0]):
                     # Skip this result_type...
                     continue
-                elif result_type == 0:
-                    # Explicitly handle inability to detect type dynamically...
-                    error = f"CiscoRange().remove({arg}) arg type: {type(arg)} does not match type: {self.member_type} of this CiscoRange(): {self}"
-                    logger.error(error)
-                    raise MismatchedType(error)
-                elif result_type is None:
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
                 elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                     # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [result_type(ii) for ii in list_before if ii != arg]
+                    new_list = [ii for ii in list_before if ii != arg]
                 else:
                     try:
                         new_list = [result_type(ii) for ii in list_before if result_type(ii) != result_type(arg)]
-- 
2.43.0


From 3fdd85d25563a20b1a012e09326d436ae744cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 11/75] fix: ASA and Junos route-line accessors compile, read
 existing groups and return on every path

---
 ciscoconfparse/models_asa.py   | 19 +++++++++++--------
 ciscoconfparse/models_junos.py |  3 +++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 2fc2df1..222f81e 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1067,33 +1067,35 @@ class ASARouteLine(BaseASARouteLine):
     def address_family(self):
         ## ipv4, ipv6, etc
         retval = self.re_match_typed(
-            r"^(ip|ipv6)\s+route\s+*(\S+)", group=1, result_type=str, default=""
+            r"^(ip|ipv6)\s+route\s+(\S+)", group=1, result_type=str, default=""
         )
         return retval
 
     @property
     @logger.catch(reraise=True)
     def network(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
-                r"^ip\s+route\s+*(\S+)", group=2, result_type=str, default=""
+                r"^ip\s+route\s+(\S+)", group=1, result_type=str, default=""
             )
         elif self.address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+*(\S+?)\/\d+", group=2, result_type=str, default=""
+                r"^ipv6\s+route\s+(\S+?)\/\d+", group=1, result_type=str, default=""
             )
         return retval
 
     @property
     @logger.catch(reraise=True)
     def netmask(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
-                r"^ip\s+route\s+*\S+\s+(\S+)", group=2, result_type=str, default=""
+                r"^ip\s+route\s+\S+\s+(\S+)", group=1, result_type=str, default=""
             )
         elif self.address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+*\S+?\/(\d+)", group=2, result_type=str, default=""
+                r"^ipv6\s+route\s+\S+?\/(\d+)", group=1, result_type=str, default=""
             )
         return retval
 
@@ -1111,16 +1113,17 @@ class ASARouteLine(BaseASARouteLine):
     @property
     @logger.catch(reraise=True)
     def nexthop_str(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
-                r"^ip\s+route\s+*\S+\s+\S+\s+(\S+)",
-                group=2,
+                r"^ip\s+route\s+\S+\s+\S+\s+(\S+)",
+                group=1,
                 result_type=str,
                 default="",
             )
         elif self.address_family == "ipv6":
             retval = self.re_match_typed(
-                r"^ipv6\s+route\s+*\S+\s+(\S+)", group=2, result_type=str, default=""
+                r"^ipv6\s+route\s+\S+\s+(\S+)", group=1, result_type=str, default=""
             )
         return retval
 
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 53acb37..68fc3d0 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -817,6 +817,7 @@ class JunosRouteLine(BaseJunosRouteLine):
     @property
     @logger.catch(reraise=True)
     def network(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
                 r"^ip\s+route\s+(vrf\s+)*(\S+)", group=2, result_type=str, default=""
@@ -833,6 +834,7 @@ class JunosRouteLine(BaseJunosRouteLine):
     @property
     @logger.catch(reraise=True)
     def netmask(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
                 r"^ip\s+route\s+(vrf\s+)*\S+\s+(\S+)",
@@ -863,6 +865,7 @@ class JunosRouteLine(BaseJunosRouteLine):
     @property
     @logger.catch(reraise=True)
     def nexthop_str(self):
+        retval = ""
         if self.address_family == "ip":
             retval = self.re_match_typed(
                 r"^ip\s+route\s+(vrf\s+)*\S+\s+\S+\s+(\S+)",
-- 
2.43.0


From 35d664fd17fc5eb0709ddba58dcbec0577054778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:39 +0000
Subject: [PATCH 12/75] fix: Junos interface detection compares the stripped
 line and accepts an empty line list

---
 ciscoconfparse/models_junos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 68fc3d0..6d43635 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -377,6 +377,7 @@ class BaseJunosIntfLine(JunosCfgLine):
     def is_object_for_interface(cls, all_lines, line, re=re):
         is_interfaces = False
         intf_idx = -1
+        _intf_level = -1
         parents = []
 
         # This is the indent of the first interface line
@@ -403,7 +404,7 @@ class BaseJunosIntfLine(JunosCfgLine):
                 #############################################################
                 # Reset is_interfaces in another base config block...
                 #############################################################
-                if _intf_level > 0 and line.strip == lline.strip():
+                if _intf_level > 0 and line.strip() == lline.strip():
                     return True
 
         if _intf_level >= 0:
-- 
2.43.0


From b4b470a85a5ed71b71614de86e027dc311e0d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 13/75] fix: config_line_factory() raises what a line class
 raised instead of returning an IOS line for any syntax

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0e44e07..bca46c4 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -6155,6 +6155,8 @@ def config_line_factory(all_lines=None, line=None, comment_delimiter="!", syntax
         raise ValueError(error)
     except Exception as eee:
         error = f"ciscoconfparse.py config_line_factory(all_lines={all_lines}, line=`{line}`, comment_delimiter=`{comment_delimiter}`, syntax=`{syntax}`): {eee}"
+        logger.error(error)
+        raise
 
     if debug > 0:
         logger.debug("config_line_factory() is returning a default of IOSCfgLine()")
-- 
2.43.0


From 6f6f244ec85234ef16d3e535943b1f37dadd9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 14/75] fix: BaseCfgLine.insert_after() accepts a line object

---
 ciscoconfparse/ccp_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..bd7147b 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -825,7 +825,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -842,7 +842,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             # Handle insertion of a plain-text line
             retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
             retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
 
-- 
2.43.0


From f76862e83f0084d9c309acb034c4dc1d4705443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 15/75] fix: run_this_posix_command() accepts and uses env, and
 rejects a command that is not a string

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 11d5b35..b7aa198 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -207,7 +207,7 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
     """
 
     if isinstance(env, dict):
-        for key, value in env.items:
+        for key, value in env.items():
             if isinstance(key, str) and isinstance(value, (str, int, float)):
                 pass  # noqa
             else:
@@ -223,6 +223,7 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
     if not isinstance(cmd, str):
         error = f"'{cmd}' must be a string"
         logger.critical(error)
+        raise ValueError(error)
 
     if shell is True:
         cmdparts = cmd
@@ -231,7 +232,7 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
 
     output_namedtuple = subprocess.run(
         cmdparts, timeout=timeout, capture_output=True, shell=shell, cwd=cwd,
-        encoding=encoding
+        encoding=encoding, env=env
     )
     (return_code, stdout, stderr) = (output_namedtuple.returncode, output_namedtuple.stdout, output_namedtuple.stderr)
 
-- 
2.43.0


From b183e033834d57e750ea97a98cf512a302e26641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 16/75] fix: L4Object honours 'neq' (it was read as 'eq'),
 resolves its port name, and can be shown with repr()

---
 ciscoconfparse/ccp_util.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b7aa198..f081940 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2468,7 +2468,14 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
+        if "neq " in port_spec.strip():
+            # 'neq ' must be checked before 'eq '
+            port_tmp = re.split(r"\s+", port_spec)[-1]
+            neq_port = int(ports.get(port_tmp, port_tmp))
+            if not (1 <= neq_port <= 65535):
+                raise RequirementFailure()
+            self.port_list = [ii for ii in range(1, 65536) if ii != neq_port]
+        elif "eq " in port_spec.strip():
             port_tmp = re.split(r"\s+", port_spec)[-1].strip()
             eq_port = int(ports.get(port_tmp, port_tmp))
             if not (1 <= eq_port <= 65535):
@@ -2499,11 +2506,6 @@ class L4Object(object):
             if not (0 < low_port < 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port + 1, 65536))
-        elif "neq " in port_spec.strip():
-            port_str = re.split(r"\s+", port_spec)[-1]
-            tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
-            self.port_list = sorted(tmp)
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
 
@@ -2515,7 +2517,7 @@ class L4Object(object):
     def __repr__(self):
         crobj = CiscoRange()
         crobj._list = self.port_list
-        return f"<L4Object {self.protocol} ports: {crobj.compressed_str}>"
+        return f"<L4Object {self.protocol} ports: {crobj.as_compressed_str()}>"
 
 
 class DNSResponse(object):
-- 
2.43.0


From 62326991fe98d60b4f6e4af98ace11aa2dfd178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 17/75] fix: ConfigList.insert() calls config_line_factory()
 with the arguments it takes

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bca46c4..ccb1a30 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5491,7 +5491,8 @@ class ConfigList(MutableSequence):
         if getattr(val, "capitalize", False):
             if self.factory:
                 obj = config_line_factory(
-                    text=val,
+                    all_lines=self._list,
+                    line=val,
                     comment_delimiter=self.comment_delimiter,
                     syntax=self.syntax,
                 )
-- 
2.43.0


From a66c403098d2d0ec9d7b599676142b75681985a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 18/75] fix: BaseCfgLine.insert_before() takes the atomic
 option that every reset() passes to it

---
 ciscoconfparse/ccp_abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bd7147b..fc69c52 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -792,7 +792,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
     # On BaseCfgLine()
     @junos_unsupported
-    def insert_before(self, insertstr=None):
+    def insert_before(self, insertstr=None, atomic=False):
         """
         Usage:
         confobj.insert_before('! insert text before this confobj')
@@ -806,10 +806,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=atomic)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=atomic)
 
         else:
             raise ValueError(error)
-- 
2.43.0


From 470aaadf96b44ddfeda5c5935c46fddd9ca3d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 19/75] fix: access-line ranges and exec-timeouts are lists,
 and the timeout seconds can be read

---
 ciscoconfparse/models_cisco.py | 6 +++---
 ciscoconfparse/models_nxos.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d864aa3..c158f34 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2837,7 +2837,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     @logger.catch(reraise=True)
@@ -2848,7 +2848,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2858,7 +2858,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 74c0c5e..1af9dd4 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2002,7 +2002,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     def manual_exectimeout_minutes(self):
@@ -2011,7 +2011,7 @@ class NXOSAccessLine(BaseCfgLine):
 
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2020,7 +2020,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From a70a675dac51fd7ec274d1d80d0978ab308555d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 20/75] fix: IOS ip_network_object reads the existing
 ipv4_netmask (it always returned the default)

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c158f34..d107b6e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1493,7 +1493,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ip_network_object(self):
         # Simplified on 2014-12-02
         try:
-            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_mask}", strict=False)
+            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_netmask}", strict=False)
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except BaseException:
-- 
2.43.0


From 7b547607a33fd7d9ca110887c142085834ffacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 21/75] fix: ASA service group-objects, ASA trunk encapsulation
 and TrackingInterface read attributes that exist

---
 ciscoconfparse/models_asa.py   | 16 +++++++++++++++-
 ciscoconfparse/models_cisco.py | 11 ++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 222f81e..d65575d 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -549,6 +549,16 @@ class BaseASAIntfLine(ASACfgLine):
     def has_manual_switch_trunk_encap(self):
         return bool(self.manual_switch_trunk_encap)
 
+    # This method is on BaseASAIntfLine()
+    @property
+    @logger.catch(reraise=True)
+    def manual_switch_trunk_encap(self):
+        for _obj in self.children:
+            _parts = _obj.text.strip().split()
+            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encap"]:
+                return _parts[3]
+        return ""
+
     # This method is on BaseIOSIntfLine()
     @property
     @logger.catch(reraise=True)
@@ -876,7 +886,6 @@ class ASAObjGroupService(ASACfgLine):
 
             elif svc_obj.get("groupobject", None):
                 name = svc_obj.get("groupobject")
-                group_ports = self.confobj.object_group_service.get(name, None)
                 if name == self.name:
                     ## Throw an error when importing self
                     raise ValueError(
@@ -884,6 +893,11 @@ class ASAObjGroupService(ASACfgLine):
                             name, self.name
                         )
                     )
+                group_ports = None
+                for group in self.confobj:
+                    if isinstance(group, ASAObjGroupService) and group.name == name:
+                        group_ports = group
+                        break
                 if group_ports is None:
                     raise ValueError(
                         "FATAL: Cannot find group-object named {}".format(name)
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d107b6e..bc56d9e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -79,7 +79,7 @@ class TrackingInterface(BaseCfgLine):
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
     def __str__(self):
-        return f"'{self.name}' group: {self.group}, weighting: {self.weighting}, decrement: {self.decrement}"
+        return f"'{self.name}' group: {self._group}, weighting: {self.weighting}, decrement: {self.decrement}"
 
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
@@ -89,7 +89,7 @@ class TrackingInterface(BaseCfgLine):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a hash value based on the Tracking interface group, interface name and decrement / weighting."""
-        if self._name is None or self._group is None:
+        if self.name is None or self._group is None:
             error = f"Cannot hash TrackingInterface() {self}"
             logger.critical(error)
             raise ValueError(error)
@@ -101,7 +101,7 @@ class TrackingInterface(BaseCfgLine):
     def __eq__(self, other):
         """Return True or False based on whether this Tracking interface is equal to the other instance; both instances must be a TrackingInterface() instance to compare True"""
         if isinstance(other, TrackingInterface):
-            if self.name == other.name and self.group == other.group and self._interface == other._linterface and self._decrement == other._decrement and self._weighting == other._weighting:
+            if self.name == other.name and self._group == other._group and self._interface == other._interface and self._decrement == other._decrement and self._weighting == other._weighting:
                 return True
             else:
                 return False
@@ -2881,6 +2881,11 @@ class BaseIOSRouteLine(IOSCfgLine):
             self.routeinfo,
         )
 
+    @property
+    @logger.catch(reraise=True)
+    def network_object(self):
+        raise NotImplementedError
+
     @property
     @logger.catch(reraise=True)
     def routeinfo(self):
-- 
2.43.0


From 986a785bd31831caae3f938a9c336adb07c0e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 22/75] fix: junos_unsupported() returns what the wrapped
 operation returned and accepts a line without a config

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index f081940..ae48f4f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -460,12 +460,12 @@ def junos_unsupported(func):
         if len(args) >= 1:
             if isinstance(args[0], ciscoconfparse.ConfigList):
                 syntax = args[0].syntax
-            else:
+            elif args[0].confobj is not None:
                 # print("TYPE", type(args[0]))
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 371f4fbae1900df0285adbc95ee525e8a1e4cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 23/75] fix: log_function_call() can be used as
 @log_function_call()

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index ae48f4f..355a1d4 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -509,7 +509,7 @@ def log_function_call(function=None, *args, **kwargs):
         logger.info("Type 4 log_function_call: %s()" % (function.__qualname__))
         return logging_decorator(function)
 
-    logger.info("Type 5 log_function_call: %s()" % (function.__qualname__))
+    logger.info("Type 5 log_function_call()")
     return logging_decorator
 
 
-- 
2.43.0


From 7a8ea1ab2bfd4bc222b32f5b7afcd91b53f80142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 24/75] fix: ip pim accessors of NX-OS and ASA use patterns
 that compile

---
 ciscoconfparse/models_asa.py  | 2 +-
 ciscoconfparse/models_nxos.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index d65575d..f8d4f43 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -521,7 +521,7 @@ class BaseASAIntfLine(ASACfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1af9dd4..e5fa823 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1132,7 +1132,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\sdense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\sdense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1147,7 +1147,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1162,7 +1162,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-dense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-dense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From f4dc4bdfa470c4bf11d13852c427bffda9df5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 25/75] fix: the range pattern does not backtrack exponentially

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 355a1d4..3916d3f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -87,8 +87,9 @@ IPV6_MAX_PREFIXLEN = 128
 
 
 _IPV6_RGX_CLS = r"[0-9a-fA-F]{1,4}"
-_CISCO_RANGE_ATOM_STR = r"""\d+\s*\-*\s*\d*"""
-_CISCO_RANGE_STR = r"""^(?P<intf_prefix>[a-zA-Z\s]*)(?P<slot_prefix>[\d\/]*\d+\/)*(?P<range_text>(\s*{})*)$""".format(
+# digits, separated by whitespace and / or dashes
+_CISCO_RANGE_ATOM_STR = r"""\d+(?:(?:\s+|\s*\-+\s*)\d+)*(?:\s*\-+)?\s*"""
+_CISCO_RANGE_STR = r"""^(?P<intf_prefix>[a-zA-Z\s]*)(?P<slot_prefix>[\d\/]*\d\/)?(?P<range_text>(\s*{})?)$""".format(
     _CISCO_RANGE_ATOM_STR
 )
 _RGX_CISCO_RANGE = re.compile(_CISCO_RANGE_STR)
-- 
2.43.0


From 8ca16a6bae89718197858d709433300b7a0578a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 26/75] fix: add_uncfgtext() keeps the command text (its
 replacement was a control character)

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index fc69c52..7af3b49 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -609,7 +609,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
-        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", "\3", unconftext)
+        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", r"\3", unconftext)
         myindent = self.parent.child_indent
 
         # write access to self.uncfgtext is not supported
-- 
2.43.0


From 6fd39c2be282d5cd222e37d692bb3916edc5ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 27/75] fix: IOS-XR vrf reads the group its pattern has

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index f466868..2dff741 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1104,7 +1104,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     def vrf(self):
         # See Github Issue #235...
         retval = self.re_match_iter_typed(
-            r"^\s*vrf\s(\S+)$", result_type=str, group=2, default=""
+            r"^\s*vrf\s(\S+)$", result_type=str, group=1, default=""
         )
         return retval
 
-- 
2.43.0


From 712b7f28f15bb20dd0cd6256e1d2e04fc2967b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 28/75] fix: captured texts convert: HSRP priority without a
 group number, vPC tos-byte and peer-link

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_nxos.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index bc56d9e..8c22cd7 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2444,7 +2444,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             return 0  # Return this if there is no hsrp on the interface
         retval = self.re_match_iter_typed(
             r"^\s*standby\s+(?P<group>\d+\s+)*priority\s+(?P<priority>\d+)",
-            groupdict={"group": int, "priority": int},
+            groupdict={"priority": int},
             default=100,
         )
         return retval["priority"]
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e5fa823..e8ece1d 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -286,7 +286,7 @@ urn -1 if it's not configured in a port-channel
     def is_vpc_peerlink(self):
         """Return a boolean indicating whether this port is configured as a vpc peer-link port"""
         retval = self.re_match_iter_typed(
-            r"^\s*vpc\s+peer-link", result_type=str, default=""
+            r"^\s*(vpc\s+peer-link)", result_type=bool, default=False
         )
         return retval
 
@@ -1897,7 +1897,7 @@ class NXOSvPCLine(BaseCfgLine):
             r"peer-keepalive\s+.*?tos\s+(\S+)", result_type=str, default=""
         )
         tos_byte = self.re_match_iter_typed(
-            r"peer-keepalive\s+.*?tos-byte\s+(\S+)", result_type=int, default=-1
+            r"peer-keepalive\s+.*?tos-byte\s+(\d+)", result_type=int, default=-1
         )
         udp_port = self.re_match_iter_typed(
             r"peer-keepalive\s+.*?udp-port\s+(\d+)", result_type=int, default=-1
-- 
2.43.0


From bf47bb62795c60ad3140f2e66bd4124b8744fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 29/75] fix: NX-OS hsrp_priority returns the default priority
 instead of nothing

---
 ciscoconfparse/models_nxos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e8ece1d..15354cb 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1525,6 +1525,8 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                 if retval != DEFAULT_PRI:
                     return retval
 
+        return DEFAULT_PRI
+
     @property
     def hsrp_hello_timer(self):
         ## For API simplicity, I always assume there is only one hsrp
-- 
2.43.0


From 7b2085eea9249b4537be848b325bad724a1578dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 30/75] fix: re_match_iter_typed(groupdict=, recurse=False)
 looks at every child; NX-OS masklen is an integer for both families

---
 ciscoconfparse/ccp_abc.py     | 13 +++++++------
 ciscoconfparse/models_nxos.py |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 7af3b49..fe1e136 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1389,12 +1389,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 15354cb..0a0fb59 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2192,7 +2192,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
     @property
     def masklen(self):
         if self._address_family == "ip":
-            return self.route_info["masklen"]
+            return int(self.route_info["masklen"])
         elif self._address_family == "ipv6":
             masklen_str = self.route_info["masklength"] or "128"
             return int(masklen_str)
-- 
2.43.0


From 6dddaf7eb2d1d5363dbb94a0bd7c5b1995da3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 31/75] fix: address subtraction admits the largest address and
 IPv6 containment covers the last addresses

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 3916d3f..ce8927b 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1323,7 +1323,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2040,7 +2040,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
@@ -2061,7 +2061,7 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                comparison_02 = (self.as_decimal_network_maxint >= val.as_decimal_network_maxint)
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From 435cb63c475d6a89169aa5de098c863d4871fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 32/75] fix: equality and hashes agree for addresses,
 interfaces, ranges, ports and lines; comparing with another type is False

---
 ciscoconfparse/ccp_abc.py  |  6 ++----
 ciscoconfparse/ccp_util.py | 29 ++++++++++++++++-------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index fe1e136..97f4eae 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -150,9 +150,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
             # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            return self.linenum == val.linenum and self.text == val.text
         except Exception:
             return False
 
diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index ce8927b..a3fa2a3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1175,7 +1175,9 @@ class IPv4Obj(object):
     # do NOT wrap with @logger.catch(...)
     # On IPv4Obj()
     def __eq__(self, val):
-        if isinstance(val, IPv4Obj) and (self.empty is True or val.empty is True):
+        if not isinstance(val, IPv4Obj):
+            return False
+        if self.empty is True or val.empty is True:
             return self.empty == val.empty
         try:
             # Code to fix Github issue #180
@@ -1917,11 +1919,10 @@ class IPv6Obj(object):
 
     # On IPv6Obj()
     def __eq__(self, val):
-        if self.empty is True:
-            if val.empty is True:
-                return True
-            else:
-                return False
+        if not isinstance(val, IPv6Obj):
+            return False
+        if self.empty is True or val.empty is True:
+            return self.empty == val.empty
         try:
             for obj in [self, val]:
                 for attr_name in ["as_decimal", "prefixlen"]:
@@ -2070,7 +2071,10 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __hash__(self):
         # Python3 needs __hash__()
-        return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        if self.empty is False:
+            return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        else:
+            return hash(None)
 
     # On IPv6Obj()
     def __iter__(self):
@@ -2511,6 +2515,8 @@ class L4Object(object):
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
 
     def __eq__(self, val):
+        if not isinstance(val, L4Object):
+            return False
         if (self.protocol == val.protocol) and (self.port_list == val.port_list):
             return True
         return False
@@ -3516,7 +3522,7 @@ class CiscoIOSInterface(object):
     def __hash__(self):
         """Build a unique (and sortable) identifier based solely on slot / card / port / subinterface / channel numbers for the object instance"""
         # I am using __hash__() in __gt__() and __lt__()
-        return sum([(idx + 1)**ii for idx, ii in enumerate(self.sort_list) if isinstance(ii, int)])
+        return hash((self.prefix, tuple(self.sort_list)))
 
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
@@ -4400,7 +4406,7 @@ class CiscoIOSXRInterface(object):
     def __hash__(self):
         """Build a unique (and sortable) identifier based solely on slot / card / port / subinterface / channel numbers for the object instance"""
         # I am using __hash__() in __gt__() and __lt__()
-        return sum([(idx + 1)**ii for idx, ii in enumerate(self.sort_list) if isinstance(ii, int)])
+        return hash((self.prefix, tuple(self.sort_list)))
 
     # This method is on CiscoIOSXRInterface()
     @logger.catch(reraise=True)
@@ -5134,10 +5140,7 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a deterministic identifier for CiscoRange() implementations"""
-        if len(self._list) == 0:
-            return hash(self._list)
-        else:
-            return hash(str(self._list)) * hash(self.member_type)
+        return hash(tuple(self._list))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
-- 
2.43.0


From 1507ead5e7e7b7eb78d5f9f3ce7f299d7030388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:33 +0000
Subject: [PATCH 33/75] fix: IPv6Obj.as_int is a property and prefixlength can
 be set, like IPv4Obj

---
 ciscoconfparse/ccp_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a3fa2a3..44adef8 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2205,6 +2205,14 @@ class IPv6Obj(object):
         """Returns the length of the network mask as an integer."""
         return self.prefixlen
 
+    # On IPv6Obj()
+    @prefixlength.setter
+    def prefixlength(self, arg):
+        """prefixlength setter method"""
+        self.network_object = IPv6Network(
+            f"{str(self.ip_object)}/{arg}", strict=False
+        )
+
     # On IPv6Obj()
     @property
     def compressed(self):
@@ -2348,6 +2356,7 @@ class IPv6Obj(object):
         )
 
     # On IPv6Obj()
+    @property
     def as_int(self):
         """Returns the IP address as a decimal integer"""
         return self.as_decimal
-- 
2.43.0


From 5ee82bf47b47167118ef980ced828372523e618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 34/75] fix: masklen agrees with prefixlen for an empty address
 object

---
 ciscoconfparse/ccp_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 44adef8..fb44202 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1456,7 +1456,7 @@ class IPv4Obj(object):
     @property
     def masklen(self):
         """Returns the length of the network mask as an integer."""
-        return int(self.network_object.prefixlen)
+        return self.prefixlen
 
     # do NOT wrap with @logger.catch(...)
     # On IPv4Obj()
@@ -2161,7 +2161,7 @@ class IPv6Obj(object):
     @property
     def masklen(self):
         """Returns the length of the network mask as an integer."""
-        return int(self.network_object.prefixlen)
+        return self.prefixlen
 
     # On IPv6Obj()
     @masklen.setter
@@ -2189,7 +2189,10 @@ class IPv6Obj(object):
     @property
     def prefixlen(self):
         """Returns the length of the network mask as an integer."""
-        return int(self.network_object.prefixlen)
+        if self.empty is False:
+            return int(self.network_object.prefixlen)
+        else:
+            return None
 
     # On IPv6Obj()
     @prefixlen.setter
-- 
2.43.0


From f716fad2110121b4930fe8d28f5426566f22a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 35/75] fix: network_offset reads back every offset it accepts
 and rejects negative ones

---
 ciscoconfparse/ccp_util.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index fb44202..b7728c9 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -985,7 +985,7 @@ class IPv4Obj(object):
         network : :class:`ipaddress.IPv4Network`
             Returns an :class:`ipaddress.IPv4Network` with the network of this object
         network_offset : int
-            Returns the integer difference between host number and network number.  This must be less than `numhosts`
+            Returns the integer difference between host number and network number.
         network_object : :class:`ipaddress.IPv4Network`
             Returns an :class:`ipaddress.IPv4Network` with the network of this object
         numhosts : int
@@ -1557,10 +1557,8 @@ class IPv4Obj(object):
     # On IPv4Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
+        """Returns the integer difference between host number and network number."""
         offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
         return offset
 
     # do NOT wrap with @logger.catch(...)
@@ -1584,7 +1582,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -1815,7 +1813,7 @@ class IPv6Obj(object):
         netmask : :class:`ipaddress.IPv6Address`
             An :class:`ipaddress.IPv6Address` object containing the netmask
         network_offset : int
-            Returns the integer difference between host number and network number.  This must be less than `numhosts`
+            Returns the integer difference between host number and network number.
         numhosts : int
             An integer representing the number of host addresses contained in the network
         prefixlen : int
@@ -2250,10 +2248,8 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
+        """Returns the integer difference between host number and network number."""
         offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
         return offset
 
     # do NOT wrap with @logger.catch(...)
@@ -2277,7 +2273,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From eccd7baa66c9f96b4a61513a368bcc1868a86c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 36/75] fix: IOS-XR interface names keep their subinterface,
 channel and class in the slot/card/processor form, and slot/card/port names
 render

---
 ciscoconfparse/ccp_util.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b7728c9..4fffeab 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4073,7 +4073,7 @@ class CiscoIOSXRInterface(object):
             raise InvalidCiscoInterface(error)
 
         re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?)", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z][a-zA-Z0-9\-]*)?)", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
@@ -4213,7 +4213,7 @@ class CiscoIOSXRInterface(object):
         else:
             _channel = None
 
-        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z][a-zA-Z0-9\-]*)$", _slot_card_port_subinterface_channel)
         if isinstance(re_interface_class, re.Match):
             _interface_class = str(re_interface_class.groupdict()["interface_class"])
         else:
@@ -4279,7 +4279,11 @@ class CiscoIOSXRInterface(object):
 
                 # Handle Ethernet1/48, where 48 is initially assigned to
                 #     _card (should be port)
-                if isinstance(_slot, str) and isinstance(_card, str) and _port is None:
+                if isinstance(_slot, str) and isinstance(_card, str) and isinstance(_processor, str) and _port is None:
+                    # Match GigabitEthernet1/2/3
+                    _port = _processor
+                    _processor = None
+                elif isinstance(_slot, str) and isinstance(_card, str) and _port is None:
                     # Swap _card and _port
                     _port = _card
                     _card = None
@@ -4319,7 +4323,7 @@ class CiscoIOSXRInterface(object):
                 else:
                     _channel = None
 
-                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z][a-zA-Z0-9\-]*)$", _slot_card_port_subinterface_channel)
                 if isinstance(re_interface_class, re.Match):
                     _interface_class = str(re_interface_class.groupdict()["interface_class"])
                 else:
@@ -4488,6 +4492,8 @@ class CiscoIOSXRInterface(object):
                 self._number = f"{self._port}"
             elif isinstance(self._slot, (int, str)) and self._card is None and self._processor is None and isinstance(self._port, (int, str)):
                 self._number = f"{self._slot}{self.digit_separator}{self._port}"
+            elif isinstance(self._slot, (int, str)) and isinstance(self._card, (int, str)) and self._processor is None and isinstance(self._port, (int, str)):
+                self._number = f"{self._slot}{self.digit_separator}{self._card}{self.digit_separator}{self._port}"
             elif isinstance(self._slot, (int, str)) and isinstance(self._card, (int, str)) and isinstance(self._processor, (int, str)) and isinstance(self._port, (int, str)):
                 self._number = f"{self._slot}{self.digit_separator}{self._card}{self.digit_separator}{self.processor}{self.digit_separator}{self._port}"
             else:
-- 
2.43.0


From c5f84e240f5b97208c69862292f8310e116609d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 37/75] fix: CiscoIOSXRInterface accepts its own dictionary
 form (it has a processor)

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4fffeab..bd113f6 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4149,13 +4149,13 @@ class CiscoIOSXRInterface(object):
             logger.error(error)
             raise ValueError(error)
 
-        if len(interface_dict.keys()) != 8:
-            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 8 dictionary keys, but {len(interface_dict.keys())} were found."
+        if len(interface_dict.keys()) != 9:
+            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 9 dictionary keys, but {len(interface_dict.keys())} were found."
             logger.error(error)
             raise ValueError(error)
 
         for attr_name in set(interface_dict.keys()):
-            if attr_name not in {"prefix", "slot", "card", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
+            if attr_name not in {"prefix", "slot", "card", "processor", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
                 error = f"'{attr_name}' is not a valid `attribute_dict` key"
                 logger.critical(error)
                 raise KeyError(error)
-- 
2.43.0


From 17e0bbf0eef06cc8d1ab4780d717e2256fa71c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:08 +0000
Subject: [PATCH 38/75] fix: slot_card_port_subinterface_channel renders every
 interface name that parses, with the IOS-XR processor

---
 ciscoconfparse/ccp_util.py | 40 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index bd113f6..8eb5327 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3671,18 +3671,16 @@ class CiscoIOSInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
+        numbers = [str(ii) for ii in [self.slot, self.card, self.port] if ii is not None]
+        if self.port is not None and (len(numbers) == 1 or isinstance(self.digit_separator, str)):
+            retval = str(self.digit_separator or "").join(numbers)
+            if self.subinterface is not None:
+                retval += f".{self.subinterface}"
+            if self.channel is not None:
+                retval += f":{self.channel}"
+            return f"{retval}{_interface_class}"
         else:
-            error = "Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
+            error = f"Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
             logger.error(error)
             raise ValueError(error)
 
@@ -4561,18 +4559,16 @@ class CiscoIOSXRInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
+        numbers = [str(ii) for ii in [self.slot, self.card, self.processor, self.port] if ii is not None]
+        if self.port is not None and (len(numbers) == 1 or isinstance(self.digit_separator, str)):
+            retval = str(self.digit_separator or "").join(numbers)
+            if self.subinterface is not None:
+                retval += f".{self.subinterface}"
+            if self.channel is not None:
+                retval += f":{self.channel}"
+            return f"{retval}{_interface_class}"
         else:
-            error = "Could not construct a return value for CiscoIOSXRInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
+            error = f"Could not construct a return value for CiscoIOSXRInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
             logger.error(error)
             raise ValueError(error)
 
-- 
2.43.0


From 65d14a12d4a46ad430d306fd1084072587b7cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 39/75] fix: interfaces with different components compare
 without TypeError; ConfigList.__le__ includes equality

---
 ciscoconfparse/ccp_util.py       | 36 ++++++++++++++++++++++++++++----
 ciscoconfparse/ciscoconfparse.py |  2 +-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8eb5327..55731a7 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3509,11 +3509,25 @@ class CiscoIOSInterface(object):
         except Exception:
             return False
 
+    # This method is on CiscoIOSInterface()
+    @logger.catch(reraise=True)
+    def _sort_key(self):
+        """Return `sort_list` in a form whose members always compare: absent, then numbers, then names"""
+        retval = []
+        for ii in self.sort_list:
+            if ii is None:
+                retval.append((0, 0, ""))
+            elif str(ii).isdecimal():
+                retval.append((1, int(ii), ""))
+            else:
+                retval.append((2, 0, str(ii)))
+        return retval
+
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if self._sort_key() > other._sort_key():
             return True
         return False
 
@@ -3521,7 +3535,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if self._sort_key() < other._sort_key():
             return True
         return False
 
@@ -4395,11 +4409,25 @@ class CiscoIOSXRInterface(object):
         except Exception:
             return False
 
+    # This method is on CiscoIOSXRInterface()
+    @logger.catch(reraise=True)
+    def _sort_key(self):
+        """Return `sort_list` in a form whose members always compare: absent, then numbers, then names"""
+        retval = []
+        for ii in self.sort_list:
+            if ii is None:
+                retval.append((0, 0, ""))
+            elif str(ii).isdecimal():
+                retval.append((1, int(ii), ""))
+            else:
+                retval.append((2, 0, str(ii)))
+        return retval
+
     # This method is on CiscoIOSXRInterface()
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if self._sort_key() > other._sort_key():
             return True
         return False
 
@@ -4407,7 +4435,7 @@ class CiscoIOSXRInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if self._sort_key() < other._sort_key():
             return True
         return False
 
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ccb1a30..22e44b0 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5005,7 +5005,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __le__(self, other):
-        return self._list < self.__cast(other)
+        return self._list <= self.__cast(other)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 3c10e512039f9c7a92b91a687f80bff22acbced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 40/75] fix: a default route does not contain addresses of the
 other family; empty IPv6 objects are handled like empty IPv4 objects

---
 ciscoconfparse/ccp_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 55731a7..d8e12f1 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1337,6 +1337,8 @@ class IPv4Obj(object):
     # On IPv4Obj()
     def __contains__(self, val):
         # Used for "foo in bar"... python calls bar.__contains__(foo)
+        if not isinstance(val, IPv4Obj):
+            raise ValueError(f"Could not check whether '{val}' is contained in '{self}'")
         if self.empty is True and val.empty is True:
             return True
         elif self.empty is True or val.empty is True:
@@ -2050,6 +2052,13 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __contains__(self, val):
         # Used for "foo in bar"... python calls bar.__contains__(foo)
+        if not isinstance(val, IPv6Obj):
+            raise ValueError(f"Could not check whether '{val}' is contained in '{self}'")
+        if self.empty is True and val.empty is True:
+            return True
+        elif self.empty is True or val.empty is True:
+            return False
+
         try:
             if self.network_object.prefixlen == 0:
                 return True
-- 
2.43.0


From 31c67a52fcefd2c121a51f5b7930f0bc6726f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 41/75] fix: L4Object rejects a port range outside 1-65535

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d8e12f1..90c344a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2513,7 +2513,7 @@ class L4Object(object):
             port_tmp = re.split(r"\s+", port_spec)[1:]
             low_port = int(ports.get(port_tmp[0], port_tmp[0]))
             high_port = int(ports.get(port_tmp[1], port_tmp[1]))
-            if low_port > high_port:
+            if not (1 <= low_port <= high_port <= 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port, high_port + 1))
         elif "lt " in port_spec.strip():
-- 
2.43.0


From 9bf0bcaf37cfcf1bc82907b0c6c01b1460d9ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 42/75] fix: ASA port names ftp and ftp-data carried each
 other's number

---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From 8282fdc4cdde185014f9ffbc4ee3392419ad29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:40 +0000
Subject: [PATCH 43/75] fix: append_line() appends the given text (it appended
 '__undefined__') as a line of the parser's own syntax

---
 ciscoconfparse/ciscoconfparse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 22e44b0..6e60ef5 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3095,8 +3095,14 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
-        elif isinstance(linespec, IOSCfgLine):
+            self.ConfigObjs.append(
+                CFGLINE[self.syntax](
+                    all_lines=self.ConfigObjs._list,
+                    line=str(linespec),
+                    comment_delimiter=self.comment_delimiter,
+                )
+            )
+        elif isinstance(linespec, BaseCfgLine):
             self.ConfigObjs.append(linespec)
         else:
             error = f"Cannot append {type(linespec)}"
-- 
2.43.0


From dbbe95ef2c52876c2df1ee66754aad60c5efab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 44/75] fix: HDiff() computes the diff for every supported
 syntax (iosxr, asa and junos always compared as equal)

---
 ciscoconfparse/ciscoconfparse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 6e60ef5..5aeee2e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4267,12 +4267,8 @@ class HDiff(object):
 
         self.build_diff_obj_lists()
 
-        if syntax == "ios":
-            self.build_ios_diffs()
-
-        elif syntax == "nxos":
-            # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
-            self.build_ios_diffs()
+        # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
+        self.build_ios_diffs()
 
     @ logger.catch(reraise=True)
     def parse_hdiff_configs(self):
-- 
2.43.0


From d9d8d323ad5148c0a2a5644a5c793f5c2334a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 45/75] fix: has_hsrp_preempt looks for preempt (it looked for
 use-bia)

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_iosxr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 8c22cd7..0c0823e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2522,7 +2522,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 2dff741..7c9ae01 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1803,7 +1803,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From 5e295f7987519524020bb767a6f0ff70ab95a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:02 +0000
Subject: [PATCH 46/75] fix: a one-character interface description is reported
 on ASA, IOS-XR, Junos and NX-OS as on IOS

---
 ciscoconfparse/models_asa.py   | 2 +-
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_junos.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index f8d4f43..89e1968 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -260,7 +260,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def description(self):
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 7c9ae01..f6810d4 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -785,7 +785,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 6d43635..40428ed 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -653,7 +653,7 @@ class BaseJunosIntfLine(JunosCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0a0fb59..1d44d52 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -672,7 +672,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From e6d21e333d509bca4a774cbde01fe8cb33bd0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 47/75] fix: manual_switch_trunk_encap recognises the
 encapsulation command on IOS and IOS-XR

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_iosxr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0c0823e..6797bf0 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2129,7 +2129,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def manual_switch_trunk_encap(self):
         for _obj in self.children:
             _parts = _obj.text.strip().split()
-            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encap"]:
+            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encapsulation"]:
                 return _parts[3]
         return ""
 
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index f6810d4..2bb3b13 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1475,7 +1475,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def manual_switch_trunk_encap(self):
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encap\s+(\S+))\s*$", result_type=str, default=""
+            r"^\s*(switchport\s+trunk\s+encapsulation\s+(\S+))\s*$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 82ae573db0a0831e026aeaf345625a1b9f9e99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 48/75] fix: trunk_vlans_allowed on NX-OS and IOS-XR reads the
 commands IOS reads, and applies add, except and remove

---
 ciscoconfparse/models_iosxr.py | 14 +++++++-------
 ciscoconfparse/models_nxos.py  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 2bb3b13..7e6c823 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1562,22 +1562,22 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
             ## For every child object, check whether the vlan list is modified
             abs_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s(all|none|\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+(all|none|\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             add_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             exc_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             rem_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
@@ -1604,12 +1604,12 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1d44d52..71ef61a 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1367,22 +1367,22 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
             ## For every child object, check whether the vlan list is modified
             abs_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s(all|none|\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+(all|none|\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             add_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             exc_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
             rem_str = obj.re_match_typed(
-                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d.*?)$",
+                r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,\s]*)$",
                 default="_nomatch_",
                 result_type=str,
             ).lower()
@@ -1409,12 +1409,12 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
-- 
2.43.0


From 52e50c01aaf113ae2087c726f12d873d62de4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 49/75] fix: every operation on the line list leaves line
 numbers equal to list positions

Dropping blank lines during a parse, pop, remove, reverse, sort, extend, item
assignment, += and *= left stale line numbers, so a later delete() removed
other lines; insert_before / insert_after put one line object at several
positions; append and friends stored bare strings.
---
 ciscoconfparse/ciscoconfparse.py | 131 ++++++++++++-------------------
 1 file changed, 51 insertions(+), 80 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 5aeee2e..89fe88d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5045,7 +5045,11 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __setitem__(self, ii, val):
-        self._list[ii] = val
+        if isinstance(ii, slice):
+            self._list[ii] = [self._build_line_obj(vv) for vv in val]
+        else:
+            self._list[ii] = self._build_line_obj(val)
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5075,12 +5079,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __iadd__(self, other):
-        if isinstance(other, ConfigList):
-            self._list += other._list
-        elif isinstance(other, type(self._list)):
-            self._list += other
-        else:
-            self._list += list(other)
+        self.extend(other)
         return self
 
     # This method is on ConfigList()
@@ -5092,7 +5091,7 @@ class ConfigList(MutableSequence):
 
     @ logger.catch(reraise=True)
     def __imul__(self, val):
-        self._list *= val
+        self._list = self.bootstrap_obj_init_ng([obj.text for obj in self._list] * val, debug=self.debug)
         return self
 
     # This method is on ConfigList()
@@ -5153,17 +5152,21 @@ class ConfigList(MutableSequence):
         if self.debug >= 1:
             logger.debug("    ConfigList().append(val={}) was called.".format(val))
 
-        self._list.append(val)
+        self._list.append(self._build_line_obj(val))
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def pop(self, ii=-1):
-        return self._list.pop(ii)
+        retval = self._list.pop(ii)
+        self.reassign_linenums()
+        return retval
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def remove(self, val):
         self._list.remove(val)
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5189,19 +5192,22 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def reverse(self):
         self._list.reverse()
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def sort(self, _unknown_arg, *args, **kwds):
+    def sort(self, _unknown_arg=None, *args, **kwds):
         self._list.sort(*args, **kwds)
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def extend(self, other):
         if isinstance(other, ConfigList):
-            self._list.extend(other._list)
-        else:
-            self._list.extend(other)
+            # A line object cannot be in two places, or in two lists
+            other = [obj.text for obj in other._list]
+        self._list.extend([self._build_line_obj(val) for val in other])
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5323,25 +5329,6 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
         all_idx = [
@@ -5351,7 +5338,7 @@ class ConfigList(MutableSequence):
         ]
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._build_line_obj(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5445,25 +5432,6 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
         all_idx = [
@@ -5472,7 +5440,7 @@ class ConfigList(MutableSequence):
             if re.search(exist_val, list_obj._text)
         ]
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self._build_line_obj(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
@@ -5482,6 +5450,31 @@ class ConfigList(MutableSequence):
             ## Just renumber lines...
             self.reassign_linenums()
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _build_line_obj(self, val):
+        """Return a configuration line object for ``val``, which is a string or already is a line object."""
+        if isinstance(val, BaseCfgLine):
+            return val
+
+        if not isinstance(val, str):
+            err_txt = 'ConfigList() cannot hold "{}"'.format(val)
+            logger.error(err_txt)
+            raise ValueError(err_txt)
+
+        if self.factory:
+            return config_line_factory(
+                all_lines=self._list,
+                line=val,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        return CFGLINE[self.syntax](
+            all_lines=self._list,
+            line=val,
+            comment_delimiter=self.comment_delimiter,
+        )
+
     # This method is on ConfigList()
     @ junos_unsupported
     @ logger.catch(reraise=True)
@@ -5489,33 +5482,8 @@ class ConfigList(MutableSequence):
         if not isinstance(ii, int):
             raise ValueError
 
-        # Coerce a string into the appropriate object
-        if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    all_lines=self._list,
-                    line=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
-        else:
-            err_txt = 'insert() cannot insert "{}"'.format(val)
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         ## Insert something at index ii
-        self._list.insert(ii, obj)
+        self._list.insert(ii, self._build_line_obj(val))
 
         ## Just renumber lines...
         self.reassign_linenums()
@@ -5826,6 +5794,9 @@ class ConfigList(MutableSequence):
             ]
             self._list = retval
 
+            # Dropping blank lines moved the lines after them
+            self.reassign_linenums()
+
         return retval
 
     # This method is on ConfigList()
-- 
2.43.0


From 7db7bb05be9a6ee32ba4e009c6fcc454abb790ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 50/75] fix: insert_before and insert_after edit each matching
 line once

With several matching lines the call inserted next to every match once per
match; exactmatch and ignore_ws were not applied to the insertion, and a line
object stood for every line matching its text as a regex.
---
 ciscoconfparse/ccp_abc.py        |  8 +++---
 ciscoconfparse/ciscoconfparse.py | 44 ++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 97f4eae..a3855f4 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -804,10 +804,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=atomic)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=atomic)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=atomic)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=atomic)
 
         else:
             raise ValueError(error)
@@ -838,11 +838,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 89fe88d..869d61f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2882,11 +2882,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3000,11 +3000,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3047,11 +3047,13 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+        if atomic:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -5312,7 +5314,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(error)
@@ -5331,11 +5333,15 @@ class ConfigList(MutableSequence):
 
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
+        # ... a line object only stands for itself
+        if isinstance(exist_val, BaseCfgLine):
+            all_idx = [idx for idx, list_obj in enumerate(self._list) if list_obj == exist_val]
+        else:
+            all_idx = [
+                idx
+                for idx, list_obj in enumerate(self._list)
+                if re.search(exist_val, list_obj.text)
+            ]
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
             self._list.insert(idx, self._build_line_obj(new_val))
@@ -5415,7 +5421,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(err_txt)
@@ -5434,11 +5440,15 @@ class ConfigList(MutableSequence):
 
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
+        # ... a line object only stands for itself
+        if isinstance(exist_val, BaseCfgLine):
+            all_idx = [idx for idx, list_obj in enumerate(self._list) if list_obj == exist_val]
+        else:
+            all_idx = [
+                idx
+                for idx, list_obj in enumerate(self._list)
+                if re.search(exist_val, list_obj._text)
+            ]
         for idx in sorted(all_idx, reverse=True):
             self._list.insert(idx + 1, self._build_line_obj(new_val))
 
-- 
2.43.0


From 56ffe056a00d4ee123739ca146db6d1ed26396f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:21 +0000
Subject: [PATCH 51/75] fix: deleting a line never deletes a line which took
 over an old line number

delete_lines() on a parent and its child deleted an unrelated line, because the
child's stale line number was used a second time.
---
 ciscoconfparse/ccp_abc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index a3855f4..295ed04 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -697,7 +697,10 @@ class BaseCfgLine(metaclass=ABCMeta):
                     logger.debug(
                         "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
                     )
-                del self.confobj._list[linenum]
+                # A line which is already gone keeps its old line number; do
+                # not delete the line which has that number now
+                if self.confobj._list[linenum:linenum + 1] == [obj]:
+                    del self.confobj._list[linenum]
 
         else:
             if self.confobj.debug >= 1:
-- 
2.43.0


From 19d43cf829ce02c56c41b8aff88df8ccd8899dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 52/75] fix: replace_lines, replace_children and
 replace_all_children honour atomic without factory

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 869d61f..250009a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3224,7 +3224,7 @@ class CiscoConfParse(object):
                 continue
             retval.append(obj.re_sub(linespec, replacestr))
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
@@ -3312,7 +3312,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
         return retval
 
@@ -3346,7 +3346,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
-- 
2.43.0


From 64c9ef69212164cd4f3076326cc776be06869045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:36 +0000
Subject: [PATCH 53/75] fix: replace_all_children, find_all_children and
 find_blocks reach children of every depth

---
 ciscoconfparse/ciscoconfparse.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 250009a..2ac15a5 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3965,13 +3965,7 @@ class CiscoConfParse(object):
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
         # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return lineobject.all_children
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 5699d46f38b60a1a59cb290c8cacc4427c550dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 54/75] fix: slicing, adding, multiplying and copying the line
 list work

Each of them passed line objects to the constructor, which only takes text, and raised ValueError.
---
 ciscoconfparse/ciscoconfparse.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2ac15a5..5629a5c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5034,7 +5034,7 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __getitem__(self, ii):
         if isinstance(ii, slice):
-            return self.__class__(self._list[ii])
+            return list(self._list[ii])
         else:
             return self._list[ii]
 
@@ -5057,20 +5057,12 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __add__(self, other):
-        if isinstance(other, ConfigList):
-            return self.__class__(self._list + other._list)
-        elif isinstance(other, type(self._list)):
-            return self.__class__(self._list + other)
-        return self.__class__(self._list + list(other))
+        return self._list + list(other)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __radd__(self, other):
-        if isinstance(other, ConfigList):
-            return self.__class__(other._list + self._list)
-        elif isinstance(other, type(self._list)):
-            return self.__class__(other + self._list)
-        return self.__class__(list(other) + self._list)
+        return list(other) + self._list
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5081,7 +5073,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __mul__(self, val):
-        return self.__class__(self._list * val)
+        return self._list * val
 
     __rmul__ = __mul__
 
@@ -5172,7 +5164,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def copy(self):
-        return self.__class__(self)
+        return self.__copy__()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From f36f4f0ce8094b7c9d2130b5af188ab4a415c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 55/75] fix: assigning an item of a CiscoRange stores it

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 90c344a..5a38078 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5255,7 +5255,7 @@ class CiscoRange(MutableSequence):
             logger.critical(error)
             raise IndexError(error)
         else:
-            return self._list[ii]
+            self._list[ii] = val
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-- 
2.43.0


From f757db1aaef75ee1166eda6c9259616b2d08251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:38 +0000
Subject: [PATCH 56/75] fix: a ConfigList without a CiscoConfParse can delete
 items and re-parse

del, and insertion with atomic=True, read a text list from the CiscoConfParse
after the list was already changed, and failed when there was none.
---
 ciscoconfparse/ciscoconfparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 5629a5c..2c6b3a8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5868,6 +5868,13 @@ class ConfigList(MutableSequence):
             if (idx >= begin_index) and (not obj.is_comment):
                 yield obj
 
+    # This method is on ConfigList()
+    @ property
+    @ logger.catch(reraise=True)
+    def ioscfg(self):
+        """Return a list containing all text configuration statements."""
+        return [obj.text for obj in self._list]
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def reassign_linenums(self):
-- 
2.43.0


From e25055c6edfff07147053680edf3c2fd2c7fbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 57/75] fix: banner, macro and brace lines are the child of one
 line only

Re-parenting them left them in the former parent's list of children, listed
macro lines twice, and closing braces were in nobody's list of children.
---
 ciscoconfparse/ciscoconfparse.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2c6b3a8..449218e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -501,6 +501,14 @@ def build_space_tolerant_regex(linespec):
     return linespec
 
 
+def move_child_to_parent(parentobj, childobj):
+    """Make ``childobj`` a child of ``parentobj``, and of no other line."""
+    if childobj.parent is not childobj:
+        childobj.parent.children.remove(childobj)
+    parentobj.children.append(childobj)
+    childobj.parent = parentobj
+
+
 @logger.catch(reraise=True)
 def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
     """Accept a list of brace-delimited BaseCfgLine() objects; these objects should not already have a parent assigned.  Walk the list of BaseCfgLine() objects and assign the 'parent' attribute BaseCfgLine() objects to the closing config braces.  Return the list of objects (with the assigned 'parent' attributes).
@@ -540,7 +548,7 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
 
                 elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
                     if len(opening_brace_objs) >= 1:
-                        obj.parent = opening_brace_objs.pop()
+                        move_child_to_parent(opening_brace_objs.pop(), obj)
                     else:
                         raise ValueError
 
@@ -5585,9 +5593,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        move_child_to_parent(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5597,9 +5604,8 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    move_child_to_parent(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
@@ -5627,8 +5633,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                move_child_to_parent(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From be2621234f7fd022eb1656fc63ed8f74dfda4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 58/75] fix: a macro without its closing @ runs to the end of
 the configuration instead of raising IndexError

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 449218e..5a1e415 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5628,7 +5628,7 @@ class ConfigList(MutableSequence):
 
             # Walk the next configuration lines looking for the macro's children
             finished = False
-            while not finished:
+            while not finished and idx + 1 < len(self._list):
                 idx += 1
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
-- 
2.43.0


From d370b1a3323af38dbeb696f093874791f2c5499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 59/75] fix: a line object given as childspec is the child
 specification (it replaced parentspec)

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 5a1e415..8c10ece 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1924,7 +1924,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2323,7 +2323,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws is True:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2701,7 +2701,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
-- 
2.43.0


From 97d62b38ade5491b2a843909372fec0476819554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 60/75] fix: exactmatch anchors both ends of every alternative
 of the pattern

---
 ciscoconfparse/ciscoconfparse.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8c10ece..7f3589c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1416,7 +1416,7 @@ class CiscoConfParse(object):
 
         elif exactmatch is True:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^{}$".format(dnaspec))
+            linespec_re = re.compile("^(?:{})$".format(dnaspec))
 
         return list(
             filter(lambda obj: linespec_re.search(obj.dna), self.ConfigObjs),
@@ -1503,7 +1503,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1551,7 +1551,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1631,7 +1631,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1744,7 +1744,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3549,7 +3549,7 @@ class CiscoConfParse(object):
             for reqline in cfgspec:
                 if ignore_ws:
                     if re.search(
-                        r"^" + rgx[reqline] + "$",
+                        r"^(?:" + rgx[reqline] + ")$",
                         lineobj.text.strip(),
                     ):
                         skip_cfgspec[reqline] = True
@@ -3952,7 +3952,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From f10c335d4eff840767fba28d89728337dc0db910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:42 +0000
Subject: [PATCH 61/75] fix: find_object_branches applies regex_flags to its
 first pattern and to the captured groups

---
 ciscoconfparse/ciscoconfparse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 7f3589c..1752688 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1173,10 +1173,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1264,7 +1261,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From 28cb1949e8258cb743fd55f884133edb1f3442cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:21 +0000
Subject: [PATCH 62/75] fix: ignore_ws and escape_chars work together

---
 ciscoconfparse/ciscoconfparse.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1752688..8bf8cad 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -489,7 +489,8 @@ def build_space_tolerant_regex(linespec):
 
     enforce_valid_types(linespec, (str,), "linespec parameter must be a string.")
     if isinstance(linespec, str):
-        linespec = re.sub(r"\s+", escaped_space, linespec)
+        # an escaped whitespace is whitespace, an escaped backslash is not part of it
+        linespec = re.sub(r"(\\\\)|(?:\\?\s)+", lambda mm: mm.group(1) or r"\s+", linespec)
 
     elif isinstance(linespec, Sequence):
         for idx, tmp in enumerate(linespec):
@@ -1923,10 +1924,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -1934,6 +1931,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         return list(
             filter(
                 lambda x: x.re_search_children(childspec, recurse=recurse),
@@ -2322,10 +2323,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws is True:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ###################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -2333,6 +2330,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws is True:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         return [
             obj
             for obj in self.find_objects(parentspec)
@@ -2700,10 +2701,6 @@ class CiscoConfParse(object):
         if isinstance(childspec, BaseCfgLine):
             childspec = childspec.text
 
-        if ignore_ws:
-            parentspec = build_space_tolerant_regex(parentspec)
-            childspec = build_space_tolerant_regex(childspec)
-
         if escape_chars is True:
             ######################################################################
             # Escape regex to avoid embedded parenthesis problems
@@ -2711,6 +2708,10 @@ class CiscoConfParse(object):
             parentspec = re.escape(parentspec)
             childspec = re.escape(childspec)
 
+        if ignore_ws:
+            parentspec = build_space_tolerant_regex(parentspec)
+            childspec = build_space_tolerant_regex(childspec)
+
         retval = set()
         parents = self.find_objects(parentspec)
         if recurse is False:
-- 
2.43.0


From 712c415fd3de05d862c1cd11e6c902f473ad7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:28 +0000
Subject: [PATCH 63/75] fix: find_child_objects uses the caller's pattern as
 given (a wrapping group shifted its backreferences)

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8bf8cad..2cfc59d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2720,7 +2720,7 @@ class CiscoConfParse(object):
                 # If recurse is False, only search direct children
                 ##############################################################
                 for child in parent.children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
         else:
             for parent in parents:
@@ -2729,7 +2729,7 @@ class CiscoConfParse(object):
                 #    of the children
                 ##############################################################
                 for child in parent.all_children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
 
         return sorted(retval)
-- 
2.43.0


From 1268d94cb71ced4e0618bc78f6c7cda02383ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 64/75] fix: insert_before and insert_after check every
 matching line before the first insertion

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2cfc59d..48a6cfb 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2880,11 +2880,11 @@ class CiscoConfParse(object):
             linespec=exist_val, exactmatch=exactmatch, ignore_ws=ignore_ws
         )
         for _obj in objs:
-
             exist_indent = len(_obj._text) - len(_obj._text.lstrip())
             if exist_indent != _obj.indent:
                 raise RequirementFailure()
 
+        for _obj in objs:
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
@@ -2998,11 +2998,11 @@ class CiscoConfParse(object):
             linespec=exist_val, exactmatch=exactmatch, ignore_ws=ignore_ws
         )
         for _obj in objs:
-
             exist_indent = len(_obj._text) - len(_obj._text.lstrip())
             if exist_indent != _obj.indent:
                 raise RequirementFailure()
 
+        for _obj in objs:
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-- 
2.43.0


From 6be4a865cdad41fb3e2a2d57964f884497a3568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:52 +0000
Subject: [PATCH 65/75] fix: insert_before and insert_after accept their
 linespec and insertstr options on their own

---
 ciscoconfparse/ciscoconfparse.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 48a6cfb..5d5374f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2842,16 +2842,6 @@ class CiscoConfParse(object):
         #   - `linespec` is now called exist_val
         #   - `insertstr` is now called new_val
         ######################################################################
-        if exist_val is None:
-            error = f"exist_val must not be {type(new_val)}"
-            logger.critical(error)
-            raise InvalidParameters(error)
-
-        if new_val is None:
-            error = f"Cannot insert new_val {type(new_val)}"
-            logger.critical(error)
-            raise InvalidParameters(error)
-
         if kwargs.get("linespec", "") != "":
             exist_val = kwargs.get("linespec")
             logger.info(
@@ -2863,6 +2853,16 @@ class CiscoConfParse(object):
                 "The parameter named `insertstr` is deprecated.  Please use `new_val` instead",
             )
 
+        if exist_val is None:
+            error = f"exist_val must not be {type(new_val)}"
+            logger.critical(error)
+            raise InvalidParameters(error)
+
+        if new_val is None:
+            error = f"Cannot insert new_val {type(new_val)}"
+            logger.critical(error)
+            raise InvalidParameters(error)
+
         err_exist_val = "FATAL: exist_val:'%s' must be a non-empty string" % exist_val
         if not isinstance(exist_val, str) or exist_val == "":
             raise ValueError(err_exist_val)
@@ -2965,16 +2965,6 @@ class CiscoConfParse(object):
         #   - `linespec` is now called exist_val
         #   - `insertstr` is now called new_val
         ######################################################################
-        if exist_val is None:
-            error = f"exist_val must not be {type(new_val)}"
-            logger.critical(error)
-            raise InvalidParameters(error)
-
-        if new_val is None:
-            error = f"Cannot insert new_val {type(new_val)}"
-            logger.critical(error)
-            raise InvalidParameters(error)
-
         if kwargs.get("linespec", "") != "":
             exist_val = kwargs.get("linespec")
             logger.info(
@@ -2986,6 +2976,16 @@ class CiscoConfParse(object):
                 "The parameter named `insertstr` is deprecated.  Please use `new_val` instead",
             )
 
+        if exist_val is None:
+            error = f"exist_val must not be {type(new_val)}"
+            logger.critical(error)
+            raise InvalidParameters(error)
+
+        if new_val is None:
+            error = f"Cannot insert new_val {type(new_val)}"
+            logger.critical(error)
+            raise InvalidParameters(error)
+
         err_exist_val = "FATAL: exist_val:'%s' must be a string" % exist_val
         err_new_val = "FATAL: new_val:'%s' must be a string" % new_val
         enforce_valid_types(exist_val, (str,), err_exist_val)
-- 
2.43.0


From ebb333ab27adff2ceb2aec49ac32bac31af1dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 66/75] fix: insert_after_child honours ignore_ws

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 5d5374f..2a1da0f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3039,8 +3039,11 @@ class CiscoConfParse(object):
             logger.critical(error)
             raise InvalidParameters(error)
 
+        if ignore_ws:
+            childspec = build_space_tolerant_regex(childspec)
+
         retval = list()
-        for pobj in self._find_line_OBJ(parentspec, exactmatch=exactmatch):
+        for pobj in self.find_objects(parentspec, exactmatch=exactmatch, ignore_ws=ignore_ws):
             if excludespec and re.search(excludespec, pobj.text):
                 # Exclude replacements on pobj lines which match excludespec
                 continue
-- 
2.43.0


From 2a4e496bb3d709e9ea8f67f1669fd3fa9849c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:25 +0000
Subject: [PATCH 67/75] fix: ConfigList.insert_after honours new_val_indent

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2a1da0f..8f82acf 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5444,6 +5444,8 @@ class ConfigList(MutableSequence):
                 for idx, list_obj in enumerate(self._list)
                 if re.search(exist_val, list_obj._text)
             ]
+        if new_val_indent >= 0:
+            new_val = new_val_indent * " " + new_val.lstrip()
         for idx in sorted(all_idx, reverse=True):
             self._list.insert(idx + 1, self._build_line_obj(new_val))
 
-- 
2.43.0


From ed36ad64d97e20759c670ff195f82e38990e3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 68/75] fix: replace_all_children edits a line once when
 matching parents are nested

---
 ciscoconfparse/ciscoconfparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8f82acf..fd18e1d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3342,11 +3342,16 @@ class CiscoConfParse(object):
         childspec_re = re.compile(childspec)
         if excludespec:
             excludespec_re = re.compile(excludespec)
+        edited = set()
         for pobj in self._find_line_OBJ(parentspec, exactmatch=exactmatch):
             if excludespec and excludespec_re.search(pobj.text):
                 # Exclude replacements on pobj lines which match excludespec
                 continue
             for cobj in self._find_all_child_OBJ(pobj):
+                if id(cobj) in edited:
+                    # a matching parent can be a descendant of another one
+                    continue
+                edited.add(id(cobj))
                 if excludespec and excludespec_re.search(cobj.text):
                     # Exclude replacements on pobj lines which match excludespec
                     continue
-- 
2.43.0


From d9868edb4065218a09bcd5d58704f0a61160782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 69/75] fix: a CiscoRange can be sliced

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5a38078..1d2948c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5228,7 +5228,7 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def __getitem__(self, ii):
         max_list_index = len(self._list) - 1
-        if ii > max_list_index:
+        if not isinstance(ii, slice) and ii > max_list_index:
             error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
             logger.critical(error)
             raise IndexError(error)
@@ -5239,7 +5239,7 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def __delitem__(self, ii):
         max_list_index = len(self._list) - 1
-        if ii > max_list_index:
+        if not isinstance(ii, slice) and ii > max_list_index:
             error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
             logger.critical(error)
             raise IndexError(error)
@@ -5250,7 +5250,7 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def __setitem__(self, ii, val):
         max_list_index = len(self._list) - 1
-        if ii > max_list_index:
+        if not isinstance(ii, slice) and ii > max_list_index:
             error = f"CiscoRange() attempted to access CiscoRange()._list[{ii}], but the max list index is {max_list_index}"
             logger.critical(error)
             raise IndexError(error)
-- 
2.43.0


From 71594133d05c29da4773f3f5ff41ed9ca939e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:03 +0000
Subject: [PATCH 70/75] fix: add_child and add_parent record both ends of the
 link

---
 ciscoconfparse/ccp_abc.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 295ed04..7725698 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -567,7 +567,10 @@ class BaseCfgLine(metaclass=ABCMeta):
         """Add a reference to parentobj, on this object"""
         ## In a perfect world, I would check parentobj's type
         ##     with isinstance(), but I'm not ready to take the perf hit
-        self.parent = parentobj
+        if parentobj is self:
+            self._leave_parent()
+        elif parentobj is not self.parent:
+            parentobj.add_child(self)
         return True
 
     # On BaseCfgLine()
@@ -579,12 +582,22 @@ class BaseCfgLine(metaclass=ABCMeta):
         ##
         ## Add the child, unless we already know it
         if not (childobj in self.children):
+            child_indent = childobj.indent
+            childobj._leave_parent()
             self.children.append(childobj)
-            self.child_indent = childobj.indent
+            childobj.parent = self
+            self.child_indent = child_indent
             return True
         else:
             return False
 
+    # On BaseCfgLine()
+    def _leave_parent(self):
+        """Make this object a top-level line: its own parent, and no other line's child"""
+        if self.parent is not self and self in self.parent.children:
+            self.parent.children.remove(self)
+        self.parent = self
+
     # On BaseCfgLine()
     @junos_unsupported
     def add_uncfgtext(self, unconftext=None):
-- 
2.43.0


From 9e6d86a7bd35d4f8fafb03ccac39e72a74fb0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:02 +0000
Subject: [PATCH 71/75] fix: the caller's linesplit_rgx is used when a file is
 read

---
 ciscoconfparse/ciscoconfparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index fd18e1d..4d1ccd9 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -759,10 +759,10 @@ class CiscoConfParse(object):
         # Read the configuration lines and detect invalid inputs...
         # tmp_lines = self._get_ccp_lines(config=config, logger=logger)
         if isinstance(config, (str, pathlib.Path,)):
-            if ignore_blank_lines is True and factory is False:
-                tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\r*\n+")
-            else:
-                tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\r*\n")
+            if linesplit_rgx == r"\r*\n+" and not (ignore_blank_lines is True and factory is False):
+                # The default pattern merges blank lines
+                linesplit_rgx = r"\r*\n"
+            tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=linesplit_rgx)
         elif isinstance(config, Sequence):
             if ignore_blank_lines is True and factory is False:
                 tmp_lines = [ii for ii in config if len(ii) != 0]
-- 
2.43.0


From da8379cb47ea37a67c648566016ec18bf7982167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 72/75] fix: CiscoIOSXRInterface.number_list includes the
 processor

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1d2948c..62d7625 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4551,7 +4551,7 @@ class CiscoIOSXRInterface(object):
     def number_list(self):
         "Return the number_list"
         retval = []
-        for ii in [self._slot, self._card, self._port]:
+        for ii in [self._slot, self._card, self._processor, self._port]:
             if isinstance(ii, (str, int)):
                 retval.append(str(ii))
             elif ii is None:
-- 
2.43.0


From 11ded015d553210418274ea61a8b897838b74c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:48 +0000
Subject: [PATCH 73/75] fix: AAA method lists are split at blanks, not at the
 text \s

---
 ciscoconfparse/models_cisco.py | 8 ++++----
 ciscoconfparse/models_nxos.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6797bf0..19b51f2 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3276,7 +3276,7 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3302,7 +3302,7 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3329,7 +3329,7 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3356,7 +3356,7 @@ class IOSAaaConsoleAuthorizationLine(IOSCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 71ef61a..b3175ae 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2336,7 +2336,7 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2359,7 +2359,7 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2383,7 +2383,7 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2407,7 +2407,7 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-- 
2.43.0


From 4a9f076af42c0392b2388545823d2a8bac086c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:57 +0000
Subject: [PATCH 74/75] fix: HSRPInterfaceGroup.preempt_delay reads the
 configured delay

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 19b51f2..d5b7cf9 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -354,7 +354,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
+            if obj_parts[0:5] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
                 return int(obj_parts[5])
         # The default hello timer is 3 seconds...
         return 0
-- 
2.43.0


From b2e3e4cfc6b333d8f583a9cfef4d228db4129bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:06 +0000
Subject: [PATCH 75/75] fix: HSRPInterfaceGroup.authentication_md5_keychain
 reads the group's own line on its interface

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d5b7cf9..d5d89a1 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -456,8 +456,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
         """Return the string text of the MD5 key-chain if this HSRP group is configured with an MD5 authentication key-chain; otherwise return an empty string."""
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
+        retval = self._parent.re_match_iter_typed(
+            rf"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0

