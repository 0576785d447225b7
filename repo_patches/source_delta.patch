From ab86a22a9f5bb1cecfc0aa62df4ec3a541c918a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 01/76] fix: most_recent() uses the given parser

---
 ipkg/versions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/versions.py b/ipkg/versions.py
index 9b352fa..64a4d9f 100644
--- a/ipkg/versions.py
+++ b/ipkg/versions.py
@@ -44,4 +44,4 @@ def most_recent(versions, parser=parse):
     * ``versions`` must be an iterable of versions.
     * ``parser`` defaults to ``parse`` which parses version strings.
     """
-    return sorted(versions, reverse=True)[0]
+    return sorted(versions, parser, reverse=True)[0]
-- 
2.43.0


From bd1b9002b1fa266d975b407eec740f15b9540a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 02/76] fix: do not drop != selectors of requirements

---
 ipkg/requirements.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5c871b7..6331dad 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -286,12 +286,18 @@ def remove_useless_version_selectors(version_selectors):
         if l_selector or g_selector:
             raise ExclusiveVersionRequirements(operator.eq,
                                                'incompatible with other version operators')
+        elif eq_ver in selectors[operator.ne]:
+            raise ExclusiveVersionRequirements(operator.eq,
+                                               'excluded by operator !=')
         else:
             result.append((operator.eq, eq_ver))
+            return result
 
     if g_selector:
         result.append(g_selector)
     if l_selector:
         result.append(l_selector)
+    for ne_ver in sorted(selectors[operator.ne]):
+        result.append((operator.ne, ne_ver))
 
     return result
-- 
2.43.0


From 71af2cb32f684d33f02ecb8bab111485b91130b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 03/76] fix: accept == along with version ranges which include
 it

---
 ipkg/requirements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 6331dad..911126b 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -283,7 +283,8 @@ def remove_useless_version_selectors(version_selectors):
     result = []
 
     if eq_ver:
-        if l_selector or g_selector:
+        if not all(selector[0](eq_ver, selector[1])
+                   for selector in (l_selector, g_selector) if selector):
             raise ExclusiveVersionRequirements(operator.eq,
                                                'incompatible with other version operators')
         elif eq_ver in selectors[operator.ne]:
-- 
2.43.0


From 982b248e61f92146a8f2f06e3e577ba6453209ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 04/76] fix: define the errors raised for invalid version
 requirements

---
 ipkg/requirements.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 911126b..5494878 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -29,6 +29,16 @@ class InvalidRequirement(IpkgException):
     MESSAGE = 'Invalid requirement: %s'
 
 
+class InvalidRequirementVersion(InvalidRequirement):
+
+    MESSAGE = 'Invalid version requirement: %s'
+
+
+class InvalidRequirementVersionOperator(InvalidRequirement):
+
+    MESSAGE = 'Invalid version requirement operator: %s'
+
+
 class ExclusiveVersionRequirements(InvalidRequirement):
 
     MESSAGE = 'Exclusive version requirements for operator %s: %s'
-- 
2.43.0


From beb7774b948089da7ea0d23742f31f18a146f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 05/76] fix: no exponential backtracking when parsing
 requirements

---
 ipkg/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5494878..51b2f2e 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -151,7 +151,7 @@ RE_REQUIREMENT = re.compile("""
     \]
 )?
 \s*
-(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)*
+(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)?
 \s*
 $
 """, re.X)
-- 
2.43.0


From ca1952fde90be9e97aad334616773668d5b6647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 06/76] fix: print requirement versions so that they parse back

---
 ipkg/requirements.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 51b2f2e..817f24f 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -82,15 +82,21 @@ class Requirement(object):
         versions_str = []
         for version_operator, version_tuple in versions:
             version_parts = []
-            for version_part in version_tuple:
-                if version_part == '*final':
-                    break
+            # The last part is always *final
+            for index, version_part in enumerate(version_tuple[:-1]):
+                if version_part == '*final-':
+                    version_parts.append('-')
+                    if version_tuple[index + 1][0] == '*':
+                        # Without it, a pre-release tag drops the dash
+                        version_parts.append('0')
+                elif version_part == '*@':
+                    version_parts.append('dev')
                 elif version_part[0] == '*':
                     version_parts.append(version_part[1:])
                 else:
                     version_parts.append(str(int(version_part)))
             operator = operators[version_operator]
-            version = '.'.join(version_parts)
+            version = '.'.join(version_parts) or '0'
             versions_str.append(operator + version)
         return ','.join(versions_str)
 
-- 
2.43.0


From 72357ae4c48cb74d58c17dbb0dd26d62a9a3b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 07/76] fix: requirement equality: != is the negation of ==,
 invalid platforms

---
 ipkg/requirements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 817f24f..fe9dc36 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -67,13 +67,16 @@ class Requirement(object):
         elif isinstance(other, basestring):
             try:
                 requirement = Requirement(other)
-            except InvalidRequirement:
+            except (InvalidRequirement, InvalidPlatform):
                 return False
             else:
                 return str(self) == str(requirement)
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
     def __make_extras_str(self, extras):
         return '[' + ','.join(extras) + ']' if extras else ''
 
-- 
2.43.0


From 02686de470df4ddf3aa48abc7fc39b899c46535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 08/76] fix: ignore empty extras of requirements

---
 ipkg/requirements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index fe9dc36..bd832be 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -217,6 +217,7 @@ def parse(requirement):
 
     if requirement_dict['extras']:
         extras = re.split(r'\s*,\s*', requirement_dict['extras'].strip())
+        extras = [extra for extra in extras if extra]
     else:
         extras = []
 
-- 
2.43.0


From f3706083a7703bc596180fbc82d1285bf706e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 09/76] fix: platforms differ from what is not a platform

---
 ipkg/platforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 0794983..c54fcb0 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -31,6 +31,9 @@ class Platform(object):
             except InvalidPlatform:
                 return False
 
+        if not isinstance(platform, Platform):
+            return False
+
         return (('any' in (self.os_name, platform.os_name) or
                  self.os_name == platform.os_name) and
                 ('any' in (self.os_release, platform.os_release) or
-- 
2.43.0


From 2a789de03e55cb0a47698d1b3b5ea3ee60ce16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 10/76] fix: formulas without platform can satisfy requirements

---
 ipkg/requirements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index bd832be..7eaa58b 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -137,11 +137,13 @@ class Requirement(object):
         ``obj`` should be a ``Formula`` or a ``Package`` object.
         """
         if isinstance(obj, dict):
-            return obj.get('platform', 'any') == self.platform and \
+            return (obj.get('platform') is None or
+                    obj['platform'] == self.platform) and \
                 obj.get('name') == self.name and \
                 self.satisfied_by_version(obj.get('version'))
         else:
             return (not hasattr(obj, 'platform') or
+                    obj.platform is None or
                     obj.platform == self.platform) and \
                 hasattr(obj, 'name') and \
                 obj.name == self.name and \
-- 
2.43.0


From c75a6ca1da8ff45eff4c7334c5faa5fcf696aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 11/76] fix: keep the most specific platform when merging
 requirements

---
 ipkg/platforms.py    | 10 ++++++++++
 ipkg/requirements.py |  5 ++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index c54fcb0..3b107c8 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -58,6 +58,16 @@ class Platform(object):
         else:
             return cls(os_name, os_release, architecture)
 
+    def restrict(self, platform):
+        """Returns the platform matching both this one and ``platform``.
+        """
+        if self != platform:
+            raise InvalidPlatform(platform)
+        return Platform(*[b if a == 'any' else a for a, b in (
+            (self.os_name, platform.os_name),
+            (self.os_release, platform.os_release),
+            (self.architecture, platform.architecture))])
+
     @classmethod
     def current(cls):
 
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 7eaa58b..0070955 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -118,12 +118,11 @@ class Requirement(object):
             raise TypeError(other)
         if self.name != other.name:
             raise InvalidRequirement(other)
-        if self.platform != other.platform:
-            raise InvalidPlatform(other.platform)
+        platform = self.platform.restrict(other.platform)
         extras_str = self.__make_extras_str(set(self.extras + other.extras))
         versions_str = self.__make_versions_str(
             set(self.versions + other.versions))
-        return Requirement('%s:%s%s%s' % (self.platform, self.name,
+        return Requirement('%s:%s%s%s' % (platform, self.name,
                                           extras_str, versions_str))
 
     def satisfied_by_version(self, version):
-- 
2.43.0


From be48596abddf1a058002d9e744f690f824ef3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 12/76] fix: the name of the current platform is parseable and
 has no slash

---
 ipkg/platforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 3b107c8..1d09734 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -1,4 +1,5 @@
 import platform
+import re
 
 from .compat import basestring
 from .exceptions import IpkgException
@@ -83,4 +84,7 @@ class Platform(object):
 
         architecture = platform.machine()
 
-        return cls(name, release, architecture)
+        # Platforms are used in file names and parsed back
+        return cls(*[re.sub(r'[^\w.]', '_', part.lower()) or 'unknown'
+                     for part in (name.replace('.', '_'), release,
+                                  architecture.replace('.', '_'))])
-- 
2.43.0


From b8806113023d2b43b5f03c2a361fd517ffd4efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 13/76] fix: do not solve the dependencies of installed
 packages

---
 ipkg/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index b0b5039..2e72e87 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -237,7 +237,7 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package)
+                        solver.add(package, skip_dependencies=True)
                         found = True
                         break
                 if found is True:
-- 
2.43.0


From 9756f191a2e22500580bfeef007667d33c36a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 14/76] fix: solve when an unneeded package depends on the
 target

---
 ipkg/dependencies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 2e72e87..c6f1e3c 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -249,6 +249,10 @@ class Solver(object):
                 for satisfier in satisfiers:
                     LOGGER.debug('Satisfied by %s found in %s',
                                  satisfiers, repository)
+                    if satisfier in solver.objects:
+                        solver.requirements[requirement.name].satisfy(
+                            solver.objects[satisfier])
+                        continue
                     new_node = solver.add(satisfier)
                     for satisfier_req in new_node.requirements:
                         queue.add((new_node, satisfier_req))
-- 
2.43.0


From ac707d9dd4f78a0bcaee461c00903a537889f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 15/76] fix: only take the selected nodes into account when
 sorting them

---
 ipkg/dependencies.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index c6f1e3c..0d66a1f 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -335,7 +335,7 @@ class Solver(object):
 
         for node in nodes:
             LOGGER.debug('node %r', node)
-            if not node.dependents:
+            if not any(d in nodes for d in node.dependents):
                 queue.append(node)
         LOGGER.debug('Queue: %r', queue)
 
@@ -368,13 +368,16 @@ class Solver(object):
                              requirement, dependency, id(dependency))
 
                 if dependency not in node_dependents:
-                    node_dependents[dependency] = set(dependency.dependents)
+                    node_dependents[dependency] = set(
+                        d for d in dependency.dependents if d in nodes)
                     LOGGER.debug(' First time we see %s, dependents=%s',
                                  dependency, node_dependents[dependency])
 
-                for dependent in list(node_dependents[dependency]):
-                    if dependent.obj.name == node.obj.name:
-                        node_dependents[dependency].remove(dependent)
+                if node not in node_dependents[dependency]:
+                    # another requirement of this node on the same dependency
+                    continue
+
+                node_dependents[dependency].remove(node)
                 LOGGER.debug(' %s dependents: %s',
                              dependency, node_dependents[dependency])
 
-- 
2.43.0


From a43f698cf6abfb658bb7413edd130d44c6f84412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 16/76] fix: do not drop repository packages from solved
 dependencies

---
 ipkg/dependencies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 0d66a1f..6aa0701 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -5,7 +5,7 @@ from .requirements import Requirement
 from .exceptions import IpkgException
 from .platforms import Platform
 from .build import Formula
-from .packages import MetaPackage
+from .packages import MetaPackage, PackageFile
 from . import versions
 
 
@@ -398,7 +398,9 @@ class Solver(object):
         result = []
         for node in reversed(sorted_nodes):
             if ignore_installed_packages:
-                if not isinstance(node.obj, MetaPackage):
+                # Installed packages are no package files
+                if not isinstance(node.obj, MetaPackage) or \
+                   isinstance(node.obj, PackageFile):
                     result.append(node.obj)
             else:
                 result.append(node.obj)
-- 
2.43.0


From 9c6225f610fd61c6f21d0b046e1901d192fc0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 17/76] fix: look up each requirement once, or solving loops
 may not terminate

---
 ipkg/dependencies.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 6aa0701..1a0aa18 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -206,6 +206,8 @@ class Solver(object):
         solver = cls()
         node = solver.add(obj)
         queue = set()
+        # requirements already looked up in the repositories
+        searched = set()
 
         for requirement in node.requirements:
             queue.add((node, requirement))
@@ -243,6 +245,11 @@ class Solver(object):
                 if found is True:
                     continue
 
+            if requirement in searched:
+                # All its candidates are already in the solver
+                continue
+            searched.add(requirement)
+
             for repository in repositories or []:
                 satisfiers = repository.find(requirement)
 
-- 
2.43.0


From bc6c6c570cee854eb2e6edf4fae308f7b0237f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 18/76] fix: a target needing another version of itself is a
 dependency loop

---
 ipkg/dependencies.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 1a0aa18..b14bd32 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -12,6 +12,13 @@ from . import versions
 LOGGER = logging.getLogger(__name__)
 
 
+def is_installed(obj):
+    """Returns ``True`` for the packages of an environment.
+    """
+    # Packages found in repositories are package files
+    return isinstance(obj, MetaPackage) and not isinstance(obj, PackageFile)
+
+
 def select_most_recent_version(objects):
     """Find the object having most recent version among ``objects``.
     """
@@ -306,6 +313,10 @@ class Solver(object):
 
             satisfier = dependency_selector(solver_req.satisfiers)
 
+            if satisfier.name == target.obj.name and \
+               not is_installed(satisfier):
+                raise DependencyLoop(target, [cr_owner])
+
             for satisfier_req in self.objects[satisfier].requirements:
                 req_queue.append((satisfier, satisfier_req))
 
@@ -405,9 +416,7 @@ class Solver(object):
         result = []
         for node in reversed(sorted_nodes):
             if ignore_installed_packages:
-                # Installed packages are no package files
-                if not isinstance(node.obj, MetaPackage) or \
-                   isinstance(node.obj, PackageFile):
+                if not is_installed(node.obj):
                     result.append(node.obj)
             else:
                 result.append(node.obj)
-- 
2.43.0


From 6ab84a2e9f94c9b3ffbcf94e8f0d61c1afed618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 19/76] fix: DictFile.clear() empties the mapping when it has
 no file

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index c1ab436..cdb9e2b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -76,7 +76,7 @@ class DictFile(dict):
         """
         if os.path.isfile(self.__file_path):
             os.unlink(self.__file_path)
-            super(DictFile, self).clear()
+        super(DictFile, self).clear()
 
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
-- 
2.43.0


From 805c74f13db053832af68b07c9293547f67b4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 20/76] fix: refuse DictFile content which is not a mapping

---
 ipkg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index cdb9e2b..eaaca47 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -68,8 +68,9 @@ class DictFile(dict):
                     data = json.loads(raw)
                 except ValueError:
                     raise InvalidDictFileContent(self.__file_path)
-                else:
-                    self.update(data)
+                if not isinstance(data, dict):
+                    raise InvalidDictFileContent(self.__file_path)
+                self.update(data)
 
     def clear(self):
         """Force the dictionary to be empty.
-- 
2.43.0


From ba1cc85baa9aa9560418c4034422edc2984bfc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 21/76] fix: a failed DictFile.save() keeps the content
 previously saved

---
 ipkg/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index eaaca47..be49f63 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -82,8 +82,14 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        with open(self.__file_path, 'w') as f:
-            json.dump(self, f, indent=4)
+        content = json.dumps(self, indent=4)
+        # Write another file and rename it, so that a save that fails does
+        # not lose the content previously saved
+        file_path = os.path.realpath(self.__file_path)
+        new_file_path = file_path + '.new'
+        with open(new_file_path, 'w') as f:
+            f.write(content)
+        os.rename(new_file_path, file_path)
 
 
 def execute(command,
-- 
2.43.0


From b320764590a247a7c3719ec4eee448dcc19bd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 22/76] fix: load remote DictFiles, which repositories served
 over HTTP need

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index be49f63..b13c784 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -60,7 +60,7 @@ class DictFile(dict):
         self.reload()
 
     def reload(self):
-        if os.path.isfile(self.__file_path):
+        if os.path.isfile(self.__file_path) or '://' in self.__file_path:
             LOGGER.debug('Loading %s', self.__file_path)
             raw = vopen(self.__file_path).read()
             if raw:
-- 
2.43.0


From 53072ae5b68ef1940c7ee02bb31060facd642dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 23/76] fix: DictFile.reload() drops what is not in the file
 anymore

---
 ipkg/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index b13c784..d2c8ee2 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -70,6 +70,7 @@ class DictFile(dict):
                     raise InvalidDictFileContent(self.__file_path)
                 if not isinstance(data, dict):
                     raise InvalidDictFileContent(self.__file_path)
+                super(DictFile, self).clear()
                 self.update(data)
 
     def clear(self):
-- 
2.43.0


From a4124ffa9b817ba684ec1f4f7d91a01cc39e9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 24/76] fix: run commands with an empty environment when asked
 to

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index d2c8ee2..3b95c14 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -104,7 +104,7 @@ def execute(command,
 
     kw = {'cwd': cwd}
 
-    if env:
+    if env is not None:
         kw['env'] = env
 
     if stdout:
-- 
2.43.0


From 9637e5c664cf4ca3b6e48dd922c1f68d5265a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 25/76] fix: fail with an ipkg error when a command cannot be
 split or is empty

---
 ipkg/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 3b95c14..51eda85 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -122,10 +122,16 @@ def execute(command,
 
     # If command is a string, split it to get a format that Popen understands
     if isinstance(command, basestring):
-        command_ = shlex.split(command)
+        try:
+            command_ = shlex.split(command)
+        except ValueError as exception:
+            raise ExecutionFailed([command], str(exception))
     else:
         command_ = command
 
+    if not command_:
+        raise ExecutionFailed(command_, 'Empty command')
+
     try:
         process = subprocess.Popen(command_, **kw)
 
-- 
2.43.0


From b27bccbf82959150878073941b723063d45d00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 26/76] fix: tell why a command cannot be started

---
 ipkg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 51eda85..76c0f64 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -136,10 +136,12 @@ def execute(command,
         process = subprocess.Popen(command_, **kw)
 
     except OSError as exception:
-        if exception.errno == errno.ENOENT:
+        if cwd is not None and not os.path.isdir(cwd):
+            error = 'Not a directory: %s' % cwd
+        elif exception.errno == errno.ENOENT:
             error = 'Command not found'
         else:
-            error = exception.strerror
+            error = exception.strerror or str(exception)
         raise ExecutionFailed(command_, error)
 
     stdout_str, stderr_str = process.communicate(data)
-- 
2.43.0


From 2a7c4eaf0c952f67c874b9062b9baff3afcad39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 27/76] fix: unpack archives and packages only inside of the
 target directory

---
 ipkg/packages.py |  6 ++--
 ipkg/utils.py    | 89 +++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 89 insertions(+), 6 deletions(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index d7923ba..447aeb5 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -6,6 +6,7 @@ import logging
 from .files import vopen
 from .exceptions import IpkgException
 from .mixins import NameVersionRevisionComparable
+from .utils import extract_tar
 
 
 LOGGER = logging.getLogger(__name__)
@@ -70,8 +71,9 @@ class PackageFile(MetaPackage):
         """Extract the package to ``path``.
         """
         LOGGER.debug('Extracting %s in %s', self, path)
-        files = [m for m in self._tarfile.getmembers() if m.path != META_FILE]
-        self._tarfile.extractall(path, files)
+        files = [m for m in self._tarfile.getmembers()
+                 if os.path.normpath(m.path) != META_FILE]
+        extract_tar(self._tarfile, path, files)
 
 
 def make_filename(**meta):
diff --git a/ipkg/utils.py b/ipkg/utils.py
index 76c0f64..0430043 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -7,6 +7,7 @@ import tarfile
 import zipfile
 import errno
 import shlex
+import copy
 
 from .files import vopen
 from .exceptions import IpkgException, InvalidPackage
@@ -51,6 +52,11 @@ class CannotCreateDirectory(IpkgException):
                                                    self.reason)
 
 
+class UnsafePath(IpkgException):
+    """Raised when a path is outside of the directory it must be in."""
+    MESSAGE = 'Path %s is outside of %s'
+
+
 class DictFile(dict):
     """A ``dict``, storable as a JSON file.
     """
@@ -207,6 +213,70 @@ def which(command):
             return path
 
 
+def contained_path(base, path):
+    """Returns the absolute path of ``path`` in the directory ``base``.
+
+    Raises ``UnsafePath`` when it is not inside ``base``, either because of
+    the path itself or because of the symbolic links it goes through.
+    """
+    base = os.path.realpath(base)
+    parent, name = os.path.split(path.rstrip('/'))
+
+    if name in ('', os.curdir, os.pardir):
+        result = os.path.realpath(os.path.join(base, path))
+    else:
+        result = os.path.join(
+            os.path.realpath(os.path.join(base, parent)), name)
+
+    if result != base and not result.startswith(base.rstrip('/') + '/'):
+        raise UnsafePath(path, base)
+
+    return result
+
+
+def extract_tar(archive, target, members):
+    """Extract ``members`` of a tar ``archive`` in the directory ``target``.
+
+    Existing files are replaced, and nothing is written out of ``target``.
+    """
+    base = os.path.realpath(target)
+    members = list(members)
+
+    for member in members:
+        contained_path(base, member.name)
+
+    def prepare():
+        for member in members:
+            path = contained_path(base, member.name)
+            if member.isdir():
+                if os.path.islink(path):
+                    path = contained_path(base, os.path.realpath(path))
+            elif os.path.isdir(path) and not os.path.islink(path):
+                raise IpkgException('%s is a directory' % path)
+            if path == base:
+                continue
+
+            member = copy.copy(member)
+            member.name = os.path.relpath(path, base)
+
+            if member.islnk():
+                link_target = contained_path(base, member.linkname)
+                if os.path.islink(link_target):
+                    member.type = tarfile.SYMTYPE
+                    member.linkname = os.readlink(link_target)
+                else:
+                    member.linkname = os.path.relpath(link_target, base)
+                    if link_target == path:
+                        continue
+
+            if os.path.lexists(path) and not member.isdir():
+                os.unlink(path)
+
+            yield member
+
+    archive.extractall(base, prepare())
+
+
 def unarchive(fileobj, target):
     """Extract an archive, detecting its format.
 
@@ -228,22 +298,33 @@ def unarchive(fileobj, target):
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
     if filename.split('.')[-2:] in tar_extensions:
         archive = tarfile.open(fileobj=fileobj)
-        root_items = set(i.path.split('/')[0] for i in archive)
+        paths = [i.path for i in archive]
 
     elif filename.endswith('.zip'):
         archive = zipfile.ZipFile(fileobj)
-        root_items = set(i.filename.split('/')[0] for i in
-                         archive.filelist)
+        paths = [i.filename for i in archive.filelist]
 
     else:
         raise IpkgException('Unrecognized file type %s' % filename)
 
+    root_items = set(os.path.normpath(path).split('/')[0] for path in paths)
+    root_items.discard(os.curdir)
+
     if len(root_items) != 1:
         raise IpkgException('There must be strictly 1 item at '
                             'root of sources file archive')
 
     LOGGER.info('Extracting: %s', fileobj)
-    archive.extractall(target)
+    if isinstance(archive, tarfile.TarFile):
+        extract_tar(archive, target, archive)
+    else:
+        base = os.path.realpath(target)
+        for path, info in [(contained_path(base, i.filename), i)
+                           for i in archive.infolist()]:
+            if path != base:
+                suffix = '/' if info.filename.endswith('/') else ''
+                info.filename = os.path.relpath(path, base) + suffix
+                archive.extract(info, base)
     LOGGER.info('Extracted: %s', fileobj)
     archive.close()
 
-- 
2.43.0


From eaf8eec19f125b0a88bab3f6b45307a75c4c9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 28/76] fix: open local files whatever the characters of their
 path

---
 ipkg/files/__init__.py            |  8 ++++++--
 ipkg/files/backends/filesystem.py | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ipkg/files/__init__.py b/ipkg/files/__init__.py
index fa4637c..d777225 100644
--- a/ipkg/files/__init__.py
+++ b/ipkg/files/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 try:
     from urlparse import urlparse
 except ImportError:  # Python 3
@@ -17,8 +19,10 @@ def vopen(url, **kw):
        Its URL is used to determine which backend will handle it,
        making HTTP requests or filesystem calls as needed.
     """
-    info = urlparse(url)
-    scheme = info.scheme or DEFAULT_SCHEME
+    if os.path.isfile(url):
+        scheme = DEFAULT_SCHEME
+    else:
+        scheme = urlparse(url).scheme or DEFAULT_SCHEME
 
     for backend_ep in iter_entry_points(group='ipkg.files.backend'):
         if backend_ep.name == scheme:
diff --git a/ipkg/files/backends/filesystem.py b/ipkg/files/backends/filesystem.py
index e113144..985c758 100644
--- a/ipkg/files/backends/filesystem.py
+++ b/ipkg/files/backends/filesystem.py
@@ -2,8 +2,9 @@ import os
 
 try:
     from urlparse import urlparse
+    from urllib import unquote
 except ImportError:  # Python 3
-    from urllib.parse import urlparse
+    from urllib.parse import urlparse, unquote
 
 from . import BaseFile, BackendException
 
@@ -17,7 +18,15 @@ class LocalFile(BaseFile):
     """
     def __init__(self, *args, **kw):
         super(LocalFile, self).__init__(*args, **kw)
-        filepath = urlparse(self.name).path
+        filepath = self.name
+        if not os.path.isfile(filepath) and \
+                urlparse(self.name).scheme == 'file':
+            # file:///foo%20bar, file://localhost/foo%20bar, file:/foo%20bar
+            filepath = self.name.split(':', 1)[1]
+            if filepath.startswith('//'):
+                filepath = filepath[2:]
+                filepath = filepath[max(filepath.find('/'), 0):]
+            filepath = unquote(filepath)
         if os.path.isfile(filepath):
             self.__file = open(filepath)
         else:
-- 
2.43.0


From 3da6856ed4402f1f375ea9a79aa8fe855952cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 29/76] fix: the content of an HTTP error is not the content of
 the file

---
 ipkg/files/backends/http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 3297041..fe44d8f 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -29,6 +29,10 @@ class HttpFile(BaseFile):
         except requests.RequestException as exc:
             raise HttpFileException(str(exc))
 
+        if response.status_code != 200:
+            raise HttpFileException('%s: HTTP status %s' % (
+                self.name, response.status_code))
+
         else:
             content = StringIO()
 
-- 
2.43.0


From 495ef041378d1b82333df5c23d9c46ca96a417eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 30/76] fix: an interrupted HTTP transfer is an error

---
 ipkg/files/backends/http.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index fe44d8f..9a02525 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,6 +1,12 @@
 import logging
 
+try:
+    from httplib import HTTPException
+except ImportError:  # Python 3
+    from http.client import HTTPException
+
 import requests
+from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
@@ -37,12 +43,19 @@ class HttpFile(BaseFile):
             content = StringIO()
 
             while True:
-                data = response.raw.read(1024 * 1024)
+                try:
+                    data = response.raw.read(1024 * 1024)
+                except (IOError, HTTPError, HTTPException) as exc:
+                    raise HttpFileException('%s: %s' % (self.name, exc))
                 if data:
                     content.write(data)
                 else:
                     break
 
+            length = response.headers.get('content-length')
+            if length is not None and content.tell() != int(length):
+                raise HttpFileException('%s: Incomplete transfer' % self.name)
+
             content.seek(0)
 
             if cache.is_active():
-- 
2.43.0


From 0f46cada58b12a9c652a7c454e7d47e4c8b15add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 31/76] fix: download files as they are, not compressed by the
 server

---
 ipkg/files/backends/http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 9a02525..af04dd1 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -30,7 +30,8 @@ class HttpFile(BaseFile):
     def __download(self):
         LOGGER.info('Downloading: %s', self.name)
         try:
-            response = requests.get(self.name, stream=True)
+            response = requests.get(self.name, stream=True,
+                                    headers={'Accept-Encoding': 'identity'})
 
         except requests.RequestException as exc:
             raise HttpFileException(str(exc))
-- 
2.43.0


From 4a35f0d8618b23507030360298fa08009fb9dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 32/76] fix: write files in the cache atomically

---
 ipkg/files/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 4015710..ab0c97c 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -1,6 +1,7 @@
 from logging import getLogger
-from os import path, environ
+from os import path, environ, rename
 from hashlib import sha256
+from tempfile import NamedTemporaryFile
 
 from .exceptions import FilesException
 
@@ -47,8 +48,12 @@ def has(name):
 
 def set(name, content):
     try:
-        with open(get_cache_filepath(name), 'wb') as f:
+        filepath = get_cache_filepath(name)
+        # Only complete files must get their name in the cache
+        with NamedTemporaryFile(dir=path.dirname(filepath),
+                                delete=False) as f:
             f.write(content)
+        rename(f.name, filepath)
     except Exception as exc:
         LOGGER.exception('Failed to add %s to cache', name)
     else:
-- 
2.43.0


From 055713a4bc363e39e67277bca3485c4dceb0f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 33/76] fix: remove all occurrences of an item from list
 variables

---
 ipkg/environments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d72abc8..b9d2b93 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -97,9 +97,8 @@ class ListVariable(Variable):
             raise InvalidVariableValue(self.name, value)
 
     def remove(self, item):
-        if item in self.__list:
-            item_index = self.__list.index(item)
-            self.__list.pop(item_index)
+        while item in self.__list:
+            self.__list.remove(item)
 
     def insert(self, item, index=0):
         self.remove(item)
-- 
2.43.0


From 7ddc65c6126e9d4285d6627b143e0e9a02d9e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 34/76] fix: replace directories in variables with any other
 percent sign

---
 ipkg/environments.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index b9d2b93..6493b25 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import re
 import logging
 import shutil
 import tempfile
@@ -14,6 +15,8 @@ from .platforms import Platform
 
 
 LOGGER = logging.getLogger(__name__)
+# %(name)s, where name is one of the environment directories, and %%
+DIRECTORY_PLACEHOLDER = re.compile(r'%(?:\((\w+)\)s|%)')
 
 
 class UnknownEnvironment(IpkgException):
@@ -228,12 +231,15 @@ class EnvironmentVariables(dict):
         else:
             variables = {name: value}
 
+        def replace(match):
+            if match.group() == '%%':
+                return '%'
+            # Anything else than a directory is kept as is
+            return self.__directories.get(match.group(1), match.group())
+
         for var_name, var_value in variables.items():
-            try:
-                var_value = var_value % self.__directories
-            except KeyError:
-                # invalid format string ?
-                pass
+            if isinstance(var_value, basestring):
+                var_value = DIRECTORY_PLACEHOLDER.sub(replace, var_value)
 
             LOGGER.debug('Adding variable %s=%s', var_name, var_value)
             self[var_name] = Variable(var_name, var_value)
-- 
2.43.0


From 33020bdb176952379781afba5e4c7d7589547031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 35/76] fix: quote exported variables

---
 ipkg/environments.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 6493b25..3a0d95f 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -4,6 +4,7 @@ import re
 import logging
 import shutil
 import tempfile
+from pipes import quote
 
 from .exceptions import IpkgException
 from .packages import MetaPackage, PackageFile
@@ -15,6 +16,7 @@ from .platforms import Platform
 
 
 LOGGER = logging.getLogger(__name__)
+SHELL_NAME = re.compile(r'^[A-Za-z_][A-Za-z0-9_]*$')
 # %(name)s, where name is one of the environment directories, and %%
 DIRECTORY_PLACEHOLDER = re.compile(r'%(?:\((\w+)\)s|%)')
 
@@ -217,8 +219,13 @@ class EnvironmentVariables(dict):
         return result
 
     def as_string(self, export=False):
-        return '\n'.join('%s%s=%s' % ('export ' if export else '', n, v)
-                         for n, v in self.items()) + '\n'
+        if export:
+            # What a shell cannot export would prevent sourcing the rest
+            lines = ['export %s=%s' % (n, quote(str(v)))
+                     for n, v in self.items() if SHELL_NAME.match(n)]
+        else:
+            lines = ['%s=%s' % (n, v) for n, v in self.items()]
+        return '\n'.join(lines) + '\n'
 
     def __str__(self):
         return self.as_string()
-- 
2.43.0


From ad880ba55e964f9a78bc57f535b868e320441670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 36/76] fix: variables of packages may have any text as value

---
 ipkg/environments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 3a0d95f..1c4bff3 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -75,6 +75,9 @@ class Variable(object):
 
     def set(self, value):
         if isinstance(value, basestring):
+            if not isinstance(value, str):
+                # Text loaded from package meta data
+                value = value.encode('utf-8')
             self.value = value
         else:
             raise InvalidVariableValue(self.name, value)
-- 
2.43.0


From ed892e6678c77a880ae2fedebe4a20afbebcca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 37/76] fix: keep the inherited HOME

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 1c4bff3..9881b35 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -200,7 +200,8 @@ class EnvironmentVariables(dict):
         variables['IPKG_ENVIRONMENT'] = Variable('IPKG_ENVIRONMENT',
                                                  directories['prefix'])
         variables['TMPDIR'] = Variable('TMPDIR', directories['tmp'])
-        variables['HOME'] = Variable('HOME', os.environ.get('HOME', '/'))
+        if 'HOME' not in variables:
+            variables['HOME'] = Variable('HOME', os.environ.get('HOME', '/'))
         shortname = os.path.split(os.path.realpath(directories['prefix']))[1]
         variables['PS1'] = Variable('PS1', '(%s)\h:\w\$ ' % shortname)
         variables['PATH'].insert(directories['bin'])
-- 
2.43.0


From 25d298afee262a39caf4c833d8a8eafdeb3f6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 38/76] fix: the prefix of an environment is absolute

---
 ipkg/environments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 9881b35..10dc0df 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -261,6 +261,8 @@ class Environment(object):
     """
 
     def __init__(self, prefix, directories=None, variables=None):
+        # Usable from any working directory
+        prefix = os.path.abspath(prefix)
         self.prefix = prefix
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
-- 
2.43.0


From d77216472058301f0cb345377ba7046962cba839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 39/76] fix: cannot create a directory over something which is
 not a directory

---
 ipkg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 0430043..fdc7ff2 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -337,5 +337,6 @@ def mkdir(directory, fail_if_it_exist=True):
     try:
         os.mkdir(directory)
     except OSError as exception:
-        if exception.errno != errno.EEXIST or fail_if_it_exist:
+        if exception.errno != errno.EEXIST or fail_if_it_exist or \
+                not os.path.isdir(directory):
             raise CannotCreateDirectory(directory, exception.strerror)
-- 
2.43.0


From f068d90e14b03633e413f83196ffdff200ed07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 40/76] fix: uninstall the other version of a package by its
 name

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 10dc0df..55a347c 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -371,7 +371,7 @@ class Environment(object):
                     # Different version/revision, uninstall it
                     LOGGER.debug('Another version of %r is installed, '
                                  'uninstalling it first' % package)
-                    self.uninstall(package)
+                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-- 
2.43.0


From ed25d42bdc92bceceb48e80a52abc3dec1e8438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 41/76] fix: uninstall removes emptied directories, not those
 of the environment

---
 ipkg/environments.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 55a347c..4e3d553 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -9,7 +9,7 @@ from pipes import quote
 from .exceptions import IpkgException
 from .packages import MetaPackage, PackageFile
 from .prefix_rewriters import rewrite_prefix
-from .utils import DictFile, execute, make_package_spec, mkdir
+from .utils import DictFile, execute, make_package_spec, mkdir, contained_path
 from .compat import basestring
 from .files.exceptions import FilesException
 from .platforms import Platform
@@ -317,25 +317,37 @@ class Environment(object):
         LOGGER.info('Uninstalling %s', package)
 
         for rel_path in self.meta['packages'][package]['files']:
-            path = os.path.join(self.prefix, rel_path)
+            path = contained_path(self.prefix, rel_path)
 
             if os.path.isfile(path) or os.path.islink(path):
                 #LOGGER.debug('Removing file %s', path)
                 os.unlink(path)
-                parent = os.path.dirname(path)
-                if not os.listdir(parent):
-                    #LOGGER.debug('Parent directory %s is empty, removing it',
-                    #             parent)
-                    os.rmdir(parent)
             else:
                 LOGGER.debug('Ignoring %s', path)
 
+            self.__remove_empty_directories(os.path.dirname(path))
+
         # Remove package from environment meta data
         self.meta['packages'].pop(package)
         self.meta.save()
 
         LOGGER.info('Package %s uninstalled', package)
 
+    def __remove_empty_directories(self, directory):
+        """Remove a directory of the environment, and then its parents, as
+           long as they are empty and not one of its own directories.
+        """
+        keep = [os.path.realpath(path) for path in self.directories.values()]
+        base = os.path.realpath(self.prefix).rstrip('/') + '/'
+
+        while directory.startswith(base) and directory not in keep:
+            if os.path.isdir(directory):
+                if os.listdir(directory):
+                    break
+                #LOGGER.debug('Directory %s is empty, removing it', directory)
+                os.rmdir(directory)
+            directory = os.path.dirname(directory)
+
     def install(self, package, repository=None):
         """Install a package.
         """
-- 
2.43.0


From 423d25d95c96063d49540642b05926526cf52633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 42/76] fix: install the dependencies which are not satisfied,
 refuse loops

---
 ipkg/environments.py | 101 +++++++++++++++++++++++++++++++++----------
 1 file changed, 79 insertions(+), 22 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 4e3d553..2efb494 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -13,6 +13,7 @@ from .utils import DictFile, execute, make_package_spec, mkdir, contained_path
 from .compat import basestring
 from .files.exceptions import FilesException
 from .platforms import Platform
+from .requirements import Requirement
 
 
 LOGGER = logging.getLogger(__name__)
@@ -51,6 +52,16 @@ class InvalidVariableValue(IpkgException):
                                                                   self.value)
 
 
+class DependencyLoop(IpkgException):
+
+    MESSAGE = 'Packages depend on each other: %s'
+
+
+class UnsatisfiedDependency(IpkgException):
+
+    MESSAGE = 'Conflicting requirements: %s requires %s'
+
+
 def in_env():
     """Returns ``True`` if running inside an ipkg environment.
     """
@@ -353,6 +364,30 @@ class Environment(object):
         """
         LOGGER.info('Installing %s', package)
 
+        package = self.__find_package(package, repository)
+
+        # Check if the package is already installed
+        for installed_package in self.meta['packages'].values():
+            if installed_package['name'] == package.name:
+                # Package already installed
+                if installed_package['version'] == package.version and \
+                   installed_package['revision'] == package.revision:
+                    # Same version/revision, just warn
+                    LOGGER.warning('Package %(name)s %(version)s %(revision)s'
+                                   ' is already installed' % package.meta)
+                    return
+                break
+
+        # Find everything before changing anything
+        packages = self.__find_dependencies(package, repository)
+
+        # Install dependencies first
+        for package in packages:
+            self.__install_package(package)
+
+    def __find_package(self, package, repository):
+        """Find a package given as a package file or as a requirement.
+        """
         if isinstance(package, basestring):
 
             if os.path.isfile(package):
@@ -369,29 +404,51 @@ class Environment(object):
         if not isinstance(package, MetaPackage):
             raise IpkgException('Invalid package: %r' % package)
 
-        # Check if the package is already installed
-        for installed_package in self.meta['packages'].values():
-            if installed_package['name'] == package.name:
-                # Package already installed
-                if installed_package['version'] == package.version and \
-                   installed_package['revision'] == package.revision:
-                    # Same version/revision, just warn
-                    LOGGER.warning('Package %(name)s %(version)s %(revision)s'
-                                   ' is already installed' % package.meta)
-                    return
-                else:
-                    # Different version/revision, uninstall it
-                    LOGGER.debug('Another version of %r is installed, '
-                                 'uninstalling it first' % package)
-                    self.uninstall(package.name)
-                break
+        return package
 
-        # Install dependencies
-        if package.dependencies:
-            for dependency in package.dependencies:
-                if dependency not in self.meta['packages']:
-                    LOGGER.info('Installing dependency: %s', dependency)
-                    self.install(dependency, repository)
+    def __find_dependencies(self, package, repository):
+        """List the packages to install so that the dependencies of
+           ``package`` are satisfied: dependencies first, ``package`` last.
+        """
+        packages = []
+        installed = dict((p.name, p) for p in self.packages)
+
+        def add(package, parents):
+            parents = parents + [package.name]
+            for dependency in package.dependencies or ():
+                requirement = Requirement(dependency)
+                name = requirement.name
+                if name in parents:
+                    raise DependencyLoop(' -> '.join(parents + [name]))
+                if name in [p.name for p in packages]:
+                    continue
+                if name in installed and \
+                        requirement.satisfied_by(installed[name]):
+                    continue
+                LOGGER.info('Found dependency: %s', dependency)
+                add(self.__find_package(dependency, repository), parents)
+            packages.append(package)
+
+        add(package, [])
+
+        installed.update((p.name, p) for p in packages)
+        for package in packages:
+            for dependency in package.dependencies or ():
+                requirement = Requirement(dependency)
+                if requirement.name not in installed or not \
+                        requirement.satisfied_by(installed[requirement.name]):
+                    raise UnsatisfiedDependency(package, dependency)
+
+        return packages
+
+    def __install_package(self, package):
+        """Install a package whose dependencies are installed.
+        """
+        if package.name in self.meta['packages']:
+            # Different version/revision, uninstall it
+            LOGGER.debug('Another version of %r is installed, '
+                         'uninstalling it first' % package)
+            self.uninstall(package.name)
 
         package.extract(self.prefix)
 
-- 
2.43.0


From f5f85f460bfd8eecf4ebb01909efbc282b65a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 43/76] fix: do not install packages whose files cannot all be
 read

---
 ipkg/environments.py |  2 ++
 ipkg/packages.py     | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 2efb494..654dc22 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -380,6 +380,8 @@ class Environment(object):
 
         # Find everything before changing anything
         packages = self.__find_dependencies(package, repository)
+        for package in packages:
+            package.verify(self.prefix)
 
         # Install dependencies first
         for package in packages:
diff --git a/ipkg/packages.py b/ipkg/packages.py
index 447aeb5..320aa05 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -6,7 +6,7 @@ import logging
 from .files import vopen
 from .exceptions import IpkgException
 from .mixins import NameVersionRevisionComparable
-from .utils import extract_tar
+from .utils import contained_path, extract_tar
 
 
 LOGGER = logging.getLogger(__name__)
@@ -23,6 +23,12 @@ class UnknownMeta(IpkgException):
         return 'Unknown meta data: %s' % self.meta
 
 
+class UnreadablePackage(IpkgException):
+    """A package file is not complete or not a package.
+    """
+    MESSAGE = 'Cannot read package %s: %s'
+
+
 class MetaPackage(NameVersionRevisionComparable):
     """Base package class.
     """
@@ -58,7 +64,14 @@ class PackageFile(MetaPackage):
     @property
     def meta(self):
         if not self.__meta:
-            self.__meta = json.load(self._tarfile.extractfile(META_FILE))
+            try:
+                meta = json.load(self._tarfile.extractfile(META_FILE))
+            except (tarfile.TarError, EnvironmentError, EOFError, KeyError,
+                    AttributeError, ValueError) as exc:
+                raise UnreadablePackage(self.path, exc)
+            if not isinstance(meta, dict):
+                raise UnreadablePackage(self.path, 'invalid meta data')
+            self.__meta = meta
         return self.__meta
 
     @property
@@ -67,6 +80,24 @@ class PackageFile(MetaPackage):
             self.__tarfile = tarfile.open(fileobj=vopen(self.path))
         return self.__tarfile
 
+    def verify(self, path):
+        """Check that all the files of the package can be extracted to
+           ``path``.
+        """
+        try:
+            members = set(os.path.normpath(m.path)
+                          for m in self._tarfile.getmembers())
+        except (tarfile.TarError, EnvironmentError, EOFError) as exc:
+            raise UnreadablePackage(self.path, exc)
+
+        for package_file in self.meta['files']:
+            contained_path(path, package_file)
+            name = os.path.normpath(package_file)
+            if not isinstance(name, str):
+                name = name.encode('utf-8')
+            if name not in members:
+                raise UnreadablePackage(self.path, 'missing %s' % name)
+
     def extract(self, path):
         """Extract the package to ``path``.
         """
-- 
2.43.0


From 87afbff0675074db4eb70602a55575858329f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 44/76] fix: install pkg-config and libtool files without
 prefix

---
 ipkg/prefix_rewriters.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index cd1960b..ecdc8f6 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -42,18 +42,13 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     with open(file_path, 'r') as f:
         lines = f.readlines()
 
-    with open(file_path, 'w') as f:
-        while True:
-            line = lines.pop(0)
-
-            if line.startswith(line_start):
-                line = line.replace(build_prefix, install_prefix)
-                f.write(line)
-                f.writelines(lines)
-                break
+    for index, line in enumerate(lines):
+        if line.startswith(line_start):
+            lines[index] = line.replace(build_prefix, install_prefix)
+            break
 
-            else:
-                f.write(line)
+    with open(file_path, 'w') as f:
+        f.writelines(lines)
 
 
 def rewrite_pkgconfig(file_path, build_prefix, install_prefix):
-- 
2.43.0


From 05a3dd42be383dc09a82f8d46169729d0655122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 45/76] fix: relocate files whatever their permissions

---
 ipkg/prefix_rewriters.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index ecdc8f6..5f629b7 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -13,6 +13,23 @@ def rewrite_prefix(package_file, build_prefix, install_prefix):
 
     file_path = os.path.join(install_prefix, package_file)
 
+    mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    if not mode & stat.S_IRUSR:
+        # The owner is not allowed to read it
+        os.chmod(file_path, mode | stat.S_IRUSR)
+        try:
+            rewrite_file_prefix(package_file, file_path,
+                                build_prefix, install_prefix)
+        finally:
+            os.chmod(file_path, mode)
+    else:
+        rewrite_file_prefix(package_file, file_path,
+                            build_prefix, install_prefix)
+
+
+def rewrite_file_prefix(package_file, file_path, build_prefix,
+                        install_prefix):
+
     if PKGCONFIG_FILE.match(package_file):
         rewrite_pkgconfig(file_path, build_prefix, install_prefix)
 
@@ -34,6 +51,20 @@ def rewrite_prefix(package_file, build_prefix, install_prefix):
             #             'cannot detect file type', file_path)
 
 
+def replace_content(file_path, lines):
+    """Replace a file, which may not be writable, keeping its permissions.
+
+    The file may have other names, which must be rewritten on their own.
+    """
+    new_file_path = file_path + '.ipkg-new'
+    if os.path.lexists(new_file_path):
+        os.unlink(new_file_path)
+    with open(new_file_path, 'w') as f:
+        f.writelines(lines)
+    os.chmod(new_file_path, stat.S_IMODE(os.stat(file_path).st_mode))
+    os.rename(new_file_path, file_path)
+
+
 def rewrite_text_first_match(file_path, line_start, build_prefix,
                              install_prefix):
     """Rewrite the prefix. Only apply to the first line starting with
@@ -45,11 +76,9 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     for index, line in enumerate(lines):
         if line.startswith(line_start):
             lines[index] = line.replace(build_prefix, install_prefix)
+            replace_content(file_path, lines)
             break
 
-    with open(file_path, 'w') as f:
-        f.writelines(lines)
-
 
 def rewrite_pkgconfig(file_path, build_prefix, install_prefix):
     #LOGGER.debug('rewrite_pkgconfig(%r, %r)', file_path,
@@ -77,10 +106,7 @@ def rewrite_text_first_line(file_path, build_prefix, install_prefix):
         other_lines = f.readlines()
 
     first_line = first_line.replace(build_prefix, install_prefix)
-
-    with open(file_path, 'w') as f:
-        f.write(first_line)
-        f.writelines(other_lines)
+    replace_content(file_path, [first_line] + other_lines)
 
 
 def get_osx_bin_libs(file_path):
-- 
2.43.0


From f6e4e6e27dba779dbbb2ec58eb08bfc94f31aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 46/76] fix: only rewrite OS X binaries on OS X, which has the
 tools for it

---
 ipkg/prefix_rewriters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 5f629b7..4dfa807 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -2,6 +2,7 @@ import os
 import stat
 import logging
 
+from .platforms import Platform
 from .utils import execute, PIPE
 from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
 
@@ -43,7 +44,8 @@ def rewrite_file_prefix(package_file, file_path, build_prefix,
         if first_bytes[:2] == '#!':
             rewrite_text_first_line(file_path, build_prefix, install_prefix)
 
-        elif first_bytes in ('\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe'):
+        elif first_bytes in ('\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe') and \
+                Platform.current().os_name == 'osx':
             rewrite_osx_bin(file_path, build_prefix, install_prefix)
 
         #else:
-- 
2.43.0


From 13dd855c0a6653f30f287ad67fc017871659a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 47/76] fix: install packages in prefixes and with files of any
 name

---
 ipkg/compat.py       |  6 ++++++
 ipkg/environments.py | 14 ++++++--------
 ipkg/packages.py     |  5 ++---
 ipkg/utils.py        |  3 ++-
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/ipkg/compat.py b/ipkg/compat.py
index 96c1ebf..d0a4d24 100644
--- a/ipkg/compat.py
+++ b/ipkg/compat.py
@@ -9,6 +9,12 @@ except NameError:
     basestring = str
 
 
+def native(text):
+    """Make a file path or name of a text, such as those of JSON data.
+    """
+    return text if isinstance(text, str) else text.encode('utf-8')
+
+
 try:
     from cStringIO import StringIO
 except ImportError:
diff --git a/ipkg/environments.py b/ipkg/environments.py
index 654dc22..01866a5 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -10,7 +10,7 @@ from .exceptions import IpkgException
 from .packages import MetaPackage, PackageFile
 from .prefix_rewriters import rewrite_prefix
 from .utils import DictFile, execute, make_package_spec, mkdir, contained_path
-from .compat import basestring
+from .compat import basestring, native
 from .files.exceptions import FilesException
 from .platforms import Platform
 from .requirements import Requirement
@@ -86,10 +86,8 @@ class Variable(object):
 
     def set(self, value):
         if isinstance(value, basestring):
-            if not isinstance(value, str):
-                # Text loaded from package meta data
-                value = value.encode('utf-8')
-            self.value = value
+            # Values loaded from package meta data may be any text
+            self.value = native(value)
         else:
             raise InvalidVariableValue(self.name, value)
 
@@ -273,7 +271,7 @@ class Environment(object):
 
     def __init__(self, prefix, directories=None, variables=None):
         # Usable from any working directory
-        prefix = os.path.abspath(prefix)
+        prefix = os.path.abspath(native(prefix))
         self.prefix = prefix
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
@@ -457,10 +455,10 @@ class Environment(object):
         # Rewrite files prefix if this environment prefix is different than
         # package build prefix.
         isfile, islink = os.path.isfile, os.path.islink
-        build_prefix = package.meta['build_prefix']
+        build_prefix = native(package.meta['build_prefix'])
         if build_prefix != self.prefix:
             LOGGER.debug('Rewriting prefix in binaries and scripts')
-            for pkg_file in package.meta['files']:
+            for pkg_file in map(native, package.meta['files']):
                 file_dir, file_name = os.path.split(pkg_file)
                 if file_dir in ('bin', 'sbin') or file_dir.startswith('lib'):
                     file_path = os.path.join(self.prefix, pkg_file)
diff --git a/ipkg/packages.py b/ipkg/packages.py
index 320aa05..dbfcba4 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -3,6 +3,7 @@ import json
 import tarfile
 import logging
 
+from .compat import native
 from .files import vopen
 from .exceptions import IpkgException
 from .mixins import NameVersionRevisionComparable
@@ -92,9 +93,7 @@ class PackageFile(MetaPackage):
 
         for package_file in self.meta['files']:
             contained_path(path, package_file)
-            name = os.path.normpath(package_file)
-            if not isinstance(name, str):
-                name = name.encode('utf-8')
+            name = os.path.normpath(native(package_file))
             if name not in members:
                 raise UnreadablePackage(self.path, 'missing %s' % name)
 
diff --git a/ipkg/utils.py b/ipkg/utils.py
index fdc7ff2..1ae4d06 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -11,7 +11,7 @@ import copy
 
 from .files import vopen
 from .exceptions import IpkgException, InvalidPackage
-from .compat import basestring, StringIO
+from .compat import basestring, native, StringIO
 from .regex import PACKAGE_SPEC
 
 
@@ -220,6 +220,7 @@ def contained_path(base, path):
     the path itself or because of the symbolic links it goes through.
     """
     base = os.path.realpath(base)
+    path = native(path)
     parent, name = os.path.split(path.rstrip('/'))
 
     if name in ('', os.curdir, os.pardir):
-- 
2.43.0


From ad578193425d07d6b0eeb65471a07a4c093f49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 48/76] fix: find all the files and links a formula installed

---
 ipkg/build.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 9fa1a90..168fe24 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -41,10 +41,12 @@ def find_files(base):
     """Create a list of files in prefix ``base``.
     """
     result = []
-    for parent, _, files in os.walk(base):
-        rel_dir = parent.split(base)[1][1:]
-        for filename in files:
-            result.append(os.path.join(rel_dir, filename))
+    for parent, directories, files in os.walk(base):
+        rel_dir = os.path.relpath(parent, base)
+        links = [name for name in directories
+                 if os.path.islink(os.path.join(parent, name))]
+        for filename in files + links:
+            result.append(os.path.normpath(os.path.join(rel_dir, filename)))
     return result
 
 
-- 
2.43.0


From 1726618955f632f255c0d779599c5fc53da68de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 49/76] fix: do not keep the arguments of the previous call of
 a command

---
 ipkg/build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 168fe24..b679e34 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -126,10 +126,11 @@ class Formula(NameVersionRevisionComparable):
 
     def __getattr__(self, attr):
         if attr.startswith('run_'):
-            command = [attr.split('_', 1)[1]]
+            command_name = attr.split('_', 1)[1]
 
             def func(args=None, **kw):
                 """Wrap calls to ``run_command``."""
+                command = [command_name]
                 if args:
                     if isinstance(args, basestring):
                         args = args.split()
-- 
2.43.0


From a85df228fceda54550dcc54b990a00b0abf469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 50/76] fix: load each formula file on its own, whatever was
 loaded before

---
 ipkg/build.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index b679e34..cd8b558 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -7,7 +7,6 @@ import hashlib
 import time
 import tarfile
 import json
-import imp
 from socket import gethostname
 
 from .environments import Environment
@@ -284,24 +283,26 @@ class Formula(NameVersionRevisionComparable):
         """
         #LOGGER.debug('%s.from_file("%s")', cls.__name__, filepath)
 
-        if not os.path.exists(filepath):
+        if not os.path.isfile(filepath):
             raise IpkgException('Formula not found: %s' % filepath)
 
         filepath = os.path.abspath(filepath)
         filename = os.path.basename(filepath)
         module_name = filename.split('.py')[0].replace('.', '_')
 
+        # Not a module, which another formula having the same name would share
+        namespace = {'__name__': module_name, '__file__': filepath}
+
         try:
-            module = imp.load_source(module_name, filepath)
-        except ImportError as err:
+            execfile(filepath, namespace)
+        except Exception as err:
             raise IpkgException('Error when importing formula %s: %s' %
                                 (filepath, err))
 
         formula_classes = []
-        for attr in dir(module):
-            if attr.startswith('_'):
+        for attr, obj in namespace.items():
+            if attr.startswith('_') or obj in formula_classes:
                 continue
-            obj = getattr(module, attr)
             try:
                 is_formula_cls = issubclass(obj, Formula)
             except TypeError:
@@ -318,8 +319,6 @@ class Formula(NameVersionRevisionComparable):
         else:
             raise IpkgException('No Formula class found')
 
-        setattr(module, formula_class.__name__, formula_class)
-
         return formula_class
 
     def __repr__(self):
-- 
2.43.0


From 6156181a65e331305635f71dd60dea1a63f63a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 51/76] fix: only uninstall the dependencies which were
 installed for the build

---
 ipkg/build.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index cd8b558..c88b059 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -17,6 +17,7 @@ from .mixins import NameVersionRevisionComparable
 from .utils import unarchive, mkdir
 from .compat import basestring, StringIO
 from .platforms import Platform
+from .requirements import Requirement
 
 
 LOGGER = logging.getLogger(__name__)
@@ -144,7 +145,6 @@ class Formula(NameVersionRevisionComparable):
         LOGGER.debug('%r.build(package_dir=%s, remove_build_dir=%s)',
                      self, package_dir, remove_build_dir)
 
-        installed_dependencies = []
         build_dir = tempfile.mkdtemp(prefix='ipkg-build-')
 
         # Create a temporary env if no env has been previously defined
@@ -160,13 +160,15 @@ class Formula(NameVersionRevisionComparable):
         env_prefix = self.environment.prefix
 
         # Install dependencies in build environment
+        installed_before = [p.name for p in self.environment.packages]
         if self.dependencies:
             LOGGER.info('Build dependencies: %s',
                         ', '.join(self.dependencies))
             for dependency in self.dependencies:
-                if dependency not in self.environment.packages:
+                requirement = Requirement(dependency)
+                if not any(requirement.satisfied_by(package)
+                           for package in self.environment.packages):
                     self.environment.install(dependency, repository)
-                    installed_dependencies.append(dependency)
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -202,10 +204,10 @@ class Formula(NameVersionRevisionComparable):
             package_file_path = os.path.join(env_prefix, package_file)
             os.unlink(package_file_path)
 
-        if self.dependencies:
-            LOGGER.debug('Uninstalling dependencies from build environment')
-            for dependency in self.dependencies:
-                self.environment.uninstall(dependency)
+        LOGGER.debug('Uninstalling dependencies from build environment')
+        for package in self.environment.packages:
+            if package.name not in installed_before:
+                self.environment.uninstall(package.name)
 
         if remove_build_dir:
             LOGGER.debug('Removing build directory: %s', build_dir)
-- 
2.43.0


From 4ede82691b8bf411807a8c75707c09b370630de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 52/76] fix: a build removes the directories it leaves empty

---
 ipkg/build.py        |  3 +--
 ipkg/environments.py | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index c88b059..5b54c09 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -201,8 +201,7 @@ class Formula(NameVersionRevisionComparable):
         # Cleanup
         LOGGER.debug('Removing files installed in build environment')
         for package_file in package_files:
-            package_file_path = os.path.join(env_prefix, package_file)
-            os.unlink(package_file_path)
+            self.environment.remove_file(package_file)
 
         LOGGER.debug('Uninstalling dependencies from build environment')
         for package in self.environment.packages:
diff --git a/ipkg/environments.py b/ipkg/environments.py
index 01866a5..d0b49fd 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -326,15 +326,7 @@ class Environment(object):
         LOGGER.info('Uninstalling %s', package)
 
         for rel_path in self.meta['packages'][package]['files']:
-            path = contained_path(self.prefix, rel_path)
-
-            if os.path.isfile(path) or os.path.islink(path):
-                #LOGGER.debug('Removing file %s', path)
-                os.unlink(path)
-            else:
-                LOGGER.debug('Ignoring %s', path)
-
-            self.__remove_empty_directories(os.path.dirname(path))
+            self.remove_file(rel_path)
 
         # Remove package from environment meta data
         self.meta['packages'].pop(package)
@@ -342,6 +334,19 @@ class Environment(object):
 
         LOGGER.info('Package %s uninstalled', package)
 
+    def remove_file(self, rel_path):
+        """Remove a file or link, and the directories it leaves empty.
+        """
+        path = contained_path(self.prefix, rel_path)
+
+        if os.path.isfile(path) or os.path.islink(path):
+            #LOGGER.debug('Removing file %s', path)
+            os.unlink(path)
+        else:
+            LOGGER.debug('Ignoring %s', path)
+
+        self.__remove_empty_directories(os.path.dirname(path))
+
     def __remove_empty_directories(self, directory):
         """Remove a directory of the environment, and then its parents, as
            long as they are empty and not one of its own directories.
-- 
2.43.0


From d108e69cd52cb1091c11e56314d190f95ae8a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 53/76] fix: never leave an incomplete package file

---
 ipkg/build.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 5b54c09..0373534 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -262,12 +262,15 @@ class Formula(NameVersionRevisionComparable):
         meta_tarinfo.mode = 0644
         meta_tarinfo.size = meta_string_size
 
-        pkg = tarfile.open(filepath, 'w:bz2')
+        # The package only gets its name when it is complete
+        new_filepath = filepath + '.new'
+        pkg = tarfile.open(new_filepath, 'w:bz2')
         pkg.addfile(meta_tarinfo, meta_string)
         for pkg_file in files:
             pkg.add(os.path.join(self.environment.prefix, pkg_file),
                     pkg_file, recursive=False)
         pkg.close()
+        os.rename(new_filepath, filepath)
 
         LOGGER.info('Package %s created', filepath)
 
-- 
2.43.0


From 3aeb4e149aa5abe402d18a9e6a044fd0339410b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 54/76] fix: a failed build leaves nothing behind

---
 ipkg/build.py | 106 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 43 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 0373534..6f75a72 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -146,29 +146,60 @@ class Formula(NameVersionRevisionComparable):
                      self, package_dir, remove_build_dir)
 
         build_dir = tempfile.mkdtemp(prefix='ipkg-build-')
+        given_environment = self.environment
 
-        # Create a temporary env if no env has been previously defined
-        if self.environment is None:
-            LOGGER.info('Creating temporary build environment')
-            prefix = os.path.join(build_dir, 'environment')
-            self.environment = Environment(prefix)
-            self.environment.directories.create()
+        try:
+            # Create a temporary env if no env has been previously defined
+            if self.environment is None:
+                LOGGER.info('Creating temporary build environment')
+                prefix = os.path.join(build_dir, 'environment')
+                self.environment = Environment(prefix)
+                self.environment.directories.create()
+
+            ipkg_file = self.__build(build_dir, package_dir, repository)
+
+        finally:
+            self.environment = given_environment
+
+            if remove_build_dir:
+                LOGGER.debug('Removing build directory: %s', build_dir)
+                shutil.rmtree(build_dir)
+
+        LOGGER.info('Build done')
 
+        return ipkg_file
+
+    def __build(self, build_dir, package_dir, repository):
+        """Build the formula, and leave the environment as it was.
+        """
         if self.build_envvars:
             self.environment.variables.add(self.build_envvars)
 
-        env_prefix = self.environment.prefix
-
-        # Install dependencies in build environment
         installed_before = [p.name for p in self.environment.packages]
-        if self.dependencies:
-            LOGGER.info('Build dependencies: %s',
-                        ', '.join(self.dependencies))
-            for dependency in self.dependencies:
-                requirement = Requirement(dependency)
-                if not any(requirement.satisfied_by(package)
-                           for package in self.environment.packages):
-                    self.environment.install(dependency, repository)
+
+        try:
+            # Install dependencies in build environment
+            if self.dependencies:
+                LOGGER.info('Build dependencies: %s',
+                            ', '.join(self.dependencies))
+                for dependency in self.dependencies:
+                    requirement = Requirement(dependency)
+                    if not any(requirement.satisfied_by(package)
+                               for package in self.environment.packages):
+                        self.environment.install(dependency, repository)
+
+            return self.__build_package(build_dir, package_dir)
+
+        finally:
+            LOGGER.debug('Uninstalling dependencies from build environment')
+            for package in self.environment.packages:
+                if package.name not in installed_before:
+                    self.environment.uninstall(package.name)
+
+    def __build_package(self, build_dir, package_dir):
+        """Build the formula in an environment having its dependencies.
+        """
+        env_prefix = self.environment.prefix
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -189,32 +220,21 @@ class Formula(NameVersionRevisionComparable):
         # running "make install"
         files_before_install = set(find_files(env_prefix))
 
-        # Compile and install the code
-        self.install()
-
-        # Compare the current environment file list with the previous one
-        package_files = set(find_files(env_prefix)) - files_before_install
-        # Use the list of new files to create a package
-        ipkg_file = self.__create_package(package_files,
-                                          env_prefix, package_dir)
-
-        # Cleanup
-        LOGGER.debug('Removing files installed in build environment')
-        for package_file in package_files:
-            self.environment.remove_file(package_file)
-
-        LOGGER.debug('Uninstalling dependencies from build environment')
-        for package in self.environment.packages:
-            if package.name not in installed_before:
-                self.environment.uninstall(package.name)
-
-        if remove_build_dir:
-            LOGGER.debug('Removing build directory: %s', build_dir)
-            shutil.rmtree(build_dir)
-
-        LOGGER.info('Build done')
-
-        return ipkg_file
+        try:
+            # Compile and install the code
+            self.install()
+
+            # Compare the current environment file list with the previous one
+            package_files = set(find_files(env_prefix)) - files_before_install
+            # Use the list of new files to create a package
+            return self.__create_package(package_files,
+                                         env_prefix, package_dir)
+
+        finally:
+            LOGGER.debug('Removing files installed in build environment')
+            for package_file in find_files(env_prefix):
+                if package_file not in files_before_install:
+                    self.environment.remove_file(package_file)
 
     def install(self):
         """Run ``./configure``, ``make`` and ``make install``.
-- 
2.43.0


From 31d5d11763aa87f956db11ecfb31ac339060bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 55/76] fix: list packages once in repositories

---
 ipkg/repositories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index a0c3017..6f8c516 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -222,6 +222,10 @@ class LocalPackageRepository(PackageRepository):
             LOGGER.debug('sha256: %s', checksum)
             package_meta['checksum'] = checksum
 
+        # It may replace a package which has the same file
+        filename = make_filename(**package_meta)
+        meta[package.name] = [other for other in meta[package.name]
+                              if make_filename(**other) != filename]
         meta[package.name].append(package_meta)
 
         LOGGER.info('Package %s added to repository', package)
-- 
2.43.0


From 3f76b80b0699ce9d901e19d1e801631f6da3a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 56/76] fix: ignore files which are not packages in
 repositories

---
 ipkg/repositories.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 6f8c516..e350845 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -8,7 +8,7 @@ from .exceptions import IpkgException, InvalidPackage
 from .utils import DictFile, make_package_spec, mkdir
 from .build import Formula
 from .regex import FORMULA_FILE
-from .compat import basestring
+from .compat import basestring, native
 from .requirements import Requirement
 from . import versions
 
@@ -117,7 +117,14 @@ class LocalPackageRepository(PackageRepository):
                     #             filepath)
                     continue
 
-                self.add(filepath)
+                try:
+                    package = PackageFile(filepath)
+                    if native(make_filename(**package.meta)) != filename or \
+                            native(package.name) != name:
+                        raise InvalidPackage(filepath)
+                    self.add(package)
+                except (IpkgException, KeyError) as err:
+                    LOGGER.warning('Ignoring %s: %s', filepath, err)
 
         if not names or not meta.keys():
             LOGGER.warning('No package found')
-- 
2.43.0


From d3b76ac55d137e16ef57e4f2e259ca73896fd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 57/76] fix: building repositories always ends, with versioned
 dependencies

---
 ipkg/repositories.py | 76 +++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index e350845..7956b84 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -155,49 +155,59 @@ class LocalPackageRepository(PackageRepository):
 
         for formula_cls in formula_repository:
             if formula_cls not in repo_packages:
-                formulas.append(formula_cls(environment, verbose))
+                try:
+                    formulas.append(formula_cls(environment, verbose))
+                except IpkgException as err:
+                    LOGGER.error('Cannot build %s: %s', formula_cls, err)
         LOGGER.debug('Formulas: %r', formulas)
 
         while formulas:
-            build_later = False
-            formula = formulas.pop(0)
+            formula = self.__find_buildable(formulas, environment)
+            if formula is None:
+                break
+            formulas = [other for other in formulas if other is not formula]
 
-            for dependency in formula.dependencies:
-
-                if dependency in formulas:
-                    formulas.append(formula)
-                    build_later = True
-                    LOGGER.debug('Delaying build of %s because it requires '
-                                 '%s which will be built later' %
-                                 (formula, dependency))
-                    break
+            try:
+                built_packages.append(self.build_formula(formula))
 
-                # If the dependency is installed in the environment or present
-                # in this repository, it is satisfied.
-                if ((environment is not None and
-                     dependency in environment.packages)
-                        or dependency in repo_packages
-                        or dependency in built_packages):
-                    continue
-
-                else:
-                    LOGGER.error('Cannot build %s: Missing dependency: %s' %
-                                 (formula, dependency))
-                    break
+            except Exception as err:
+                LOGGER.exception('Failed to build %s: %s' %
+                                 (make_package_spec(formula), str(err)))
 
-            if not build_later:
+        for formula in formulas:
+            LOGGER.error('Cannot build %s: Missing dependencies',
+                         make_package_spec(formula))
 
-                try:
-                    package_file = self.build_formula(formula)
+        return built_packages
 
-                except IpkgException as err:
-                    LOGGER.exception('Failed to build %s: %s' %
-                                     (make_package_spec(formula), str(err)))
+    def __find_buildable(self, formulas, environment):
+        """Find a formula whose dependencies are available, preferably one
+           which does not depend on what the other formulas build.
+        """
+        packages = list(self)
+        if environment is not None:
+            packages.extend(environment.packages)
+
+        buildable = None
+
+        for formula in formulas:
+            try:
+                requirements = map(Requirement, formula.dependencies)
+            except IpkgException as err:
+                LOGGER.error('Invalid dependency of %s: %s',
+                             make_package_spec(formula), err)
+                continue
 
-                else:
-                    built_packages.append(package_file)
+            if all(any(requirement.satisfied_by(package)
+                       for package in packages)
+                   for requirement in requirements):
+                buildable = formula
+                if not any(requirement.satisfied_by(other)
+                           for requirement in requirements
+                           for other in formulas if other is not formula):
+                    break
 
-        return built_packages
+        return buildable
 
     def add(self, package, compute_checksum=True):
         """Add a package to the repository.
-- 
2.43.0


From 16030afd0f3a101ecf613c3314457e90307bdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 58/76] fix: keep the mode of unreadable hard-linked files
 which are relocated

---
 ipkg/prefix_rewriters.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 4dfa807..822150e 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -10,26 +10,23 @@ from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
 LOGGER = logging.getLogger(__name__)
 
 
-def rewrite_prefix(package_file, build_prefix, install_prefix):
+def open_file(file_path):
+    """Open a file, which its owner may not be allowed to read.
+    """
+    mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    if mode & stat.S_IRUSR:
+        return open(file_path)
 
-    file_path = os.path.join(install_prefix, package_file)
+    os.chmod(file_path, mode | stat.S_IRUSR)
+    try:
+        return open(file_path)
+    finally:
+        os.chmod(file_path, mode)
 
-    mode = stat.S_IMODE(os.stat(file_path).st_mode)
-    if not mode & stat.S_IRUSR:
-        # The owner is not allowed to read it
-        os.chmod(file_path, mode | stat.S_IRUSR)
-        try:
-            rewrite_file_prefix(package_file, file_path,
-                                build_prefix, install_prefix)
-        finally:
-            os.chmod(file_path, mode)
-    else:
-        rewrite_file_prefix(package_file, file_path,
-                            build_prefix, install_prefix)
 
+def rewrite_prefix(package_file, build_prefix, install_prefix):
 
-def rewrite_file_prefix(package_file, file_path, build_prefix,
-                        install_prefix):
+    file_path = os.path.join(install_prefix, package_file)
 
     if PKGCONFIG_FILE.match(package_file):
         rewrite_pkgconfig(file_path, build_prefix, install_prefix)
@@ -38,7 +35,7 @@ def rewrite_file_prefix(package_file, file_path, build_prefix,
         rewrite_libtool(file_path, build_prefix, install_prefix)
 
     else:
-        with open(file_path) as f:
+        with open_file(file_path) as f:
             first_bytes = f.read(4)
 
         if first_bytes[:2] == '#!':
@@ -72,7 +69,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     """Rewrite the prefix. Only apply to the first line starting with
        ``line_start``.
     """
-    with open(file_path, 'r') as f:
+    with open_file(file_path) as f:
         lines = f.readlines()
 
     for index, line in enumerate(lines):
@@ -103,7 +100,7 @@ def rewrite_text_first_line(file_path, build_prefix, install_prefix):
     #LOGGER.debug('rewrite_text_first_line(%r, %r)', file_path,
     #             build_prefix)
 
-    with open(file_path) as f:
+    with open_file(file_path) as f:
         first_line = f.readline()
         other_lines = f.readlines()
 
-- 
2.43.0


From c50166c561970f13f8aae43d7dec036810df526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 59/76] fix: refuse packages and archives with links to missing
 files with an ipkg error

---
 ipkg/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 1ae4d06..0682177 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -262,6 +262,8 @@ def extract_tar(archive, target, members):
 
             if member.islnk():
                 link_target = contained_path(base, member.linkname)
+                if not os.path.lexists(link_target):
+                    raise IpkgException('Link to a missing file: %s' % path)
                 if os.path.islink(link_target):
                     member.type = tarfile.SYMTYPE
                     member.linkname = os.readlink(link_target)
-- 
2.43.0


From f4397d0492ba7867ea9a24f500a8cef92c61f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 60/76] fix: variables of packages may have any text as value,
 whatever the prefix

---
 ipkg/environments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d0b49fd..64314a6 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -259,10 +259,11 @@ class EnvironmentVariables(dict):
 
         for var_name, var_value in variables.items():
             if isinstance(var_value, basestring):
-                var_value = DIRECTORY_PLACEHOLDER.sub(replace, var_value)
+                var_value = DIRECTORY_PLACEHOLDER.sub(
+                    replace, native(var_value))
 
             LOGGER.debug('Adding variable %s=%s', var_name, var_value)
-            self[var_name] = Variable(var_name, var_value)
+            self[native(var_name)] = Variable(native(var_name), var_value)
 
 
 class Environment(object):
-- 
2.43.0


From c99bdf7c1713881f990415203e3fc8abebe86a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 61/76] fix: tell why a command whose name is not ASCII cannot
 be started

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 0682177..94e843b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -147,7 +147,7 @@ def execute(command,
         elif exception.errno == errno.ENOENT:
             error = 'Command not found'
         else:
-            error = exception.strerror or str(exception)
+            error = native(exception.strerror or u'%s' % exception)
         raise ExecutionFailed(command_, error)
 
     stdout_str, stderr_str = process.communicate(data)
-- 
2.43.0


From 2ce736d6ebbe92380f4c1425e9cd57b4c8fdd019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:51 +0000
Subject: [PATCH 62/76] fix: unpack zip archives with a root and a target which
 are not ASCII

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 94e843b..eea3554 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -305,7 +305,7 @@ def unarchive(fileobj, target):
 
     elif filename.endswith('.zip'):
         archive = zipfile.ZipFile(fileobj)
-        paths = [i.filename for i in archive.filelist]
+        paths = [native(i.filename) for i in archive.filelist]
 
     else:
         raise IpkgException('Unrecognized file type %s' % filename)
-- 
2.43.0


From abcbd3f8e79c7471de81dc439397c67ee1dc4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 63/76] fix: read downloaded files like local ones, even past
 their end

---
 ipkg/files/backends/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index af04dd1..1d2abd7 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,4 +1,5 @@
 import logging
+from io import BytesIO
 
 try:
     from httplib import HTTPException
@@ -10,7 +11,6 @@ from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
-from ...compat import StringIO
 
 
 LOGGER = logging.getLogger(__name__)
@@ -41,7 +41,7 @@ class HttpFile(BaseFile):
                 self.name, response.status_code))
 
         else:
-            content = StringIO()
+            content = BytesIO()
 
             while True:
                 try:
-- 
2.43.0


From 92e9808b0df28dfed6e3d388b456d534cb4b796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 64/76] fix: list repositories whose path is not ASCII

The names of the metadata are Unicode strings, which cannot be joined to a
path having other bytes than ASCII.
---
 ipkg/repositories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 7956b84..728950c 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -73,8 +73,8 @@ class PackageRepository(BaseRepository):
         self.meta = DictFile(os.path.join(base, self.META_FILE_NAME))
 
     def __make_package_file(self, meta):
-        filepath = os.path.join(self.base, meta['name'],
-                                make_filename(**meta))
+        filepath = os.path.join(self.base, native(meta['name']),
+                                native(make_filename(**meta)))
         return PackageFile(filepath, meta)
 
     def __iter__(self):
-- 
2.43.0


From 5331787dcc3943e417f2f057ddeda0a7a6d5404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 65/76] fix: build what packaged formulas depend on before what
 needs them

A formula depending on a package whose own dependency was still to be built
was taken for buildable, failed to build and was left out.
---
 ipkg/repositories.py | 51 ++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 728950c..c2609a4 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -184,28 +184,43 @@ class LocalPackageRepository(PackageRepository):
         """Find a formula whose dependencies are available, preferably one
            which does not depend on what the other formulas build.
         """
-        packages = list(self)
-        if environment is not None:
-            packages.extend(environment.packages)
-
-        buildable = None
-
-        for formula in formulas:
+        installed = environment.packages if environment is not None else []
+        # Files of the packages whose dependencies are available too
+        installable = set(package.path for package in self)
+
+        def is_available(requirement):
+            if any(map(requirement.satisfied_by, installed)):
+                return True
+            # The first one is installed
+            packages = self.find(requirement)
+            return bool(packages) and packages[0].path in installable
+
+        def has_dependencies(item):
             try:
-                requirements = map(Requirement, formula.dependencies)
+                return all(is_available(Requirement(dependency))
+                           for dependency in item.dependencies or ())
             except IpkgException as err:
                 LOGGER.error('Invalid dependency of %s: %s',
-                             make_package_spec(formula), err)
-                continue
+                             make_package_spec(item), err)
+                return False
+
+        while True:
+            missing = [package.path for package in self
+                       if package.path in installable
+                       and not has_dependencies(package)]
+            if not missing:
+                break
+            installable.difference_update(missing)
+
+        buildable = None
 
-            if all(any(requirement.satisfied_by(package)
-                       for package in packages)
-                   for requirement in requirements):
-                buildable = formula
-                if not any(requirement.satisfied_by(other)
-                           for requirement in requirements
-                           for other in formulas if other is not formula):
-                    break
+        for formula in filter(has_dependencies, formulas):
+            buildable = formula
+            requirements = map(Requirement, formula.dependencies or ())
+            if not any(requirement.satisfied_by(other)
+                       for requirement in requirements
+                       for other in formulas if other is not formula):
+                break
 
         return buildable
 
-- 
2.43.0


From b9c465abebd8bca8418f018d87cd1b8be0780149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 66/76] fix: pass -- and options to the commands run by ipkg
 exec

Python's argparse drops one -- of the arguments taken by '*' and takes their
options for its own.
---
 ipkg/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index e1c71a7..cebe877 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -216,7 +216,8 @@ def printenv(environment, export):
              metavar='ENV', type=Environment,
              help='Path of the environment.'),
     Argument('command', metavar='COMMAND', help='Path of the executable.'),
-    Argument('arguments', metavar='ARG', nargs='*', help='Command arguments.'),
+    Argument('arguments', metavar='ARG', nargs=argparse.REMAINDER,
+             help='Command arguments.'),
 )
 def execute(environment, command, arguments):
     """Run a command in an environment.
-- 
2.43.0


From 2ebed4a973ba5b065253d581d425cd319ec4c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 67/76] fix: print configuration values whatever the output

Printing a value which is not ASCII failed when not on a terminal.
---
 ipkg/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index cebe877..ee910c4 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -10,6 +10,7 @@ from .environments import current, Environment
 from .exceptions import IpkgException
 from .build import Formula
 from .files import vopen
+from .compat import basestring, native
 
 
 LOGGER = logging.getLogger(__name__)
@@ -327,7 +328,8 @@ def build_repository(environment, verbose,
 def config_get(environment, key):
     """Set an environment configuration option.
     """
-    print environment.get_config(key)
+    value = environment.get_config(key)
+    print native(value) if isinstance(value, basestring) else value
 
 
 @ipkg.command(
-- 
2.43.0


From 2f353c1b3e1251eda0d520c45eea83f6993f8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 68/76] fix: temporary directories of environments do not need
 a prefix

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 64314a6..c1e1c48 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -309,7 +309,8 @@ class Environment(object):
 
            It will be stored in the environment ``tmp`` sub-directory.
         """
-        return tempfile.mkdtemp(prefix=prefix, dir=self.directories['tmp'])
+        return tempfile.mkdtemp(prefix=prefix or '',
+                                dir=self.directories['tmp'])
 
     def cleanup_tmpdir(self):
         """Remove then re-create the temporary files directory.
-- 
2.43.0


From efa9fd2dd288bf0a4fd30d29d004c6bf2cbc739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 69/76] fix: an upgrade may replace a link by a directory

Files were checked against the links of the version being replaced,
which are removed before they are extracted.
---
 ipkg/environments.py |  3 ++-
 ipkg/packages.py     | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index c1e1c48..67d2b21 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -386,7 +386,8 @@ class Environment(object):
         # Find everything before changing anything
         packages = self.__find_dependencies(package, repository)
         for package in packages:
-            package.verify(self.prefix)
+            replaced = self.meta['packages'].get(package.name, {})
+            package.verify(self.prefix, replaced.get('files', ()))
 
         # Install dependencies first
         for package in packages:
diff --git a/ipkg/packages.py b/ipkg/packages.py
index dbfcba4..6c2315a 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -81,10 +81,11 @@ class PackageFile(MetaPackage):
             self.__tarfile = tarfile.open(fileobj=vopen(self.path))
         return self.__tarfile
 
-    def verify(self, path):
+    def verify(self, path, replaced=()):
         """Check that all the files of the package can be extracted to
-           ``path``.
+           ``path``, once the files ``replaced`` have been removed from it.
         """
+        replaced = set(os.path.normpath(native(f)) for f in replaced)
         try:
             members = set(os.path.normpath(m.path)
                           for m in self._tarfile.getmembers())
@@ -92,8 +93,12 @@ class PackageFile(MetaPackage):
             raise UnreadablePackage(self.path, exc)
 
         for package_file in self.meta['files']:
-            contained_path(path, package_file)
             name = os.path.normpath(native(package_file))
+            parts = name.split('/')
+            parents = ['/'.join(parts[:i]) for i in range(1, len(parts))]
+            # A link which is removed first leads nowhere
+            contained_path(path, ([p for p in parents if p in replaced] +
+                                  [native(package_file)])[0])
             if name not in members:
                 raise UnreadablePackage(self.path, 'missing %s' % name)
 
-- 
2.43.0


From cc1621b83a558b4d0c39c0e39509beb404512357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 70/76] fix: a dependency is never taken for a file of that
 name

---
 ipkg/build.py        | 2 +-
 ipkg/environments.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 6f75a72..23fef48 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -186,7 +186,7 @@ class Formula(NameVersionRevisionComparable):
                     requirement = Requirement(dependency)
                     if not any(requirement.satisfied_by(package)
                                for package in self.environment.packages):
-                        self.environment.install(dependency, repository)
+                        self.environment.install(requirement, repository)
 
             return self.__build_package(build_dir, package_dir)
 
diff --git a/ipkg/environments.py b/ipkg/environments.py
index 67d2b21..16fc936 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -396,9 +396,10 @@ class Environment(object):
     def __find_package(self, package, repository):
         """Find a package given as a package file or as a requirement.
         """
-        if isinstance(package, basestring):
+        if isinstance(package, (basestring, Requirement)):
 
-            if os.path.isfile(package):
+            # A dependency is not a file, even if one has its name
+            if isinstance(package, basestring) and os.path.isfile(package):
                 package = PackageFile(package)
 
             else:
@@ -434,7 +435,7 @@ class Environment(object):
                         requirement.satisfied_by(installed[name]):
                     continue
                 LOGGER.info('Found dependency: %s', dependency)
-                add(self.__find_package(dependency, repository), parents)
+                add(self.__find_package(requirement, repository), parents)
             packages.append(package)
 
         add(package, [])
-- 
2.43.0


From 8101d245308ce38d803bef5b41973b9b5ba0cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 71/76] fix: a build leaves the variables of its environment as
 they were

---
 ipkg/build.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 23fef48..54a2f3b 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -172,8 +172,10 @@ class Formula(NameVersionRevisionComparable):
     def __build(self, build_dir, package_dir, repository):
         """Build the formula, and leave the environment as it was.
         """
+        variables = self.environment.variables
+        variables_before = dict(variables)
         if self.build_envvars:
-            self.environment.variables.add(self.build_envvars)
+            variables.add(self.build_envvars)
 
         installed_before = [p.name for p in self.environment.packages]
 
@@ -191,6 +193,10 @@ class Formula(NameVersionRevisionComparable):
             return self.__build_package(build_dir, package_dir)
 
         finally:
+            # The variables are those of this build and of its dependencies
+            variables.clear()
+            variables.update(variables_before)
+
             LOGGER.debug('Uninstalling dependencies from build environment')
             for package in self.environment.packages:
                 if package.name not in installed_before:
-- 
2.43.0


From 3796cc776747d9e1ef9f3711b3a9946cc13870a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 72/76] fix: an OS X library may have a space in its name

---
 ipkg/prefix_rewriters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 822150e..4349881 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -113,7 +113,8 @@ def get_osx_bin_libs(file_path):
     otool_out = execute(otool_cmd, stdout=PIPE)[0]
     lines = otool_out.splitlines()[1:]
 
-    return [l[1:].split()[0] for l in lines]
+    # The name of a library may have spaces and parentheses
+    return [l[1:].rsplit(' (compatibility version ', 1)[0] for l in lines]
 
 
 def rewrite_osx_bin(file_path, build_prefix, install_prefix):
-- 
2.43.0


From 18e10c8ecd80db9fe7b3790e9d709f6258267879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 73/76] fix: only the build prefix of an OS X library is
 replaced

---
 ipkg/prefix_rewriters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 4349881..880180c 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -134,9 +134,9 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
     name_tool_cmd = ['install_name_tool', '-id', file_path]
 
     for lib in get_osx_bin_libs(file_path):
-        if lib.startswith(build_prefix):
-            name_tool_cmd.extend(['-change', lib,
-                                  lib.replace(build_prefix, install_prefix)])
+        if lib.startswith(build_prefix + os.sep):
+            new_lib = install_prefix + lib[len(build_prefix):]
+            name_tool_cmd.extend(['-change', lib, new_lib])
 
     name_tool_cmd.append(file_path)
 
-- 
2.43.0


From 93c8e5d832ce8f794a7692634f7c84328c8e38ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 74/76] fix: OS X binaries keep their permissions, whatever
 these are

---
 ipkg/prefix_rewriters.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 880180c..1a63be5 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -121,15 +121,12 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
     #LOGGER.debug('rewrite_osx_bin(%r, %r)', file_path,
     #             build_prefix)
 
-    # install_name_tool fails when the file is not writable.
-    # So we add the write flag before running it and
-    # remove it later to restore the initial permissions.
+    # otool and install_name_tool fail when the file is not readable or not
+    # writable. So we add these flags before running them and restore the
+    # initial permissions, of which writing may also remove some, later.
 
-    file_stat = os.stat(file_path)
-    file_writable = file_stat.st_mode & stat.S_IWRITE
-
-    if not file_writable:
-        os.chmod(file_path, file_stat.st_mode | stat.S_IWRITE)
+    file_mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    os.chmod(file_path, file_mode | stat.S_IRUSR | stat.S_IWUSR)
 
     name_tool_cmd = ['install_name_tool', '-id', file_path]
 
@@ -142,5 +139,4 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
 
     execute(name_tool_cmd)
 
-    if not file_writable:
-        os.chmod(file_path, file_stat.st_mode)
+    os.chmod(file_path, file_mode)
-- 
2.43.0


From 506b4dfe6c5add2a9fc0e166a34971f269a0bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 75/76] fix: damaged source archives are refused with an ipkg
 error

Truncated and damaged archives raised what the archive modules raise for
them, from tarfile.ReadError to TypeError.
---
 ipkg/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index eea3554..e90c555 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -285,6 +285,16 @@ def unarchive(fileobj, target):
 
     Supports: tar.bz2, tar.gz, tar.xz, zip
     """
+    try:
+        return _unarchive(fileobj, target)
+    except IpkgException:
+        raise
+    except Exception as exc:
+        # Nearly anything, depending on how the archive is damaged
+        raise IpkgException('Cannot extract %s: %s' % (fileobj.name, exc))
+
+
+def _unarchive(fileobj, target):
     LOGGER.debug('unarchive(%r, %r)', fileobj, target)
 
     filename = fileobj.name
-- 
2.43.0


From 7b84a36bb8cbe01b71c24198741da8a1d77a3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 76/76] fix: damaged files of a repository are never taken for
 more than that

Updating the metadata of a repository which has a truncated or damaged
gzip file failed, with what zlib or struct raises for it.
---
 ipkg/packages.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index 6c2315a..aab8323 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -67,8 +67,10 @@ class PackageFile(MetaPackage):
         if not self.__meta:
             try:
                 meta = json.load(self._tarfile.extractfile(META_FILE))
-            except (tarfile.TarError, EnvironmentError, EOFError, KeyError,
-                    AttributeError, ValueError) as exc:
+            except IpkgException:
+                raise
+            except Exception as exc:
+                # Nearly anything, depending on how the file is damaged
                 raise UnreadablePackage(self.path, exc)
             if not isinstance(meta, dict):
                 raise UnreadablePackage(self.path, 'invalid meta data')
@@ -89,7 +91,9 @@ class PackageFile(MetaPackage):
         try:
             members = set(os.path.normpath(m.path)
                           for m in self._tarfile.getmembers())
-        except (tarfile.TarError, EnvironmentError, EOFError) as exc:
+        except IpkgException:
+            raise
+        except Exception as exc:
             raise UnreadablePackage(self.path, exc)
 
         for package_file in self.meta['files']:
-- 
2.43.0

