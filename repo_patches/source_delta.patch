From c7a40242316958ab5a7fa321288aef1b1af5186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 01/35] fix: write current selections atomically

A failure or kill while a .current file is rewritten left it empty or cut off.
---
 dedop/ui/workspace_manager.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..635eeac 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -7,6 +7,7 @@ import pkgutil
 import shutil
 import subprocess
 import sys
+import uuid
 
 from typing import List
 
@@ -22,6 +23,7 @@ _NOTEBOOKS_DIR_NAME = 'notebooks'
 _INPUTS_DIR_NAME = 'inputs'
 _OUTPUTS_DIR_NAME = 'outputs'
 _CURRENT_FILE_NAME = '.current'
+_TEMP_PREFIX = '.tmp-'
 
 DEFAULT_WORKSPACES_DIR = os.path.expanduser(os.path.join('~', '.dedop', _WORKSPACES_DIR_NAME))
 DEFAULT_TEMP_DIR = os.path.expanduser(os.path.join('~', '.dedop', 'temp'))
@@ -37,10 +39,32 @@ def _readline(file_path: str) -> str or None:
     return None
 
 
-def _writeline(file_path: str, text: str):
+def _temp_path(dir_path: str) -> str:
+    return os.path.join(dir_path, _TEMP_PREFIX + uuid.uuid4().hex)
+
+
+def _replace_text(file_path: str, text: str):
+    """
+    Write *text* to *file_path*. At any time, the file has either its old or its new contents, never a part of it.
+    """
+    temp_path = _temp_path(os.path.dirname(file_path))
     try:
-        with open(file_path, 'w') as fp:
+        with open(temp_path, 'w') as fp:
             fp.write(text)
+        if os.path.exists(file_path):
+            shutil.copymode(file_path, temp_path)
+        os.replace(temp_path, file_path)
+    except (IOError, OSError):
+        try:
+            os.remove(temp_path)
+        except (IOError, OSError):
+            pass
+        raise
+
+
+def _writeline(file_path: str, text: str):
+    try:
+        _replace_text(file_path, text)
     except (IOError, OSError) as e:
         raise WorkspaceError(str(e))
 
-- 
2.43.0


From 863cec3b8c6c7d4d0e684840a82a2ec8479e2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 02/35] fix: write configuration files atomically

The file was overwritten in place: a failure, a kill or a concurrent reader met a mix of old and new text.
---
 dedop/ui/workspace_manager.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 635eeac..584848b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -290,10 +290,9 @@ class WorkspaceManager:
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
-        with open(file_path, 'r+') as f:
-            f.seek(0)
-            f.write(configuration)
-            f.truncate()
+        if not os.path.isfile(file_path):
+            raise WorkspaceError('configuration file "%s" does not exist' % file_path)
+        _replace_text(os.path.realpath(file_path), configuration)
 
     def get_config_names(self, workspace_name: str) -> List[str]:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From a9c9988e113f405a1c5779c43add03e74911b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 03/35] fix: create configurations completely or not at all

A failure or kill between the three files left a listed configuration with missing or cut off files.
---
 dedop/ui/workspace_manager.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 584848b..8d4fb80 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -223,12 +223,22 @@ class WorkspaceManager:
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
         config_dir = self.get_config_path(workspace_name, config_name)
-        dir_path = self._ensure_dir_exists(config_dir)
+        dir_path = _temp_path(self._ensure_dir_exists(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME)))
         package = _CRYOSAT_CONFIG_PACKAGE_NAME if cryosat else _DEFAULT_CONFIG_PACKAGE_NAME
-        # TODO (forman, 20160727): copy text files so that '\n' is replaced by OS-specific line separator
-        self._copy_resource(package, 'CHD.json', dir_path)
-        self._copy_resource(package, 'CNF.json', dir_path)
-        self._copy_resource(package, 'CST.json', dir_path)
+        try:
+            self._ensure_dir_exists(dir_path)
+            # TODO (forman, 20160727): copy text files so that '\n' is replaced by OS-specific line separator
+            self._copy_resource(package, 'CHD.json', dir_path)
+            self._copy_resource(package, 'CNF.json', dir_path)
+            self._copy_resource(package, 'CST.json', dir_path)
+            if os.path.isdir(config_dir):
+                # an empty one
+                os.rmdir(config_dir)
+            os.rename(dir_path, config_dir)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
+        finally:
+            shutil.rmtree(dir_path, ignore_errors=True)
 
     def delete_config(self, workspace_name: str, config_name: str):
         """
@@ -298,7 +308,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         configs_dir = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME)
         if os.path.exists(configs_dir):
-            return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))])
+            return sorted([name for name in os.listdir(configs_dir)
+                           if not name.startswith(_TEMP_PREFIX) and os.path.isdir(os.path.join(configs_dir, name))])
         return None
 
     def get_current_config_name(self, workspace_name: str) -> str:
-- 
2.43.0


From a6d13dc4e4c554f0ebf86caa470c81ce16e2b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 04/35] fix: copy workspaces and configurations completely or
 not at all

A failure or kill during the copy left a listed, incomplete copy.
---
 dedop/ui/workspace_manager.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 8d4fb80..6964359 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -165,14 +165,8 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         self._assert_workspace_exists(workspace_name)
-        dir_path = self.get_workspace_path('')
-        if os.path.exists(dir_path):
-            try:
-                shutil.copytree(os.path.join(dir_path, workspace_name),
-                                os.path.join(dir_path, new_workspace_name))
-            except (IOError, OSError) as e:
-                raise WorkspaceError(str(e))
         workspace_dir = self.get_workspace_path(new_workspace_name)
+        self._copy_dir(self.get_workspace_path(workspace_name), workspace_dir)
         return Workspace(workspace_dir, new_workspace_name)
 
     def rename_workspace(self, workspace_name: str, new_workspace_name: str):
@@ -198,7 +192,7 @@ class WorkspaceManager:
         workspaces_dir = self._workspaces_dir
         if os.path.exists(workspaces_dir):
             return sorted([name for name in os.listdir(workspaces_dir)
-                           if os.path.isdir(os.path.join(workspaces_dir, name))])
+                           if not name.startswith(_TEMP_PREFIX) and os.path.isdir(os.path.join(workspaces_dir, name))])
         return []
 
     def get_workspaces(self) -> List[str]:
@@ -266,11 +260,7 @@ class WorkspaceManager:
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
-        if os.path.exists(dir_path):
-            try:
-                shutil.copytree(dir_path, dir_path_new)
-            except (IOError, OSError) as e:
-                raise WorkspaceError(str(e))
+        self._copy_dir(dir_path, dir_path_new)
 
     def rename_config(self, workspace_name: str, config_name: str, new_config_name: str):
         """
@@ -690,6 +680,22 @@ class WorkspaceManager:
         except (IOError, OSError) as e:
             raise WorkspaceError(str(e))
 
+    @classmethod
+    def _copy_dir(cls, dir_path, new_dir_path):
+        """
+        Copy directory *dir_path*. *new_dir_path* comes into existence only when the copy is complete.
+        """
+        if os.path.exists(new_dir_path):
+            raise WorkspaceError('"%s" already exists' % new_dir_path)
+        temp_path = _temp_path(os.path.dirname(new_dir_path))
+        try:
+            shutil.copytree(dir_path, temp_path, ignore=shutil.ignore_patterns(_TEMP_PREFIX + '*'))
+            os.rename(temp_path, new_dir_path)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
+        finally:
+            shutil.rmtree(temp_path, ignore_errors=True)
+
     @classmethod
     def _ensure_dir_exists(cls, dir_path):
         if not os.path.exists(dir_path):
-- 
2.43.0


From bff3eb6b1c9be5cdbf86cc8074243b9d4f641a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 05/35] fix: add input files completely or not at all

A failure or kill during the copy left a cut off input file, also in place of a good one of the same name.
---
 dedop/ui/workspace_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 6964359..2a767e6 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -401,9 +401,15 @@ class WorkspaceManager:
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
+                temp_path = _temp_path(inputs_dir)
                 try:
-                    shutil.copy(input_path, os.path.join(inputs_dir, os.path.basename(input_path)))
+                    shutil.copy(input_path, temp_path)
+                    os.replace(temp_path, os.path.join(inputs_dir, os.path.basename(input_path)))
                 except (IOError, OSError) as e:
+                    try:
+                        os.remove(temp_path)
+                    except (IOError, OSError):
+                        pass
                     raise WorkspaceError(str(e))
                 monitor.progress(1)
 
-- 
2.43.0


From 6328f59779c3dffbac967baa46951f3a2f217bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 06/35] fix: refuse to rename a workspace to an existing one

The workspace was moved into the existing one.
---
 dedop/ui/workspace_manager.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 2a767e6..d6cec68 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -178,14 +178,13 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
-        dir_path = self.get_workspace_path('')
-        if os.path.exists(dir_path):
-            try:
-                shutil.move(os.path.join(dir_path, workspace_name),
-                            os.path.join(dir_path, new_workspace_name))
-            except (IOError, OSError) as e:
-                raise WorkspaceError(str(e))
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         workspace_dir = self.get_workspace_path(new_workspace_name)
+        try:
+            os.rename(self.get_workspace_path(workspace_name), workspace_dir)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
         return Workspace(workspace_dir, new_workspace_name)
 
     def get_workspace_names(self) -> List[str]:
-- 
2.43.0


From aecf913daaba31b1a27a207bf38dc3be1b73fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 07/35] fix: refuse workspace, configuration and input names
 that lead elsewhere

With an empty name or one like '..' or 'a/../b', delete, rename, copy and others removed or changed all workspaces, all
configurations or files outside of the workspaces directory.
---
 dedop/ui/workspace_manager.py | 48 ++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index d6cec68..c2fc3a9 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -69,6 +69,19 @@ def _writeline(file_path: str, text: str):
         raise WorkspaceError(str(e))
 
 
+def _check_name(name: str, what: str):
+    """
+    Check that *name* denotes a direct child of the directory it is going to be used in.
+
+    :raise: WorkspaceError: if not
+    """
+    if not name:
+        raise WorkspaceError('no %s name is specified' % what)
+    if name in (os.curdir, os.pardir, _CURRENT_FILE_NAME) or name.startswith(_TEMP_PREFIX) \
+            or os.path.basename(name) != name or '\0' in name:
+        raise WorkspaceError('invalid %s name "%s"' % (what, name))
+
+
 class WorkspaceManager:
     """
     Manages DeDop workspaces.
@@ -124,6 +137,8 @@ class WorkspaceManager:
         return Workspace(None, current_workspace)
 
     def set_current_workspace_name(self, workspace_name: str):
+        if workspace_name:
+            _check_name(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         _writeline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME), workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
@@ -137,8 +152,7 @@ class WorkspaceManager:
         :param workspace_name: new workspace name
         :raise: WorkspaceError: when workspace already exists
         """
-        if not workspace_name:
-            raise WorkspaceError('no workspace name is specified')
+        _check_name(workspace_name, 'workspace')
         workspace_dir = self.get_workspace_path(workspace_name)
         if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):
             raise WorkspaceError('workspace "%s" already exists' % workspace_name)
@@ -150,6 +164,7 @@ class WorkspaceManager:
         :param workspace_name: workspace name to be deleted
         :raise: WorkspaceError: thrown when workspace not found or cannot delete the workspace
         """
+        _check_name(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path(workspace_name)
         if os.path.exists(dir_path):
@@ -164,6 +179,8 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(new_workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         workspace_dir = self.get_workspace_path(new_workspace_name)
         self._copy_dir(self.get_workspace_path(workspace_name), workspace_dir)
@@ -175,9 +192,9 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(new_workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
-        if not new_workspace_name:
-            raise WorkspaceError("missing the new workspace name")
         if self.workspace_exists(new_workspace_name):
             raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         workspace_dir = self.get_workspace_path(new_workspace_name)
@@ -212,6 +229,8 @@ class WorkspaceManager:
         :param workspace_name: the workspace name where the config is to be created
         :param config_name: the name of the configuration to be added
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
@@ -239,6 +258,8 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be removed
         :return:
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -255,6 +276,9 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
+        _check_name(new_config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -268,6 +292,9 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
+        _check_name(new_config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -288,6 +315,9 @@ class WorkspaceManager:
         return config_json, sorted(config_order, key=str.lower)
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
+        _check_name(config_file_key, 'configuration file')
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
         if not os.path.isfile(file_path):
             raise WorkspaceError('configuration file "%s" does not exist' % file_path)
@@ -306,6 +336,9 @@ class WorkspaceManager:
         return _readline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME))
 
     def set_current_config_name(self, workspace_name: str, config_name: str):
+        _check_name(workspace_name, 'workspace')
+        if config_name:
+            _check_name(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)
@@ -397,6 +430,7 @@ class WorkspaceManager:
         :param input_paths: path to the input files to be added
         :param monitor: to monitor the progress
         """
+        _check_name(workspace_name, 'workspace')
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
@@ -418,6 +452,9 @@ class WorkspaceManager:
         :param input_names: name of input files to be removed
         :param monitor: to monitor the progress
         """
+        _check_name(workspace_name, 'workspace')
+        for input_name in input_names:
+            _check_name(input_name, 'input')
         input_paths = [self.get_inputs_path(workspace_name, input_name) for input_name in input_names]
         with monitor.starting('removing inputs', len(input_paths)):
             for input_path in input_paths:
@@ -460,6 +497,8 @@ class WorkspaceManager:
         :param workspace_name: the workspace name in which the output files are located
         :param config_name: the config name with which the output files were created
         """
+        _check_name(workspace_name, 'workspace')
+        _check_name(config_name, 'configuration')
         output_dir = self.get_outputs_path(workspace_name, config_name)
         if not os.path.exists(output_dir):
             raise WorkspaceError('output directory does not exist')
@@ -522,6 +561,7 @@ class WorkspaceManager:
                                        notebook_basename: str,
                                        notebook_json: str,
                                        title: str):
+        _check_name(workspace_name, 'workspace')
         notebook_dir = self.get_workspace_path(workspace_name, 'notebooks')
         if not os.path.exists(notebook_dir):
             try:
-- 
2.43.0


From 2dadbd6a6f76cf660fac0b85448f34912214130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 08/35] fix: report the directory of the current workspace

It was always reported to be in ~/.dedop, whatever directory the manager works in.
---
 dedop/ui/workspace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index c2fc3a9..66b1a2b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -134,7 +134,8 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        workspace_dir = self.get_workspace_path(current_workspace) if current_workspace else None
+        return Workspace(workspace_dir, current_workspace)
 
     def set_current_workspace_name(self, workspace_name: str):
         if workspace_name:
-- 
2.43.0


From bf35e09a00081673b06f793f52de14b374c4343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 09/35] fix: list only workspaces as workspaces

get_workspaces() also listed any plain file in the workspaces directory.
---
 dedop/ui/workspace_manager.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 66b1a2b..4ee5560 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -213,12 +213,7 @@ class WorkspaceManager:
         return []
 
     def get_workspaces(self) -> List[str]:
-        workspaces_dir = self._workspaces_dir
-        if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+        return [Workspace(self.get_workspace_path(name), name).to_json_dict() for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From fd1cb03554ef604c11e9f8c256057ac2e71023c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 10/35] fix: never overwrite a notebook and report notebooks
 that cannot be written

Two requests at the same time could choose the same file; a failure to create the folder was returned, not raised, and
nobody looked at it; a failed write left a cut off notebook.
---
 dedop/ui/workspace_manager.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 4ee5560..23e5406 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -559,24 +559,29 @@ class WorkspaceManager:
                                        title: str):
         _check_name(workspace_name, 'workspace')
         notebook_dir = self.get_workspace_path(workspace_name, 'notebooks')
-        if not os.path.exists(notebook_dir):
-            try:
-                os.mkdir(notebook_dir)
-            except (IOError, OSError) as e:
-                return 60, str(e)
+        self._assert_workspace_exists(workspace_name)
+        self._ensure_dir_exists(notebook_dir)
 
         index = 0
         while True:
             index += 1
             notebook_filename = '%s-%d.ipynb' % (notebook_basename, index)
             notebook_path = os.path.join(notebook_dir, notebook_filename)
-            if not os.path.exists(notebook_path):
+            try:
+                fp = open(notebook_path, 'x')
                 break
+            except FileExistsError:
+                pass
+            except (IOError, OSError) as e:
+                raise WorkspaceError(str(e))
 
-        # noinspection PyUnboundLocalVariable
-        with open(notebook_path, 'w') as fp:
-            fp.write(notebook_json)
-            print('wrote notebook file "%s"' % notebook_path)
+        try:
+            with fp:
+                fp.write(notebook_json)
+        except (IOError, OSError) as e:
+            os.remove(notebook_path)
+            raise WorkspaceError(str(e))
+        print('wrote notebook file "%s"' % notebook_path)
 
         self.launch_notebook(title, notebook_dir, notebook_path=notebook_path)
 
-- 
2.43.0


From 3ddc52fbc177708fc3511f9b81a6d0e6e3cee4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 11/35] fix: write valid notebooks for product paths with
 quotes

A path with an apostrophe gave a notebook file that is not valid JSON.
---
 dedop/ui/workspace_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 23e5406..3257558 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -531,7 +531,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', json.dumps(repr(l1b_path))[1:-1])
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -542,8 +542,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', json.dumps(repr(l1b_path_1))[1:-1]) \
+            .replace('__L1B_FILE_PATH_2__', json.dumps(repr(l1b_path_2))[1:-1])
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
-- 
2.43.0


From 3d43144f8f1111305d3f9a0d00f55d46c409d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 12/35] fix: give the standard streams back even if they cannot
 be flushed or an interrupt arrives

---
 dedop/util/fetchstd.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/dedop/util/fetchstd.py b/dedop/util/fetchstd.py
index d61e939..bf3d06c 100644
--- a/dedop/util/fetchstd.py
+++ b/dedop/util/fetchstd.py
@@ -23,17 +23,11 @@ def fetch_std_streams():
     sys.stdout.flush()
     sys.stderr.flush()
 
-    old_stdout = sys.stdout
-    old_stderr = sys.stderr
-
-    sys.stdout = StringIO()
-    sys.stderr = StringIO()
+    old_stdout, old_stderr = sys.stdout, sys.stderr
+    stdout, stderr = StringIO(), StringIO()
 
     try:
-        yield sys.stdout, sys.stderr
+        sys.stdout, sys.stderr = stdout, stderr
+        yield stdout, stderr
     finally:
-        sys.stdout.flush()
-        sys.stderr.flush()
-
-        sys.stdout = old_stdout
-        sys.stderr = old_stderr
+        sys.stdout, sys.stderr = old_stdout, old_stderr
-- 
2.43.0


From 28beb9f6dc3c8ca953f60b4fdb45c239ad4a2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 13/35] fix: give the interrupt handler back if a console
 monitor cannot start

---
 dedop/util/monitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..387650e 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -241,7 +241,12 @@ class ConsoleMonitor(Monitor):
         self._old_ctrl_c_handler = signal.signal(signal.SIGINT, self._on_ctrl_c)
         # if self._stay_in_line:
         #    sys.stdout.write('\n')
-        self._report_progress(msg='started')
+        try:
+            self._report_progress(msg='started')
+        except BaseException:
+            # the task does not start, so done() will not be called
+            signal.signal(signal.SIGINT, self._old_ctrl_c_handler)
+            raise
 
     def progress(self, work: float = None, msg: str = None):
         percentage = None
-- 
2.43.0


From be44de15fa207fa6397390c004cee7318ba5d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 14/35] fix: accept progress of tasks with unknown or zero
 total work

---
 dedop/util/monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index 387650e..3b7f310 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,8 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        # without a known total the share of the parent's work is unknown
+        parent_work = self._partial_work * (work / self._total_work) if work is not None and self._total_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
@@ -304,7 +305,7 @@ class ConsoleMonitor(Monitor):
 
     def _calc_percentage(self):
         return round(100. * self._worked / self._total_work) \
-            if self._worked is not None and self._total_work is not None else None
+            if self._worked is not None and self._total_work else None
 
     def cancel(self):
         self._cancelled = True
-- 
2.43.0


From 9c6a81c6451baecb42cab1bbee6307e242d9deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 15/35] fix: show the user configuration to other threads only
 when it is complete

---
 dedop/util/config.py | 63 +++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/dedop/util/config.py b/dedop/util/config.py
index 7f472b4..5f76c60 100644
--- a/dedop/util/config.py
+++ b/dedop/util/config.py
@@ -1,9 +1,13 @@
 import os.path
+import tempfile
+import threading
 
 DEFAULT_CONFIG_FILE = os.path.join('~', '.dedop', 'config.py')
 _LOCAL_CONFIG_FILE = 'dedop-config.py'
 
 _CONFIG = None
+_LOADING = None
+_LOAD_LOCK = threading.RLock()
 
 
 def get_config_path(name: str, default=None):
@@ -38,34 +42,45 @@ def get_config():
 
     :return: A mutable dictionary containing any Python objects.
     """
-    global _CONFIG
+    global _CONFIG, _LOADING
     if _CONFIG is None:
-        _CONFIG = {}
-
-        default_config_file = os.path.expanduser(DEFAULT_CONFIG_FILE)
-        if not os.path.exists(default_config_file):
-            try:
-                write_default_config_file()
-            except (IOError, OSError) as error:
-                print('warning: failed to create %s: %s' % (default_config_file, str(error)))
-
-        if os.path.isfile(default_config_file):
-            try:
-                _CONFIG = read_python_config(default_config_file)
-            except Exception as error:
-                print('warning: failed to read %s: %s' % (default_config_file, str(error)))
-
-        local_config_file = os.path.expanduser(_LOCAL_CONFIG_FILE)
-        if os.path.isfile(local_config_file):
-            try:
-                local_config = read_python_config(local_config_file)
-                _CONFIG.update(local_config)
-            except Exception as e:
-                print('warning: failed to read %s: %s' % (local_config_file, str(e)))
-
+        with _LOAD_LOCK:
+            if _LOADING is not None:
+                # a configuration file that asks for the configuration
+                return _LOADING
+            if _CONFIG is None:
+                _LOADING = {}
+                try:
+                    _load_config(_LOADING)
+                    # other threads must not see it before it is complete
+                    _CONFIG = _LOADING
+                finally:
+                    _LOADING = None
     return _CONFIG
 
 
+def _load_config(config):
+    default_config_file = os.path.expanduser(DEFAULT_CONFIG_FILE)
+    if not os.path.exists(default_config_file):
+        try:
+            write_default_config_file()
+        except (IOError, OSError) as error:
+            print('warning: failed to create %s: %s' % (default_config_file, str(error)))
+
+    if os.path.isfile(default_config_file):
+        try:
+            config.update(read_python_config(default_config_file))
+        except Exception as error:
+            print('warning: failed to read %s: %s' % (default_config_file, str(error)))
+
+    local_config_file = os.path.expanduser(_LOCAL_CONFIG_FILE)
+    if os.path.isfile(local_config_file):
+        try:
+            config.update(read_python_config(local_config_file))
+        except Exception as e:
+            print('warning: failed to read %s: %s' % (local_config_file, str(e)))
+
+
 def read_python_config(file):
     """
     Reads a configuration *file* which may contain any Python code.
-- 
2.43.0


From c6c771027602729dd417217308e75fafff8b23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 16/35] fix: write the default configuration file completely or
 not at all

---
 dedop/util/config.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/dedop/util/config.py b/dedop/util/config.py
index 5f76c60..ba0e5f7 100644
--- a/dedop/util/config.py
+++ b/dedop/util/config.py
@@ -103,16 +103,26 @@ def read_python_config(file):
 def write_default_config_file() -> str:
     default_config_file = os.path.expanduser(DEFAULT_CONFIG_FILE)
     default_config_dir = os.path.dirname(default_config_file)
-    if default_config_dir and not os.path.exists(default_config_dir):
-        os.mkdir(default_config_dir)
-    with open(default_config_file, 'w') as fp:
-        import pkgutil
-        template_data = pkgutil.get_data('dedop.util', 'config-template.py')
-        text = template_data.decode("utf-8")
-        # TODO (forman, 20160727): copy text files so that '\n' is replaced by OS-specific line separator??
-        # from io import StringIO
-        # sio = StringIO(text)
-        # text = sio.readlines()
-        # sio.close()
-        fp.write(text)
+    if default_config_dir:
+        os.makedirs(default_config_dir, exist_ok=True)
+    import pkgutil
+    template_data = pkgutil.get_data('dedop.util', 'config-template.py')
+    text = template_data.decode("utf-8")
+    # TODO (forman, 20160727): copy text files so that '\n' is replaced by OS-specific line separator??
+    # from io import StringIO
+    # sio = StringIO(text)
+    # text = sio.readlines()
+    # sio.close()
+    # write a temporary file first: an interrupted write must not leave a truncated configuration behind
+    fd, temp_file = tempfile.mkstemp(prefix='config-', suffix='.tmp', dir=default_config_dir or None)
+    try:
+        with open(fd, 'w') as fp:
+            fp.write(text)
+        os.replace(temp_file, default_config_file)
+    except BaseException:
+        try:
+            os.remove(temp_file)
+        except OSError:
+            pass
+        raise
     return default_config_file
-- 
2.43.0


From a763c51da63275b66d89dd5b9f8884ce7c8bb1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:46 +0000
Subject: [PATCH 17/35] fix: replace the block of input records only once the
 new one is complete

A read error while a block was loaded left a mixture of two blocks in the
cache, from which later reads returned values of other records. Reading
beyond the end returned a record of the block read before.
---
 dedop/data/input/netcdf_reader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index c566725..4069da6 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -52,6 +52,8 @@ class NetCDFReader:
         if chunk_start != self.chunk_index:
             self._load_chunk(chunk_start)
 
+        if varname not in self.cache:
+            raise IndexError("no value of {} at index {}".format(varname.value, index))
         return self.cache[varname][chunk_index]
 
     def _load_chunk(self, chunk_start: int):
@@ -60,6 +62,10 @@ class NetCDFReader:
         """
         chunk_end = chunk_start + self.chunk_size
 
+        # replace the existing chunk only once the new one is complete, so that
+        # a failing read cannot leave a mixture of two chunks
+        cache = {}
+
         for varname in self.variables:
             name = varname.value
             var = self._doc.variables[name]
@@ -70,8 +76,9 @@ class NetCDFReader:
 
             end = min(varlen, chunk_end)
 
-            self.cache[varname] = var[chunk_start:end].copy()
+            cache[varname] = var[chunk_start:end].copy()
 
+        self.cache = cache
         self.chunk_index = chunk_start
 
     def close(self):
-- 
2.43.0


From a4134f28a067d47c820c866c96c64d4baaa6044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:03 +0000
Subject: [PATCH 18/35] fix: leave nothing of a failed record in the next one

The values written before a write failed stayed in the product and became
part of the next record wherever that had no or fewer values.
---
 dedop/data/output/netcdf_writer.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 62b07e9..f76d5c9 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -105,6 +105,8 @@ class NetCDFWriter(metaclass=ABCMeta):
         self.dimensions = {}
         self.variables = {}
         self.output_index = 0
+        # true if writing the record at output_index failed half-way
+        self._record_incomplete = False
 
         # TODO (forman, 20160715): add standard metadata attributes here
         # see http://cfconventions.org/cf-conventions/v1.6.0/cf-conventions.html#_attributes
@@ -348,6 +350,10 @@ class NetCDFWriter(metaclass=ABCMeta):
 
         :param record_values:
         """
+        if self._record_incomplete:
+            self._clear_record()
+        self._record_incomplete = True
+
         for varname, value in record_values.items():
             var = self.get_variable(varname)
             ndims = len(var.shape)
@@ -373,6 +379,25 @@ class NetCDFWriter(metaclass=ABCMeta):
                 )
 
         self.output_index += 1
+        self._record_incomplete = False
+
+    def _clear_record(self) -> None:
+        """
+        removes what a failed write has left at the current record index, so
+        that none of it becomes part of the next record
+        """
+        for var in self._root.variables.values():
+            if var.shape and self.output_index < var.shape[0] and\
+                    self._root.dimensions[var.dimensions[0]].isunlimited():
+                try:
+                    var[self.output_index, ...] = np.ma.masked
+                except Exception as err:
+                    raise WriteError(
+                        "error while clearing {} at index {}".format(
+                            var.name, self.output_index
+                        ),
+                        err
+                    )
 
     def write_globals(self, **global_attrs) -> None:
         """
-- 
2.43.0


From 6610a3d35a02e76ddaf587b9bf4885d2c7e75b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 19/35] fix: start every processing run with empty queues

The surfaces and bursts of a cancelled or failed run were still in the
queues of the processor when its next run started, and the flag that the
focusing target was found stayed set.
---
 dedop/proc/sar/processor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..c644a72 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -133,6 +133,11 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
+        # forget what an earlier run, possibly a cancelled or failed one, has left behind
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm = \
+            SurfaceLocationAlgorithm(self.chd, self.cst, self.cnf)
 
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
-- 
2.43.0


From 5eabc39dcc644426c14c6a1042f6d2a96235b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 20/35] fix: set the UTC time of the first surface

The first surface of a run or after a data gap got its UTC time from
unset values or from a surface before the gap.
---
 dedop/proc/sar/algorithms/surface_locations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..f13e1e8 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,12 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        # the surface is at the time of the burst itself
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 38ac0dba45b2afea33b51c6ce66b2fbf3fb2e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 21/35] fix: calibrate the first burst after a data gap only
 once

The burst was calibrated when the gap was found and again when processing
resumed with it.
---
 dedop/proc/sar/processor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index c644a72..e7a3435 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -206,13 +206,13 @@ class L1BProcessor(BaseProcessor):
                         monitor.progress(1)
 
                 if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
-
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
+                        # apply calibrations
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
+
                         prev_time = input_packet.time_sar_ku
                         new_surface = self.surface_locations(input_packet, force_new=gap_resume)
 
-- 
2.43.0


From 460dafc2238b587779206f4661d6c9c635d52268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 22/35] fix: use no bursts across a data gap

Bursts before a gap stayed in the queue and could be used for the surfaces
after it, and the beam angle trend was continued across the gap.
---
 dedop/proc/sar/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index e7a3435..2a82819 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -274,6 +274,10 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    # no burst before the gap contributes to a surface after it
+                    del self.source_isps[:]
+                    self.beam_angles_list_size_prev = -1
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0


From cef48eb00817bd334a81c130e8800397cc481e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 23/35] fix: keep the product if the piece after a data gap is
 short

Processing failed with "insufficient input records" at the end of the
input, and the records before the gap were lost.
---
 dedop/proc/sar/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 2a82819..a2c1b1e 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -174,6 +174,7 @@ class L1BProcessor(BaseProcessor):
             self.l1bs_file.open()
 
         prev_time = None
+        gap_found = False
         gap_processing = False
         gap_resume = False
         sub_monitor = None
@@ -201,7 +202,10 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            if not gap_found:
+                                raise Exception("insufficient input records")
+                            # the piece after the last gap is short, process what there is
+                            surface_processing = True
                     else:
                         monitor.progress(1)
 
@@ -222,6 +226,7 @@ class L1BProcessor(BaseProcessor):
                             continue
 
                     else:
+                        gap_found = True
                         gap_processing = True
                         prev_time = None
                         sub_monitor = monitor.child(1)
-- 
2.43.0


From 865d324e581b0fe69be79de46af288d9d117913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 24/35] fix: skip unusable input records

A record without position or outside of the region of interest was taken
for the end of the input: surfaces were processed before all their bursts
were read, or processing failed with an IndexError.
---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index a2c1b1e..7f75d46 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -208,6 +208,9 @@ class L1BProcessor(BaseProcessor):
                             surface_processing = True
                     else:
                         monitor.progress(1)
+                        if input_packet is None:
+                            # the record is not valid or outside of the region of interest
+                            continue
 
                 if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
-- 
2.43.0


From 0c08caecd2d08042892ab6e46e051f123e59820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 25/35] fix: read the last record of the region of interest

The last record in the region was left out, and a region without records
raised a ValueError.
---
 dedop/data/input/l1a/l1a_dataset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..5d980e7 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -115,8 +115,13 @@ class L1ADataset(InputDataset):
                 )
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
-            self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            if indexes.size:
+                self._start_index = indexes.min()
+                self._final_index = indexes.max() + 1
+            else:
+                # there are no records in the region
+                self._start_index = 0
+                self._final_index = 0
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 2ec307b94e00f44848d86a9ef3539043a0783160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 26/35] fix: do not report more work than there is

Every data gap added one unit to the work done, and passed a number as
progress message.
---
 dedop/proc/sar/processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 7f75d46..44174ba 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -232,11 +232,12 @@ class L1BProcessor(BaseProcessor):
                         gap_found = True
                         gap_processing = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
+                        # the records are counted when they are read, draining the queue is no extra work
+                        sub_monitor = monitor.child(0)
                         sub_monitor.start("processing gap", len(self.surf_locs))
 
             elif sub_monitor is not None:
-                sub_monitor.progress(1, len(self.surf_locs))
+                sub_monitor.progress(1)
 
             if surface_processing or len(self.surf_locs) >= self.min_surfs or gap_processing:
                 surface_processing = True
-- 
2.43.0


From 980db676b7f105bb733946a2474f1c25cf865b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 27/35] fix: fit the stack without changing the warning filters
 of all threads

The filters are shared by all threads, so of two processors running at the
same time one could switch off the other's conversion of the warning to an
error, and used the parameters of a failed fit.
---
 dedop/proc/sar/algorithms/multilooking.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..13b805f 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.optimize import curve_fit, OptimizeWarning
 from typing import List
-import warnings
 
 from dedop.model import SurfaceData
 from ..base_algorithm import BaseAlgorithm
@@ -26,15 +25,17 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
     x = x[valid]
     y = y[valid]
 
-    with warnings.catch_warnings():
-        warnings.simplefilter("error", OptimizeWarning)
+    try:
+        fit_params, fit_covariance = curve_fit(
+            gauss, x, y
+        )
+    except (RuntimeError, OptimizeWarning, TypeError):
+        return [1, 1, 1]
 
-        try:
-            fit_params, _ = curve_fit(
-                gauss, x, y
-            )
-        except (RuntimeError, OptimizeWarning, TypeError):
-            return [1, 1, 1]
+    # this is when curve_fit() gives an OptimizeWarning. To turn the warning into an error
+    # would change the warning filters of all threads
+    if not np.all(np.isfinite(fit_covariance)):
+        return [1, 1, 1]
 
     return fit_params
 
-- 
2.43.0


From b0dbc12190788cd5d9b32fa4ade658500c3bb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:02 +0000
Subject: [PATCH 28/35] fix: close all files at the end of a processing run

The input was never closed, and the outputs stayed open if the run failed,
so that they could not be processed again.
---
 dedop/data/input/netcdf_reader.py  |  3 ++-
 dedop/data/output/netcdf_writer.py |  3 ++-
 dedop/proc/sar/processor.py        | 26 ++++++++++++++++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index 4069da6..042375b 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -82,7 +82,8 @@ class NetCDFReader:
         self.chunk_index = chunk_start
 
     def close(self):
-        self._doc.close()
+        if self._doc.isopen():
+            self._doc.close()
 
     def read_globals(self):
         attrs = {}
diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index f76d5c9..96b8221 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -338,7 +338,8 @@ class NetCDFWriter(metaclass=ABCMeta):
         """
         close the netCDF file
         """
-        self._root.close()
+        if self._root.isopen():
+            self._root.close()
 
     def get_variable(self, varname: str) -> nc.Variable:
         return getattr(self, varname)
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 44174ba..e6e147a 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -109,12 +109,18 @@ class L1BProcessor(BaseProcessor):
         """
         self.l1a_file = L1ADataset(l1a_file, chd=self.chd, cst=self.cst, cnf=self.cnf)
 
-        print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
+        self.l1b_file = None
+        self.l1bs_file = None
 
-        t0 = time.time()
+        try:
+            print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
 
-        with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+            t0 = time.time()
+
+            with monitor.starting('processing', total_work=len(self.l1a_file)):
+                status = self._process(l1a_file, monitor)
+        finally:
+            self._close_files()
 
         dt = time.time() - t0
 
@@ -126,6 +132,18 @@ class L1BProcessor(BaseProcessor):
 
         return status
 
+    def _close_files(self) -> None:
+        """
+        closes the input, and the outputs if they are still open because the processing failed
+        """
+        for file in (self.l1a_file, self.l1b_file, self.l1bs_file):
+            if file is not None:
+                try:
+                    file.close()
+                except Exception:
+                    # the outputs have been closed before, unless there is another error already
+                    pass
+
     def _process(self, l1a_file, monitor):
         running = True
         surface_processing = False
-- 
2.43.0


From e4668810ae718632f271d6709a0ee9d5a8c70be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:51 +0000
Subject: [PATCH 29/35] fix: refuse new names with line breaks

The current workspace and configuration are kept as one line of text. After
selecting a name with a line break, another name was read back.
---
 dedop/ui/workspace_manager.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 3257558..f3612b9 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -82,6 +82,17 @@ def _check_name(name: str, what: str):
         raise WorkspaceError('invalid %s name "%s"' % (what, name))
 
 
+def _check_current_name(name: str, what: str):
+    """
+    Check that *name* can be the name of the current workspace or configuration, which is kept as one line of text.
+
+    :raise: WorkspaceError: if not
+    """
+    _check_name(name, what)
+    if '\n' in name or '\r' in name:
+        raise WorkspaceError('invalid %s name "%s"' % (what, name))
+
+
 class WorkspaceManager:
     """
     Manages DeDop workspaces.
@@ -139,7 +150,7 @@ class WorkspaceManager:
 
     def set_current_workspace_name(self, workspace_name: str):
         if workspace_name:
-            _check_name(workspace_name, 'workspace')
+            _check_current_name(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         _writeline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME), workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
@@ -153,7 +164,7 @@ class WorkspaceManager:
         :param workspace_name: new workspace name
         :raise: WorkspaceError: when workspace already exists
         """
-        _check_name(workspace_name, 'workspace')
+        _check_current_name(workspace_name, 'workspace')
         workspace_dir = self.get_workspace_path(workspace_name)
         if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):
             raise WorkspaceError('workspace "%s" already exists' % workspace_name)
@@ -181,7 +192,7 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         _check_name(workspace_name, 'workspace')
-        _check_name(new_workspace_name, 'workspace')
+        _check_current_name(new_workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         workspace_dir = self.get_workspace_path(new_workspace_name)
         self._copy_dir(self.get_workspace_path(workspace_name), workspace_dir)
@@ -194,7 +205,7 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         _check_name(workspace_name, 'workspace')
-        _check_name(new_workspace_name, 'workspace')
+        _check_current_name(new_workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         if self.workspace_exists(new_workspace_name):
             raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
@@ -226,7 +237,7 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be added
         """
         _check_name(workspace_name, 'workspace')
-        _check_name(config_name, 'configuration')
+        _check_current_name(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
@@ -274,7 +285,7 @@ class WorkspaceManager:
         """
         _check_name(workspace_name, 'workspace')
         _check_name(config_name, 'configuration')
-        _check_name(new_config_name, 'configuration')
+        _check_current_name(new_config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -290,7 +301,7 @@ class WorkspaceManager:
         """
         _check_name(workspace_name, 'workspace')
         _check_name(config_name, 'configuration')
-        _check_name(new_config_name, 'configuration')
+        _check_current_name(new_config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -334,7 +345,7 @@ class WorkspaceManager:
     def set_current_config_name(self, workspace_name: str, config_name: str):
         _check_name(workspace_name, 'workspace')
         if config_name:
-            _check_name(config_name, 'configuration')
+            _check_current_name(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)
@@ -426,7 +437,7 @@ class WorkspaceManager:
         :param input_paths: path to the input files to be added
         :param monitor: to monitor the progress
         """
-        _check_name(workspace_name, 'workspace')
+        _check_current_name(workspace_name, 'workspace')
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
-- 
2.43.0


From 17f8f2ff3f9a31bd3f473a8ec5d2a3528b868a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:10 +0000
Subject: [PATCH 30/35] fix: compare uses the first product if the second is
 omitted

---
 dedop/cli/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..fc17e97 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -959,6 +959,8 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
             l1b_filename_2 = command_args.l1b_filename_2
+            if not l1b_filename_2:
+                l1b_filename_2 = l1b_filename_1
             if os.path.dirname(l1b_filename_1):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
-- 
2.43.0


From 6b02db8ffc5208ac847600b943368608eeb3ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:10 +0000
Subject: [PATCH 31/35] fix: compare looks up the second product by its own
 name

---
 dedop/cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index fc17e97..a722603 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -961,7 +961,7 @@ class ManageOutputsCommand(SubCommandCommand):
             l1b_filename_2 = command_args.l1b_filename_2
             if not l1b_filename_2:
                 l1b_filename_2 = l1b_filename_1
-            if os.path.dirname(l1b_filename_1):
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
-- 
2.43.0


From 0033c59444614888c72aa0cd54b6a4597c78a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 32/35] fix: numeric global attributes can be sent as JSON

---
 dedop/webapi/websocket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..49de103 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -181,6 +181,8 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
+        # NetCDF numbers and arrays are NumPy objects, which cannot be sent as JSON
+        global_attributes = {name: value.tolist() if hasattr(value, 'tolist') else value
+                             for name, value in ds.__dict__.items()}
         ds.close()
         return global_attributes
-- 
2.43.0


From 470fe920011ef3308695e125aa7f86fd9c2ed4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 33/35] fix: process inputs without a product name

---
 dedop/data/input/l1a/l1a_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 5d980e7..52566c7 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -76,9 +76,13 @@ class L1AGlobals:
             attrs.get('product_name')
 
     def get_l1b_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '____')
 
     def get_l1bs_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '_BS_')
 
 
-- 
2.43.0


From e7cd909bd4266f5dc2c1a62c814b99a12b5c6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 34/35] fix: a missing stack masking flag is an error

---
 dedop/proc/sar/algorithms/stack_masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/stack_masking.py b/dedop/proc/sar/algorithms/stack_masking.py
index 1dac6eb..1a05924 100644
--- a/dedop/proc/sar/algorithms/stack_masking.py
+++ b/dedop/proc/sar/algorithms/stack_masking.py
@@ -17,7 +17,8 @@ class StackMaskingAlgorithm(BaseAlgorithm):
         :return:
         """
 
-        if self.flag_stack_masking:
+        # take it from the CNF, a missing parameter must not switch the masking off
+        if self.cnf.flag_stack_masking:
             geom_mask = self.compute_geometry_mask(working_surface_location)
             ambig_mask = self.compute_ambiguity_mask(working_surface_location)
             angle_mask = self.compute_angle_mask(working_surface_location)
-- 
2.43.0


From 130c584658692a651732db79a4e2e4192340b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 35/35] fix: list a file once

---
 dedop/ui/workspace_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index f3612b9..2e4e473 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -726,6 +726,7 @@ class WorkspaceManager:
                 for p in pattern:
                     if fnmatch.fnmatch(fn, p):
                         new_fn_list.append(fn)
+                        break
             fn_list = new_fn_list
         return sorted(fn_list)
 
-- 
2.43.0

