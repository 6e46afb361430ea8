From 5e58b55aded7b25024670430ab919cd9ede07f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 01/32] fix: report an error instead of panicking when a
 directory has no entry point

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..870c963 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,7 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From 23e2b6e7c5ef0dc00f9b1007c10e230f19eb38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 02/32] fix: keep searching parent node_modules with the
 original request when a package has no entry point

---
 src/resolve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..4c7fdd8 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -104,6 +104,8 @@ impl Resolver {
                             ResolverStats::Error((error, err_info))
                         }
                     }
+                    // this directory has no entry point, look in the parent directory
+                    ResolverStats::Resolving(_) => ResolverStats::Resolving(info),
                     _ => stats,
                 }
             }
-- 
2.43.0


From ee5889c61d1115c31df5f050af80a4585ffcf543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 03/32] fix: start every main field and main file from the
 package directory

---
 src/lib.rs               | 8 --------
 src/plugin/main_field.rs | 8 +++-----
 src/plugin/main_file.rs  | 6 ++----
 3 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 870c963..ab75caa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,14 +144,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..fdda9bd 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +32,9 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -47,8 +47,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..8c27b98 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,9 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone())
+                .with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +28,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From ed115ce0b74e96bb35216a05b58172bdb04c80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 04/32] fix: main fields that point back to their own directory
 no longer recurse endlessly

---
 src/plugin/main_field.rs | 15 ++++++++++++---
 src/resolve.rs           | 12 +++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index fdda9bd..f1968c7 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,3 +1,4 @@
+use std::path::PathBuf;
 use std::sync::Arc;
 
 use crate::{description::PkgFileInfo, Resolver};
@@ -6,11 +7,12 @@ use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
 pub struct MainFieldPlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
+    visited: &'a [PathBuf],
 }
 
 impl<'a> MainFieldPlugin<'a> {
-    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>) -> Self {
-        Self { pkg_info }
+    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>, visited: &'a [PathBuf]) -> Self {
+        Self { pkg_info, visited }
     }
 }
 
@@ -21,6 +23,13 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
+            // a main field pointing (back) to this directory leads nowhere new.
+            let dir = info.path.canonicalize().unwrap_or(info.path.clone());
+            if self.visited.contains(&dir) {
+                return ResolverStats::Resolving(info);
+            }
+            let visited = [self.visited, &[dir]].concat();
+
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -43,7 +52,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
                         .and_then(|info| resolver.resolve_as_file(info))
-                        .and_then(|info| resolver.resolve_as_dir(info));
+                        .and_then(|info| resolver.resolve_as_dir_from(info, &visited));
 
                     if stats.is_success() {
                         return stats;
diff --git a/src/resolve.rs b/src/resolve.rs
index 4c7fdd8..d16fa3a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -26,6 +26,16 @@ impl Resolver {
 
     #[tracing::instrument]
     pub(crate) fn resolve_as_dir(&self, info: ResolveInfo) -> ResolverStats {
+        self.resolve_as_dir_from(info, &[])
+    }
+
+    /// `visited` contains the directories whose main fields led here.
+    #[tracing::instrument]
+    pub(crate) fn resolve_as_dir_from(
+        &self,
+        info: ResolveInfo,
+        visited: &[PathBuf],
+    ) -> ResolverStats {
         let dir = info.get_path();
         if !dir.is_dir() {
             return ResolverStats::Error((Resolver::raise_tag(), info));
@@ -36,7 +46,7 @@ impl Resolver {
         };
 
         let info = info.with_path(dir).with_target("");
-        MainFieldPlugin::new(&pkg_info_wrap)
+        MainFieldPlugin::new(&pkg_info_wrap, visited)
             .apply(self, info)
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
-- 
2.43.0


From bd28379e758c5d595177b7587ec3898c4d4930f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 05/32] fix: split a bare request at byte offsets so that
 non-ASCII package names do not panic

---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index d16fa3a..c4335ae 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -60,8 +60,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From effab6ac091da35aa6e5e56fa32d8a713b8263ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 06/32] fix: null and malformed exports/imports values no
 longer panic

---
 src/description.rs |  6 ++++--
 src/map.rs         | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..76181c0 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -67,7 +67,8 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports = json.get("exports").filter(|value| !value.is_null());
+        let exports_field_tree = if let Some(value) = exports {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -82,7 +83,8 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports = json.get("imports").filter(|value| !value.is_null());
+        let imports_field_tree = if let Some(value) = imports {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index 8122f31..21cf01f 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -113,13 +113,15 @@ pub trait Field {
             serde_json::Value::String(str) => MappingValue::Direct(str.to_string()),
             serde_json::Value::Array(arr) => {
                 let mut temp: ArrayMapping = vec![];
-                for item in arr {
+                for item in arr.iter().filter(|item| !item.is_null()) {
                     match Self::from_json(item)? {
                         MappingValue::Direct(direct) => temp.push(AvailableMapping::Direct(direct)),
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        MappingValue::Array(_) => {
+                            return Err(format!("Array mapping should not be nested, but got {item}"))
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +133,9 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // `null` has no target
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            _ => return Err(format!("Unexpected value {json_value} in mapping")),
         };
         Ok(result)
     }
@@ -362,7 +366,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From d0f5d69213e0564320e868414909a8260625cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 07/32] fix: substitute wildcard remainders correctly for exact
 nested keys, non-ASCII keys and dollar signs

---
 src/map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 21cf01f..08b614b 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -153,8 +153,7 @@ pub trait Field {
                 (false, true) => Err(format!("Expected {target} is file mapping")),
                 (false, false) => {
                     let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
+                    Ok(target.replace('*', request))
                 }
             }
         } else if !is_folder {
@@ -430,7 +429,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
@@ -494,7 +493,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From 300e07926338316699ccdaab48c9d08d06ef01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 08/32] fix: a target leaving its package is recognised
 whatever the shape of its segments

---
 src/map.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 08b614b..95a503d 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,18 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
-                cd -= 1;
-                if cd < 0 {
-                    return false;
+        for segment in relative_path.split('/') {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    cd -= 1;
+                    if cd < 0 {
+                        return false;
+                    }
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
-                cd += 1;
+                _ => cd += 1,
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From c890a86a301348063c2cdd4fa6f106cd21838d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 09/32] fix: take exports from the package a bare request
 names, not from a nested or an enclosing one

---
 src/plugin/exports_field.rs | 24 +++-------------
 src/resolve.rs              | 57 +++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..cb06d7f 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -25,7 +25,7 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
+            .map(|pkg_name| Resolver::split_module_target(&info.request.target).0 == pkg_name)
             .map_or(false, |ans| ans)
     }
 }
@@ -46,25 +46,9 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             let list = if let Some(root) = &pkg_info.exports_field_tree {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
-                let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
-                } else {
-                    target
-                }
-                .chars()
-                .collect();
-
-                let target = match chars.find('/').map(|index| &chars[index..]) {
-                    Some(target) => format!(".{target}"),
-                    None => {
-                        let target = target.to_string();
-                        if info.path.join(&target).exists() || pkg_info.name.eq(&Some(target)) {
-                            ".".to_string()
-                        } else {
-                            return ResolverStats::Error((Resolver::raise_tag(), info));
-                        }
-                    }
+                let target = match Resolver::split_module_target(target).1 {
+                    "" => ".".to_string(),
+                    subpath => format!(".{subpath}"),
                 };
                 let remaining_target = if !query.is_empty() || !fragment.is_empty() {
                     let target = if target == "." {
diff --git a/src/resolve.rs b/src/resolve.rs
index c4335ae..f635c4a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,7 +1,5 @@
 use std::path::{Path, PathBuf};
 
-use smol_str::SmolStr;
-
 use crate::plugin::{
     AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
     MainFilePlugin, Plugin,
@@ -14,6 +12,15 @@ impl Resolver {
         PathBuf::from(&format!("{}{ext}", path.display()))
     }
 
+    /// `@scope/name/sub/path` -> (`@scope/name`, `/sub/path`)
+    pub(crate) fn split_module_target(target: &str) -> (&str, &str) {
+        let slash_count = if target.starts_with('@') { 2 } else { 1 };
+        match target.match_indices('/').nth(slash_count - 1) {
+            Some((index, _)) => target.split_at(index),
+            None => (target, ""),
+        }
+    }
+
     #[tracing::instrument]
     pub(crate) fn resolve_as_file(&self, info: ResolveInfo) -> ResolverStats {
         let path = info.get_path();
@@ -57,31 +64,37 @@ impl Resolver {
         let module_root_path = original_dir.join(MODULE);
         let stats = if module_root_path.is_dir() {
             let target = &info.request.target;
-            // join request part
-            let has_namespace_scope = target.starts_with('@');
-            let slash_index_list: Vec<usize> = target
-                .char_indices()
-                .filter(|(_, char)| '/'.eq(char))
-                .map(|(index, _)| index)
-                .collect();
-            let last_start_index = if has_namespace_scope {
-                slash_index_list.get(1)
-            } else {
-                slash_index_list.first()
-            };
-            let module_name =
-                last_start_index.map_or(target.clone(), |&index| SmolStr::new(&target[0..index]));
-            let module_path = module_root_path.join(&*module_name);
+            let (module_name, _) = Self::split_module_target(target);
+            let module_path = module_root_path.join(module_name);
 
             let module_info = ResolveInfo::from(module_root_path, info.request.clone());
             let pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
                 Ok(pkg_info) => pkg_info,
                 Err(err) => return ResolverStats::Error((err, info)),
             };
-            let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
-                ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
-            });
-            if !module_path.is_dir() && !is_resolve_self {
+            // `exports` is only taken from the description file of the module itself, or from
+            // the package which the request comes from if it refers to itself by its name.
+            let is_module = module_path.is_dir();
+            let exports_pkg_info = match self.load_pkg_file(if is_module {
+                &module_path
+            } else {
+                &module_info.path
+            }) {
+                Ok(pkg_info) => pkg_info.filter(|pkg_info| {
+                    if is_module {
+                        pkg_info.abs_dir_path == module_path
+                    } else {
+                        ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
+                    }
+                }),
+                Err(err) => return ResolverStats::Error((err, info)),
+            };
+            let is_resolve_self = !is_module && exports_pkg_info.is_some();
+            let pkg_info = exports_pkg_info
+                .clone()
+                .filter(|pkg_info| pkg_info.exports_field_tree.is_some())
+                .or(pkg_info);
+            if !is_module && !is_resolve_self {
                 let stats = self.resolve_as_file(module_info);
                 if stats.is_success() {
                     stats
@@ -89,7 +102,7 @@ impl Resolver {
                     ResolverStats::Resolving(info)
                 }
             } else {
-                let stats = ExportsFieldPlugin::new(&pkg_info)
+                let stats = ExportsFieldPlugin::new(&exports_pkg_info)
                     .apply(self, module_info)
                     .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(self, info))
                     .and_then(|info| {
-- 
2.43.0


From fd0b07f6b5fc934bdb03bdcfa1d3ad9f4cc52ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 10/32] fix: keep parsed imports in their own cache so that an
 equal exports field does not pick them up

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 76181c0..edea831 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -92,7 +92,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 45ced6dd678bdbd13c2a8cafe4537f1db595173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 11/32] fix: a browser field entry set to true no longer panics

---
 src/description.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index edea831..01b5830 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -57,8 +57,7 @@ impl Resolver {
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
-                    if let Some(b) = value.as_bool() {
-                        assert!(!b);
+                    if let Some(false) = value.as_bool() {
                         alias_fields.insert(key.to_string(), AliasMap::Ignored);
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
-- 
2.43.0


From 5e65f25bc5e77d96fb81ed8942f472ea374c617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/32] fix: reading a package.json again in a debug build is
 not a reason to panic

---
 src/cache.rs       | 19 -------------------
 src/description.rs | 19 -------------------
 src/lib.rs         |  7 -------
 3 files changed, 45 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..c1900a8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,22 +11,3 @@ pub struct ResolverCache {
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
-
-#[cfg(debug_assertions)]
-#[derive(Default, Debug, Clone)]
-pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
-
-#[cfg(debug_assertions)]
-impl DebugReadMap {
-    pub(crate) fn remove(&self, path: &std::path::Path) {
-        self.0.remove(path);
-    }
-
-    pub(crate) fn contains_key(&self, path: &std::path::Path) -> bool {
-        self.0.contains_key(path)
-    }
-
-    pub(crate) fn insert(&self, path: &std::path::Path, value: bool) {
-        self.0.insert(path.to_path_buf(), value);
-    }
-}
diff --git a/src/description.rs b/src/description.rs
index 01b5830..dc94315 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -27,20 +27,6 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        #[cfg(debug_assertions)]
-        {
-            // ensure that the same package.json is not parsed twice
-            if self.dbg_read_map.contains_key(&file_path) {
-                println!("{:?}", self.cache.file_dir_to_pkg_info);
-                println!("{:?}", self.dbg_read_map);
-                panic!(
-                    "Had try to parse same package.json, {}",
-                    file_path.display()
-                )
-            }
-            self.dbg_read_map.insert(&file_path, true);
-        }
-
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -184,11 +170,6 @@ impl Resolver {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-                #[cfg(debug_assertions)]
-                {
-                    self.dbg_read_map.remove(&description_file_path);
-                }
-
                 false
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index ab75caa..8003bb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,9 +54,6 @@ mod tsconfig;
 mod tsconfig_path;
 mod utils;
 
-#[cfg(debug_assertions)]
-use cache::DebugReadMap;
-
 pub use cache::ResolverCache;
 pub use description::SideEffects;
 use kind::PathKind;
@@ -75,8 +72,6 @@ pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
-    #[cfg(debug_assertions)]
-    dbg_read_map: DebugReadMap,
 }
 
 pub type ResolverError = String;
@@ -171,8 +166,6 @@ impl Resolver {
             fs,
             cache,
             options,
-            #[cfg(debug_assertions)]
-            dbg_read_map: Default::default(),
         }
     }
 
-- 
2.43.0


From b94951c4f8c87d5cbe2da3adf8adb82858c93c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 13/32] fix: notice description files that appear or disappear
 after they have been looked up

---
 src/description.rs | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index dc94315..83759f9 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -164,42 +164,27 @@ impl Resolver {
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        if !description_file_path.is_file() {
+            // find the closest directory witch contains description file
+            return match path
+                .parent()
+                .and_then(|parent| Self::find_up(parent, description_file_name))
+            {
+                Some(target_dir) => self.load_pkg_file(&target_dir),
+                None => Ok(None),
+            };
+        }
+
+        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
                 return Ok(r#ref.clone());
-            } else {
-                false
             }
-        } else {
-            !description_file_path.is_file()
-        };
+        }
 
         // pkg_info_cache do **not** contain this key
         // or this file had modified
-        if need_find_up {
-            // find the closest directory witch contains description file
-            if let Some(target_dir) = Self::find_up(path, description_file_name) {
-                return self.load_pkg_file(&target_dir);
-            } else {
-                // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
-                    }
-                }
-            }
-        }
-
         let pkg_info = Some(Arc::new(
             self.parse_description_file(path, description_file_path)?,
         ));
-- 
2.43.0


From 941f4b2ec18aeaa2aaf3ad9903afc7243188ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 14/32] fix: judge the freshness of a parsed package.json by
 the time of its own content

---
 src/description.rs | 20 ++++++++++++++----
 src/fs.rs          | 52 ++++++++++++++++++----------------------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 83759f9..92cac35 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -3,6 +3,7 @@ use crate::{AliasMap, RResult, Resolver};
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::time::SystemTime;
 
 #[derive(Clone, Debug)]
 pub enum SideEffects {
@@ -22,12 +23,14 @@ pub struct PkgFileInfo {
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
     pub raw: serde_json::Value,
+    /// When the parsed content had been modified.
+    pub last_modified_time: SystemTime,
 }
 
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        let str = tracing::debug_span!("read_to_string").in_scope(|| {
+        let (str, last_modified_time) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
                 .map_err(|_| format!("Open {} failed", file_path.display()))
@@ -131,6 +134,7 @@ impl Resolver {
             imports_field_tree,
             side_effects,
             raw: json,
+            last_modified_time,
         })
     }
 
@@ -175,11 +179,19 @@ impl Resolver {
             };
         }
 
-        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        let cached = self
+            .cache
+            .file_dir_to_pkg_info
+            .get(path)
+            .and_then(|r#ref| r#ref.clone());
+        if let Some(pkg_info) = cached {
             // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
+            if !self
+                .fs
+                .need_update(&description_file_path, pkg_info.last_modified_time)?
+            {
                 // and not modified, then return
-                return Ok(r#ref.clone());
+                return Ok(Some(pkg_info));
             }
         }
 
diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..4984e48 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -1,9 +1,6 @@
-use dashmap::DashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
-use std::sync::Arc;
 use std::time;
 
 use crate::RResult;
@@ -11,7 +8,6 @@ use crate::RResult;
 #[derive(Default, Debug)]
 pub struct CacheFile {
     duration: time::Duration,
-    cached_file: DashMap<PathBuf, (Arc<String>, time::SystemTime)>,
 }
 
 impl CacheFile {
@@ -19,7 +15,6 @@ impl CacheFile {
     pub fn new(duration: u64) -> Self {
         CacheFile {
             duration: time::Duration::from_millis(duration),
-            cached_file: Default::default(),
         }
     }
 
@@ -32,37 +27,30 @@ impl CacheFile {
             .map_err(|_| format!("Get modified time of {} failed", path.as_ref().display()))
     }
 
+    /// Whether the file had been modified since the content modified at `stored_last_modify_time`
+    /// was read.
     #[tracing::instrument]
-    pub fn need_update<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<bool> {
-        if !path.as_ref().is_file() {
-            // no  need update if `p` pointed file dose not exist
-            return Ok(false);
-        }
-        self.cached_file
-            .get(path.as_ref())
-            .map(|value| value.1)
-            .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
-                    .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
-            })
-            .map_or(Ok(true), |val| val)
+    pub fn need_update<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        stored_last_modify_time: time::SystemTime,
+    ) -> RResult<bool> {
+        let last_modify_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+        Ok(last_modify_time
+            .duration_since(stored_last_modify_time)
+            // an older file took its place
+            .map_or(true, |duration| duration >= self.duration))
     }
 
     #[tracing::instrument]
-    pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
-        let str = Arc::new(
-            fs::read_to_string(path.as_ref())
-                .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
-        );
+    pub fn read_to_string<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+    ) -> RResult<(String, time::SystemTime)> {
+        // get the time first, a modification while reading should not be missed afterwards.
         let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-        self.cached_file.insert(
-            path.as_ref().to_path_buf(),
-            (str.clone(), last_modified_time),
-        );
-        Ok(str)
+        let str = fs::read_to_string(path.as_ref())
+            .map_err(|_| format!("Open {} failed", path.as_ref().display()))?;
+        Ok((str, last_modified_time))
     }
 }
-- 
2.43.0


From 4528ec910f9ba5684ef49cdf7eba6830039bbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 15/32] fix: apply the browser field of the importing package
 to modules that are installed next to it

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8003bb5..db01a47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -203,7 +203,8 @@ impl Resolver {
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
             .and_then(|info| {
                 let request = if info.request.kind.eq(&PathKind::Normal) {
-                    info.path.join(MODULE).join(&*info.request.target)
+                    // the description file which the request belongs to
+                    info.path.to_path_buf()
                 } else {
                     info.get_path()
                 };
-- 
2.43.0


From 5510737c9b4a3bf49babfb2d8168ffa0c0af204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 16/32] fix: browser field entries that point at each other no
 longer recurse endlessly

---
 src/plugin/alias_field.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..e3a5409 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -14,19 +14,22 @@ impl<'a> AliasFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    pub(super) fn deal_with_alias_fields_recursive(
+    /// `visited` contains the keys which led to `target`.
+    pub(super) fn deal_with_alias_fields_recursive<'b>(
         &self,
-        target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        target: &'b AliasMap,
+        alias_fields: &'b HashMap<String, AliasMap>,
+        visited: &mut Vec<&'b str>,
     ) -> AliasMap {
         match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
+            AliasMap::Target(target) => match alias_fields.get(target) {
+                // stop when it pointed back to a key that is already replaced.
+                Some(next) if !visited.contains(&target.as_str()) => {
+                    visited.push(target);
+                    self.deal_with_alias_fields_recursive(next, alias_fields, visited)
                 }
-            }
+                _ => AliasMap::Target(target.clone()),
+            },
             AliasMap::Ignored => AliasMap::Ignored,
         }
     }
@@ -69,9 +72,11 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                     ),
                 };
                 if should_deal_alias {
-                    return match self
-                        .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
-                    {
+                    return match self.deal_with_alias_fields_recursive(
+                        alias_target,
+                        &pkg_info.alias_fields,
+                        &mut vec![alias_key],
+                    ) {
                         AliasMap::Target(converted) => ResolverStats::Resolving(
                             info.with_path(pkg_info.abs_dir_path.to_path_buf())
                                 .with_target(&converted),
-- 
2.43.0


From 8e99bbec5af3c67d222478da93958d483df24138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 17/32] fix: match browser field entries in the order of their
 declaration

---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 92cac35..dfe447f 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::SystemTime;
@@ -18,7 +18,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -41,7 +41,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index e3a5409..b0e74e9 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -18,7 +19,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive<'b>(
         &self,
         target: &'b AliasMap,
-        alias_fields: &'b HashMap<String, AliasMap>,
+        alias_fields: &'b IndexMap<String, AliasMap>,
         visited: &mut Vec<&'b str>,
     ) -> AliasMap {
         match target {
-- 
2.43.0


From 80f8ad4e3d48210dd35494287d2f92617d7a09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 18/32] fix: compare and search normalised paths so that
 requests with '..' find their own package

---
 src/description.rs        | 2 ++
 src/plugin/alias_field.rs | 6 ++++--
 src/plugin/main_field.rs  | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index dfe447f..2548375 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -157,6 +157,8 @@ impl Resolver {
         if self.options.description_file.is_none() {
             return Ok(None);
         }
+        // the parent of `a/..` is not `a`.
+        let path = &Self::normalize_path_without_link(path);
         // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
         // So this step is ensure `path` pointed to directory.
         if !path.is_dir() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index b0e74e9..63fc09e 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -47,7 +47,7 @@ impl<'a> AliasFieldPlugin<'a> {
         info: &ResolveInfo,
         extensions: &[String],
     ) -> bool {
-        let request_path = info.get_path();
+        let request_path = Resolver::normalize_path_without_link(&info.get_path());
         alias_path.eq(&request_path)
             || extensions.iter().any(|ext| {
                 let path_with_extension = Resolver::append_ext_for_path(&request_path, ext);
@@ -67,7 +67,9 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                 let should_deal_alias = match matches!(info.request.kind, PathKind::Normal) {
                     true => Self::request_target_is_module_and_equal_alias_key(alias_key, &info),
                     false => Self::request_path_is_equal_alias_key_path(
-                        &pkg_info.abs_dir_path.join(alias_key),
+                        &Resolver::normalize_path_without_link(
+                            &pkg_info.abs_dir_path.join(alias_key),
+                        ),
                         &info,
                         &resolver.options.extensions,
                     ),
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index f1968c7..ba66ad9 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -19,7 +19,7 @@ impl<'a> MainFieldPlugin<'a> {
 impl<'a> Plugin for MainFieldPlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         if let Some(pkg_info) = self.pkg_info {
-            if !info.path.eq(&pkg_info.abs_dir_path) {
+            if !Resolver::normalize_path_without_link(&info.path).eq(&pkg_info.abs_dir_path) {
                 return ResolverStats::Resolving(info);
             }
 
-- 
2.43.0


From 90c364b922939c33f5062287571a96223ef351bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 19/32] fix: follow browser field entries that replace a file
 of a package by a module

---
 src/plugin/main_field.rs |  3 +--
 src/plugin/main_file.rs  | 13 +++++++++----
 src/resolve.rs           | 38 +++++++++++++++++++++++++++++++++-----
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index ba66ad9..5842370 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -51,8 +51,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
-                        .and_then(|info| resolver.resolve_as_file(info))
-                        .and_then(|info| resolver.resolve_as_dir_from(info, &visited));
+                        .and_then(|info| resolver.resolve_as_replacement(info, &visited));
 
                     if stats.is_success() {
                         return stats;
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 8c27b98..3c12455 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -1,6 +1,7 @@
+use std::path::PathBuf;
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, PathKind, Resolver};
 
 use super::{
     AliasFieldPlugin, ExportsFieldPlugin, ImportsFieldPlugin, Plugin, ResolveInfo, ResolverStats,
@@ -8,11 +9,12 @@ use super::{
 
 pub struct MainFilePlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
+    visited: &'a [PathBuf],
 }
 
 impl<'a> MainFilePlugin<'a> {
-    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>) -> Self {
-        Self { pkg_info }
+    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>, visited: &'a [PathBuf]) -> Self {
+        Self { pkg_info, visited }
     }
 }
 
@@ -25,7 +27,10 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
                 .and_then(|info| AliasFieldPlugin::new(self.pkg_info).apply(resolver, info))
-                .and_then(|info| resolver.resolve_as_file(info));
+                .and_then(|info| match info.request.kind {
+                    PathKind::Normal => resolver.resolve_as_replacement(info, self.visited),
+                    _ => resolver.resolve_as_file(info),
+                });
             if stats.is_success() {
                 return stats;
             }
diff --git a/src/resolve.rs b/src/resolve.rs
index f635c4a..deac5d6 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -36,7 +36,7 @@ impl Resolver {
         self.resolve_as_dir_from(info, &[])
     }
 
-    /// `visited` contains the directories whose main fields led here.
+    /// `visited` contains the directories whose main fields, and the modules which led here.
     #[tracing::instrument]
     pub(crate) fn resolve_as_dir_from(
         &self,
@@ -55,11 +55,40 @@ impl Resolver {
         let info = info.with_path(dir).with_target("");
         MainFieldPlugin::new(&pkg_info_wrap, visited)
             .apply(self, info)
-            .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
+            .and_then(|info| MainFilePlugin::new(&pkg_info_wrap, visited).apply(self, info))
+    }
+
+    /// Resolve what the `browser` field of a package replaced a file by.
+    #[tracing::instrument]
+    pub(crate) fn resolve_as_replacement(
+        &self,
+        info: ResolveInfo,
+        visited: &[PathBuf],
+    ) -> ResolverStats {
+        if info.request.kind != PathKind::Normal {
+            return self
+                .resolve_as_file(info)
+                .and_then(|info| self.resolve_as_dir_from(info, visited));
+        }
+        // it had been replaced by a module
+        let module = PathBuf::from(format!(
+            "{} in {}",
+            info.request.target,
+            info.path.display()
+        ));
+        if visited.contains(&module) {
+            return ResolverStats::Error((Resolver::raise_tag(), info));
+        }
+        self.resolve_as_modules_from(info, &[visited, &[module]].concat())
     }
 
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
+        self.resolve_as_modules_from(info, &[])
+    }
+
+    #[tracing::instrument]
+    fn resolve_as_modules_from(&self, info: ResolveInfo, visited: &[PathBuf]) -> ResolverStats {
         let original_dir = info.path.clone();
         let module_root_path = original_dir.join(MODULE);
         let stats = if module_root_path.is_dir() {
@@ -115,8 +144,7 @@ impl Resolver {
 
                         AliasFieldPlugin::new(&pkg_info).apply(self, info)
                     })
-                    .and_then(|info| self.resolve_as_file(info))
-                    .and_then(|info| self.resolve_as_dir(info));
+                    .and_then(|info| self.resolve_as_replacement(info, visited));
 
                 match stats {
                     ResolverStats::Error((error, err_info)) => {
@@ -136,7 +164,7 @@ impl Resolver {
         }
         .and_then(|info| {
             if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
+                self.resolve_as_modules_from(info.with_path(parent_dir.to_path_buf()), visited)
             } else {
                 ResolverStats::Resolving(info)
             }
-- 
2.43.0


From 908839ecbbed6ce33adfa533e9338738f92cacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 20/32] fix: imports that lead to each other end, and the
 packages they name are searched like any other

---
 src/plugin/imports_field.rs | 80 +++++++++++++++----------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..27ca1fa 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     PathKind, ResolveInfo, ResolverStats,
@@ -27,61 +27,47 @@ impl<'a> ImportsFieldPlugin<'a> {
 }
 
 impl<'a> Plugin for ImportsFieldPlugin<'a> {
-    fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+    fn apply(&self, resolver: &Resolver, mut info: ResolveInfo) -> ResolverStats {
         if let Some(pkg_info) = self.pkg_info {
             if !info.request.target.starts_with('#') {
                 return ResolverStats::Resolving(info);
             }
 
-            let target = &info.request.target;
-            let list = if let Some(root) = &pkg_info.imports_field_tree {
-                match ImportsField::field_process(root, target, &resolver.options.condition_names) {
-                    Ok(list) => list,
-                    Err(err) => return ResolverStats::Error((err, info)),
-                }
-            } else {
-                return ResolverStats::Resolving(info);
-            };
-
-            if let Some(item) = list.first() {
-                let request = resolver.parse(item);
-                let is_normal_kind = matches!(request.kind, PathKind::Normal);
-                let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
-
-                if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
+            // a chain with more members than there are entries goes around in circles.
+            let len = pkg_info
+                .raw
+                .get("imports")
+                .and_then(|value| value.as_object())
+                .map_or(0, |map| map.len());
+            for _ in 0..=len {
+                let target = info.request.target.clone();
+                let list = if let Some(root) = &pkg_info.imports_field_tree {
+                    match ImportsField::field_process(
+                        root,
+                        &target,
+                        &resolver.options.condition_names,
+                    ) {
+                        Ok(list) => list,
                         Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
                     }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
-                } else if is_internal_kind {
-                    self.apply(resolver, info)
                 } else {
-                    ImportsFieldPlugin::check_target(info, target)
+                    return ResolverStats::Resolving(info);
+                };
+
+                let request = match list.first() {
+                    Some(item) => resolver.parse(item),
+                    None => break,
+                };
+                info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
+                match info.request.kind {
+                    // it will be searched in `node_modules` from the directory of this package.
+                    PathKind::Normal => return ResolverStats::Resolving(info),
+                    PathKind::Internal => continue,
+                    _ => return ImportsFieldPlugin::check_target(info, &target),
                 }
-            } else {
-                ResolverStats::Error((format!("Package path {target} is not exported"), info))
             }
+            let message = format!("Package path {} is not exported", info.request.target);
+            ResolverStats::Error((message, info))
         } else {
             ResolverStats::Resolving(info)
         }
-- 
2.43.0


From 666d72ffb83a9ed061e3b8ab8d1d954870401ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 21/32] fix: alias entries that lead back to themselves no
 longer recurse endlessly

---
 src/lib.rs                    | 10 ++++++++--
 src/plugin/alias.rs           | 23 ++++++++++++++++++-----
 src/plugin/prefer_relative.rs | 17 +++++++++++++----
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index db01a47..a2944c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -197,10 +197,16 @@ impl Resolver {
 
     #[tracing::instrument]
     fn _resolve(&self, info: ResolveInfo) -> ResolverStats {
+        self._resolve_from(info, &[])
+    }
+
+    /// `used` contains the indexes of the entries of `alias` which led to this request.
+    #[tracing::instrument]
+    fn _resolve_from(&self, info: ResolveInfo, used: &[usize]) -> ResolverStats {
         let resolve_err_msg = Self::raise_resolve_failed_message(&info);
-        let stats = AliasPlugin::default()
+        let stats = AliasPlugin::new(used)
             .apply(self, info)
-            .and_then(|info| PreferRelativePlugin::default().apply(self, info))
+            .and_then(|info| PreferRelativePlugin::new(used).apply(self, info))
             .and_then(|info| {
                 let request = if info.request.kind.eq(&PathKind::Normal) {
                     // the description file which the request belongs to
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..97cb099 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -3,16 +3,24 @@ use crate::{options::AliasMap, Resolver, MODULE};
 use super::Plugin;
 use crate::{ResolveInfo, ResolveResult, ResolverStats};
 
-#[derive(Default)]
-pub struct AliasPlugin;
+pub struct AliasPlugin<'a> {
+    /// Indexes of the entries of `alias` which led to this request.
+    used: &'a [usize],
+}
+
+impl<'a> AliasPlugin<'a> {
+    pub fn new(used: &'a [usize]) -> Self {
+        Self { used }
+    }
+}
 
-impl Plugin for AliasPlugin {
+impl Plugin for AliasPlugin<'_> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         let inner_target = &info.request.target;
         if info.path.display().to_string().contains(MODULE) {
             return ResolverStats::Resolving(info);
         }
-        for (from, to) in &resolver.options.alias {
+        for (index, (from, to)) in resolver.options.alias.iter().enumerate() {
             if inner_target.starts_with(from) {
                 match to {
                     AliasMap::Target(to) => {
@@ -21,12 +29,17 @@ impl Plugin for AliasPlugin {
                             // skip `target.starts_with(&format("{to}"))` to prevent infinite loop.
                             continue;
                         }
+                        if self.used.contains(&index) {
+                            // this entry led back to itself
+                            continue;
+                        }
                         let normalized_target = inner_target.replacen(from, to, 1);
                         let alias_info = ResolveInfo::from(
                             info.path.to_path_buf(),
                             info.request.clone().with_target(&normalized_target),
                         );
-                        let stats = resolver._resolve(alias_info);
+                        let used = [self.used, &[index]].concat();
+                        let stats = resolver._resolve_from(alias_info, &used);
                         if stats.is_success() {
                             return stats;
                         }
diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 60c2351..a082fdc 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,10 +1,19 @@
 use crate::Resolver;
 
 use super::{Plugin, ResolveInfo, ResolverStats};
-#[derive(Default)]
-pub struct PreferRelativePlugin;
 
-impl Plugin for PreferRelativePlugin {
+pub struct PreferRelativePlugin<'a> {
+    /// Indexes of the entries of `alias` which led to this request.
+    used: &'a [usize],
+}
+
+impl<'a> PreferRelativePlugin<'a> {
+    pub fn new(used: &'a [usize]) -> Self {
+        Self { used }
+    }
+}
+
+impl Plugin for PreferRelativePlugin<'_> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         if info.request.target.starts_with("../") || info.request.target.starts_with("./") {
             return ResolverStats::Resolving(info);
@@ -16,7 +25,7 @@ impl Plugin for PreferRelativePlugin {
                 info.path.to_owned(),
                 info.request.clone().with_target(&target),
             );
-            let stats = resolver._resolve(info);
+            let stats = resolver._resolve_from(info, self.used);
             if stats.is_success() {
                 return stats;
             }
-- 
2.43.0


From 6f41bf14a0801ccd91f98cb8df67fae6686288d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 22/32] fix: malformed, empty and cyclic tsconfig files are
 errors instead of panics

---
 src/tsconfig.rs | 83 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..5488fff 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -3,7 +3,7 @@
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
 use std::collections::HashMap;
 use std::fs::read_to_string;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 #[derive(Debug, Clone)]
 pub struct TsConfig {
@@ -19,29 +19,44 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
-                // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+        let json = parse_file_to_value(location, resolver, &[])?;
+        let unexpected = |name: &str, value: &serde_json::Value| {
+            format!(
+                "{name} in {} had unexpected value {value}",
+                location.display()
+            )
+        };
+        let compiler_options = match json.get("compilerOptions") {
+            Some(options) => {
+                let base_url = match options.get("baseUrl") {
+                    None | Some(serde_json::Value::Null) => None,
+                    Some(serde_json::Value::String(base_url)) => Some(base_url.to_string()),
+                    Some(value) => return Err(unexpected("baseUrl", value)),
+                };
+                let paths = match options.get("paths") {
+                    None | Some(serde_json::Value::Null) => None,
+                    Some(serde_json::Value::Object(paths)) => {
+                        let mut map = HashMap::new();
+                        for (key, value) in paths {
+                            let targets = value
+                                .as_array()
+                                .and_then(|targets| {
+                                    targets
+                                        .iter()
+                                        .map(|target| target.as_str().map(String::from))
+                                        .collect::<Option<Vec<_>>>()
+                                })
+                                .ok_or_else(|| unexpected("paths", value))?;
+                            map.insert(key.to_string(), targets);
+                        }
+                        Some(map)
+                    }
+                    Some(value) => return Err(unexpected("paths", value)),
+                };
+                Some(CompilerOptions { base_url, paths })
+            }
+            None => None,
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -50,12 +65,23 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+/// `extended_by` contains the files which led to `location` by their `extends`.
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    extended_by: &[PathBuf],
+) -> RResult<serde_json::Value> {
+    let real_location = location
+        .canonicalize()
+        .map_err(|_| format!("Open {} failed", location.display()))?;
+    if extended_by.contains(&real_location) {
+        return Err(format!("{} extends itself", location.display()));
+    }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
@@ -64,8 +90,11 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         let stats = resolver._resolve(ResolveInfo::from(dir, resolver.parse(s)));
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
+            let extended_by = [extended_by, &[real_location]].concat();
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => {
+                    parse_file_to_value(&info.get_path(), resolver, &extended_by)
+                }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-- 
2.43.0


From a3e30ac7ecf9a0895e0ed87b43af4c2bdf88f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 23/32] fix: try the most specific tsconfig paths pattern first
 instead of an arbitrary one

---
 src/tsconfig_path.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..91e58cf 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -81,10 +81,16 @@ impl Resolver {
         } else {
             return vec![];
         };
-        paths
+        let mut entries = paths
             .as_ref()
             .map(|paths| Self::get_absolute_mapping_entries(&absolute_base_url, paths))
-            .unwrap_or_default()
+            .unwrap_or_default();
+        // exact patterns first, then the ones with the longest prefix.
+        entries.sort_by_cached_key(|entry| {
+            let prefix_len = entry.pattern.find('*').unwrap_or(usize::MAX);
+            std::cmp::Reverse((prefix_len, entry.pattern.len(), entry.pattern.clone()))
+        });
+        entries
     }
 
     pub(super) fn _resolve_with_tsconfig(
-- 
2.43.0


From 2783e7163d384a8aef2d04cea367bb7ddf828cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 24/32] fix: keep the query and fragment of requests mapped by
 tsconfig paths

---
 src/parse.rs         | 9 ---------
 src/tsconfig_path.rs | 5 +++--
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a03f701..e51b921 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -18,15 +18,6 @@ impl std::fmt::Display for Request {
 }
 
 impl Request {
-    pub(crate) fn empty() -> Self {
-        Self {
-            target: "".into(),
-            query: "".into(),
-            fragment: "".into(),
-            kind: PathKind::Relative,
-        }
-    }
-
     pub(crate) fn parse_identifier(ident: &str) -> (String, String, String) {
         // maybe we should use regexp: https://github.com/webpack/enhanced-resolve/blob/main/lib/util/identifier.js#L8
         let mut target = String::new();
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 91e58cf..311e713 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -122,7 +122,8 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let request = info.request.clone().with_target("");
+                let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From bdba8738d5945563c31de9ed54c2b05a826e1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 25/32] fix: compare non-ASCII requests with tsconfig paths
 patterns without panicking

---
 src/tsconfig_path.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 311e713..5664e38 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -58,14 +58,7 @@ impl Resolver {
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+            search.strip_prefix(part1)?.strip_suffix(part2)
         })
     }
 
-- 
2.43.0


From 372357927386d043e99036c0c323cbadcb3cc7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 26/32] fix: do not apply tsconfig paths to relative requests

---
 src/tsconfig_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 5664e38..8052486 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{kind::PathKind, RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -95,6 +95,10 @@ impl Resolver {
             Ok(tsconfig) => tsconfig,
             Err(error) => return ResolverStats::Error((error, info)),
         };
+        if info.request.kind == PathKind::Relative {
+            // `paths` does not apply to relative requests
+            return self._resolve(info);
+        }
         let absolute_path_mappings =
             Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
 
-- 
2.43.0


From 31f2e653d1772779dbd62b9da20d36e990577e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 27/32] fix: resolve baseUrl of an extended tsconfig from the
 directory of that file

---
 src/tsconfig.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 5488fff..8905041 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -91,14 +91,21 @@ fn parse_file_to_value(
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extended_by = [extended_by, &[real_location]].concat();
-            let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => {
-                    parse_file_to_value(&info.get_path(), resolver, &extended_by)
-                }
+            let extends_location = match result {
+                ResolveResult::Info(info) => info.get_path(),
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-            }?;
+            };
+            let mut extends_tsconfig_json =
+                parse_file_to_value(&extends_location, resolver, &extended_by)?;
+            // `baseUrl` is relative to the file which contains it
+            if let Some(serde_json::Value::String(base_url)) =
+                extends_tsconfig_json.pointer_mut("/compilerOptions/baseUrl")
+            {
+                let dir = extends_location.parent().unwrap_or(&extends_location);
+                *base_url = dir.join(&base_url).display().to_string();
+            }
             merge(&mut json, extends_tsconfig_json);
         }
     }
-- 
2.43.0


From 7fab8b82d2ef7ba4ebc16f23ea59b790eab544dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 28/32] fix: keep the leading '..' of relative paths when
 normalising them

---
 src/normalize.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..d598f1a 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -29,9 +29,15 @@ impl Resolver {
                     Component::Normal(name) => acc.push(name),
                     Component::RootDir => acc.push("/"),
                     Component::CurDir => {}
-                    Component::ParentDir => {
-                        acc.pop();
-                    }
+                    Component::ParentDir => match acc.components().next_back() {
+                        Some(Component::Normal(_)) => {
+                            acc.pop();
+                        }
+                        // there is nothing above the root
+                        Some(Component::RootDir) => {}
+                        // it is above the start of a relative path
+                        _ => acc.push(".."),
+                    },
                 }
                 acc
             })
-- 
2.43.0


From 9d48319f85dac81fc0541a9e12b92a2a6bf1abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 29/32] fix: the built-in module is called assert/strict

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From aab3ad2292ce93960a3c9e05eb2d8698de1803f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 30/32] fix: '..' in requests and base directories is lexical,
 like in Node.js

---
 src/lib.rs     | 14 ++++++++++++--
 src/resolve.rs |  3 ++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a2944c0..3fc2ebb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,7 +61,7 @@ pub use options::{AliasMap, ResolverOptions};
 use parse::Request;
 use plugin::{AliasFieldPlugin, AliasPlugin, ImportsFieldPlugin, Plugin, PreferRelativePlugin};
 use std::{
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     sync::Arc,
 };
 
@@ -88,11 +88,21 @@ impl ResolveInfo {
     }
 
     pub fn get_path(&self) -> PathBuf {
-        if self.request.target.is_empty() || self.request.target == "." {
+        let path = if self.request.target.is_empty() || self.request.target == "." {
             self.path.to_path_buf()
         } else {
             self.path.join(&*self.request.target)
+        };
+        if !path.components().any(|c| c == Component::ParentDir) {
+            return path;
+        }
+        // `a/..` is where `a` is, even if `a` is a link or does not exist.
+        let mut normalized = Resolver::normalize_path_without_link(&path);
+        if path.ends_with("..") || path.as_os_str().to_string_lossy().ends_with('/') {
+            // it has to be a directory
+            normalized.push("");
         }
+        normalized
     }
 
     pub fn with_path(self, path: PathBuf) -> Self {
diff --git a/src/resolve.rs b/src/resolve.rs
index deac5d6..081cd04 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -89,7 +89,8 @@ impl Resolver {
 
     #[tracing::instrument]
     fn resolve_as_modules_from(&self, info: ResolveInfo, visited: &[PathBuf]) -> ResolverStats {
-        let original_dir = info.path.clone();
+        // the parent of `a/..` is not `a`.
+        let original_dir = Self::normalize_path_without_link(&info.path);
         let module_root_path = original_dir.join(MODULE);
         let stats = if module_root_path.is_dir() {
             let target = &info.request.target;
-- 
2.43.0


From dd464ce4ec63eddf8a32b87a8f1f663f38d68463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 31/32] fix: prefer_relative does not turn absolute requests
 into relative ones

---
 src/plugin/prefer_relative.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index a082fdc..6f3cea2 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,4 +1,4 @@
-use crate::Resolver;
+use crate::{PathKind, Resolver};
 
 use super::{Plugin, ResolveInfo, ResolverStats};
 
@@ -15,7 +15,10 @@ impl<'a> PreferRelativePlugin<'a> {
 
 impl Plugin for PreferRelativePlugin<'_> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        if info.request.target.starts_with("../") || info.request.target.starts_with("./") {
+        if matches!(
+            info.request.kind,
+            PathKind::Relative | PathKind::AbsolutePosix | PathKind::AbsoluteWin
+        ) {
             return ResolverStats::Resolving(info);
         }
 
-- 
2.43.0


From 215965a2107ad6d9291c2afde5bb42b014e34108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 32/32] fix: resolvers that share a cache may differ in the
 name of the description file

---
 src/description.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 2548375..f94ebd4 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -16,6 +16,9 @@ pub struct PkgFileInfo {
     /// The path to the directory where the description file located.
     /// It not a property in package.json.
     pub abs_dir_path: PathBuf,
+    /// The name of the description file, resolvers which share a cache may differ in it.
+    /// It not a property in package.json.
+    pub file_name: String,
     pub name: Option<String>,
     pub version: Option<String>,
     pub alias_fields: IndexMap<String, AliasMap>,
@@ -29,7 +32,8 @@ pub struct PkgFileInfo {
 
 impl Resolver {
     #[tracing::instrument]
-    fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
+    fn parse_description_file(&self, dir: &Path, file_name: &str) -> RResult<PkgFileInfo> {
+        let file_path = dir.join(file_name);
         let (str, last_modified_time) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -129,6 +133,7 @@ impl Resolver {
             name,
             version,
             abs_dir_path: dir.to_path_buf(),
+            file_name: file_name.to_string(),
             alias_fields,
             exports_field_tree,
             imports_field_tree,
@@ -185,7 +190,8 @@ impl Resolver {
             .cache
             .file_dir_to_pkg_info
             .get(path)
-            .and_then(|r#ref| r#ref.clone());
+            .and_then(|r#ref| r#ref.clone())
+            .filter(|pkg_info| pkg_info.file_name.eq(description_file_name));
         if let Some(pkg_info) = cached {
             // if pkg_info_cache contain this key
             if !self
@@ -200,7 +206,7 @@ impl Resolver {
         // pkg_info_cache do **not** contain this key
         // or this file had modified
         let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
+            self.parse_description_file(path, description_file_name)?,
         ));
 
         self.cache
-- 
2.43.0

