From 08459b418ed8fd49c519c5ce757fa58a8612212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 01/41] fix: GenericParameters::getKeys: access the map only
 with its lock held

---
 include/podio/GenericParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..5d6ae5b 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -232,10 +232,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
-- 
2.43.0


From 0de29066cf76086d5a2a7d680d100985b27d3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 02/41] fix: Frame: copy the collection ID table only with the
 lock for insertions held

---
 include/podio/Frame.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..e7598e3 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -134,7 +134,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy, guarding against concurrent insertions
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
-- 
2.43.0


From 70c0ab7473576158811374fa95997e87b3d972ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 03/41] fix: Frame: unpack a collection from the raw data only
 once if several threads get it

The second of two threads that concurrently get the same collection from
raw data found the buffers already taken and got a nullptr. If it was a
bit later, it could also see a collection without its references (and
race with them being set).
---
 include/podio/Frame.h | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index e7598e3..49e2264 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -147,7 +147,9 @@ class Frame {
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
     mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
-    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
+    /// The mutex for guarding the internal collection map. Recursive, because
+    /// unpacking a collection also gets the collections it has relations to
+    mutable std::unique_ptr<std::recursive_mutex> m_mapMtx{nullptr};
     std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
     mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
     podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
@@ -425,7 +427,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::recursive_mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -443,15 +445,17 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 
 template <typename FrameDataT>
 podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
-  {
-    // First check whether the collection is in the map already
-    //
-    // Collections only land here if they are fully unpacked, i.e.
-    // prepareAfterRead has been called or it has been put into the Frame
-    std::lock_guard lock{*m_mapMtx};
-    if (const auto it = m_collections.find(name); it != m_collections.end()) {
-      return it->second.get();
-    }
+  // Hold the lock until the collection and everything it has relations to is
+  // completely unpacked. The raw data hand out the buffers only once, and other
+  // threads must not see the collection before its references are set
+  std::lock_guard mapLock{*m_mapMtx};
+
+  // First check whether the collection is in the map already
+  //
+  // Collections only land here if they are fully unpacked, i.e.
+  // prepareAfterRead has been called or it has been put into the Frame
+  if (const auto it = m_collections.find(name); it != m_collections.end()) {
+    return it->second.get();
   }
 
   podio::CollectionBase* retColl = nullptr;
@@ -480,13 +484,10 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
       coll->prepareAfterRead();
       coll->setID(m_idTable.collectionID(name).value());
-      {
-        std::lock_guard mapLock{*m_mapMtx};
-        auto [it, success] = m_collections.emplace(name, std::move(coll));
-        // TODO: Check success? Or simply assume that everything is fine at this point?
-        // TODO: Collision handling?
-        retColl = it->second.get();
-      }
+      auto [it, success] = m_collections.emplace(name, std::move(coll));
+      // TODO: Check success? Or simply assume that everything is fine at this point?
+      // TODO: Collision handling?
+      retColl = it->second.get();
 
       if (setReferences) {
         retColl->setReferences(this);
-- 
2.43.0


From c7b94ce134cfa42b02658d3685cfad8ea4503e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 04/41] fix: Frame::put: refuse names of collections that are
 still in the raw data

As documented, putting a collection with a name that is already taken
throws. Before, the put collection silently replaced the one from the raw
data, but kept its ID and both were listed as available.
---
 include/podio/Frame.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 49e2264..247e3d2 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -527,7 +528,11 @@ template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
-    std::lock_guard lock{*m_mapMtx};
+    std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+    // Also collections that have not been unpacked yet are part of the Frame
+    if (m_idTable.present(name) && std::ranges::count(m_data->getAvailableCollections(), name)) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
       // TODO: Check whether this collection is already known to the idTable
-- 
2.43.0


From 8fc2403bf7c4df21895a4d248cfffef512dd7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 05/41] fix: SchemaEvolution: do not let auto generated
 functions replace user defined ones

The priority was ignored, so whichever function was registered last won.
---
 include/podio/SchemaEvolution.h | 10 +++++++++-
 src/SchemaEvolution.cc          |  9 +++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..9c4dc71 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -30,10 +30,12 @@ class SchemaEvolution {
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
+  struct EvolutionFuncEntry;
+
   /// Each datatype gets its own version "map" where the index defines the
   /// version from which the schema evolution has to start to end up in the
   /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
+  using EvolFuncVersionMapT = std::vector<EvolutionFuncEntry>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -123,6 +125,12 @@ public:
   static podio::CollectionReadBuffers noOpSchemaEvolution(podio::CollectionReadBuffers&& buffers, SchemaVersionT);
 
 private:
+  /// Helper struct combining an evolution function with its priority
+  struct EvolutionFuncEntry {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
+
   SchemaEvolution() = default;
 
   /// The map containing types and MapIndex structs
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..aca731a 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,9 +62,10 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  auto& entry = versionMap[fromVersion - 1];
+  // Auto generated functions must not override user defined ones
+  if (priority == Priority::UserDefined || entry.priority != Priority::UserDefined) {
+    entry = {evolutionFunc, priority};
   }
 }
 
-- 
2.43.0


From 3060fad31626ee49ce1d6ab33733ca8fe9dd1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 06/41] fix: schema evolution: accept several known renames of
 members with the same type

All pairs of dropped and added members of the same type were checked for
renames one after the other, such that also the pairs that mix two known
renames were reported as potential ones.
---
 python/podio_schema_evolution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..1fd4082 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -283,6 +283,8 @@ class SchemaEvolutionJudge:
                 and (schema_change.klassname == dropped_member.klassname)
                 and (schema_change.member_name_old == dropped_member.member.name)
                 and (schema_change.member_name_new == added_member.member.name)
+                and dropped_member in schema_changes
+                and added_member in schema_changes
             ):
                 # remove the dropping/adding from the schema changes
                 # and replace it by the rename
@@ -316,6 +318,7 @@ class SchemaEvolutionJudge:
         same_type_adds_drops = self.filter_types_with_adds_and_drops(
             added_members, dropped_members
         )
+        unhandled = []
         for added_member, dropped_member in same_type_adds_drops:
             if (
                 self.check_rename(
@@ -323,6 +326,11 @@ class SchemaEvolutionJudge:
                 )
                 == self.RenameResult.UNHANDLED
             ):
+                unhandled.append((added_member, dropped_member))
+
+        for added_member, dropped_member in unhandled:
+            # Members with a known rename cannot be part of yet another one
+            if added_member in schema_changes and dropped_member in schema_changes:
                 warnings.append(
                     f"Definition '{dropped_member.klassname}' has a potential "
                     f"rename: '{dropped_member.member.name}' -> "
-- 
2.43.0


From e9a4e95b77c440d57bb3f44b5e8bcb13ad84a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 07/41] fix: schema evolution: make renamed datatypes readable
 from all old versions

Only the buffers of the first of the old schema versions were registered with
the new name.
---
 python/podio_gen/cpp_generator.py     | 19 +++++++++----------
 python/templates/Collection.cc.jinja2 |  4 +++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..0a04c88 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -627,16 +627,15 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """Generate code for datatypes that have been renamed, so that their old
         versioned data classes are available in the new dictionary for ROOT"""
         for name, changes in self.changed_datatypes.items():
-            for change in changes:
-                if isinstance(change["schema_change"], RenamedDataType):
-                    old_def = change["definition"].copy()
-                    old_def["renamed_to"] = change["schema_change"].name_new
-                    old_def["renamed_to_collection"] = (
-                        str(DataType(change["schema_change"].name_new)) + "Collection"
-                    )
-                    old_def["renamed_from_version"] = change["version"]
-                    self._process_datatype(name, old_def)
-                    break
+            renames = [c for c in changes if isinstance(c["schema_change"], RenamedDataType)]
+            if not renames:
+                continue
+            old_def = renames[0]["definition"].copy()
+            new_name = renames[0]["schema_change"].name_new
+            old_def["renamed_to"] = new_name
+            old_def["renamed_to_collection"] = str(DataType(new_name)) + "Collection"
+            old_def["renamed_from_versions"] = [c["version"] for c in renames]
+            self._process_datatype(name, old_def)
 
     def _generate_component_code(self, component, old_comp_versions):
         """Generate the component code for a given component definition and old
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..92ba447 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -223,12 +223,14 @@ bool register{{ class.bare_type }}Collection() {
 {% endif %}
 {% if renamed_to_collection is defined %}
     // Schema Evolution for renamed datatypes: register old type buffers as new type
+{% for renamed_from_version in renamed_from_versions %}
     factory.registerCreationFunc("{{ class.full_type }}Collection", {{ renamed_from_version }},
       [](bool isSubset) {
         return *podio::CollectionBufferFactory::instance().createBuffers(
-           "{{ renamed_to_collection }}", 1, isSubset);
+           "{{ renamed_to_collection }}", {{ renamed_from_version }}, isSubset);
       }
     );
+{% endfor %}
 {% endif %}
 
     return true;
-- 
2.43.0


From f2c154d3dca54f2307f8d8c88df989be33119eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 08/41] fix: schema evolution: use the registered name of
 renamed datatypes in namespaces

The string representation has leading colons, so that the buffers of the new
type were not found and an empty optional was dereferenced.
---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 0a04c88..1ff053c 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -633,7 +633,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             old_def = renames[0]["definition"].copy()
             new_name = renames[0]["schema_change"].name_new
             old_def["renamed_to"] = new_name
-            old_def["renamed_to_collection"] = str(DataType(new_name)) + "Collection"
+            old_def["renamed_to_collection"] = f"{DataType(new_name).full_type}Collection"
             old_def["renamed_from_versions"] = [c["version"] for c in renames]
             self._process_datatype(name, old_def)
 
-- 
2.43.0


From 0a51eec9b24a89194ac98b621b0a41a977845c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 09/41] fix: templates: use get syntax for declarations of
 exposed component members

With getSyntax and exposePODMembers the declarations did not match the
definitions and the generated code did not compile.
---
 python/templates/macros/declarations.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 75058f5..06e6a32 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -17,7 +17,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const;
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const;
 {% endfor %}
 {% endif %}
 
@@ -43,7 +43,7 @@
   /// Get reference to the member of {{ member.docstring }}
   {{ sub_member.full_type }}& {{ sub_member.name }}();
   /// Set the member of  {{ member.docstring }}
-  void {{ sub_member.setter_name(get_sytnax) }}({{ sub_member.full_type }} value);
+  void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% endif %}
 {% endfor %}
 {% endif %}
-- 
2.43.0


From 6852834a2ae16c55379b21d03cd3dab3ecd47090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 10/41] fix: schema evolution: use old versions of components
 in old versions of components

Also include the headers that only old versions need.
---
 python/podio_gen/cpp_generator.py   | 2 +-
 python/templates/Component.h.jinja2 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 1ff053c..cb4da8c 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -642,13 +642,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         versions of it"""
         includes = set(self._get_member_includes(component["Members"]))
         includes.update(component.get("ExtraCode", {}).get("includes", "").split("\n"))
-        component["includes"] = self._sort_includes(includes)
 
         # Add old versions **even if they are identical**
         component["old_versions"] = old_comp_versions
         # update includes if necessary
         for old_comp in old_comp_versions:
             includes.update(self._get_member_includes(old_comp["definition"]["Members"]))
+        component["includes"] = self._sort_includes(includes)
 
         self._fill_templates("Component", component)
 
diff --git a/python/templates/Component.h.jinja2 b/python/templates/Component.h.jinja2
index 19a9e7b..7d044e0 100644
--- a/python/templates/Component.h.jinja2
+++ b/python/templates/Component.h.jinja2
@@ -49,7 +49,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }} {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member }}
+  {{ member.qualified_as_version(old_version.version) }}
 {% endfor %}
 };
 
-- 
2.43.0


From 17c5d4812b817500f2ecbb83faa11c72b7c03314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 11/41] fix: cpp_generator: do not drop includes that are not
 in the package subfolder

---
 python/podio_gen/cpp_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index cb4da8c..b11ab6e 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -1074,7 +1074,9 @@ have resolvable schema evolution incompatibilities:"
             elif self.upstream_edm and self.upstream_edm.options["includeSubfolder"] in include:
                 upstream_includes.append(include)
             else:
-                print(f"Warning: unable to include '{include}'")
+                # Without a subfolder there is nothing to tell headers of this
+                # datamodel or from ExtraCode apart
+                package_includes.append(include)
 
         package_includes.sort()
         podio_includes.sort()
-- 
2.43.0


From 6790cef1efec20d90e0a9673b431021f041f6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 12/41] fix: cpp_generator: accept relations to interfaces of
 the upstream datamodel

---
 python/podio_gen/cpp_generator.py  | 8 ++++++--
 python/podio_gen/generator_base.py | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index b11ab6e..58a089c 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -440,7 +440,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 fwd_declarations[relation.namespace].append(relation.bare_type)
                 fwd_declarations[relation.namespace].append(f"Mutable{relation.bare_type}")
@@ -452,7 +454,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToManyRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 includes.add(self._build_include(relation))
 
diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index e70b5fc..9c6c9d5 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -323,3 +323,11 @@ class ClassGeneratorBaseMixin:
                 getattr(self.upstream_edm, category)
             )
         return classname in all_classes
+
+    def _get_definition(self, classname, category):
+        """Get the definition of classname in the category, from this datamodel or
+        from the upstream datamodel"""
+        definitions = getattr(self.datamodel, category)
+        if classname not in definitions and self.upstream_edm:
+            definitions = getattr(self.upstream_edm, category)
+        return definitions[classname]
-- 
2.43.0


From 4919e7aabf924de0abe2e6bbdb1c8c22955c8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 13/41] fix: generator: expose the members of components of the
 upstream datamodel

---
 python/podio_gen/cpp_generator.py       | 4 +++-
 python/podio_gen/podio_config_reader.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 58a089c..6387ff0 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -436,7 +436,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                member.sub_members = self._get_definition(member.full_type, "components")[
+                    "Members"
+                ]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..c699e35 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -317,7 +317,11 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                if member.full_type in datamodel.components:
+                    component = datamodel.components[member.full_type]
+                else:
+                    component = upstream_edm.components[member.full_type]
+                for sub_member in component["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From 67248a55dabe9097ae4f9976841344a543f767ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 14/41] fix: schema evolution: report potential renames of
 components instead of failing

---
 python/podio_schema_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 1fd4082..d2db9ce 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -450,7 +450,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From c0a44326ae4ea23262901603a4418e74122b1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 15/41] fix: schema evolution: rename each datatype at most
 once and prefer the declared renames

---
 python/podio_schema_evolution.py | 42 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index d2db9ce..76610e9 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -417,25 +417,29 @@ class SchemaEvolutionJudge:
                     sig.add((member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        # Every datatype can be part of at most one rename and the known ones
+        # take precedence
+        known_renames = {
+            (change.name_old, change.name_new): change
+            for change in read_schema_changes
+            if isinstance(change, RenamedDataType)
+        }
+        rename_candidates = [
+            (dropped, added)
+            for dropped in dropped_datatypes
+            for added in added_datatypes
+            if _member_signature(dropped.datatype) == _member_signature(added.datatype)
+        ]
+        rename_candidates.sort(
+            key=lambda pair: (pair[0].klassname, pair[1].klassname) not in known_renames
+        )
+
+        for dropped, added in rename_candidates:
+            if dropped in schema_changes and added in schema_changes:
+                names = (dropped.klassname, added.klassname)
+                schema_changes.remove(dropped)
+                schema_changes.remove(added)
+                schema_changes.append(known_renames.get(names, RenamedDataType(*names)))
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
-- 
2.43.0


From 512535609580e382bfe417c060d9b4e3932c91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 16/41] fix: schema evolution: detect all unsupported type
 changes from and to components

---
 python/podio_schema_evolution.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 76610e9..038dce5 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -372,6 +372,10 @@ class SchemaEvolutionJudge:
         for change in (c for c in schema_changes if isinstance(c, self.unsupported_changes)):
             errors.append(f"Unsupported schema change: {change}")
 
+        def _element_type(member):
+            """Get the type of the member or the type of its elements for arrays"""
+            return member.array_type if member.is_array else member.full_type
+
         # are the member changes actually supported/supportable?
         changed_members = [
             change for change in schema_changes if isinstance(change, ChangedMemberType)
@@ -384,8 +388,11 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from or to a (different) component type is forbidden
+            elif _element_type(change.old_member) != _element_type(change.new_member) and (
+                _element_type(change.old_member) in old_datamodel.components
+                or _element_type(change.new_member) in self.datamodel_new.components
+            ):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From 888c97f01b732d173513cfc6c6d666cd41eba318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 17/41] fix: member definitions: do not mix up default values
 and comments, reject unknown leftovers

---
 python/podio_gen/podio_config_reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index c699e35..580295b 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -47,8 +47,10 @@ class MemberParser:
     array_str = rf" *std::array *< *{type_str} *, *([0-9]+) *>"
 
     # Default values can be anything that in curly braces, but not the empty
-    # default initialization, since that is what we generate in any case
-    def_val_str = r"(?:{(.+)})?"
+    # default initialization, since that is what we generate in any case. Stop at
+    # the first closing brace after which the rest of the definition is valid, as
+    # the comment can contain braces as well
+    def_val_str = r"(?:{(.+?)})?"
 
     array_re = re.compile(array_str)
     full_array_re = re.compile(
@@ -56,9 +58,10 @@ class MemberParser:
     )
     member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *{comment_str}")
 
-    # For cases where we don't require a description
-    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}")
-    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}")
+    # For cases where we don't require a description. Since there is no comment
+    # nothing else is allowed to follow
+    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}\s*$")
+    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}\s*$")
 
     @staticmethod
     def _parse_with_regexps(string, regexps_callbacks):
-- 
2.43.0


From b2eea30c8961e9cceef514dd399e9a725d2cb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 18/41] fix: keep empty descriptions in the JSON representation
 of the datamodel

---
 python/podio_gen/generator_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 327a158..65ce5d3 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -158,7 +158,8 @@ class MemberVariable:
     def __init__(self, name, **kwargs):
         self.name = name
         self.full_type = kwargs.pop("type", "")
-        self.description = kwargs.pop("description", "")
+        # None if there is no description, which is different from an empty one
+        self.description = kwargs.pop("description", None)
         self.default_val = kwargs.pop("default_val", None)
         self.unit = kwargs.pop("unit", None)
         self.is_builtin = False
@@ -221,10 +222,9 @@ class MemberVariable:
     @property
     def docstring(self):
         """Docstring to be used in code generation"""
+        docstring = self.description or ""
         if self.unit is not None:
-            docstring = rf"{self.description} [{self.unit}]"
-        else:
-            docstring = self.description
+            docstring = rf"{docstring} [{self.unit}]"
         return docstring
 
     def __str__(self):
@@ -331,7 +331,7 @@ class MemberVariable:
         # The __str__ method is geared towards c++ too much, so we have to build
         # things again here from available information
         def_val = f"{{{self.default_val}}}" if self.default_val else ""
-        description = f" // {self.description}" if self.description else ""
+        description = f" // {self.description}" if self.description is not None else ""
         unit = f"[{self.unit}]" if self.unit else ""
         return f"{self.full_type} {self.name}{def_val}{unit}{description}"
 
-- 
2.43.0


From c6b166c7b708bdfca01e56da8ee7f230327734f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 19/41] fix: do not take types with names that start like a
 fixed width integer for one

---
 python/podio_gen/generator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 65ce5d3..7b64b0c 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -120,7 +120,7 @@ def _is_fixed_width_type(type_name):
     if type_name.startswith("std::"):
         type_name = type_name[5:]
 
-    if ALL_FIXED_WIDTH_TYPES_RGX.match(type_name):
+    if ALL_FIXED_WIDTH_TYPES_RGX.fullmatch(type_name):
         if type_name not in ALLOWED_FIXED_WIDTH_TYPES:
             raise DefinitionError(f"{type_name} is a fixed width integer type that is not allowed")
         return True
-- 
2.43.0


From 6cb300a18cdbfb61514b32e6dc69929c7a30b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 20/41] fix: add the missing julia type for unsigned

---
 python/podio_gen/generator_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 7b64b0c..1fa77c1 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -40,6 +40,7 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
         "bool": "Bool",
         "long": "Int64",
         "unsigned int": "UInt32",
+        "unsigned": "UInt32",
         "unsigned long": "UInt64",
         "char": "Char",
         "short": "Int16",
-- 
2.43.0


From 10b9cc634d7299311b0769668079c0c76fccf69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 21/41] fix: cpp_generator: include the types of relations with
 the same name in another namespace

---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 6387ff0..5805c6c 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -525,7 +525,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         includes_cc, includes = set(), set()
 
         for relation in datatype["OneToManyRelations"] + datatype["OneToOneRelations"]:
-            if datatype["class"].bare_type != relation.bare_type:
+            if datatype["class"].full_type != relation.full_type:
                 include_from = self._needs_include(relation.full_type)
                 if self._is_in(relation.full_type, "interfaces"):
                     includes_cc.add(
-- 
2.43.0


From c2574acab48a964f5937c72ef1b5a587835af521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 22/41] fix: cpp_generator: accept old versions of datamodels
 that use types of an upstream datamodel

---
 python/podio_gen/cpp_generator.py   | 17 +++++++++++++++--
 python/podio_gen/generator_utils.py |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 5805c6c..b15cd11 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -612,6 +612,12 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             for name, datatype_def in old_model.datatypes.items():
                 self.old_datatypes[name].append({"version": version, "definition": datatype_def})
 
+            # Components of the upstream datamodel do not have this version
+            for definition in (*old_model.components.values(), *old_model.datatypes.values()):
+                for member in definition["Members"]:
+                    member_type = member.array_type if member.is_array else member.full_type
+                    member.is_versioned = member_type in old_model.components
+
     def _identify_dropped_components(self):
         """Identify components that have been dropped
 
@@ -669,13 +675,20 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         reader = PodioConfigReader()
         # Read the current model again into a "new" namespace to have it more
         # easily discerned from the "old" model
-        datamodel_new = reader.read(self.yamlfile, package_name="new")
+        datamodel_new = reader.read(
+            self.yamlfile, package_name="new", upstream_edm=self.upstream_edm
+        )
         comparator = DataModelComparator(datamodel_new)
         judge = SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)
 
         # Process each old schema version
         for old_yamlfile in self.old_yamlfiles:
-            datamodel_old = reader.read(old_yamlfile, package_name="old", ignore_extracode=True)
+            datamodel_old = reader.read(
+                old_yamlfile,
+                package_name="old",
+                upstream_edm=self.upstream_edm,
+                ignore_extracode=True,
+            )
             detected_changes = comparator.compare(datamodel_old)
             comparison_results = judge.judge(datamodel_old, detected_changes)
 
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 1fa77c1..005b010 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -166,6 +166,8 @@ class MemberVariable:
         self.is_builtin = False
         self.is_builtin_array = False
         self.is_array = False
+        # False for components that are not part of the (old) datamodel version
+        self.is_versioned = True
         # ensure that this will break somewhere if requested but not set
         self.namespace, self.bare_type = None, None
         self.julia_type = None
@@ -260,7 +262,7 @@ class MemberVariable:
         Only applies in case the member is a component, as builtin variables are
         considered not versionable
         """
-        if self.is_builtin:
+        if self.is_builtin or not self.is_versioned:
             return str(self)
 
         if self.is_array:
-- 
2.43.0


From b5c937ce478a3fc103e2835707d40f9f0bbbda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 23/41] fix: schema evolution: detect unsupported type changes
 from and to components of upstream datamodels

---
 python/podio_gen/cpp_generator.py |  6 +++++-
 python/podio_schema_evolution.py  | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index b15cd11..0cff9f7 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -679,7 +679,11 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             self.yamlfile, package_name="new", upstream_edm=self.upstream_edm
         )
         comparator = DataModelComparator(datamodel_new)
-        judge = SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)
+        judge = SchemaEvolutionJudge(
+            comparator.datamodel_new,
+            evolution_file=self.evolution_file,
+            upstream_edm=self.upstream_edm,
+        )
 
         # Process each old schema version
         for old_yamlfile in self.old_yamlfiles:
diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 038dce5..e8f92cd 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -246,8 +246,9 @@ class SchemaEvolutionJudge:
         HANDLED = 1
         UNHANDLED = 2
 
-    def __init__(self, new_datamodel, evolution_file=None):
+    def __init__(self, new_datamodel, evolution_file=None, upstream_edm=None):
         self.datamodel_new = new_datamodel
+        self.upstream_components = upstream_edm.components if upstream_edm else {}
         self.evolution_file = evolution_file
         self.read_schema_changes = []
 
@@ -376,6 +377,10 @@ class SchemaEvolutionJudge:
             """Get the type of the member or the type of its elements for arrays"""
             return member.array_type if member.is_array else member.full_type
 
+        def _is_component(type_name, datamodel):
+            """Whether the type is a component of the datamodel or of the upstream one"""
+            return type_name in datamodel.components or type_name in self.upstream_components
+
         # are the member changes actually supported/supportable?
         changed_members = [
             change for change in schema_changes if isinstance(change, ChangedMemberType)
@@ -390,8 +395,8 @@ class SchemaEvolutionJudge:
                 )
             # changing from or to a (different) component type is forbidden
             elif _element_type(change.old_member) != _element_type(change.new_member) and (
-                _element_type(change.old_member) in old_datamodel.components
-                or _element_type(change.new_member) in self.datamodel_new.components
+                _is_component(_element_type(change.old_member), old_datamodel)
+                or _is_component(_element_type(change.new_member), self.datamodel_new)
             ):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
-- 
2.43.0


From c8e703160f65166aacf3cb220e68a594f088cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 24/41] fix: schema evolution: do not take datatypes with
 different kinds of members for renamed

---
 python/podio_schema_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index e8f92cd..e3c27a0 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -422,11 +422,11 @@ class SchemaEvolutionJudge:
         )
 
         def _member_signature(datatype_definition):
-            """Build a set of (name, full_type) tuples for all member fields of a datatype"""
+            """Build a set of (field, name, full_type) tuples for all members of a datatype"""
             sig = set()
             for field in _MEMBER_FIELDS:
                 for member in datatype_definition.get(field, []):
-                    sig.add((member.name, member.full_type))
+                    sig.add((field, member.name, member.full_type))
             return sig
 
         # Every datatype can be part of at most one rename and the known ones
-- 
2.43.0


From b6c0c3221cf9bff4ac4307e4af9e0a2511802c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 25/41] fix: use the julia types of all fixed width integers in
 arrays

---
 python/podio_gen/generator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 005b010..3aa6dbe 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -62,10 +62,11 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
             return cpp_type
 
     else:
+        is_builtin = array_type in builtin_types_map or _is_fixed_width_type(array_type)
         array_type = get_julia_type(array_type)
         if "::" in array_type:
             array_type = array_type.split("::")[1]
-        if array_type not in builtin_types_map.values():
+        if not is_builtin:
             array_type = array_type + "Struct"
         return f"MVector{{{array_size}, {array_type}}}"
 
-- 
2.43.0


From 68d1beafcc2d64bb5cdcd489cff7b983ead47ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 26/41] fix: julia_generator: include structs after those in
 their arrays and ignore upstream types

---
 python/podio_gen/julia_generator.py | 32 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..6278552 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -103,30 +103,24 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         """
         # Create a dictionary to store dependencies
         dependencies = {}
-        bare_types_mapping = {}
+        bare_types_mapping = {
+            component_data["class"].full_type: component_data["class"].bare_type
+            for component_data in data
+        }
 
         for component_data in data:
             full_type = component_data["class"].full_type
-            bare_type = component_data["class"].bare_type
-            bare_types_mapping[full_type] = bare_type
             dependencies[full_type] = set()
 
-            # Check dependencies in 'Members'
-            if "Members" in component_data:
-                for member_data in component_data["Members"]:
-                    member_full_type = member_data.full_type
-                    if not member_data.is_builtin and not member_data.is_builtin_array:
-                        dependencies[full_type].add(member_full_type)
-
-            # Check dependencies in 'VectorMembers'
-            if "VectorMembers" in component_data:
-                for vector_member_data in component_data["VectorMembers"]:
-                    vector_member_full_type = vector_member_data.full_type
-                    if (
-                        not vector_member_data.is_builtin
-                        and not vector_member_data.is_builtin_array
-                    ):
-                        dependencies[full_type].add(vector_member_full_type)
+            # Check dependencies in 'Members' and 'VectorMembers'. Everything that is
+            # not in the data is either builtin or comes from the upstream datamodel
+            for category in ("Members", "VectorMembers"):
+                for member_data in component_data.get(category, []):
+                    member_type = (
+                        member_data.array_type if member_data.is_array else member_data.full_type
+                    )
+                    if member_type in bare_types_mapping:
+                        dependencies[full_type].add(member_type)
 
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
-- 
2.43.0


From 36b39c86f2a16ac9056a4cdd7154b5e95a456c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 27/41] fix: julia_generator: leave out all datatypes that need
 interfaces via other datatypes

---
 python/podio_gen/julia_generator.py | 34 +++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index 6278552..e17221a 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -17,6 +17,11 @@ REPORT_TEXT_JULIA = """
 class JuliaClassGenerator(ClassGeneratorBaseMixin):
     """The julia class / code generator for podio"""
 
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        # Julia does not support interfaces, populated by pre_process
+        self.unsupported_types = set()
+
     def print_report(self):
         """Print a summary of the generated code"""
         nfiles = len(self.datamodel.datatypes) + len(self.datamodel.components) + 1
@@ -30,6 +35,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
     def pre_process(self):
         """The necessary specific pre-processing for julia code generation"""
+        self.unsupported_types = self._get_unsupported_types()
         datamodel = {}
         datamodel["class"] = DataType(self.package_name.capitalize())
         datamodel["upstream_edm"] = self.upstream_edm
@@ -55,10 +61,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
     def do_process_datatype(self, _, datatype):
         """Do the julia specific processing for a datatype"""
-        if any(
-            self._is_in(r.full_type, "interfaces")
-            for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
-        ):
+        if datatype["class"].full_type in self.unsupported_types:
             # Julia doesn't support any interfaces yet, so we have to also sort out
             # all the datatypes that use them
             return None
@@ -78,6 +81,29 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         """Julia does not support link types yet, so this does nothing"""
         return None
 
+    def _get_unsupported_types(self):
+        """Get all interfaces and all datatypes that use them, either directly or
+        via other datatypes"""
+        unsupported_types = set(self.datamodel.interfaces)
+        datatypes = dict(self.datamodel.datatypes)
+        if self.upstream_edm:
+            unsupported_types.update(self.upstream_edm.interfaces)
+            datatypes.update(self.upstream_edm.datatypes)
+
+        while True:
+            using_types = {
+                name
+                for name, datatype in datatypes.items()
+                if name not in unsupported_types
+                and any(
+                    r.full_type in unsupported_types
+                    for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
+                )
+            }
+            if not using_types:
+                return unsupported_types
+            unsupported_types.update(using_types)
+
     def get_upstream_name(self):
         """Get the name of the upstream datamodel if any"""
         if self.upstream_edm:
-- 
2.43.0


From 75848a911d95bdc8a943be0e2c3e7ea83d024b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 28/41] fix: Let makeWriter use the SIO writer for .sio files
 whatever the type says

---
 src/Writer.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Writer.cc b/src/Writer.cc
index 84bd82a..e98bf61 100644
--- a/src/Writer.cc
+++ b/src/Writer.cc
@@ -32,19 +32,20 @@ Writer makeWriter(const std::string& filename, const std::string& type) {
     defaultTypeRNTuple = true;
   }
 
-  if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
+  if (endsWith(filename, ".sio")) {
+    // The type only distinguishes between the ROOT based backends
+#if PODIO_ENABLE_SIO
+    return Writer{std::make_unique<SIOWriter>(filename)};
+#else
+    throw std::runtime_error("SIO writer not available. Please recompile with SIO support.");
+#endif
+  } else if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
     return Writer{std::make_unique<ROOTWriter>(filename)};
   } else if ((type == "default" && defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "rntuple") {
 #if PODIO_ENABLE_RNTUPLE
     return Writer{std::make_unique<RNTupleWriter>(filename)};
 #else
     throw std::runtime_error("ROOT RNTuple writer not available. Please recompile with ROOT RNTuple support.");
-#endif
-  } else if (endsWith(filename, ".sio")) {
-#if PODIO_ENABLE_SIO
-    return Writer{std::make_unique<SIOWriter>(filename)};
-#else
-    throw std::runtime_error("SIO writer not available. Please recompile with SIO support.");
 #endif
   }
   throw std::runtime_error("Unknown file type for file " + filename + " with type " + type);
-- 
2.43.0


From 4cafc69e4024a157a15d0bef6b26f575052f4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 29/41] fix: Protect print, empty and clear of the
 GenericParameters against concurrent changes

---
 include/podio/GenericParameters.h | 2 ++
 src/GenericParameters.cc          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index 5d6ae5b..aca8270 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -107,6 +107,7 @@ public:
 
   /// erase all elements
   void clear() {
+    std::scoped_lock lock(getMutex<int>(), getMutex<float>(), getMutex<double>(), getMutex<std::string>());
     _intMap.clear();
     _floatMap.clear();
     _doubleMap.clear();
@@ -117,6 +118,7 @@ public:
 
   /// Check if no parameter is stored (i.e. if all internal maps are empty)
   bool empty() const {
+    std::scoped_lock lock(getMutex<int>(), getMutex<float>(), getMutex<double>(), getMutex<std::string>());
     return _intMap.empty() && _floatMap.empty() && _doubleMap.empty() && _stringMap.empty();
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..8469fe0 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -45,6 +45,8 @@ void printMap(const MapType& map, std::ostream& os) {
 }
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
+  // Keep all the maps unchanged until everything is printed
+  std::scoped_lock lock(getMutex<int>(), getMutex<float>(), getMutex<double>(), getMutex<std::string>());
   os << "int parameters\n\n";
   printMap(getMap<int>(), os);
   os << "\nfloat parameters\n";
-- 
2.43.0


From 761a4fab56deeb1ca1f18dee293660362ea5599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 30/41] fix: Keep the list of generated files as it is in a dry
 run

---
 python/podio_gen/cpp_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 0cff9f7..cb67459 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -176,7 +176,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         if the_links := datamodel["links"]:
             self._write_links_registration_file(the_links)
         self._write_all_collections_header()
-        self._write_cmake_lists_file()
+        if not self.dryrun:
+            self._write_cmake_lists_file()
 
     def do_process_component(self, name, component):
         """Handle everything cpp specific after the common processing of a component"""
-- 
2.43.0


From a026613c44b880379ca88f69e89e2136f1d046dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 31/41] fix: There is no schema version 0, do not look for its
 functions before those of version 1

---
 src/CollectionBufferFactory.cc | 2 +-
 src/SchemaEvolution.cc         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index aca731a..82f3df0 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
-- 
2.43.0


From 3ecf286bbceca94c6466232fdc7869315b5f9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 32/41] fix: ROOTLegacyReader: use schema version 1 for files
 without a description of the collections

---
 src/rootUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rootUtils.h b/src/rootUtils.h
index 12e31d9..2f322c0 100644
--- a/src/rootUtils.h
+++ b/src/rootUtils.h
@@ -298,8 +298,8 @@ inline auto reconstructCollectionInfo(TTree* eventTree, podio::CollectionIDTable
       std::string_view dataClass = bufferClassName;
       dataClass.remove_suffix(5);
       const auto collClass = std::string(dataClass.substr(7)) + "Collection";
-      // Assume that there are no subset collections in "old files" and schema is 0
-      collInfo.emplace_back(collID, std::move(collClass), false, 0);
+      // Assume that there are no subset collections in "old files" and schema is 1
+      collInfo.emplace_back(collID, std::move(collClass), false, 1u);
     } else {
       std::cerr << "Problems reconstructing collection info for collection: \'" << name << "\'\n";
     }
-- 
2.43.0


From 106bb7cdf0b10f3fcb01d9ca43bf353e9789103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 33/41] fix: ROOTLegacyReader: read any entry of any file and
 nothing beyond the last entry

---
 include/podio/ROOTLegacyReader.h |  3 ++-
 src/ROOTLegacyReader.cc          | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/podio/ROOTLegacyReader.h b/include/podio/ROOTLegacyReader.h
index 77a9438..8abc3a8 100644
--- a/include/podio/ROOTLegacyReader.h
+++ b/include/podio/ROOTLegacyReader.h
@@ -120,7 +120,8 @@ private:
 
   podio::GenericParameters readEventMetaData();
 
-  podio::CollectionReadBuffers getCollectionBuffers(const std::pair<std::string, detail::CollectionInfo>& collInfo);
+  podio::CollectionReadBuffers getCollectionBuffers(const std::pair<std::string, detail::CollectionInfo>& collInfo,
+                                                  bool reloadBranches, unsigned localEntry);
 
   std::unique_ptr<podio::ROOTFrameData> readEntry();
 
diff --git a/src/ROOTLegacyReader.cc b/src/ROOTLegacyReader.cc
index 50ebd8d..6ec839e 100644
--- a/src/ROOTLegacyReader.cc
+++ b/src/ROOTLegacyReader.cc
@@ -34,9 +34,21 @@ std::unique_ptr<podio::ROOTFrameData> ROOTLegacyReader::readEntry(std::string_vi
 }
 
 std::unique_ptr<podio::ROOTFrameData> ROOTLegacyReader::readEntry() {
+  if (m_eventNumber >= m_chain->GetEntries()) {
+    return nullptr;
+  }
+
+  // After switching trees in the chain, branch pointers get invalidated so
+  // they need to be reassigned.
+  // NOTE: root 6.22/06 requires that we get completely new branches here,
+  // with 6.20/04 we could just re-set them
+  const auto preTreeNo = m_chain->GetTreeNumber();
+  const auto localEntry = m_chain->LoadTree(m_eventNumber);
+  const auto reloadBranches = m_chain->GetTreeNumber() != preTreeNo || localEntry == 0;
+
   ROOTFrameData::BufferMap buffers;
   for (const auto& collInfo : m_storedClasses) {
-    buffers.emplace(collInfo.first, getCollectionBuffers(collInfo));
+    buffers.emplace(collInfo.first, getCollectionBuffers(collInfo, reloadBranches, localEntry));
   }
 
   auto parameters = readEventMetaData();
@@ -46,7 +58,8 @@ std::unique_ptr<podio::ROOTFrameData> ROOTLegacyReader::readEntry() {
 }
 
 podio::CollectionReadBuffers
-ROOTLegacyReader::getCollectionBuffers(const std::pair<std::string, detail::CollectionInfo>& collInfo) {
+ROOTLegacyReader::getCollectionBuffers(const std::pair<std::string, detail::CollectionInfo>& collInfo,
+                                       bool reloadBranches, unsigned localEntry) {
   const auto& name = collInfo.first;
   const auto& [collType, isSubsetColl, schemaVersion, index] = collInfo.second;
   auto& branches = m_collectionBranches[index];
@@ -57,12 +70,7 @@ ROOTLegacyReader::getCollectionBuffers(const std::pair<std::string, detail::Coll
   // TODO: Error handling of empty optional
   auto collBuffers = std::move(maybeBuffers).value_or(podio::CollectionReadBuffers{});
 
-  const auto localEntry = m_chain->LoadTree(m_eventNumber);
-  // After switching trees in the chain, branch pointers get invalidated so
-  // they need to be reassigned.
-  // NOTE: root 6.22/06 requires that we get completely new branches here,
-  // with 6.20/04 we could just re-set them
-  if (localEntry == 0) {
+  if (reloadBranches) {
     branches.data = root_utils::getBranch(m_chain.get(), name.c_str());
 
     // reference collections
-- 
2.43.0


From 59f8fac2b0ee0f607206e4d64c5aceff9fc5d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 34/41] fix: ROOT backends: compare the names of collections
 exactly

---
 src/rootUtils.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/rootUtils.h b/src/rootUtils.h
index 2f322c0..d29e29c 100644
--- a/src/rootUtils.h
+++ b/src/rootUtils.h
@@ -326,16 +326,9 @@ inline bool checkConsistentColls(const std::vector<root_utils::CollectionWriteIn
     sortedCollNames.emplace_back(elem.name);
   }
 
-  const auto comp = [](const auto& lhs, const auto& rhs) {
-    return std::lexicographical_compare(
-        lhs.begin(), lhs.end(), rhs.begin(), rhs.end(),
-        [](const auto cl, const auto cr) { return std::tolower(cl) < std::tolower(cr); });
-  };
-
-  std::ranges::sort(sortedCollNames, comp);
-
+  std::ranges::sort(sortedCollNames);
   for (const auto& name : candidateColls) {
-    if (!std::ranges::binary_search(sortedCollNames, name, comp)) {
+    if (!std::ranges::binary_search(sortedCollNames, name)) {
       return false;
     }
   }
-- 
2.43.0


From 94a06fcdc481cfcdf7662ef664f3f10bbedbb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 35/41] fix: ROOTWriter: create the tree of a category only for
 a frame that can be written

---
 src/ROOTWriter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ROOTWriter.cc b/src/ROOTWriter.cc
index 146a016..99222b4 100644
--- a/src/ROOTWriter.cc
+++ b/src/ROOTWriter.cc
@@ -29,10 +29,9 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
   auto& catInfo = getCategoryInfo(category);
   // Use the TTree as proxy here to decide whether this category has already
   // been initialized
-  if (catInfo.tree == nullptr) {
+  const bool newCategory = catInfo.tree == nullptr;
+  if (newCategory) {
     catInfo.collsToWrite = podio::utils::sortAlphabeticaly(collsToWrite);
-    catInfo.tree = new TTree(category.data(), (std::string(category) + " data tree").c_str());
-    catInfo.tree->SetDirectory(&m_file);
   }
 
   std::vector<root_utils::StoreCollection> collections;
@@ -48,6 +47,13 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
     collections.emplace_back(name, const_cast<podio::CollectionBase*>(coll));
   }
 
+  // Only create the TTree once it is clear that there is something to write
+  if (newCategory) {
+    const auto treeName = std::string(category);
+    catInfo.tree = new TTree(treeName.c_str(), (treeName + " data tree").c_str());
+    catInfo.tree->SetDirectory(&m_file);
+  }
+
   // We will at least have a parameters branch, even if there are no
   // collections
   if (catInfo.branches.empty()) {
-- 
2.43.0


From 19c6c586861865e2eb148bd7cc738553c8330995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 36/41] fix: RNTupleReader: do not keep references to the
 category names of the caller

---
 src/RNTupleReader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/RNTupleReader.cc b/src/RNTupleReader.cc
index f30149f..c786f8c 100644
--- a/src/RNTupleReader.cc
+++ b/src/RNTupleReader.cc
@@ -46,9 +46,12 @@ GenericParameters RNTupleReader::readEventMetaData(root_compat::RNTupleReader* r
 }
 
 bool RNTupleReader::initCategory(std::string_view category) {
-  if (std::ranges::find(m_availableCategories, category) == m_availableCategories.end()) {
+  const auto catIt = std::ranges::find(m_availableCategories, category);
+  if (catIt == m_availableCategories.end()) {
     return false;
   }
+  // Make sure that the keys refer to something that lives as long as the reader
+  category = *catIt;
   // Assume that the metadata is the same in all files
   const auto& filename = m_filenames[0];
 
@@ -100,6 +103,7 @@ void RNTupleReader::openFiles(const std::vector<std::string>& filenames) {
   for (const auto& category : m_availableCategories) {
     m_readerEntries[category].reserve(m_filenames.size() + 1);
     m_readerEntries[category].push_back(0);
+    m_entries.try_emplace(category, 0);
     for (const auto& filename : m_filenames) {
       try {
 #if ROOT_VERSION_CODE >= ROOT_VERSION(6, 36, 0)
@@ -131,7 +135,8 @@ unsigned RNTupleReader::getEntries(std::string_view name) const {
 
 std::unique_ptr<ROOTFrameData> RNTupleReader::readNextEntry(std::string_view category,
                                                             const std::vector<std::string>& collsToRead) {
-  return readEntry(category, m_entries[category], collsToRead);
+  const auto it = m_entries.find(category);
+  return readEntry(category, it != m_entries.end() ? it->second : 0, collsToRead);
 }
 
 std::unique_ptr<ROOTFrameData> RNTupleReader::readEntry(std::string_view category, const unsigned entNum,
-- 
2.43.0


From 628b02896950152a3d26909f84f1413b6b1fc7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 37/41] fix: Process all entries again in every event loop of
 the DataSource

The ranges of entries were handed out once, such that any further event loop of
the same RDataFrame (which calls Initialize before each of them) did not process
any entries.
---
 src/DataSource.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DataSource.cc b/src/DataSource.cc
index 5e4f077..a06112a 100644
--- a/src/DataSource.cc
+++ b/src/DataSource.cc
@@ -94,6 +94,8 @@ void DataSource::SetNSlots(unsigned int nSlots) {
 }
 
 void DataSource::Initialize() {
+  // Every event loop has to process all entries
+  m_rangesAvailable = m_rangesAll;
 }
 
 std::vector<std::pair<ULong64_t, ULong64_t>> DataSource::GetEntryRanges() {
-- 
2.43.0


From 7f4b2b4ce8bff0f86a1fed717100dcecd5d02188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 38/41] fix: Do not truncate the number of events in the
 DataSource

It was stored as unsigned int and int (per slot), i.e. with 2^32 or more events
only some of them (or none) were processed.
---
 src/DataSource.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataSource.cc b/src/DataSource.cc
index a06112a..380e9e8 100644
--- a/src/DataSource.cc
+++ b/src/DataSource.cc
@@ -34,7 +34,7 @@ void DataSource::SetupInput(int nEvents, const std::vector<std::string>& collsTo
 
   // Create probing frame
   podio::Frame frame;
-  unsigned int nEventsInFiles = 0;
+  ULong64_t nEventsInFiles = 0;
   auto podioReader = podio::makeReader(m_filePathList);
   nEventsInFiles = podioReader.getEntries(podio::Category::Event);
   frame = podioReader.readFrame(podio::Category::Event, 0, collsToRead);
@@ -73,7 +73,7 @@ void DataSource::SetNSlots(unsigned int nSlots) {
     throw std::runtime_error("podio::DataSource: Number of events too small!");
   }
 
-  int eventsPerSlot = m_nEvents / m_nSlots;
+  const ULong64_t eventsPerSlot = m_nEvents / m_nSlots;
   for (size_t i = 0; i < (m_nSlots - 1); ++i) {
     m_rangesAll.emplace_back(eventsPerSlot * i, eventsPerSlot * (i + 1));
   }
-- 
2.43.0


From f1f6a99ffa1168a74d695f257bcec615e10eec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 39/41] fix: Refuse empty and reversed lists of entries in
 podio-dump

A range with the last entry before the first one ended in an uncaught
std::length_error (or an empty list for 1:0), an empty argument in an empty list.
---
 tools/src/podio-dump-tool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/src/podio-dump-tool.cpp b/tools/src/podio-dump-tool.cpp
index 3349c08..2cac0ab 100644
--- a/tools/src/podio-dump-tool.cpp
+++ b/tools/src/podio-dump-tool.cpp
@@ -76,6 +76,10 @@ std::vector<size_t> parseEventRange(const std::string_view evtRange) {
     return {static_cast<size_t>(-1)};
   }
 
+  if (evtRange.empty()) {
+    parseError();
+  }
+
   // Split by ',' to see if we have to handle multiple events
   auto splitRange = podio::utils::splitString(evtRange, ',');
 
@@ -91,6 +95,9 @@ std::vector<size_t> parseEventRange(const std::string_view evtRange) {
     } else if (std::ranges::distance(colonSplitRange) == 2 && !(*nextIt).empty()) {
       size_t start = parseSizeOrExit(*it);
       size_t stop = parseSizeOrExit(*nextIt);
+      if (start > stop) {
+        parseError();
+      }
       std::vector<size_t> events(stop - start + 1);
       std::iota(events.begin(), events.end(), start);
       return events;
-- 
2.43.0


From b1ed7e5c76b63be32248c0afddd5620777a10a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 40/41] fix: Make parameters of type float accessible from
 Python if there are doubles of the same name

get_parameter could not distinguish the C++ type float from the Python type of the
same name, and always refused it as ambiguous. get_param_info raised a ValueError.
---
 python/podio/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio/frame.py b/python/podio/frame.py
index 55eb24c..c483de1 100644
--- a/python/podio/frame.py
+++ b/python/podio/frame.py
@@ -232,6 +232,9 @@ class Frame:
             raise ValueError(f"{name} parameter is not available as type {as_type}")
 
         if len(vec_types) > 1:
+            # An exact match of the c++ type is not ambiguous
+            if f"std::vector<{as_type}>" in vec_types:
+                return _get_param_value(f"std::vector<{as_type}>", name)
             raise ValueError(
                 f"{name} parameter cannot be unambiguously mapped to a c++ type with "
                 f"{as_type=}. Consider passing in the c++ type instead of the python type"
-- 
2.43.0


From e8b3e2a5b3c5d72dc778b7ddb35598bb2a58dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 41/41] fix: Merge all SIO files in podio-merge-files and
 refuse lists of files in the SIO readers

The Python bindings of the SIO readers silently ignored all but the first file of a
list, and podio-merge-files wrote only the contents of the first file but recorded all
of them as merged.
---
 python/podio/sio_io.py  | 20 ++++++++++++++++----
 tools/podio-merge-files | 33 +++++++++++++++++----------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/python/podio/sio_io.py b/python/podio/sio_io.py
index 9926b33..8d261f1 100644
--- a/python/podio/sio_io.py
+++ b/python/podio/sio_io.py
@@ -14,6 +14,14 @@ from podio.base_writer import BaseWriterMixin  # pylint: disable=wrong-import-po
 from podio.utils import convert_to_str_paths  # pylint: disable=wrong-import-position # noqa: E402
 
 
+def _get_single_file(filenames):
+    """Get the one file that should be read as the SIO readers cannot read several files."""
+    filenames = convert_to_str_paths(filenames)
+    if len(filenames) != 1:
+        raise ValueError(f"SIO readers can only read exactly one file, but got {filenames}")
+    return filenames[0]
+
+
 class Reader(BaseReaderMixin):
     """Reader class for reading podio SIO files."""
 
@@ -22,10 +30,12 @@ class Reader(BaseReaderMixin):
 
         Args:
             filename (str or Path): File to open and read data from.
+
+        Raises:
+            ValueError: If more than one file is passed
         """
-        filename = convert_to_str_paths(filename)[0]
         self._reader = podio.SIOReader()
-        self._reader.openFile(filename)
+        self._reader.openFile(_get_single_file(filename))
 
         super().__init__()
 
@@ -42,10 +52,12 @@ class LegacyReader(BaseReaderMixin):
 
         Args:
             filename (str or Path): File to open and read data from.
+
+        Raises:
+            ValueError: If more than one file is passed
         """
-        filename = convert_to_str_paths(filename)[0]
         self._reader = podio.SIOLegacyReader()
-        self._reader.openFile(filename)
+        self._reader.openFile(_get_single_file(filename))
         self._is_legacy = True
 
         super().__init__()
diff --git a/tools/podio-merge-files b/tools/podio-merge-files
index c0e35ad..186b8d8 100755
--- a/tools/podio-merge-files
+++ b/tools/podio-merge-files
@@ -48,36 +48,37 @@ elif first.endswith(".sio"):
     from podio import reading  # pylint: disable=wrong-import-position # noqa: E402
     from podio import sio_io  # pylint: disable=wrong-import-position # noqa: E402
 
-    reader = reading.get_reader(args.files)
+    # SIO readers can only read one file each
+    readers = [reading.get_reader(f) for f in args.files]
     writer = sio_io.Writer(args.output_file)
 
-    categories = list(reader.categories)
-    is_metadata_available = True  # pylint: disable=invalid-name
-    try:
-        # All frames will be copied as they are except the metadata ones
-        categories.remove("metadata")
-    except ValueError:
-        is_metadata_available = False  # pylint: disable=invalid-name
+    # All frames will be copied as they are except the metadata ones
+    categories = []
+    for reader in readers:
+        categories += [c for c in reader.categories if c not in categories and c != "metadata"]
 
     for category in tqdm(categories):
-        all_frames = reader.get(category)
-        for frame in tqdm(all_frames, desc=f"Merging category '{category}'"):
-            writer.write_frame(frame, category)
+        for reader in readers:
+            for frame in tqdm(reader.get(category), desc=f"Merging category '{category}'"):
+                writer.write_frame(frame, category)
 
     if args.metadata == "none":
         sys.exit(0)
 
-    if not is_metadata_available:
+    if args.metadata == "first":
+        readers = readers[:1]
+    metadata_readers = [reader for reader in readers if "metadata" in reader.categories]
+
+    if not metadata_readers:
         print(
             "Warning: metadata category 'metadata' not found in the input files,"
             " it will be created"
         )
         all_frames = [podio.Frame()]
+    elif args.metadata == "first":
+        all_frames = [metadata_readers[0].get("metadata")[0]]
     else:
-        if args.metadata == "first":
-            all_frames = [reader.get("metadata")[0]]
-        else:
-            all_frames = reader.get("metadata")
+        all_frames = [frame for reader in metadata_readers for frame in reader.get("metadata")]
     for frame in all_frames:
         frame.put_parameter("MergedInputFiles", args.files)
         writer.write_frame(frame, "metadata")
-- 
2.43.0

