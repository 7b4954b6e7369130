From b0b6b4e156a9e694786ca0eabaa4db79964e8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 01/27] fix: reuse of a free type class slot lost the
 registered class

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..4bd27bb 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -343,7 +343,7 @@ public:
         // search in reverse order while also checking for name clashes
         const type_class** free_slot = nullptr;
         for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
-            auto tc = *i;
+            auto& tc = *i;
             if (tc) {
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
-- 
2.43.0


From 74c3c454254015414a149677a026c194f06302db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 02/27] fix: complete object mutations which target the empty
 type

---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..70a5b4e 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // the empty type has no object buffers: there is nothing to allocate or to update
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
-- 
2.43.0


From e089cb1fb365ab43914cc8cf3aad3a5acdeab3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 03/27] fix: mutations started while an exception is in flight
 were rolled back

---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 5 ++++-
 code/dynamix/object_mutation.hpp | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..1d83641 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    const int m_init_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_init_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 70a5b4e..6352a67 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -8,6 +8,7 @@
 #include "throw_exception.hpp"
 
 #include <cassert>
+#include <exception>
 
 namespace dynamix {
 
@@ -30,6 +31,7 @@ object_mutation::object_mutation(object& obj, const type& type, int) noexcept
     , m_target_mixin_data(nullptr)
     , m_allocated_upto(0)
     , m_updated_upto(0)
+    , m_init_uncaught_exceptions(std::uncaught_exceptions())
 {
     // mixin data is allocated at this point by the delagator constructor
 }
@@ -43,12 +45,13 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
     , m_target_mixin_data(obj.m_mixin_data)
     , m_allocated_upto(obj.get_type().num_mixins())
     , m_updated_upto(obj.get_type().num_mixins())
+    , m_init_uncaught_exceptions(std::uncaught_exceptions())
 {}
 
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_init_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..d6271a2 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -159,6 +159,10 @@ private:
 
     bool m_complete = false;
 
+    // number of exceptions in flight when the mutation was started
+    // used to determine whether the mutation itself is being aborted by an exception
+    const int m_init_uncaught_exceptions;
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From 6420a9b15f5ee6f645bcdd5fd0a2d7d1c30de74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 04/27] fix: do not store type query results which were
 invalidated while being computed

---
 code/dynamix/domain.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 4bd27bb..c69622a 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -163,6 +163,11 @@ public:
         // existing types
         type_set types;
 
+        // incremented when stored queries get invalidated
+        // allows those who computed a query result without holding a unique lock
+        // to check whether it's still safe to store it
+        uint64_t query_generation = 0;
+
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
@@ -287,6 +292,7 @@ public:
     void unregister_mixin(mixin_info& info) {
         {
             auto treg = m_type_registry.unique_lock();
+            ++treg->query_generation;
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
             auto& queries = treg->type_queries;
@@ -415,6 +421,7 @@ public:
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->query_generation;
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
         auto reg = m_type_registry.unique_lock();
@@ -428,6 +435,7 @@ public:
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->query_generation;
     }
 
     // applies mutation rules for mutation and returns the original query to be preserved
@@ -491,6 +499,7 @@ public:
 
         type_query original_query(m_allocator); // prepare original query with our allocator
         const type* found = nullptr;
+        uint64_t generation;
 
         {
             // search for stored query for this combo
@@ -500,6 +509,8 @@ public:
                 if (f != reg->type_queries.end()) return *f->second;
             }
 
+            generation = reg->query_generation;
+
             // query is not available, so we need to apply mutation rules
             // we can do it while holding the shared lock
             original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
@@ -523,11 +534,15 @@ public:
             // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
             auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
+            // ... unless queries were invalidated in the meantime:
+            // then our result may not match the current mutation rules and must not be stored
+            if (reg->query_generation == generation) {
+                reg->type_queries[std::move(original_query)] = found;
+            }
             return *found;
         }
 
-        return create_type(mutation, std::move(original_query));
+        return create_type(mutation, std::move(original_query), generation);
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -686,7 +701,8 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // the query is stored only if it was not invalidated since the given generation
+    const type& create_type(type_mutation& mutation, type_query&& query, uint64_t generation) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -831,12 +847,15 @@ public:
         // but the code below is safe in such a case)
 
         const type* reg_type = res.first->get();
-        reg->type_queries[std::move(query)] = reg_type;
+        if (reg->query_generation == generation) {
+            reg->type_queries[std::move(query)] = reg_type;
+        }
         return *reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
+        ++l->query_generation;
         auto& types = l->types;
         auto& queries = l->type_queries;
         for (auto it = types.begin(); it != types.end(); ) {
-- 
2.43.0


From b8cbb1a9b73a23dc4116704d2b141a0f9b51968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 05/27] fix: no cyclic rule error when only dependencies were
 removed from a type query

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index c69622a..ce83d2b 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -482,7 +482,7 @@ public:
                 if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (i == max_depenency_depth || i == int(rules.size())) {
+            if (i == max_depenency_depth || (i > 0 && i >= int(rules.size()))) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-- 
2.43.0


From b1d066876784c04a8c45397ccf13a5f9ec65acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:48 +0000
Subject: [PATCH 06/27] fix: a failed unregister of a foreign mixin dropped own
 types

---
 code/dynamix/domain.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index ce83d2b..1c3469a 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -290,6 +290,14 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own?
+            // check before touching the types: one of our own mixins may have the same id
+            auto reg = m_element_registry.shared_lock();
+            auto& sparse_mixins = reg->sparse_mixins;
+            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
+
         {
             auto treg = m_type_registry.unique_lock();
             ++treg->query_generation;
-- 
2.43.0


From 259792eb55f6804a090ba853246d56ebbb022c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 07/27] fix: exception escaped the C function which resets a
 sealed object

---
 code/dynamix/object-c.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..5405b91 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,19 +105,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
-- 
2.43.0


From 90d24b4d94c530d91d5e617de57490a153199044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 08/27] fix: failed mixin registration left its mutation rules
 in the domain

---
 code/dynamix/mixin_info_data.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..a71a3aa 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,20 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    auto next_rule = mutation_rule_infos.begin();
+    try {
+        for (; next_rule != mutation_rule_infos.end(); ++next_rule) {
+            dom.add_mutation_rule(**next_rule);
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave rules for a mixin which is not registered
+        while (next_rule != mutation_rule_infos.begin()) {
+            dom.remove_mutation_rule(**--next_rule);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From cfdc0981aa2d72cdae1e5d7207b6a9572f196748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 09/27] fix: string views with a common beginning and different
 lengths compared equal

---
 code/dnmx/bits/sv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..0f54064 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,7 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
+    if (a.begin == b.begin && a.end == b.end) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From d438687664f2730c9fab66cd7f259d31650629fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 10/27] fix: mutate op which adds a mixin by name with a func
 did not compile

---
 code/dynamix/mutate_ops.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..5324b17 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,8 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
+    using object_mutate_op::to_obj_mutate;
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From 65c36d06f9be16dc687eb3ee52887b986218dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 11/27] fix: recursive shared lock when dumping a domain

---
 code/dynamix/dbg_dmp.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..43f2526 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -178,14 +178,20 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -202,7 +208,10 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
-- 
2.43.0


From cc86293af2337c77194a785d6954a38cb51ea09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 12/27] fix: moved-out-of objects remained sealed

---
 code/dynamix/object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..d18e80c 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -313,6 +313,7 @@ void object::usurp(object& other) noexcept {
     // clear other object
     other.m_type = &get_domain().get_empty_type();
     other.m_mixin_data = nullptr;
+    other.m_sealed = false; // transferred
 }
 
 }
-- 
2.43.0


From 8480fb6b123ddf5725c01bf089ea9198ddcadff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 13/27] fix: failed allocation when starting a type mutation
 terminated the program

---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From dc3dd87658aa5506ed4fbf5849a4ff5241e98dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 14/27] fix: null dereference in mutate_to with the name of an
 unregistered mixin

---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..29509ca 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // mixin by name which is not registered
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From 038e9d5d8da233f8af47300c72b8bebfb816f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 15/27] fix: uninitialized result when the C object compare
 fails

---
 code/dynamix/object-c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 5405b91..3d8a070 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -142,6 +142,7 @@ dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_obje
         ret.error = dnmx_result_success;
     }
     catch (std::exception&) {
+        ret.result = 0;
         ret.error = -1;
     }
     return ret;
-- 
2.43.0


From 1c4e4dc351f0f132b77dc6d386bd6c4f163aa9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:03 +0000
Subject: [PATCH 16/27] fix: failed allocations escaped as exceptions from C
 creation functions

---
 code/dynamix/domain-c.cpp          | 9 +++++++--
 code/dynamix/mixin_allocator-c.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..a07455a 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..7e45eba 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -34,8 +34,13 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
-    return ret->to_c_hanlde();
+    try {
+        auto ret = new c_mixin_allocator(alloc, dealloc);
+        return ret->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
     delete mixin_allocator::from_c_handle(ha);
-- 
2.43.0


From 0e3232b95e2839dc6bf82e9807256269a52326b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:03 +0000
Subject: [PATCH 17/27] fix: order the last use of a type before its garbage
 collection

---
 code/dynamix/type.cpp | 4 ++--
 code/dynamix/type.hpp | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/type.cpp b/code/dynamix/type.cpp
index 5a1dcb9..b836a2d 100644
--- a/code/dynamix/type.cpp
+++ b/code/dynamix/type.cpp
@@ -135,13 +135,13 @@ bool type::comparable() const noexcept {
 
 byte_t* type::allocate_object_buffer(allocator& alloc) const {
     auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
-    ++m_num_objects;
+    m_num_objects.fetch_add(1, std::memory_order_relaxed);
     return static_cast<byte_t*>(ret);
 }
 
 void type::deallocate_object_buffer(allocator& alloc, void* ptr) const noexcept {
     alloc.deallocate_bytes(ptr, object_buffer_size, object_buffer_alignment);
-    --m_num_objects;
+    m_num_objects.fetch_sub(1, std::memory_order_release);
 }
 
 }
diff --git a/code/dynamix/type.hpp b/code/dynamix/type.hpp
index 751d8e7..214c18a 100644
--- a/code/dynamix/type.hpp
+++ b/code/dynamix/type.hpp
@@ -18,8 +18,8 @@
 #include "globals.hpp"
 
 #include <itlib/span.hpp>
-#include <itlib/atomic.hpp>
 
+#include <atomic>
 #include <cstdint>
 #include <string_view>
 
@@ -62,7 +62,7 @@ public:
 
     // number of objects of this type
     // more precisely this is the number of active (living-allocated) object buffers
-    size_t num_objects() const noexcept { return m_num_objects.load(); }
+    size_t num_objects() const noexcept { return m_num_objects.load(std::memory_order_acquire); }
 
     mixin_index_t num_mixins() const noexcept {
         return mixin_index_t(mixins.size());
@@ -171,7 +171,9 @@ public:
     // this is the buffer size (it's used when deallocating)
     byte_size_t buf_size;
 private:
-    mutable itlib::atomic_relaxed_counter<size_t> m_num_objects = {};
+    // the garbage collector frees types which have no objects, so
+    // a decrement must order the last uses of the type before the load which sees it
+    mutable std::atomic<size_t> m_num_objects = {};
 };
 
 }
-- 
2.43.0


From b8f82f3e8632fdf04bbb697a30d42fe2bb64b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 18/27] fix: declared but undefined C functions to query strong
 features of an object

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 3d8a070..dfea05f 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From c58f7579f144e9ff5e2a395ca24123a8180f58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 19/27] fix: mixins destroyed by an exception after an explicit
 finalize of an object mutation

---
 code/dynamix/object_mutation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 6352a67..5c8fed9 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -194,6 +194,7 @@ void object_mutation::destroy_new_mixins() noexcept {
 }
 
 void object_mutation::rollback() noexcept {
+    if (m_moved_out_from) return; // already finalized or rolled back
     m_complete = false;
     if (&m_target_type != m_old_type) {
         // tag: same_type_shortcut
@@ -205,7 +206,8 @@ void object_mutation::rollback() noexcept {
 }
 
 void object_mutation::finalize() noexcept {
-    if (!m_complete) return;
+    if (m_moved_out_from || !m_complete) return;
+    m_moved_out_from = true; // the target data is now the object's: nothing more to do in the destructor
 
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
-- 
2.43.0


From 5922889a454f35386366cb26bf89f732105db5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 20/27] fix: failed allocation when starting a traversal or
 dump terminated the program

---
 code/dynamix/domain.cpp          | 2 +-
 code/dynamix/domain_traverse.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 1c3469a..b58e5a1 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -893,7 +893,7 @@ struct domain_traverse::impl {
     data_mutex<domain::impl::element_registry>::shared_lock_t er;
 };
 
-domain_traverse::domain_traverse(const domain& d) noexcept {
+domain_traverse::domain_traverse(const domain& d) {
     m_impl = new impl{
         d.m_impl->m_type_registry.shared_lock(),
         d.m_impl->m_element_registry.shared_lock()
diff --git a/code/dynamix/domain_traverse.hpp b/code/dynamix/domain_traverse.hpp
index 7d14022..3ecac09 100644
--- a/code/dynamix/domain_traverse.hpp
+++ b/code/dynamix/domain_traverse.hpp
@@ -25,7 +25,7 @@ class DYNAMIX_API domain_traverse {
     struct impl;
     impl* m_impl;
 public:
-    domain_traverse(const domain& d) noexcept;
+    domain_traverse(const domain& d);
     ~domain_traverse();
 
     domain_traverse(const domain_traverse&) = delete;
-- 
2.43.0


From 7a54621df219b4fd131c8f60e09c98f1a272fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 21/27] fix: dnmx_unregister_mixin and dnmx_unregister_feature
 let exceptions escape from C code

---
 code/dynamix/domain-c.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index a07455a..7820448 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -44,7 +44,12 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (std::exception&) {
+        // not registered here: there is nothing to unregister and no way to report it
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -57,7 +62,12 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (std::exception&) {
+        // not registered here: there is nothing to unregister and no way to report it
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
-- 
2.43.0


From 078a8e4f19e3bbc485697eeab0c32b9554919d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 22/27] fix: define the addition of a mixin by name to the
 v1compat rules' lists (it was declared only)

---
 v1compat/code/dynamix/v1compat/mutation_rules.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v1compat/code/dynamix/v1compat/mutation_rules.cpp b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
index 1aa29ad..1d43598 100644
--- a/v1compat/code/dynamix/v1compat/mutation_rules.cpp
+++ b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
@@ -6,6 +6,7 @@
 #include "domain.hpp"
 
 #include <dynamix/domain.hpp>
+#include <dynamix/exception.hpp>
 #include <dynamix/mixin_info.hpp>
 #include <dynamix/throw_exception.hpp>
 
@@ -13,6 +14,7 @@
 #include <itlib/qalgorithm.hpp>
 
 #include <mutex>
+#include <string>
 
 namespace dynamix::v1compat {
 
@@ -67,6 +69,14 @@ std::shared_ptr<mutation_rule> remove_mutation_rule(mutation_rule_id id) {
     return r;
 }
 
+namespace impl {
+void mixin_list::add(std::string_view name) {
+    auto info = domain::instance().get_mixin_info(name);
+    if (!info) throw domain_error("mutation rule with unknown mixin '" + std::string(name) + "'");
+    add(*info);
+}
+}
+
 void dependent_mixins_oneshot::apply_to(type_mutation& mut) {
     if (!mut.has(*master)) return;
     for (auto i : infos) {
-- 
2.43.0


From 4bd171628f23035b14c6b58d8948e980430f9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 23/27] fix: name the features of v1compat messages with a
 default implementation by the message, not its struct

---
 v1compat/gen/arity_message_macros_template | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/gen/arity_message_macros_template b/v1compat/gen/arity_message_macros_template
index 3d12434..4149fba 100644
--- a/v1compat/gen/arity_message_macros_template
+++ b/v1compat/gen/arity_message_macros_template
@@ -58,7 +58,7 @@
 #define DYNAMIX_V1_DEFINE_MESSAGE_%{arity}_WITH_DEFAULT_IMPL(return_type, message_name %{args_coma}) \
     static return_type I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::obj_t& %{coma_args_signature}); \
     const ::dynamix::common_feature_info& I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::get_info_safe() { \
-        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name))), multicast, (void*) \
+        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(message_name)), multicast, (void*) \
             (static_cast<I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::sig_t*>(I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)))); \
         return the_info; \
     } \
-- 
2.43.0


From e14ff0cedf7e3cb06eb1cf4d8c52ed698f68a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 24/27] fix: the dump of a domain lists the types which match a
 type class when asked for

---
 code/dynamix/dbg_dmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index 43f2526..9c4af28 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -106,7 +106,7 @@ void dbg_dmp_l(std::ostream& out, const type_class& tc, uint32_t flags, domain_t
     if (tc.matches && tr && (flags & dnmx_tc_dmp_matching_types)) {
         tr->traverse_types([&](const type& t) {
             if (!tc.matches(&t)) return;
-            out << "match ";
+            out << NIND "match ";
             dbg_dmp(out, t, 0);
         });
     }
@@ -203,7 +203,7 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
 
         out << "## " << count << " Type Classes\n";
         tr.traverse_type_classes([&](const type_class& tc) {
-            dbg_dmp(out, tc, flags);
+            dbg_dmp_l(out, tc, flags, &tr);
             out << '\n';
         });
     }
-- 
2.43.0


From 67437532936e09274a8e4d03def0bdd241f8d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 25/27] fix: object::clear gets the empty type before it gives
 up its data, as nothing keeps its old type afterwards

---
 code/dynamix/object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index d18e80c..fb2f33c 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -235,8 +235,9 @@ const void* object::get(const mixin_info& info) const noexcept {
 
 void object::clear() {
     if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "clear");
+    auto& empty_type = get_domain().get_empty_type(); // get now: without the data nothing keeps our type alive
     clear_mixin_data();
-    m_type = &get_domain().get_empty_type();
+    m_type = &empty_type;
 }
 
 void object::reset_type(const type& type) {
-- 
2.43.0


From 0ded701e61c04db39a62d04881a35e96b4ef496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 26/27] fix: moving the matching mixins of an object to itself
 does not move from destroyed ones

---
 code/dynamix/object.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index fb2f33c..38489f1 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -150,6 +150,8 @@ void object::copy_matching_from(const object& o) {
 }
 
 void object::move_matching_from(object& o, bool fallback_to_init) {
+    if (&o == this) return; // prevent self-move: the fallback would move from destroyed mixins
+
     auto& otype = o.get_type();
     auto& mtype = get_type();
 
-- 
2.43.0


From c66adfaae253b5781adab6b6bbe2fa2b3ec26af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:20 +0000
Subject: [PATCH 27/27] fix: assigning an object from one which its own mixin
 owns used freed memory

---
 code/dynamix/object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index 38489f1..687948d 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -47,8 +47,9 @@ object& object::operator=(object&& o) {
     if (&o == this) return *this; // prevent self-usurp
     if (m_allocator == o.m_allocator) {
         if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "move assign");
+        object tmp(std::move(o)); // take now: a mixin of ours may own o
         clear_mixin_data();
-        usurp(o);
+        usurp(tmp);
     }
     else {
         throw_exception::obj_error(get_type(), "move assign with mismatched allocators");
@@ -89,8 +90,9 @@ object object::copy(const allocator& alloc) const {
 void object::copy_from(const object& o) {
     if (o.empty()) {
         if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "copy_from");
+        auto otype = o.m_type; // get now: a mixin of ours may own o
         clear_mixin_data();
-        m_type = o.m_type;
+        m_type = otype;
         return;
     }
 
-- 
2.43.0

