From cd937e07f40886a52361b70159bebd0f99d93e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 01/33] fix: hold the registry lock while the registry is used

The lock guards were temporaries, so the registry was never locked. Loaders
look types up themselves, so the lock has to be recursive.
---
 src/registry.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..1aae8e1 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,7 +19,8 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Recursive because loaders look up the types that they depend on.
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
@@ -53,7 +54,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +110,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +125,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 0c2765fb1614a28093bfe8807dfc10f1214788e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 02/33] fix: don't hold a static initialization lock while
 taking the registry's

Loaders run with the registry locked and end up in isConvertibleTo.
---
 src/argument.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..3a8518a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -92,7 +92,8 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Not a static: its initialization lock would deadlock with the registry's.
+    const Type* valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
-- 
2.43.0


From b06fdcc47f537b259331b85eb12429a275ffe43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 03/33] fix: only mark a template type as registered once it is

The flag was raced on, let other threads look up a type that was not yet
registered and stayed set when the registration failed.
---
 src/dsl/template.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..b069644 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <atomic>
+
 namespace reflect {
 
 /******************************************************************************/
@@ -17,10 +19,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
-- 
2.43.0


From 4902c3efe08b5caed2570374419c120de89afb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 04/33] fix: undo everything that a failed type load did

A type whose loader failed stayed registered half loaded, together with the
types and aliases that its loader added, and couldn't be loaded again.
---
 src/registry.cpp | 54 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 1aae8e1..b82e96b 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -25,6 +25,11 @@ struct RegistryState
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
     Scope scopes;
+
+    // What was added by the loads that are still in progress, so that it can be
+    // removed again if they fail.
+    std::vector<std::string> loadingTypes;
+    std::vector<std::string> loadingAliases;
 };
 
 RegistryState* registry_ = nullptr;
@@ -79,14 +84,36 @@ load(const std::string& id)
     if (it == registry.loaders.end())
         reflectError("no loader found for <%s>", id);
 
-    auto loader = std::move(it->second);
-    registry.loaders.erase(it);
+    // Loaders are never removed so that a load which fails can be retried.
+    const auto& loader = it->second;
+
+    const size_t nTypes = registry.loadingTypes.size();
+    const size_t nAliases = registry.loadingAliases.size();
+
+    try {
+        // The type is never deleted, even on failure, because the types that
+        // were loaded along the way might already refer to it.
+        Type* type = new Type(id);
+
+        registry.loadingTypes.push_back(id);
+        add(id, type);
+        loader(type);
+
+        if (!nTypes) {
+            registry.loadingTypes.clear();
+            registry.loadingAliases.clear();
+        }
+        return type;
+    }
+    catch (...) {
+        for (; registry.loadingTypes.size() > nTypes; registry.loadingTypes.pop_back())
+            registry.types.erase(registry.loadingTypes.back());
 
-    Type* type;
-    add(id, type = new Type(id));
+        for (; registry.loadingAliases.size() > nAliases; registry.loadingAliases.pop_back())
+            registry.aliases.erase(registry.loadingAliases.back());
 
-    loader(type);
-    return type;
+        throw;
+    }
 }
 
 void
@@ -127,11 +154,20 @@ alias(const std::string& id, const std::string& alias)
     auto& registry = getRegistry();
     std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
-    auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
-    if (!ret.second) {
+    auto it = registry.aliases.find(alias);
+    if (it != registry.aliases.end()) {
         reflectError(
                 "<%s> can't be aliased to <%s> because it's already aliased to <%s>",
-                alias, id, ret.first->second);
+                alias, id, it->second);
+    }
+
+    const bool loading = !registry.loadingTypes.empty();
+    if (loading) registry.loadingAliases.push_back(alias);
+
+    try { registry.aliases.emplace(alias, id); }
+    catch (...) {
+        if (loading) registry.loadingAliases.pop_back();
+        throw;
     }
 }
 
-- 
2.43.0


From 6427e5b7eb6868172a0b07b8ac0fe0f94ffddf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 05/33] fix: protect scopes with the registry lock

Registering a type, which first use of a template type does, changes the scopes
while other threads may be reading them. Scopes no longer remember the types
that they looked up as these are gone again if the load they are part of fails.
---
 src/registry.cpp |  9 +++++++--
 src/registry.h   |  5 +++++
 src/scope.cpp    | 40 +++++++++++++++++++++++++++++++---------
 src/scope.h      |  2 +-
 4 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index b82e96b..c2fd760 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -7,8 +7,6 @@
 
 #include "reflect.h"
 
-#include <mutex>
-
 namespace reflect {
 
 /******************************************************************************/
@@ -54,6 +52,13 @@ globalScope()
     return &getRegistry().scopes;
 }
 
+std::recursive_mutex&
+Registry::
+lock()
+{
+    return getRegistry().lock;
+}
+
 const Type*
 Registry::
 get(const std::string& id)
diff --git a/src/registry.h b/src/registry.h
index e975de7..94bcb82 100644
--- a/src/registry.h
+++ b/src/registry.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <mutex>
+
 namespace reflect {
 
 struct Type;
@@ -60,6 +62,9 @@ struct Registry
 
     static Scope* globalScope();
 
+    // Protects the types, the aliases and the content of all the scopes.
+    static std::recursive_mutex& lock();
+
 private:
     static void add(const std::string& id, const Type* type);
     static const Type* load(const std::string& id);
diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..8667393 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -106,6 +106,8 @@ std::string
 Scope::
 print(int indent) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     enum { PadInc = 4 };
 
     std::stringstream ss;
@@ -129,7 +131,7 @@ print(int indent) const
         ss << pad0 << "\n";
 
     for (auto& type : types_)
-        ss << pad1 << "type " << type.first << ";\n";
+        ss << pad1 << "type " << type << ";\n";
 
     if (!types_.empty() && !scopes_.empty()) ss << pad0 << "\n";
 
@@ -150,6 +152,8 @@ std::vector<std::string>
 Scope::
 scopes() const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(scopes_.size());
 
@@ -163,6 +167,8 @@ bool
 Scope::
 hasScope(const std::string& name) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -175,6 +181,8 @@ Scope*
 Scope::
 scope(const std::string& name) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -188,6 +196,8 @@ Scope*
 Scope::
 scope(const std::string& name)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -208,11 +218,13 @@ std::vector<std::string>
 Scope::
 types(bool includeScopes) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(types_.size());
 
     for(auto& type : types_)
-        result.push_back(type.first);
+        result.push_back(type);
 
     if (!includeScopes) return result;
 
@@ -231,6 +243,8 @@ bool
 Scope::
 hasType(const std::string& name)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -253,6 +267,8 @@ const Type*
 Scope::
 type(const std::string& name)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -265,14 +281,10 @@ type(const std::string& name)
         return scopeIt->second->type(split.second);
     }
 
-    // lazy load the type.
-    if (!it->second)
-        it->second = reflect::type(join(id(), split.first));
-
     if (!split.second.empty())
         reflectError("Type doesn't support inner classes yet");
 
-    return it->second;
+    return reflect::type(join(id(), split.first));
 }
 
 
@@ -280,11 +292,13 @@ void
 Scope::
 addType(const std::string& name)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = head(name);
 
     if (split.second.empty()) {
-        // The type is added before it's loaded so we'll lazy loaded as needed.
-        types_.emplace(split.first, nullptr);
+        // The type is added before it's loaded so it's looked up when needed.
+        types_.insert(split.first);
         return;
     }
 
@@ -308,6 +322,8 @@ void
 Scope::
 addFunction(const std::string& name, Function&& fn)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = tail(name);
 
     if (!split.second.empty())
@@ -320,6 +336,8 @@ std::vector<std::string>
 Scope::
 functions(bool includeScopes) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     std::vector<std::string> result;
     result.reserve(types_.size());
 
@@ -343,6 +361,8 @@ bool
 Scope::
 hasFunction(const std::string& name) const
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = tail(name);
 
     if (!split.second.empty())
@@ -356,6 +376,8 @@ Overloads&
 Scope::
 function(const std::string& name)
 {
+    std::lock_guard<std::recursive_mutex> guard(Registry::lock());
+
     auto split = tail(name);
 
     if (!split.second.empty())
diff --git a/src/scope.h b/src/scope.h
index cf2dddb..86c3e84 100644
--- a/src/scope.h
+++ b/src/scope.h
@@ -66,7 +66,7 @@ private:
     Scope* parent_;
     std::unordered_map<std::string, Scope*> scopes_;
 
-    std::unordered_map<std::string, const Type*> types_;
+    std::unordered_set<std::string> types_;
     std::unordered_map<std::string, Overloads> functions_;
 };
 
-- 
2.43.0


From bab1d316dc92e63eaf4f60f86ae9ea64bc1d6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 06/33] fix: undo the registration of a type that can't be
 added to its scope

---
 src/registry.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index c2fd760..1218a86 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -145,8 +145,14 @@ add(const std::string& id, std::function<void(Type*)> loader)
     std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
-    registry.loaders.emplace(std::move(id), std::move(loader));
-    registry.scopes.addType(id);
+    auto ret = registry.loaders.emplace(id, std::move(loader));
+    if (!ret.second) return;
+
+    try { registry.scopes.addType(id); }
+    catch (...) {
+        registry.loaders.erase(ret.first);
+        throw;
+    }
 }
 
 void
-- 
2.43.0


From b840dcb74fcc5f5d9239cf4d41cccac0bce062a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 07/33] fix: don't create scopes when looking up a function

---
 src/scope.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8667393..aa4fd70 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -380,8 +380,11 @@ function(const std::string& name)
 
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+    if (!split.second.empty()) {
+        // The const overload doesn't create missing scopes.
+        const Scope* self = this;
+        return self->scope(split.second)->function(split.first);
+    }
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From cada71c72b6882dd40cba025c29a435764a007c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 08/33] fix: don't leave new scopes or functions behind when
 adding to them fails

---
 src/scope.cpp | 48 ++++++++++++++++++++++++++++++++++++++++--------
 src/scope.h   |  3 +++
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index aa4fd70..bbba7bd 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -198,15 +198,35 @@ scope(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> guard(Registry::lock());
 
+    return fill(name, [] (Scope*) {});
+}
+
+// Scopes that don't exist yet only become visible once fn succeeded, which means
+// that a failure leaves no trace.
+template<typename Fn>
+Scope*
+Scope::
+fill(const std::string& name, const Fn& fn)
+{
     auto split = head(name);
 
+    std::unique_ptr<Scope> created;
+
     auto it = scopes_.find(split.first);
-    if (it == scopes_.end()) {
-        std::unique_ptr<Scope> scope(new Scope(split.first, this));
-        it = scopes_.emplace(split.first, scope.release()).first;
+    if (it == scopes_.end()) created.reset(new Scope(split.first, this));
+
+    Scope* child = created ? created.get() : it->second;
+    Scope* result = child;
+
+    if (split.second.empty()) fn(child);
+    else result = child->fill(split.second, fn);
+
+    if (created) {
+        scopes_.emplace(split.first, child);
+        created.release();
     }
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    return result;
 }
 
 
@@ -310,7 +330,7 @@ addType(const std::string& name)
     if (fnIt != functions_.end())
         reflectError("<%s> conflicts with function in <%s>", name, id());
 
-    scope(split.first)->addType(split.second);
+    fill(split.first, [&] (Scope* scope) { scope->addType(split.second); });
 }
 
 
@@ -326,10 +346,22 @@ addFunction(const std::string& name, Function&& fn)
 
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->addFunction(split.first, std::move(fn));
+    if (!split.second.empty()) {
+        fill(split.second, [&] (Scope* scope) {
+                    scope->addFunction(split.first, std::move(fn));
+                });
+        return;
+    }
+
+    auto it = functions_.find(split.first);
+    if (it != functions_.end()) {
+        it->second.add(std::move(fn));
+        return;
+    }
 
-    functions_[split.first].add(std::move(fn));
+    Overloads overloads;
+    overloads.add(std::move(fn));
+    functions_.emplace(split.first, std::move(overloads));
 }
 
 std::vector<std::string>
diff --git a/src/scope.h b/src/scope.h
index 86c3e84..dd45f10 100644
--- a/src/scope.h
+++ b/src/scope.h
@@ -61,6 +61,9 @@ struct Scope : public Traits
 
 private:
 
+    template<typename Fn>
+    Scope* fill(const std::string& name, const Fn& fn);
+
     std::string name_;
 
     Scope* parent_;
-- 
2.43.0


From aeb6879f27739706b1b60927a073eb4d8b55bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 09/33] fix: don't leave an empty function behind when adding
 it to a type fails

---
 src/type.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/type.cpp b/src/type.cpp
index fa66f24..2589b0c 100644
--- a/src/type.cpp
+++ b/src/type.cpp
@@ -97,7 +97,15 @@ addFunction(const std::string& name, Function&& fn)
                 name, it->second.print(), id());
     }
 
-    fns_[name].add(std::move(fn));
+    auto fnIt = fns_.find(name);
+    if (fnIt != fns_.end()) {
+        fnIt->second.add(std::move(fn));
+        return;
+    }
+
+    Overloads overloads;
+    overloads.add(std::move(fn));
+    fns_.emplace(name, std::move(overloads));
 }
 
 void
-- 
2.43.0


From 34d9c746c76135ad908b645467d6cbbfc508491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 10/33] fix: initialize the reference type of void arguments

---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 3a8518a..551dfc8 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -41,7 +41,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 0f80a596bfc028e5aac72ff111c48afe4c8d54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 11/33] fix: handle running out of memory when creating a
 function

---
 src/function.tcc       | 6 ++++--
 src/value_function.cpp | 7 ++++++-
 src/value_function.h   | 8 +++++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/function.tcc b/src/function.tcc
index 5e5529d..e01d397 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -118,11 +118,13 @@ std::vector<Argument> reflectArguments(Args&&... args)
 template<typename Fn>
 Function::
 Function(const std::string& name, Fn fn) :
-    fn(makeValueFunction(std::move(fn))),
-    name_(name)
+    fn(nullptr), name_(name)
 {
     ret = reflectReturn<Fn>();
     args = reflectArguments<Fn>();
+
+    // Must come last because our destructor isn't called if we throw.
+    this->fn = makeValueFunction(std::move(fn));
 }
 
 
diff --git a/src/value_function.cpp b/src/value_function.cpp
index bf0baf1..921b9a7 100644
--- a/src/value_function.cpp
+++ b/src/value_function.cpp
@@ -7,6 +7,9 @@
 
 #include "reflect.h"
 
+#include <cstdlib>
+#include <new>
+
 namespace reflect {
 
 /******************************************************************************/
@@ -15,7 +18,9 @@ namespace reflect {
 
 void* allocValueFunction(size_t size)
 {
-    return std::malloc(size);
+    void* ptr = std::malloc(size);
+    if (!ptr) throw std::bad_alloc();
+    return ptr;
 }
 
 void freeValueFunction(void* fn)
diff --git a/src/value_function.h b/src/value_function.h
index 28fb062..e1e98ff 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -24,6 +24,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <cstdlib>
+
 namespace reflect {
 
 
@@ -156,7 +158,11 @@ auto makeValueFunction(Fn fn) -> typename MakeValueFunction<Fn>::type*
     typedef typename MakeValueFunction<Fn>::type ValueFn;
 
     ValueFn* ptr = (ValueFn*) allocValueFunction(sizeof(ValueFn));
-    new (ptr) ValueFn(std::move(fn));
+    try { new (ptr) ValueFn(std::move(fn)); }
+    catch (...) {
+        std::free(ptr);
+        throw;
+    }
     return ptr;
 }
 
-- 
2.43.0


From d3e0373ab38ea6e019b82b1a2cf3b0c8c0eff3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 12/33] fix: free the replaced function when move assigning
 functions

---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From c20ec04ffed9b49377f0d30374657b96ef79700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 13/33] fix: don't read past the end of long error messages

---
 src/error.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..de4d73f 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -7,6 +7,7 @@
 
 #include "reflect.h"
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdarg>
 
@@ -22,9 +23,13 @@ std::string verrorFormat(const char* fmt, ...)
     va_start(args, fmt);
 
     char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
 
-    return std::string(buf, n);
+    if (n < 0) return fmt;
+
+    // Returns the length of the message before truncation.
+    return std::string(buf, std::min(size_t(n), sizeof(buf) - 1));
 }
 
 
-- 
2.43.0


From 2bbd34dd46ac63c1fc56436fae4513f8d126c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 14/33] fix: report malformed json instead of throwing,
 aborting or accepting it

Unexpected tokens ended up in Token conversions that throw or abort, so did
numbers that are malformed or out of range, while input that ended in an object
or array was accepted. A number without a decimal point is also a valid float,
which is how whole floats are printed.
---
 src/utils/json/json.cpp   |  3 +++
 src/utils/json/parser.tcc | 31 +++++++++++++++++++------
 src/utils/json/token.cpp  | 48 ++++++++++++++++++++++++++++++++++-----
 src/utils/json/token.h    |  5 ++++
 4 files changed, 74 insertions(+), 13 deletions(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..689f95c 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -16,6 +16,9 @@
 
 #include <mutex>
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 
 #include "reader.cpp"
 #include "writer.cpp"
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..85d30df 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,27 +21,37 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+
+    int64_t value = 0;
+    if (token.type() == Token::Int && !token.toInt(value))
+        reader.error("invalid integer %s", token.print());
+
+    return value;
 }
 
 double parseFloat(Reader& reader)
 {
     Token token = reader.nextToken();
 
-    if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    double value = 0;
+    if (token.type() != Token::Int && !reader.assertToken(token, Token::Float));
+    else if (!token.toFloat(value))
+        reader.error("invalid float %s", token.print());
 
-    return token.asFloat();
+    return value;
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
@@ -59,8 +69,11 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
         const std::string& key = token.asString();
+
         token = reader.expectToken(Token::KeySeparator);
+        if (token.type() != Token::KeySeparator) return;
 
         fn(key);
 
@@ -68,6 +81,8 @@ void parseObject(Reader& reader, const Fn& fn)
         if (token.type() == Token::ObjectEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of object");
 }
 
 template<typename Fn>
@@ -90,6 +105,8 @@ void parseArray(Reader& reader, const Fn& fn)
         if (token.type() == Token::ArrayEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of array");
 }
 
 
@@ -117,7 +134,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..76a99df 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -42,17 +42,44 @@ asInt() const
     if (type_ != Int)
         reflectError("invalid conversion of token %s to <int>", print());
 
-    return std::stol(*value_);
+    int64_t value;
+    if (!toInt(value))
+        reflectError("invalid conversion of token %s to <int>", print());
+
+    return value;
 }
 
 double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    double value;
+    if ((type_ != Float && type_ != Int) || !toFloat(value))
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    return value;
+}
+
+bool
+Token::
+toInt(int64_t& value) const
+{
+    char* end = nullptr;
+
+    errno = 0;
+    value = std::strtoll(value_->c_str(), &end, 10);
+
+    return !errno && end != value_->c_str() && !*end;
+}
+
+bool
+Token::
+toFloat(double& value) const
+{
+    char* end = nullptr;
+    value = std::strtod(value_->c_str(), &end);
+
+    return std::isfinite(value) && end != value_->c_str() && !*end;
 }
 
 const std::string&
@@ -118,7 +145,7 @@ char nextChar(Reader& reader)
         char c = reader.pop();
 
         if (c == '\n') reader.newline();
-        if (std::isspace(c)) continue;
+        if (std::isspace((unsigned char) c)) continue;
 
         if (c == '/' && reader.peek() == '/') {
             if (!reader.allowComments())
@@ -287,9 +314,13 @@ Token::Type readNumber(Reader& reader, char c)
     reader.resetBuffer();
     reader.save(c); // can be either - or [0-9].
 
+    bool digits = std::isdigit(c);
+
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        while (reader && (c = reader.peek()) >= '0' && c <= '9') {
             reader.save(reader.pop());
+            digits = true;
+        }
     };
 
     auto readChar = [&] (char c) {
@@ -316,9 +347,14 @@ Token::Type readNumber(Reader& reader, char c)
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
-        readDigits();
+
+        if (digits) {
+            digits = false;
+            readDigits();
+        }
     }
 
+    if (!digits) reader.error("missing digits in number");
     return type;
 }
 
diff --git a/src/utils/json/token.h b/src/utils/json/token.h
index 417468e..92e3608 100644
--- a/src/utils/json/token.h
+++ b/src/utils/json/token.h
@@ -37,6 +37,11 @@ struct Token
     bool asBool() const;
     int64_t asInt() const;
     double asFloat() const;
+
+    // Return false if the number is malformed or out of range.
+    bool toInt(int64_t& value) const;
+    bool toFloat(double& value) const;
+
     const std::string& asString() const;
 
     std::string print() const;
-- 
2.43.0


From 0825afa8cac809239bb1a4cac9014ebc303fc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 15/33] fix: stop at invalid UTF-8 headers

A 0xFF byte counted the leading zeros of zero and both invalid headers and the
end of the input were followed by shifts by a negative amount.
---
 src/utils/json/format.cpp | 20 ++++++++++++++++----
 src/utils/json/token.cpp  |  6 +++++-
 src/utils/json/utils.h    |  5 ++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..33016f4 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -56,8 +56,14 @@ void formatFloat(Writer& writer, double value)
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -76,8 +82,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 76a99df..157ff3a 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -246,7 +246,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
@@ -272,6 +275,7 @@ void readString(Reader& reader)
 
     while (reader) {
         char c = reader.pop();
+        if (!reader) break;
 
         if (c == '\n') {
             reader.error("invalid \\n character in a string");
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..1384500 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,10 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+size_t clz(char value)
+{
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 137126cc42c8797b4a8d6df13f27a00629d292b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 16/33] fix: use surrogate pairs to escape code points above
 0xFFFF

They were printed with five hex digits, of which the last is parsed as a
character of its own, and the surrogate pairs of others were not combined.
---
 src/utils/json/format.cpp |  9 ++++++++-
 src/utils/json/token.cpp  | 24 +++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 33016f4..6d68e12 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -74,7 +74,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
-    format(writer, "\\u%04x", code);
+    if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF))
+        writer.error("invalid UTF-8 code point");
+
+    else if (code <= 0xFFFF) format(writer, "\\u%04x", code);
+    else {
+        format(writer, "\\u%04x", 0xD800 + ((code - 0x10000) >> 10));
+        format(writer, "\\u%04x", 0xDC00 + ((code - 0x10000) & 0x3FF));
+    }
 
     return i - 1;
 }
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 157ff3a..9746d4d 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -171,7 +171,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -188,8 +188,30 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
     if (!reader) return;
 
+    // Code points above 0xFFFF are split in a high and a low surrogate.
+    if (code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+        if (code <= 0xDBFF && reader.pop() == '\\' && reader && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (!reader) return;
+        if (low < 0xDC00 || low > 0xDFFF) {
+            reader.error("unpaired surrogate in unicode code point");
+            return;
+        }
+
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
-- 
2.43.0


From de3b235a5a1818a670d4d626ec362365f489a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 17/33] fix: set raw pointers to null when parsing a json null

The local Value was replaced instead, by one of the pointee's type, so pointers
kept their value and arrays and maps of pointers didn't accept a null.
---
 src/utils/json/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..ce0ec59 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -94,6 +94,7 @@ struct PointerParser : public Parser
 {
     void init(const Type* type)
     {
+        this->type = type;
         inner.init(type->pointee());
         isSmartPtr = type->is("smartPtr");
     }
@@ -104,7 +105,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(type->construct());
 
             return;
         }
@@ -125,6 +126,7 @@ struct PointerParser : public Parser
     }
 
 private:
+    const Type* type;
     TypeParser inner;
     bool isSmartPtr;
 };
-- 
2.43.0


From 973e670d1ee330317bdcf9fae7f62bc097d6b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 18/33] fix: report json that couldn't be written to its stream

---
 src/utils/json/printer.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..86cc663 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -107,6 +107,7 @@ Error print(Writer& writer, const T& value)
 {
     Value v = cast<Value>(value);
     print(writer, v);
+    if (!writer && !writer.error()) writer.error("unable to write to the stream");
     return writer.error();
 }
 
-- 
2.43.0


From 7797b4f5ffb44bc5f2dbf69aca419f76245d8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 19/33] fix: print to output streams instead of parsing from
 them

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index 86cc663..ac481d1 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -115,7 +115,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From 79ed1fea774e82e461bcd05866ce7e18986317e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 20/33] fix: don't read past the end of the padding of deeply
 nested json

---
 src/utils/json/writer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..765140a 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,12 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    for (size_t n = indent_ * 4; n > 0;) {
+        size_t k = std::min(n, spaces.size());
+        push(spaces.c_str(), k);
+        n -= k;
+    }
 }
 
 } // namespace json
-- 
2.43.0


From 720d54c5b30996127f385223d49e8dd8508ae685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 21/33] fix: report an error instead of printing nan and inf as
 json

---
 src/utils/json/format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 6d68e12..8fa89b0 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -50,6 +50,11 @@ void formatInt(Writer& writer, int64_t value)
 
 void formatFloat(Writer& writer, double value)
 {
+    if (!std::isfinite(value)) {
+        writer.error("json can't represent non-finite numbers");
+        return;
+    }
+
     format(writer, "%1.12g", value);
 }
 
-- 
2.43.0


From 38da1cc87996bdb64d9f57bc2311431b1851ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 22/33] fix: let values be printed to output streams

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index ac481d1..f3d00e2 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -115,7 +115,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return print(writer, value);
+    return print<T>(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From 24ce7fb6473b547bbef524627098f00aa326ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 23/33] fix: forget json parsers and printers that couldn't be
 initialized

They were kept half initialized and then used. The check for duplicate keys of
printers compared the names of the fields, which are never duplicates.
---
 src/utils/json/parser.cpp  | 24 ++++++++++++++++++++----
 src/utils/json/printer.cpp | 28 ++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index ce0ec59..582177c 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -335,10 +335,14 @@ struct ValueParser : public Parser
 
 const Parser* getParser(const Type* type)
 {
-    static std::unordered_map<const Type*, const Parser*> parsers;
+    static std::unordered_map<const Type*, std::unique_ptr<Parser> > parsers;
+
+    // Types whose parser is still being initialized. They can refer to each other
+    // which means that if one fails then so must those that came after it.
+    static std::vector<const Type*> pending;
 
     auto it = parsers.find(type);
-    if (it != parsers.end()) return it->second;
+    if (it != parsers.end()) return it->second.get();
 
     Parser* parser = nullptr;
 
@@ -356,9 +360,21 @@ const Parser* getParser(const Type* type)
 
     else parser = new ObjectParser;
 
-    parsers[type] = parser;
-    parser->init(type);
+    std::unique_ptr<Parser> owner(parser);
+    const size_t start = pending.size();
+    pending.push_back(type);
+
+    try {
+        parsers[type] = std::move(owner);
+        parser->init(type);
+    }
+    catch (...) {
+        for (; pending.size() > start; pending.pop_back())
+            parsers.erase(pending.back());
+        throw;
+    }
 
+    if (!start) pending.clear();
     return parser;
 }
 
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..5951155 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
@@ -340,10 +340,14 @@ private:
 
 const Printer* getPrinter(const Type* type)
 {
-    static std::unordered_map<const Type*, const Printer*> printers;
+    static std::unordered_map<const Type*, std::unique_ptr<Printer> > printers;
+
+    // Types whose printer is still being initialized. They can refer to each other
+    // which means that if one fails then so must those that came after it.
+    static std::vector<const Type*> pending;
 
     auto it = printers.find(type);
-    if (it != printers.end()) return it->second;
+    if (it != printers.end()) return it->second.get();
 
     Printer* printer = nullptr;
 
@@ -362,9 +366,21 @@ const Printer* getPrinter(const Type* type)
 
     else printer = new ObjectPrinter;
 
-    printers[type] = printer;
-    printer->init(type);
+    std::unique_ptr<Printer> owner(printer);
+    const size_t start = pending.size();
+    pending.push_back(type);
+
+    try {
+        printers[type] = std::move(owner);
+        printer->init(type);
+    }
+    catch (...) {
+        for (; pending.size() > start; pending.pop_back())
+            printers.erase(pending.back());
+        throw;
+    }
 
+    if (!start) pending.clear();
     return printer;
 }
 
-- 
2.43.0


From 1e9a6bccd9d407d62674c5890f71018dfc29a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 24/33] fix: keep arguments alive until the result of a
 reflected call was converted

---
 src/function.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.tcc b/src/function.tcc
index e01d397..8e87785 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -167,8 +167,8 @@ call(Args&&... args) const
     typedef ValueFunction<sizeof...(Args)> Fn;
     Fn& typedFn = *static_cast<Fn*>(fn);
 
-    Value ret = typedFn(cast<Value>(std::forward<Args>(args))...);
-    return retCast<Ret>(ret);
+    // Must be a single expression: the result might refer to the temporaries.
+    return retCast<Ret>(typedFn(cast<Value>(std::forward<Args>(args))...));
 }
 
 } // reflect
-- 
2.43.0


From 54b938efc290310676dd658ab3a3e3bf98008248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 25/33] fix: a moved-from Value doesn't keep referring to what
 it gave away

---
 src/value.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value.cpp b/src/value.cpp
index 5e0c84d..ca50f69 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -53,7 +53,10 @@ Value(Value&& other) :
     arg(std::move(other.arg)),
     value_(std::move(other.value_)),
     storage(std::move(other.storage))
-{}
+{
+    other.arg = Argument();
+    other.value_ = nullptr;
+}
 
 Value&
 Value::
@@ -65,6 +68,9 @@ operator=(Value&& other)
     value_ = std::move(other.value_);
     storage = std::move(other.storage);
 
+    other.arg = Argument();
+    other.value_ = nullptr;
+
     return *this;
 }
 
-- 
2.43.0


From dc9bc28f18de04902ea018143dae81013c6e891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 26/33] fix: scopes created for a registration that fails
 aren't leaked

---
 src/scope.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index bbba7bd..2b03b5a 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -201,8 +201,8 @@ scope(const std::string& name)
     return fill(name, [] (Scope*) {});
 }
 
-// Scopes that don't exist yet only become visible once fn succeeded, which means
-// that a failure leaves no trace.
+// Scopes that don't exist yet are removed again if fn fails, which means that a
+// failure leaves no trace.
 template<typename Fn>
 Scope*
 Scope::
@@ -210,23 +210,24 @@ fill(const std::string& name, const Fn& fn)
 {
     auto split = head(name);
 
-    std::unique_ptr<Scope> created;
+    auto ret = scopes_.emplace(split.first, nullptr);
+    Scope*& child = ret.first->second;
 
-    auto it = scopes_.find(split.first);
-    if (it == scopes_.end()) created.reset(new Scope(split.first, this));
-
-    Scope* child = created ? created.get() : it->second;
-    Scope* result = child;
+    try {
+        if (ret.second) child = new Scope(split.first, this);
 
-    if (split.second.empty()) fn(child);
-    else result = child->fill(split.second, fn);
+        if (!split.second.empty()) return child->fill(split.second, fn);
 
-    if (created) {
-        scopes_.emplace(split.first, child);
-        created.release();
+        fn(child);
+        return child;
+    }
+    catch (...) {
+        if (ret.second) {
+            delete child;
+            scopes_.erase(ret.first);
+        }
+        throw;
     }
-
-    return result;
 }
 
 
-- 
2.43.0


From ce6c670736195efc59242a3cb10b804784a49c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 27/33] fix: looking up a nested scope doesn't create it

---
 src/scope.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 2b03b5a..41d4533 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -189,7 +189,11 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    if (split.second.empty()) return it->second;
+
+    // The const overload doesn't create missing scopes.
+    const Scope* child = it->second;
+    return child->scope(split.second);
 }
 
 Scope*
-- 
2.43.0


From 6cb2309fe6d25fb003494c027dbe9e20828cda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 28/33] fix: let reflections use json while other threads look
 up parsers and printers

---
 src/utils/json/parser.cpp  | 4 ++++
 src/utils/json/printer.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index 582177c..eb7d026 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -380,6 +380,10 @@ const Parser* getParser(const Type* type)
 
 const Parser* getParserLocked(const Type* type)
 {
+    // Always taken first because reflections, which run with the registry locked,
+    // are free to use json.
+    std::lock_guard<std::recursive_mutex> registryGuard(Registry::lock());
+
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index 5951155..efcbc3e 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -386,6 +386,10 @@ const Printer* getPrinter(const Type* type)
 
 const Printer* getPrinterLocked(const Type* type)
 {
+    // Always taken first because reflections, which run with the registry locked,
+    // are free to use json.
+    std::lock_guard<std::recursive_mutex> registryGuard(Registry::lock());
+
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-- 
2.43.0


From 6f21e6a9dab35b11db5d7bbbe5ec5c82bde81b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 29/33] fix: json supports all the primitive numbers and not
 just int64_t and double

Parsing or printing any other type of number raised an error because numbers
aren't convertible to one another.
---
 src/utils/json/json.cpp    |  1 +
 src/utils/json/parser.cpp  | 39 ++++++++++++++++++++++++++++++++++++--
 src/utils/json/printer.cpp | 38 +++++++++++++++++++++++++++++++++++--
 src/utils/json/utils.h     | 31 ++++++++++++++++++++++++++++++
 4 files changed, 105 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 689f95c..caa9243 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -19,6 +19,7 @@
 #include <cerrno>
 #include <cmath>
 #include <cstdlib>
+#include <limits>
 
 #include "reader.cpp"
 #include "writer.cpp"
diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index eb7d026..4d72afe 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -77,6 +77,41 @@ struct FloatParser : public Parser
     }
 };
 
+// Used for the numbers that aren't int64_t or double.
+
+template<typename T>
+struct SizedIntParser : public Parser
+{
+    void parse(Reader& reader, Value& value) const
+    {
+        int64_t i = parseInt(reader);
+
+        bool isNegative = i < 0 && !std::numeric_limits<T>::is_signed;
+        if (isNegative || static_cast<int64_t>(static_cast<T>(i)) != i) {
+            reader.error("integer <%ld> is out of range", i);
+            i = 0;
+        }
+
+        value.assign(static_cast<T>(i));
+    }
+};
+
+template<typename T>
+struct SizedFloatParser : public Parser
+{
+    void parse(Reader& reader, Value& value) const
+    {
+        double f = parseFloat(reader);
+
+        if (std::abs(f) > std::numeric_limits<T>::max()) {
+            reader.error("float <%g> is out of range", f);
+            f = 0;
+        }
+
+        value.assign(static_cast<T>(f));
+    }
+};
+
 struct StringParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
@@ -347,8 +382,8 @@ const Parser* getParser(const Type* type)
     Parser* parser = nullptr;
 
     if (type->is("bool")) parser = new BoolParser;
-    else if (type->is("float")) parser = new FloatParser;
-    else if (type->is("integer")) parser = new IntParser;
+    else if (type->is("float")) parser = newFloat<Parser, FloatParser, SizedFloatParser>(type);
+    else if (type->is("integer")) parser = newInt<Parser, IntParser, SizedIntParser>(type);
     else if (type->is("string")) parser = new StringParser;
 
     else if (type->isPointer()) parser = new PointerParser;
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index efcbc3e..5470521 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -124,6 +124,40 @@ struct FloatPrinter : public Printer
     }
 };
 
+// Used for the numbers that aren't int64_t or double.
+
+template<typename T>
+struct SizedIntPrinter : public Printer
+{
+    bool isEmpty(const Value& value) const
+    {
+        return cast<const T&>(value) == 0;
+    }
+
+    void print(Writer& writer, const Value& value) const
+    {
+        T i = cast<const T&>(value);
+
+        if (i > 0 && static_cast<int64_t>(i) < 0)
+            writer.error("integer is out of range");
+        else printInt(writer, static_cast<int64_t>(i));
+    }
+};
+
+template<typename T>
+struct SizedFloatPrinter : public Printer
+{
+    bool isEmpty(const Value& value) const
+    {
+        return cast<const T&>(value) == 0;
+    }
+
+    void print(Writer& writer, const Value& value) const
+    {
+        printFloat(writer, static_cast<double>(cast<const T&>(value)));
+    }
+};
+
 struct StringPrinter : public Printer
 {
     bool isEmpty(const Value& value) const
@@ -352,8 +386,8 @@ const Printer* getPrinter(const Type* type)
     Printer* printer = nullptr;
 
     if (type->is("bool")) printer = new BoolPrinter;
-    else if (type->is("integer")) printer = new IntPrinter;
-    else if (type->is("float")) printer = new FloatPrinter;
+    else if (type->is("integer")) printer = newInt<Printer, IntPrinter, SizedIntPrinter>(type);
+    else if (type->is("float")) printer = newFloat<Printer, FloatPrinter, SizedFloatPrinter>(type);
     else if (type->is("string")) printer = new StringPrinter;
 
     else if (type->isPointer()) printer = new PointerPrinter;
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 1384500..3dd8eb7 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -17,5 +17,36 @@ size_t clz(char value)
     return value ? __builtin_clz(uint32_t(value) << 24) : 8;
 }
 
+/******************************************************************************/
+/* NUMBERS                                                                    */
+/******************************************************************************/
+// Numbers aren't convertible to one another so each type of number has to be
+// accessed as is. Default is used for int64_t, double and for the types that
+// are not primitives and that convert to and from these.
+
+template<typename Base, typename Default, template<typename> class Specialized>
+Base* newInt(const Type* type)
+{
+    if (type == reflect::type<char>()) return new Specialized<char>;
+    if (type == reflect::type<signed char>()) return new Specialized<signed char>;
+    if (type == reflect::type<unsigned char>()) return new Specialized<unsigned char>;
+    if (type == reflect::type<short>()) return new Specialized<short>;
+    if (type == reflect::type<unsigned short>()) return new Specialized<unsigned short>;
+    if (type == reflect::type<int>()) return new Specialized<int>;
+    if (type == reflect::type<unsigned int>()) return new Specialized<unsigned int>;
+    if (type == reflect::type<unsigned long>()) return new Specialized<unsigned long>;
+    if (type == reflect::type<long long>()) return new Specialized<long long>;
+    if (type == reflect::type<unsigned long long>()) return new Specialized<unsigned long long>;
+    return new Default;
+}
+
+template<typename Base, typename Default, template<typename> class Specialized>
+Base* newFloat(const Type* type)
+{
+    if (type == reflect::type<float>()) return new Specialized<float>;
+    if (type == reflect::type<long double>()) return new Specialized<long double>;
+    return new Default;
+}
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 6eac3386524b0740fbd05fe48c28336ab269c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 30/33] fix: printing escaped unicode rejects overlong UTF-8
 encodings

They were printed as the character they'd stand for, which is another text.
---
 src/utils/json/format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 8fa89b0..28b0d41 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -79,6 +79,13 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
+    // Encodings that are longer than they need to be stand for other characters.
+    switch (bytes) {
+    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
+    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
+    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
+    }
+
     if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF))
         writer.error("invalid UTF-8 code point");
 
-- 
2.43.0


From 7c21b1fdab9f0f0c518200bc4eae6e84256a210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:25 +0000
Subject: [PATCH 31/33] fix: comments end the line that they're on

The newline that ends a comment wasn't counted, so errors after comments were
reported on the wrong line.
---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 9746d4d..ab087ba 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -152,6 +152,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (reader) reader.newline();
             continue;
         }
 
-- 
2.43.0


From b1c34b762d61ba4947380f95a8935f473df70b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:17 +0000
Subject: [PATCH 32/33] fix: reflectOperators() reflects operator* once

---
 src/dsl/operators.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..1c092dd 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -209,7 +209,10 @@ reflectOpFn(operator*,   Indirection)
         reflectOpArithmetic();                  \
         reflectOpLogical();                     \
         reflectOpComparaison();                 \
-        reflectOpOther();                       \
+        /* reflectOpOther() without the operator* that */ \
+        /* reflectOpArithmetic() reflected already.    */ \
+        reflectOp(operator(), Function);        \
+        reflectOp(operator[], Array);           \
     } while(false)
 
 } // reflect
-- 
2.43.0


From 454671ac4662587d0c12309419e0bde3d7421645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:24 +0000
Subject: [PATCH 33/33] fix: reflectOpCast() names the converter after the
 type's id

Converters are looked up by the id of the type that's converted to, so those
declared with another spelling of the type, as in reflectOpCast(long), could
never be used.
---
 src/dsl/operators.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 1c092dd..9f4bc7c 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -60,7 +60,9 @@ namespace reflect {
 /******************************************************************************/
 
 #define reflectOpCast(type)                                     \
-    type_->addFunction("operator " #type "()", &T_::operator type)
+    type_->addFunction(                                         \
+            "operator " + reflect::typeId<type>() + "()",       \
+            &T_::operator type)
 
 
 /******************************************************************************/
-- 
2.43.0

