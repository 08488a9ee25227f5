From 1ab3bcdece73e1058d8259e28dd4e120edfe0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 01/15] fix: notify ids of deferred removals at the front of a
 RecursiveCallback

---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..eb99565 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From 52a03f6cd9158f3bcc9c1171532c624b00b2a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 02/15] fix: stop RecursiveCallback::call at the last entry
 even if it was removed

---
 nytl/recursiveCallback.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index eb99565..1706650 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -273,11 +273,13 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above).
+			// Also check this if last itself was already removed
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -288,9 +290,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From d698cf99405592784722622c48a8eb5501c3e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 03/15] fix: do not remove a function of a RecursiveCallback
 twice via a tracked id

---
 nytl/recursiveCallback.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 1706650..3bc1bb6 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -327,7 +327,9 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// an id that is not valid (anymore) belongs to no registered function,
+	// even if its function is still waiting for the deferred removal
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From a7a8732abff4530c07dbd62fa76ddab6e4b79839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 04/15] fix: keep the removal time of already removed functions
 in RecursiveCallback::clear

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bc1bb6..c87cc33 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -310,7 +310,7 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) { // otherwise already formally removed
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From e69e38b1b1aab534e76d358b07764f5a9f46e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 05/15] fix: unregister the entry in RecursiveCallback::add if
 wrapping the function fails

---
 nytl/recursiveCallback.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c87cc33..8531206 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -238,6 +238,9 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
+
+	// wrapping the function might throw, don't leave an empty function then
+	auto guard = ExceptionGuard([&]{ disconnect(sub.id); });
 	sub.func = [conn, f = std::move(func)](Args... args) {
 		return f(conn, std::forward<Args>(args)...);
 	};
-- 
2.43.0


From 764ddb9a3cdf7bb0d7dde5b4dff12c5bc275de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 06/15] fix: notify the id of the removed function in
 RecursiveCallback::disconnect, not the next one

---
 nytl/recursiveCallback.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 8531206..c897047 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -362,11 +362,10 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 
 		if(next->id.get() == id.get()) {
 			if(remove) {
-				// set this before id.removed might change stuff
+				next->id.removed();
 				if(++next == subs_.end()) {
 					last_ = it;
 				}
-				next->id.removed();
 				subs_.erase_after(it);
 			} else {
 				next->id.set(-callID_);
-- 
2.43.0


From c64012fc763e442f173b5036fb6c7f5b827f1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 07/15] fix: allow functions in a RecursiveCallback to own
 connections to it

---
 nytl/recursiveCallback.hpp | 49 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c897047..a064ab7 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -160,29 +160,24 @@ protected:
 	// Removes all old functions that could previously
 	// not be removed because of an active iteration.
 	void removeOld() noexcept {
-		++iterationCount_;
-
-		// just remove subscriptions with id <= 0 and update last_
-		auto it = subs_.begin();
-		while(it != subs_.end() && it->id.get() <= 0) {
-			it->id.removed();
-			subs_.pop_front();
-			it = subs_.begin();
-		}
-
-		if(it != subs_.end()) {
-			for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
-				if(next->id.get() <= 0) {
-					next->id.removed();
-					subs_.erase_after(it);
-				} else {
-					++it;
-				}
+		// just remove subscriptions with id <= 0 and update last_.
+		// Only destroy the functions after that since their destructors
+		// might access (e.g. disconnect from) this callback again.
+		decltype(subs_) old;
+		auto oldLast = old.before_begin();
+
+		auto it = subs_.before_begin();
+		for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
+			if(next->id.get() <= 0) {
+				next->id.removed();
+				old.splice_after(oldLast, subs_, it);
+				++oldLast;
+			} else {
+				++it;
 			}
 		}
 
-		last_ = it;
-		--iterationCount_;
+		last_ = subs_.empty() ? subs_.end() : it;
 	}
 
 	// TODO: maybe cache current size for performance?
@@ -320,8 +315,10 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 
 	// clear/remove only if no one is currently iterating
 	// we only reset end_ (not really needed, cleanup for easier debugging)
+	// the destructors of the functions might access this callback again
 	if(remove) {
-		subs_.clear();
+		decltype(subs_) old;
+		old.swap(subs_);
 		last_ = subs_.end();
 	}
 }
@@ -338,11 +335,15 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 
 	auto remove = (iterationCount_ == 0);
 
+	// holds the removed subscription until we are done here since the
+	// destructor of its function might access this callback again
+	decltype(subs_) old;
+
 	// check for first one
 	if(subs_.begin()->id.get() == id.get()) {
 		if(remove) {
 			subs_.begin()->id.removed();
-			subs_.pop_front();
+			old.splice_after(old.before_begin(), subs_, subs_.before_begin());
 			if(subs_.empty()) {
 				last_ = subs_.end();
 			}
@@ -363,10 +364,10 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				next->id.removed();
-				if(++next == subs_.end()) {
+				old.splice_after(old.before_begin(), subs_, it);
+				if(std::next(it) == subs_.end()) {
 					last_ = it;
 				}
-				subs_.erase_after(it);
 			} else {
 				next->id.set(-callID_);
 			}
-- 
2.43.0


From 2a95fccfd66885754b1a528809323af362480f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 08/15] fix: return the released connection from
 UniqueConnectionT::release

---
 nytl/connection.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..69448d3 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,9 +147,13 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_) {
+			ret = {*connectable_, id_};
+		}
+
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From 4d19e12ed63ac8bba29fa3655ef3ef150da8d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 09/15] fix: pass by-value callback arguments unchanged to all
 functions

---
 nytl/callback.hpp          |  5 +++--
 nytl/recursiveCallback.hpp |  5 +++--
 nytl/tmpUtil.hpp           | 13 +++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..e8de603 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -12,6 +12,7 @@
 #include <nytl/connection.hpp> // nytl::BasicConnection
 #include <nytl/nonCopyable.hpp> // nytl::NonCopyable
 #include <nytl/scope.hpp> // nytl::ScopeGuard
+#include <nytl/tmpUtil.hpp> // nytl::forwardMultiple
 
 #include <functional> // std::function
 #include <utility> // std::move
@@ -175,13 +176,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(forwardMultiple<Args>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(forwardMultiple<Args>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index a064ab7..e6cdb83 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -12,6 +12,7 @@
 #include <nytl/connection.hpp> // nytl::BasicConnection
 #include <nytl/nonCopyable.hpp> // nytl::NonCopyable
 #include <nytl/scope.hpp> // nytl::ScopeGuard
+#include <nytl/tmpUtil.hpp> // nytl::forwardMultiple
 
 #include <functional> // std::function
 #include <forward_list> // std::forward_list
@@ -270,7 +271,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(forwardMultiple<Args>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -287,7 +288,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(forwardMultiple<Args>(a)...));
 			}
 
 			if(it == last) {
diff --git a/nytl/tmpUtil.hpp b/nytl/tmpUtil.hpp
index 700545f..f9df651 100644
--- a/nytl/tmpUtil.hpp
+++ b/nytl/tmpUtil.hpp
@@ -77,6 +77,19 @@ template<typename A, typename> using Variadic = A;
 template<typename V, typename T>
 decltype(auto) constexpr templatize(T&& value) { return std::forward<T>(value); }
 
+/// \brief Like std::forward but for an argument that will be used multiple times.
+/// Forwards references but will not allow to move from an argument taken by value, as long
+/// as it can be copied instead.
+/// \module utility
+template<typename T>
+decltype(auto) constexpr forwardMultiple(std::remove_reference_t<T>& value) {
+	if constexpr(std::is_reference_v<T> || !std::is_copy_constructible_v<T>) {
+		return static_cast<T&&>(value);
+	} else {
+		return static_cast<const T&>(value);
+	}
+}
+
 
 namespace detail {
 	template<template<class...> typename E, typename C, typename... T>
-- 
2.43.0


From cd8025797a6b7676a55c2e6a1e0aa0ecb3790f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 10/15] fix: respect ids removed from the outside in Callback

---
 nytl/callback.hpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index e8de603..94014f6 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -171,18 +171,21 @@ add(std::function<Ret(Args...)> func) {
 template<typename Ret, typename... Args, typename ID>
 auto Callback<Ret(Args...), ID>::call(Args... a)
 {
-	// the first continue check is needed to not call functions that were
-	// removed before this call started but call functions that were removed
-	// only by some other callback function
+	// subscriptions without valid id were removed from the outside
 	if constexpr(std::is_same<Ret, void>::value) {
-		for(auto& func : subs_)
-			func.func(forwardMultiple<Args>(a)...);
+		for(auto& func : subs_) {
+			if(func.id.get() > 0) {
+				func.func(forwardMultiple<Args>(a)...);
+			}
+		}
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(forwardMultiple<Args>(a)...));
+			if(func.id.get() > 0) {
+				ret.push_back(func.func(forwardMultiple<Args>(a)...));
+			}
 		}
 
 		return ret;
@@ -202,21 +205,21 @@ void Callback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool Callback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	constexpr auto pred = [](const auto& s1, const auto& s2) {
-		return s1.id.get() < s2.id.get();
-	};
-
-	// we know that id's are ordered
-	auto ds = Subscription{{}, id}; // dummy
-	auto range = std::equal_range(subs_.begin(), subs_.end(), ds, pred);
-	if(range.first == range.second) {
+	// an invalid id belongs to no registered function. We can't rely on the ids
+	// being ordered since single ones might have been removed from the outside
+	if(id.get() <= 0) {
 		return false;
 	}
 
-	// we can assume that there is only one item in the range
-	range.first->id.removed();
-	subs_.erase(range.first);
-	return true;
+	for(auto it = subs_.begin(); it != subs_.end(); ++it) {
+		if(it->id.get() == id.get()) {
+			it->id.removed();
+			subs_.erase(it);
+			return true;
+		}
+	}
+
+	return false;
 }
 
 } // namespace nytl
-- 
2.43.0


From 029b131b040fd01655566871b84b45cfb4618fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 11/15] fix: return the right subobject when cloning through
 another than the first base

---
 nytl/clone.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..c0b9def 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -11,6 +11,20 @@
 
 namespace nytl {
 
+namespace detail {
+
+/// Returns the T subobject of a clone of the given object.
+/// The clone is given as pointer to the whole new object which does not have to be
+/// where its T base is, e.g. when T isn't the first base.
+template<typename T>
+T* cloneCast(const T& obj, void* clone) {
+	auto whole = static_cast<const char*>(dynamic_cast<const void*>(&obj));
+	auto offset = reinterpret_cast<const char*>(&obj) - whole;
+	return reinterpret_cast<T*>(static_cast<char*>(clone) + offset);
+}
+
+} // namespace detail
+
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
 /// \requires Type 'T' shall be Cloneable (i.e. derived from a nytl::Cloneable or
@@ -18,7 +32,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::cloneCast(obj, obj.doClone()));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +43,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::cloneCast(obj, obj.doCloneMove()));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From 327e5aa8c6072657ca0b21403e7e4c1a833d6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 12/15] fix: restore the stream format in matrix print even if
 the output fails

---
 nytl/matOps.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..f61eeb6 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -11,6 +11,7 @@
 
 #include <nytl/tmpUtil.hpp> // nytl::templatize
 #include <nytl/mat.hpp> // nytl::Mat
+#include <nytl/scope.hpp> // nytl::ScopeGuard
 #include <nytl/vecOps.hpp> // nytl::dot
 
 #include <utility> // std::swap
@@ -49,6 +50,15 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 
 	auto& os = templatize<T>(ostream);
 	auto org = os.precision();
+
+	// also restore the format if outputting fails
+	auto formatGuard = ScopeGuard([&]{
+		if(valueWidth) {
+			os.width(0);
+			os.precision(org);
+		}
+	});
+
 	os << "{" << "\n";
 
 	// returns the number of digits needed to present the integer part of i
@@ -74,7 +84,6 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 
 	os << "}";
 	if(breakAfter) os << "\n";
-	if(valueWidth) os.precision(org);
 	return os;
 }
 
-- 
2.43.0


From ff522992a1096375971abbd7e4677a33c1c64ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 13/15] fix: allow cloneMove to access Cloneable objects

The friend declaration in Cloneable named a function that doesn't exist so that
clone-moving an object via its Cloneable base did not compile.
---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index c0b9def..dffc237 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -130,7 +130,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 1a7562f468dcb4e94fed7d130847329a2609625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 14/15] fix: RecursiveCallback::add: destroy a function that
 could not be stored after its subscription

If wrapping a function with connection parameter runs out of memory, its destructor was
run while the callback still contained the empty subscription: calling the callback there
threw std::bad_function_call, clearing it left a dangling reference.
---
 nytl/recursiveCallback.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index e6cdb83..371c834 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -235,12 +235,16 @@ add(std::function<Ret(Connection, Args...)> func)
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
 
-	// wrapping the function might throw, don't leave an empty function then
-	auto guard = ExceptionGuard([&]{ disconnect(sub.id); });
-	sub.func = [conn, f = std::move(func)](Args... args) {
+	auto wrapped = [conn, f = std::move(func)](Args... args) {
 		return f(conn, std::forward<Args>(args)...);
 	};
 
+	// storing the function might throw, don't leave an empty function then.
+	// The function is only destroyed after that since its destructor
+	// might access this callback.
+	auto guard = ExceptionGuard([&]{ disconnect(sub.id); });
+	sub.func = std::move(wrapped);
+
 	return conn;
 }
 
-- 
2.43.0


From c20002b1576dcaa9bd508ba824593f562d62e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 15/15] fix: skip rows without pivot in reducedRowEcholon
 instead of reading past them

---
 nytl/matOps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index f61eeb6..b491932 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -288,8 +288,8 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 			++c;
 		}
 
-		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		// if there is no pivot (zero row) continue to the next (above) row
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0

