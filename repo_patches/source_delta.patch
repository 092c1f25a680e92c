From 861d8a4c7c9e9adaeb422aa9c70d8c6a02872d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 01/34] fix: RecursiveCallback notifies the ids of leading
 removed subscriptions

removeOld dropped removed subscriptions at the front of the list without
calling removed() on their ids.
---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..eb99565 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From ff45887420c183efdacb02882facff98b7e11dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 02/34] fix: RecursiveCallback::call stops at the last
 subscription even if that was removed

When the last subscription had been removed before a nested call, the
nested call went on and ran functions added after it had started.
---
 nytl/recursiveCallback.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index eb99565..81e5343 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -273,11 +273,12 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -288,9 +289,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From bea02bc945c5c4ee0c007d72ba6fa5c6459b3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 03/34] fix: RecursiveCallback::disconnect notifies the id that
 is removed

The iterator was advanced before removed() was called through it, so the
next id (or the end of the list) was notified instead.
---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 81e5343..c4f624a 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -357,7 +357,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From 720508f7bee7ddec13516e66a4b60c4546f0834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 04/34] fix: RecursiveCallback::clear leaves already removed
 subscriptions alone

Resetting their id to the current call made a nested call run functions
that were removed before that nested call started.
---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c4f624a..2a0593a 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -309,7 +309,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
+			// keep the id of the call in which it was removed otherwise
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From 7641b9fc420b58f156a56a115cbb4d6315022c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 05/34] fix: UniqueConnectionT::release returns the connection

It was declared to return the id and did not compile.
---
 nytl/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..a75ec24 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,9 +147,11 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From 612949f98f3b0a84452c82d229f6a7c6e448b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 06/34] fix: callbacks pass arguments taken by value to every
 function

Forwarding moved them into the first function, all following ones got
moved-from objects.
---
 nytl/callback.hpp          |  4 ++--
 nytl/connection.hpp        | 18 ++++++++++++++++++
 nytl/recursiveCallback.hpp |  4 ++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..ca51800 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -175,13 +175,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(detail::handlerArg<Args>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(detail::handlerArg<Args>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index a75ec24..beb045a 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -12,8 +12,26 @@
 #include <iostream> // std::cerr
 #include <exception> // std::exception
 #include <memory> // std::shared_ptr
+#include <type_traits> // std::is_copy_constructible
+#include <utility> // std::forward
 
 namespace nytl {
+namespace detail {
+
+/// Passes an argument of a callback call on to one of its (possibly many) functions.
+/// Arguments taken by value are copied so that all functions receive the same value,
+/// references (and values that can not be copied) are forwarded.
+template<typename T>
+constexpr decltype(auto) handlerArg(std::remove_reference_t<T>& arg) noexcept
+{
+	if constexpr(std::is_reference_v<T> || !std::is_copy_constructible_v<T>) {
+		return std::forward<T>(arg);
+	} else {
+		return (arg);
+	}
+}
+
+} // namespace detail
 
 /// \brief Interface for classes that can be connected to in some way.
 /// An example (in nytl) is nytl::Callback.
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 2a0593a..ee3bbf0 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -272,7 +272,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(detail::handlerArg<Args>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -288,7 +288,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(detail::handlerArg<Args>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From ad80304145e70ad462a3f87c8ba51642e333016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 07/34] fix: RecursiveCallback::disconnect returns false for
 already removed ids

Tracked ids of a subscription that waits for its final removal still
matched (also other subscriptions removed during the same call).
---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index ee3bbf0..c4ffc29 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -327,7 +327,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// an id that is not positive is invalid or was already removed
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From 1ab84adf18374938f2791163a4146bfde1a5e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 08/34] fix: ConnectionT::disconnect does not use a connectable
 it is no longer connected to

A tracked connection whose callback was destroyed called disconnect on
the destroyed object.
---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index beb045a..911e0bd 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -64,7 +64,7 @@ public:
 	/// Disconnects the represented connection.
 	void disconnect()
 	{
-		if(connectable_)
+		if(connected())
 			connectable_->disconnect(id_);
 		connectable_ = {};
 		id_ = {};
-- 
2.43.0


From 102c06f649087386bafb329f6ecb433f23177756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 09/34] fix: cloneMove works for classes derived from Cloneable

The friend declaration did not match the function.
---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 133a9a130991a1447bab9f28993c66a6a4a8bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 10/34] fix: clone returns the right subobject when the base is
 not the first one

---
 nytl/clone.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..1fdd590 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -10,6 +10,18 @@
 #include <memory> // std::unique_ptr
 
 namespace nytl {
+namespace detail {
+
+/// Returns the T subobject in a clone of obj, i.e. in the most derived object at the given
+/// address. It does not have to be located at the start of the most derived object.
+template<typename T>
+T* clonedObject(const T& obj, void* cloned) {
+	auto offset = reinterpret_cast<const char*>(&obj) -
+		static_cast<const char*>(dynamic_cast<const void*>(&obj));
+	return reinterpret_cast<T*>(static_cast<char*>(cloned) + offset);
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +30,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::clonedObject(obj, obj.doClone()));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +41,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::clonedObject(obj, obj.doCloneMove()));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From cdc14c6260a903755989dbbb5f255007e8894499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 11/34] fix: mapUnsigned and unmapUnsigned work for all values

---
 nytl/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..8468fa7 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,16 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	auto twice = 2u * static_cast<unsigned int>(x);
+	return (x < 0) ? ~twice : twice; // ~twice is -2 * x - 1
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2);
+	return (x % 2) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From 63271dac1a2ce188adc5bf40876de6d0cd9444cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 12/34] fix: vectors can be scaled by one of their own
 components

---
 nytl/vec.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..59b37bf 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const F f = fac; // fac might be a component of vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From da7095a065b82319eb61e4d57b7f0ad9f86d36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 13/34] fix: simplex conversion compiles

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From ed4bbfcf67d6f0c601e00fb96d0094ec18fa7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 14/34] fix: Mat::at can be used on const matrices and with 2
 or 3 columns

---
 nytl/mat.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..96e6bcf 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -39,8 +39,8 @@ public:
 
 	/// Returns the value at position (r, c).
 	/// If this position exceeds the size of the matrix, throws std::out_of_range.
-	constexpr auto& at(size_t r, size_t c) { return at(r).at(c); }
-	constexpr const auto& at(size_t r, size_t c) const { return at(r).at(c); }
+	constexpr auto& at(size_t r, size_t c) { checkCol(c); return at(r)[c]; }
+	constexpr const auto& at(size_t r, size_t c) const { checkCol(c); return at(r)[c]; }
 
 	/// Explicitly casts the Mat to another Mat that may have
 	/// a different precision or dimensions. Will default construct
@@ -52,11 +52,18 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
 
+	/// Utility function that throws std::out_of_range if the matrix does not have
+	/// the given column.
+	constexpr void checkCol(size_t c) const {
+		if(c >= cols())
+			throw std::out_of_range("nytl::Mat::at");
+	}
+
 public:
 	std::array<Vec<C, T>, R> rows_;
 };
-- 
2.43.0


From 62a6e7978fd925154eacb303b1600765dc87e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 15/34] fix: matrices can be multiplied in place by themselves
 and their elements

---
 nytl/mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 96e6bcf..6e04be5 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -103,11 +103,12 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
 	auto tmp = a; // needed since we write to a
+	auto fac = b; // b might be a
 	a = {};
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				a[r][c] += tmp[r][i] * fac[i][c];
 	return a;
 }
 
@@ -124,9 +125,10 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
 constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+	const F fac = f; // f might be an element of a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
-			a[r][c] *= f;
+			a[r][c] *= fac;
 	return a;
 }
 
-- 
2.43.0


From a415b6005b9c049885a2633dae4145a9ab8dab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 16/34] fix: reducedRowEcholon handles zero rows

---
 nytl/matOps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..6dae000 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -279,8 +279,8 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 			++c;
 		}
 
-		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		// if there is no pivot continue to the next (above) row
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0


From ef1218c85c82131ed319ed069ba7e4929eed35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 17/34] fix: the sign of a LU decomposition can be negative

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 6dae000..43212f3 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1;
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From bbbcb2e850a8078270044c06e92d532a856de7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 18/34] fix: luEvaluate applies the permutation of the
 decomposition

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 43212f3..18d53f8 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -410,7 +410,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From ea40d7d3b34eafeb81d0a4d29a66a7da96249796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 19/34] fix: intersects and intersectsReal compare the extents
 per axis

---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..e7a10b1 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] + a.size[i] < b.position[i]) return false;
+		if(b.position[i] + b.size[i] < a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] + a.size[i] <= b.position[i]) return false;
+		if(b.position[i] + b.size[i] <= a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From a9839d9b846fcd70334e651c95d82170f405d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 20/34] fix: difference returns all parts of the first rect
 outside the second

---
 nytl/rectOps.hpp | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index e7a10b1..266f270 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -154,40 +154,38 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
-
 	std::vector<Rect<D, T>> ret;
 	ret.reserve(2 * D);
 
+	if(!intersectsReal(a, b)) {
+		ret.push_back(a);
+		return ret;
+	}
+
+	// cut off the parts before and after b in every dimension
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
+		auto end = rest.position[i] + rest.size[i];
+		auto endb = b.position[i] + b.size[i];
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
+		if(rest.position[i] < b.position[i]) {
+			auto before = rest;
+			before.size[i] = b.position[i] - rest.position[i];
+			ret.push_back(before);
 
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
-
-			ret.push_back({pos, size});
+			rest.position[i] = b.position[i];
+			rest.size[i] = end - b.position[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		if(endb < end) {
+			auto after = rest;
+			after.position[i] = endb;
+			after.size[i] = end - endb;
+			ret.push_back(after);
+
+			rest.size[i] = endb - rest.position[i];
 		}
 	}
 
-- 
2.43.0


From b1f7f5fafb51c56f556fd93b8259d84eb4b38641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 21/34] fix: quaternion dot product

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From 93e399e1bdbbf46406c509edc20e2de90b352ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 22/34] fix: slerp negates one quaternion to take the shorter
 path

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From e61971d86663cd1f554fa6ea7860a2c7eab490bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 23/34] fix: eulerAngles returns classic euler angles in the
 right order

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..bab2f9a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -345,9 +345,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto classicEuler = [](double a, double b, double c, double d, double e,
 			double indet) {
 		auto res = std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 
 		if(std::abs(res[1]) < 0.001) {
-- 
2.43.0


From 29d82b39c3c7af1a50eb1b493c3c4af208d9e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 24/34] fix: eulerAngles handles gimbal lock

---
 nytl/quaternion.hpp | 69 ++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index bab2f9a..e391a14 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -340,27 +340,38 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
-	// in case the middle rotation is zero (indeterminite case)
-	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
-		auto res = std::array<double, 3> {
+	// When the middle rotation aligns the axes of the first and the last
+	// rotation (gimbal lock) only their combination is determined. We choose
+	// the last angle to be zero then. Rounding errors could also
+	// move the sine/cosine of the middle angle slightly out of range.
+	constexpr auto limit = 1.0 - 1e-12;
+	constexpr auto pi = 3.14159265358979323846;
+
+	// i: component of q for the first axis
+	// j, k: components of q for the middle axis and the product of both axes
+	auto classicEuler = [&](double a, double b, double c, double d, double e,
+			double i, double j, double k) {
+		if(c > limit) {
+			return std::array<double, 3>{2 * std::atan2(i, q.w), 0.0, 0.0};
+		} else if(c < -limit) {
+			return std::array<double, 3>{2 * std::atan2(k, j), pi, 0.0};
+		}
+
+		return std::array<double, 3> {
 			std::atan2(a, b),
 			std::acos(c),
 			std::atan2(d, e),
 		};
+	};
 
-		if(std::abs(res[1]) < 0.001) {
-			// need different handling in this case.
-			// (basically middle angle is zero, getting undefined
-			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+	// i: component of q for the first axis
+	auto taitBryan = [&](double a, double b, double c, double d, double e,
+			double i) {
+		if(std::abs(c) > limit) {
+			return std::array<double, 3>{2 * std::atan2(i, q.w),
+				c > 0 ? pi / 2 : -pi / 2, 0.0};
 		}
 
-		return res;
-	};
-
-	auto taitBryan = [](double a, double b, double c, double d, double e) {
 		return std::array<double, 3> {
 			std::atan2(a, b),
 			std::asin(c),
@@ -376,7 +387,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			q.x, q.y, q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +395,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			q.x, q.z, -q.y);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +403,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			q.y, q.x, -q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +411,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			q.y, q.z, q.x);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +419,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			q.z, q.x, q.y);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +427,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			q.z, q.y, -q.x);
 
 	case RotationSequence::xyz:
 		return taitBryan(
@@ -424,42 +435,48 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 		   -2 * (q.x * q.y - q.w * q.z),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			q.x);
 	case RotationSequence::xzy:
 		return taitBryan(
 			2 * (q.y * q.z + q.w * q.x),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			-2 *(q.x * q.y - q.w * q.z),
 			2 *(q.x * q.z + q.w * q.y),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			q.x);
 	case RotationSequence::yxz:
 		return taitBryan(
 			2 * (q.x * q.z + q.w * q.y),
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			-2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			q.y);
 	case RotationSequence::yzx:
 		return taitBryan(
 			-2 * (q.x * q.z - q.w * q.y),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			q.y);
 	case RotationSequence::zxy:
 		return taitBryan(
 			-2 * (q.x * q.y - q.w * q.z),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			q.z);
 	case RotationSequence::zyx:
 	  	return taitBryan(
 			2 * (q.x * q.y + q.w * q.z),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			-2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			q.z);
 
 	default:
 		assert(false && "Invalid rotation sequence");
-- 
2.43.0


From 632086a90bf42d3f9b5b0c68df095b9c6c27e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 25/34] fix: base can be used with double vectors

---
 nytl/transform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..2e66b58 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
-- 
2.43.0


From c4a1c250478c032e229677fc97b611097eab64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 26/34] fix: scaleMat and translateMat can be used with double
 vectors

---
 nytl/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 2e66b58..b0aba8f 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
-- 
2.43.0


From 28a44807bea5a910629f65fe94d6f3ce2d46f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 27/34] fix: ortho and frustum matrices can be created with
 double precision

---
 nytl/transform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index b0aba8f..43a9b21 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
-- 
2.43.0


From 83aa7fe1d0d9759b03ad4ad113fc6bed35826cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 28/34] fix: lookAt keeps the precision of double vectors

---
 nytl/transform.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 43a9b21..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From 19f4bfab37266ed6e9608b963052a6add57ae15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 29/34] fix: orientMat maps vectors that are not unit vectors
 onto each other

---
 nytl/transform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ae01fbf..ac8dee4 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -127,8 +127,9 @@ SquareMat<D, P> rotateMat(P rot) {
 // When 'from' or 'to' are not unit vectors, will also accord for the scale.
 template<size_t D = 4, typename P = float> [[nodiscard]]
 SquareMat<D, P> orientMat(Vec2<P> from, Vec2<P> to) {
-	const auto c = dot(from, to);
-	const auto s = cross(from, to);
+	const auto l = dot(from, from);
+	const auto c = dot(from, to) / l;
+	const auto s = cross(from, to) / l;
 	return expandIdentity<D, P>(Mat2<P>{
 		c, -s,
 		s, c,
-- 
2.43.0


From 83cf2fb1102d1f3d4ce29064cf4a190fe0cb4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 30/34] fix: RecursiveCallback decrements its iteration counter
 when unwinding

g++ 13 (-O1 and above) drops the store of 'if(--iterationCount_ == 0)
removeOld();' on the exceptional path, since removeOld stores the counter
again. A nested call that threw left the counter too high, so functions
removed later were never erased.
---
 nytl/recursiveCallback.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c4ffc29..5b37569 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -260,9 +260,13 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 	// make sure the iteration count and cleanup done if possible
 	// even in the case of an exception.
 	auto successGuard = ScopeGuard([&]{
-		if(--iterationCount_ == 0) {
+		// the counter is decremented last and unconditionally: gcc loses
+		// the store of 'if(--iterationCount_ == 0) removeOld();' when
+		// unwinding, since removeOld sets the counter again.
+		if(iterationCount_ == 1) {
 			removeOld();
 		}
+		--iterationCount_;
 	});
 
 	if constexpr(std::is_same<Ret, void>::value) {
-- 
2.43.0


From 9a09858f9f3804923df99a646014c2f3948cd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 31/34] fix: RecursiveCallback::add keeps a subscription
 without function if storing the function throws

---
 nytl/recursiveCallback.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 5b37569..d206f95 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -238,9 +238,16 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
-	sub.func = [conn, f = std::move(func)](Args... args) {
-		return f(conn, std::forward<Args>(args)...);
-	};
+
+	// don't leave the subscription without function if this throws
+	try {
+		sub.func = [conn, f = std::move(func)](Args... args) {
+			return f(conn, std::forward<Args>(args)...);
+		};
+	} catch(...) {
+		conn.disconnect();
+		throw;
+	}
 
 	return conn;
 }
-- 
2.43.0


From c87da62ca7b745fd3a82d8191c67d98715ffcf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 32/34] fix: printing a matrix with infinite or NaN values
 converts no out of range precision

---
 nytl/matOps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 18d53f8..e1a7e4a 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -52,8 +52,9 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 	os << "{" << "\n";
 
 	// returns the number of digits needed to present the integer part of i
+	// there is none for infinity and NaN
 	const auto numberOfDigits = [](double i) {
-		return (i < 10 && i >= 0) ? 1 : (i > -10 && i < 0) ? 2 :
+		return (!std::isfinite(i)) ? 1 : (i < 10 && i >= 0) ? 1 : (i > -10 && i < 0) ? 2 :
 			(i > 0) ? std::log10(i) + 1 : std::log10(-i) + 2;
 	};
 
-- 
2.43.0


From fc68836fd8d36bbb551e9da9d1bc65e91760ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 33/34] fix: determinant of integer matrices lost one when the
 decomposition rounded down

---
 nytl/matOps.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index e1a7e4a..58837fd 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -18,6 +18,7 @@
 #include <tuple> // std::tuple
 #include <iosfwd> // std::ostream
 #include <cmath> // std::fma
+#include <type_traits> // std::is_integral_v
 
 namespace nytl {
 
@@ -421,7 +422,14 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+
+	auto d = multiplyDiagonal(u);
+	if constexpr(std::is_integral_v<T>) {
+		// it is integral, but the decomposition was computed with rounding
+		d += (d < 0) ? -0.5 : 0.5;
+	}
+
+	return s * static_cast<T>(d);
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From cd28de76afc6927f3ba8966653dc4c8d87a0d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 34/34] fix: a column can be set to a row of the same matrix

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 58837fd..1d0f177 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -100,7 +100,7 @@ constexpr auto col(const nytl::Mat<R, C, T>& mat, size_t n) {
 /// \brief Sets the column with index n to the given column.
 /// For example: `nytl::mat::col(mat44, 2, vec4);` sets the 3rd column of a matrix.
 template<size_t R, size_t C, typename T>
-constexpr void col(nytl::Mat<R, C, T>& mat, size_t n, const nytl::Vec<R, T>& col) {
+constexpr void col(nytl::Mat<R, C, T>& mat, size_t n, nytl::Vec<R, T> col) {
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][n] = col[i];
 	}
-- 
2.43.0

