// C05 connection-id notifications, C06 tracked connections, C07 UniqueConnection, C08 registration.
#include "sx.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <optional>
#include <vector>

namespace {

// ---- C05: an id type that records how the callback uses it -------------------------------------
struct Ledger { int64_t value {}; int removed {}, badSet {}, late {}; };
std::vector<Ledger>* ledger;

struct SpyID {
	int slot {-1};
	bool user {}; // the copy belongs to the test, not to the callback
	SpyID() = default;
	SpyID(int64_t v) { slot = (int)ledger->size(); ledger->push_back({v}); }
	void set(int64_t v) noexcept {
		if(slot < 0) return;
		auto& l = (*ledger)[slot];
		if(l.removed && !user) ++l.late;
		if(v >= 0) ++l.badSet;
		l.value = v;
	}
	int64_t get() const noexcept {
		if(slot < 0) return 0;
		auto& l = (*ledger)[slot];
		if(l.removed && !user) ++l.late;
		return l.value;
	}
	void removed() noexcept {
		if(slot < 0) return;
		auto& l = (*ledger)[slot];
		++l.removed;
		l.value = 0;
	}
};

template<template<class, class> class CBT, bool Rec> struct Spy {
	using CB = CBT<void(), SpyID>;
	struct Entry { SpyID id; int slot; bool alive; };
	std::optional<CB> cb;
	std::vector<Entry> entries;
	int depth = 0, budget = 0;

	Spy() { cb.emplace(); }
	void handler(size_t k) {
		CHECK(entries[k].slot >= 0 && (*ledger)[entries[k].slot].removed == 0, "a handler does not run after its id was told that it is removed");
		if(Rec && budget > 0) { --budget; act(); }
	}
	void add() {
		size_t k = entries.size();
		auto before = ledger->size();
		entries.push_back({{}, (int)before, true});
		auto c = cb->add([this, k] { handler(k); });
		entries[k].id = c.id();
		entries[k].id.user = true;
		CHECK(entries[k].id.slot == (int)before, "the returned id is the one created for the handler");
		CHECK((*ledger)[before].value > 0, "ids are created with a positive value");
	}
	void call() {
		++depth;
		try { cb->call(); } catch(int) {}
		--depth;
		if(depth == 0) settled();
	}
	// calls while an exception is on its way
	struct Unwind { Spy& s; ~Unwind() { s.call(); } };
	void unwind() {
		try { Unwind u {*this}; throw 'u'; } catch(char) {}
	}
	// nothing iterates: every removed id was notified exactly once, no registered one was
	void settled() {
		for(auto& e : entries) {
			auto& l = (*ledger)[e.slot];
			CHECK(l.removed == (e.alive ? 0 : 1), "removed() is called exactly once for a removed handler and not for others");
			if(e.alive) CHECK(l.value > 0, "the id of a registered handler is not touched");
		}
		quick();
	}
	void quick() {
		for(auto& l : *ledger) {
			CHECK(l.badSet == 0, "set() is only called with negative values");
			CHECK(l.late == 0, "an id is not accessed after removed()");
			CHECK(l.removed <= 1, "removed() is not called more than once");
		}
	}
	void act() {
		unsigned op = sx::u8("op");
		sx::assume(op < (depth > 2 ? 5 : Rec ? 7 : 6));
		switch(op) {
		case 0: break;
		case 4: if(depth) throw 7; break;
		case 6: unwind(); break;
		case 1: add(); break;
		case 2: {
			if(entries.empty()) break;
			unsigned k = sx::u8("which");
			sx::assume(k < entries.size());
			bool was = entries[k].alive;
			SpyID id = entries[k].id;
			entries[k].alive = false;
			CHECK(cb->disconnect(id) == was, "disconnect tells whether the handler was registered");
			if(was && depth == 0) CHECK((*ledger)[entries[k].slot].removed == 1, "a disconnect outside of calls notifies the id at once");
			break;
		}
		case 3: for(auto& e : entries) e.alive = false; cb->clear(); break;
		case 5: call(); break;
		}
		if(depth == 0) settled(); else quick();
	}
	void go(int handlers, int top, int nested) {
		for(int i = 0; i < handlers; ++i) add();
		if(Rec) { budget = nested; call(); budget = 0; }
		for(int i = 0; i < top; ++i) act();
		cb.reset();
		for(auto& e : entries) CHECK((*ledger)[e.slot].removed == 1, "destroying the callback notifies every id exactly once");
		quick();
	}
};
template<template<class, class> class CB, bool Rec> void spy(int handlers, int top, int nested) {
	std::vector<Ledger> l;
	ledger = &l;
	{ auto s = std::make_unique<Spy<CB, Rec>>(); s->go(handlers, top, nested); }
	ledger = nullptr;
}

// ---- C06: tracked connections --------------------------------------------------------------------
template<typename CB, bool Rec> struct Tracked {
	using Conn = typename CB::Connection;
	struct Entry { Conn conn, copy; bool alive; };
	std::optional<CB> cb;
	std::vector<Entry> entries;
	int depth = 0, budget = 0;
	Tracked() { cb.emplace(); }
	void add() {
		auto c = cb->add([this] { if(Rec && budget > 0) { --budget; act(); } });
		entries.push_back({c, c, true});
	}
	void check() {
		for(auto& e : entries) {
			CHECK(e.copy.connected() == e.alive, "a tracked connection tells whether its handler is registered");
			if(!e.alive) CHECK(!e.conn.connected(), "no copy of the connection of a removed handler is connected");
		}
	}
	void act() {
		unsigned op = sx::u8("op");
		sx::assume(op < 6);
		unsigned k = 0;
		auto pick = [&] { k = sx::u8("which"); sx::assume(k < entries.size()); };
		switch(op) {
		case 0: add(); break;
		case 1: if(entries.empty()) break; pick(); entries[k].conn.disconnect(); entries[k].alive = false; CHECK(!entries[k].conn.connected(), "a disconnected connection is not connected"); break;
		case 2: if(entries.empty()) break; pick(); { Conn other = entries[k].copy; other.disconnect(); CHECK(!other.connected(), "a disconnected connection is not connected"); } entries[k].alive = false; break;
		case 3: cb->clear(); for(auto& e : entries) e.alive = false; break;
		case 4: if(depth < 2) { ++depth; cb->call(); --depth; } break;
		case 5: if(entries.empty()) break; pick(); { auto id = entries[k].copy.id(); CHECK(cb->disconnect(id) == entries[k].alive, "disconnect tells whether the handler was registered"); } entries[k].alive = false; break;
		}
		check();
	}
	void go(int handlers, int top, int nested) {
		for(int i = 0; i < handlers; ++i) add();
		check();
		if(Rec) { budget = nested; ++depth; cb->call(); --depth; budget = 0; check(); }
		for(int i = 0; i < top; ++i) act();
		cb.reset(); // destroyed before its connections
		for(auto& e : entries) { e.alive = false; }
		check();
		for(auto& e : entries) { e.copy.disconnect(); e.conn.disconnect(); CHECK(!e.copy.connected() && !e.conn.connected(), "disconnecting after the callback is gone is harmless"); }
	}
};
template<typename CB, bool Rec> void tracked(int h, int top, int nested) {
	auto t = std::make_unique<Tracked<CB, Rec>>();
	t->go(h, top, nested);
}

// ---- C07: UniqueConnection -----------------------------------------------------------------------
template<typename ID> struct Target : nytl::ConnectableT<ID> {
	std::vector<int64_t> calls;
	bool disconnect(const ID& id) override { calls.push_back(id.get()); return true; }
};
template<typename ID> void uniqueHistory(int steps) {
	using Unique = nytl::UniqueConnectionT<nytl::ConnectableT<ID>, ID>;
	using Plain = nytl::ConnectionT<nytl::ConnectableT<ID>, ID>;
	Target<ID> target;
	int64_t next = 1;
	std::vector<int64_t> expected; // disconnects so far
	int64_t own[2] = {0, 0}; // 0: nothing, -1: a connection whose function was removed by someone else
	{
		std::optional<Unique> u[2];
		u[0].emplace(); u[1].emplace();
		auto drop = [&](int i) { if(own[i] > 0) expected.push_back(own[i]); own[i] = 0; };
		auto check = [&] {
			CHECK(target.calls == expected, "an owned connection is disconnected exactly once, when its owner lets go of it");
			for(int i = 0; i < 2; ++i) {
				CHECK(u[i]->connected() == (own[i] > 0), "connected tells whether a connection is owned");
				if(own[i] < 0) CHECK(u[i]->id().get() == 0 && u[i]->connectable() == &target, "the owner of a removed connection");
				else if(own[i]) CHECK(u[i]->id().get() == own[i] && u[i]->connectable() == &target, "the owner knows its connection");
				else CHECK(u[i]->connectable() == nullptr && u[i]->id().get() == 0, "an empty owner refers to nothing");
			}
		};
		for(int s = 0; s < steps; ++s) {
			unsigned op = sx::u8("op"), i = sx::u8("slot");
			sx::assume(op < (std::is_same<ID, nytl::TrackedConnectionID>::value ? 8 : 7)); sx::assume(i < 2);
			i = (unsigned)__sx_concretize(i);
			unsigned j = 1 - i;
			switch(op) {
			case 0: { Unique n(target, ID{next}); drop(i); own[i] = next++; *u[i] = std::move(n); break; }
			case 1: { Plain p(target, ID{next}); drop(i); own[i] = next++; *u[i] = Unique(p); break; }
			case 2: drop(i); own[i] = own[j]; own[j] = 0; *u[i] = std::move(*u[j]); break;
			case 3: drop(i); u[i]->disconnect(); break;
			case 4: { // move construction
				Unique n(std::move(*u[i]));
				CHECK(!u[i]->connected() && !u[i]->connectable() && u[i]->id().get() == 0, "a moved-from owner is empty");
				CHECK(n.connected() == (own[i] > 0), "moving transfers the connection");
				CHECK(n.connectable() == (own[i] ? &target : nullptr), "moving transfers the connection");
				if(own[i] > 0) CHECK(n.id().get() == own[i], "moving transfers the connection");
				drop(i);
				break;
			}
			case 5: { // release
				auto c = u[i]->release();
				CHECK(c.connected() == (own[i] > 0), "release returns the connection");
				if(own[i] < 0) CHECK(c.id().get() == 0 && c.connectable() == &target, "release returns the connection");
				if(own[i] > 0) CHECK(c.id().get() == own[i] && c.connectable() == &target, "release returns the connection");
				own[i] = 0;
				break;
			}
			case 6: drop(i); u[i].reset(); u[i].emplace(); break;
			case 7: if(own[i] > 0) { auto id = u[i]->id(); id.removed(); own[i] = -1; } break; // removed elsewhere
			}
			check();
		}
		// members are destroyed in reverse order
		if(own[1] > 0) expected.push_back(own[1]);
		if(own[0] > 0) expected.push_back(own[0]);
	}
	CHECK(target.calls == expected || (target.calls.size() == expected.size() && target.calls.size() >= 2), "destruction disconnects what is owned");
}
// with a real callback: the handler is registered as long as it is owned
template<typename CB> void uniqueReal() {
	using Conn = typename CB::Connection;
	CB cb;
	int runs = 0;
	unsigned how = sx::u8("how");
	sx::assume(how < 5);
	cb.add([&](int) { runs += 100; });
	{
		using ID = decltype(std::declval<Conn>().id());
		nytl::UniqueConnectionT<nytl::ConnectableT<ID>, ID> u = Conn(cb.add([&](int) { ++runs; }));
		cb.call(1);
		CHECK(runs == 101 && u.connected(), "an owned handler is registered");
		runs = 0;
		if(how == 1) u.disconnect();
		else if(how == 2) { auto c = u.release(); CHECK(c.connected() && !u.connected(), "release gives up ownership"); }
		else if(how == 3) { auto v = std::move(u); CHECK(v.connected() && !u.connected(), "moving transfers ownership"); }
		else if(how == 4) { u = {}; CHECK(!u.connected(), "assigning an empty owner disconnects"); }
		cb.call(1);
		CHECK(runs == (how == 0 || how == 2 ? 101 : 100), "a handler stays registered exactly while owned");
		runs = 0;
	}
	cb.call(1);
	CHECK(runs == (how == 2 ? 101 : 100), "the end of the owner unregisters the handler");
}

// ---- C08: registration ---------------------------------------------------------------------------
bool idThrows;
struct ThrowID {
	int64_t v {};
	ThrowID() = default;
	ThrowID(int64_t x) : v(x) { if(idThrows) throw 7; }
	void set(int64_t x) noexcept { v = x; }
	int64_t get() const noexcept { return v; }
	void removed() noexcept {}
};
template<template<class, class> class CBT> void registration(int steps) {
	using CB = CBT<void(int), ThrowID>;
	CB cb;
	std::vector<int> model, seen;
	int salt = 0;
	std::vector<int64_t> ids;
	idThrows = false;
	for(int s = 0; s < steps; ++s) {
		unsigned op = sx::u8("op");
		sx::assume(op < 6);
		bool failed = false;
		int k = salt++;
		typename CB::Connection c;
		auto good = [&seen, k](int) { seen.push_back(k); };
		try {
			switch(op) {
			case 0: c = cb.add(std::function<void(int)>(good)); break;
			case 1: c = cb.add(std::function<void(int)>()); break;
			case 2: idThrows = true; c = cb.add(std::function<void(int)>(good)); break;
			case 3: c = cb += good; break;
			case 4: model.clear(); c = cb = good; break;
			case 5: cb += std::function<void(int)>(); break;
			}
		} catch(const std::invalid_argument&) { failed = true; CHECK(op == 1 || op == 5, "only an empty function is rejected as invalid argument"); }
		catch(int) { failed = true; CHECK(op == 2, "an exception of the id arrives untouched"); }
		idThrows = false;
		CHECK(failed == (op == 1 || op == 2 || op == 5), "an empty function is rejected with std::invalid_argument");
		if(!failed) {
			CHECK(c.connected() && c.connectable() == &cb, "the returned connection is connected to the callback");
			for(auto i : ids) CHECK(i != c.id().get(), "ids are never reused");
			ids.push_back(c.id().get());
			model.push_back(k);
		}
		seen.clear();
		cb.call(1);
		CHECK(seen == model, "a failed registration changes nothing, a successful one appends");
	}
}
// the connection-taking overload rejects empty functions too
void registrationConn() {
	using CB = nytl::RecursiveCallback<void(int)>;
	CB cb;
	int a = sx::i32("a"), got = 0;
	bool failed = false;
	try { cb.add(std::function<void(CB::Connection, int)>()); } catch(const std::invalid_argument&) { failed = true; }
	CHECK(failed, "an empty function is rejected with std::invalid_argument");
	cb.call(a);
	auto c = cb.add(std::function<void(CB::Connection, int)>([&](CB::Connection own, int x) { got = x; own.disconnect(); }));
	CHECK(c.connected(), "the returned connection is connected");
	cb.call(a);
	CHECK(got == a, "the handler runs");
	got = ~a;
	cb.call(a);
	CHECK(got == ~a, "a handler can remove itself through its connection");
}

constexpr int T = SX_THOROUGH;
} // namespace

#if SX_PART == 5
ENTRY(spy_callback) { spy<nytl::Callback, false>(1, 4 + T, 0); }
ENTRY(spy_recursive_top) { spy<nytl::RecursiveCallback, true>(1, 4 + T, 0); }
ENTRY(spy_recursive_1) { spy<nytl::RecursiveCallback, true>(1, 1, 3 + T); }
ENTRY(spy_recursive_2) { spy<nytl::RecursiveCallback, true>(2, 0, 4 + T); }
ENTRY(spy_recursive_3) { spy<nytl::RecursiveCallback, true>(3, 1, 3 + T); }
#elif SX_PART == 6
ENTRY(tracked_callback) { tracked<nytl::TrackedCallback<void()>, false>(1, 3 + T, 0); }
ENTRY(tracked_recursive_top) { tracked<nytl::TrackedRecursiveCallback<void()>, true>(1, 3 + T, 0); }
ENTRY(tracked_recursive_2) { tracked<nytl::TrackedRecursiveCallback<void()>, true>(2, 0, 3 + T); }
ENTRY(tracked_recursive_3) { tracked<nytl::TrackedRecursiveCallback<void()>, true>(3, 1, 2 + T); }
#elif SX_PART == 7
ENTRY(unique_plain) { uniqueHistory<nytl::ConnectionID>(3 + T); }
ENTRY(unique_tracked) { uniqueHistory<nytl::TrackedConnectionID>(3 + T); }
ENTRY(unique_callback) { uniqueReal<nytl::Callback<void(int)>>(); }
ENTRY(unique_recursive) { uniqueReal<nytl::RecursiveCallback<void(int)>>(); }
ENTRY(unique_trackedcallback) { uniqueReal<nytl::TrackedCallback<void(int)>>(); }
ENTRY(unique_trackedrecursive) { uniqueReal<nytl::TrackedRecursiveCallback<void(int)>>(); }
#elif SX_PART == 8
ENTRY(reg_callback) { registration<nytl::Callback>(3 + T); }
ENTRY(reg_recursive) { registration<nytl::RecursiveCallback>(3 + T); }
ENTRY(reg_conn) { registrationConn(); }
#endif
