// C45: clones have the dynamic type and value of the original and are independent of it.
#include "sx.hpp"
#include <nytl/clone.hpp>
#include <memory>
#include <vector>

namespace {
int alive;
struct Counted { Counted() { ++alive; } Counted(const Counted&) { ++alive; } ~Counted() { --alive; } };

// a payload that tells copies from moves
struct Payload {
	int v {}; std::vector<int> data;
	static inline int copies;
	Payload() = default;
	explicit Payload(int x) : v(x), data{x, ~x} {}
	Payload(const Payload& o) : v(o.v), data(o.data) { ++copies; }
	Payload(Payload&& o) noexcept : v(o.v), data(std::move(o.data)) { o.v = 0; }
	Payload& operator=(const Payload&) = default;
	bool is(int x) const { return v == x && data.size() == 2 && data[0] == x && data[1] == ~x; }
};

// -- abstract base, cloneable leafs
struct Shape : nytl::AbstractCloneable<Shape> { virtual int kind() const = 0; virtual bool is(int x) const = 0; virtual void set(int) = 0; virtual ~Shape() = default; };
template<int K> struct Leaf : nytl::DeriveCloneable<Leaf<K>, Shape> {
	Counted c; Payload p;
	explicit Leaf(int x) : p(x) {}
	int kind() const override { return K; }
	bool is(int x) const override { return p.is(x); }
	void set(int x) override { p.v = x; p.data[0] = x; }
};
struct Deep : nytl::DeriveCloneable<Deep, Leaf<2>> {
	Payload q;
	explicit Deep(int x) : nytl::DeriveCloneable<Deep, Leaf<2>>(x), q(x) {}
	int kind() const override { return 3; }
	bool is(int x) const override { return Leaf<2>::is(x) && q.is(x); }
};
// -- concrete cloneable base
struct Node : nytl::Cloneable<Node> { Counted c; Payload p; explicit Node(int x) : p(x) {} Node(const Node&) = default; Node(Node&&) = default; virtual ~Node() = default; virtual int kind() const { return 1; } };
struct SubNode : nytl::DeriveCloneable<SubNode, Node> { Payload q; explicit SubNode(int x) : nytl::DeriveCloneable<SubNode, Node>(x), q(x + 1) {} int kind() const override { return 2; } };
// -- only movable
struct Mov : nytl::AbstractCloneMovable<Mov> { virtual int get() const = 0; virtual ~Mov() = default; };
struct MovLeaf : nytl::DeriveCloneMovable<MovLeaf, Mov> { Counted c; std::unique_ptr<int> u; explicit MovLeaf(int x) : u(new int(x)) {} int get() const override { return u ? *u : -1; } };
struct MovBase : nytl::CloneMovable<MovBase> { Counted c; std::unique_ptr<int> u; explicit MovBase(int x) : u(new int(x)) {} MovBase(MovBase&&) = default; virtual ~MovBase() = default; };
// -- cloneable through a base that is not the first one
struct Other { Other() = default; Other(const Other&) = default; Other(Other&&) = default; virtual int other() const { return 77; } virtual ~Other() = default; Payload o {5}; };
struct Multi : Other, nytl::DeriveCloneable<Multi, Shape> {
	Counted c; Payload p;
	explicit Multi(int x) : p(x) {}
	int kind() const override { return 9; }
	bool is(int x) const override { return p.is(x) && o.is(5); }
	void set(int x) override { p.v = x; p.data[0] = x; }
};
template<int N> struct Big : Other { char pad[N] {}; };
template<int N> struct Far : Big<N>, nytl::DeriveCloneable<Far<N>, Shape> { // behind a base of any size
	Counted c; Payload p;
	explicit Far(int x) : p(x) { this->pad[0] = 3; this->pad[N - 1] = 4; }
	int kind() const override { return 10; }
	bool is(int x) const override { return p.is(x) && this->pad[0] == 3 && this->pad[N - 1] == 4 && this->o.is(5); }
	void set(int x) override { p.v = x; p.data[0] = x; }
};
struct Movable2 : nytl::AbstractCloneMovable<Movable2> { int tag {31}; virtual int get2() const = 0; virtual ~Movable2() = default; };
struct FarMov : Big<900>, nytl::DeriveCloneMovable<FarMov, Movable2> { Counted c; std::unique_ptr<int> u; explicit FarMov(int x) : u(new int(x)) {} int get2() const override { return u ? *u : -1; } };
struct MultiMov : Other, nytl::DeriveCloneMovable<MultiMov, Movable2> { Counted c; std::unique_ptr<int> u; explicit MultiMov(int x) : u(new int(x)) {} int get2() const override { return u ? *u : -1; } };

template<typename F> void shape(F make, int kind) {
	int a = sx::i32("a"), b = sx::i32("b");
	alive = 0;
	{
		std::unique_ptr<Shape> s(make(a));
		int per = alive;
		{
			auto c = nytl::clone(*s);
			CHECK(c && c.get() != s.get(), "a clone is a new object");
			CHECK(alive == 2 * per, "cloning creates one object");
			CHECK(c->kind() == kind, "a clone has the dynamic type of the original");
			CHECK(c->is(a) && s->is(a), "a clone has the value of the original and the original keeps it");
			c->set(b);
			CHECK(s->is(a), "changing the clone leaves the original alone");
			auto d = nytl::clone(*c);
			CHECK(d->kind() == kind, "a clone of a clone");
		}
		CHECK(alive == per && s->is(a), "destroying clones leaves the original alone");
		int copies = Payload::copies;
		auto m = nytl::cloneMove(*s);
		CHECK(Payload::copies == copies, "move-cloning takes the value over instead of copying it");
		CHECK(m && m.get() != s.get() && m->kind() == kind, "a move-clone has the dynamic type of the original");
		CHECK(m->is(a), "a move-clone takes over the value");
		s.reset();
		CHECK(m->is(a), "a move-clone does not depend on the original");
	}
	CHECK(alive == 0, "every clone is destroyed completely");
}
} // namespace

ENTRY(clone_leaf) { shape([](int x) { return new Leaf<1>(x); }, 1); }
ENTRY(clone_leaf2) { shape([](int x) { return new Leaf<2>(x); }, 2); }
ENTRY(clone_deep) { shape([](int x) { return new Deep(x); }, 3); }
ENTRY(clone_nonfirst_base) { shape([](int x) { return new Multi(x); }, 9); }
ENTRY(clone_far_8) { shape([](int x) { return new Far<8>(x); }, 10); }
ENTRY(clone_far_56) { shape([](int x) { return new Far<56>(x); }, 10); }
ENTRY(clone_far_100) { shape([](int x) { return new Far<100>(x); }, 10); }
ENTRY(clone_far_256) { shape([](int x) { return new Far<256>(x); }, 10); }
ENTRY(clone_far_5000) { shape([](int x) { return new Far<5000>(x); }, 10); }
ENTRY(clone_far_70000) { shape([](int x) { return new Far<70000>(x); }, 10); }
ENTRY(clone_static_type) { // the static type may be any class of the hierarchy
	int a = sx::i32("a");
	alive = 0;
	{
		Deep d(a);
		Leaf<2>& l = d;
		auto c = nytl::clone(l);
		CHECK(c->kind() == 3 && c->is(a), "cloning through an intermediate class");
		auto e = nytl::clone(d);
		CHECK(e->kind() == 3 && e->is(a) && e->q.is(a), "cloning through the most derived class");
		Multi m(a);
		auto mc = nytl::clone(m);
		CHECK(mc->kind() == 9 && mc->is(a) && mc->other() == 77, "cloning through the most derived class");
	}
	CHECK(alive == 0, "every clone is destroyed completely");
}
ENTRY(clone_concrete) {
	int a = sx::i32("a");
	sx::assume(a < 1000000);
	alive = 0;
	{
		Node n(a); SubNode s(a);
		Node& r = sx::flag("sub") ? static_cast<Node&>(s) : n;
		int kind = r.kind();
		auto c = nytl::clone(r);
		CHECK(c->kind() == kind && c->p.is(a) && r.p.is(a), "cloning a concrete class and classes derived from it");
		if(kind == 2) CHECK(static_cast<SubNode&>(*c).q.is(a + 1), "the derived part is cloned too");
		int copies = Payload::copies;
		auto m = nytl::cloneMove(r);
		CHECK(Payload::copies == copies, "move-cloning takes the value over instead of copying it");
		CHECK(m->kind() == kind && m->p.is(a), "move-cloning a concrete class and classes derived from it");
		if(kind == 2) CHECK(static_cast<SubNode&>(*m).q.is(a + 1), "the derived part is moved too");
	}
	CHECK(alive == 0, "every clone is destroyed completely");
}
ENTRY(clone_movable) {
	int a = sx::i32("a");
	alive = 0;
	{
		MovLeaf l(a);
		auto c = nytl::cloneMove(static_cast<Mov&>(l));
		CHECK(c->get() == a, "a move-clone takes over a move-only value");
		CHECK(!l.u, "a move-clone moves from the original");
		MovBase b(a);
		auto d = nytl::cloneMove(b);
		CHECK(d->u && *d->u == a && !b.u, "a move-clone of a concrete class");
		MultiMov mm(a);
		auto e = nytl::cloneMove(static_cast<Movable2&>(mm));
		CHECK(e->get2() == a && e->tag == 31, "a move-clone through a base that is not the first one");
		FarMov fm(a);
		auto f = nytl::cloneMove(static_cast<Movable2&>(fm));
		CHECK(f->get2() == a && f->tag == 31 && !fm.u, "a move-clone through a base that is not the first one");
	}
	CHECK(alive == 0, "every clone is destroyed completely");
}
