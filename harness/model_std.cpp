// Models of functions that live compiled in libstdc++.so and that container and exception code calls: linked into
// the encoding (never into the native replay) for the symbols a harness and the headers it reaches need.
#include <cstddef>
#include <cstring>
#include <utility>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <unordered_map>

namespace std {
namespace __detail {

void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if(this == last) return;
	last->_M_prev->_M_next = this;
	first->_M_prev->_M_next = last;
	this->_M_prev->_M_next = first;
	auto* tmp = this->_M_prev;
	this->_M_prev = last->_M_prev;
	last->_M_prev = first->_M_prev;
	first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept
{
	auto* p = this;
	do { std::swap(p->_M_next, p->_M_prev); p = p->_M_prev; } while(p != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	if(x._M_next != &x) {
		if(y._M_next != &y) {
			std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
			x._M_next->_M_prev = x._M_prev->_M_next = &x;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next; y._M_prev = x._M_prev;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x;
		}
	} else if(y._M_next != &y) {
		x._M_next = y._M_next; x._M_prev = y._M_prev;
		x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y;
	}
}

// a growth policy with the contract of the real one: more buckets than elements
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	size_t b = n < 13 ? 13 : 2 * n + 1;
	_M_next_resize = b;
	return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
	if(elt + ins > _M_next_resize || elt + ins > bkt) {
		size_t n = elt + ins > 2 * bkt ? elt + ins : 2 * bkt;
		if(bkt <= 1) n = elt + ins;
		return {true, _M_next_bkt(n)};
	}
	return {false, 0};
}

} // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
	auto* b = static_cast<const unsigned char*>(p);
	for(size_t i = 0; i < n; ++i) seed = seed * 31 + b[i];
	return seed;
}

// ---- binary search tree without rebalancing: the order of the elements is all a program can observe ----
using RB = _Rb_tree_node_base;
static RB* rbNext(RB* x)
{
	if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
	RB* y = x->_M_parent;
	while(x == y->_M_right) { x = y; y = y->_M_parent; }
	return x->_M_right != y ? y : x;
}
static RB* rbPrev(RB* x)
{
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
	if(x->_M_left) { x = x->_M_left; while(x->_M_right) x = x->_M_right; return x; }
	RB* y = x->_M_parent;
	while(x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
RB* _Rb_tree_increment(RB* x) throw() { return rbNext(x); }
const RB* _Rb_tree_increment(const RB* x) throw() { return rbNext(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() { return rbPrev(x); }
const RB* _Rb_tree_decrement(const RB* x) throw() { return rbPrev(const_cast<RB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw()
{
	x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
	if(left) {
		p->_M_left = x;
		if(p == &h) { h._M_parent = x; h._M_right = x; }
		else if(p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if(p == h._M_right) h._M_right = x;
	}
}
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw()
{
	RB* leftmost = z == h._M_left ? rbNext(z) : h._M_left;
	RB* rightmost = z == h._M_right ? rbPrev(z) : h._M_right;
	auto replace = [&](RB* a, RB* b) {
		RB* p = a->_M_parent;
		if(h._M_parent == a) h._M_parent = b;
		else if(p->_M_left == a) p->_M_left = b;
		else p->_M_right = b;
		if(b) b->_M_parent = p;
	};
	if(!z->_M_left) replace(z, z->_M_right);
	else if(!z->_M_right) replace(z, z->_M_left);
	else {
		RB* y = z->_M_right;
		while(y->_M_left) y = y->_M_left;
		if(y != z->_M_right) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
		y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		replace(z, y);
	}
	if(!h._M_parent) { h._M_left = &h; h._M_right = &h; }
	else { h._M_left = leftmost; h._M_right = rightmost; }
	return z;
}
} // namespace std
