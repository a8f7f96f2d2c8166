// Stand-in for oneTBB (not installed here): same interface, every scheduling decision arbitrary.
// The requirements TBB puts on a Range (copyable, split constructor, empty, is_divisible) and the freedom it has (whether to
// split a divisible range, in which order the parts run, which thread runs which part) are taken from the oneTBB
// specification of parallel_for and combinable.
#pragma once
#include <utility>
#include <cstddef>
#include <new>
#include "vp.h"
#ifndef VP_TBB_DEPTH
#define VP_TBB_DEPTH 2
#endif
#ifndef VP_TBB_THREADS
#define VP_TBB_THREADS 2
#endif
namespace tbb {
struct split {};
inline unsigned vp_thread = 0, vp_parts = 0;
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
namespace detail {
template<class R, class F> inline void run(R r, const F &f, int depth) {
	if (r.empty()) return;
	if (depth > 0 && r.is_divisible() && (vp_nondet(900001, 1) & 1)) {
		R right(r, split{});
		// which half runs first: decided for the outermost split only (the other orders differ by who is called first within a half)
		if (depth == VP_TBB_DEPTH && (vp_nondet(900002, 1) & 1)) { run(right, f, depth - 1); run(r, f, depth - 1); }
		else { run(r, f, depth - 1); run(right, f, depth - 1); }
		return;
	}
	// threads are interchangeable: the first part runs on thread 0
	vp_thread = vp_parts++ ? (unsigned)vp_case(vp_nondet(900003, 1) & 1) : 0;
	f(static_cast<const R &>(r));
}
}
template<class R, class F> inline void parallel_for(const R &range, const F &f) { detail::run(R(range), f, VP_TBB_DEPTH); }
template<class R, class F, class P> inline void parallel_for(const R &range, const F &f, P &&) { detail::run(R(range), f, VP_TBB_DEPTH); }
template<class I> struct blocked_range { I b, e; std::size_t g; using const_iterator = I;
	blocked_range(I b, I e, std::size_t g = 1) : b(b), e(e), g(g) {} blocked_range(blocked_range &o, split) : b(o.b + (o.e - o.b) / 2), e(o.e), g(o.g) { o.e = b; }
	I begin() const { return b; } I end() const { return e; } std::size_t size() const { return (std::size_t)(e - b); } bool empty() const { return !(b < e); } bool is_divisible() const { return size() > g; } };
template<class I, class F> requires (!requires(I i) { i.empty(); }) && requires(F f, I i) { f(i); } inline void parallel_for(I first, I last, const F &f) { detail::run(blocked_range<I>(first, last), [&](const blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f(i); }, VP_TBB_DEPTH); }
// thread-local copies, created on first use of a thread
template<class T> struct combinable {
	union slot { T v; slot() {} ~slot() {} } t[VP_TBB_THREADS]; bool used[VP_TBB_THREADS] = {}; T (*init)(const void *) = nullptr; const void *ctx = nullptr;
	combinable() {}
	template<class F> requires requires(F f) { T(f()); } combinable(F f) : init([](const void *c) -> T { return (*static_cast<const F *>(c))(); }), ctx(new F(f)) {}
	combinable(const combinable &) = delete;
	~combinable() { clear(); }
	void clear() { for (unsigned i = 0; i < VP_TBB_THREADS; i++) if (used[i]) { t[i].v.~T(); used[i] = false; } }
	T &local(bool &exists) { exists = used[vp_thread]; if (!exists) { if (init) new (&t[vp_thread].v) T(init(ctx)); else new (&t[vp_thread].v) T(); used[vp_thread] = true; } return t[vp_thread].v; }
	T &local() { bool e; return local(e); }
	template<class F> void combine_each(F f) { for (unsigned i = 0; i < VP_TBB_THREADS; i++) if (used[i]) f(static_cast<const T &>(t[i].v)); }
	template<class F> T combine(F f) { T *r = nullptr; for (unsigned i = 0; i < VP_TBB_THREADS; i++) if (used[i]) { if (!r) r = new T(t[i].v); else *r = f(*r, t[i].v); } if (!r) r = new T(init ? init(ctx) : T()); return *r; }
};
template<class T> struct enumerable_thread_specific : combinable<T> {
	using combinable<T>::combinable;
	struct iterator { enumerable_thread_specific *o; unsigned i; void skip() { while (i < VP_TBB_THREADS && !o->used[i]) i++; } T &operator*() const { return o->t[i].v; } T *operator->() const { return &o->t[i].v; } iterator &operator++() { i++; skip(); return *this; } bool operator==(const iterator &x) const { return i == x.i; } bool operator!=(const iterator &x) const { return i != x.i; } };
	iterator begin() { iterator r{this, 0}; r.skip(); return r; } iterator end() { return {this, VP_TBB_THREADS}; } std::size_t size() const { std::size_t n = 0; for (unsigned i = 0; i < VP_TBB_THREADS; i++) n += used_(i); return n; } bool empty() const { return size() == 0; }
	bool used_(unsigned i) const { return this->used[i]; }
};
}
using tbb::vp_thread;
