// Interpreter of container operations for caller threads; instrumented (-fsanitize=thread), one container kind per unit.
#include "rt.hpp"
#include <algorithm>
#include <memory>
#include <new>
#include <tuple>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#define IS_sparse_set 1
#define IS_ordered_sparse_set 1
#define IS_sparse_map 2
#define IS_ordered_sparse_map 2
#define IS_stable_set 3
#define IS_ordered_stable_set 3
#define IS_stable_map 4
#define IS_ordered_stable_map 4
#define IS_dense_set 5
#define IS_ordered_dense_set 5
#define IS_dense_map 6
#define IS_ordered_dense_map 6
#define IS_dense_multiset 7
#define IS_dense_multimap 8
#define KIND CAT(IS_, SIM_CONT)

using namespace rt;
namespace
{
	struct RK
	{
		int k = 0;
		RK() = default;
		RK(int x) : k(x) {}
		RK(const RK &o) : k(o.k) { rt::fault(F_COPY); }
		RK(RK &&o) noexcept : k(o.k) { o.k = -1; }
		RK &operator=(const RK &o) { rt::fault(F_COPY); k = o.k; return *this; }
		RK &operator=(RK &&o) noexcept { const int x = o.k; o.k = -1; k = x; return *this; }
		bool operator==(const RK &o) const { return k == o.k; }
	};
	struct RV
	{
		int v = 0, w = 0;
		RV() = default;
		RV(int x) : v(x), w(x * 3) {}
		RV(const RV &o) : v(o.v), w(o.w) { rt::fault(F_COPY); }
		RV(RV &&o) noexcept : v(o.v), w(o.w) { o.v = -1; }
		RV &operator=(const RV &o) { rt::fault(F_COPY); v = o.v; w = o.w; return *this; }
		RV &operator=(RV &&o) noexcept { const int x = o.v, y = o.w; o.v = -1; v = x; w = y; return *this; }
		bool operator==(const RV &o) const { return v == o.v && w == o.w; }
	};
	struct RHash
	{
		using is_transparent = void;
		std::size_t operator()(const RK &k) const { rt::fault(F_HASH); return rt::hash_of(k.k); }
		std::size_t operator()(int k) const { rt::fault(F_HASH); return rt::hash_of(k); }
	};
	struct REq
	{
		using is_transparent = void;
		bool operator()(const RK &a, const RK &b) const { return a.k == b.k; }
		bool operator()(const RK &a, int b) const { return a.k == b; }
		bool operator()(int a, const RK &b) const { return a == b.k; }
		template<typename A, typename B>
		bool operator()(const A &a, const B &b) const { return a == b; }
	};
	template<typename T>
	struct RAlloc
	{
		using value_type = T;
		RAlloc() = default;
		template<typename U>
		RAlloc(const RAlloc<U> &) noexcept {}
		T *allocate(std::size_t n)
		{
			if (n > (std::size_t(1) << 24) / sizeof(T)) throw BadAlloc{};
			rt::fault(F_ALLOC);
			return static_cast<T *>(rt::heap_alloc(n * sizeof(T)));
		}
		void deallocate(T *p, std::size_t n) noexcept { rt::heap_free(p, n * sizeof(T)); }
		template<typename U>
		bool operator==(const RAlloc<U> &) const noexcept { return true; }
		template<typename U>
		bool operator!=(const RAlloc<U> &) const noexcept { return false; }
	};
}

#if KIND == 1
#include <tpp/sparse_set.hpp>
using TheC = tpp::SIM_CONT<RK, RHash, REq, RAlloc<RK>>;
#elif KIND == 2
#include <tpp/sparse_map.hpp>
using TheC = tpp::SIM_CONT<RK, RV, RHash, REq, RAlloc<std::pair<RK, RV>>>;
#elif KIND == 3
#include <tpp/stable_set.hpp>
using TheC = tpp::SIM_CONT<RK, RHash, REq, RAlloc<RK>>;
#elif KIND == 4
#include <tpp/stable_map.hpp>
using TheC = tpp::SIM_CONT<RK, RV, RHash, REq, RAlloc<std::pair<const RK, RV>>>;
#elif KIND == 5
#include <tpp/dense_set.hpp>
using TheC = tpp::SIM_CONT<RK, RHash, REq, RAlloc<RK>>;
#elif KIND == 6
#include <tpp/dense_map.hpp>
using TheC = tpp::SIM_CONT<RK, RV, RHash, REq, RAlloc<std::pair<RK, RV>>>;
#elif KIND == 7
#include <tpp/dense_multiset.hpp>
using TheC = tpp::SIM_CONT<tpp::multikey<RK, RK>, RHash, REq, RAlloc<std::tuple<RK, RK>>>;
#elif KIND == 8
#include <tpp/dense_multimap.hpp>
using TheC = tpp::SIM_CONT<tpp::multikey<RK, RK, RK>, RV, RHash, REq, RAlloc<std::pair<std::tuple<RK, RK, RK>, RV>>>;
#endif

namespace
{
	constexpr bool MAP = KIND % 2 == 0, STABLE = KIND == 3 || KIND == 4, DENSE = KIND >= 5, MULTI = KIND >= 7, ORD = SIM_ORD;
	constexpr int NK = KIND == 7 ? 2 : KIND == 8 ? 3 : 1;
	constexpr u64 mix(u64 z)
	{
		z += 0x9e3779b97f4a7c15ull;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	auto mk(int k, int D)
	{
		(void) D;
		if constexpr (NK == 1) return RK(k);
		else if constexpr (NK == 2) return std::tuple<RK, RK>(RK(k), RK((k * 5 + 1) % D));
		else return std::tuple<RK, RK, RK>(RK(k), RK((k * 5 + 1) % D), RK((k * 3 + 2) % D));
	}
	auto mi(int k, int v, int D)
	{
		using K = decltype(mk(k, D));
		if constexpr (MAP) return std::pair<K, RV>(mk(k, D), RV(v));
		else return ((void) v, mk(k, D));
	}
	template<typename R>
	const auto &keyof(const R &r) { if constexpr (MAP) return r.first; else return r; }
	template<int J, typename R>
	int kid(const R &r) { if constexpr (NK == 1) return keyof(r).k; else return std::get<J>(keyof(r)).k; }
	template<typename R>
	u64 elem(const R &r)
	{
		u64 h = mix(u64(u32(kid<0>(r))));
		if constexpr (NK > 1) h = mix(h + u64(u32(kid<1>(r))));
		if constexpr (NK > 2) h = mix(h + u64(u32(kid<2>(r))));
		if constexpr (MAP) h = mix(h + u64(u32(r.second.v)) * 7 + u64(u32(r.second.w)));
		return h;
	}
	template<int J = 0, typename X>
	auto cfind(X &x, const RK &k) { if constexpr (NK == 1) return x.find(k); else return x.template find<J>(k); }
	template<int J = 0, typename X>
	auto cfind_t(X &x, int k) { if constexpr (NK == 1) return x.find(k); else return x.template find<J>(k); }
	template<int J = 0, typename X>
	bool ccont(const X &x, const RK &k) { if constexpr (NK == 1) return x.contains(k); else return x.template contains<J>(k); }
	template<typename I>
	u64 at(I it) { auto &&r = *it; return elem(r); }

	// content as a hash; unordered hash tables are allowed any iteration order
	template<typename X>
	u64 content(const X &x)
	{
		u64 h = mix(x.size()), sum = 0, n = 0;
		for (auto it = x.begin(); it != x.end(); ++it)
		{
			const u64 e = at(it);
			if (ORD) h = mix(h + e);
			sum += e;
			if (++n > 1u << 20) violate("progress", "iteration does not end");
		}
		return mix(h + sum) + n;
	}

	template<typename C>
	struct W : World
	{
		alignas(alignof(C)) unsigned char mem[SLOTS][sizeof(C)];
		C &c(int i) { return *std::launder(reinterpret_cast<C *>(mem[i])); }
		template<typename... A>
		void make(int i, A &&...a)
		{
			// a slot is never without a container: build the new one first
			C x(std::forward<A>(a)...);
			c(i).~C();
			::new (static_cast<void *>(mem[i])) C(std::move(x));
		}
		W() { for (auto &x: mem) ::new (static_cast<void *>(x)) C(); }
		~W() override { for (int i = 0; i < SLOTS; ++i) c(i).~C(); }

		void setup(const Trace &t) override { for (std::size_t i = 0; i < t.ops.size(); ++i) if (t.ops[i].t < 0) step(t, static_cast<int>(i), 0, SLOTS); }
		void thread(const Trace &t, int id) override
		{
			const bool readers = t.profile == "C13";
			const int n = readers ? SLOTS : SLOTS / t.threads;
			for (std::size_t i = 0; i < t.ops.size(); ++i)
			{
				const int who = t.ops[i].t;
				if (who < 0 || who >= t.threads || (id >= 0 && who != id)) continue;
				rt::run_as(who);
				step(t, static_cast<int>(i), readers ? 0 : who * n, n);
			}
		}
		void final(const Trace &) override { for (int i = 0; i < SLOTS; ++i) put(content(c(i))); }

		void step(const Trace &t, int index, int lo, int n)
		{
			const Op &op = t.ops[static_cast<std::size_t>(index)];
			op_start(index, op.fk, op.fn);
			try
			{
				exec(t, op, lo, n);
			}
			catch (const Fault &) { put(0xfa17); }
			catch (const BadAlloc &) { put(0xbad); }
			catch (const std::exception &) { put(0xe); }
			op_end();
		}

		static typename C::const_iterator hint(const C &x, const Op &op)
		{
			auto h = x.begin();
			for (int i = x.empty() ? 0 : int(static_cast<std::size_t>(op.s >> 3) % (x.size() + 1)); i > 0; --i) ++h;
			return h;
		}
		void exec(const Trace &t, const Op &op, int lo, int n)
		{
			const int D = t.domain, k = op.k % D;
			const int ia = lo + op.a % n;
			int ib = lo + op.b % n;
			if ((op_info[op.code].cat & TWO) && ia == ib) ib = lo + (ib - lo + 1) % n;
			C &x = c(ia), &y = c(ib);
			const C &cx = x, &cy = y;
			switch (op.code)
			{
				case O_INS: { auto e = mi(k, op.v, D); auto r = x.insert(e); put(at(r.first) + r.second); break; }
				case O_INSH:
				{
					auto e = mi(k, op.v, D);
					put(at(x.insert(hint(cx, op), std::move(e))));
					break;
				}
				case O_EMP:
					if (op.s & 1) { auto r = x.emplace(mi(k, op.v, D)); put(at(r.first) + r.second); }
					else put(at(x.emplace_hint(hint(cx, op), mi(k, op.v, D))));
					break;
				case O_TRY:
					if constexpr (MAP)
					{
						if (op.s & 1) { auto r = x.try_emplace(mk(k, D), op.v); put(at(r.first) + r.second); }
						else { const auto key = mk(k, D); put(at(x.try_emplace(hint(cx, op), key, op.v))); }
					}
					break;
				case O_IOA:
					if constexpr (MAP && !MULTI)
					{
						const RK key(k);
						switch (op.s % 4)
						{
							case 0: { auto r = x.insert_or_assign(RK(k), RV(op.v)); put(at(r.first) + r.second); break; }
							case 1: put(at(x.insert_or_assign(hint(cx, op), key, RV(op.v)))); break;
							case 2: { auto r = x.emplace_or_replace(key, op.v); put(at(r.first) + r.second); break; }
							default: put(at(x.emplace_or_replace(hint(cx, op), RK(k), op.v))); break;
						}
					}
					break;
				case O_IDX: if constexpr (MAP && !MULTI) { RV &v = x[RK(k)]; v = RV(op.v); put(u64(v.v)); } break;
				case O_ERK:
				{
					const std::size_t before = x.size();
					if (op.s & 1)
					{
						const RK q(k);
						if constexpr (NK == 1) x.erase(q); else x.template erase<NK - 1>(q);
						put(before - x.size());
						break;
					}
					auto it = cfind(x, RK(k));
					if (it == x.end()) { put(0); break; }
					x.erase(it);
					put(1);
					break;
				}
				case O_ERI:
					if (!x.empty())
					{
						auto it = cx.begin();
						for (int i = int(static_cast<std::size_t>(op.s) % x.size()); i > 0; --i) ++it;
						put(kid<0>(*it) + 1u);
						x.erase(it);
					}
					break;
				case O_ERR:
				{
					auto a = cx.begin(), b = cx.begin();
					const int p = int(static_cast<std::size_t>(op.s) % (x.size() + 1)), q = int(static_cast<std::size_t>(op.v) % (x.size() + 1));
					for (int i = std::min(p, q); i > 0; --i) ++a;
					for (int i = std::max(p, q); i > 0; --i) ++b;
					x.erase(a, b);
					break;
				}
				case O_ERIF: put(erase_if(x, [&](const auto &r) { return (kid<0>(r) * 7 + op.s) % 3 == 0; })); break;
				case O_CLEAR: x.clear(); break;
				case O_RESERVE: x.reserve(static_cast<std::size_t>(op.v % (2 * D + 1))); break;
				case O_REHASH: x.rehash(static_cast<std::size_t>(op.v % (3 * D + 1))); break;
				case O_FILL: for (int i = 0; i < op.s % (D + 1); ++i) put(x.insert(mi((k + i) % D, op.v + i, D)).second); break;
				case O_CHURN:
					for (int i = 0; i < 8 + op.s % 40; ++i)
					{
						x.insert(mi((k + i) % D, op.v + i, D));
						auto it = cfind(cx, RK((k + i * 3 + op.v) % D));
						if (it != cx.end()) x.erase(it);
					}
					break;
				case O_RANGEINS:
				{
					std::vector<decltype(mi(0, 0, 0))> v;
					v.reserve(8);
					for (int i = 0; i < op.s % 8; ++i) v.push_back(mi((k + i * 2) % D, op.v + i, D));
					x.insert(v.begin(), v.end());
					break;
				}
				case O_SWAP: if (op.s & 1) x.swap(y); else { using std::swap; swap(x, y); } break;
				case O_CPCT: make(ia, cy); break;
				case O_MVCT: make(ia, std::move(y)); break;
				case O_CPAS: x = cy; break;
				case O_MVAS: x = std::move(y); break;
				case O_FRESH:
					if (op.s & 1) make(ia);
					else if (op.s & 2) make(ia, static_cast<std::size_t>(op.v % (2 * D)));
					else if (op.s & 4)
					{
						std::vector<decltype(mi(0, 0, 0))> v;
						v.reserve(8);
						for (int i = 0; i < op.s % 8; ++i) v.push_back(mi((k + i * 2) % D, op.v + i, D));
						make(ia, v.begin(), v.end());
					}
					else x = {mi(k, op.v, D), mi((k + 1) % D, op.v, D)};
					break;
				case O_NODE:
					if constexpr (STABLE)
					{
						auto nh = x.extract(RK(k));
						if (nh.empty() && (op.s & 1) && !x.empty()) { auto h = hint(cx, op); if (h == cx.end()) h = cx.begin(); nh = x.extract(h); }
						if (nh.empty()) { put(0); break; }
						put(nh.get_allocator() == x.get_allocator());
						if (op.s & 2) { auto other = std::move(nh); nh = y.extract(RK(k)); nh.swap(other); }
						if (op.s & 4) { put(at(y.insert(hint(cy, op), std::move(nh)))); break; }
						auto r = y.insert(std::move(nh));
						put(r.inserted);
						put(r.node.empty());
						if (r.inserted) put(at(r.position));
					}
					break;
				case O_MERGE: if constexpr (STABLE) { if (op.s & 1) x.merge(y); else x.merge(std::move(y)); } break;
				case O_MUTV:
					if constexpr (MAP)
					{
						auto it = cfind(x, RK(k));
						if (it != x.end()) { auto &&r = *it; r.second = RV(op.v); put(elem(r)); }
					}
					break;
				case O_MLF: if constexpr (DENSE) x.max_load_factor(0.25f + float(op.v % 20) * 0.25f); break;

				case O_FIND: this->template find<0>(cx, k); if constexpr (NK > 1) this->template find<1>(cx, k); if constexpr (NK > 2) this->template find<2>(cx, k); break;
				case O_CONT: put(ccont(cx, RK(k))); if constexpr (NK > 1) put(ccont<1>(cx, RK(k))); if constexpr (NK > 2) put(ccont<2>(cx, RK(k))); break;
				case O_FINDT: { auto it = cfind_t(cx, k); put(it == cx.end() ? 0 : at(it));
					if constexpr (NK == 1) put(cx.contains(k));
					if constexpr (NK == 1 && MAP) put(u64(cx.at(k).v));
					break; }
				case O_FINDALL: for (int i = 0; i < D; ++i) { const RK q(i); put(ccont(cx, q)); auto it = cfind(cx, q); if (it != cx.end()) put(at(it)); } break;
				case O_AT: if constexpr (MAP && NK == 1) put(u64(cx.at(RK(k)).v)); else if constexpr (MAP) put(u64(cx.template at<1>(RK(k)).v)); break;
				case O_ITER: put(content(cx)); break;
				case O_RITER:
				{
					u64 h = 0;
					if constexpr (DENSE) for (auto it = cx.rbegin(); it != cx.rend(); ++it) h = mix(h + at(it));
					if constexpr (ORD || DENSE) for (auto it = cx.end(); it != cx.begin();) h = mix(h + at(--it));
					put(h);
					break;
				}
				case O_SIZES:
					put(cx.size());
					put(cx.empty());
					put(cx.max_size());
					put(cx.bucket_count());
					put(cx.capacity());
					put(cx.max_bucket_count());
					put(u64(cx.load_factor() * 1000));
					put(u64(cx.max_load_factor() * 1000));
					break;
				case O_EQ: if constexpr (NK > 0) { put(cx == cy); put(cx != cy); put(cx == cx); } break;
				case O_COPY:
				{
					C z(cx);
					put(content(z));
					z.insert(mi(k, op.v, D));
					auto it = z.begin();
					if (op.s & 1) z.erase(it);
					else z.clear();
					put(z.size());
					if (op.s & 2) { z = cx; put(content(z)); }
					if (op.s & 4) { C w(cx, y.get_allocator()); put(w == cx); }
					if constexpr (!MAP) if (op.s & 8) { z.clear(); for (auto it = cx.begin(); it != cx.end(); ++it) z.insert(*it); put(content(z)); put(cx == z); }
					break;
				}
				case O_FUNCS:
					put(cx.hash_function()(RK(k)) & 1);
					put(cx.key_eq()(RK(k), RK(k)));
					put(cx.get_allocator() == y.get_allocator());
					break;
				case O_FRONTBACK: if constexpr (ORD) if (!cx.empty()) { put(elem(cx.front())); put(elem(cx.back())); } break;
				case O_BUCKETS:
					if constexpr (DENSE && NK == 1)
					{
						u64 s = 0;
						for (std::size_t b = 0; b < cx.bucket_count(); ++b)
						{
							put(cx.bucket_size(b));
							for (auto it = cx.begin(b); it != cx.end(b); ++it) s += at(it) * (b + 1);
						}
						if (cx.bucket_count()) put(cx.bucket(RK(k)));
						put(s);
					}
					if constexpr (NK > 1)
					{
						for (std::size_t b = 0; b < cx.bucket_count(); ++b) put(cx.bucket_size(b));
						if (cx.bucket_count()) { put(cx.template bucket<0>(RK(k))); put(cx.template bucket<1>(RK(k))); }
					}
					break;
				case O_ITERS:
				{
					auto a = cx.begin();
					auto b = a;
					u64 steps = 0;
					while (!(b == cx.end())) { if (!(a == b)) ++steps; b++; }
					auto d = cx.cbegin();
					put(steps);
					put(d == a);
					if constexpr (!ORD && !DENSE) put(a == cx.end());
					break;
				}
				default: break;
			}
			if (op_info[op.code].cat & MUT)
			{
				put(content(cx));
				if (op_info[op.code].cat & TWO) put(content(cy));
			}
		}
		template<int J>
		void find(const C &x, int k)
		{
			auto it = cfind<J>(x, RK(k));
			put(it == x.end() ? 0 : at(it));
		}
	};
	Register reg({STR(SIM_CONT), MAP, ORD, STABLE, DENSE, MULTI, &make_world<W<TheC>>});
}
