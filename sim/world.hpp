// One simulated world: three containers of one kind, two node handles, a reference model, and the oracles.
#pragma once
#include "core.hpp"
#include "ops.hpp"
#ifdef SIM_ALT
#include "plain.hpp"
#endif
#include <memory>
#include <algorithm>
#include <functional>
#include <list>
#include <set>
#include <stdexcept>
#include <tuple>

namespace sim
{
	template<int NK> struct key_tuple;
	template<> struct key_tuple<1> { using type = Key; };
	template<> struct key_tuple<2> { using type = std::tuple<Key, Key>; };
	template<> struct key_tuple<3> { using type = std::tuple<Key, Key, Key>; };

	struct Elem
	{
		int k[3] = {0, 0, 0};
		int v = 0;
		const void *addr = nullptr;
		bool same(const Elem &o) const { return k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && v == o.v; }
	};
	struct MC // model of one container
	{
		int res = 0, salt = 0, eq = 0;
		float mlf = 0;
		std::vector<Elem> v;
		std::size_t guar_n = 0, guar_bc = 0; // "reserve" promise in force
	};
	struct MH // model of one node handle
	{
		bool full = false;
		int res = 0;
		Elem e;
	};

	template<typename C_, bool Map, bool Ord, bool Stable, bool Dense, int Nk, bool Tr, int Pol, typename PA = void, typename PB = void>
	struct Cfg
	{
		using C = C_;
		using PlainA = PA; // ordinary types, see plain.hpp
		using PlainB = PB;
		static constexpr bool MAP = Map, ORD = Ord, STABLE = Stable, DENSE = Dense, TR = Tr;
		static constexpr int NK = Nk, POL = Pol;
	};

	template<typename T>
	struct World
	{
		using C = typename T::C;
		using It = typename C::iterator;
		using CIt = typename C::const_iterator;
		using A = typename C::allocator_type;
		using H = typename C::hasher;
		using Eqv = typename C::key_equal;
		static constexpr bool MAP = T::MAP, ORD = T::ORD, STABLE = T::STABLE, DENSE = T::DENSE, TR = T::TR;
		static constexpr int NK = T::NK, POL = T::POL;
		using KT = typename key_tuple<NK>::type;
		using IT = std::conditional_t<MAP, std::pair<KT, Val>, KT>;
		using VT = std::conditional_t<MAP, std::pair<const KT, Val>, KT>;
		static constexpr bool SOCCC0 = (POL & 8) != 0, ALWAYS = (POL & 16) != 0, POCCA = (POL & 1) != 0, POCMA = (POL & 2) != 0, POCS = (POL & 4) != 0;

		const Trace &tr;
		int D;
		C *c[3];
		MC m[3];
		MH h[2];
		std::size_t bound_n = 8; // largest size/request seen, for the memory bound
		float min_mlf = 0.875f;
		bool lowered = false; // a maximum load factor was lowered: elements may exceed capacity() until the next rehash
		std::function<void()> on_fail;
		bool must_ok = false, may_throw = false;
		bool dirty[3] = {true, true, true};
		const Op *cur = nullptr;

		explicit World(const Trace &t) : tr(t), D(t.domain) {}

		// ------------------------------------------------------------ small helpers
		struct Arm
		{
			explicit Arm(const Op &op) { if (op.fk) { E.mask = op.fk; E.n = op.fn; E.armed = true; } }
			~Arm() { E.armed = false; }
		};
		template<typename F>
		decltype(auto) call(F &&f)
		{
			Arm g(*cur);
			return f();
		}
		struct Calm // switch all faults off for a moment (oracle and cleanup code)
		{
			bool ex = E.exhausted, ar = E.armed;
			Calm() { E.exhausted = false; E.armed = false; }
			~Calm() { E.exhausted = ex; E.armed = ar; }
		};
		static Key key(int id) { Calm q; return Key(id); }
		static KT mk(const Elem &e)
		{
			if constexpr (NK == 1) return key(e.k[0]);
			else if constexpr (NK == 2) return KT(key(e.k[0]), key(e.k[1]));
			else return KT(key(e.k[0]), key(e.k[1]), key(e.k[2]));
		}
		static Val mv(int v) { Calm q; return Val(v); }
		static IT mi(const Elem &e)
		{
			if constexpr (MAP) return IT(mk(e), mv(e.v));
			else return mk(e);
		}
		static VT mvt(const Elem &e)
		{
			if constexpr (MAP) return VT(mk(e), mv(e.v));
			else return mk(e);
		}
		template<typename R>
		static const auto &keyof(const R &r) { if constexpr (MAP) return r.first; else return r; }
		template<int J, typename R>
		static int kid(const R &r) { if constexpr (NK == 1) return keyof(r).get(); else return std::get<J>(keyof(r)).get(); }
		template<typename R>
		static int val(const R &r) { if constexpr (MAP) return r.second.get(); else return ((void)r, 0); }
		template<typename R>
		static Elem elem_of(const R &r)
		{
			Elem e;
			e.k[0] = kid<0>(r);
			if constexpr (NK > 1) e.k[1] = kid<1>(r);
			if constexpr (NK > 2) e.k[2] = kid<2>(r);
			e.v = val(r);
			if constexpr (STABLE) e.addr = &r;
			return e;
		}
		template<typename I>
		static Elem elem(I it) { if constexpr (STABLE) return elem_of(*it); else { auto &&r = *it; return elem_of(r); } }

		// Arguments are passed as const lvalues, mutable lvalues or rvalues; an lvalue must keep its value whatever happens.
		template<typename X, typename F>
		static decltype(auto) as(int cat, X &v, F &&f)
		{
			switch (cat & 3)
			{
				case 1: return f(v);
				case 2: return f(std::move(v));
				default: return f(std::as_const(v));
			}
		}
		template<typename X, typename U, typename F>
		static decltype(auto) as(int cat, X &v, U &w, F &&f)
		{
			switch (cat & 3)
			{
				case 1: return f(v, w);
				case 2: return f(std::move(v), std::move(w));
				default: return f(std::as_const(v), std::as_const(w));
			}
		}
		struct Watch
		{
			struct I { const int *p; int want; };
			std::vector<I> item;
			bool movable;
			explicit Watch(int cat) : movable((cat & 3) == 2) {}
			Watch &add(const Key &k) { return item.push_back({&k.id, k.id}), *this; }
			Watch &add(const Val &v) { return item.push_back({&v.v, v.v}), *this; }
			template<typename... X>
			Watch &add(const std::tuple<X...> &t) { std::apply([&](auto &...k) { (add(k), ...); }, t); return *this; }
			template<typename K, typename V>
			Watch &add(const std::pair<K, V> &t) { add(t.first); return add(t.second); }
			~Watch()
			{
				for (auto &x: item)
					if (*x.p != x.want && !(movable && *x.p == MOVED))
						violate("args", "an argument with value %d was changed to %d%s", x.want, *x.p, *x.p == MOVED ? " (moved from although passed as an lvalue)" : "");
			}
		};

		Elem from_op(const Op &op, int off = 0) const
		{
			Elem e;
			auto w = [&](long long x) { return static_cast<int>(((x % D) + D) % D); };
			e.k[0] = w(static_cast<long long>(op.k) + off);
			if constexpr (NK > 1) e.k[1] = w((op.s & 0xff) + static_cast<long long>(off) * 3);
			if constexpr (NK > 2) e.k[2] = w(static_cast<long long>(op.b) + static_cast<long long>(off) * 5);
			if constexpr (MAP) e.v = op.v + off;
			return e;
		}
		static int find_m(const MC &mc, int J, int id)
		{
			for (std::size_t i = 0; i < mc.v.size(); ++i) if (mc.v[i].k[J] == id) return static_cast<int>(i);
			return -1;
		}
		std::vector<int> conflicts(const MC &mc, const Elem &e) const
		{
			std::vector<int> r;
			for (int j = 0; j < NK; ++j)
				if (int i = find_m(mc, j, e.k[j]); i >= 0 && std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
			return r;
		}
		template<typename F>
		void with_j(int j, F &&f)
		{
			j = ((j % NK) + NK) % NK;
			if constexpr (NK > 1) { if (j == 1) return f(std::integral_constant<int, 1>{}); }
			if constexpr (NK > 2) { if (j == 2) return f(std::integral_constant<int, 2>{}); }
			f(std::integral_constant<int, 0>{});
		}
		bool eq_alloc(int a, int b) const { return ALWAYS || a == b; }
		int nres() const { return tr.nres < 1 ? 1 : tr.nres; }

		template<int J>
		auto c_find(C &x, const Key &k) { if constexpr (NK == 1) return x.find(k); else return x.template find<J>(k); }
		template<int J>
		auto c_find(const C &x, const Key &k) { if constexpr (NK == 1) return x.find(k); else return x.template find<J>(k); }
		template<int J>
		auto c_find_t(const C &x, int id)
		{
			if constexpr (TR) { if constexpr (NK == 1) return x.find(KeyRef{id}); else return x.template find<J>(KeyRef{id}); }
			else { Key k = key(id); return c_find<J>(x, k); }
		}
		template<int J>
		bool c_contains(const C &x, const Key &k) { if constexpr (NK == 1) return x.contains(k); else return x.template contains<J>(k); }

		// ------------------------------------------------------------ slots
		void destroy_slot(int i)
		{
			c[i]->~C();
			object_slot_free(i, sizeof(C));
		}
		template<typename... Args>
		void construct_slot(int i, Args &&...args)
		{
			void *p = object_slot(i, sizeof(C));
			c[i] = new(p) C(std::forward<Args>(args)...);
		}
		void fresh_slot(int i, int res = 0)
		{
			Calm q;
			construct_slot(i, A(res));
			m[i] = MC{};
			m[i].res = res;
			m[i].mlf = c[i]->max_load_factor();
			dirty[i] = true;
		}
		template<typename X, bool = STABLE>
		struct node_of { using type = int; };
		template<typename X>
		struct node_of<X, true> { using type = typename X::node_type; };
		using N = typename node_of<C>::type;
		N *n[2];
		template<typename... Args>
		void construct_node(int i, Args &&...args) { n[i] = new(object_slot(4 + i, sizeof(N))) N(std::forward<Args>(args)...); }
		void destroy_node(int i)
		{
			if constexpr (STABLE)
			{
				n[i]->~N();
				object_slot_free(4 + i, sizeof(N));
			}
		}

		// ------------------------------------------------------------ oracles
		std::vector<Elem> observe(const C &x)
		{
			Calm q;
			std::vector<Elem> r;
			const std::size_t cap = x.size() + 8;
			for (auto it = x.begin(); !(it == x.end()); ++it)
			{
				r.push_back(elem(it));
				if (r.size() > cap) violate("iter", "iteration yields more elements than size()=%zu", x.size());
			}
			return r;
		}
		static std::string show(const Elem &e)
		{
			char b[96];
			if (NK == 1) std::snprintf(b, sizeof b, "{%d:%d}", e.k[0], e.v);
			else std::snprintf(b, sizeof b, "{%d,%d,%d:%d}", e.k[0], e.k[1], e.k[2], e.v);
			return b;
		}
		static std::string show(const std::vector<Elem> &v)
		{
			std::string s = "[";
			for (std::size_t i = 0; i < v.size() && i < 12; ++i) s += show(v[i]);
			return s + (v.size() > 12 ? "...]" : "]");
		}
		void verify(int i, bool full)
		{
			Calm q;
			C &x = *c[i];
			const C &cx = x;
			MC &mc = m[i];
			if (x.size() != mc.v.size()) violate("size", "container %d: size()=%zu, model has %zu", i, static_cast<std::size_t>(x.size()), mc.v.size());
			if (x.empty() != mc.v.empty()) violate("size", "container %d: empty() is wrong", i);
			if ((x.begin() == x.end()) != mc.v.empty()) violate("iter", "container %d: begin()==end() is wrong for size %zu", i, mc.v.size());
			std::vector<int> pos(static_cast<std::size_t>(D) * NK, -1);
			for (std::size_t p = 0; p < mc.v.size(); ++p)
				for (int j = 0; j < NK; ++j) pos[static_cast<std::size_t>(mc.v[p].k[j]) * NK + j] = static_cast<int>(p);
			std::vector<char> seen(mc.v.size(), 0);
			std::size_t cnt = 0;
			auto visit = [&](const Elem &e)
			{
				int p = e.k[0] >= 0 && e.k[0] < D ? pos[static_cast<std::size_t>(e.k[0]) * NK] : -1;
				if (p < 0) violate("content", "container %d holds %s which it should not", i, show(e).c_str());
				if (seen[p]) violate("iter", "container %d: %s visited twice", i, show(e).c_str());
				seen[p] = 1;
				const Elem &w = mc.v[p];
				if (!w.same(e)) violate("content", "container %d holds %s, expected %s", i, show(e).c_str(), show(w).c_str());
				if (STABLE && w.addr != e.addr) violate("stability", "container %d: %s moved in memory", i, show(e).c_str());
				if (ORD && static_cast<std::size_t>(p) != cnt) violate("order", "container %d: %s at position %zu, expected %d", i, show(e).c_str(), cnt, p);
				++cnt;
			};
			for (auto it = cx.begin(); !(it == cx.end()); ++it)
			{
				visit(elem(it));
				if (cnt > mc.v.size()) violate("iter", "container %d: iteration does not end", i);
			}
			if (cnt != mc.v.size()) violate("iter", "container %d: iteration yields %zu of %zu elements", i, cnt, mc.v.size());
			if constexpr (ORD || DENSE)
			{
				std::size_t back = mc.v.size();
				for (auto it = cx.end(); !(it == cx.begin());)
				{
					--it;
					if (back == 0) violate("order", "container %d: reverse iteration does not end", i);
					--back;
					Elem e = elem(it);
					if (ORD && !mc.v[back].same(e)) violate("order", "container %d: reverse iteration yields %s at %zu, expected %s", i, show(e).c_str(), back, show(mc.v[back]).c_str());
				}
				if (back != 0) violate("order", "container %d: reverse iteration stops early", i);
			}
			if (full || st->op_index % 4 == 0) verify_iterators(i);
			if constexpr (ORD)
				if (!mc.v.empty())
				{
					auto &&f = cx.front();
					auto &&b = cx.back();
					if (!elem_of(f).same(mc.v.front()) || !elem_of(b).same(mc.v.back())) violate("order", "container %d: front()/back() wrong", i);
				}
			// lookups of present and absent keys
			const int step = full || D <= 24 ? 1 : D / 12;
			for (int id = step == 1 ? 0 : st->op_index % step; id < D; id += step)
			{
				Key k = key(id);
				lookup<0>(i, k, pos);
				if constexpr (NK > 1) lookup<1>(i, k, pos);
				if constexpr (NK > 2) lookup<2>(i, k, pos);
			}
			if (x.get_allocator().res != mc.res) violate("propagation", "container %d: allocator is resource %d, expected %d", i, x.get_allocator().res, mc.res);
			if (x.hash_function().salt != mc.salt) violate("functor", "container %d: hash function was not transferred", i);
			if (x.key_eq().tag() != mc.eq) violate("functor", "container %d: comparison function was not transferred", i);
			if (DENSE && x.max_load_factor() != mc.mlf) violate("functor", "container %d: max_load_factor was not transferred", i);
			bound(i);
		}
		// The mutable, reverse and random-access faces of iteration must agree with the plain const traversal just checked.
		void verify_iterators(int i)
		{
			C &x = *c[i];
			const C &cx = x;
			const std::size_t n = m[i].v.size();
			std::vector<Elem> fwd = observe(cx);
			std::size_t p = 0;
			for (auto it = x.begin(); it != x.end(); ++p)
			{
				if (p >= n) violate("iter", "container %d: iteration with mutable iterators does not end", i);
				auto old = it++;
				if (!elem(old).same(fwd[p])) violate("iter", "container %d: iteration with mutable iterators differs", i);
			}
			if (p != n) violate("iter", "container %d: iteration with mutable iterators stops early", i);
			if constexpr (DENSE)
			{
				p = n;
				for (auto it = x.rbegin(); it != x.rend(); ++it)
				{
					if (p-- == 0) violate("order", "container %d: rbegin() .. rend() does not end", i);
					if (!elem_of(*it).same(fwd[p])) violate("order", "container %d: rbegin() .. rend() differs", i);
				}
				if (p != 0) violate("order", "container %d: rbegin() .. rend() stops early", i);
				p = n;
				for (auto it = cx.crbegin(); it != cx.crend(); it++)
				{
					if (p-- == 0) violate("order", "container %d: crbegin() .. crend() does not end", i);
					if (!elem_of(*it).same(fwd[p])) violate("order", "container %d: crbegin() .. crend() differs", i);
				}
				if (p != 0) violate("order", "container %d: crbegin() .. crend() stops early", i);
			}
			using It = typename C::const_iterator;
			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename It::iterator_category>)
			{
				using Diff = typename It::difference_type;
				if (cx.end() - cx.begin() != static_cast<Diff>(n)) violate("iter", "container %d: end() - begin() is not size()", i);
				for (std::size_t q = 0; q < n; q += 1 + n / 5)
				{
					const Diff d = static_cast<Diff>(q);
					auto a = cx.begin() + d;
					auto b = cx.end();
					b -= static_cast<Diff>(n) - d;
					auto e = cx.begin();
					e += d;
					auto f = cx.end() - (static_cast<Diff>(n) - d);
					if (!(a == b) || !(a == e) || !(a == f) || a - cx.begin() != d || !(a < cx.end()) || a > b || !(a >= e) || !(a <= f) || a < cx.begin()) violate("iter", "container %d: iterator arithmetic is inconsistent at %zu", i, q);
					if (!elem(a).same(fwd[q]) || !elem_of(cx.begin()[d]).same(fwd[q])) violate("iter", "container %d: iterator arithmetic reaches a wrong element at %zu", i, q);
				}
			}
		}
		template<int J>
		void lookup(int i, const Key &k, const std::vector<int> &pos)
		{
			C &x = *c[i];
			const C &cx = x;
			const int p = pos[static_cast<std::size_t>(k.id) * NK + J];
			if (c_contains<J>(cx, k) != (p >= 0)) violate("lookup", "container %d: contains<%d>(%d) is %s", i, J, k.id, p >= 0 ? "false, but the element is there" : "true, but there is no such element");
			auto it = c_find<J>(cx, k);
			if ((it == cx.end()) != (p < 0)) violate("lookup", "container %d: find<%d>(%d) %s", i, J, k.id, p >= 0 ? "misses the element" : "finds something");
			if (p >= 0)
			{
				Elem e = elem(it);
				if (!e.same(m[i].v[p]) || (STABLE && e.addr != m[i].v[p].addr)) violate("lookup", "container %d: find<%d>(%d) yields %s, expected %s", i, J, k.id, show(e).c_str(), show(m[i].v[p]).c_str());
			}
		}
		void bound(int i)
		{
			bound_n = std::max(bound_n, m[i].v.size());
			const double lim = 16.0 * static_cast<double>(bound_n) / static_cast<double>(std::min(min_mlf, 0.875f));
			if (static_cast<double>(c[i]->bucket_count()) > lim) violate("growth", "container %d: %zu buckets although never more than %zu elements were stored or requested", i, static_cast<std::size_t>(c[i]->bucket_count()), bound_n);
		}
		void check_live()
		{
			std::size_t want = 0;
			for (auto &x: m) want += x.v.size();
			for (auto &x: h) want += x.full;
			want *= NK + MAP;
			if (live.count != want) violate(live.count > want ? "leak" : "lifetime", "%zu tracked objects alive, expected %zu", live.count, want);
		}
		void check_handles()
		{
			if constexpr (STABLE)
				for (int i = 0; i < 2; ++i)
				{
					if (n[i]->empty() == h[i].full) violate("node", "node handle %d is %s", i, h[i].full ? "empty, expected to own an element" : "full, expected empty");
					if (h[i].full)
					{
						Elem e = elem_of(n[i]->value());
						if (!e.same(h[i].e)) violate("node", "node handle %d holds %s, expected %s", i, show(e).c_str(), show(h[i].e).c_str());
						if (e.addr != h[i].e.addr) violate("stability", "element in node handle %d moved in memory", i);
						if (n[i]->get_allocator().res != h[i].res) violate("propagation", "node handle %d: allocator is resource %d, expected %d", i, n[i]->get_allocator().res, h[i].res);
					}
				}
		}
		void verify_all(bool full)
		{
			for (int i = 0; i < 3; ++i)
				if (dirty[i] || full)
				{
					verify(i, full);
					dirty[i] = false;
				}
				else if (c[i]->size() != m[i].v.size()) violate("interference", "container %d changed although another one was used", i);
			check_handles();
			check_live();
		}
		// Adopt what the container really holds, after an operation that leaves some freedom; `ok` is the set of genuine elements.
		void resync(int i, const std::vector<const std::vector<Elem> *> &ok, const char *what)
		{
			auto got = observe(*c[i]);
			for (auto &e: got)
			{
				bool f = false;
				for (auto *l: ok) for (auto &w: *l) if (w.same(e)) f = true;
				if (!f) violate("content", "%s: container %d holds %s which is neither an old nor a new element", what, i, show(e).c_str());
			}
			for (std::size_t a = 0; a < got.size(); ++a)
				for (std::size_t b = a + 1; b < got.size(); ++b)
					if (got[a].k[0] == got[b].k[0]) violate("content", "%s: container %d holds key %d twice", what, i, got[a].k[0]);
			if (got.size() != c[i]->size()) violate("size", "%s: container %d: size()=%zu, iteration yields %zu", what, i, static_cast<std::size_t>(c[i]->size()), got.size());
			m[i].v = got;
			m[i].salt = c[i]->hash_function().salt;
			m[i].eq = c[i]->key_eq().tag();
			m[i].mlf = c[i]->max_load_factor();
			m[i].guar_n = 0;
			dirty[i] = true;
		}
		static bool subsequence(const std::vector<Elem> &a, const std::vector<Elem> &b) // keys of a in the order of b
		{
			std::size_t j = 0;
			for (auto &e: a)
			{
				while (j < b.size() && b[j].k[0] != e.k[0]) ++j;
				if (j++ == b.size()) return false;
			}
			return true;
		}
		void adopt_addr(int i)
		{
			if constexpr (STABLE)
			{
				Calm q;
				for (auto it = c[i]->begin(); !(it == c[i]->end()); ++it)
					for (auto &e: m[i].v) if (e.k[0] == kid<0>(*it)) e.addr = &*it;
			}
		}
		std::vector<int> order_ids(int i)
		{
			std::vector<int> r;
			for (auto &e: observe(*c[i])) r.push_back(e.k[0]);
			return r;
		}

		// result of an insertion attempt; hint: -1 none, else position in iteration order
		template<typename I>
		void inserted(int i, const Elem &e0, I it, int flag, int hint)
		{
			Calm q;
			MC &mc = m[i];
			Elem e = e0;
			if (it == c[i]->end()) violate("result", "insertion of %s returned end()", show(e).c_str());
			auto cf = conflicts(mc, e);
			Elem got = elem(it);
			elog.put_api(cf.empty());
			if (!cf.empty())
			{
				if (flag == 1) violate("result", "insertion of %s reports success although the key is present", show(e).c_str());
				for (int p: cf) if (mc.v[p].same(got)) return;
				violate("result", "rejected insertion of %s yields %s which does not conflict", show(e).c_str(), show(got).c_str());
			}
			if (flag == 0) violate("result", "insertion of %s reports failure although no key is present", show(e).c_str());
			if (!got.same(e)) violate("result", "insertion of %s yields an iterator to %s", show(e).c_str(), show(got).c_str());
			e.addr = got.addr;
			place(i, e, it, hint);
		}
		template<typename I>
		void place(int i, const Elem &e, I it, int hint)
		{
			MC &mc = m[i];
			std::size_t p = mc.v.size();
			if (ORD && hint >= 0)
			{
				// next to the hint, on either side (cyclically for end())
				p = 0;
				for (auto j = c[i]->begin(); !(j == it); ++j) if (++p > mc.v.size()) violate("order", "hinted insertion: new element not in the iteration order");
				const std::size_t hp = static_cast<std::size_t>(hint), sz = mc.v.size();
				if (!(p == hp || p == hp + 1 || (hp == sz && p == 0))) violate("order", "hinted insertion: element placed at %zu, hint was at %zu of %zu", p, hp, sz);
			}
			mc.v.insert(mc.v.begin() + static_cast<std::ptrdiff_t>(p), e);
			if (mc.v.size() > mc.guar_n) mc.guar_n = 0; // the promise is fulfilled
			if (mc.guar_n && mc.v.size() <= mc.guar_n && c[i]->bucket_count() != mc.guar_bc)
				violate("reserve", "container %d grew from %zu to %zu buckets at %zu elements although reserve(%zu) was called", i, mc.guar_bc, static_cast<std::size_t>(c[i]->bucket_count()), mc.v.size(), mc.guar_n);
		}
		// When builds are compared, unordered elements are chosen independently of the unspecified iteration order.
		bool order_free() const { return !ORD && !DENSE && tr.profile == "C15"; }
		std::size_t pick(const std::vector<int> &ord, int s) const
		{
			const std::size_t n = static_cast<std::size_t>(s) % ord.size();
			if (!order_free()) return n;
			std::vector<int> x = ord;
			std::sort(x.begin(), x.end());
			return static_cast<std::size_t>(std::find(ord.begin(), ord.end(), x[n]) - ord.begin());
		}
		CIt hint_at(int i, int p)
		{
			CIt it = c[i]->begin();
			while (p-- > 0) ++it;
			return it;
		}
		int hint_pos(int i, const Op &op) { return static_cast<int>(static_cast<std::size_t>((op.s >> 8) & 0xff) % (m[i].v.size() + 1)); }

		// check what an erasing call returned: the rest of the traversal must be exactly what followed before
		template<typename I>
		void check_next(int i, I it, const std::vector<int> &rest)
		{
			std::vector<int> got;
			for (; !(it == c[i]->end()); ++it)
			{
				got.push_back(elem(it).k[0]);
				if (got.size() > rest.size() + 4) break;
			}
			bool ok;
			if (ORD) ok = got == rest;
			else { auto a = got, b = rest; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok = a == b; }
			if (!ok) violate("next", "container %d: the iterator returned by erase continues with %zu elements, expected %zu", i, got.size(), rest.size());
		}
		void erase_model(int i, int p)
		{
			m[i].v.erase(m[i].v.begin() + p);
			m[i].guar_n = 0;
		}

		std::vector<Elem> item_list(const Op &op, int n) const
		{
			std::vector<Elem> r;
			for (int x = 0; x < n; ++x) r.push_back(from_op(op, x * (1 + (op.b & 3))));
			return r;
		}
		// elements as a sequence of insertions would leave them
		std::vector<Elem> after_inserts(std::vector<Elem> base, const std::vector<Elem> &list) const
		{
			for (auto &e: list)
			{
				MC t;
				t.v = base;
				if (conflicts(t, e).empty()) base.push_back(e);
			}
			return base;
		}
		void fail_subset(int i, const std::vector<Elem> &old, const std::vector<Elem> &list, const char *what, bool keep_old)
		{
			resync(i, {&old, &list}, what);
			if (keep_old)
				for (auto &e: old)
				{
					int p = find_m(m[i], 0, e.k[0]);
					if (p < 0 || !m[i].v[p].same(e)) violate("atomicity", "%s failed and lost or changed %s", what, show(e).c_str());
					if (STABLE && m[i].v[p].addr != e.addr) violate("stability", "%s: %s moved in memory", what, show(e).c_str());
				}
			if (ORD && !subsequence(m[i].v, after_inserts(keep_old ? old : std::vector<Elem>{}, list)) && !(subsequence(m[i].v, old))) violate("order", "%s failed and left the elements out of order: %s", what, show(m[i].v).c_str());
		}
		// new contents for slot i at once (all addresses fresh)
		void set_model(int i, const std::vector<Elem> &v)
		{
			m[i].v = v;
			m[i].guar_n = 0;
			// Only adopt addresses of a container that really has this content.
			adopt_addr(i);
			dirty[i] = true;
		}

#include "world_ops.inc"
#include "world_ovl.inc"
#include "world_big.inc"

		// ------------------------------------------------------------ run
		void step(const Op &op)
		{
			cur = &op;
			on_fail = nullptr;
			must_ok = may_throw = false;
			const unsigned cat = op_info[op.code].cat;
			const int oa = ((op.a % 3) + 3) % 3;
			// room for this insertion was reserved (stable containers still need memory for the element itself)
			const bool covered = !STABLE && covered_op(op.code) && m[oa].guar_n > m[oa].v.size() && c[oa]->bucket_count() == m[oa].guar_bc;
			op_begin();
			try
			{
				exec(op);
				elog.put_api(0x100);
			}
			catch (const SimFault &f)
			{
				E.armed = false;
				if (E.fired != f.kind) violate("throw", "%s: unexpected fault", op_info[op.code].name);
				failed(op, cat);
			}
			catch (const SimBadAlloc &b)
			{
				E.armed = false;
				if (!may_throw && !(b.exhausted ? E.exhausted_hit : E.fired == F_ALLOC)) violate("throw", "%s: unexpected bad_alloc", op_info[op.code].name);
				if (b.exhausted && E.exhausted_hit && must_ok) violate("exhausted", "%s needs memory although it should not", op_info[op.code].name);
				if (b.exhausted && E.exhausted_hit && covered) violate("exhausted", "%s needs memory at %zu elements although reserve(%zu) was called", op_info[op.code].name, m[oa].v.size(), m[oa].guar_n);
				failed(op, cat);
			}
			catch (const std::exception &e)
			{
				E.armed = false;
				if (!may_throw) violate("throw", "%s threw %s", op_info[op.code].name, e.what());
				failed(op, cat);
			}
			E.armed = false;
			op_end();
			verify_all(false);
			if (order_free()) for (auto &x: m) std::sort(x.v.begin(), x.v.end(), [](const Elem &a, const Elem &b) { return a.k[0] < b.k[0]; });
			u64 s = 0;
			for (int i = 0; i < 3; ++i)
			{
				u64 t = 0;
				int idx = 0;
				for (auto &e: m[i].v) { u64 x = mix64(static_cast<u64>(e.k[0]) * 131 + static_cast<u64>(e.k[1]) * 17 + static_cast<u64>(e.k[2])); t += ORD ? mix64(x + static_cast<u64>(idx++)) : x; }
				s = mix64(s ^ t ^ (static_cast<u64>(c[i]->bucket_count()) << 32));
				u64 av = 0;
				for (auto &e: m[i].v) av += mix64(static_cast<u64>(e.k[0]) * 77 + static_cast<u64>(e.v));
				elog.put_api(m[i].v.size());
				elog.put_api(t);
				elog.put_api(av);
			}
			states.hit(s ^ (h[0].full ? 7 : 0) ^ (h[1].full ? 13 : 0));
			elog.put(heap.n_alloc);
			elog.put(E.steps);
			if (verbose)
			{
				std::printf("  op %d %s a=%d b=%d k=%d v=%d s=%d fk=%d fn=%d%s%s -> ", st->op_index, op_info[op.code].name, op.a, op.b, op.k, op.v, op.s, op.fk, op.fn, E.fired ? " FAULT " : "", E.fired ? fault_names[kind_index(E.fired)] : "");
				for (int i = 0; i < 3; ++i) std::printf("%zu:%s ", static_cast<std::size_t>(c[i]->bucket_count()), show(m[i].v).c_str());
				std::printf("\n");
				std::fflush(stdout);
			}
		}
		static bool covered_op(int code)
		{
			switch (code)
			{
				case O_INS: case O_INSM: case O_INSH: case O_INSMH: case O_INSC: case O_EMP: case O_EMPP: case O_EMPH: case O_TRY: case O_TRYM: case O_TRYH:
				case O_IOA: case O_IOAM: case O_IOAH: case O_EOR: case O_EORH: case O_IDX: case O_IDXW: case O_OVI: case O_OVK: case O_OVT: case O_OVX: return true;
				default: return false;
			}
		}
		void failed(const Op &op, unsigned cat)
		{
			elog.put_api(0x200 + static_cast<u64>(E.fired));
			if (E.fired) ++probes[op.code];
			if (on_fail)
			{
				Calm q;
				on_fail();
			}
			else if (!(cat & SINGLE)) violate("throw", "%s may not fail", op_info[op.code].name);
		}
		void run()
		{
			for (int i = 0; i < 3; ++i) fresh_slot(i, 0);
			if constexpr (STABLE) { construct_node(0); construct_node(1); }
			for (std::size_t x = 0; x < tr.ops.size(); ++x)
			{
				st->op_index = static_cast<int>(x);
				step(tr.ops[x]);
			}
			st->op_index = static_cast<int>(tr.ops.size());
			E.exhausted = false;
			op_begin();
			verify_all(true);
			for (int i = 0; i < 3; ++i) destroy_slot(i);
			destroy_node(0);
			destroy_node(1);
			op_end();
			if (live.count) violate("leak", "%zu tracked objects alive after everything was destroyed", live.count);
			if (heap.out_bytes || !heap.live.empty()) violate("leak", "%zu bytes in %zu blocks never returned", heap.out_bytes, heap.live.size());
		}
	};

	template<typename T>
	void run_world(const Trace &t)
	{
		World<T> w(t);
		w.run();
	}
	template<typename T>
	Runner make_runner(const char *name) { return Runner{name, Caps{T::MAP, T::ORD, T::STABLE, T::DENSE, T::NK, T::POL}, &run_world<T>}; }
}
