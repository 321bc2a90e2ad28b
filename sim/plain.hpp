// Sub-histories on containers of ordinary types: default template arguments (std::hash, std::equal_to, std::allocator, the functors
// behind multikey), keys and values that own memory, and types that can only be moved. Memory comes from operator new, which
// core.cpp routes to the simulated heap (and to the fault injector) while a call into a container is under way.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace sim
{
	struct MoKey // a key that can only be moved
	{
		std::unique_ptr<int> p;
		explicit MoKey(int i) : p(std::make_unique<int>(i)) {}
		MoKey(MoKey &&) = default;
		MoKey &operator=(MoKey &&) = default;
		int get() const { if (!p) violate("lifetime", "a moved-from key is used"); return *p; }
		friend bool operator==(const MoKey &a, const MoKey &b) { return a.get() == b.get(); }
	};
	inline int plain_get(int k) { return k; }
	inline int plain_get(unsigned long k) { return static_cast<int>(k); }
	inline int plain_get(char k) { return k; }
	inline int plain_get(const MoKey &k) { return k.get(); }
	inline int plain_get(const std::string &k)
	{
		if (k.empty()) violate("lifetime", "a moved-from string is used");
		return std::atoi(k.c_str());
	}
	inline int plain_get(const std::unique_ptr<std::string> &k)
	{
		if (!k) violate("lifetime", "a moved-from value is used");
		return plain_get(*k);
	}
	inline std::string plain_text(int i) { std::string s = std::to_string(i); if (i % 3) s += std::string(static_cast<std::size_t>(13 + i % 40), '.'); return s; }
	template<typename T>
	T plain_make(int i)
	{
		if constexpr (std::is_same_v<T, std::string>) return plain_text(i);
		else if constexpr (std::is_same_v<T, std::unique_ptr<std::string>>) return std::make_unique<std::string>(plain_text(i));
		else return T(static_cast<T>(i));
	}
	template<typename T>
	struct is_tuple : std::false_type {};
	template<typename... Ts>
	struct is_tuple<std::tuple<Ts...>> : std::true_type {};
	template<typename C, typename = void>
	struct mapped_of { using type = void; };
	template<typename C>
	struct mapped_of<C, std::void_t<typename C::mapped_type>> { using type = typename C::mapped_type; };

	template<typename C, bool ORD, bool STABLE>
	struct Plain
	{
		using KT = typename C::key_type;
		using V = typename mapped_of<C>::type;
		static constexpr bool MAP = !std::is_void_v<V>, MULTI = is_tuple<KT>::value;
		template<typename K>
		struct arity { static constexpr int value = 1; };
		template<typename... Ks>
		struct arity<std::tuple<Ks...>> { static constexpr int value = sizeof...(Ks); };
		static constexpr int NK = arity<KT>::value;
		template<int J, typename K>
		struct comp { using type = K; };
		template<int J, typename... Ks>
		struct comp<J, std::tuple<Ks...>> { using type = std::tuple_element_t<static_cast<std::size_t>(J), std::tuple<Ks...>>; };
		template<int J>
		using Comp = typename comp<J, KT>::type;
		template<typename M, bool = std::is_void_v<M>>
		struct item_of { using type = std::pair<KT, M>; };
		template<typename M>
		struct item_of<M, true> { using type = KT; };
		using Item = typename item_of<V>::type;
		static constexpr bool KCOPY = std::is_copy_constructible_v<Comp<0>> && std::is_copy_constructible_v<Comp<NK - 1>>, COPY = KCOPY && (!MAP || std::is_copy_constructible_v<std::conditional_t<MAP, V, int>>);

		struct PE
		{
			int k[3] = {0, 0, 0}, v = 0;
			const void *addr = nullptr;
			bool same(const PE &o) const { return k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && v == o.v; }
		};
		using Model = std::vector<PE>;

		Rng g;
		int D, fk, fn;
		bool failed = false;
		std::unique_ptr<C> x[2];
		Model m[2];

		Plain(u64 seed, int d, int fk_, int fn_) : g(seed), D(d), fk(fk_), fn(fn_) {}

		// a call into a container
		template<typename F>
		decltype(auto) in(F &&f) const
		{
			struct G
			{
				bool was = E.plain;
				G() { E.plain = true; }
				~G() { E.plain = was; }
			} guard;
			E.step_budget = E.steps + 100000000ull;
			return f();
		}
		// the same, and it may fail
		template<typename F>
		bool may(F &&f)
		{
			failed = false;
			struct G
			{
				Plain &p;
				explicit G(Plain &p_) : p(p_) { if (p.fk & F_ALLOC) { E.mask = F_ALLOC; E.n = p.fn; E.armed = true; } }
				~G() { if (!E.armed) p.fk = 0; p.fn = E.n; E.armed = false; }
			};
			try
			{
				G guard(*this);
				in(f);
				return true;
			}
			catch (const SimBadAlloc &) { if (E.fired != F_ALLOC) violate("throw", "unexpected bad_alloc"); }
			failed = true;
			return false;
		}
		template<int J>
		static Comp<J> piece(const PE &e) { return plain_make<Comp<J>>(e.k[J]); }
		static KT key(const PE &e)
		{
			if constexpr (NK == 2) return KT(piece<0>(e), piece<1>(e));
			else if constexpr (NK == 3) return KT(piece<0>(e), piece<1>(e), piece<2>(e));
			else return piece<0>(e);
		}
		static Item item(const PE &e)
		{
			if constexpr (MAP) return Item(key(e), plain_make<V>(e.v));
			else return key(e);
		}
		template<typename K>
		static void read_key(PE &e, const K &k)
		{
			if constexpr (NK == 1) e.k[0] = plain_get(k);
			else
			{
				e.k[0] = plain_get(std::get<0>(k));
				e.k[1] = plain_get(std::get<1>(k));
				if constexpr (NK > 2) e.k[2] = plain_get(std::get<2>(k));
			}
		}
		template<typename R>
		static PE read(const R &r)
		{
			PE e;
			if constexpr (MAP)
			{
				read_key(e, r.first);
				e.v = plain_get(r.second);
			}
			else read_key(e, r);
			if constexpr (STABLE) e.addr = &r;
			return e;
		}
		template<typename I>
		static PE at(I it) { if constexpr (STABLE) return read(*it); else { auto &&r = *it; return read(r); } }
		static std::string show(const PE &e)
		{
			std::string s = std::to_string(e.k[0]);
			for (int J = 1; J < NK; ++J) s += "," + std::to_string(e.k[J]);
			return "(" + s + (MAP ? ")=" + std::to_string(e.v) : ")");
		}
		PE random()
		{
			PE e;
			for (int J = 0; J < NK; ++J) e.k[J] = 1 + int(g.below(static_cast<u64>(D)));
			if constexpr (MAP) e.v = 1 + int(g.below(100));
			return e;
		}
		static int find_m(const Model &v, int J, int id)
		{
			for (std::size_t p = 0; p < v.size(); ++p) if (v[p].k[J] == id) return static_cast<int>(p);
			return -1;
		}
		static bool conflict(const Model &v, const PE &e)
		{
			for (int J = 0; J < NK; ++J) if (find_m(v, J, e.k[J]) >= 0) return true;
			return false;
		}
		template<int J, typename X>
		static auto find(X &c, const Comp<J> &k) { if constexpr (NK == 1) return c.find(k); else return c.template find<J>(k); }
		template<int J, typename X>
		static bool contains(X &c, const Comp<J> &k) { if constexpr (NK == 1) return c.contains(k); else return c.template contains<J>(k); }
		template<int J>
		void lookups(int i, const char *what)
		{
			const C &cx = *x[i];
			for (int id = 1; id <= D; ++id)
			{
				const Comp<J> k = plain_make<Comp<J>>(id);
				const int p = find_m(m[i], J, id);
				in([&]()
				{
					if (contains<J>(cx, k) != (p >= 0)) violate("lookup", "plain: after %s contains<%d>(%d) is wrong", what, J, id);
					auto it = find<J>(cx, k);
					auto jt = find<J>(*x[i], k);
					if ((it == cx.end()) != (p < 0) || (jt == x[i]->end()) != (p < 0)) violate("lookup", "plain: after %s find<%d>(%d) is wrong", what, J, id);
					if (p >= 0 && (!at(it).same(m[i][static_cast<std::size_t>(p)]) || !at(jt).same(m[i][static_cast<std::size_t>(p)]))) violate("lookup", "plain: after %s find<%d>(%d) finds %s", what, J, id, show(at(it)).c_str());
					if constexpr (MAP)
						if (p >= 0)
						{
							int v = 0;
							if constexpr (NK == 1) v = plain_get(cx.at(k)); else v = plain_get(cx.template at<J>(k));
							if (v != m[i][static_cast<std::size_t>(p)].v) violate("lookup", "plain: after %s at<%d>(%d) is %d", what, J, id, v);
						}
				});
			}
		}
		Model contents(int i, const char *what)
		{
			Model r;
			const C &cx = *x[i];
			const std::size_t n = cx.size();
			for (auto it = cx.begin(); !(it == cx.end()); ++it)
			{
				if (r.size() >= n) violate("iter", "plain: after %s iteration does not end after %zu elements", what, n);
				r.push_back(at(it));
			}
			if (r.size() != n) violate("iter", "plain: after %s iteration yields %zu of %zu elements", what, r.size(), n);
			return r;
		}
		void verify(int i, const char *what)
		{
			const C &cx = *x[i];
			if (cx.size() != m[i].size() || cx.empty() != m[i].empty()) violate("size", "plain: after %s size()=%zu, expected %zu", what, static_cast<std::size_t>(cx.size()), m[i].size());
			Model r = contents(i, what);
			for (std::size_t p = 0; p < r.size(); ++p)
			{
				const int q = ORD ? static_cast<int>(p) : find_m(m[i], 0, r[p].k[0]);
				if (q < 0 || !m[i][static_cast<std::size_t>(q)].same(r[p])) violate(ORD ? "order" : "content", "plain: after %s element %zu is %s", what, p, show(r[p]).c_str());
				if (STABLE && m[i][static_cast<std::size_t>(q)].addr && m[i][static_cast<std::size_t>(q)].addr != r[p].addr) violate("stability", "plain: after %s %s moved in memory", what, show(r[p]).c_str());
				m[i][static_cast<std::size_t>(q)].addr = r[p].addr;
				for (std::size_t z = 0; z < p; ++z) for (int J = 0; J < NK; ++J) if (r[z].k[J] == r[p].k[J]) violate("content", "plain: after %s key %d of %s occurs twice", what, J, show(r[p]).c_str());
			}
			if constexpr (ORD)
			{
				auto it = cx.end();
				for (std::size_t p = r.size(); p; --p) if (it == cx.begin() || !at(--it).same(r[p - 1])) violate("order", "plain: after %s backward iteration differs", what);
				if (it != cx.begin()) violate("order", "plain: after %s backward iteration does not end at begin()", what);
			}
			lookups<0>(i, what);
			if constexpr (NK > 1) lookups<1>(i, what);
			if constexpr (NK > 2) lookups<2>(i, what);
		}
		// a bulk operation failed: whatever is there must come from the given elements
		void resync(int i, const Model &a, const Model &b, const char *what)
		{
			Model r = contents(i, what);
			for (auto &e: r)
			{
				bool ok = false;
				for (auto *s: {&a, &b}) for (auto &o: *s) ok = ok || o.same(e);
				if (!ok) violate("atomicity", "plain: %s failed and left %s", what, show(e).c_str());
			}
			m[i] = r;
		}
		static void no_addr(Model &v) { for (auto &e: v) e.addr = nullptr; }
		template<typename R>
		void inserted(int i, const PE &e, bool conf, R &r, const char *what)
		{
			if ((r.second != 0) == conf) violate("result", "plain: %s of %s returns %s", what, show(e).c_str(), conf ? "true" : "false");
			if (r.first == x[i]->end()) violate("result", "plain: %s of %s returns end()", what, show(e).c_str());
			const PE got = at(r.first);
			bool shares = false;
			for (int J = 0; J < NK; ++J) shares = shares || got.k[J] == e.k[J];
			if (conf ? !shares : !got.same(e)) violate("result", "plain: %s of %s returns an iterator to %s", what, show(e).c_str(), show(got).c_str());
			if (!conf) m[i].push_back(e);
		}
		template<typename F>
		void insert(int i, const PE &e, const char *what, F &&f)
		{
			const bool conf = conflict(m[i], e);
			may([&]()
			{
				auto r = f();
				const bool ar = E.armed;
				E.armed = E.plain = false;
				inserted(i, e, conf, r, what);
				E.armed = ar;
				E.plain = true;
			});
		}
		template<typename F>
		void assigned(int i, const PE &e, const char *what, F &&f)
		{
			const int p = find_m(m[i], 0, e.k[0]);
			if (may(f))
			{
				if (p < 0) m[i].push_back(e); else m[i][static_cast<std::size_t>(p)].v = e.v;
			}
			else if (p >= 0 && !find_value(i, e.k[0], m[i][static_cast<std::size_t>(p)].v, e.v)) violate("atomicity", "plain: %s of %s failed and left another value", what, show(e).c_str());
		}
		bool find_value(int i, int id, int a, int b) // a value whose assignment failed may have either value
		{
			for (auto &e: contents(i, "failure"))
				if (e.k[0] == id)
				{
					m[i][static_cast<std::size_t>(find_m(m[i], 0, id))].v = e.v;
					return e.v == a || e.v == b;
				}
			return false;
		}
		template<typename Node>
		void node_ops(int i)
		{
			const int j = 1 - i;
			if (g.chance(25))
			{
				const Model a = m[i], b = m[j];
				in([&]() { if (g.chance(50)) x[j]->merge(*x[i]); else x[j]->merge(std::move(*x[i])); }); // links nodes: needs memory for the table only
				m[i].clear();
				for (auto &e: a) if (find_m(b, 0, e.k[0]) >= 0) m[i].push_back(e); else m[j].push_back(e);
				verify(i, "merge");
				verify(j, "merge");
				return;
			}
			if (m[i].empty()) return;
			const std::size_t p = g.below(m[i].size());
			const PE e = m[i][p];
			auto k = plain_make<Comp<0>>(e.k[0]);
			Node nh = in([&]() { return g.chance(50) ? x[i]->extract(k) : x[i]->extract(x[i]->find(k)); });
			if (nh.empty()) violate("result", "plain: extract of %s yields nothing", show(e).c_str());
			m[i].erase(m[i].begin() + static_cast<long>(p));
			verify(i, "extract");
			if (g.chance(20)) { in([&]() { Node z(std::move(nh)); }); return; }
			const bool conf = find_m(m[j], 0, e.k[0]) >= 0;
			in([&]() { (void)x[j]->insert(std::move(nh)); Node z(std::move(nh)); });
			if (!conf) m[j].push_back(e);
		}
		void step()
		{
			failed = false;
			const int i = static_cast<int>(g.below(2)), j = 1 - i;
			const Model old = m[i], oth = m[j];
			const char *what = "?";
			const PE e = random();
			C &c = *x[i];
			switch (g.below(20))
			{
				case 0: case 1: case 2:
				{
					Item v = item(e);
					what = "insert(T &&)";
					insert(i, e, what, [&]() { return c.insert(std::move(v)); });
					break;
				}
				case 3: case 4:
					if constexpr (COPY)
					{
						const Item v = item(e);
						what = "insert(const T &)";
						insert(i, e, what, [&]() { return c.insert(v); });
					}
					break;
				case 5: case 6:
				{
					what = "emplace";
					if constexpr (NK == 1)
					{
						auto k = piece<0>(e);
						if constexpr (MAP)
						{
							V v = plain_make<V>(e.v);
							insert(i, e, what, [&]() { return c.emplace(std::move(k), std::move(v)); });
						}
						else insert(i, e, what, [&]() { return c.emplace(std::move(k)); });
					}
					else
					{
						auto k = key(e);
						if constexpr (MAP)
						{
							V v = plain_make<V>(e.v);
							insert(i, e, what, [&]() { return c.emplace(std::move(k), std::move(v)); });
						}
						else if constexpr (NK == 2) insert(i, e, what, [&]() { return c.emplace(std::move(std::get<0>(k)), std::move(std::get<1>(k))); });
						else insert(i, e, what, [&]() { return c.emplace(std::move(k)); });
					}
					break;
				}
				case 7: case 8:
					if constexpr (MAP)
					{
						what = "try_emplace";
						V v = plain_make<V>(e.v);
						auto k = key(e);
						insert(i, e, what, [&]() { return c.try_emplace(std::move(k), std::move(v)); });
					}
					break;
				case 9:
					if constexpr (MAP && NK == 1)
					{
						V v = plain_make<V>(e.v);
						auto k = key(e);
						what = "insert_or_assign";
						assigned(i, e, what, [&]() { c.insert_or_assign(std::move(k), std::move(v)); });
					}
					break;
				case 10:
					if constexpr (MAP && NK == 1)
					{
						V v = plain_make<V>(e.v);
						auto k = key(e);
						const int p = find_m(m[i], 0, e.k[0]);
						what = "operator[]";
						if (may([&]() { c[std::move(k)] = std::move(v); }))
						{
							if (p < 0) m[i].push_back(e); else m[i][static_cast<std::size_t>(p)].v = e.v;
						}
						break;
					}
					break;
				case 11: case 12:
				{
					what = "erase(key)";
					auto one = [&](auto J_)
					{
						constexpr int J = decltype(J_)::value;
						const int id = e.k[J], p = find_m(m[i], J, id);
						const auto k = plain_make<Comp<J>>(id);
						in([&]()
						{
							auto it = [&]() { if constexpr (NK == 1) return c.erase(k); else return c.template erase<J>(k); }();
							if (p < 0 && it != c.end()) violate("result", "plain: erase<%d>(%d) of an absent key returns an iterator", J, id);
							if (ORD && p >= 0 && (p + 1 == static_cast<int>(m[i].size()) ? it != c.end() : it == c.end() || !at(it).same(m[i][static_cast<std::size_t>(p) + 1]))) violate("result", "plain: erase<%d>(%d) does not return the next element", J, id);
						});
						if (p >= 0) m[i].erase(m[i].begin() + p);
					};
					const int J = static_cast<int>(g.below(NK));
					if (J == 0) one(std::integral_constant<int, 0>{});
					if constexpr (NK > 1) if (J == 1) one(std::integral_constant<int, 1>{});
					if constexpr (NK > 2) if (J == 2) one(std::integral_constant<int, 2>{});
					break;
				}
				case 13:
					if (!m[i].empty())
					{
						what = "erase(iterator)";
						const std::size_t p = g.below(m[i].size());
						const auto k = plain_make<Comp<0>>(m[i][p].k[0]);
						in([&]() { c.erase(find<0>(std::as_const(c), k)); });
						m[i].erase(m[i].begin() + static_cast<long>(p));
					}
					break;
				case 14:
				{
					if (g.chance(30))
					{
						what = "clear";
						in([&]() { c.clear(); });
						m[i].clear();
						break;
					}
					what = "erase_if";
					const u64 s = g.next();
					const u64 pct = g.below(60);
					auto sel = [=](int id) { return mix64(s ^ static_cast<u64>(id)) % 100 < pct; };
					std::size_t cnt = 0;
					in([&]() { cnt = erase_if(c, [&](const auto &r) { PE z; if constexpr (MAP) read_key(z, r.first); else read_key(z, r); return sel(z.k[0]); }); });
					m[i].erase(std::remove_if(m[i].begin(), m[i].end(), [&](const PE &z) { return sel(z.k[0]); }), m[i].end());
					if (cnt != old.size() - m[i].size()) violate("result", "plain: erase_if returns %zu", cnt);
					break;
				}
				case 15:
				{
					const std::size_t n = g.below(static_cast<u64>(3 * D));
					what = g.chance(50) ? "reserve" : "rehash";
					may([&]() { if (what[2] == 's') c.reserve(n); else c.rehash(n); });
					break;
				}
				case 16:
					if constexpr (COPY)
					{
						if (g.chance(50))
						{
							what = "copy construction";
							std::unique_ptr<C> n;
							if (may([&]() { const bool was = E.plain; E.plain = false; void *raw = ::operator new(sizeof(C)); E.plain = was; try { n.reset(new(raw) C(std::as_const(c))); } catch (...) { ::operator delete(raw); throw; } }))
							{
								x[j] = std::move(n);
								m[j] = m[i];
								no_addr(m[j]);
							}
						}
						else
						{
							what = "copy assignment";
							if (may([&]() { *x[j] = std::as_const(c); }))
							{
								m[j] = m[i];
								no_addr(m[j]);
							}
							else resync(j, oth, old, what);
						}
						verify(j, what);
					}
					break;
				case 17:
				{
					const u64 z = g.below(4);
					what = z == 0 ? "move construction" : z == 1 ? "move assignment" : z == 2 ? "swap" : "friend swap";
					if (z == 0)
					{
						auto n = std::make_unique<C>(in([&]() { return C(std::move(c)); }));
						x[j] = std::move(n);
					}
					else if (z == 1) in([&]() { *x[j] = std::move(c); });
					else if (z == 2) in([&]() { x[j]->swap(c); });
					else in([&]() { using std::swap; swap(*x[j], c); });
					if (z >= 2) std::swap(m[i], m[j]);
					else
					{
						m[j] = m[i];
						m[i].clear();
						in([&]() { c.clear(); });
					}
					verify(j, what);
					break;
				}
				case 18:
					if constexpr (COPY)
					{
						std::vector<Item> src;
						Model list;
						for (u64 n = g.below(8); n; --n) { list.push_back(random()); src.push_back(item(list.back())); }
						Model after = m[i];
						const bool ctor = g.chance(50);
						if (ctor) after.clear();
						for (auto &z: list) if (!conflict(after, z)) after.push_back(z);
						if (ctor)
						{
							what = "range construction";
							std::unique_ptr<C> n;
							if (may([&]() { const bool was = E.plain; E.plain = false; void *raw = ::operator new(sizeof(C)); E.plain = was; try { n.reset(new(raw) C(src.begin(), src.end())); } catch (...) { ::operator delete(raw); throw; } }))
							{
								x[i] = std::move(n);
								m[i] = after;
							}
						}
						else
						{
							what = "range insertion";
							if (may([&]() { c.insert(src.begin(), src.end()); })) m[i] = after;
							else resync(i, old, list, what);
						}
						break;
					}
					break;
				default:
					if (COPY && g.chance(40))
					{
						what = "comparison";
						if constexpr (COPY)
						{
							bool same = m[0].size() == m[1].size();
							for (auto &a: m[0]) { const int p = find_m(m[1], 0, a.k[0]); same = same && p >= 0 && m[1][static_cast<std::size_t>(p)].same(a); }
							in([&]()
							{
								const C &a = *x[0], &b = *x[1];
								if ((a == b) != same || (b == a) != same || (a != b) == same) violate("equality", "plain: == is %s", same ? "false" : "true");
							});
						}
					}
					else if constexpr (STABLE)
					{
						what = "node operation";
						node_ops<typename C::node_type>(i);
						verify(j, what);
					}
					break;
			}
			verify(i, failed ? (std::string(what) + " failed").c_str() : what);
			elog.put(m[0].size() * 64 + m[1].size());
		}
		void run(int len)
		{
			const bool ex = E.exhausted;
			E.exhausted = false;
			x[0] = std::make_unique<C>();
			x[1] = std::make_unique<C>();
			for (; len > 0; --len) step();
			verify(0, "everything");
			verify(1, "everything");
			x[0].reset();
			x[1].reset();
			E.exhausted = ex;
		}
	};
}
namespace std
{
	template<>
	struct hash<sim::MoKey> { std::size_t operator()(const sim::MoKey &k) const { return std::hash<int>{}(k.get()); } };
}
