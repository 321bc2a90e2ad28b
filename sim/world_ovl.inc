// Part of World: the overloads. The same promises hold for every spelling of an operation - element types the container only
// converts from, keys of another type, hints of either iterator type, lists, single-pass ranges, constructor shorthands.
using GK1 = std::conditional_t<TR, KeyRef, int>;
using GK = std::conditional_t<NK == 1, GK1, std::conditional_t<NK == 2, std::tuple<GK1, GK1>, std::tuple<GK1, GK1, GK1>>>;
using GT = std::conditional_t<MAP, std::pair<GK, int>, GK>;
static GK gk(const Elem &e)
{
	if constexpr (NK == 1) return GK1{e.k[0]};
	else if constexpr (NK == 2) return GK(GK1{e.k[0]}, GK1{e.k[1]});
	else return GK(GK1{e.k[0]}, GK1{e.k[1]}, GK1{e.k[2]});
}
static GT gt(const Elem &e) { if constexpr (MAP) return GT(gk(e), e.v); else return gk(e); }
It it_at(int i, int p)
{
	It it = c[i]->begin();
	while (p-- > 0) ++it;
	return it;
}
template<typename X>
struct SinglePass // an input iterator over a vector: every position can be read once, copies share the position
{
	using iterator_category = std::input_iterator_tag;
	using value_type = X;
	using difference_type = std::ptrdiff_t;
	using pointer = const X *;
	using reference = const X &;
	struct Src { const std::vector<X> *v; std::size_t pos; };
	Src *s = nullptr;
	std::size_t at = 0;
	reference operator*() const
	{
		if (s->pos != at) violate("range", "a single-pass range is read at %zu after it was advanced to %zu", at, s->pos);
		return (*s->v)[at];
	}
	pointer operator->() const { return &**this; }
	SinglePass &operator++()
	{
		if (s->pos != at) violate("range", "a single-pass range is advanced from %zu although it is at %zu", at, s->pos);
		at = ++s->pos;
		return *this;
	}
	SinglePass operator++(int) { auto t = *this; ++*this; return t; }
	friend bool operator==(const SinglePass &a, const SinglePass &b) { return a.end() == b.end(); }
	friend bool operator!=(const SinglePass &a, const SinglePass &b) { return !(a == b); }
	bool end() const { return !s || at >= s->v->size(); }
};
template<typename X, typename F>
static void with_list(std::vector<X> &v, F &&f) // f(initializer_list of the first 0..3 elements)
{
	switch (v.size())
	{
		case 0: return f(std::initializer_list<X>{});
		case 1: return f(std::initializer_list<X>{v[0]});
		case 2: return f(std::initializer_list<X>{v[0], v[1]});
		default: return f(std::initializer_list<X>{v[0], v[1], v[2]});
	}
}
template<typename X>
std::vector<X> items_as(const std::vector<Elem> &items)
{
	std::vector<X> r;
	r.reserve(items.size());
	for (auto &e: items)
	{
		if constexpr (std::is_same_v<X, GT>) r.push_back(gt(e));
		else if constexpr (std::is_same_v<X, VT>) r.push_back(mvt(e));
		else r.push_back(mi(e));
	}
	return r;
}

void exec_ovl(const Op &op, int i, int j)
{
	C &x = *c[i];
	MC &mc = m[i];
	const unsigned z = static_cast<unsigned>(op.b & 63) | static_cast<unsigned>(op.s & 0xff) << 6;
	const Elem e = from_op(op);
	++probes[op.code];
	switch (op.code)
	{
		case O_OVI: // insert() of things that only convert to an element, and of the other element type
		{
			GT g = gt(e);
			const unsigned how = z % 9;
			const int hp = how >= 3 && how != 7 ? hint_pos(i, op) : -1;
			if (how < 3) { auto r = as_pair(call([&]() { return as(static_cast<int>(how), g, [&](auto &&w) { return x.insert(std::forward<decltype(w)>(w)); }); })); inserted(i, e, r.first, r.second, -1); }
			else if (how < 6) { CIt hint = hint_at(i, hp); It r = call([&]() { return as(static_cast<int>(how) - 3, g, [&](auto &&w) { return x.insert(hint, std::forward<decltype(w)>(w)); }); }); inserted(i, e, r, -1, hp); }
			else if (how == 6) { It hint = it_at(i, hp); It r = call([&]() { return x.insert(hint, std::as_const(g)); }); inserted(i, e, r, -1, hp); }
			else
			{
				VT v = mvt(e);
				Watch wa(0);
				wa.add(v);
				if (how == 7) { auto r = as_pair(call([&]() { return x.insert(std::as_const(v)); })); inserted(i, e, r.first, r.second, -1); }
				else { It hint = it_at(i, hp); It r = call([&]() { return x.insert(hint, std::as_const(v)); }); inserted(i, e, r, -1, hp); }
			}
			break;
		}
		case O_OVK: case O_OVT: // keyed insertion: function x kind of key x kind of hint x kind of value
			if constexpr (MAP)
			{
				const int f = op.code == O_OVT || NK > 1 ? 2 : static_cast<int>(z % 2);
				const int kc = static_cast<int>(z / 2 % (TR ? 5 : 2)), hc = static_cast<int>(z / 10 % 3), vc = static_cast<int>(z / 30 % 2) * 2;
				const int p = conflicts(mc, e).empty() ? -1 : conflicts(mc, e)[0];
				const int hp = hc ? hint_pos(i, op) : -1;
				// kinds of key: const lvalue, rvalue, and - where another type is accepted - const lvalue, mutable lvalue and rvalue of that
				KT k = mk(e);
				GK g = gk(e);
				Val v = mv(e.v);
				if (f != 2 && kc == 1 && hc == 0) must_ok = p >= 0;
				Watch wa(f == 2 && p >= 0 ? 1 : vc), wk(f == 2 && p >= 0 ? 1 : kc == 1 ? 2 : 0);
				wa.add(v);
				if constexpr (NK == 1) wk.add(k);
				NoCopy nc(vc == 2 && kc >= 1);
				auto keyed = [&](auto &&fn)
				{
					if constexpr (!TR) return kc & 1 ? fn(std::move(k)) : fn(std::as_const(k));
					else switch (kc)
					{
						case 0: return fn(std::as_const(k));
						case 1: return fn(std::move(k));
						case 2: return fn(std::as_const(g));
						case 3: return fn(g);
						default: return fn(std::move(g));
					}
				};
				auto valued = [&](auto &&fn) { return as(vc, v, fn); };
				auto go = [&](auto &&...hint)
				{
					return valued([&](auto &&vv)
					{
						return keyed([&](auto &&kk)
						{
							if constexpr (NK == 1)
							{
								if (f == 0) return x.insert_or_assign(hint..., std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv));
								if (f == 1) return x.emplace_or_replace(hint..., std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv));
							}
							return x.try_emplace(hint..., std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv));
						});
					});
				};
				std::pair<It, int> r{It{}, -1};
				CIt ch = hint_at(i, hc == 1 ? hp : 0);
				It ih = it_at(i, hc == 2 ? hp : 0);
				if (hc == 0) r = as_pair(call([&]() { return go(); }));
				else if (hc == 1) r = as_pair(call([&]() { return go(ch); }));
				else r = as_pair(call([&]() { return go(ih); }));
				if (f == 2) inserted(i, e, r.first, r.second, hp);
				else assigned(i, e, r.first, r.second, hp, p);
			}
			break;
		case O_OVX: // operator[] with the other kinds of key
			if constexpr (MAP && NK == 1 && TR)
			{
				Elem w = e;
				const int p = find_m(mc, 0, e.k[0]);
				must_ok = p >= 0;
				GK g = gk(e);
				Val &r = call([&]() -> Val & { return as(static_cast<int>(z % 3), g, [&](auto &&kk) -> Val & { return x[std::forward<decltype(kk)>(kk)]; }); });
				Calm q;
				if (r.get() != (p >= 0 ? mc.v[p].v : 0)) violate("result", "operator[] yields %d, expected %d", r.get(), p >= 0 ? mc.v[p].v : 0);
				r.set(op.v);
				if (p >= 0) { mc.v[p].v = op.v; break; }
				w.v = op.v;
				It it = x.find(key(w.k[0]));
				if (it == x.end()) violate("result", "operator[] did not insert the key");
				inserted(i, w, it, -1, -1);
			}
			break;
		case O_OVR: exec_read(op, i, z); break;
		case O_OVL: // lists, ranges of convertible elements, single-pass ranges
		{
			const unsigned how = z % 6;
			const int cnt = how < 2 ? static_cast<int>(op.v % 4) : op.v % 9 + (z / 6 % 8 == 7 ? 14 : 0);
			std::vector<Elem> items = item_list(op, cnt), old = mc.v;
			on_fail = [&, i, items, old]() { fail_subset(i, old, items, "insertion of a list", true); };
			bound_n = std::max(bound_n, old.size() + items.size());
			if (how == 0) { auto v = items_as<VT>(items); with_list(v, [&](std::initializer_list<VT> l) { call([&]() { x.insert(l); }); }); }
			else if (how == 1) { auto v = items_as<GT>(items); with_list(v, [&](std::initializer_list<GT> l) { call([&]() { x.insert(l); }); }); }
			else if (how == 2) { auto v = items_as<GT>(items); call([&]() { x.insert(v.begin(), v.end()); }); }
			else if (how == 3)
			{
				auto v = items_as<GT>(items);
				typename SinglePass<GT>::Src src{&v, 0};
				call([&]() { x.insert(SinglePass<GT>{&src, 0}, SinglePass<GT>{}); });
			}
			else if (how == 4)
			{
				auto v = items_as<IT>(items);
				Watch wa(0);
				for (auto &w: v) wa.add(w);
				typename SinglePass<IT>::Src src{&v, 0};
				call([&]() { x.insert(SinglePass<IT>{&src, 0}, SinglePass<IT>{}); });
			}
			else
			{
				auto v = items_as<IT>(items);
				NoCopy nc(true);
				call([&]() { x.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); });
			}
			if constexpr (STABLE) keep_addr(i, old, "insertion of a list");
			set_model(i, after_inserts(old, items));
			break;
		}
		case O_OVA: // assignment of a list of convertible elements
			if constexpr (!MAP)
			{
				std::vector<Elem> items = item_list(op, op.v % 4), old = mc.v;
				on_fail = [&, i, items, old]() { fail_subset(i, old, items, "assignment of a list", false); };
				auto v = items_as<GT>(items);
				with_list(v, [&](std::initializer_list<GT> l) { call([&]() { x = l; }); });
				set_model(i, after_inserts({}, items));
			}
			break;
		case O_OVC: construct_ovl(op, i, z); break;
		case O_MERGEX: if constexpr (STABLE) merge_other(op, i, z); break;
		default: break;
	}
	(void) j;
}
void exec_read(const Op &op, int i, unsigned z)
{
	C &x = *c[i];
	const C &cx = x;
	MC &mc = m[i];
	must_ok = true;
	const int id = op.k % D;
	const std::size_t n_ = mc.v.size();
	{ // quantities
		const std::size_t bc = cx.bucket_count();
		if (cx.capacity() < n_ && !lowered) violate("quantity", "container %d: capacity() is %zu with %zu elements", i, static_cast<std::size_t>(cx.capacity()), n_);
		if (cx.max_size() < cx.capacity() || cx.max_size() < n_) violate("quantity", "container %d: max_size() is %zu, capacity() is %zu", i, static_cast<std::size_t>(cx.max_size()), static_cast<std::size_t>(cx.capacity()));
		if (cx.max_bucket_count() < bc) violate("quantity", "container %d: max_bucket_count() is %zu with %zu buckets", i, static_cast<std::size_t>(cx.max_bucket_count()), bc);
		if (bc)
		{
			const float lf = cx.load_factor(), want = static_cast<float>(n_) / static_cast<float>(bc);
			if (!(lf - want < 1e-4f && want - lf < 1e-4f)) violate("quantity", "container %d: load_factor() is %f with %zu elements in %zu buckets", i, static_cast<double>(lf), n_, bc);
		}
		Key a = key(id), b = key((id + 1) % D);
		if (!cx.key_eq()(a, a) || (D > 1 && cx.key_eq()(a, b))) violate("functor", "container %d: key_eq() is not the comparator", i);
		if (cx.hash_function()(a) != hash_id(id, mc.salt)) violate("functor", "container %d: hash_function() is not the hasher", i);
	}
	with_j(static_cast<int>(z), [&](auto J)
	{
		constexpr int jj = decltype(J)::value;
		const int p = find_m(mc, jj, id);
		Key k = key(id);
		auto ask = [&](auto &y, const auto &kk, const char *what)
		{
			auto it = call([&]() { if constexpr (NK == 1) return y.find(kk); else return y.template find<jj>(kk); });
			if ((it == y.end()) != (p < 0)) violate("lookup", "find(%d) is wrong (%s)", id, what);
			if (p >= 0 && !elem(it).same(mc.v[p])) violate("lookup", "find(%d) yields %s (%s)", id, show(elem(it)).c_str(), what);
			if (call([&]() { if constexpr (NK == 1) return y.contains(kk); else return y.template contains<jj>(kk); }) != (p >= 0)) violate("lookup", "contains(%d) is wrong (%s)", id, what);
			if constexpr (MAP)
			{
				int got = -1;
				try
				{
					auto &r = call([&]() -> auto & { if constexpr (NK == 1) return y.at(kk); else return y.template at<jj>(kk); });
					if (p < 0) violate("result", "at(%d) did not throw (%s)", id, what);
					got = r.get();
					if (got != mc.v[p].v) violate("result", "at(%d) yields %d, expected %d (%s)", id, got, mc.v[p].v, what);
					if constexpr (!std::is_const_v<std::remove_reference_t<decltype(r)>>)
						if (z & 256)
						{
							r.set(op.v);
							mc.v[p].v = op.v;
						}
				}
				catch (const std::out_of_range &) { if (p >= 0) violate("result", "at(%d) threw out_of_range (%s)", id, what); }
			}
			if constexpr (DENSE)
			{
				if (n_ || cx.bucket_count())
				{
					const std::size_t b = call([&]() -> std::size_t { if constexpr (NK == 1) return y.bucket(kk); else return y.template bucket<jj>(kk); });
					if (b >= cx.bucket_count()) violate("bucket", "bucket(%d) is %zu of %zu (%s)", id, b, static_cast<std::size_t>(cx.bucket_count()), what);
					if constexpr (NK == 1)
					if (p >= 0)
					{
						std::size_t found = 0, steps = 0;
						for (auto it2 = y.begin(b); it2 != y.end(b); ++it2)
						{
							if (++steps > n_) violate("bucket", "bucket %zu does not end (%s)", b, what);
							auto &&r2 = *it2;
							found += kid<jj>(r2) == id;
						}
						for (auto it2 = y.cbegin(b); it2 != y.cend(b); it2++)
						{
							auto &&r2 = *it2;
							found += kid<jj>(r2) == id;
							if (kid<0>(r2) != kid<0>(*it2.operator->())) violate("bucket", "bucket %zu: operator-> and operator* differ (%s)", b, what);
						}
						if (found != 2) violate("bucket", "bucket(%d) = %zu does not hold the element once (%s)", id, b, what);
					}
				}
			}
		};
		if (z & 64) { if constexpr (TR) { KeyRef g{id}; if (z & 128) ask(x, g, "other key type, mutable"); else ask(cx, g, "other key type, const"); } else { if (z & 128) ask(x, k, "mutable"); else ask(cx, k, "const"); } }
		else if (z & 128) ask(x, k, "mutable");
		else ask(cx, k, "const");
	});
	if constexpr (ORD)
		if (n_)
		{
			auto &&f = x.front();
			auto &&b = x.back();
			if (!elem_of(f).same(mc.v.front()) || !elem_of(b).same(mc.v.back())) violate("order", "container %d: mutable front()/back() wrong", i);
		}
	// iterators: every spelling of begin/end, conversion, post-increment and -> agree
	{
		Calm q;
		if (x.cbegin() != cx.begin() || x.cend() != cx.end()) violate("iter", "container %d: cbegin()/cend() differ from begin()/end()", i);
		CIt conv = x.begin();
		if (conv != cx.begin()) violate("iter", "container %d: an iterator changes its position when converted", i);
		if constexpr (DENSE)
		{
			if (x.crbegin() != cx.rbegin() || x.crend() != cx.rend()) violate("iter", "container %d: crbegin()/crend() differ from rbegin()/rend()", i);
		}
		if (n_)
		{
			const std::size_t at = static_cast<std::size_t>(op.s >> 8) % n_;
			It it = it_at(i, static_cast<int>(at)), pre = it;
			It post = it++;
			if (post != pre || it == pre) violate("iter", "container %d: post-increment is wrong", i);
			++pre;
			if (pre != it) violate("iter", "container %d: post-increment and pre-increment reach different elements", i);
			if (kid<0>(*post.operator->()) != kid<0>(*post)) violate("iter", "container %d: operator-> and operator* differ", i);
			if constexpr (ORD || DENSE)
			{
				CIt d = it, d0 = d--;
				if (d0 != CIt(it) || d != CIt(post)) violate("iter", "container %d: post-decrement is wrong", i);
			}
			if constexpr (MAP)
			{
				// the reference is a proxy in some containers: it must denote the element, not a copy of it
				auto &&r = *post;
				auto &[rk, rv] = r;
				const int was = rv.get();
				if (&rv != &r.second || &rk != &r.first) violate("iter", "container %d: a structured binding denotes a copy", i);
				rv.set(was + 7);
				Key k = key(kid<0>(r));
				auto again = c_find<0>(cx, k);
				if (val(*again) != was + 7) violate("iter", "container %d: writing through the reference does not change the element", i);
				rv.set(was);
				CIt cp = post;
				auto &&cr = *cp;
				if (&cr.second != &r.second) violate("iter", "container %d: const and mutable references denote different elements", i);
				if (!(cr == r) || cr != r) violate("iter", "container %d: an element does not equal itself", i);
				proxy_order(r, i);
			}
		}
	}
	elog.put_api(find_m(mc, 0, id) >= 0);
}
template<typename R>
void proxy_order(const R &r, int i) // the references order like pairs do
{
	if constexpr (!STABLE && NK == 1)
	{
		auto it = c[i]->begin();
		auto &&o = *it;
		const auto a = std::make_pair(kid<0>(r), val(r)), b = std::make_pair(kid<0>(o), val(o));
		if ((r < o) != (a < b) || (r > o) != (a > b) || (r <= o) != (a <= b) || (r >= o) != (a >= b) || (r == o) != (a == b) || (r != o) != (a != b))
			violate("equality", "container %d: comparing {%d:%d} with {%d:%d} gives < %d > %d <= %d >= %d", i, a.first, a.second, b.first, b.second, r < o, r > o, r <= o, r >= o);
	}
}
// constructors: buckets, lists or a range, followed by any of the accepted tails
void construct_ovl(const Op &op, int i, unsigned z)
{
	const int salt = tr.salts ? (op.s >> 8 & 3) : 0, res = static_cast<int>(static_cast<unsigned>(op.v) % static_cast<unsigned>(nres()));
	const int src = static_cast<int>(z % 5), tail = static_cast<int>(z / 5 % 7);
	{
		Calm q;
		destroy_slot(i);
		m[i] = MC{};
		check_live();
	}
	on_fail = [this, i]()
	{
		object_slot_free(i, sizeof(C));
		fresh_slot(i, 0);
	};
	const int cnt = src == 0 ? 0 : src < 3 ? op.v % 4 : op.v % 9;
	const std::size_t n_ = static_cast<std::size_t>((op.k < 0 ? 0 : op.k) % 40);
	auto items = item_list(op, cnt);
	bound_n = std::max(bound_n, n_ + items.size());
	MC nm;
	bool counted = true;
	auto build = [&](auto &&...from)
	{
		switch (tail)
		{
			case 0: nm.salt = H(salt).salt; nm.eq = Eqv(eq_state(op)).tag(); nm.res = res; call([&]() { construct_slot(i, from..., n_, H(salt), Eqv(eq_state(op)), A(res)); }); break;
			case 1: nm.salt = H(salt).salt; nm.res = res; call([&]() { construct_slot(i, from..., n_, H(salt), A(res)); }); break;
			case 2: nm.res = res; call([&]() { construct_slot(i, from..., n_, A(res)); }); break;
			case 3: nm.salt = H(salt).salt; nm.eq = Eqv(eq_state(op)).tag(); call([&]() { construct_slot(i, from..., n_, H(salt), Eqv(eq_state(op))); }); break;
			case 4: nm.salt = H(salt).salt; call([&]() { construct_slot(i, from..., n_, H(salt)); }); break;
			case 5: call([&]() { construct_slot(i, from..., n_); }); break;
			default:
				if constexpr (sizeof...(from) != 0) { counted = false; call([&]() { construct_slot(i, from...); }); }
				else call([&]() { construct_slot(i, n_); });
				break;
		}
	};
	if (src == 0) build();
	else if (src == 1) { auto v = items_as<VT>(items); with_list(v, [&](std::initializer_list<VT> l) { build(l); }); }
	else if (src == 2)
	{
		if constexpr (std::is_constructible_v<C, std::initializer_list<GT>>) { auto v = items_as<GT>(items); with_list(v, [&](std::initializer_list<GT> l) { build(l); }); }
		else { auto v = items_as<VT>(items); build(v.begin(), v.end()); }
	}
	else if (src == 3) { auto v = items_as<GT>(items); build(v.begin(), v.end()); }
	else
	{
		auto v = items_as<GT>(items);
		typename SinglePass<GT>::Src s{&v, 0};
		build(SinglePass<GT>{&s, 0}, SinglePass<GT>{});
	}
	nm.mlf = c[i]->max_load_factor();
	nm.v = after_inserts({}, items);
	m[i] = nm;
	if (counted && c[i]->bucket_count() < n_) violate("result", "construction with %zu buckets left %zu", n_, static_cast<std::size_t>(c[i]->bucket_count()));
	adopt_addr(i);
}
// merging from a container with another hash function and comparator
struct OtherEq
{
	bool operator()(const Key &a, const Key &b) const { int x = a.get(), y = b.get(); fault_point(F_EQ); return x == y; }
};
struct OtherHash
{
	std::size_t operator()(const Key &k) const { int id = k.get(); fault_point(F_HASH); return hash_id(id ^ 0x55, 77); }
};
template<typename X> struct other_of;
template<template<typename, typename, typename, typename> class S, typename K, typename H_, typename E_, typename A_>
struct other_of<S<K, H_, E_, A_>> { using type = S<K, OtherHash, OtherEq, A_>; };
template<template<typename, typename, typename, typename, typename> class S, typename K, typename V_, typename H_, typename E_, typename A_>
struct other_of<S<K, V_, H_, E_, A_>> { using type = S<K, V_, OtherHash, OtherEq, A_>; };

void merge_other(const Op &op, int i, unsigned z)
{
	if constexpr (STABLE)
	{
		using O = typename other_of<C>::type;
		C &x = *c[i];
		MC &mc = m[i];
		const std::vector<Elem> a = mc.v, list = after_inserts({}, item_list(op, op.v % 12));
		std::vector<Elem> ra = a, rb, b = list;
		auto y_p = [&]() { Calm q; return std::make_unique<O>(0, OtherHash{}, OtherEq{}, A(mc.res)); }();
		O &y = *y_p;
		{
			Calm q;
			for (auto &e: list) { IT v = mi(e); y.insert(std::move(v)); }
			for (auto &e: b)
			{
				Key k = key(e.k[0]);
				auto it = y.find(k);
				if (it == y.end()) violate("lookup", "a container with another hash function misses %s", show(e).c_str());
				e.addr = &*it;
			}
		}
		for (auto &e: b) if (find_m(mc, 0, e.k[0]) < 0) ra.push_back(e); else rb.push_back(e);
		bound_n = std::max(bound_n, a.size() + b.size());
		auto check_rest = [&](bool exact)
		{
			std::vector<Elem> rest;
			for (auto it = y.begin(); it != y.end(); ++it) rest.push_back(elem(it));
			if (rest.size() != y.size()) violate("size", "merge: size() of the source is %zu, iteration yields %zu", static_cast<std::size_t>(y.size()), rest.size());
			if (exact && rest.size() != rb.size()) violate("conservation", "merge left %zu elements in the source, expected %zu", rest.size(), rb.size());
			for (auto &e: b)
			{
				int in = find_addr(i, e) >= 0;
				for (auto &r: rest) in += r.same(e) && r.addr == e.addr;
				if (in != 1) violate("conservation", "merge: %s is in %d containers", show(e).c_str(), in);
			}
			if (ORD && !subsequence(rest, b)) violate("order", "merge changed the order of its source");
			for (auto &e: rest)
			{
				Key k = key(e.k[0]);
				if (!y.contains(k)) violate("lookup", "merge: the source no longer finds %s", show(e).c_str());
			}
		};
		on_fail = [&, i, a, b, ra]()
		{
			resync(i, {&a, &b}, "failed merge");
			for (auto &e: a) if (find_addr(i, e) < 0) violate("conservation", "failed merge lost %s of the target", show(e).c_str());
		};
		try
		{
			call([&]() { if (z & 1) x.merge(y); else x.merge(std::move(y)); });
		}
		catch (...)
		{
			Calm q;
			on_fail();
			check_rest(false);
			y_p.reset();
			on_fail = []() {};
			throw;
		}
		Calm q;
		mc.v = ra;
		mc.guar_n = 0;
		check_rest(true);
	}
}
