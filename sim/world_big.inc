// Part of World: one container with up to a quarter of a million elements and a model that is fast enough for it. Behaviour
// that depends on size (thresholds, narrow counters, probe lengths, growth) is out of reach of the small worlds.
struct Big
{
	int n;                          // ids 0 .. n - 1, of which component J of the key of z is key_of(z, J)
	std::vector<int> val;           // mapped value + 1, 0 if absent
	std::vector<const void *> addr; // of stable containers
	std::vector<int> order;         // insertion order, with stale entries
	std::vector<int> at;            // position of z in order
	std::size_t size = 0, peak = 8;
	// Steps (instrumented edges) spent in lookups that hit, lookups that miss, insertions and erasures. Insertions are amortised over
	// everything that may leave growth to a later insertion.
	mutable u64 steps[4] = {0, 0, 0, 0}, count[4] = {0, 0, 0, 0};
	template<typename F>
	decltype(auto) timed(int kind, F &&f) const
	{
		struct G { u64 &x, s0; ~G() { x += E.steps - s0; } } guard{steps[kind], E.steps};
		++count[kind];
		E.step_budget = E.steps + 400000000ull;
		return f();
	}
	explicit Big(int n_) : n(n_), val(static_cast<std::size_t>(n_)), addr(val.size()), at(val.size(), -1) {}
	void add(int z, int v, const void *a)
	{
		val[static_cast<std::size_t>(z)] = v + 1;
		addr[static_cast<std::size_t>(z)] = a;
		at[static_cast<std::size_t>(z)] = static_cast<int>(order.size());
		order.push_back(z);
		peak = std::max(peak, ++size);
	}
	void drop(int z)
	{
		val[static_cast<std::size_t>(z)] = 0;
		at[static_cast<std::size_t>(z)] = -1;
		--size;
	}
	int next(std::size_t &p) const // next live element in insertion order, or -1
	{
		for (; p < order.size(); ++p) if (int z = order[p]; at[static_cast<std::size_t>(z)] == static_cast<int>(p)) return ++p, z;
		return -1;
	}
};
static constexpr u32 big_mask = (1u << 18) - 1, big_mul[3] = {1, 0x9e3d, 0x1f35};
static int big_key(int z, int J) { return static_cast<int>((static_cast<u32>(z) * big_mul[J]) & big_mask); }
static Elem big_elem(int z, int v)
{
	Elem e;
	for (int J = 0; J < NK; ++J) e.k[J] = big_key(z, J);
	if constexpr (MAP) e.v = v;
	return e;
}
// C19: with a hash function that distributes well, the average number of steps is bounded by a constant.
void big_cost(const Big &b)
{
#ifdef __OPTIMIZE__ // several times what the builds of this simulator need; functions that are not inlined count more
	static const double limit[4] = {160, 160, 600, 300};
#else
	static const double limit[4] = {1200, 1200, 5000, 2400};
#endif
	static const char *const what[4] = {"lookup of a present key", "lookup of an absent key", "insertion", "erasure"};
	for (int x = 0; x < 4; ++x)
	{
		if (b.count[x] < 200) continue;
		const double avg = static_cast<double>(b.steps[x]) / static_cast<double>(b.count[x]);
		cost_max[x] = std::max(cost_max[x], avg);
		if (E.hash_mode == 0 && avg > limit[x]) violate("cost", "%s takes %.0f steps on average (%llu calls, %zu elements)", what[x], avg, static_cast<unsigned long long>(b.count[x]), b.size);
		if (x != 2) b.steps[x] = b.count[x] = 0;
	}
}
void big_check(const char *what, const C &x, const Big &b, bool addrs)
{
	Calm q;
	if (x.size() != b.size || x.empty() != (b.size == 0)) violate("size", "%s: size()=%zu, expected %zu", what, static_cast<std::size_t>(x.size()), b.size);
	std::vector<bool> seen(static_cast<std::size_t>(b.n));
	std::size_t cnt = 0, p = 0;
	for (auto it = x.begin(); !(it == x.end()); ++it, ++cnt)
	{
		if (cnt >= b.size) violate("iter", "%s: iteration does not end after %zu elements", what, b.size);
		const Elem e = elem(it);
		const int z = e.k[0];
		if (z < 0 || z >= b.n || !b.val[static_cast<std::size_t>(z)]) violate("content", "%s: holds %s which it should not", what, show(e).c_str());
		if (seen[static_cast<std::size_t>(z)]) violate("iter", "%s: %s visited twice", what, show(e).c_str());
		seen[static_cast<std::size_t>(z)] = true;
		const Elem w = big_elem(z, b.val[static_cast<std::size_t>(z)] - 1);
		if (!w.same(e)) violate("content", "%s: holds %s, expected %s", what, show(e).c_str(), show(w).c_str());
		if (STABLE && addrs && e.addr != b.addr[static_cast<std::size_t>(z)]) violate("stability", "%s: %s moved in memory", what, show(e).c_str());
		if constexpr (ORD) if (b.next(p) != z) violate("order", "%s: %s is out of order at %zu", what, show(e).c_str(), cnt);
	}
	if (cnt != b.size) violate("iter", "%s: iteration yields %zu of %zu elements", what, cnt, b.size);
	for (int z = 0; z < b.n; ++z)
	{
		auto one = [&](auto J)
		{
			Key k = key(big_key(z, J));
			const bool have = b.val[static_cast<std::size_t>(z)] != 0;
			auto it = b.timed(have ? 0 : 1, [&]() { return c_find<J>(x, k); });
			if ((it != x.end()) != have || b.timed(have ? 0 : 1, [&]() { return c_contains<J>(x, k); }) != have) violate("lookup", "%s: find<%d>(%d) of %zu elements %s", what, int(J), k.id, b.size, have ? "misses the element" : "finds something");
			if (have && elem(it).k[0] != z) violate("lookup", "%s: find<%d>(%d) finds another element", what, int(J), k.id);
		};
		one(std::integral_constant<int, 0>{});
		if constexpr (NK > 1) one(std::integral_constant<int, 1>{});
		if constexpr (NK > 2) one(std::integral_constant<int, 2>{});
		if (z % 4096 == 4095) big_cost(b);
	}
	const double lim = 16.0 * static_cast<double>(b.peak) / 0.875;
	if (static_cast<double>(x.bucket_count()) > lim) violate("growth", "%s: %zu buckets although never more than %zu elements were stored or requested", what, static_cast<std::size_t>(x.bucket_count()), b.peak);
}
void b_erase(C &x, Big &b, const Key &k)
{
	// The iterator returned is the next element of a table that may be nearly empty: finding it takes longer then.
	const bool dense_enough = x.size() * 16 >= x.bucket_count();
	const u64 s0 = E.steps;
	E.step_budget = s0 + 400000000ull;
	if constexpr (NK == 1) x.erase(k); else x.template erase<0>(k);
	if (dense_enough) { b.steps[3] += E.steps - s0; ++b.count[3]; }
	if (++b.count[2] % 4096 == 0) big_cost(b);
}
struct BigDelete
{
	int slot = 0;
	void operator()(C *x) const { x->~C(); object_slot_free(slot, sizeof(C)); }
};
using BigPtr = std::unique_ptr<C, BigDelete>;
template<typename... Args>
BigPtr big_make(int &slot, Args &&...args) // at most two alive at a time
{
	slot = 8 + (slot + 1) % 4;
	return BigPtr(new(object_slot(slot, sizeof(C))) C(std::forward<Args>(args)...), BigDelete{slot});
}
void giant(const Op &op)
{
	int slot = 0;
	const int n_ = 1 + (op.v < 0 ? 0 : op.v) % 250000;
	on_fail = []() {};
	struct Mark { Mark() { E.big = true; } ~Mark() { E.big = false; } } mark;
	heap.mode = heap.mode >= 3 ? 4 : 1; // reuse memory, or the arena runs out
	Rng g(static_cast<u64>(op.s) * 77 + static_cast<u64>(op.k));
	Big b(n_);
	std::size_t tokens = live.count;
	{
		BigPtr own;
		{
			Calm q;
			own = big_make(slot, A(m[0].res));
		}
		// a failing allocation or user function: strikes once, somewhere
		auto arm = [&]() { if (op.fk) { E.mask = op.fk; E.n = op.fn; E.armed = true; } };
		auto disarm = [&]() { E.armed = false; };
		arm();
		auto fill = [&](int from, int to)
		{
			C &x = *own;
			for (int z = from; z < to; ++z)
			{
				if (b.val[static_cast<std::size_t>(z)]) continue;
				const int v = static_cast<int>(g.next() & 0xffff);
				const bool was = E.armed;
				E.armed = false;
				IT item = mi(big_elem(z, v));
				E.armed = was;
				try
				{
					auto r = as_pair(b.timed(2, [&]() { return x.insert(std::as_const(item)); }));
					Calm q;
					if (r.second == 0 || r.first == x.end()) violate("result", "insertion of new element %d fails at size %zu", z, b.size);
					const Elem got = elem(r.first);
					if (got.k[0] != z) violate("result", "insertion of %d returns an iterator to %d at size %zu", z, got.k[0], b.size);
					b.add(z, MAP ? v : 0, got.addr);
					if (b.count[2] % 4096 == 0) big_cost(b);
				}
				catch (const SimFault &) { disarm(); }
				catch (const SimBadAlloc &) { disarm(); }
				if (x.size() != b.size) violate("size", "size()=%zu after insertion %zu", static_cast<std::size_t>(x.size()), b.size);
			}
		};
		auto safely = [&](auto &&f) // a bulk operation that may fail without effect
		{
			try { f(); return true; }
			catch (const SimFault &) { disarm(); }
			catch (const SimBadAlloc &) { disarm(); }
			return false;
		};
		fill(0, n_ / 2 + 1);
		const int phases = 3 + static_cast<int>(g.below(5));
		for (int ph = 0; ph < phases; ++ph)
		{
			C &x = *own;
			E.step_budget = E.steps + 8000000000ull;
			switch (g.below(11))
			{
				case 0: fill(0, n_); break;
				case 1: // erase by key
				{
					const unsigned pct = static_cast<unsigned>(g.below(101));
					for (int z = 0; z < n_; ++z)
					{
						if (!g.chance(pct)) continue;
						const bool had = b.val[static_cast<std::size_t>(z)] != 0;
						Calm q;
						Key k = key(big_key(z, 0));
						b_erase(x, b, k);
						if (had) b.drop(z);
						if (x.size() != b.size) violate("size", "size()=%zu after erasing %d, expected %zu", static_cast<std::size_t>(x.size()), z, b.size);
					}
					break;
				}
				case 2: // erase_if
				{
					Calm q;
					const unsigned pct = static_cast<unsigned>(g.below(101));
					const u64 s = g.next();
					auto sel = [=](int z) { return mix64(s ^ static_cast<u64>(z)) % 100 < pct; };
					const std::size_t before = b.size, cnt = erase_if(x, [&](const auto &r) { return sel(kid<0>(r)); });
					for (int z = 0; z < n_; ++z) if (b.val[static_cast<std::size_t>(z)] && sel(z)) b.drop(z);
					if (cnt != before - b.size) violate("result", "erase_if returned %zu, %zu elements were selected", cnt, before - b.size);
					break;
				}
				case 3: // erase while iterating
				{
					Calm q;
					const unsigned pct = static_cast<unsigned>(g.below(101));
					const u64 s = g.next(); // the choice must not depend on the order, which is the implementation's
					std::size_t visits = 0;
					const std::size_t before = b.size;
					for (auto it = x.begin(); !(it == x.end()); ++visits)
					{
						if (visits > before) violate("visit", "erasing while iterating visits more than %zu elements", before);
						const int z = elem(it).k[0];
						if (z < 0 || z >= n_ || !b.val[static_cast<std::size_t>(z)]) violate("content", "erasing while iterating meets %d", z);
						if (mix64(s ^ static_cast<u64>(z)) % 100 < pct) { it = x.erase(it); b.drop(z); }
						else ++it;
					}
					if (visits != before) violate("visit", "erasing while iterating visits %zu of %zu elements", visits, before);
					break;
				}
				case 4: // copy, and go on with the copy
				{
					b.count[2] += b.size;
					BigPtr cp;
					if (!safely([&]() { cp = big_make(slot, std::as_const(x)); })) break;
					{
						Calm q;
						big_check("source of a copy", x, b, true);
						big_check("copy", *cp, b, false);
						if (b.size <= 1500) if (!(*cp == x) || *cp != x) violate("equality", "a copy of %zu elements is not equal to its source", b.size);
						if (STABLE) for (auto it = cp->begin(); !(it == cp->end()); ++it) b.addr[static_cast<std::size_t>(elem(it).k[0])] = elem(it).addr;
						own = std::move(cp);
					}
					break;
				}
				case 5: // copy assignment over other contents
				{
					b.count[2] += b.size;
					BigPtr cp;
					{
						Calm q;
						cp = big_make(slot, A(m[0].res));
						for (int z = n_ - 1, e = n_ - 1 - static_cast<int>(g.below(static_cast<u64>(n_))); z > e; --z) { IT item = mi(big_elem(z, 1)); cp->insert(std::move(item)); }
					}
					if (!safely([&]() { *cp = std::as_const(x); })) break;
					Calm q;
					big_check("copy-assigned container", *cp, b, false);
					if (STABLE) for (auto it = cp->begin(); !(it == cp->end()); ++it) b.addr[static_cast<std::size_t>(elem(it).k[0])] = elem(it).addr;
					own = std::move(cp);
					break;
				}
				case 6: // move or swap
				{
					Calm q;
					BigPtr mv_;
					switch (g.below(3))
					{
						case 0: mv_ = big_make(slot, std::move(x)); break;
						case 1: mv_ = big_make(slot, A(m[0].res)); *mv_ = std::move(x); break;
						default: mv_ = big_make(slot, A(m[0].res)); mv_->swap(x); break;
					}
					own = std::move(mv_);
					break;
				}
				case 7: // reserve: no growth until n elements are reached
				{
					b.count[2] += b.size;
					const std::size_t want = b.size + static_cast<std::size_t>(g.below(static_cast<u64>(n_)));
					b.peak = std::max(b.peak, want);
					if (!safely([&]() { x.reserve(want); })) break;
					const std::size_t bc = x.bucket_count();
					for (int z = 0; z < n_ && b.size < want; ++z) if (!b.val[static_cast<std::size_t>(z)]) fill(z, z + 1);
					if (b.size <= want && x.bucket_count() != bc) violate("reserve", "grew from %zu to %zu buckets at %zu elements although reserve(%zu) was called", bc, static_cast<std::size_t>(x.bucket_count()), b.size, want);
					break;
				}
				case 8:
					b.count[2] += b.size;
					safely([&]() { x.rehash(0); });
					break;
				case 9: // the same elements again change nothing
				{
					Calm q;
					for (int z = 0; z < n_; z += 1 + static_cast<int>(g.below(9)))
						if (b.val[static_cast<std::size_t>(z)])
						{
							IT item = mi(big_elem(z, 77));
							auto r = as_pair(x.insert(std::move(item)));
							if (r.second == 1 || r.first == x.end() || elem(r.first).k[0] != z) violate("result", "insertion of %d is not rejected although it is present", z);
						}
					break;
				}
				default:
					if (g.chance(30))
					{
						x.clear();
						for (int z = 0; z < n_; ++z) if (b.val[static_cast<std::size_t>(z)]) b.drop(z);
					}
					else // rolling churn: the size stays, the memory must too
					{
						for (int z = 0; z < n_; ++z)
							if (b.val[static_cast<std::size_t>(z)])
							{
								{
									Calm q;
									Key k = key(big_key(z, 0));
									b_erase(x, b, k);
									b.drop(z);
								}
								const int y = static_cast<int>(g.below(static_cast<u64>(n_)));
								fill(y, y + 1);
							}
					}
			}
			char what[64];
			std::snprintf(what, sizeof what, "large container, phase %d", ph);
			big_check(what, *own, b, true);
			big_cost(b);
			elog.put_api(b.size);
		}
		disarm();
		Calm q;
		own.reset();
	}
	if (live.count != tokens) violate("leak", "%zu tracked objects alive after a large container is gone, expected %zu", live.count, tokens);
}
