// Part of World: the operations. Every handler calls the real container once (under the fault plan), compares the
// results with the model and then updates the model; nothing in the model changes if the call throws.
template<typename R>
static std::pair<It, int> as_pair(R &&r)
{
	if constexpr (std::is_same_v<std::decay_t<R>, It>) return {r, -1};
	else return {r.first, r.second ? 1 : 0};
}
static int eq_state(const Op &op) { return op.s >> 10 & 3; }
static bool mods(const Op &op) { return (op.b & 1) != 0; }

// An element handed over as an rvalue is moved: no copy of a key or value is made on its behalf.
struct NoCopy
{
	u64 k = E.points[kind_index(F_KCOPY)], v = E.points[kind_index(F_MCOPY)];
	bool on;
	explicit NoCopy(bool on_) : on(on_) {}
	~NoCopy()
	{
		if (on && (E.points[kind_index(F_KCOPY)] != k || E.points[kind_index(F_MCOPY)] != v))
			violate("moves", "keys or values were copied that should have been moved or left alone (%llu key copies, %llu value copies)", static_cast<unsigned long long>(E.points[kind_index(F_KCOPY)] - k), static_cast<unsigned long long>(E.points[kind_index(F_MCOPY)] - v));
	}
};
// Operations that have no reason to copy a key or a value: arguments are rvalues, or elements only move between places.
bool copies_nothing(const Op &op) const
{
	switch (op.code)
	{
		case O_INSM: case O_INSMH: case O_IOAM: case O_TRYM: return true;
		case O_EMP: case O_EMPP: case O_EMPH: case O_TRYH: case O_IDX: case O_IDXW: return (op.b & 3) == 2;
		case O_FIND: case O_CONT: case O_FINDT: case O_AT: case O_BUCKETS: case O_EQ: case O_OVR: case O_OVX: return true;
		case O_ERK: case O_ERI: case O_ERR: case O_ERIF: case O_ITERER: case O_CLEAR: return true;
		case O_RESERVE: case O_RESERVE_HUGE: case O_REHASH: case O_SWAP: case O_SWAPF: case O_SELFSWAP: case O_SELFMV: return true;
		case O_MVCT: case O_EXK: case O_EXI: case O_NSWAP: case O_NMOVE: case O_NDROP: return true;
		// nodes of another allocator are constructed anew, and constant keys can only be copied
		case O_MVCTA: case O_MVAS: case O_NINS: case O_NINSH: case O_NIOA: case O_NIOAH: case O_MERGE: case O_MERGEM: return !(STABLE && MAP) || tr.nres == 1;
		default: return false;
	}
}
#ifdef SIM_ALT
template<typename P>
void plain(const Op &op)
{
	Plain<P, ORD, STABLE> w(static_cast<u64>(op.s) * 1000003 + static_cast<u64>(op.k) * 1009 + static_cast<u64>(op.b), 2 + op.k % 60, op.fk, op.fn);
	w.run(4 + op.v % 60);
}
#endif
void exec(const Op &op)
{
	const int i = ((op.a % 3) + 3) % 3;
	int j = ((op.b % 3) + 3) % 3;
	C &x = *c[i];
	MC &mc = m[i];
	dirty[i] = true;
	NoCopy nocopy(copies_nothing(op));
	switch (op.code)
	{
		// -------------------------------------------------------- single element insertion
		case O_INS: case O_INSM: case O_INSH: case O_INSMH: case O_INSC:
		{
			const Elem e = from_op(op);
			const bool hinted = op.code == O_INSH || op.code == O_INSMH;
			const int hp = hinted ? hint_pos(i, op) : -1;
			must_ok = !conflicts(mc, e).empty();
			if (op.code == O_INSC)
			{
				must_ok = false;
				VT v = mvt(e);
				if constexpr (MAP)
				{
					auto r = as_pair(call([&]() { return x.insert(v); }));
					inserted(i, e, r.first, r.second, -1);
				}
				else if constexpr (NK == 1)
				{
					auto r = as_pair(call([&]() { return x.insert(e.k[0]); })); // constructs the element from something else
					inserted(i, e, r.first, r.second, -1);
				}
				else
				{
					auto r = as_pair(call([&]() { return x.insert(v); }));
					inserted(i, e, r.first, r.second, -1);
				}
				break;
			}
			IT v = mi(e);
			const int cat = op.code == O_INSM || op.code == O_INSMH ? 2 : op.b & 1;
			Watch wa(cat);
			wa.add(v);
			// a mutable lvalue selects the generic insert(), which builds the element before it looks for the key
			if (STABLE && cat == 1) must_ok = false;
			if (op.code == O_INS) { auto r = as_pair(call([&]() { return as(cat, v, [&](auto &&w) { return x.insert(std::forward<decltype(w)>(w)); }); })); inserted(i, e, r.first, r.second, -1); }
			else if (op.code == O_INSM) { auto r = as_pair(call([&]() { return x.insert(std::move(v)); })); inserted(i, e, r.first, r.second, -1); }
			else
			{
				CIt hint = hint_at(i, hp);
				if (op.code == O_INSH) { It r = call([&]() { return as(cat, v, [&](auto &&w) { return x.insert(hint, std::forward<decltype(w)>(w)); }); }); inserted(i, e, r, -1, hp); }
				else { It r = call([&]() { return x.insert(hint, std::move(v)); }); inserted(i, e, r, -1, hp); }
			}
			break;
		}
		case O_EMP: case O_EMPP:
		{
			const Elem e = from_op(op);
			if constexpr (MAP)
			{
				KT k = mk(e);
				Val v = mv(e.v);
				Watch wa(op.b);
				wa.add(k).add(v);
				if (op.code == O_EMP) { auto r = as_pair(call([&]() { return as(op.b, k, v, [&](auto &&kk, auto &&vv) { return x.emplace(std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); })); inserted(i, e, r.first, r.second, -1); }
				else { auto r = as_pair(call([&]() { return as(op.b, k, [&](auto &&kk) { return x.emplace(std::piecewise_construct, std::forward_as_tuple(std::forward<decltype(kk)>(kk)), std::forward_as_tuple(e.v)); }); })); inserted(i, e, r.first, r.second, -1); }
			}
			else if constexpr (NK == 1) { auto r = as_pair(call([&]() { return x.emplace(e.k[0]); })); inserted(i, e, r.first, r.second, -1); }
			else
			{
				Key k0 = key(e.k[0]), k1 = key(e.k[1]);
				Watch wa(op.b);
				wa.add(k0).add(k1);
				auto r = as_pair(call([&]() { return as(op.b, k0, k1, [&](auto &&a, auto &&b) { return x.emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); }); }));
				inserted(i, e, r.first, r.second, -1);
			}
			break;
		}
		case O_EMPH:
		{
			const Elem e = from_op(op);
			const int hp = hint_pos(i, op);
			CIt hint = hint_at(i, hp);
			KT k = mk(e);
			if constexpr (MAP)
			{
				Val v = mv(e.v);
				Watch wa(op.b);
				wa.add(k).add(v);
				It r = call([&]() { return as(op.b, k, v, [&](auto &&kk, auto &&vv) { return x.emplace_hint(hint, std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); });
				inserted(i, e, r, -1, hp);
			}
			else
			{
				Watch wa(op.b);
				wa.add(k);
				It r = call([&]() { return as(op.b, k, [&](auto &&kk) { return x.emplace_hint(hint, std::forward<decltype(kk)>(kk)); }); });
				inserted(i, e, r, -1, hp);
			}
			break;
		}
		case O_TRY: case O_TRYM: case O_TRYH:
			if constexpr (MAP)
			{
				const Elem e = from_op(op);
				const bool had = !conflicts(mc, e).empty();
				KT k = mk(e);
				must_ok = had;
				if (op.code == O_TRY)
				{
					if constexpr (TR && NK == 1)
						if (op.s & 1)
						{
							auto r = as_pair(call([&]() { return x.try_emplace(KeyRef{e.k[0]}, e.v); }));
							inserted(i, e, r.first, r.second, -1);
							break;
						}
					Val v = mv(e.v);
					Watch wa(op.b & 1);
					wa.add(k).add(v);
					auto r = as_pair(call([&]() { return as(op.b & 1, k, v, [&](auto &&kk, auto &&vv) { return x.try_emplace(std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); }));
					inserted(i, e, r.first, r.second, -1);
				}
				else if (op.code == O_TRYM)
				{
					Val v = mv(e.v);
					auto r = as_pair(call([&]() { return x.try_emplace(std::move(k), std::move(v)); }));
					inserted(i, e, r.first, r.second, -1);
					if (had)
					{
						Elem z = e;
						z.k[0] = NK == 1 ? arg_id(k) : e.k[0];
						if (!z.same(e) || v.get() != e.v) violate("args", "try_emplace consumed its arguments although the key was present");
					}
				}
				else
				{
					const int hp = hint_pos(i, op);
					CIt hint = hint_at(i, hp);
					Watch wa(had && NK == 1 ? 1 : op.b); // with the key present not even an rvalue is consumed (tuples of keys are passed by value)
					wa.add(k);
					It r = call([&]() { return as(op.b, k, [&](auto &&kk) { return x.try_emplace(hint, std::forward<decltype(kk)>(kk), e.v); }); });
					inserted(i, e, r, -1, hp);
				}
			}
			break;
		case O_IOA: case O_IOAM: case O_IOAH: case O_EOR: case O_EORH:
			if constexpr (MAP && NK == 1)
			{
				const Elem e = from_op(op);
				const int p = find_m(mc, 0, e.k[0]);
				const bool hinted = op.code == O_IOAH || op.code == O_EORH;
				const int hp = hinted ? hint_pos(i, op) : -1;
				KT k = mk(e);
				Val v = mv(e.v);
				must_ok = p >= 0;
				std::pair<It, int> r{It{}, -1};
				const int cat = op.code == O_IOAM ? 2 : op.b & 1;
				Watch wa(cat);
				wa.add(k).add(v);
				if (op.code == O_IOA) r = as_pair(call([&]() { return as(cat, k, v, [&](auto &&kk, auto &&vv) { return x.insert_or_assign(std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); }));
				else if (op.code == O_IOAM) r = as_pair(call([&]() { return x.insert_or_assign(std::move(k), std::move(v)); }));
				else if (op.code == O_EOR) r = as_pair(call([&]() { return as(cat, k, v, [&](auto &&kk, auto &&vv) { return x.emplace_or_replace(std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); }));
				else
				{
					CIt hint = hint_at(i, hp);
					if (op.code == O_IOAH) r = as_pair(call([&]() { return as(cat, k, v, [&](auto &&kk, auto &&vv) { return x.insert_or_assign(hint, std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); }));
					else r = as_pair(call([&]() { return as(cat, k, v, [&](auto &&kk, auto &&vv) { return x.emplace_or_replace(hint, std::forward<decltype(kk)>(kk), std::forward<decltype(vv)>(vv)); }); }));
				}
				assigned(i, e, r.first, r.second, hp, p);
			}
			break;
		case O_IDX: case O_IDXW:
			if constexpr (MAP && NK == 1)
			{
				Elem e = from_op(op);
				const int p = find_m(mc, 0, e.k[0]);
				must_ok = p >= 0;
				KT k = mk(e);
				Watch wa(p >= 0 ? 1 : op.b);
				wa.add(k);
				Val &r = call([&]() -> Val & { return as(op.b, k, [&](auto &&kk) -> Val & { return x[std::forward<decltype(kk)>(kk)]; }); });
				Calm q;
				if (r.get() != (p >= 0 ? mc.v[p].v : 0)) violate("result", "operator[] yields %d, expected %d", r.get(), p >= 0 ? mc.v[p].v : 0);
				if (op.code == O_IDXW) r.set(op.v);
				if (p < 0)
				{
					e.v = r.get();
					It it = x.find(key(e.k[0]));
					if (it == x.end()) violate("result", "operator[] did not insert the key");
					inserted(i, e, it, -1, -1);
				}
				else mc.v[p].v = r.get();
			}
			break;

		// -------------------------------------------------------- reading
		case O_FIND: case O_CONT: case O_FINDT: case O_AT:
			must_ok = true;
			with_j(op.b, [&](auto J)
			{
				const int id = op.k % D, p = find_m(mc, J, id);
				const C &cx = x;
				Key k = key(id);
				if (op.code == O_CONT)
				{
					if (call([&]() { return c_contains<J>(cx, k); }) != (p >= 0)) violate("lookup", "contains(%d) is wrong", id);
				}
				else if (op.code == O_AT)
				{
					if constexpr (MAP)
					{
						int got = -1;
						try
						{
							call([&]() { if constexpr (NK == 1) got = (op.s & 1) ? cx.at(k).v : x.at(k).v; else got = cx.template at<J>(k).v; });
							if (p < 0) violate("result", "at(%d) did not throw", id);
							if (got != mc.v[p].v) violate("result", "at(%d) yields %d, expected %d", id, got, mc.v[p].v);
						}
						catch (const std::out_of_range &) { if (p >= 0) violate("result", "at(%d) threw out_of_range", id); }
					}
				}
				else
				{
					auto it = call([&]() { if (op.code == O_FINDT) return c_find_t<J>(cx, id); else return c_find<J>(cx, k); });
					if ((it == cx.end()) != (p < 0)) violate("lookup", "find(%d) is wrong", id);
					if (p >= 0) { Elem e = elem(it); if (!e.same(mc.v[p])) violate("lookup", "find(%d) yields %s", id, show(e).c_str()); }
				}
				elog.put_api(p >= 0);
			});
			break;
		case O_BUCKETS:
			if constexpr (DENSE && NK == 1)
			{
				std::size_t total = 0;
				const C &cx = x;
				for (std::size_t b = 0; b < cx.bucket_count(); ++b)
				{
					const std::size_t sz = cx.bucket_size(b);
					total += sz;
					std::size_t n2 = 0;
					for (auto it = cx.begin(b); !(it == cx.end(b)); ++it)
					{
						auto &&r = *it;
						Elem e = elem_of(r);
						int p = find_m(mc, 0, e.k[0]);
						if (p < 0 || !mc.v[p].same(e)) violate("bucket", "bucket %zu yields %s", b, show(e).c_str());
						Key k = key(e.k[0]);
						if (cx.bucket(k) != b) violate("bucket", "bucket(%d) is %zu but the element is in bucket %zu", e.k[0], static_cast<std::size_t>(cx.bucket(k)), b);
						if (++n2 > mc.v.size()) violate("bucket", "bucket %zu does not end", b);
					}
					if (n2 != sz) violate("bucket", "bucket_size(%zu) is %zu, iteration yields %zu", b, sz, n2);
				}
				if (total != mc.v.size()) violate("bucket", "the buckets hold %zu of %zu elements", total, mc.v.size());
			}
			if constexpr (DENSE && NK > 1)
			{
				// an element is in one chain per key; the size of a bucket is the length of its longest chain
				const C &cx = x;
				Calm q;
				std::vector<std::size_t> n[3];
				auto count = [&](auto J)
				{
					constexpr int jj = decltype(J)::value;
					n[jj].assign(cx.bucket_count(), 0);
					for (auto &e: mc.v)
					{
						Key k = key(e.k[jj]);
						const std::size_t b = cx.template bucket<jj>(k);
						if (b >= cx.bucket_count()) violate("bucket", "bucket<%d>(%d) is %zu of %zu", jj, e.k[jj], b, static_cast<std::size_t>(cx.bucket_count()));
						++n[jj][b];
					}
				};
				if (!mc.v.empty())
				{
					count(std::integral_constant<int, 0>{});
					count(std::integral_constant<int, 1>{});
					if constexpr (NK > 2) count(std::integral_constant<int, 2>{});
					for (std::size_t b = 0; b < cx.bucket_count(); ++b)
					{
						std::size_t want = std::max(n[0][b], n[1][b]), n2 = 0;
						if constexpr (NK > 2) want = std::max(want, n[2][b]);
						for (auto it = cx.begin(b); !(it == cx.end(b)); ++it) if (++n2 > mc.v.size()) violate("bucket", "bucket %zu does not end", b);
						if (cx.bucket_size(b) != want || n2 != want) violate("bucket", "bucket_size(%zu) is %zu, iteration yields %zu, the longest chain has %zu", b, static_cast<std::size_t>(cx.bucket_size(b)), n2, want);
					}
				}
			}
			break;
		case O_MUTV:
			if constexpr (MAP)
				if (!mc.v.empty())
				{
					const std::size_t p = static_cast<std::size_t>(op.s) % mc.v.size();
					Key k = key(mc.v[p].k[0]);
					Calm q;
					auto it = c_find<0>(x, k);
					if (it == x.end()) violate("lookup", "find(%d) misses the element", mc.v[p].k[0]);
					auto &&r = *it;
					r.second.set(op.v);
					mc.v[p].v = op.v;
				}
			break;
		case O_EQTWIN: // give container j the contents of i in another order (and possibly one difference), on top of its own history, then compare
		{
			if (i == j) j = (i + 1) % 3;
			dirty[j] = true;
			C &y = *c[j];
			std::vector<Elem> want = mc.v;
			if (op.s & 8) std::reverse(want.begin(), want.end());
			if (!want.empty() && (op.s & 16)) std::rotate(want.begin(), want.begin() + op.k % static_cast<int>(want.size()), want.end());
			if (want.size() > 1 && (op.s & 32)) std::swap(want[0], want[static_cast<std::size_t>(op.v) % want.size()]);
			const std::size_t at = want.empty() ? 0 : static_cast<std::size_t>(op.v) % want.size();
			switch (op.s & 7)
			{
				case 1: if (!want.empty()) want.erase(want.begin() + static_cast<std::ptrdiff_t>(at)); break;
				case 2: if (!want.empty() && MAP) want[at].v += 1; break;
				case 3: case 4: // one key replaced or one element added, when that conflicts with nothing
				{
					Elem e = from_op(op);
					bool free = true;
					for (auto &w: want) for (int J = 0; J < NK; ++J) if (w.k[J] == e.k[J]) free = false;
					if (!free) break;
					if ((op.s & 7) == 4) want.push_back(e);
					else if (!want.empty()) want[at] = e;
					break;
				}
				case 5: // a different second key
					if constexpr (NK > 1)
						if (want.size() > 1) std::swap(want[0].k[1], want[at].k[1]);
					break;
				default: break;
			}
			on_fail = []() {};
			if (op.s & 64)
			{
				call([&]() { y.clear(); });
				m[j].v.clear();
				m[j].guar_n = 0;
			}
			else
				while (!m[j].v.empty())
				{
					Key k = key(m[j].v.back().k[0]);
					call([&]() { if constexpr (NK == 1) y.erase(std::as_const(k)); else y.template erase<0>(std::as_const(k)); });
					erase_model(j, static_cast<int>(m[j].v.size()) - 1);
				}
			for (auto &e: want)
			{
				IT v = mi(e);
				auto r = as_pair(call([&]() { return y.insert(std::as_const(v)); }));
				e.addr = nullptr;
				inserted(j, e, r.first, r.second, -1);
			}
		}
		[[fallthrough]];
		case O_EQ:
		{
			dirty[j] = true;
			const C &a = x, &b = *c[j];
			bool want = mc.v.size() == m[j].v.size();
			for (auto &e: mc.v) { int p = find_m(m[j], 0, e.k[0]); if (p < 0 || !m[j].v[p].same(e)) want = false; }
			const bool got = call([&]() { return a == b; }), ne = call([&]() { return a != b; }), sym = call([&]() { return b == a; });
			if (got != want || ne == want || sym != want) violate("equality", "containers with %s contents: == is %d, != is %d, reversed == is %d", want ? "equal" : "different", got, ne, sym);
			elog.put_api(want);
			++probes[op.code];
			break;
		}

		// -------------------------------------------------------- erasing
		case O_ERK:
			must_ok = true;
			with_j(op.b, [&](auto J)
			{
				const int id = op.k % D, p = find_m(mc, J, id);
				std::vector<int> ord = order_ids(i);
				const int k0 = p >= 0 ? mc.v[p].k[0] : -1;
				Key k = key(id);
				Watch wa(1);
				wa.add(k);
				It it = call([&]()
				{
					if constexpr (TR)
						if (op.s & 1)
						{
							if constexpr (NK == 1) return x.erase(KeyRef{id});
							else return x.template erase<J>(KeyRef{id});
						}
					return as(op.s >> 1, k, [&](auto &&kk)
					{
						if constexpr (NK == 1) return x.erase(std::forward<decltype(kk)>(kk));
						else return x.template erase<J>(std::forward<decltype(kk)>(kk));
					});
				});
				elog.put_api(p >= 0);
				if (p < 0)
				{
					if (!(it == x.end())) violate("next", "erase of an absent key does not return end()");
					return;
				}
				erase_model(i, p);
				check_next(i, it, std::vector<int>(std::find(ord.begin(), ord.end(), k0) + 1, ord.end()));
			});
			break;
		case O_ERI:
			must_ok = true;
			if (!mc.v.empty())
			{
				std::vector<int> ord = order_ids(i);
				const std::size_t p = pick(ord, op.s);
				It r = It{};
				if (mods(op)) { CIt it = hint_at(i, static_cast<int>(p)); r = call([&]() { return x.erase(it); }); }
				else { It it = x.begin(); for (std::size_t z = 0; z < p; ++z) ++it; r = call([&]() { return x.erase(it); }); }
				erase_model(i, find_m(mc, 0, ord[p]));
				check_next(i, r, std::vector<int>(ord.begin() + static_cast<std::ptrdiff_t>(p) + 1, ord.end()));
			}
			break;
		case O_ERR:
		{
			must_ok = true;
			std::vector<int> ord = order_ids(i);
			std::size_t p = static_cast<std::size_t>(op.s & 0xff) % (ord.size() + 1), q = static_cast<std::size_t>((op.s >> 8) & 0xff) % (ord.size() + 1);
			if (order_free() && !ord.empty())
			{
				// a range that does not depend on the unspecified iteration order: nothing, one element or everything
				const int how = op.b & 3;
				p = how == 3 ? 0 : pick(ord, op.s & 0xff);
				q = how == 3 ? ord.size() : how == 2 ? p : p + 1;
			}
			if (p > q) std::swap(p, q);
			CIt first = hint_at(i, static_cast<int>(p)), last = hint_at(i, static_cast<int>(q));
			It r = call([&]() { return x.erase(first, last); });
			for (std::size_t z = p; z < q; ++z) erase_model(i, find_m(mc, 0, ord[z]));
			check_next(i, r, std::vector<int>(ord.begin() + static_cast<std::ptrdiff_t>(q), ord.end()));
			break;
		}
		case O_ERIF: case O_ITERER:
		{
			must_ok = true;
			auto visited_p = std::make_shared<std::multiset<int>>();
			auto &visited = *visited_p;
			const std::vector<Elem> old = mc.v;
			auto sel = [s = op.s, v = op.v](int id) { return mix64(static_cast<u64>(id) * 31 + static_cast<u64>(s)) % 100 < static_cast<u64>(v < 0 ? 50 : v % 101); };
			auto visit = [&](const auto &r)
			{
				int id = kid<0>(r);
				visited.insert(id);
				fault_point(F_PRED);
				return sel(id);
			};
			on_fail = [this, i, old, sel, visited_p]()
			{
				auto &visited = *visited_p;
				auto got = observe(*c[i]);
				for (auto &e: old)
				{
					bool there = false;
					for (auto &g: got) there |= g.same(e) && (!STABLE || g.addr == e.addr);
					if (!there && !(sel(e.k[0]) && visited.count(e.k[0]))) violate("atomicity", "an interrupted erase_if removed %s which was not selected", show(e).c_str());
				}
				resync(i, {&old}, "interrupted erase_if");
				if (ORD && !subsequence(m[i].v, old)) violate("order", "interrupted erase_if changed the order");
			};
			std::size_t cnt = 0;
			if (op.code == O_ERIF) cnt = call([&]() { return erase_if(x, visit); });
			else
				call([&]()
				{
					for (auto it = x.begin(); !(it == x.end());)
					{
						auto &&r = *it;
						if (visit(r)) { it = x.erase(it); ++cnt; }
						else ++it;
					}
				});
			std::size_t want = 0;
			for (auto &e: old)
			{
				if (visited.count(e.k[0]) != 1) violate("visit", "%s visited %zu times", show(e).c_str(), visited.count(e.k[0]));
				want += sel(e.k[0]);
			}
			if (visited.size() != old.size()) violate("visit", "%zu visits for %zu elements", visited.size(), old.size());
			if (cnt != want) violate("result", "erase_if returned %zu, %zu elements were selected", cnt, want);
			for (auto &e: old) if (sel(e.k[0])) erase_model(i, find_m(mc, 0, e.k[0]));
			elog.put_api(cnt);
			break;
		}
		case O_CLEAR:
			must_ok = true;
			call([&]() { x.clear(); });
			mc.v.clear(); // a reservation stays in force
			break;

		// -------------------------------------------------------- capacity
		case O_RESERVE:
		{
			const std::size_t n_ = static_cast<std::size_t>(op.v < 0 ? 0 : op.v) % static_cast<std::size_t>(2 * D + 2);
			std::vector<Elem> old = mc.v;
			on_fail = [this, i]() { m[i].guar_n = 0; };
			bound_n = std::max(bound_n, n_);
			call([&]() { x.reserve(n_); });
			mc.guar_n = std::max(n_, mc.v.size());
			mc.guar_bc = x.bucket_count();
			break;
		}
		case O_RESERVE_HUGE:
		{
			static const std::size_t huge[] = {~std::size_t(0), ~std::size_t(0) / 2, ~std::size_t(0) - 17, std::size_t(1) << 63, std::size_t(1) << 62, std::size_t(1) << 60, std::size_t(1) << 48, ~std::size_t(0) / sizeof(IT)};
			const std::size_t n_ = huge[static_cast<unsigned>(op.v) % 8];
			may_throw = true;
			bool threw = true;
			on_fail = [this, i]() { m[i].guar_n = 0; };
			call([&]() { if (op.s & 1) x.rehash(n_); else x.reserve(n_); threw = false; });
			if (!threw) violate("result", "%s(%zu) reports success", (op.s & 1) ? "rehash" : "reserve", n_);
			break;
		}
		case O_REHASH:
		{
			const std::size_t n_ = (op.s & 1) ? 0 : static_cast<std::size_t>(op.v < 0 ? 0 : op.v) % static_cast<std::size_t>(3 * D + 2);
			on_fail = [this, i]() { m[i].guar_n = 0; };
			bound_n = std::max(bound_n, n_);
			call([&]() { x.rehash(n_); });
			if (x.bucket_count() < n_) violate("result", "rehash(%zu) left %zu buckets", n_, static_cast<std::size_t>(x.bucket_count()));
			mc.guar_n = 0;
			break;
		}
		case O_GIANT:
			giant(op);
			++probes[op.code];
			break;
		case O_PLAIN:
			dirty[i] = false;
#ifdef SIM_ALT
			on_fail = []() {};
			if (op.s & 1) plain<typename T::PlainA>(op); else plain<typename T::PlainB>(op);
			++probes[op.code];
#endif
			break;
		case O_CHURN:
		{
			const int iters = (40 + (op.v < 0 ? 0 : op.v % 300)) * (D >= 400 ? 8 : 1), w = 1 + (op.s & 0xff) % std::min(D, 24), stride = 1 + (op.b & 3);
			on_fail = []() {};
			for (int z = 0; z < iters; ++z)
			{
				Elem e;
				for (int J = 0; J < NK; ++J) e.k[J] = static_cast<int>((static_cast<long long>(op.k) + static_cast<long long>(z) * stride) % D);
				if constexpr (MAP) e.v = op.v + z;
				IT v = mi(e);
				{
					auto r = as_pair(call([&]() { return x.insert(std::as_const(v)); }));
					inserted(i, e, r.first, r.second, -1);
				}
				while (static_cast<int>(mc.v.size()) > w)
				{
					Key k = key(mc.v.front().k[0]);
					call([&]() { if constexpr (NK == 1) x.erase(std::as_const(k)); else x.template erase<0>(std::as_const(k)); });
					erase_model(i, 0);
				}
				bound(i);
			}
			++probes[op.code];
			break;
		}
		case O_FILL:
		{
			const int cnt = 1 + (op.v < 0 ? 0 : op.v) % D;
			on_fail = []() {};
			for (int z = 0; z < cnt; ++z)
			{
				Elem e = from_op(op, z);
				if constexpr (NK > 1) for (int J = 1; J < NK; ++J) e.k[J] = (e.k[0] + (op.s & 0xff)) % D;
				IT v = mi(e);
				auto r = as_pair(call([&]() { return x.insert(std::as_const(v)); }));
				inserted(i, e, r.first, r.second, -1);
			}
			break;
		}
		case O_RESFILL: // reserve(n), then reach n elements - packed containers without any further memory
		{
			std::vector<int> unused;
			for (int id = 0; id < D; ++id)
			{
				bool u = true;
				for (int J = 0; J < NK; ++J) u &= find_m(mc, J, id) < 0;
				if (u) unused.push_back(id);
			}
			const std::size_t take = unused.empty() ? 0 : 1 + static_cast<std::size_t>(op.v < 0 ? 0 : op.v) % unused.size(), n_ = mc.v.size() + take;
			on_fail = [this, i]() { m[i].guar_n = 0; };
			bound_n = std::max(bound_n, n_);
			call([&]() { x.reserve(n_); });
			mc.guar_n = n_;
			mc.guar_bc = x.bucket_count();
			const bool starve = !STABLE && (op.s & 1), was = E.exhausted;
			for (std::size_t z = 0; z < take; ++z)
			{
				Elem e;
				for (int J = 0; J < NK; ++J) e.k[J] = unused[z];
				if constexpr (MAP) e.v = op.v + static_cast<int>(z);
				IT v = mi(e);
				if (starve) E.exhausted = true;
				try
				{
					auto r = as_pair(x.insert(std::as_const(v)));
					E.exhausted = was;
					inserted(i, e, r.first, r.second, -1);
				}
				catch (const SimBadAlloc &)
				{
					E.exhausted = was;
					if (starve) violate("reserve", "insertion %zu of %zu after reserve(%zu) needs memory", z + 1, take, n_);
					throw;
				}
			}
			if (take) ++probes[op.code];
			break;
		}
		case O_MLF:
			if constexpr (DENSE)
			{
				static const float f[] = {0.25f, 0.5f, 0.75f, 0.875f, 1.0f, 1.5f, 2.0f, 4.0f};
				const float v = f[static_cast<unsigned>(op.v) % 8];
				lowered |= v < mc.mlf;
				x.max_load_factor(v);
				mc.mlf = v;
				min_mlf = std::min(min_mlf, v);
				mc.guar_n = 0;
			}
			break;

		// -------------------------------------------------------- copying, moving, swapping
		case O_SWAP: case O_SWAPF: case O_SELFSWAP:
			if (op.code == O_SELFSWAP) j = i;
			if (!POCS && !eq_alloc(mc.res, m[j].res)) break;
			dirty[j] = true;
			must_ok = true;
			call([&]() { if (op.code == O_SWAPF) { using std::swap; swap(x, *c[j]); } else x.swap(*c[j]); });
			if (i != j)
			{
				std::swap(m[i], m[j]);
				if (!POCS) std::swap(m[i].res, m[j].res);
			}
			m[i].guar_n = m[j].guar_n = 0;
			break;
		case O_SELFCP: { const C &cx = x; on_fail = []() {}; call([&]() { x = cx; }); break; }
		case O_SELFMV: { C &rx = x; call([&]() { x = std::move(rx); }); break; }
		case O_CPCT: case O_CPCTA: case O_MVCT: case O_MVCTA: case O_DCTOR: case O_BCTOR: case O_RCTOR:
			if (i == j && op.code != O_DCTOR && op.code != O_BCTOR && op.code != O_RCTOR) j = (i + 1) % 3;
			construct(op, i, j);
			break;
		case O_CPAS:
		{
			if (i == j) j = (i + 1) % 3;
			C &y = *c[j];
			dirty[j] = true;
			std::vector<Elem> old = m[j].v, src = mc.v;
			on_fail = [&, i, j, old, src]()
			{
				m[j].res = c[j]->get_allocator().res == m[i].res && POCCA ? m[i].res : m[j].res;
				resync(j, {&old, &src}, "failed copy assignment");
				if (ORD && !subsequence(m[j].v, src) && !subsequence(m[j].v, old)) violate("order", "failed copy assignment left the elements out of order");
			};
			call([&]() { if (op.s & 1) y = x; else y = std::as_const(x); });
			if (POCCA) m[j].res = mc.res;
			m[j].salt = mc.salt;
			m[j].eq = mc.eq;
			m[j].mlf = mc.mlf;
			set_model(j, src);
			break;
		}
		case O_MVAS:
		{
			if (i == j) j = (i + 1) % 3;
			C &y = *c[j];
			dirty[j] = true;
			const bool steal = POCMA || eq_alloc(mc.res, m[j].res);
			must_ok = steal;
			std::vector<Elem> old = m[j].v, src = mc.v;
			on_fail = [&, i, j, old, src]()
			{
				resync(j, {&old, &src}, "failed move assignment");
				resync(i, {&old, &src}, "source of a failed move assignment");
				for (auto &a: m[i].v) for (auto &b: m[j].v) if (a.same(b) && find_m2(old, b) < 0) violate("content", "failed move assignment duplicated %s", show(a).c_str());
			};
			call([&]() { y = std::move(x); });
			if (POCMA) m[j].res = mc.res;
			m[j].salt = mc.salt;
			m[j].eq = mc.eq;
			m[j].mlf = mc.mlf;
			m[j].v = src;
			m[j].guar_n = 0;
			if (!steal) adopt_addr(j);
			if (POCMA) mc.res = x.get_allocator().res;
			resync(i, {&old}, "moved-from container");
			break;
		}
		case O_ILAS:
		{
			const int cnt = (op.s & 0xff) % 4;
			std::vector<Elem> items = item_list(op, cnt), old = mc.v;
			on_fail = [&, i, items, old]() { fail_subset(i, old, items, "assignment of a list", false); };
			if (cnt == 0) { call([&]() { x = std::initializer_list<VT>{}; }); }
			else if (cnt == 1) { VT a = mvt(items[0]); call([&]() { x = {a}; }, "il"); }
			else if (cnt == 2) { VT a = mvt(items[0]), b = mvt(items[1]); call([&]() { x = {a, b}; }, "il"); }
			else { VT a = mvt(items[0]), b = mvt(items[1]), d = mvt(items[2]); call([&]() { x = {a, b, d}; }, "il"); }
			set_model(i, after_inserts({}, items));
			break;
		}
		case O_RANGEINS: case O_LISTINS:
		{
			const int cnt = (op.v < 0 ? 0 : op.v) % 7 + ((op.b & 12) == 12 ? 17 : 0);
			std::vector<Elem> items = item_list(op, cnt), old = mc.v;
			on_fail = [&, i, items, old]() { fail_subset(i, old, items, "range insertion", true); };
			bound_n = std::max(bound_n, old.size() + items.size());
			if (op.code == O_RANGEINS)
			{
				std::vector<IT> v;
				v.reserve(items.size());
				for (auto &e: items) v.push_back(mi(e));
				Watch wa(0);
				for (auto &w: v) wa.add(w);
				call([&]() { x.insert(v.begin(), v.end()); });
			}
			else
			{
				std::list<IT> v;
				for (auto &e: items) v.push_back(mi(e));
				Watch wa(0);
				for (auto &w: v) wa.add(w);
				call([&]() { x.insert(v.begin(), v.end()); });
			}
			if constexpr (STABLE) keep_addr(i, old, "range insertion");
			set_model(i, after_inserts(old, items));
			break;
		}

		// -------------------------------------------------------- node handles and merging
		case O_EXK: case O_EXI: case O_NINS: case O_NINSH: case O_NIOA: case O_NIOAH: case O_NSWAP: case O_NMOVE: case O_NDROP: case O_NMUT: case O_MERGE: case O_MERGEM:
			if constexpr (STABLE) exec_node(op, i, j);
			break;

		// -------------------------------------------------------- arguments that refer into the container
		case O_AINS: case O_AEMP: case O_AGROW: case O_AIOA: case O_AREPL: case O_AERASE: case O_AIDX:
			if (!mc.v.empty()) exec_alias(op, i);
			break;

		// -------------------------------------------------------- other spellings
		case O_OVI: case O_OVK: case O_OVT: case O_OVX: case O_OVR: case O_OVL: case O_OVA: case O_OVC: case O_MERGEX: exec_ovl(op, i, j); break;

		case O_MEMLIM: E.exhausted = true; dirty[i] = false; break;
		case O_MEMUNLIM: E.exhausted = false; dirty[i] = false; break;
		default: break;
	}
}
template<typename F>
void call(F &&f, const char *)
{
	Arm g(*cur);
	f();
}
static int arg_id(const Key &k) { return k.get(); }
template<typename... Ks>
static int arg_id(const std::tuple<Ks...> &k) { return std::get<0>(k).get(); }
void check_arg(const IT &v, const Elem &e)
{
	Elem g;
	if constexpr (MAP)
	{
		g.k[0] = arg_id(v.first);
		g.v = v.second.get();
	}
	else g.k[0] = arg_id(v);
	if (g.k[0] != e.k[0] || g.v != e.v) violate("args", "insertion changed its const argument");
}
static int find_m2(const std::vector<Elem> &v, const Elem &e)
{
	for (std::size_t i = 0; i < v.size(); ++i) if (v[i].same(e)) return static_cast<int>(i);
	return -1;
}
void keep_addr(int i, const std::vector<Elem> &old, const char *what)
{
	if constexpr (STABLE)
	{
		auto got = observe(*c[i]);
		for (auto &e: old)
			for (auto &g: got) if (g.k[0] == e.k[0] && g.addr != e.addr) violate("stability", "%s moved %s in memory", what, show(e).c_str());
	}
}
// insert_or_assign / emplace_or_replace of e; p = position of the key before the call, or -1
template<typename I>
void assigned(int i, const Elem &e, I it, int flag, int hp, int p)
{
	if (p < 0) return inserted(i, e, it, flag, hp);
	Calm q;
	if (flag == 1) violate("result", "replacing %s reports an insertion", show(e).c_str());
	if (it == c[i]->end()) violate("result", "replacing %s returned end()", show(e).c_str());
	Elem got = elem(it);
	if (!got.same(e)) violate("result", "replacing %s yields %s", show(e).c_str(), show(got).c_str());
	m[i].v[p].v = e.v;
	elog.put_api(2);
}
// (re)construct slot j, from slot i where the constructor has a source
void construct(const Op &op, int i, int j)
{
	MC src = m[i];
	const int salt = tr.salts ? (op.s & 3) : 0, res = static_cast<int>(static_cast<unsigned>(op.v) % static_cast<unsigned>(nres()));
	dirty[i] = dirty[j] = true;
	if (op.code == O_DCTOR || op.code == O_BCTOR || op.code == O_RCTOR) j = i;
	{
		Calm q;
		destroy_slot(j);
		m[j] = MC{};
		check_live();
	}
	MC nm;
	on_fail = [this, j, i, src, &op]()
	{
		object_slot_free(j, sizeof(C));
		fresh_slot(j, 0);
		if (op.code == O_MVCTA) resync(i, {&src.v}, "source of a failed move construction");
		else if (j != i) dirty[i] = true;
	};
	switch (op.code)
	{
		case O_CPCT:
			call([&]() { if (op.s & 1) construct_slot(j, *c[i]); else construct_slot(j, std::as_const(*c[i])); });
			nm = src;
			nm.res = SOCCC0 ? 0 : src.res;
			break;
		case O_CPCTA:
			call([&]() { construct_slot(j, std::as_const(*c[i]), A(res)); });
			nm = src;
			nm.res = res;
			break;
		case O_MVCT:
			must_ok = true;
			call([&]() { construct_slot(j, std::move(*c[i])); });
			nm = src;
			break;
		case O_MVCTA:
			must_ok = eq_alloc(res, src.res);
			call([&]() { construct_slot(j, std::move(*c[i]), A(res)); });
			nm = src;
			nm.res = res;
			break;
		case O_DCTOR:
			must_ok = true;
			if (op.s & 4) { call([&]() { construct_slot(j, A(res)); }); nm.res = res; }
			else call([&]() { construct_slot(j); });
			nm.mlf = c[j]->max_load_factor();
			break;
		case O_BCTOR:
		{
			const std::size_t n_ = static_cast<std::size_t>((op.k < 0 ? 0 : op.k) % 40);
			bound_n = std::max(bound_n, n_);
			call([&]() { construct_slot(j, n_, H(salt), Eqv(eq_state(op)), A(res)); });
			nm.res = res;
			nm.salt = H(salt).salt;
			nm.eq = Eqv(eq_state(op)).tag();
			nm.mlf = c[j]->max_load_factor();
			if (c[j]->bucket_count() < n_) violate("result", "construction with %zu buckets left %zu", n_, static_cast<std::size_t>(c[j]->bucket_count()));
			break;
		}
		default: // O_RCTOR
		{
			const int cnt = (op.s >> 4 & 0xff) % 9;
			const std::size_t n_ = static_cast<std::size_t>((op.b < 0 ? 0 : op.b) % 24);
			auto items = item_list(op, cnt);
			bound_n = std::max(bound_n, n_ + items.size());
			if (op.s & 8)
			{
				std::list<IT> v;
				for (auto &e: items) v.push_back(mi(e));
				call([&]() { construct_slot(j, v.begin(), v.end(), n_, H(salt), Eqv(eq_state(op)), A(res)); });
			}
			else
			{
				std::vector<IT> v;
				v.reserve(items.size());
				for (auto &e: items) v.push_back(mi(e));
				call([&]() { construct_slot(j, v.begin(), v.end(), n_, H(salt), Eqv(eq_state(op)), A(res)); });
			}
			nm.res = res;
			nm.salt = H(salt).salt;
			nm.eq = Eqv(eq_state(op)).tag();
			nm.mlf = c[j]->max_load_factor();
			nm.v = after_inserts({}, items);
		}
	}
	nm.guar_n = 0;
	m[j] = nm;
	const bool moved = op.code == O_MVCT || op.code == O_MVCTA;
	const bool steal = op.code == O_MVCT || (op.code == O_MVCTA && eq_alloc(res, src.res));
	if (!steal) adopt_addr(j);
	if (STABLE && !steal && i != j && !moved)
		for (auto &a: m[j].v) for (auto &b: m[i].v) if (a.addr == b.addr) violate("content", "the copy shares %s with its source", show(a).c_str());
	if (moved && i != j)
	{
		if (c[i]->get_allocator().res != src.res) violate("propagation", "move construction changed the allocator of its source");
		resync(i, {}, "moved-from container");
	}
}
void exec_alias(const Op &op, int i)
{
	C &x = *c[i];
	MC &mc = m[i];
	const std::size_t p = static_cast<std::size_t>(op.s) % mc.v.size();
	const Elem own = mc.v[p];
	Key ok = key(own.k[0]);
	auto it = c_find<0>(x, ok);
	if (it == x.end()) violate("lookup", "find(%d) misses the element", own.k[0]);
	auto &&r = *it;
	++probes[op.code];
	switch (op.code)
	{
		case O_AINS:
			if constexpr (!MAP) { auto z = as_pair(call([&]() { return x.insert(r); })); inserted(i, own, z.first, z.second, -1); }
			else { auto z = as_pair(call([&]() { return x.emplace(r.first, r.second); })); inserted(i, own, z.first, z.second, -1); }
			break;
		case O_AEMP:
			if constexpr (!MAP && NK == 1) { auto z = as_pair(call([&]() { return x.emplace(r); })); inserted(i, own, z.first, z.second, -1); }
			else if constexpr (!MAP)
			{
				// second key of an own element as first key of a new one
				Elem e = from_op(op);
				e.k[0] = own.k[1];
				Key k1 = key(e.k[1]);
				auto z = as_pair(call([&]() { return x.emplace(std::get<1>(r), std::as_const(k1)); }));
				inserted(i, e, z.first, z.second, -1);
			}
			else if constexpr (NK == 1) { auto z = as_pair(call([&]() { return x.try_emplace(r.first, r.second); })); inserted(i, own, z.first, z.second, -1); }
			else { auto z = as_pair(call([&]() { return x.try_emplace(r.first, r.second); })); inserted(i, own, z.first, z.second, -1); }
			break;
		case O_AGROW:
			if constexpr (MAP)
			{
				Elem e = from_op(op);
				e.v = own.v;
				KT k = mk(e);
				const Val &v = r.second;
				if constexpr (NK == 1)
				{
					const int q = find_m(mc, 0, e.k[0]);
					if ((op.b & 3) >= 2)
					{
						if (q >= 0) break;
						auto z = (op.b & 3) == 2 ? as_pair(call([&]() { return x.insert_or_assign(std::as_const(k), v); })) : as_pair(call([&]() { return x.emplace_or_replace(std::as_const(k), v); }));
						assigned(i, e, z.first, z.second, -1, q);
						break;
					}
				}
				auto z = (op.b & 1) ? as_pair(call([&]() { return x.emplace(std::as_const(k), v); })) : as_pair(call([&]() { return x.try_emplace(std::as_const(k), v); }));
				inserted(i, e, z.first, z.second, -1);
			}
			break;
		case O_AIOA:
			if constexpr (MAP && NK == 1)
			{
				Elem e = own;
				e.v = op.v;
				Val v = mv(op.v);
				auto z = (op.b & 1) ? as_pair(call([&]() { return x.insert_or_assign(r.first, std::as_const(v)); })) : as_pair(call([&]() { return x.emplace_or_replace(r.first, op.v); }));
				assigned(i, e, z.first, z.second, -1, static_cast<int>(p));
			}
			break;
		case O_AREPL: // assign one element's value (possibly its own) to another
			if constexpr (MAP && NK == 1)
			{
				const std::size_t t = static_cast<std::size_t>(op.k) % mc.v.size();
				Elem e = mc.v[t];
				e.v = own.v;
				KT k = mk(e);
				const Val &v = r.second;
				auto z = (op.b & 1) ? as_pair(call([&]() { return x.insert_or_assign(std::as_const(k), v); })) : as_pair(call([&]() { return x.emplace_or_replace(std::as_const(k), v); }));
				assigned(i, e, z.first, z.second, -1, static_cast<int>(t));
			}
			break;
		case O_AERASE:
			with_j(op.b, [&](auto J)
			{
				if constexpr (NK == 1) call([&]() { x.erase(keyof(r)); });
				else call([&]() { x.template erase<J>(std::get<J>(keyof(r))); });
				erase_model(i, static_cast<int>(p));
			});
			break;
		case O_AIDX:
			if constexpr (MAP && NK == 1)
			{
				const Key &k = r.first;
				Val &v = call([&]() -> Val & { return x[k]; });
				if (v.get() != own.v) violate("result", "operator[] with an own key yields %d, expected %d", v.get(), own.v);
			}
			break;
	}
}
void exec_node(const Op &op, int i, int j)
{
	if constexpr (STABLE)
	{
		C &x = *c[i];
		MC &mc = m[i];
		const int hs = op.b & 1;
		MH &hm = h[hs];
		switch (op.code)
		{
			case O_EXK: case O_EXI:
			{
				int p;
				must_ok = true;
				if (op.code == O_EXI && mc.v.empty()) break;
				if (hm.full)
				{
					Calm q;
					destroy_node(hs);
					construct_node(hs);
					hm = MH{};
				}
				std::vector<int> ord = order_ids(i);
				if (op.code == O_EXK) p = find_m(mc, 0, op.k % D);
				else p = find_m(mc, 0, ord[pick(ord, op.s)]);
				N nh = call([&]() -> N
				{
					if (op.code == O_EXI) return x.extract(hint_at(i, static_cast<int>(pick(ord, op.s))));
					Key k = key(op.k % D);
					if constexpr (TR) if (op.s & 1) return x.extract(KeyRef{op.k % D});
					return x.extract(std::as_const(k));
				});
				elog.put_api(p >= 0);
				if (p < 0)
				{
					if (!nh.empty()) violate("node", "extracting an absent key yields an element");
					break;
				}
				if (nh.empty()) violate("node", "extracting key %d yields nothing", mc.v[p].k[0]);
				destroy_node(hs);
				construct_node(hs, std::move(nh));
				hm.full = true;
				hm.res = mc.res;
				hm.e = mc.v[p];
				erase_model(i, p);
				break;
			}
			case O_NINS: case O_NINSH: case O_NIOA: case O_NIOAH:
			{
				if (!hm.full)
				{
					if (op.code == O_NINS)
					{
						auto r = call([&]() { return x.insert(std::move(*n[hs])); });
						if (r.inserted || !(r.position == x.end()) || !r.node.empty()) violate("node", "inserting an empty handle has an effect");
					}
					else if (op.code == O_NINSH) { if (!(call([&]() { return x.insert(CIt(x.begin()), std::move(*n[hs])); }) == x.end())) violate("node", "inserting an empty handle has an effect"); }
					break;
				}
				const bool foreign = !eq_alloc(hm.res, mc.res); // the element moves to memory of the container's allocator
				const Elem e = hm.e;
				const int p = find_m(mc, 0, e.k[0]);
				const int hp = (op.code == O_NINSH || op.code == O_NIOAH) ? hint_pos(i, op) : -1;
				if (op.code == O_NINS)
				{
					must_ok = p >= 0;
					auto r = call([&]() { return x.insert(std::move(*n[hs])); });
					if (p >= 0)
					{
						if (r.inserted || r.node.empty()) violate("node", "a rejected node was not handed back");
						if (!n[hs]->empty()) violate("node", "a rejected node is in two handles");
						destroy_node(hs);
						construct_node(hs, std::move(r.node));
						Elem got = elem(r.position);
						if (got.addr != mc.v[p].addr) violate("result", "rejected node: position does not denote the existing element");
						break;
					}
					if (!r.inserted || !r.node.empty()) violate("node", "node insertion reports failure");
					hm = MH{};
					if (!foreign && elem(r.position).addr != e.addr) violate("stability", "node insertion moved the element");
					if (!n[hs]->empty()) violate("node", "the handle still owns an inserted node");
					inserted(i, e, r.position, -1, -1);
				}
				else if (op.code == O_NINSH)
				{
					must_ok = p >= 0;
					CIt hint = hint_at(i, hp);
					It r = call([&]() { return x.insert(hint, std::move(*n[hs])); });
					if (p >= 0)
					{
						if (n[hs]->empty()) violate("node", "a rejected node was lost");
						if (elem(r).addr != mc.v[p].addr) violate("result", "rejected node: position does not denote the existing element");
						break;
					}
					hm = MH{};
					if (!foreign && elem(r).addr != e.addr) violate("stability", "node insertion moved the element");
					if (!n[hs]->empty()) violate("node", "the handle still owns an inserted node");
					inserted(i, e, r, -1, hp);
				}
				else
				{
					if constexpr (MAP)
					{
						must_ok = p >= 0 && !foreign;
						std::pair<It, int> r{It{}, -1};
						if (op.code == O_NIOA) r = as_pair(call([&]() { return x.insert_or_assign(std::move(*n[hs])); }));
						else { CIt hint = hint_at(i, hp); r = as_pair(call([&]() { return x.insert_or_assign(hint, std::move(*n[hs])); })); }
						if (!n[hs]->empty()) violate("node", "the handle still owns an assigned node");
						hm = MH{};
						const Elem got = elem(r.first);
						if (p < 0)
						{
							if (!foreign && got.addr != e.addr) violate("stability", "node insertion moved the element");
							inserted(i, e, r.first, r.second, hp);
						}
						else
						{
							// either the node replaces the element, or its value is assigned to it
							if (!foreign && got.addr != e.addr && got.addr != mc.v[p].addr) violate("stability", "node assignment moved the element");
							mc.v[p].addr = got.addr;
							assigned(i, e, r.first, r.second, hp, p);
						}
					}
				}
				break;
			}
			case O_NSWAP:
				if (!h[0].full || !h[1].full || (!POCS && !eq_alloc(h[0].res, h[1].res))) break;
				call([&]() { if (op.s & 1) { using std::swap; swap(*n[0], *n[1]); } else n[0]->swap(*n[1]); });
				std::swap(h[0], h[1]);
				if (!POCS) std::swap(h[0].res, h[1].res);
				if (ALWAYS && !POCS)
					for (int q = 0; q < 2; ++q) h[q].res = n[q]->get_allocator().res;
				break;
			case O_NMOVE:
				if (!h[hs].full || (h[1 - hs].full && !POCMA && !eq_alloc(h[0].res, h[1].res))) break;
				call([&]() { *n[1 - hs] = std::move(*n[hs]); });
				{
					const int r = POCMA || !h[1 - hs].full ? h[hs].res : ALWAYS ? n[1 - hs]->get_allocator().res : h[1 - hs].res; // an empty handle adopts the allocator
					h[1 - hs] = h[hs];
					h[1 - hs].res = r;
					h[hs] = MH{};
					Calm q;
					destroy_node(hs);
					construct_node(hs);
				}
				break;
			case O_NDROP:
			{
				Calm q;
				destroy_node(hs);
				construct_node(hs);
				hm = MH{};
				break;
			}
			case O_NMUT:
				if (!hm.full) break;
				if constexpr (MAP)
				{
					n[hs]->mapped().set(op.v);
					hm.e.v = op.v;
				}
				else
				{
					n[hs]->value().id = op.k % D;
					hm.e.k[0] = op.k % D;
				}
				break;
			case O_MERGE: case O_MERGEM:
			{
				if (i == j) j = (i + 1) % 3;
				const bool foreign = !eq_alloc(mc.res, m[j].res); // elements are constructed anew
				dirty[j] = true;
				C &y = *c[j];
				const std::vector<Elem> a = mc.v, b = m[j].v;
				std::vector<Elem> ra = a, rb;
				for (auto &e: b) if (find_m(mc, 0, e.k[0]) < 0) ra.push_back(e); else rb.push_back(e);
				bound_n = std::max(bound_n, a.size() + b.size());
				on_fail = [this, i, j, a, b, ra, foreign]()
				{
					resync(i, {&a, &b}, "failed merge");
					resync(j, {&a, &b}, "failed merge (source)");
					for (auto &e: a) if (find_addr(i, e) < 0) violate("conservation", "failed merge lost %s of the target", show(e).c_str());
					for (auto &e: b)
					{
						const int in = foreign ? (find_same(i, e) >= 0 && find_m2(a, e) < 0) + (find_same(j, e) >= 0) : (find_addr(i, e) >= 0) + (find_addr(j, e) >= 0);
						if (in != 1) violate("conservation", "failed merge: %s is in %d containers", show(e).c_str(), in);
					}
					if (ORD && (!subsequence(m[i].v, ra) || !subsequence(m[j].v, b))) violate("order", "failed merge left the elements out of order");
				};
				call([&]() { if (op.code == O_MERGE) x.merge(y); else x.merge(std::move(y)); });
				mc.v = ra;
				m[j].v = rb;
				mc.guar_n = m[j].guar_n = 0;
				if (foreign)
				{
					keep_addr(i, a, "merge");
					keep_addr(j, rb, "merge");
					adopt_addr(i);
				}
				++probes[op.code];
				break;
			}
		}
	}
}
int find_same(int i, const Elem &e) { return find_m2(m[i].v, e); }
int find_addr(int i, const Elem &e)
{
	for (std::size_t p = 0; p < m[i].v.size(); ++p) if (m[i].v[p].same(e) && m[i].v[p].addr == e.addr) return static_cast<int>(p);
	return -1;
}
