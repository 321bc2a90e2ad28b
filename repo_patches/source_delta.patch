From 6e221c6f8a5e38c2881b243ec877de298a82bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 01/50] fix: make hinted insertions and range erase of the hash
 tables compile

emplace_hint, emplace_or_replace(hint, ...), insert(hint, node) and
insert_or_assign(hint, node) did not compile when instantiated, nor did
erase(first, last) of unordered SwissHash tables. The latter also used an
erased iterator for ordered tables.
---
 tpp/detail/dense_table.hpp |  4 ++--
 tpp/detail/swiss_table.hpp | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..89eec1d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..dc94153 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -973,7 +973,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1007,11 +1007,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1025,7 +1025,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -1035,7 +1035,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
@@ -1069,9 +1069,8 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			while (first != last) first = erase(first);
+			return iterator{to_underlying(last)};
 		}
 
 		template<typename T, typename = std::enable_if_t<!std::is_convertible_v<T, const_iterator>>>
-- 
2.43.0


From 63c2f13b8e43e436538e67cdbaf0fe8af8840bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 02/50] fix: erase through every chain of a multi-key dense
 table

The chain lookup was instantiated with the whole index pack, which does not
compile for erase(iterator) of multi-key tables, nor for erase<I>(key) of
tables with three or more keys.
---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 89eec1d..6cd9b18 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -728,7 +728,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -747,7 +747,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From bf6012858cff279534edcb32272654357a8e612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 03/50] fix: accept any is_transparent member type

std::equal_to<> declares is_transparent as an incomplete type, which cannot
be used as a base class.
---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..8230861 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -190,7 +190,7 @@ namespace tpp::_detail
 	template<typename, typename = void>
 	struct is_transparent : std::false_type {};
 	template<typename T>
-	struct is_transparent<T, std::void_t<typename T::is_transparent>> : T::is_transparent {};
+	struct is_transparent<T, std::void_t<typename T::is_transparent>> : std::true_type {};
 
 	template<typename T>
 	struct has_key_size
-- 
2.43.0


From 9a41c580eb6735a885a7367247b948dceb1ad0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 04/50] fix: make bucket iterators of dense tables usable

Local iterators and bucket_size could not be instantiated, and end(n) never
compared equal to the end of a chain.
---
 tpp/detail/dense_table.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6cd9b18..2e5e389 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -141,23 +141,24 @@ namespace tpp::_detail
 				constexpr pointer(pointer &&) noexcept = default;
 				constexpr pointer &operator=(pointer &&) noexcept = default;
 
-				[[nodiscard]] reference operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
+				[[nodiscard]] value_pointer operator->() const noexcept { return m_ptr[0]; }
+				[[nodiscard]] reference operator*() const noexcept { return get(std::make_index_sequence<key_size>{}); }
 
 			private:
 				template<std::size_t J, std::size_t... Js>
 				[[nodiscard]] reference get(std::index_sequence<J, Js...>) const noexcept
 				{
 					if constexpr (sizeof...(Js) != 0)
-						return reference{*m_ptr[Js]...};
+						return reference{*m_ptr[J], *m_ptr[Js]...};
 					else
-						return reference{*m_ptr[J]};
+						return *m_ptr[J];
 				}
 
 				std::array<value_pointer, key_size> m_ptr = {};
 			};
 
-			using size_type = typename bucket_node::size_type;
-			using difference_type = typename bucket_node::difference_type;
+			using size_type = typename traits_t::size_type;
+			using difference_type = typename traits_t::difference_type;
 			using iterator_category = std::forward_iterator_tag;
 
 		public:
@@ -179,7 +180,7 @@ namespace tpp::_detail
 				return *this;
 			}
 
-			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&node()->value()}; }
+			[[nodiscard]] constexpr pointer operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
 			[[nodiscard]] reference operator*() const noexcept { return *operator->(); }
 
 			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_base == other.m_base && m_pos == other.m_pos; }
@@ -188,13 +189,13 @@ namespace tpp::_detail
 #endif
 
 		private:
-			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos; }
-
 			template<std::size_t... Is>
-			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = node()->next[Is]), ...); }
+			[[nodiscard]] constexpr pointer get(std::index_sequence<Is...>) const noexcept { return pointer{{value_pointer{&m_base[m_pos[Is]].value()}...}}; }
+			template<std::size_t... Is>
+			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = m_pos[Is] != npos ? m_base[m_pos[Is]].next[Is] : npos), ...); }
 
 			node_ptr m_base = {};
-			bucket_pos m_pos = 0;
+			bucket_pos m_pos = {};
 		};
 
 	public:
@@ -337,8 +338,8 @@ namespace tpp::_detail
 
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
 		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
-		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{}; }
-		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{}; }
+		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{m_dense, make_array<key_size>(npos)}; }
+		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{m_dense, make_array<key_size>(npos)}; }
 
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_sparse_size; }
 		[[nodiscard]] constexpr size_type max_bucket_count() const noexcept { return npos - 1; }
-- 
2.43.0


From 495c895a4907dba445be11e2402710c290c43c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 05/50] fix: build SwissHash tables without SIMD

The portable count_available was defined twice, and passed zero to ctz when
every entry of the block was available.
---
 tpp/detail/swiss_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index dc94153..283d960 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -322,12 +322,8 @@ namespace tpp::_detail
 	std::size_t meta_block::count_available() const noexcept
 	{
 		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		const auto mask = (value | ~(value >> 7)) & lsb_mask;
+		return mask ? ctz(mask) >> 3 : sizeof(meta_block);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
-- 
2.43.0


From fd1b8cb01154f74df1f2637b9e27f27110d32341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 06/50] fix: make the free swap functions of containers
 callable

---
 tpp/dense_map.hpp           | 4 ++--
 tpp/dense_multimap.hpp      | 2 +-
 tpp/dense_multiset.hpp      | 2 +-
 tpp/dense_set.hpp           | 4 ++--
 tpp/detail/table_common.hpp | 2 +-
 tpp/sparse_map.hpp          | 4 ++--
 tpp/sparse_set.hpp          | 4 ++--
 tpp/stable_map.hpp          | 4 ++--
 tpp/stable_set.hpp          | 4 ++--
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..16e2510 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..795d03d 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..8bb8ff2 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..37a216d 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 8230861..0e24d09 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -365,7 +365,7 @@ namespace tpp::_detail
 				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..bd2968d 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..8842d46 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From 7558334009635d928217d2ff1ae8bf82e0cd3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 07/50] fix: make hinted try_emplace of dense maps compile

---
 tpp/dense_map.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 16e2510..d384316 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-- 
2.43.0


From b0e76f09ffa2003e7d59e804e5ba291234c3de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 08/50] fix: do not deallocate SwissHash buffers that were
 never allocated

---
 tpp/detail/swiss_table.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 283d960..d32836b 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -473,12 +473,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (capacity != 0) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (capacity != 0) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
@@ -489,12 +489,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (capacity != 0) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (capacity != 0) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
@@ -537,7 +537,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
+			if (n != 0)
 			{
 				relocate(tmp_metadata, tmp_nodes, n);
 				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
@@ -567,6 +567,7 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
@@ -641,7 +642,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (capacity != 0) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -652,7 +653,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (capacity != 0) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -684,8 +685,11 @@ namespace tpp::_detail
 			std::swap(tmp_data, m_data);
 			std::swap(n, capacity);
 
-			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (n != 0)
+			{
+				relocate(old_meta, old_nodes, n);
+				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			}
 		}
 
 		void allocate(size_type n)
@@ -704,6 +708,7 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
-- 
2.43.0


From aba48d9d08c6f763ac8fdfed1c78ccae2b728cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 09/50] fix: keep SwissHash buffers consistent when one of
 their allocations fails

---
 tpp/detail/swiss_table.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d32836b..70db775 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -547,22 +547,26 @@ namespace tpp::_detail
 
 		void allocate(size_type n)
 		{
-			m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-			m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			const auto tmp_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
+			try
+			{
+				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			}
+			catch (...)
+			{
+				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
+				throw;
+			}
+			m_metadata = tmp_metadata;
 			capacity = n;
 		}
 		void reallocate(size_type n)
 		{
 			if (capacity < n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
-				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
-				capacity = n;
+				/* Do not keep pointers to the old buffers in case one of the allocations fails. */
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
@@ -701,9 +705,9 @@ namespace tpp::_detail
 		{
 			if (capacity < n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
-				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-				capacity = n;
+				/* Do not keep a pointer to the old buffer in case the allocation fails. */
+				deallocate();
+				allocate(n);
 			}
 		}
 		void deallocate()
-- 
2.43.0


From 2df163ced00b96a92102d1a6d632867931635c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 10/50] fix: swap propagating allocators together with the
 SwissHash buffers

---
 tpp/detail/swiss_table.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 70db775..fbf9700 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -584,7 +584,7 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()) && allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(can_swap(other) || std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value, "Swapped allocators must be equal");
 
 			using std::swap;
 			swap(capacity, other.capacity);
@@ -593,6 +593,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
@@ -723,7 +724,7 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(can_swap(other) || std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value, "Swapped allocators must be equal");
 
 			using std::swap;
 			swap(capacity, other.capacity);
@@ -731,6 +732,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
 			swap_data(other);
@@ -1146,7 +1148,9 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
-- 
2.43.0


From 00235f6acecb7cecc15eea350d597bcef8a682a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 11/50] fix: relink neighbors when swapping ordered links

---
 tpp/detail/table_common.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 0e24d09..06ddba9 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,14 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
-		}
+			/* Offsets are relative to the link, and the links may be empty or adjacent, in which case they refer to the swapped links themselves. */
+			const auto swapped = [&](ordered_link *ptr) { return ptr == this ? &other : ptr == &other ? this : ptr; };
+			auto a_next = swapped(off(next)), b_next = swapped(other.off(other.next));
+			auto a_prev = swapped(off(prev)), b_prev = swapped(other.off(other.prev));
+			link(b_next, b_prev);
+			other.link(a_next, a_prev);
+		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From 3bc8e272b27477884f460b5746c3b712ece4ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 12/50] fix: accept any initial capacity of SwissHash tables

---
 tpp/detail/swiss_table.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index fbf9700..b83d681 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -829,9 +829,9 @@ namespace tpp::_detail
 		[[nodiscard]] static constexpr size_type size_to_min_capacity(size_type n) noexcept
 		{
 			if constexpr (sizeof(meta_block) == 8)
-				return n == 7 ? 8 : n + static_cast<size_type>((static_cast<std::int64_t>(n) - 1) / 7);
+				return n == 7 ? 8 : n + (n ? (n - 1) / 7 : 0);
 			else
-				return n + static_cast<size_type>((static_cast<std::int64_t>(n) - 1) / 7);
+				return n + (n ? (n - 1) / 7 : 0);
 		}
 		/* Aligns capacity to next power of 2 - 1. */
 		[[nodiscard]] static constexpr size_type align_capacity(size_type n) noexcept
@@ -843,10 +843,10 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			/* Capacity must be a power of 2 - 1. */
+			if (n != 0) do_rehash(align_capacity(n | size_to_min_capacity(n)));
 		}
 
 		template<typename Iter>
-- 
2.43.0


From 5c9c23f5585fac75d23fe93aa35991c03190cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 13/50] fix: keep SwissHash tables valid when copying them
 fails

---
 tpp/detail/swiss_table.hpp | 62 +++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index b83d681..07c335c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -852,8 +852,8 @@ namespace tpp::_detail
 		template<typename Iter>
 		swiss_table(Iter first, Iter last, size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : swiss_table(distance_or_n(first, last, n), hash, cmp, alloc) { insert(first, last); }
 
-		swiss_table(const swiss_table &other) : hash_base(other), cmp_base(other), link_base(), m_buffer(other.m_buffer) { copy_data(other); }
-		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { copy_data(other); }
+		swiss_table(const swiss_table &other) : swiss_table(0, other.get_hash(), other.get_cmp(), allocator_type(allocator_copy(other.get_allocator()))) { copy_data(other); }
+		swiss_table(const swiss_table &other, const allocator_type &alloc) : swiss_table(0, other.get_hash(), other.get_cmp(), alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
@@ -864,11 +864,10 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
-				erase_nodes();
 				m_buffer = other.m_buffer;
 				copy_data(other);
 			}
@@ -1453,43 +1452,38 @@ namespace tpp::_detail
 			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
 		}
 
+		void prepare_buffer(const swiss_table &other)
+		{
+			/* (re)allocate the metadata & node buffers if needed. Existing buffers may still contain deleted entries. */
+			m_num_empty = 0;
+			if (other.m_size != 0) m_buffer.reallocate(other.m_buffer.capacity);
+			if (m_buffer.capacity != 0)
+			{
+				m_buffer.fill_empty();
+				m_num_empty = capacity_to_max_size(m_buffer.capacity);
+			}
+		}
 		void copy_data(const swiss_table &other)
 		{
 			/* Expect that there is no data in the buffers, but the buffers might still exist. */
 			TPP_ASSERT(m_size == 0, "Table must be empty prior to copying elements");
 
-			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
-
-			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			prepare_buffer(other);
 
-			/* Copy elements from the other table. */
+			/* Copy elements from the other table, every copied element is immediately accounted for in case one of the copies fails. */
 			auto alloc = value_allocator{get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					nodes[i].construct(alloc, other_nodes[i]);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
-
-			/* If the node link is ordered, update header offsets to point to the copied data. */
-			if constexpr (is_ordered::value)
-				if (m_size != 0)
-				{
-					const auto front_off = other.front_node() - other_nodes;
-					const auto back_off = other.back_node() - other_nodes;
-					header_link()->link(nodes + front_off, nodes + back_off);
-				}
+			auto *nodes = m_buffer.nodes();
+			for (auto pos = other.begin(), last = other.end(); pos != last; ++pos)
+			{
+				const bucket_node &src_node = *to_underlying(pos);
+				const auto target_pos = find_available(src_node.hash());
+
+				nodes[target_pos].construct(alloc, src_node);
+				insert_link({}, nodes + target_pos);
+				set_metadata(target_pos, decompose_hash(src_node.hash()).second);
+				--m_num_empty;
+				++m_size;
+			}
 		}
 		void move_data(swiss_table &other)
 		{
-- 
2.43.0


From ad5c224c28f3c9d503b860cc26bebd75c2ca9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 14/50] fix: move SwissHash tables between different allocators

---
 tpp/detail/swiss_table.hpp | 53 +++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 07c335c..92cb647 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -856,9 +856,9 @@ namespace tpp::_detail
 		swiss_table(const swiss_table &other, const allocator_type &alloc) : swiss_table(0, other.get_hash(), other.get_cmp(), alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(std::move(other.m_buffer)) { move_from(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(alloc) { move_from(other); }
 
 		swiss_table &operator=(const swiss_table &other)
 		{
@@ -873,16 +873,16 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		swiss_table &operator=(swiss_table &&other) noexcept(std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		swiss_table &operator=(swiss_table &&other) noexcept((std::allocator_traits<allocator_type>::is_always_equal::value || std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) && std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
-				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
+				if (m_buffer.capacity == 0) m_num_empty = 0;
 				move_from(other);
 			}
 			return *this;
@@ -1490,34 +1490,26 @@ namespace tpp::_detail
 			/* Expect that there is no data in the buffers, but the buffers might still exist. */
 			TPP_ASSERT(size() == 0, "Table must be empty prior to moving elements");
 
-			/* Ignore empty tables. */
-			TPP_IF_UNLIKELY(other.m_size == 0)
-			{
-				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
-				return;
-			}
+			prepare_buffer(other);
 
-			/* (re)allocate the metadata & node buffers if needed. */
-			m_buffer.reallocate(other.m_buffer.capacity);
-			m_buffer.fill_empty();
+			/* Move elements from the other table. Values are constructed using own allocator, since nodes can not be transferred between different allocators. */
+			auto alloc = value_allocator{get_allocator()};
+			auto *nodes = m_buffer.nodes();
+			for (auto pos = other.begin(); pos != other.end(); pos = other.erase(pos))
+			{
+				bucket_node &src_node = *to_underlying(pos);
+				const auto target_pos = find_available(src_node.hash());
 
-			/* Move elements from the other table. */
-			auto alloc = value_allocator{get_allocator()}, other_alloc = value_allocator{other.get_allocator()};
-			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
-			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+				nodes[target_pos].construct(alloc, std::move(src_node.value()));
+				nodes[target_pos].hash() = src_node.hash();
+				insert_link({}, nodes + target_pos);
+				set_metadata(target_pos, decompose_hash(src_node.hash()).second);
+				--m_num_empty;
+				++m_size;
+			}
 
 			/* Reset the other table. */
-			other.m_size = 0;
+			if (other.m_buffer.capacity == 0) return;
 			other.m_num_empty = capacity_to_max_size(other.m_buffer.capacity);
 			other.m_buffer.fill_empty();
 		}
@@ -1539,7 +1531,10 @@ namespace tpp::_detail
 		void move_from(swiss_table &other)
 		{
 			if (m_buffer.can_swap(other.m_buffer))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From 8b51cdffe178bb93d693d8b4b345b3dff5d3abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 15/50] fix: never rehash SwissHash tables below the amount of
 elements

---
 tpp/detail/swiss_table.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 92cb647..d571329 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -933,7 +933,7 @@ namespace tpp::_detail
 				m_num_empty = capacity_to_max_size(m_buffer.capacity);
 			}
 		}
-		void reserve(size_type n) { if (n > m_size + m_num_empty) do_rehash(align_capacity(size_to_min_capacity(n))); }
+		void reserve(size_type n) { if (n > m_size + m_num_empty) do_rehash(align_capacity(n | size_to_min_capacity(n))); }
 
 		template<typename T>
 		[[nodiscard]] bool contains(const T &key) const { return find_node(key, hash(key)) != m_buffer.capacity; }
@@ -1131,7 +1131,7 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			const auto new_cap = align_capacity(n | size_to_min_capacity(std::max(n, m_size)));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
@@ -1382,6 +1382,7 @@ namespace tpp::_detail
 
 		void do_rehash(size_type capacity)
 		{
+			if (capacity > max_bucket_count()) throw std::length_error("Capacity exceeds the maximum bucket count");
 			m_buffer.resize(capacity, [&](auto src_meta, auto src_nodes, size_type src_cap)
 			{
 				/* Relocate occupied entries from the old buffers to the new buffers. */
-- 
2.43.0


From 676c55d1a3d8e2640a218e435cf59c0405032d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 16/50] fix: merge every element of ordered stable tables and
 propagate exceptions

---
 tpp/detail/swiss_table.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d571329..bd9b637 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1104,17 +1104,14 @@ namespace tpp::_detail
 			reserve(m_size + other.size());
 
 			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
-			const auto transfer = [&](const const_iterator &pos) noexcept
+			/* Advance the iterator prior to the transfer, since it is invalidated by extraction of the node. */
+			const auto transfer = [&](const const_iterator &pos)
 			{
 				const auto &key = ValueTraits::get_key(*pos);
 				const auto h = hash(key);
 				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
 			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-- 
2.43.0


From 2d8e9bb62bef91041511b6d40db0268bbf41206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 17/50] fix: destroy temporary nodes of SwissHash tables when
 emplace fails

---
 tpp/detail/swiss_table.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index bd9b637..9f22f37 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -812,6 +812,15 @@ namespace tpp::_detail
 		using hash_base = empty_base<hasher>;
 		using cmp_base = empty_base<key_equal>;
 
+		/* Destroys a temporary node on scope exit. */
+		struct node_guard
+		{
+			~node_guard() { node.destroy(alloc); }
+
+			value_allocator &alloc;
+			bucket_node &node;
+		};
+
 		[[nodiscard]] static constexpr std::pair<std::size_t, meta_byte> decompose_hash(std::size_t h) noexcept
 		{
 			return {h >> 7, {meta_byte(std::int8_t(h) & 0x7f)}};
@@ -1326,10 +1335,8 @@ namespace tpp::_detail
 			auto tmp = bucket_node{};
 
 			tmp.construct(alloc, std::forward<Args>(args)...);
-			auto result = do_insert(hint, tmp.key(), std::move(tmp));
-			tmp.destroy(alloc);
-
-			return result;
+			const auto guard = node_guard{alloc, tmp};
+			return do_insert(hint, tmp.key(), std::move(tmp));
 		}
 		template<typename T, typename... Args>
 		std::pair<iterator, bool> do_try_emplace(node_iterator hint, T &&key, Args &&...args)
-- 
2.43.0


From 071f8385742e02b1b40fbed5a55db3ed44efabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 18/50] fix: do not leak or double free values of stable nodes

---
 tpp/detail/table_common.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 06ddba9..700419d 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -379,6 +379,7 @@ namespace tpp::_detail
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
 					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					m_ptr = value_ptr{};
 				}
 			}
 
@@ -443,8 +444,17 @@ namespace tpp::_detail
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
 		{
-			m_ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
+			try
+			{
+				std::allocator_traits<allocator_type>::construct(alloc, to_address(ptr), std::forward<Args>(args)...);
+			}
+			catch (...)
+			{
+				std::allocator_traits<allocator_type>::deallocate(alloc, ptr, 1);
+				throw;
+			}
+			m_ptr = ptr;
 		}
 		template<typename... Args>
 		void replace(Args &&...args)
-- 
2.43.0


From 0b813a1f38e350e7e61fdfd5ce9f0e1f9214fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 19/50] fix: keep the old mapped object when its replacement
 fails or refers to it

---
 tpp/detail/table_common.hpp | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 700419d..809900c 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -200,6 +200,30 @@ namespace tpp::_detail
 
 		static constexpr bool value = std::is_same_v<decltype(test_key_size<T>(nullptr)), std::true_type>;
 	};
+	/* Helper used to replace mapped object of a node. The old object is preserved until the new one is available, since the construction
+	 * may fail, or arguments may refer to the old object. */
+	template<typename T, typename... Args>
+	inline void replace_mapped(T &target, Args &&...args)
+	{
+		static_assert(std::is_constructible_v<T, Args...>);
+		if constexpr (!std::is_move_constructible_v<T>)
+		{
+			target.~T();
+			new(&target) T(std::forward<Args>(args)...);
+		}
+		else
+		{
+			auto tmp = T(std::forward<Args>(args)...);
+			if constexpr (std::is_nothrow_move_constructible_v<T> || !std::is_move_assignable_v<T>)
+			{
+				target.~T();
+				new(&target) T(std::move(tmp));
+			}
+			else
+				target = std::move(tmp);
+		}
+	}
+
 	template<typename T, bool = has_key_size<T>::value>
 	struct node_hash { using type = std::array<std::size_t, T::key_size>; };
 	template<typename T>
@@ -245,14 +269,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		void replace(Args &&...args)
 		{
-			auto &target = mapped();
-			using mapped_t = std::remove_reference_t<decltype(target)>;
-
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			replace_mapped(mapped(), std::forward<Args>(args)...);
 		}
 		void destroy(A &alloc) { std::allocator_traits<allocator_type>::destroy(alloc, &value()); }
 
@@ -459,14 +476,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		void replace(Args &&...args)
 		{
-			auto &target = mapped();
-			using mapped_t = std::remove_reference_t<decltype(target)>;
-
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+			replace_mapped(mapped(), std::forward<Args>(args)...);
 		}
 		void destroy(A &alloc)
 		{
-- 
2.43.0


From 2fc9c68e6bed1318dfc1a46c6e8bdb28ec72af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 20/50] fix: do not use a dangling hint after a rehash of
 ordered SwissHash tables

---
 tpp/detail/swiss_table.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9f22f37..8e2dbcd 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1274,6 +1274,12 @@ namespace tpp::_detail
 				node->link(prev);
 			}
 		}
+		/* Updates the hint if it points to a relocated node. */
+		static void relocate_hint([[maybe_unused]] node_iterator &hint, [[maybe_unused]] bucket_node *from, [[maybe_unused]] bucket_node *to) noexcept
+		{
+			if constexpr (is_ordered::value)
+				if (hint.link == from) hint.link = to;
+		}
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
@@ -1292,9 +1298,9 @@ namespace tpp::_detail
 					 *
 					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
 					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
-						rehash_deleted();
+						rehash_deleted(hint);
 					else
-						do_rehash((m_buffer.capacity + 1) * 2 - 1);
+						do_rehash((m_buffer.capacity + 1) * 2 - 1, hint);
 					target_pos = find_available(h);
 				}
 			}
@@ -1385,6 +1391,11 @@ namespace tpp::_detail
 		}
 
 		void do_rehash(size_type capacity)
+		{
+			auto hint = node_iterator{};
+			do_rehash(capacity, hint);
+		}
+		void do_rehash(size_type capacity, node_iterator &hint)
 		{
 			if (capacity > max_bucket_count()) throw std::length_error("Capacity exceeds the maximum bucket count");
 			m_buffer.resize(capacity, [&](auto src_meta, auto src_nodes, size_type src_cap)
@@ -1398,12 +1409,13 @@ namespace tpp::_detail
 						const auto h = node->hash();
 						const auto target_pos = find_available(h);
 						m_buffer.nodes()[target_pos].relocate(alloc, alloc, *node);
+						relocate_hint(hint, node, m_buffer.nodes() + target_pos);
 						set_metadata(target_pos, decompose_hash(h).second);
 					}
 			});
 			m_num_empty = capacity_to_max_size(capacity) - m_size;
 		}
-		void rehash_deleted()
+		void rehash_deleted(node_iterator &hint)
 		{
 			auto *metadata = m_buffer.meta(), *tail = m_buffer.meta() + m_buffer.capacity + 1;
 			auto *nodes = m_buffer.nodes();
@@ -1441,6 +1453,7 @@ namespace tpp::_detail
 					{
 						auto alloc = value_allocator{get_allocator()};
 						nodes[target_pos].relocate(alloc, alloc, *node);
+						relocate_hint(hint, node, nodes + target_pos);
 						set_metadata(i, meta_byte::empty);
 						set_metadata(target_pos, h2);
 					}
@@ -1448,6 +1461,9 @@ namespace tpp::_detail
 					{
 						using std::swap;
 						swap(*node, nodes[target_pos]);
+						const auto old_hint = hint;
+						relocate_hint(hint, node, nodes + target_pos);
+						if (hint == old_hint) relocate_hint(hint, nodes + target_pos, node);
 						set_metadata(target_pos, h2);
 						goto process_node; /* Process the swapped-with node. */
 					}
-- 
2.43.0


From b9d1763377fe3bf761885f6e8aff13702e2f90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 21/50] fix: construct elements of packed SwissHash tables
 before relocating their arguments

---
 tpp/detail/swiss_table.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 8e2dbcd..9b24ebc 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1283,6 +1283,18 @@ namespace tpp::_detail
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
+			/* Arguments may refer to elements of the table. Since packed elements are moved by a rehash, the new one must be constructed beforehand. */
+			if constexpr (!is_extractable<bucket_node>::value && !std::conjunction_v<std::is_same<std::decay_t<Args>, bucket_node>...>)
+				TPP_IF_UNLIKELY(!m_num_empty)
+				{
+					auto tmp_alloc = value_allocator{get_allocator()};
+					auto tmp = bucket_node{};
+
+					tmp.construct(tmp_alloc, std::forward<Args>(args)...);
+					const auto guard = node_guard{tmp_alloc, tmp};
+					return emplace_node(hint, h, std::move(tmp));
+				}
+
 			size_type target_pos;
 			TPP_IF_UNLIKELY(m_buffer.capacity == 0)
 			{
-- 
2.43.0


From dddb8a1d5f7d771701941aa07f2d7f2a94987b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 22/50] fix: ignore empty nodes on insertion

---
 tpp/detail/swiss_table.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9b24ebc..8b6f89a 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -977,6 +977,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(N &&node) -> typename stable_node<V, Alloc, ValueTraits>::template insert_return<iterator, N>
 		{
+			if (node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -986,6 +988,8 @@ namespace tpp::_detail
 		template<typename N>
 		auto insert_node(const_iterator hint, N &&node) -> iterator
 		{
+			if (node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
@@ -1009,6 +1013,8 @@ namespace tpp::_detail
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
 		{
+			if (node.empty()) return {end(), false};
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return {emplace_node({}, h, std::forward<N>(node)), true};
@@ -1024,6 +1030,8 @@ namespace tpp::_detail
 		template<typename N>
 		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
+			if (node.empty()) return end();
+
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
 				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
-- 
2.43.0


From 39ce81074c07778cea637e1f43058cf09bcbc888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 23/50] fix: do not implicitly convert node handles to
 allocators

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 809900c..9192316 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -363,7 +363,7 @@ namespace tpp::_detail
 			~extracted_type() { do_destroy(); }
 
 			[[nodiscard]] constexpr bool empty() const noexcept { return !m_ptr; }
-			[[nodiscard]] constexpr operator bool() const noexcept { return m_ptr; }
+			[[nodiscard]] constexpr explicit operator bool() const noexcept { return !empty(); }
 
 			[[nodiscard]] A get_allocator() const { return A{alloc()}; }
 
-- 
2.43.0


From f4ee51f60eeac564cfeb7d8956405a16c872d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 24/50] fix: do not leak elements when a move to a different
 allocator fails

---
 tpp/detail/swiss_table.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 8b6f89a..a2d2237 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -867,7 +867,19 @@ namespace tpp::_detail
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(std::move(other.m_buffer)) { move_from(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_buffer(alloc)
+		{
+			try
+			{
+				move_from(other);
+			}
+			catch (...)
+			{
+				erase_nodes();
+				m_buffer.deallocate();
+				throw;
+			}
+		}
 
 		swiss_table &operator=(const swiss_table &other)
 		{
-- 
2.43.0


From 882d2381d79434f9100d1f0b6f0b649e44359c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 25/50] fix: let node handles take the allocator of the node
 they receive

---
 tpp/detail/table_common.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 9192316..0f7aee2 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -349,13 +349,9 @@ namespace tpp::_detail
 			{
 				if (this != &other)
 				{
-					do_destroy();
-
-					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
-						alloc_base::operator=(std::move(other));
-
-					m_ptr = std::exchange(other.m_ptr, value_ptr{});
-					assert_alloc(other);
+					/* Node must always be destroyed using the allocator it was created by, and an empty handle adopts any allocator. */
+					this->~extracted_type();
+					new(this) extracted_type(std::move(other));
 				}
 				return *this;
 			}
@@ -373,12 +369,10 @@ namespace tpp::_detail
 
 			void swap(extracted_type &other) noexcept(std::is_nothrow_swappable_v<A>)
 			{
-				using std::swap;
-				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
-					swap(alloc(), other.alloc());
-
-				assert_alloc(other);
-				swap(m_ptr, other.m_ptr);
+				/* Allocators are always exchanged together with the nodes. */
+				extracted_type tmp(std::move(other));
+				other = std::move(*this);
+				*this = std::move(tmp);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
-- 
2.43.0


From 7bbb0ddc8ced8171b1bb7059d54f487013201557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 26/50] fix: keep buckets of dense tables when their
 reallocation fails

---
 tpp/detail/utility.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..610e29b 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -234,8 +234,11 @@ namespace tpp::_detail
 	{
 		if (buff.second < new_size)
 		{
+			/* Keep the old buffer in case the allocation fails. */
+			const auto new_ptr = std::allocator_traits<A>::allocate(alloc, new_size);
 			if (buff.first) std::allocator_traits<A>::deallocate(alloc, buff.first, buff.second);
-			buff.first = std::allocator_traits<A>::allocate(alloc, buff.second = new_size);
+			buff.first = new_ptr;
+			buff.second = new_size;
 		}
 		return buff;
 	}
-- 
2.43.0


From c903265117dc21eac4bb41beea7c48f8c0c585d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 27/50] fix: keep dense tables valid when copying them fails

---
 tpp/detail/dense_table.hpp | 53 +++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 2e5e389..a74cb4a 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -215,12 +215,14 @@ namespace tpp::_detail
 		dense_table() {}
 
 		dense_table(const allocator_type &alloc) : sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}) {}
-		dense_table(size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(hash), cmp_base(cmp)
+		dense_table(size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(hash, cmp, alloc)
 		{
 			TPP_IF_LIKELY(bucket_count != 0)
 			{
-				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), m_dense_capacity = bucket_count);
-				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
+				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), bucket_count);
+				m_dense_capacity = bucket_count;
+				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), bucket_count);
+				m_sparse_size = bucket_count;
 				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 			}
 		}
@@ -228,12 +230,10 @@ namespace tpp::_detail
 		template<typename Iter>
 		dense_table(Iter first, Iter last, size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(distance_or_n(first, last, bucket_count), hash, cmp, alloc) { insert(first, last); }
 
-		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
-		{
-			copy_data(other);
-		}
-		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other) : dense_table(other, allocator_type{allocator_copy(other.dense_alloc())}) {}
+		dense_table(const dense_table &other, const allocator_type &alloc) : dense_table(other.get_hash(), other.get_cmp(), alloc)
 		{
+			m_max_load_factor = other.m_max_load_factor;
 			copy_data(other);
 		}
 
@@ -252,21 +252,20 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(other);
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(other);
 				}
 
@@ -287,12 +286,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(std::move(other));
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(std::move(other));
 				}
 
@@ -479,6 +478,9 @@ namespace tpp::_detail
 		}
 
 	private:
+		/* Constructors that may fail delegate to this one, in order to let the destructor clean up. */
+		dense_table(const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(hash), cmp_base(cmp) {}
+
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
 
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
@@ -836,17 +838,26 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Copy & insert elements from the other table. */
 			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			try
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.construct(alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.construct(alloc, from);
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
+			{
+				/* Ordered links of the copied elements are not valid yet. */
+				clear();
+				throw;
 			}
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
@@ -873,8 +884,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Move & insert elements from the other table. */
 			auto alloc = allocator_type{dense_alloc()};
-- 
2.43.0


From c090ca38d0869b4c9aca9c159fd207e710a01c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 28/50] fix: move dense tables between different allocators

---
 tpp/detail/dense_table.hpp | 78 +++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index a74cb4a..b32f3a1 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -238,14 +238,22 @@ namespace tpp::_detail
 		}
 
 		dense_table(dense_table &&other) noexcept(std::is_nothrow_move_constructible_v<sparse_allocator> && std::is_nothrow_move_constructible_v<dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
-		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(), m_max_load_factor(other.m_max_load_factor)
 		{
-			move_from(other);
+			try
+			{
+				move_from(other);
+			}
+			catch (...)
+			{
+				deallocate_data();
+				throw;
+			}
 		}
 
 		dense_table &operator=(const dense_table &other)
@@ -273,16 +281,15 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		dense_table &operator=(dense_table &&other) noexcept(std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		dense_table &operator=(dense_table &&other) noexcept((std::allocator_traits<allocator_type>::is_always_equal::value || std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) && std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
@@ -304,8 +311,7 @@ namespace tpp::_detail
 		~dense_table()
 		{
 			clear_data();
-			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
-			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
+			deallocate_data();
 		}
 
 		template<typename Iter>
@@ -823,6 +829,17 @@ namespace tpp::_detail
 			}
 		}
 
+		void link_header(const dense_table &other) noexcept
+		{
+			/* If the node link is ordered, update header offsets to point to the copied data. */
+			if constexpr (is_ordered::value)
+				if (m_dense_size != 0)
+				{
+					const auto front_off = other.front_node() - other.m_dense;
+					const auto back_off = other.back_node() - other.m_dense;
+					header_link()->link(to_address(m_dense + front_off), to_address(m_dense + back_off));
+				}
+		}
 		template<std::size_t... Is>
 		void copy_data(std::index_sequence<Is...>, const dense_table &other)
 		{
@@ -860,14 +877,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			/* If the node link is ordered, update header offsets to point to the copied data. */
-			if constexpr (is_ordered::value)
-				if (m_dense_size != 0)
-				{
-					const auto front_off = other.front_node() - other.m_dense;
-					const auto back_off = other.back_node() - other.m_dense;
-					header_link()->link(to_address(m_dense + front_off), to_address(m_dense + back_off));
-				}
+			link_header(other);
 		}
 		template<std::size_t... Is>
 		void move_data(std::index_sequence<Is...>, dense_table &other)
@@ -889,14 +899,27 @@ namespace tpp::_detail
 
 			/* Move & insert elements from the other table. */
 			auto alloc = allocator_type{dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			try
+			{
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.construct(alloc, std::move(from.value()));
+					static_cast<bucket_link &>(to) = static_cast<const bucket_link &>(from);
+					to.hash() = from.hash();
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				/* Ordered links of the moved elements are not valid yet. */
+				clear();
+				throw;
 			}
-			other.m_dense_size = 0;
+
+			link_header(other);
+			other.clear();
 		}
 
 		void copy_data(const dense_table &other) { copy_data(std::make_index_sequence<key_size>{}, other); }
@@ -916,10 +939,19 @@ namespace tpp::_detail
 			for (size_type i = 0, n = std::exchange(m_dense_size, 0); i < n; ++i) m_dense[i].destroy(alloc);
 		}
 
+		void deallocate_data()
+		{
+			if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
+			if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
+		}
+
 		void move_from(dense_table &other)
 		{
 			if (allocator_eq(sparse_alloc(), other.sparse_alloc()) && allocator_eq(dense_alloc(), other.dense_alloc()))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From c3bbb580679380153f09cffb90a66a94cb383cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 29/50] fix: allow swapping dense tables with different
 propagating allocators

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b32f3a1..84f324f 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -476,8 +476,8 @@ namespace tpp::_detail
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
 
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value || allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<dense_allocator>::propagate_on_container_swap::value || allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
-- 
2.43.0


From f5d1ff47e7f553268ae5ebb2b872174ee153a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 30/50] fix: erase by key from a dense table without buckets

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 84f324f..ef9134a 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -748,7 +748,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
-- 
2.43.0


From 39ae28740bed4cfd457f6bfa9cba509b56f7a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 31/50] fix: return correct position from erase of dense tables

---
 tpp/detail/dense_table.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index ef9134a..1eb042e 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -440,8 +440,15 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
+			iterator result = iterator{to_underlying(last)};
+			if constexpr (is_ordered::value)
+			{
+				/* Erased entries are replaced with the last one, which may be a part of the range or its end. */
+				if (auto n = std::distance(first, last); n != 0)
+					for (result = erase(first); --n != 0;) result = erase(result);
+			}
+			else
+				while (last != first) result = erase(--last);
 			return result;
 		}
 
@@ -620,6 +627,9 @@ namespace tpp::_detail
 			{
 				(move_chain<Is>(end_pos, pos), ...);
 				node->move_from(m_dense[end_pos]);
+
+				/* The next node may be the one that was moved. */
+				if (is_ordered::value && next == to_address(m_dense + end_pos)) next = node;
 			}
 
 			pop_node();
-- 
2.43.0


From d7fe610428f3145140a026352e1c2c17d6cbd043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 32/50] fix: stop erase_if of dense containers at the current
 end

---
 tpp/dense_map.hpp      | 3 ++-
 tpp/dense_multimap.hpp | 3 ++-
 tpp/dense_multiset.hpp | 3 ++-
 tpp/dense_set.hpp      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index d384316..b02aec0 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,8 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		/* End iterator changes every time an element is erased. */
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 795d03d..ef29fef 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,8 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		/* End iterator changes every time an element is erased. */
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index 8bb8ff2..2698df6 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,8 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		/* End iterator changes every time an element is erased. */
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index 37a216d..e2922c6 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,8 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		/* End iterator changes every time an element is erased. */
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
-- 
2.43.0


From fbcf81224eb58e59c15b23875a14eae3bb81a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 33/50] fix: do not use a dangling hint after a resize of
 ordered dense tables

---
 tpp/detail/dense_table.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 1eb042e..a011f46 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -822,20 +822,17 @@ namespace tpp::_detail
 		{
 			if (m_dense_capacity == m_dense_size)
 			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
-
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
+				/* Only ordered tables make use of the hint. Make sure it follows the node it points to. */
+				const auto new_capacity = m_dense_capacity ? m_dense_capacity * 2 : 1;
 				if constexpr (is_ordered::value)
-				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
-				}
-				else
-				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
-				}
+					if (hint.link && hint.link != header_link())
+					{
+						const auto pos = static_cast<const bucket_node *>(hint.link) - to_address(m_dense);
+						resize_data(new_capacity);
+						hint.link = to_address(m_dense + pos);
+						return;
+					}
+				resize_data(new_capacity);
 			}
 		}
 
-- 
2.43.0


From ed334372c8d682b6bb778d6b2162c46b752a8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 34/50] fix: leave dense tables unchanged when an insertion
 fails or its arguments refer to their elements

---
 tpp/detail/dense_table.hpp | 70 +++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index a011f46..df45fad 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -106,6 +106,15 @@ namespace tpp::_detail
 		using bucket_pos = typename traits_t::bucket_pos;
 		using chain_slice = std::array<size_type *, key_size>;
 
+		/* Destroys a temporary node on scope exit. */
+		struct node_guard
+		{
+			~node_guard() { node.destroy(alloc); }
+
+			allocator_type &alloc;
+			bucket_node &node;
+		};
+
 		using hash_base = empty_base<hasher>;
 		using cmp_base = empty_base<key_equal>;
 		using sparse_alloc_base = empty_base<sparse_allocator>;
@@ -565,9 +574,10 @@ namespace tpp::_detail
 		template<typename... Args>
 		auto push_node(Args &&...args) -> std::pair<size_type, bucket_node *>
 		{
-			const auto pos = m_dense_size++;
+			const auto pos = m_dense_size;
 			auto alloc = allocator_type{dense_alloc()};
 			m_dense[pos].construct(alloc, std::forward<Args>(args)...);
+			++m_dense_size;
 			return {pos, m_dense + pos};
 		}
 		void pop_node()
@@ -592,20 +602,33 @@ namespace tpp::_detail
 		}
 
 		template<std::size_t... Is>
-		iterator commit_node(node_iterator hint, size_type pos, chain_slice slice, bucket_hash hashes, bucket_node *node)
+		iterator commit_node(node_iterator hint, size_type pos, bucket_hash hashes, bucket_node *node)
 		{
 			/* Create the bucket and insertion order links. */
 			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link) : back_node());
-			((*slice[Is] = pos), ...); /* Node is always inserted at the end of the chain. */
-
 			((node->template hash<Is>() = hashes[Is]), ...);
+			(insert_node<Is>(*node, pos), ...);
 			return to_iter(node);
 		}
 		template<std::size_t... Is, typename... Args>
-		iterator emplace_node(node_iterator hint, chain_slice slice, bucket_hash hashes, Args &&...args)
+		iterator emplace_node(node_iterator hint, bucket_hash hashes, Args &&...args)
 		{
+			/* Arguments may refer to elements of the table. Since elements are moved by a resize, the new one must be constructed beforehand. */
+			if constexpr (!std::conjunction_v<std::is_same<std::decay_t<Args>, bucket_node>...>)
+				if (m_dense_capacity == m_dense_size)
+				{
+					auto alloc = allocator_type{dense_alloc()};
+					auto tmp = bucket_node{};
+
+					tmp.construct(alloc, std::forward<Args>(args)...);
+					const auto guard = node_guard{alloc, tmp};
+					return emplace_node<Is...>(hint, hashes, std::move(tmp));
+				}
+
+			maybe_resize(hint);
+			maybe_rehash();
 			const auto [pos, node] = push_node(std::forward<Args>(args)...);
-			return commit_node<Is...>(hint, pos, slice, hashes, node);
+			return commit_node<Is...>(hint, pos, hashes, node);
 		}
 		template<std::size_t... Is>
 		iterator erase_node(size_type pos, bucket_node *node, chain_slice slice)
@@ -639,23 +662,23 @@ namespace tpp::_detail
 		template<typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_emplace(std::index_sequence<Is...>, node_iterator hint, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* Create a temporary object to check if it already exists within the table. */
-			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
-			const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
-			const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
+			auto alloc = allocator_type{dense_alloc()};
+			auto tmp = bucket_node{};
+
+			tmp.construct(alloc, std::forward<Args>(args)...);
+			const auto guard = node_guard{alloc, tmp};
+			const auto hs = bucket_hash{hash(tmp.template key<Is>())...};
+			const auto node_list = std::array{find_node<Is>(tmp.template key<Is>(), hs[Is])...};
 			for (auto [node, chain]: node_list)
 				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
-					pop_node();
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, commit the node. */
-			return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+			return {emplace_node<Is...>(hint, hs, std::move(tmp)), true};
 		}
 		template<typename... Args>
 		std::pair<iterator, bool> do_emplace(node_iterator hint, Args &&...args)
@@ -667,21 +690,18 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
 			for (auto [node, chain]: node_list)
-				if (*chain != npos)
+				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
 					return {to_iter(node), false};
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::piecewise_construct, std::move(ks),
+			return {emplace_node<Is...>(hint, hs, std::piecewise_construct, std::move(ks),
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
 		}
 		template<typename... Ks, typename... Args>
@@ -693,9 +713,6 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_insert(std::index_sequence<Is...>, node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
 			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
@@ -707,7 +724,7 @@ namespace tpp::_detail
 				}
 
 			/* No conflicts found, proceed with insertion. */
-			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::forward<Args>(args)...), true};
+			return {emplace_node<Is...>(hint, hs, std::forward<Args>(args)...), true};
 		}
 		template<typename... Ks, typename... Args>
 		std::pair<iterator, bool> do_insert(node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
@@ -721,14 +738,11 @@ namespace tpp::_detail
 		{
 			static_assert(key_size == 1, "insert_or_assign is only available for keys of size 1");
 
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, replace the entry. Otherwise, emplace a new entry. */
 			const auto h = hash(key);
-			if (const auto [candidate, chain_idx] = find_node<0>(key, h); chain_idx && *chain_idx == npos)
+			if (const auto [candidate, chain_idx] = find_node<0>(key, h); !chain_idx || *chain_idx == npos)
 			{
-				return {emplace_node<0>(hint, {chain_idx}, {h},
+				return {emplace_node<0>(hint, {h},
 				                        std::piecewise_construct,
 				                        std::forward_as_tuple(std::forward<T>(key)),
 				                        std::forward_as_tuple(std::forward<Args>(args)...)),
-- 
2.43.0


From 98e783c046dd41ebbde022167298240258897465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 35/50] fix: reserve enough buckets in dense tables

---
 tpp/detail/dense_table.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index df45fad..87dfa1f 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <limits>
 #include <tuple>
 
@@ -373,7 +374,7 @@ namespace tpp::_detail
 		void reserve(size_type n)
 		{
 			if (n > m_dense_capacity) resize_data(n);
-			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
+			rehash(to_min_buckets(n));
 		}
 
 		template<std::size_t J, typename T>
@@ -468,7 +469,7 @@ namespace tpp::_detail
 				return;
 
 			/* Adjust the capacity to be at least large enough to fit the current size. */
-			const auto new_cap = std::max(static_cast<size_type>(static_cast<float>(size()) / m_max_load_factor), n);
+			const auto new_cap = std::max(to_min_buckets(size()), n);
 			if (!n || new_cap != m_sparse_size) do_rehash(new_cap);
 		}
 
@@ -504,6 +505,7 @@ namespace tpp::_detail
 		dense_table(const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(hash), cmp_base(cmp) {}
 
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		[[nodiscard]] size_type to_min_buckets(size_type n) const noexcept { return static_cast<size_type>(std::ceil(static_cast<double>(n) / m_max_load_factor)); }
 
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &sparse_alloc() const noexcept { return sparse_alloc_base::value(); }
-- 
2.43.0


From 42854c59881a57e4c35babc9f8d7034cfc49b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 36/50] fix: make the iterator arithmetic of dense containers
 compile

operator+= and operator-= of table iterators returned the underlying iterator
as a reference to the table iterator, and operator[] tried to bind a reference
to the proxy returned by map iterators, so std::advance, std::next and it[n]
did not compile.
---
 tpp/detail/table_common.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 0f7aee2..67dc39e 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -615,14 +615,22 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return *static_cast<I *>(this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return *static_cast<I *>(this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
 		[[nodiscard]] constexpr typename iter_diff<T>::type operator-(const I &other) const noexcept { return iter() - other.m_iter; }
 
-		[[nodiscard]] constexpr auto &operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+		[[nodiscard]] constexpr decltype(auto) operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
 
 	private:
 		[[nodiscard]] constexpr auto &iter() noexcept { return static_cast<I *>(this)->m_iter; }
-- 
2.43.0


From d22fe48819f5101575906326f473984be1d8115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 37/50] fix: do not move from lvalue keys passed to operator[]

The overloads meant for rvalue keys took lvalue references, so m[k] with a
non-const key moved from the caller's object when it was inserted.
---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index b02aec0..4f57380 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1196,14 +1196,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index bd2968d..dc6fe14 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 8842d46..2cf3bf2 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From e51a1a2fea4dc385113d989e398fc5f5d8f085e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 38/50] fix: make the NEON group code compile and count groups
 without occupied entries

---
 tpp/detail/swiss_table.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index a2d2237..af2493a 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -200,7 +200,7 @@ namespace tpp::_detail
 #if defined(TPP_HAS_SSE2)
 		explicit meta_block(const meta_byte *bytes) noexcept { value = _mm_loadu_si128(reinterpret_cast<const block_value *>(bytes)); }
 #elif defined(TPP_HAS_NEON)
-		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const block_value *>(bytes)); }
+		explicit meta_block(const meta_byte *bytes) noexcept { value = vld1_u8(reinterpret_cast<const std::uint8_t *>(bytes)); }
 #else
 		explicit meta_block(const meta_byte *bytes) noexcept { value = read_unaligned<block_value>(bytes); }
 #endif
@@ -288,12 +288,13 @@ namespace tpp::_detail
 
 	std::size_t meta_block::count_available() const noexcept
 	{
-		return ctz(vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0)) >> 3;
+		const auto mask = vget_lane_u64(vreinterpret_u64_u8(vcle_s8(vdup_n_s8(std::int8_t(meta_byte::sentinel)), vreinterpret_s8_u8(value))), 0);
+		return mask ? ctz(mask) >> 3 : sizeof(meta_block);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
 		/* Mask all occupied. */
-		const auto mask = vreinterpret_u64_u8(vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel))));
+		const auto mask = vcgt_s8(vreinterpret_s8_u8(value), vdup_n_s8(std::int8_t(meta_byte::sentinel)));
 		const auto deleted = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::deleted)));
 		const auto empty = vreinterpret_u8_s8(vdup_n_s8(std::int8_t(meta_byte::empty)));
 
-- 
2.43.0


From d0bf70c9e4cd47656ae0cc367294d63f030749ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 39/50] fix: read and write metadata groups in the same order
 on big-endian targets

---
 tpp/detail/swiss_table.hpp | 15 +++++++++++++--
 tpp/detail/utility.hpp     | 33 +--------------------------------
 2 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index af2493a..6801fc1 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -215,6 +215,9 @@ namespace tpp::_detail
 		/* Set available to empty & occupied to deleted. */
 		[[nodiscard]] inline meta_block reset_occupied() const noexcept;
 
+		/* Write the block in the byte order it was read in. */
+		inline void store(meta_byte *bytes) const noexcept;
+
 		block_value value = {};
 	};
 
@@ -270,6 +273,8 @@ namespace tpp::_detail
 		/* (deleted & mask) | (empty & ~mask) */
 		return _mm_or_si128(_mm_and_si128(mask, deleted), _mm_andnot_si128(mask, empty));
 	}
+
+	void meta_block::store(meta_byte *bytes) const noexcept { std::memcpy(bytes, &value, sizeof(value)); }
 #elif defined(TPP_HAS_NEON)
 	index_mask meta_block::match_empty() const noexcept
 	{
@@ -301,6 +306,8 @@ namespace tpp::_detail
 		/* mask ? deleted : empty */
 		return vbsl_u8(mask, deleted, empty);
 	}
+
+	void meta_block::store(meta_byte *bytes) const noexcept { std::memcpy(bytes, &value, sizeof(value)); }
 #else
 	index_mask meta_block::match_empty() const noexcept
 	{
@@ -333,6 +340,11 @@ namespace tpp::_detail
 		const auto x = value & msb_mask;
 		return (~x + (x >> 7)) & ~lsb_mask;
 	}
+
+	void meta_block::store(meta_byte *bytes) const noexcept
+	{
+		for (std::size_t i = 0; i < sizeof(value); ++i) bytes[i] = static_cast<meta_byte>((value >> (i * 8)) & 0xff);
+	}
 #endif
 
 	/* Helper used to select node table type. */
@@ -1457,8 +1469,7 @@ namespace tpp::_detail
 			for (size_type i = 0; i < m_buffer.capacity; i += sizeof(meta_block))
 			{
 				const auto old_block = metadata + i;
-				const auto new_block = meta_block{old_block}.reset_occupied();
-				std::memcpy(old_block, reinterpret_cast<const meta_byte *>(&new_block), sizeof(meta_block));
+				meta_block{old_block}.reset_occupied().store(old_block);
 			}
 			std::memcpy(tail, metadata, sizeof(meta_block) - 1);
 			metadata[m_buffer.capacity] = meta_byte::sentinel;
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 610e29b..739aebc 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -78,13 +78,12 @@ namespace tpp::_detail
 	{
 		return *static_cast<const T *>(data);
 	}
-#else /* On non-x86 platforms, unaligned access must be emulated */
+#else /* On non-x86 platforms, unaligned access must be emulated. The first byte is always the least significant one. */
 	template<typename T>
 	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 1, T> read_unaligned(const void *data) noexcept
 	{
 		return *static_cast<const std::uint8_t *>(data);
 	}
-#if TPP_BYTE_ORDER == TPP_BYTE_ORDER_LE
 	template<typename T>
 	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 8, T> read_unaligned(const void *data) noexcept
 	{
@@ -113,36 +112,6 @@ namespace tpp::_detail
 		const auto *bytes = static_cast<const std::uint8_t *>(data);
 		return (static_cast<T>(bytes[1]) << 8) | (static_cast<T>(bytes[0]));
 	}
-#else
-	template<typename T>
-	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 8, T> read_unaligned(const void *data) noexcept
-	{
-		const auto *bytes = static_cast<const std::uint8_t *>(data);
-		return (static_cast<T>(bytes[0]) << 56) |
-			   (static_cast<T>(bytes[1]) << 48) |
-			   (static_cast<T>(bytes[2]) << 40) |
-			   (static_cast<T>(bytes[3]) << 32) |
-			   (static_cast<T>(bytes[4]) << 24) |
-			   (static_cast<T>(bytes[5]) << 16) |
-			   (static_cast<T>(bytes[6]) << 8) |
-			   (static_cast<T>(bytes[7]));
-	}
-	template<typename T>
-	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 4, T> read_unaligned(const void *data) noexcept
-	{
-		const auto *bytes = static_cast<const std::uint8_t *>(data);
-		return (static_cast<T>(bytes[0]) << 24) |
-			   (static_cast<T>(bytes[1]) << 16) |
-			   (static_cast<T>(bytes[2]) << 8) |
-			   (static_cast<T>(bytes[3]));
-	}
-	template<typename T>
-	[[nodiscard]] inline TPP_FORCEINLINE std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 2, T> read_unaligned(const void *data) noexcept
-	{
-		const auto *bytes = static_cast<const std::uint8_t *>(data);
-		return (static_cast<T>(bytes[0]) << 8) | (static_cast<T>(bytes[1]));
-	}
-#endif
 #endif
 
 #if defined(TPP_DEBUG)
-- 
2.43.0


From 4001a42b2795bef240d4328f5e2905814c27efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 40/50] fix: off-by-one bit scans on compilers other than GCC
 and clang

---
 tpp/detail/swiss_table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 6801fc1..899e599 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -86,7 +86,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1};
 		std::size_t result = 0;
-		while ((value & (mask << result++)) == T{});
+		while ((value & (mask << result)) == T{}) ++result;
 		return result;
 	}
 	template<typename T>
@@ -94,7 +94,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1} << (std::numeric_limits<T>::digits - 1);
 		std::size_t result = 0;
-		while ((value & (mask >> result++)) == T{});
+		while ((value & (mask >> result)) == T{}) ++result;
 		return result;
 	}
 
@@ -157,14 +157,14 @@ namespace tpp::_detail
 		{
 			unsigned long result = 0;
 			_BitScanReverse(&result, static_cast<unsigned long>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #ifdef _WIN64
 		if constexpr (sizeof(T) <= sizeof(unsigned __int64))
 		{
 			unsigned long result = 0;
 			_BitScanReverse64(&result, static_cast<unsigned __int64>(value));
-			return std::numeric_limits<T>::digits - static_cast<std::size_t>(result);
+			return std::numeric_limits<T>::digits - 1 - static_cast<std::size_t>(result);
 		}
 #endif
 		return generic_clz(value);
-- 
2.43.0


From bc3d71967a39eadee2f9f35c63155b0e3da69d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 41/50] fix: let stable sets merge from stable sets with other
 hash and comparison types

---
 tpp/stable_set.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index 711b810..0249389 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -22,6 +22,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::empty_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
@@ -369,6 +372,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class ordered_stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class ordered_stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::ordered_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
-- 
2.43.0


From da0486eee3ae2b4063809081e2ed24487b77c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 42/50] fix: account for the inserted entry when checking the
 load factor of dense tables

---
 tpp/detail/dense_table.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 87dfa1f..b8565dc 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -809,10 +809,9 @@ namespace tpp::_detail
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
 		void maybe_rehash()
 		{
-			TPP_IF_UNLIKELY(bucket_count() == 0)
-				rehash(8);
-			else if (load_factor() >= m_max_load_factor)
-				rehash(bucket_count() * 2);
+			/* Load factor must not exceed the maximum with the new entry accounted for. */
+			if (const auto min_buckets = to_min_buckets(size() + 1); min_buckets > bucket_count())
+				rehash(std::max(bucket_count() ? bucket_count() * 2 : 8, min_buckets));
 		}
 
 		void resize_data(size_type capacity)
-- 
2.43.0


From fa1262988435a028a704ddb121238ce3cb7f1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 43/50] fix: max_size of dense tables overflowed

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b8565dc..71d0a2e 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -347,7 +347,7 @@ namespace tpp::_detail
 		[[nodiscard]] const_reference back() const noexcept { return *to_iter(back_node()); }
 
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_dense_size; }
-		[[nodiscard]] constexpr size_type max_size() const noexcept { return to_load_factor(max_bucket_count()); }
+		[[nodiscard]] constexpr size_type max_size() const noexcept { return m_max_load_factor < 1.0f ? to_load_factor(max_bucket_count()) : max_bucket_count(); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
 
-- 
2.43.0


From d5a72ccbd8e0458dd53118f2a10c3bc78245b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 44/50] fix: move rvalue keys instead of copying them on keyed
 insertion

---
 tpp/detail/dense_table.hpp | 4 ++--
 tpp/detail/swiss_table.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 71d0a2e..039990b 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -410,9 +410,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 899e599..8f069cd 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1031,9 +1031,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
@@ -1394,7 +1394,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 				return {to_iter(target_pos), false};
 		}
@@ -1412,7 +1412,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 			{
 				m_buffer.nodes()[target_pos].replace(std::forward<Args>(args)...);
-- 
2.43.0


From 7513ce01ccba21281d01fac62f0d02425fdd742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 45/50] fix: order packed map references lexicographically
 before C++20

---
 tpp/detail/table_common.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 67dc39e..a2a8d90 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -780,13 +780,13 @@ namespace tpp::_detail
 		template<typename U, typename V>
 		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first != other.first && noexcept(second != other.second))) { return first != other.first || second != other.second; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first >= other.first && noexcept(second >= other.second)))  { return first >= other.first && second >= other.second; }
+		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first) && noexcept(other.first < first) && noexcept(second < other.second)) { return first < other.first || (!(other.first < first) && second < other.second); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first <= other.first && noexcept(second <= other.second)))  { return first <= other.first && second <= other.second; }
+		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < std::declval<const packed_map_ref &>())) { return other < *this; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(first > other.first && noexcept(second > other.second)))  { return first > other.first && second > other.second; }
+		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < std::declval<const packed_map_ref &>())) { return !(other < *this); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first && noexcept(second < other.second))) { return first < other.first && second < other.second; }
+		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(std::declval<const packed_map_ref &>() < other)) { return !(*this < other); }
 #else
 		template<typename U, typename V> requires std::equality_comparable_with<K, U> && std::equality_comparable_with<M, V>
 		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
-- 
2.43.0


From 399b8c8e8a3035d06d87e2f7f34b43ad0a0b4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 46/50] fix: make packed map references comparable in C++20

---
 tpp/detail/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 739aebc..d1e2087 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -231,9 +231,9 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 	template<typename T, typename U> requires std::three_way_comparable_with<T, U>
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
-	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const T &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t < u) && noexcept(u < t))
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
+	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const U &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
 	{
 		if (t < u)
 			return std::weak_ordering::less;
-- 
2.43.0


From cc99b1fe0065c96910f9ced86537a03cd43489bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:57 +0000
Subject: [PATCH 47/50] fix: merge from an rvalue replaced the functors,
 allocator and capacity of an empty table

---
 tpp/detail/swiss_table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 8f069cd..3ebaff2 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1159,10 +1159,14 @@ namespace tpp::_detail
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
 		void merge(swiss_table &&other)
 		{
-			if (m_size == 0)
-				operator=(std::move(other));
-			else
-				merge(other);
+			/* Take over the buffer of other only if functors, allocator and reserved capacity of this table are preserved by that. */
+			if constexpr (std::is_empty_v<hasher> && std::is_empty_v<key_equal>)
+				if (m_size == 0 && m_buffer.capacity <= other.m_buffer.capacity && allocator_eq(get_allocator(), other.get_allocator()))
+				{
+					operator=(std::move(other));
+					return;
+				}
+			merge(other);
 		}
 
 		void rehash(size_type n)
-- 
2.43.0


From 8eac53f0a99200b13560d7d73f79e443407f7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:33 +0000
Subject: [PATCH 48/50] fix: merge from an unequal allocator lost an element
 that could not be re-created

---
 tpp/detail/swiss_table.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 3ebaff2..8be71fc 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1147,11 +1147,20 @@ namespace tpp::_detail
 
 			/* Extract nodes from other and insert into this. */
 			/* Advance the iterator prior to the transfer, since it is invalidated by extraction of the node. */
-			const auto transfer = [&](const const_iterator &pos)
+			const auto transfer = [&](const auto &pos)
 			{
-				const auto &key = ValueTraits::get_key(*pos);
-				const auto h = hash(key);
-				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
+				auto &node = *to_underlying(pos);
+				const auto h = hash(node.key());
+				if (find_node(node.key(), h) != m_buffer.capacity) return;
+
+				if (allocator_eq(get_allocator(), other.get_allocator()))
+					emplace_node({}, h, other.extract(pos));
+				else
+				{
+					/* Nodes of a different allocator have to be re-created, and must not be lost in case that fails. */
+					emplace_node({}, h, std::move(node.value()));
+					other.erase(pos);
+				}
 			};
 			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
 		}
-- 
2.43.0


From 72290432db0534dd49b44b6069675fc1d69394ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:44 +0000
Subject: [PATCH 49/50] fix: insert_or_assign of a node destroyed the old
 element before the new one was available

---
 tpp/detail/swiss_table.hpp  | 6 ++----
 tpp/detail/table_common.hpp | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 8be71fc..a0e24e6 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1047,8 +1047,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.replace_node(alloc, std::forward<N>(node));
 				return {to_iter(target_pos), false};
 			}
 		}
@@ -1064,8 +1063,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.replace_node(alloc, std::forward<N>(node));
 				return to_iter(target_pos);
 			}
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index a2a8d90..2195d30 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -442,6 +442,14 @@ namespace tpp::_detail
 				other.do_destroy();
 			}
 		}
+		void replace_node(allocator_type &alloc, extracted_type &&other)
+		{
+			/* The old value must be preserved until the new one is available. */
+			auto tmp = stable_node{};
+			tmp.construct(alloc, std::move(other));
+			destroy(alloc);
+			m_ptr = tmp.m_ptr;
+		}
 		void move_from(stable_node &other)
 		{
 			link_base::operator=(std::move(other));
-- 
2.43.0


From 26f5c20da47e39905f3436a5c505b94ee391050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:54 +0000
Subject: [PATCH 50/50] fix: include <algorithm> and <iterator> in builds
 without TPP_DEBUG too

---
 tpp/detail/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index d1e2087..0603fb0 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <iterator>
 #include <cstring>
 #include <memory>
 #include <array>
@@ -16,8 +18,6 @@
 
 #if defined(TPP_DEBUG)
 
-#include <algorithm>
-#include <iterator>
 #include <cstdlib>
 #include <cstdio>
 
-- 
2.43.0

