// Does the library compile for a real NEON target?  (syntax only)
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>
template<typename M> int map() { M m; m.emplace(1, 2); m[3] = 4; m.erase(1); m.erase(m.begin()); m.reserve(10); M c = m; c = std::move(m); return int(c.size()) + (c.find(3) != c.end()); }
template<typename M> int set() { M m; m.emplace(1); m.insert(3); m.erase(1); m.erase(m.begin()); m.reserve(10); M c = m; c = std::move(m); return int(c.size()) + (c.find(3) != c.end()); }
int probe()
{
	return map<tpp::stable_map<int, int>>() + map<tpp::sparse_map<int, int>>() + map<tpp::dense_map<int, int>>() + map<tpp::ordered_sparse_map<int, int>>() + map<tpp::ordered_stable_map<int, int>>() +
		   set<tpp::stable_set<int>>() + set<tpp::sparse_set<int>>() + set<tpp::dense_set<int>>() + set<tpp::ordered_sparse_set<int>>() + set<tpp::ordered_stable_set<int>>();
}
