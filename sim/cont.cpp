// One container kind per translation unit: -DCONT=<name> -DPOL=<allocator policy>
#include "arch/arch.hpp"
#include "world.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)

#define IS_sparse_set 1
#define IS_ordered_sparse_set 1
#define IS_sparse_map 2
#define IS_ordered_sparse_map 2
#define IS_stable_set 3
#define IS_ordered_stable_set 3
#define IS_stable_map 4
#define IS_ordered_stable_map 4
#define IS_dense_set 5
#define IS_ordered_dense_set 5
#define IS_dense_map 6
#define IS_ordered_dense_map 6
#define IS_dense_multiset 7
#define IS_dense_multimap 8
#define KIND CAT(IS_, SIM_CONT)
#ifndef SIM_ORD
#define SIM_ORD false
#endif

#ifdef SIM_ALT
#define TR_SET true
#define TR_MAP false
#else
#define TR_SET false
#define TR_MAP true
#endif

#ifdef SIM_ALT
#if KIND == 7
#define PLAIN_TYPES , tpp::SIM_CONT<tpp::multikey<int, std::string>>, tpp::SIM_CONT<tpp::multikey<std::string, MoKey>>
#elif KIND == 8
#define PLAIN_TYPES , tpp::SIM_CONT<tpp::multikey<std::string, int, char>, std::string>, tpp::SIM_CONT<tpp::multikey<int, unsigned long>, std::unique_ptr<std::string>>
#elif KIND % 2
#define PLAIN_TYPES , tpp::SIM_CONT<std::string>, tpp::SIM_CONT<MoKey>
#else
#define PLAIN_TYPES , tpp::SIM_CONT<std::string, std::string>, tpp::SIM_CONT<int, std::unique_ptr<std::string>>
#endif
#else
#define PLAIN_TYPES
#endif

using namespace sim;
#if KIND == 1
#include <tpp/sparse_set.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Hash<TR_SET>, Eq<TR_SET>, Alloc<Key, SIM_POL>>, false, SIM_ORD, false, false, 1, TR_SET, SIM_POL PLAIN_TYPES>;
#elif KIND == 2
#include <tpp/sparse_map.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Val, Hash<TR_MAP>, Eq<TR_MAP>, Alloc<std::pair<Key, Val>, SIM_POL>>, true, SIM_ORD, false, false, 1, TR_MAP, SIM_POL PLAIN_TYPES>;
#elif KIND == 3
#include <tpp/stable_set.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Hash<TR_SET>, Eq<TR_SET>, Alloc<Key, SIM_POL>>, false, SIM_ORD, true, false, 1, TR_SET, SIM_POL PLAIN_TYPES>;
#elif KIND == 4
#include <tpp/stable_map.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Val, Hash<TR_MAP>, Eq<TR_MAP>, Alloc<std::pair<const Key, Val>, SIM_POL>>, true, SIM_ORD, true, false, 1, TR_MAP, SIM_POL PLAIN_TYPES>;
#elif KIND == 5
#include <tpp/dense_set.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Hash<TR_SET>, Eq<TR_SET>, Alloc<Key, SIM_POL>>, false, SIM_ORD, false, true, 1, TR_SET, SIM_POL PLAIN_TYPES>;
#elif KIND == 6
#include <tpp/dense_map.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<Key, Val, Hash<TR_MAP>, Eq<TR_MAP>, Alloc<std::pair<Key, Val>, SIM_POL>>, true, SIM_ORD, false, true, 1, TR_MAP, SIM_POL PLAIN_TYPES>;
#elif KIND == 7
#include <tpp/dense_multiset.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<tpp::multikey<Key, Key>, Hash<TR_SET>, Eq<TR_SET>, Alloc<std::tuple<Key, Key>, SIM_POL>>, false, SIM_ORD, false, true, 2, TR_SET, SIM_POL PLAIN_TYPES>;
#elif KIND == 8
#include <tpp/dense_multimap.hpp>
using TheCfg = Cfg<tpp::SIM_CONT<tpp::multikey<Key, Key, Key>, Val, Hash<TR_MAP>, Eq<TR_MAP>, Alloc<std::pair<std::tuple<Key, Key, Key>, Val>, SIM_POL>>, true, SIM_ORD, false, true, 3, TR_MAP, SIM_POL PLAIN_TYPES>;
#endif
#if SIM_POL == 0
static Register reg(make_runner<TheCfg>(STR(SIM_CONT)));
#else
static Register reg(make_runner<TheCfg>(STR(SIM_CONT) "@" STR(SIM_POL)));
#endif
