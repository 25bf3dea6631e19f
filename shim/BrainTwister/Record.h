// Stand-in for BrainTwister/Record.h (package "record", not available offline).
// BRAINTWISTER_RECORD(Name, ((type, member, default)) ...) defines a struct with
// defaulted members, chained setters and construction from a property tree.
#pragma once
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <boost/preprocessor/cat.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <string>
#include <type_traits>
#include <vector>

namespace vshim {
using tree = boost::property_tree::ptree;
template <class T> struct value_of {
    static T get(tree const& p)
    {
        if constexpr (std::is_class<T>::value && std::is_constructible<T, tree const&>::value) return T(p);
        else return p.get_value<T>();
    }
};
template <class T> struct value_of<std::vector<T>> {
    static std::vector<T> get(tree const& p) { std::vector<T> v; for (auto const& c : p) v.push_back(value_of<T>::get(c.second)); return v; }
};
template <class T> struct get_member {
    static void apply(tree const& p, const char* n, T& t) { if (auto c = p.get_child_optional(n)) t = value_of<T>::get(*c); }
};
} // namespace vshim

#define VSHIM_MEMBER(r, Name, e) \
    BOOST_PP_TUPLE_ELEM(3,0,e) BOOST_PP_TUPLE_ELEM(3,1,e); \
    Name& BOOST_PP_CAT(set_, BOOST_PP_TUPLE_ELEM(3,1,e))(BOOST_PP_TUPLE_ELEM(3,0,e) const& v_) \
    { BOOST_PP_TUPLE_ELEM(3,1,e) = v_; return *this; }
#define VSHIM_DEFAULT(r, data, e) BOOST_PP_TUPLE_ELEM(3,1,e) = BOOST_PP_TUPLE_ELEM(3,2,e);
#define VSHIM_LOAD(r, tree, e) \
    ::vshim::get_member<BOOST_PP_TUPLE_ELEM(3,0,e)>::apply(tree, BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3,1,e)), BOOST_PP_TUPLE_ELEM(3,1,e));

#define BRAINTWISTER_RECORD(Name, Seq) \
struct Name { \
    Name() { BOOST_PP_SEQ_FOR_EACH(VSHIM_DEFAULT, ~, Seq) } \
    explicit Name(boost::property_tree::ptree const& tree_) : Name() { BOOST_PP_SEQ_FOR_EACH(VSHIM_LOAD, tree_, Seq) } \
    BOOST_PP_SEQ_FOR_EACH(VSHIM_MEMBER, Name, Seq) \
};
