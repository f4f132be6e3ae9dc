// The scene readers include RapidXML, which CMake downloads. Boost ships the same parser inside property_tree.
#ifndef VP_RAPIDXML_HPP
#define VP_RAPIDXML_HPP
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
#endif
