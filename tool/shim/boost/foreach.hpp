// analysis shim: BOOST_FOREACH as the language's own range-for (same iteration, analysable AST)
#pragma once
#include <boost/range/begin.hpp>
#include <boost/range/end.hpp>
#include <boost/mpl/bool.hpp>
namespace boost { namespace foreach { template<class T> struct is_lightweight_proxy : boost::mpl::false_ {}; template<class T> struct is_noncopyable : boost::mpl::false_ {}; struct tag{}; } }
#define BOOST_FOREACH(VAR, COL) for (VAR : COL)
#define BOOST_REVERSE_FOREACH(VAR, COL) for (VAR : COL)
