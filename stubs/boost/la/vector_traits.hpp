// Stand-in for the header of Boost.LA of this name, which is not installed: what vmmlib's specialisation needs of it.
// Contract (Boost.LA): dim, scalar_type; r<I>( v ) and ir( i, v ) are the i-th element, w<I>( v ) and iw( i, v ) references to it.
#ifndef STUB_BOOST_LA_VECTOR_TRAITS_HPP
#define STUB_BOOST_LA_VECTOR_TRAITS_HPP
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost { namespace la {
template< class V > struct vector_traits { static const int dim = 0; typedef void scalar_type; };
}}
#endif
