// Stand-in for the header of Boost.LA of this name, which is not installed: what vmmlib's specialisation needs of it.
// Contract (Boost.LA): rows, cols, scalar_type; r<R,C>( m ) and ir( r, c, m ) are the element at row r and column c,
// w<R,C>( m ) and iw( r, c, m ) references to it.
#ifndef STUB_BOOST_LA_MATRIX_TRAITS_HPP
#define STUB_BOOST_LA_MATRIX_TRAITS_HPP
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost { namespace la {
template< class M > struct matrix_traits { static const int rows = 0; static const int cols = 0; typedef void scalar_type; };
}}
#endif
