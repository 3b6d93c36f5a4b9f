// configuration of the optional parts of vmmlib: construction from OpenSceneGraph-like vectors, the old names
#ifndef VMMLIB_SA_ALL_ON_HPP
#define VMMLIB_SA_ALL_ON_HPP
#define __OSG_MATH
#define VMMLIB_OLD_TYPEDEFS
template< class T > struct OtherVec3
{
    T v[3];
    T x() const { return v[0]; }
    T y() const { return v[1]; }
    T z() const { return v[2]; }
};
#endif
