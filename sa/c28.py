"""C28: misuse witnesses with their conforming twins. Each family is one operation, a program text over dimensions
(or cv-qualifiers), the predicate saying which of them conform, and the instances to try. Families marked noconv are
tried with VMMLIB_NO_CONVERSION_OPERATORS, because with the conversions to T* on, any vector also is a T*."""
def families():
    F=[]
    def fam(title, code, ok, dims, noconv=False): F.append((title, code, ok, dims, noconv))
    D=[(a,b) for a in (1,2,3,4,5) for b in (1,2,3,4,5)]
    D2=[(a,b) for a in (2,3,4,5) for b in (2,3,4,5)]
    far=[(a,b) for a,b in D2 if abs(a-b)!=1]   # one more or one fewer dimension converts homogeneously
    D1=[(a,) for a in (1,2,3,4,5)]
    Dv=[(a,) for a in (2,3,4,5,6)]
    eq=lambda a,b:a==b
    sq=lambda a,b:a==b
    for op in "+-*/":
        fam("Vector %s Vector"%op, "Vector<{0},double> f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ return a %s b; }}"%op, eq, far)
        fam("Vector %s= Vector"%op, "void f( Vector<{0},double>& a, const Vector<{1},double>& b ) {{ a %s= b; }}"%op, eq, far)
    for m in ("dot","distance","squared_distance","equals"):
        fam("Vector::"+m, "void f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ a.%s( b ); }}"%m, eq, far)
    for op in ("==","!=","<"):
        fam("Vector::operator"+op, "bool f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ return a.operator%s( b ); }}"%op, eq, far)
    fam("free dot","double f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ return dot( a, b ); }}", eq, D)
    fam("Vector assignment","void f( Vector<{0},double>& a, const Vector<{1},double>& b ) {{ a = b; }}", lambda a,b: abs(a-b)<=1, D2, True)
    fam("Vector construction","void f( const Vector<{1},double>& b ) {{ Vector<{0},double> a( b ); }}", lambda a,b: abs(a-b)<=1, D2, True)
    fam("Vector implicit conversion","void g( const Vector<{0},double>& ); void f( const Vector<{1},double>& b ) {{ g( b ); }}", lambda a,b: abs(a-b)<=1, D2)
    fam("Vector assignment from another type","void f( Vector<{0},double>& a, const Vector<{1},float>& b ) {{ a = b; }}", eq, D2)
    fam("Vector::cast_from","void f( Vector<{0},double>& a, const Vector<{1},float>& b ) {{ a.cast_from( b ); }}", eq, D)
    fam("Vector::scale_to","void f( const Vector<{0},double>& a, Vector<{1},float>& b ) {{ a.scale_to( b ); }}", eq, D2)
    fam("Vector::cross","void f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ a.cross( b ); }}", lambda a,b:a==b==3, D2)
    fam("Vector::cross of two","void f( Vector<{0},double>& a, const Vector<{1},double>& b ) {{ a.cross( b, b ); }}", lambda a,b:a==b==3, D2)
    fam("free cross","void f( const Vector<{0},double>& a, const Vector<{1},double>& b ) {{ cross( a, b ); }}", lambda a,b:a==b==3, D2)
    fam("Vector::rotate","void f( const Vector<{0},double>& a, const Vector<{0},double>& x ) {{ a.rotate( 1.0, x ); }}", lambda a:a==3, D1)
    for m in ("project_point_onto_sphere","distance_to_sphere","distance_to_plane","project_point_onto_plane"):
        fam("Vector::"+m,"void f( const Vector<{0},double>& a, const Vector<{1},double>& x ) {{ a.%s( x ); }}"%m, lambda a,b:a==4 and b==3, [(a,b) for a in (3,4,5) for b in (1,3,5)])
    fam("Vector::get_sub_vector","const Vector<{1},double>& f( const Vector<{0},double>& a ) {{ return a.template get_sub_vector<{1}>( 0 ); }}", lambda a,b:b<=a, D)
    fam("Vector::get_sub_vector, mutable","Vector<{1},double>& f( Vector<{0},double>& a ) {{ return a.template get_sub_vector<{1}>( 0 ); }}", lambda a,b:b<=a, D)
    fam("Vector::get_sub_vector, mutable from const","Vector<2,double>& f( {0} Vector<3,double>& a ) {{ return a.get_sub_vector<2>( 0 ); }}", lambda c:c=="", [("",),("const",)])
    fam("compute_normal","void f( Vector<{0},double>& a ) {{ a.compute_normal( a, a, a ); }}", lambda a:a==3, Dv)
    # const
    for b in ("a.x() = 1","a.y() = 1","a.z() = 1","a.at( 0 ) = 1","a( 0 ) = 1","a[ 0 ] = 1","*a.begin() = 1","*a.rbegin() = 1","a = 1.0","a = a","a.normalize()","a.negate()","a += a","a *= 2.0","a.set( 1 )","a.set_random()",
              "a.iter_set( p, p )","a.find_min() = 1","a.find_max() = 1","a.clamp()","a.sqrt_elementwise()","a.reciprocal()","a.reciprocal_safe()","a.perturb()","a.array[ 0 ] = 1","a.cross( a, a )","a.compute_normal( a, a, a )","a.r() = 1"):
        fam("Vector const: "+b,"void f( {0} Vector<3,double>& a, const double* p ) {{ "+b+"; }}", lambda c:c=="", [("",),("const",)])
    fam("Vector pointer from const","double* f( {0} Vector<3,double>& a ) {{ return a; }}", lambda c:c=="", [("",),("const",)])
    # Matrix
    sh=[(1,1),(2,2),(3,3),(4,4),(2,3),(3,2),(4,3),(3,4),(5,5),(1,4),(4,1)]
    sh2=[a+b for a in sh for b in sh]
    same=lambda a,b,c,d:(a,b)==(c,d)
    fam("free equals","bool f( const Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b ) {{ return equals( a, b ); }}", same, sh2)
    fam("Matrix * Matrix","void f( const Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b ) {{ a * b; }}", lambda a,b,c,d:b==c, sh2)
    fam("Matrix * Matrix, result shape","Matrix<{4},{5},double> f( const Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b ) {{ return a.operator*( b ); }}", lambda a,b,c,d,e,f:b==c, [(2,3,3,2,2,2),(3,2,2,4,3,4),(3,2,3,4,3,4),(4,4,4,1,4,1)])
    fam("Matrix *= Matrix","void f( Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b ) {{ a *= b; }}", lambda a,b,c,d:a==b==c==d, sh2)
    fam("Matrix::multiply","void f( Matrix<{0},{1},double>& r, const Matrix<{2},{3},double>& a, const Matrix<{4},{5},double>& b ) {{ r.multiply( a, b ); }}", lambda r,s,a,b,c,d:b==c and r==a and s==d, [x+y+z for x in [(2,2),(2,3),(4,4)] for y in [(2,3),(3,2),(4,4),(2,2)] for z in [(3,2),(2,3),(3,3),(4,4)]])
    fam("free multiply","void f( Matrix<{0},{1},double>& r, const Matrix<{2},{3},double>& a, const Matrix<{4},{5},double>& b ) {{ multiply( a, b, r ); }}", lambda r,s,a,b,c,d:b==c and r==a and s==d, [x+y+z for x in [(2,2),(2,3),(4,4)] for y in [(2,3),(3,2),(4,4),(2,2)] for z in [(3,2),(2,3),(3,3),(4,4)]])
    fam("Matrix * Vector","void f( const Matrix<{0},{1},double>& a, const Vector<{2},double>& b ) {{ a * b; }}", lambda a,b,c:b==c or (a==b==c+1), [s+(k,) for s in sh for k in (2,3,4,5) if abs(s[1]-k)>1 or s[1]==k or (s[0]==s[1] and k==s[1]-1)])
    fam("det","void f( const Matrix<{0},{1},double>& a ) {{ a.det(); }}", lambda a,b:a==b<=4, sh)
    fam("compute_determinant","void f( const Matrix<{0},{1},double>& a ) {{ compute_determinant( a ); }}", lambda a,b:a==b<=4, sh)
    fam("inverse","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.inverse( b ); }}", lambda a,b,c,d:a==b==c==d and 2<=a<=4, sh2)
    fam("compute_inverse","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ compute_inverse( a, b ); }}", lambda a,b,c,d:a==b==c==d and 2<=a<=4, sh2)
    fam("get_adjugate","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.get_adjugate( b ); }}", lambda a,b,c,d:a==b==c==d and 2<=a<=5, sh2)
    fam("get_cofactors","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.get_cofactors( b ); }}", lambda a,b,c,d:a==b==c==d and 2<=a<=5, sh2)
    fam("get_minor","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.get_minor( b, 0, 0 ); }}", lambda a,b,c,d:a==b and c==d==a-1, sh2)
    fam("identity","void f( Matrix<{0},{1},double>& a ) {{ identity( a ); }}", lambda a,b:a==b, sh)
    fam("transpose","Matrix<{2},{3},double> f( const Matrix<{0},{1},double>& a ) {{ Matrix<{2},{3},double> b; a.transpose_to( b ); return b; }}", lambda a,b,c,d:(a,b)==(d,c), sh2)
    fam("is_positive_definite","bool f( const Matrix<{0},{1},double>& a ) {{ return is_positive_definite( a ); }}", lambda a,b:a==b<=3, sh)
    fam("symmetric_covariance","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.symmetric_covariance( b ); }}", lambda a,b,c,d:a==c==d, sh2)
    fam("diag","void f( Matrix<{0},{1},double>& a, const Vector<{2},double>& b ) {{ a.diag( b ); }}", lambda a,b,c:a==b==c, [s+(k,) for s in sh for k in (1,2,3,4)])
    fam("tensor","void f( Matrix<{0},{1},double>& a, const Vector<{2},double>& b, const Vector<{3},double>& c ) {{ a.tensor( b, c ); }}", lambda a,b,c,d:(a,b)==(c,d) or (a==b==4 and c==d==3), [s+(i,j) for s in [(2,2),(2,4),(4,2),(4,4)] for i,j in ((2,2),(4,4),(2,4),(4,2),(3,3)) if s==(4,4) or i!=3])
    fam("direct_sum","void f( Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b, const Matrix<{4},{5},double>& c ) {{ a.direct_sum( b, c ); }}", lambda a,b,c,d,e,f:a==c+e and b==d+f, [(3,3,2,2,1,1),(3,4,2,3,1,1),(3,3,2,2,2,1),(3,3,1,2,2,2),(4,4,2,2,2,2),(3,4,1,1,2,2)])
    fam("khatri_rao_product","void f( const Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b, Matrix<{4},{5},double>& c ) {{ a.khatri_rao_product( b, c ); }}", lambda a,b,c,d,e,f:b==d==f and e==a*c, [(2,2,3,2,6,2),(2,2,3,3,6,2),(2,2,3,2,5,2),(2,3,2,3,4,3),(2,3,2,3,4,2)])
    fam("kronecker_product","void f( const Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b, Matrix<{4},{5},double>& c ) {{ a.kronecker_product( b, c ); }}", lambda a,b,c,d,e,f:e==a*c and f==b*d, [(2,2,3,2,6,4),(2,2,3,3,6,4),(2,2,3,2,5,4),(2,3,1,2,2,6),(2,3,2,1,4,4)])
    fam("get_sub_matrix","void f( const Matrix<{0},{1},double>& a ) {{ a.get_sub_matrix<{2},{3}>( 0, 0 ); }}", lambda a,b,c,d:c<=a and d<=b, sh2)
    fam("get_sub_matrix into","void f( const Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.get_sub_matrix( b ); }}", lambda a,b,c,d:c<=a and d<=b, sh2)
    fam("set_sub_matrix","void f( Matrix<{0},{1},double>& a, const Matrix<{2},{3},double>& b ) {{ a.set_sub_matrix( b ); }}", lambda a,b,c,d:c<=a and d<=b, sh2)
    fam("columnwise_sum","void f( const Matrix<{0},{1},double>& a, Vector<{2},double>& b ) {{ a.columnwise_sum( b ); }}", lambda a,b,c:b==c, [s+(k,) for s in sh for k in (2,3,4)])
    for k,g in (("get_row",1),("set_row",1),("get_column",0),("set_column",0)):
        fam("Matrix::"+k,"void f( Matrix<{0},{1},double>& a, Vector<{2},double>& b ) {{ a.%s( 0, b ); }}"%k, lambda a,b,c,g=g:c==(a,b)[g], [s+(c,) for s in sh for c in (2,3,4) if k[0]=="g" or abs(c-s[g])!=1])
        if k[0]=="g": fam("Matrix::%s of a matrix"%k,"void f( Matrix<{0},{1},double>& a, Matrix<{2},{3},double>& b ) {{ a.%s( 0, b ); }}"%k, lambda a,b,c,d,g=g:(c,d)==((a,1),(1,b))[g], sh2)
    fam("Matrix::cast_from","void f( Matrix<{0},{1},double>& a, const Matrix<{2},{3},float>& b ) {{ a.cast_from( b ); }}", same, sh2)
    for n in ("rotate_x( 1.0 )","rotate_y( 1.0 )","rotate_z( 1.0 )","pre_rotate_x( 1.0 )","pre_rotate_y( 1.0 )","pre_rotate_z( 1.0 )","scale( 1.0, 2.0, 3.0 )","scale( Vector<3,double>() )","scale_translation( Vector<3,double>() )","set_translation( 1.0, 2.0, 3.0 )","set_translation( Vector<3,double>() )"):
        fam("Matrix::"+n,"void f( Matrix<{0},{1},double>& a ) {{ a.%s; }}"%n, lambda a,b:a==b==4, sh)
    fam("Matrix::rotate","void f( Matrix<{0},{1},double>& a, const Vector<{2},double>& v ) {{ a.rotate( 1.0, v ); }}", lambda a,b,c:a==b==4 and c==3, [s+(c,) for s in sh for c in (1,3,5)])
    for b in ("a( 0, 0 ) = 1","a.at( 0, 0 ) = 1","a[ 0 ][ 0 ] = 1","*a.begin() = 1","*a.rbegin() = 1","a = 1.0","a = a","a += a","a -= a","a *= 2.0","a /= 2.0","a *= a","a.zero()","a.fill( 1 )","a.set_random()","a.set_dct()","a.multiply( a, a )","a.multiply_piecewise( a )","a.set_row( 0, Vector<4,double>() )","a.set_column( 0, Vector<4,double>() )","a.rotate_x( 1.0 )","a.scale( 1.0, 1.0, 1.0 )","a.set_translation( 1.0, 1.0, 1.0 )","a.x() = 1","identity( a )","a.threshold( 1 )","a.convolve( Matrix<3,3,double>() )","a.array[ 0 ] = 1","a.transpose_to( a )"):
        fam("Matrix const: "+b,"void f( {0} Matrix<4,4,double>& a ) {{ "+b+"; }}", lambda c:c=="", [("",),("const",)])
    fam("Matrix pointer from const","double* f( {0} Matrix<3,3,double>& a ) {{ return a; }}", lambda c:c=="", [("",),("const",)])
    # Quaternion
    fam("Quaternion from matrix","void f( const Matrix<{0},{1},double>& a ) {{ Quaternion<double> q( a ); }}", lambda a,b:a==b>=3, sh)
    fam("Quaternion::set( matrix )","void f( Quaternion<double>& q, const Matrix<{0},{1},double>& a ) {{ q.set( a ); }}", lambda a,b:a==b>=3, sh)
    fam("get_rotation_matrix","void f( const Quaternion<double>& q, Matrix<{0},{1},double>& a ) {{ q.get_rotation_matrix( a ); }}", lambda a,b:a==b>=3, sh)
    for b in ("q.x() = 1","q( 0 ) = 1","q.set( 1, 2, 3, 4 )","q = q","q += q","q *= q","q *= 2.0","q.normalize()","q.zero()","q.identity()","q.conjugate()","q.array[ 0 ] = 1","q.y() = 1","q.w() = 1"):
        fam("Quaternion const: "+b,"void f( {0} Quaternion<double>& q ) {{ "+b+"; }}", lambda c:c=="", [("",),("const",)])
    for t,b in (("AABB<double>","a.setMin( Vector<3,double>() )"),("AABB<double>","a.setMax( Vector<3,double>() )"),("AABB<double>","a.merge( a )"),("AABB<double>","a.merge( Vector<3,double>() )"),("AABB<double>","a.set( Vector<3,double>(), Vector<3,double>() )"),("AABB<double>","a.getMin().x() = 1"),("AABB<double>","a.getMax()( 0 ) = 1"),
                ("Frustum<double>","a.set_perspective( 1.0, 1.0, 1.0, 2.0 )"),("Frustum<double>","a.adjust_near( 1.0 )"),("Frustum<double>","a.left() = 1"),("Frustum<double>","a.near_plane() = 1"),("Frustum<double>","a.set( 1, 2, 3, 4, 5, 6 )"),("Frustum<double>","a.apply_jitter( Vector<2,double>() )"),
                ("FrustumCuller<double>","a.setup( Matrix<4,4,double>() )"),("LowpassFilter<3 _ double>","a.add( 1.0 )"),("LowpassFilter<3 _ double>","a.set_smooth_factor( 1.0 )")):
        fam("%s const: %s"%(t,b),"void f( {0} %s& a ) {{ %s; }}"%(t.replace(" _ ",","),b), lambda c:c=="", [("",),("const",)])
    return F
