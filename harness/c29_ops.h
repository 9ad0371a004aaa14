// every operation of the library (the random helpers excepted) as OP(class, name, body): i are read-only operands, results go to o
OP("Vec2", "Vec2(k)", Vec2<R> a(i.k[0]); o << a)
OP("Vec2", "Vec2(x,y)", Vec2<R> a(i.k[0], i.k[1]); o << a)
OP("Vec2", "Vec2(Vec3)", Vec2<R> a(i.a3, i.c); o << a)
OP("Vec2", "fromAngle", o << Vec2<R>::fromAngle(i.k[0], i.k[1]))
OP("Vec2", "fromClerp", o << Vec2<R>::fromClerp(i.a2, i.b2, i.k[3]))
OP("Vec2", "fromClerpMaxAngle", o << Vec2<R>::fromClerpMaxAngle(i.a2, i.b2, i.k[3]))
OP("Vec2", "set", Vec2<R> a; a.set(i.k[0], i.k[1]); o << a; a.set(i.b2); o << a; a.set(i.k[0] > 0 ? Coord::X : Coord::Y, i.k[2]); o << a)
OP("Vec2", "setAngle", Vec2<R> a; a.setAngle(i.k[0], i.k[1]); o << a)
OP("Vec2", "clerp", Vec2<R> a = i.a2; a.clerp(a, i.b2, i.k[3]); o << a)
OP("Vec2", "clerpMaxAngle", Vec2<R> a = i.a2; a.clerpMaxAngle(i.b2, a, i.k[3]); o << a)
OP("Vec2", "normalize", Vec2<R> a = i.a2; o << a.normalize(i.k[1]) << a << i.b2.normalized())
OP("Vec2", "rotate", Vec2<R> a = i.a2; a.rotate(i.k[0]); o << a << i.b2.rotated(i.k[1]))
OP("Vec2", "quarter turns", Vec2<R> a = i.a2; a.rotate90(); o << a; a.rotate180(); o << a; a.rotate270(); o << a << a.rotated90() << a.rotated180() << a.rotated270())
OP("Vec2", "mirror", Vec2<R> a = i.a2; a.mirror(Coord::X); o << a << a.mirrored(Coord::Y))
OP("Vec2", "in place", Vec2<R> a = i.a2; a += i.b2; o << a; a -= i.c2; o << a; a *= i.k[1]; o << a; a /= i.k[2]; o << a)
OP("Vec2", "operators", o << i.a2 + i.b2 << i.a2 - i.b2 << -i.a2 << i.a2 * i.b2 << i.a2 % i.b2 << i.a2 * i.k[0] << i.a2 / i.k[1] << (i.a2 == i.b2) << (i.a2 != i.b2))
OP("Vec2", "* Mat2", Vec2<R> a = i.a2; a *= i.m2; o << a << i.b2 * i.m2)
OP("Vec2", "queries", o << i.a2.copy() << i.a2.length() << i.a2.lengthSqr() << i.a2.moved(Coord::Y, i.k[0]) << i.a2.angle() << i.a2.majorCoord() << i.a2.minorCoord() << i.a2.isNull() << i.a2[Coord::X])
OP("Vec2", "cast", o << i.a2.template cast<float>().template cast<R>() << i.a2.template cast<double>().template cast<R>())
OP("Vec2", "statics", o << Vec2<R>::product(i.a2, i.b2) << Vec2<R>::min(i.a2, i.b2) << Vec2<R>::max(i.a2, i.b2) << Vec2<R>::crossProduct(i.a2, i.b2, i.c2))
OP("Vec2", "intersection", R s = 0; R t = 0; o << intersection(i.l2.start, i.l2.end, i.a2, i.b2, s, t) << s << t)
OP("Vec2", "distance", o << distance(i.a2, i.b2) << distanceSqr(i.a2, i.b2))
OP("Vec2", "lerp", o << lerp(i.a2, i.b2, i.k[3]) << lerp(i.a2, i.b2, i.k[3], i.mode))

OP("Vec3", "constructors", Vec3<R> a(i.k[0]); Vec3<R> b(i.k[0], i.k[1], i.k[2]); Vec3<R> c(i.a2, i.c); o << a << b << c)
OP("Vec3", "fromSlerp", o << Vec3<R>::fromSlerp(i.a3, i.b3, i.k[3]))
OP("Vec3", "fromSlerpMaxAngle", o << Vec3<R>::fromSlerpMaxAngle(i.a3, i.b3, i.k[3]))
OP("Vec3", "set", Vec3<R> a; a.set(i.k[0], i.k[1], i.k[2]); o << a; a.set(i.b3); o << a; a.set(i.c, i.k[2]); o << a)
OP("Vec3", "slerp", Vec3<R> a = i.a3; a.slerp(a, i.b3, i.k[3]); o << a)
OP("Vec3", "slerpMaxAngle", Vec3<R> a = i.a3; a.slerpMaxAngle(i.b3, a, i.k[3]); o << a)
OP("Vec3", "normalize", Vec3<R> a = i.a3; o << a.normalize(i.k[1]) << a << i.b3.normalized())
OP("Vec3", "rotate", Vec3<R> a = i.a3; a.rotate(i.c, i.k[0]); o << a << i.b3.rotated(i.d, i.k[1]))
OP("Vec3", "mirror", Vec3<R> a = i.a3; a.mirror(i.c); o << a << a.mirrored(i.d))
OP("Vec3", "in place", Vec3<R> a = i.a3; a += i.b3; o << a; a -= i.c3; o << a; a *= i.k[1]; o << a; a /= i.k[2]; o << a; a %= i.d3; o << a; a %= i.c; o << a; a %= i.ax; o << a)
OP("Vec3", "operators", o << i.a3 + i.b3 << i.a3 - i.b3 << -i.a3 << i.a3 * i.b3 << i.a3 * i.k[0] << i.a3 / i.k[1] << (i.a3 == i.b3) << (i.a3 != i.b3))
OP("Vec3", "cross", o << i.a3 % i.b3 << i.a3 % i.c << i.a3 % i.ax)
OP("Vec3", "* Mat3", Vec3<R> a = i.a3; a *= i.m3; o << a << i.b3 * i.m3)
OP("Vec3", "queries", o << i.a3.copy() << i.a3.length() << i.a3.lengthSqr() << i.a3.moved(i.c, i.k[0]) << i.a3.majorCoord() << i.a3.minorCoord() << i.a3.isNull() << i.a3[i.d] << i.a3.toVec2(i.c))
OP("Vec3", "cast", o << i.a3.template cast<float>().template cast<R>() << i.a3.template cast<double>().template cast<R>())
OP("Vec3", "statics", o << Vec3<R>::product(i.a3, i.b3) << Vec3<R>::min(i.a3, i.b3) << Vec3<R>::max(i.a3, i.b3))
OP("Vec3", "distance", o << distance(i.a3, i.b3) << distanceSqr(i.a3, i.b3))
OP("Vec3", "lerp", o << lerp(i.a3, i.b3, i.k[3]) << lerp(i.a3, i.b3, i.k[3], i.mode))

OP("Vec4", "constructors", Vec4<R> a(i.k[0]); Vec4<R> b(i.k[0], i.k[1], i.k[2], i.k[3]); Vec4<R> c(i.a3, i.k[0]); o << a << b << c)
OP("Vec4", "set", Vec4<R> a; a.set(i.k[0], i.k[1], i.k[2], i.k[3]); o << a; a.set(i.a3, i.k[1]); o << a; a.set(i.b4); o << a; a.set(Coord::W, i.k[2]); o << a)
OP("Vec4", "in place", Vec4<R> a = i.a4; a += i.b4; o << a; a -= i.a4; o << a; a += i.a3; o << a; a -= i.b3; o << a; a *= i.k[1]; o << a; a /= i.k[2]; o << a)
OP("Vec4", "operators", o << i.a4 + i.b4 << i.a4 - i.b4 << -i.a4 << i.a4 * i.b4 << i.a4 * i.k[0] << i.a4 / i.k[1] << (i.a4 == i.b4) << (i.a4 != i.b4))
OP("Vec4", "queries", o << i.a4.copy() << i.a4.length() << i.a4.lengthSqr() << i.a4.moved(Coord::Z, i.k[0]) << i.a4.toVec3() << i.a4.isNull())
OP("Vec4", "cast", o << i.a4.template cast<float>().template cast<R>() << i.a4.template cast<double>().template cast<R>())
OP("Vec4", "statics", o << Vec4<R>::product(i.a4, i.b4) << Vec4<R>::min(i.a4, i.b4) << Vec4<R>::max(i.a4, i.b4))

OP("Quat", "constructors", Quat<R> a(i.k[0], i.k[1], i.k[2], i.k[3]); Quat<R> b(i.k[0], i.k[1], i.k[2], i.k[3], false); o << a << b; a.setIdentity(); o << a; a.set(i.q); o << a << Quat<R>::from(i.r))
OP("Quat", "set(Mat3)", Quat<R> a; a.set(i.r3); o << a << Quat<R>::from(i.s3))
OP("Quat", "set(Mat4)", Quat<R> a; a.set(i.r4); o << a << Quat<R>::from(i.s4))
OP("Quat", "set(axis, angle)", Quat<R> a; a.set(i.u3, i.k[0]); o << a << Quat<R>::from(i.u3, i.k[1]))
OP("Quat", "set(from, to)", Quat<R> a; a.set(i.a3, i.b3); o << a << Quat<R>::from(i.c3, i.d3))
OP("Quat", "lerp", Quat<R> a = i.q; a.lerp(a, i.r, i.k[3]); o << a << Quat<R>::fromLerp(i.q, i.s, i.k[4]))
OP("Quat", "slerp", Quat<R> a = i.q; a.slerp(a, i.r, i.k[3]); o << a << Quat<R>::fromSlerp(i.q, i.s, i.k[4]))
OP("Quat", "slerpMaxAngle", Quat<R> a = i.q; a.slerpMaxAngle(i.r, a, i.k[3]); o << a << Quat<R>::fromSlerpMaxAngle(i.q, i.s, i.k[4]))
OP("Quat", "slerpNoInvert", Quat<R> a = i.q; a.slerpNoInvert(a, i.r, i.k[3]); o << a << Quat<R>::fromSlerpNoInvert(i.q, i.s, i.k[4]))
OP("Quat", "squad", Quat<R> a; a.set(i.q, i.r, i.s, i.p, i.k[3]); o << a << Quat<R>::from(i.q, i.r, i.s, i.p, i.k[4]))
OP("Quat", "squad control", Quat<R> a; a.set(i.q, i.r, i.s); o << a << Quat<R>::from(i.r, i.s, i.p))
OP("Quat", "normalize", Quat<R> a(i.k[0], i.k[1], i.k[2], i.k[3], false); a.normalize(); o << a)
OP("Quat", "operators", Quat<R> a = i.q * i.r; o << a; a = a * i.s; o << a << i.q / i.r << -i.q << i.q * i.a3 << (i.q == i.r) << (i.q != i.r))
OP("Quat", "rotated", o << i.q.rotated(i.c) << i.q.rotated(i.a3) << i.q.inverse())
OP("Quat", "toAxisAngle", Vec3<R> v; R a = 0; i.q.toAxisAngle(v, a); o << v << a)
OP("Quat", "cast", o << i.q.template cast<float>().template cast<R>() << i.q.template cast<double>().template cast<R>())
OP("Quat", "log exp", o << Quat<R>::log(i.q) << Quat<R>::exp(Quat<R>::log(i.r)))

OP("Mat2", "constructors", Mat2<R> a(i.k[0]); Mat2<R> b(i.a2, i.b2); o << a << b; a.setIdentity(); o << a; a.set(i.m2); o << a; a.set(i.c2, i.d2); o << a << Mat2<R>::from(i.a2, i.b2))
OP("Mat2", "set(angle)", Mat2<R> a; a.set(i.k[0]); o << a << Mat2<R>::from(i.k[1]))
OP("Mat2", "slerp", Mat2<R> a = i.r2; a.slerp(a, i.s2, i.k[3]); o << a << Mat2<R>::fromSlerp(i.r2, i.s2, i.k[4]))
OP("Mat2", "slerpMaxAngle", Mat2<R> a = i.r2; a.slerpMaxAngle(i.s2, a, i.k[3]); o << a << Mat2<R>::fromSlerpMaxAngle(i.r2, i.s2, i.k[4]))
OP("Mat2", "in place", Mat2<R> a = i.m2; a *= i.k[1]; o << a; a *= i.n2; o << a; a /= i.k[2]; o << a; a.scale(i.a2); o << a; a.transpose(); o << a)
OP("Mat2", "operators", o << -i.m2 << i.m2 * i.n2 << i.m2 * i.k[0] << i.m2 * i.a2 << i.m2 / i.k[1] << (i.m2 == i.n2) << (i.m2 != i.n2))
OP("Mat2", "multiply", Mat2<R> a; Mat2<R> b; Mat2<R>::multiply(a, i.m2, i.n2); o << a; Mat2<R>::multiply(b, i.r2, a); o << b)
OP("Mat2", "rotate", Mat2<R> a = i.m2; a.rotate(i.k[0]); o << a; a.rotatePre(i.k[1]); o << a << i.r2.rotated(i.k[2]))
OP("Mat2", "orthonormalise", Mat2<R> a = i.m2; a.orthonormalise(); o << a; a.optimize(); o << a << a.isOrthonormal())
OP("Mat2", "derived", o << i.m2.scaled(i.a2) << i.m2.transposed() << i.m2.cofactors() << i.m2.adjoint() << i.m2.trace())
OP("Mat2", "inverse", o << i.m2.inversed() << i.m2.determinant() << i.r2.inversed())
OP("Mat2", "queries", o << i.r2.angle() << i.m2.normalError() << i.m2.orthogonalError() << i.m2.identityError() << i.m2.isNormal() << i.r2.isOrthogonal() << i.r2.isOrthonormal() << i.m2.isIdentity() << i.m2.isInitialized())
OP("Mat2", "cast", o << i.m2.template cast<float>().template cast<R>() << i.m2.template cast<double>().template cast<R>())
OP("Mat2", "transform", Vec2<R> v; i.m2.transform(v, i.a2); o << v; v = i.b2; i.r2.transform(v, v); o << v)
OP("Mat2", "transform array", Vec2<R> v[N]; i.m2.transform(v, i.v2, N); for (auto& x : v) o << x)
OP("Mat2", "transform strided", Vec2<R> v[6]; for (auto& x : v) x = i.b2; i.m2.transform(v, i.v2, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x)

OP("Mat3", "constructors", Mat3<R> a(i.k[0]); Mat3<R> b(i.a3, i.b3, i.c3); o << a << b; a.setIdentity(); o << a; a.set(i.m3); o << a; a.set(i.c3, i.d3, i.a3); o << a << Mat3<R>::from(i.a3, i.b3, i.d3))
OP("Mat3", "set(Quat)", Mat3<R> a; a.set(i.q); o << a << Mat3<R>::from(i.r))
OP("Mat3", "set(frame)", Mat3<R> a; a.set(i.c, i.a3, i.d, i.b3); o << a << Mat3<R>::from(i.d, i.a3, i.c, i.c3))
OP("Mat3", "set(axis, angle)", Mat3<R> a; a.set(i.u3, i.k[0]); o << a << Mat3<R>::from(i.u3, i.k[1]))
OP("Mat3", "set(coord, angle)", Mat3<R> a; a.set(i.c, i.k[0]); o << a << Mat3<R>::from(i.d, i.k[1]))
OP("Mat3", "slerp", Mat3<R> a = i.r3; a.slerp(a, i.s3, i.k[3]); o << a << Mat3<R>::fromSlerp(i.r3, i.s3, i.k[4]))
OP("Mat3", "slerpMaxAngle", Mat3<R> a = i.r3; a.slerpMaxAngle(i.s3, a, i.k[3]); o << a << Mat3<R>::fromSlerpMaxAngle(i.r3, i.s3, i.k[4]))
OP("Mat3", "in place", Mat3<R> a = i.m3; a *= i.k[1]; o << a; a *= i.n3; o << a; a /= i.k[2]; o << a; a.scale(i.a3); o << a; a.transpose(); o << a)
OP("Mat3", "operators", o << -i.m3 << i.m3 * i.n3 << i.m3 * i.k[0] << i.m3 * i.a3 << i.m3 / i.k[1] << (i.m3 == i.n3) << (i.m3 != i.n3))
OP("Mat3", "multiply", Mat3<R> a; Mat3<R> b; Mat3<R>::multiply(a, i.m3, i.n3); o << a; Mat3<R>::multiply(b, i.r3, a); o << b)
OP("Mat3", "rotate", Mat3<R> a = i.m3; a.rotate(i.n3); o << a; a.rotate(i.q); o << a; a.rotate(i.u3, i.k[0]); o << a; a.rotate(i.c, i.k[1]); o << a)
OP("Mat3", "rotatePre", Mat3<R> a = i.m3; a.rotatePre(i.n3); o << a; a.rotatePre(i.q); o << a; a.rotatePre(i.u3, i.k[0]); o << a; a.rotatePre(i.c, i.k[1]); o << a)
OP("Mat3", "rotated", o << i.m3.rotated(i.n3) << i.m3.rotated(i.q) << i.m3.rotated(i.u3, i.k[0]) << i.m3.rotated(i.d, i.k[1]))
OP("Mat3", "rotatedPre", o << i.m3.rotatedPre(i.n3) << i.m3.rotatedPre(i.q) << i.m3.rotatedPre(i.u3, i.k[0]) << i.m3.rotatedPre(i.d, i.k[1]))
OP("Mat3", "orthonormalise", Mat3<R> a = i.m3; a.orthonormalise(); o << a; a.optimize(); o << a << a.isOrthonormal())
OP("Mat3", "invert", Mat3<R> a = i.m3; a.invert(); o << a; a = i.r3; a.invert(); o << a)
OP("Mat3", "derived", o << i.m3.scaled(i.a3) << i.m3.transposed() << i.m3.cofactors() << i.m3.adjoint() << i.m3.trace() << i.m3.determinant())
OP("Mat3", "inversed", o << i.m3.inversed() << i.r3.inversed())
OP("Mat3", "queries", o << i.m3.normalError() << i.m3.orthogonalError() << i.m3.identityError() << i.m3.isNormal() << i.r3.isOrthogonal() << i.r3.isOrthonormal() << i.m3.isIdentity() << i.m3.isInitialized())
OP("Mat3", "cast", o << i.m3.template cast<float>().template cast<R>() << i.m3.template cast<double>().template cast<R>())
OP("Mat3", "transform", Vec3<R> v; i.m3.transform(v, i.a3); o << v; v = i.b3; i.r3.transform(v, v); o << v)
OP("Mat3", "transform array", Vec3<R> v[N]; i.m3.transform(v, i.v3, N); for (auto& x : v) o << x)
OP("Mat3", "transform strided", Vec3<R> v[6]; for (auto& x : v) x = i.b3; i.m3.transform(v, i.v3, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x)

OP("Mat34", "constructors", Mat34<R> a(i.k[0]); Mat34<R> b(i.m3, i.a3); Mat34<R> c(i.a3, i.b3, i.c3, i.d3); o << a << b << c; a.setIdentity(); o << a; a.set(i.m34); o << a; a.set(i.n3); o << a; a.set(i.b3, i.c3, i.a3); o << a)
OP("Mat34", "set(rotations)", Mat34<R> a; a.set(i.c, i.a3, i.d, i.b3); o << a; a.set(i.u3, i.k[0], i.a3); o << a; a.set(i.c, i.k[1]); o << a; a.set(i.q, i.b3); o << a)
OP("Mat34", "from", o << Mat34<R>::from(i.q, i.a3) << Mat34<R>::from(i.a3, i.b3, i.c3, i.d3) << Mat34<R>::from(i.c, i.a3, i.d, i.b3) << Mat34<R>::from(i.u3, i.k[0]) << Mat34<R>::from(i.c, i.k[1], i.b3))
OP("Mat34", "slerp", Mat34<R> a = i.r34; a.slerp(a, i.s34, i.k[3]); o << a << Mat34<R>::fromSlerp(i.r34, i.s34, i.k[4]))
OP("Mat34", "slerpMaxAngle", Mat34<R> a = i.r34; a.slerpMaxAngle(i.s34, a, i.k[3]); o << a << Mat34<R>::fromSlerpMaxAngle(i.r34, i.s34, i.k[4]))
OP("Mat34", "operators", Mat34<R> a = i.m34; a *= i.n3; o << a; a *= i.n34; o << a << -i.m34 << i.m34 * i.n3 << i.m34 * i.n34 << i.m34 * i.a3 << (i.m34 == i.n34) << (i.m34 != i.n34) << i.m34[i.c])
OP("Mat34", "multiply", Mat34<R> a; Mat34<R> b; Mat34<R>::multiply(a, i.m34, i.n34); o << a; Mat34<R>::multiply(b, i.r34, a); o << b)
OP("Mat34", "rotate", Mat34<R> a = i.m34; a.rotate(i.q); o << a; a.rotate(i.u3, i.k[0]); o << a; a.rotate(i.c, i.k[1]); o << a)
OP("Mat34", "rotatePre", Mat34<R> a = i.m34; a.rotatePre(i.q); o << a; a.rotatePre(i.u3, i.k[0]); o << a; a.rotatePre(i.c, i.k[1]); o << a)
OP("Mat34", "translate scale", Mat34<R> a = i.m34; a.translate(i.a3); o << a; a.scale(i.b3); o << a; a.translatePre(i.c3); o << a; a.scalePre(i.d3); o << a)
OP("Mat34", "transform(matrix)", Mat34<R> a = i.m34; a.transform(i.n3); o << a; a.transform(i.n34); o << a; a.transformPre(i.n3); o << a; a.transformPre(i.n34); o << a)
OP("Mat34", "invert", Mat34<R> a = i.m34; a.invert(); o << a; a = i.r34; a.invert(); o << a)
OP("Mat34", "transpose optimize", Mat34<R> a = i.m34; a.transpose(); o << a; a = i.r34; a.optimize(); o << a << a.isOrthonormal())
OP("Mat34", "local frame", o << i.m34.localAxis(i.c) << i.r34.localPlane(i.d) << i.r34.localPlane(i.ax))
OP("Mat34", "queries", o << i.m34.isNormal() << i.r34.isOrthogonal() << i.r34.isOrthonormal() << i.m34.isIdentity() << i.m34.isInitialized())
OP("Mat34", "cast", o << i.m34.template cast<float>().template cast<R>() << i.m34.template cast<double>().template cast<R>())
OP("Mat34", "transform", Vec3<R> v; i.m34.transform(v, i.a3); o << v; v = i.b3; i.r34.transform(v, v); o << v)
OP("Mat34", "transform array", Vec3<R> v[N]; i.m34.transform(v, i.v3, N); for (auto& x : v) o << x)
OP("Mat34", "transform strided", Vec3<R> v[6]; for (auto& x : v) x = i.b3; i.m34.transform(v, i.v3, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x)

OP("Mat4", "constructors", Mat4<R> a(i.k[0]); Mat4<R> b(i.m3, i.a3); Mat4<R> c(i.a3, i.b3, i.c3, i.d3); Mat4<R> d(i.a4, i.b4, i.v4[1], i.v4[2]); o << a << b << c << d)
OP("Mat4", "set", Mat4<R> a; a.setIdentity(); o << a; a.set(i.m4); o << a; a.set(i.n3, i.a3); o << a; a.set(i.b3, i.c3, i.a3); o << a; a.set(i.a4, i.v4[1], i.b4, i.v4[3]); o << a)
OP("Mat4", "set(rotations)", Mat4<R> a; a.set(i.c, i.a3, i.d, i.b3); o << a; a.set(i.u3, i.k[0]); o << a; a.set(i.c, i.k[1]); o << a; a.set(i.q, i.b3); o << a)
OP("Mat4", "from", o << Mat4<R>::from(i.q, i.a3) << Mat4<R>::from(i.a3, i.b3, i.c3, i.d3) << Mat4<R>::from(i.c, i.a3, i.d, i.b3) << Mat4<R>::from(i.u3, i.k[0]) << Mat4<R>::from(i.c, i.k[1]))
OP("Mat4", "from(Vec4)", o << Mat4<R>::from(i.a4, i.b4, i.v4[0], i.v4[1]) << Mat4<R>::from(i.b4, i.a4, i.v4[0]))
OP("Mat4", "in place", Mat4<R> a = i.m4; a *= i.k[1]; o << a; a /= i.k[2]; o << a; a.transpose(); o << a)
OP("Mat4", "operators", o << -i.m4 << i.m4 * i.n4 << i.m4 * i.k[0] << i.m4 * i.a3 << i.m4 * i.a4 << i.m4 / i.k[1] << (i.m4 == i.n4) << (i.m4 != i.n4) << i.m4[i.c])
OP("Mat4", "multiply", Mat4<R> a; Mat4<R> b; Mat4<R>::multiply(a, i.m4, i.n4); o << a; Mat4<R>::multiply(b, i.r4, a); o << b)
OP("Mat4", "rotate", Mat4<R> a = i.m4; a.rotate(i.q); o << a; a.rotate(i.u3, i.k[0]); o << a; a.rotate(i.c, i.k[1]); o << a)
OP("Mat4", "rotatePre", Mat4<R> a = i.m4; a.rotatePre(i.q); o << a; a.rotatePre(i.u3, i.k[0]); o << a; a.rotatePre(i.c, i.k[1]); o << a)
OP("Mat4", "translate scale", Mat4<R> a = i.m4; a.translate(i.a3); o << a; a.scale(i.b3); o << a; a.translatePre(i.c3); o << a; a.scalePre(i.d3); o << a)
OP("Mat4", "transform(matrix)", Mat4<R> a = i.m4; a.transform(i.n4); o << a; a.transformPre(i.n4); o << a << i.m4.transformed(i.n4) << i.m4.transformedPre(i.n4))
OP("Mat4", "rotated", o << i.m4.rotated(i.q) << i.m4.rotated(i.u3, i.k[0]) << i.m4.rotated(i.c, i.k[1]) << i.m4.translated(i.a3) << i.m4.scaled(i.b3))
OP("Mat4", "rotatedPre", o << i.m4.rotatedPre(i.q) << i.m4.rotatedPre(i.u3, i.k[0]) << i.m4.rotatedPre(i.c, i.k[1]) << i.m4.translatedPre(i.a3) << i.m4.scaledPre(i.b3))
OP("Mat4", "orthonormalise", Mat4<R> a = i.n4; a.orthonormalise(); o << a; a.optimize(); o << a << a.isOrthonormal())
OP("Mat4", "invert general", Mat4<R> a = i.m4; a.invert(); o << a << i.m4.determinant())
OP("Mat4", "invert affine", Mat4<R> a = i.n4; a.invert(); o << a << i.n4.determinant())
OP("Mat4", "inversed", o << i.m4.inversed() << i.n4.inversed() << i.r4.inversed())
OP("Mat4", "derived", o << i.m4.transposed() << i.m4.trace() << i.m4.localAxis(i.c) << i.r4.localPlane(i.d) << i.r4.localPlane(i.ax))
OP("Mat4", "queries", o << i.m4.normalError() << i.m4.orthogonalError() << i.m4.identityError() << i.m4.isNormal() << i.r4.isOrthogonal() << i.r4.isOrthonormal() << i.m4.isIdentity() << i.r4.isTrs() << i.m4.isInitialized())
OP("Mat4", "cast", o << i.m4.template cast<float>().template cast<R>() << i.m4.template cast<double>().template cast<R>())
OP("Mat4", "transform", Vec3<R> v; i.m4.transform(v, i.a3); o << v; v = i.b3; i.r4.transform(v, v); o << v; Vec4<R> w; i.m4.transform(w, i.a4); o << w)
OP("Mat4", "transform array", Vec3<R> v[N]; i.m4.transform(v, i.v3, N); for (auto& x : v) o << x)
OP("Mat4", "transform strided", Vec3<R> v[6]; for (auto& x : v) x = i.b3; i.m4.transform(v, i.v3, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x)
OP("Mat4", "transform array of Vec4", Vec4<R> v[N]; i.m4.transform(v, i.v4, N); for (auto& x : v) o << x)
OP("Mat4", "transform strided Vec4", Vec4<R> v[6]; for (auto& x : v) x = i.b4; i.m4.transform(v, i.v4, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x)
OP("Mat4", "transformVector", Vec3<R> v; i.m4.transformVector(v, i.a3); o << v; Vec4<R> w; i.m4.transformVector(w, i.a4); o << w)
OP("Mat4", "transformVector array", Vec3<R> v[N]; i.m4.transformVector(v, i.v3, N); for (auto& x : v) o << x; Vec4<R> w[N]; i.n4.transformVector(w, i.v4, N); for (auto& x : w) o << x)
OP("Mat4", "transformVector strided", Vec3<R> v[6]; for (auto& x : v) x = i.b3; i.m4.transformVector(v, i.v3, 3, 2 * sizeof *v, 2 * sizeof *v); for (auto& x : v) o << x; Vec4<R> w[6]; for (auto& x : w) x = i.b4; i.m4.transformVector(w, i.v4, 3, 2 * sizeof *w, 2 * sizeof *w); for (auto& x : w) o << x)

#define BOXOPS(B, C, K, e, f, g, h, a, b, vs, y, l, in1, in2, vol) \
OP(#B, "set", B<R> x(i.e.inf, i.f.sup); o << x; x.set(i.a); o << x; x.set(i.e.inf, i.e.sup); o << x; x.set(i.g); o << x << B<R>::from(i.a) << B<R>::from(i.f.inf, i.f.sup) << B<R>::from(i.h)) \
OP(#B, "set(points)", B<R> x; x.set(N, i.vs); o << x; x.set(N / 2, i.vs, int(2 * sizeof *i.vs)); o << x << B<R>::from(5, i.vs) << B<R>::from(2, i.vs, int(2 * sizeof *i.vs))) \
OP(#B, "add", B<R> x = i.e; x.add(i.vs[4]); o << x; x.add(i.a); o << x) \
OP(#B, "set algebra", o << B<R>::fromIntersection(i.e, i.f) << B<R>::fromUnion(i.e, i.f)) \
OP(#B, "in place", B<R> x = i.e; x += i.a; o << x; x -= i.b; o << x; x *= i.k[1]; o << x; x /= i.k[2]; o << x; x.scaleCentered(i.k[0]); o << x) \
OP(#B, "operators", o << i.e + i.a << i.e - i.b << i.e * i.k[0] << i.e / i.k[1] << (i.e == i.f) << (i.e != i.f)) \
OP(#B, "queries", o << i.e.center() << i.e.extents() << i.e.size() << i.e.in1() << i.e.in2() << i.e.vol() << i.e.isNull() << i.e.pointAt(i.a)) \
OP(#B, "contains", o << i.e.contains(i.a) << i.e.contains(i.f) << i.e.intersects(i.f)) \
OP(#B, "hits", R t = 0; o << i.e.hits(t, i.y) << t; t = 0; o << i.e.hits(t, i.l) << t) \
OP(#B, "intersects", R s = 0; R t = 0; o << i.e.intersects(s, t, i.y) << s << t; s = t = 0; o << i.e.intersects(s, t, i.l) << s << t) \
OP(#B, "cast", o << i.e.template cast<float>().template cast<R>() << i.e.template cast<double>().template cast<R>()) \
OP(#C, "set", C<R> x(i.a, i.g.extents); o << x; x.set(i.a); o << x; x.set(i.b, i.h.extents); o << x; x.set(i.e); o << x << C<R>::from(i.a) << C<R>::from(i.b, i.g.extents)) \
OP(#C, "set(points)", C<R> x; x.set(N, i.vs); o << x; x.set(N / 2, i.vs, int(2 * sizeof *i.vs)); o << x << C<R>::from(5, i.vs) << C<R>::from(2, i.vs, int(2 * sizeof *i.vs))) \
OP(#C, "add", C<R> x = i.g; x.add(i.vs[4]); o << x; x.add(i.a); o << x) \
OP(#C, "in place", C<R> x = i.g; x += i.a; o << x; x -= i.b; o << x; x *= i.k[1]; o << x; x /= i.k[2]; o << x) \
OP(#C, "operators", o << i.g + i.a << i.g - i.b << i.g * i.k[0] << i.g / i.k[1] << (i.g == i.h) << (i.g != i.h)) \
OP(#C, "queries", o << i.g.inf() << i.g.sup() << i.g.size() << i.g.in1() << i.g.in2() << i.g.vol() << i.g.isNull() << i.g.pointAt(i.a)) \
OP(#C, "contains", o << i.g.contains(i.a) << i.g.contains(i.h) << i.g.intersects(i.h)) \
OP(#C, "cast", o << i.g.template cast<float>().template cast<R>() << i.g.template cast<double>().template cast<R>()) \
OP(#K, "set", K<R> x(i.a, i.k[3]); o << x; x.set(i.b, i.k[5]); o << x << K<R>::from(i.a, i.k[0])) \
OP(#K, "set(points)", K<R> x; x.set(N, i.vs); o << x; x.set(N / 2, i.vs, int(2 * sizeof *i.vs)); o << x << K<R>::from(5, i.vs) << K<R>::from(2, i.vs, int(2 * sizeof *i.vs)))
BOXOPS(AABB2, CAABB2, Circle, e2, f2, g2, h2, a2, b2, v2, y2, l2, innerCircle, outerCircle, area)
BOXOPS(AABB3, CAABB3, Sphere, e3, f3, g3, h3, a3, b3, v3, y3, l3, innerSphere, outerSphere, volume)
#undef BOXOPS
OP("CAABB2", "fromInfSup", o << CAABB2<R>::fromInfSup(i.e2.inf, i.f2.sup))
OP("CAABB3", "from(AABB3)", o << CAABB3<R>::from(i.e3) << i.g3.contains(i.si) << i.e3.contains(i.sj))
#define BALLOPS(K, V_, ci, cj, a, b) \
OP(#K, "in place", K<R> x = i.ci; x += i.a; o << x; x -= i.b; o << x; x *= i.k[3]; o << x; x /= i.k[5]; o << x) \
OP(#K, "operators", o << i.ci + i.a << i.ci - i.b << i.ci * i.k[0] << i.ci / i.k[3] << (i.ci == i.cj) << (i.ci != i.cj)) \
OP(#K, "contains", o << i.ci.contains(i.a) << i.ci.contains(i.cj) << i.ci.intersects(i.cj)) \
OP(#K, "hits", V_<R> h; R t = 0; h = i.b; o << i.ci.hits(h, t, i.l3) << h << t) \
OP(#K, "intersects line", V_<R> h; R t = 0; h = i.b; o << i.ci.intersects(h, t, i.l3) << h << t << i.ci.intersects(i.l3)) \
OP(#K, "intersects ball", V_<R> h; R t = 0; h = i.b; o << i.ci.intersects(h, t, i.cj) << h << t) \
OP(#K, "cast", o << i.ci.template cast<float>().template cast<R>() << i.ci.template cast<double>().template cast<R>())
BALLOPS(Circle, Vec2, ci, cj, a2, b2)
BALLOPS(Sphere, Vec3, si, sj, a3, b3)
#undef BALLOPS

OP("Plane", "set(normal, distance)", Plane<R> p; p.set(i.u3, i.k[0]); o << p << Plane<R>::from(i.u3, i.k[1]); p.set(i.pb, i.k[2]); o << p << Plane<R>::from(i.pc, i.k[0]))
OP("Plane", "set(point, normal)", Plane<R> p; p.set(i.a3, i.u3); o << p << Plane<R>::from(i.b3, i.u3))
OP("Plane", "set(tangents)", Plane<R> p; p.setFromPointAndTangents(i.a3, i.b3, i.c3); o << p << Plane<R>::fromPointAndTangents(i.b3, i.c3, i.d3))
OP("Plane", "set(three points)", Plane<R> p; p.set(i.a3, i.b3, i.c3); o << p << Plane<R>::from(i.b3, i.d3, i.c3))
OP("Plane", "move flip", Plane<R> p = i.pa; p.move(i.k[0]); o << p; p.flip(); o << p << p.moved(i.k[1]) << p.flipped() << (p == i.pa) << (p != i.pa))
OP("Plane", "distance", o << i.pa.distance(i.a3) << i.pb.contains(i.a3, i.k[0]))
OP("Plane", "project", Vec3<R> v; v = i.b3; o << i.pa.project(v, i.a3) << v; o << i.pb.project(v, i.c3, i.u3) << v)
OP("Plane", "hits ray", Vec3<R> v; v = i.b3; R t = 0; o << i.pa.hits(v, t, i.y3) << v << t << i.pb.intersects(v, t, i.y3) << v << t)
OP("Plane", "hits line", Vec3<R> v; v = i.b3; R t = 0; o << i.pa.hits(v, t, i.l3) << v << t << i.pb.intersects(v, t, i.l3) << v << t; o << i.pc.hits(v, t, i.l3, i.k[0]) << v << t)
OP("Plane", "hits sphere", R t = 0; o << i.pa.hits(t, i.si) << t << i.pb.intersects(t, i.sj) << t)
OP("Plane", "common point", Vec3<R> v; v = i.b3; o << Plane<R>::intersectAtSinglePoint(v, i.pa, i.pb, i.pc) << v)
OP("Plane", "cast", o << i.pa.template cast<float>().template cast<R>() << i.pa.template cast<double>().template cast<R>())
OP("Line", "Line2", Line2<R> l = Line2<R>::from(i.a2, i.b2); o << l << l.length() << l.lengthSqr() << l.isNull() << l.pointAt(i.k[0]) << l.distance(i.c2) << (l == i.l2) << (l != i.l2) << l.template cast<double>().template cast<R>())
OP("Line", "Line3", Line3<R> l = Line3<R>::from(i.a3, i.b3); o << l << l.length() << l.lengthSqr() << l.isNull() << l.pointAt(i.k[0]) << l.distance(i.c3) << (l == i.l3) << (l != i.l3) << l.template cast<double>().template cast<R>())
OP("Line", "Ray2", Ray2<R> l = Ray2<R>::from(i.a2, i.b2); o << l << l.pointAt(i.k[0]) << i.y2.distance(i.c2) << (l == i.y2) << (l != i.y2) << l.template cast<double>().template cast<R>())
OP("Line", "Ray3", Ray3<R> l = Ray3<R>::from(i.a3, i.b3); o << l << l.pointAt(i.k[0]) << i.y3.distance(i.c3) << (l == i.y3) << (l != i.y3) << l.template cast<double>().template cast<R>())
OP("Line", "Tri2", Tri2<R> l = Tri2<R>::from(i.a2, i.b2, i.c2); o << l << l.contains(i.d2) << l.contains(i.b2) << (l == i.t2) << (l != i.t2) << l.template cast<double>().template cast<R>())
OP("Frustum", "construct", Frustum<R> f(i.corners); o << f)
OP("Frustum", "set", Frustum<R> f; f.set(i.corners); o << f)
OP("Frustum", "set(Mat34)", Frustum<R> f; f.set(i.r34, i.corners); o << f)
OP("Frustum", "set(Mat4)", Frustum<R> f; f.set(i.r4, i.corners); o << f)
OP("Frustum", "contains", o << i.fr.contains(i.a3) << i.fr.contains(i.a4) << i.fr.contains(i.si) << i.fr.intersects(i.sj))
OP("Frustum", "cast", o << i.fr.template cast<float>().template cast<R>())

OP("linear", "TriDiagonal reals", R u[N]; o << TriDiagonal<R>::solve(i.ta, i.tb, i.tc, i.tr, u, N); o.raw(u, N); o << TriDiagonal<R>::solve(i.ta, i.tb, i.tc, i.tr, u, 3); o.raw(u, 3))
OP("linear", "TriDiagonal vectors", Vec3<R> u[N]; o << TriDiagonal<R>::solve(i.ta, i.tb, i.tc, i.tv, u, N); for (auto& x : u) o << x)
OP("linear", "TriDiagonal cyclic", R u[N]; o << TriDiagonal<R>::solveCyclic(i.ta, i.tb, i.tc, i.k[0], i.k[1], i.tr, u, N); o.raw(u, N))
OP("linear", "GaussJordan reals", R a[9]; R b[6]; std::copy(i.ga, i.ga + 9, a); std::copy(i.gb, i.gb + 6, b); o << GaussJordan<R>::solve(a, 3, b, 2); o.raw(a, 9); o.raw(b, 6))
OP("linear", "GaussJordan 4x4", R a[16]; R b[4]; std::copy(i.ga, i.ga + 16, a); std::copy(i.gb, i.gb + 4, b); o << GaussJordan<R>::solve(a, 4, b, 1); o.raw(a, 16); o.raw(b, 4))
OP("linear", "GaussJordan Vec2", R a[9]; Vec2<R> b[3]; std::copy(i.ga, i.ga + 9, a); std::copy(i.v2, i.v2 + 3, b); o << GaussJordan<R>::solve(a, 3, b); o.raw(a, 9); for (auto& x : b) o << x)
OP("linear", "GaussJordan Vec3", R a[9]; Vec3<R> b[3]; std::copy(i.ga, i.ga + 9, a); std::copy(i.v3, i.v3 + 3, b); o << GaussJordan<R>::solve(a, 3, b); o.raw(a, 9); for (auto& x : b) o << x)
OP("spline", "natural", Vec3<R> p[9]; Vec3<R> q[9]; o << SplineSolver3<R>::naturalBezierSpline(9, i.v3, p, q); for (int j = 0; j < 8; ++j) o << p[j] << q[j])
OP("spline", "clamped", Vec3<R> p[9]; Vec3<R> q[9]; o << SplineSolver3<R>::bezierSpline(9, i.v3, i.a3, i.b3, p, q); for (int j = 0; j < 8; ++j) o << p[j] << q[j])
OP("spline", "closed", Vec3<R> p[9]; Vec3<R> q[9]; o << SplineSolver3<R>::closedBezierSpline(9, i.v3, p, q); for (int j = 0; j < 9; ++j) o << p[j] << q[j])
OP("spline", "Hermite", HermiteSplineSegment3<R> h(i.a3, i.b3, i.c3, i.d3); o << h.p1() << h.p4() << h.r1() << h.r4() << h.pointAt(i.k[3]) << h.tangentAt(i.k[4]); h.set(i.d3, i.c3, i.b3, i.a3); o << h.pointAt(i.k[3]))
OP("spline", "Hermite weights", typedef HermiteSplineSegment3<R> H; o << H::hp1(i.k[0]) << H::hp4(i.k[0]) << H::hr1(i.k[0]) << H::hr4(i.k[0]) << H::dhp1(i.k[0]) << H::dhp4(i.k[0]) << H::dhr1(i.k[0]) << H::dhr4(i.k[0]))
OP("spline", "Bezier", BezierSegment3<R> h(i.a3, i.b3, i.c3, i.d3); o << h << h.r1() << h.r4() << h.pointAt(i.k[3]) << h.tangentAt(i.k[4]); h.set(i.d3, i.c3, i.b3, i.a3); o << h.pointAt(i.k[3]))
OP("spline", "Bezier weights", typedef BezierSegment3<R> B; o << B::hp1(i.k[0]) << B::hp2(i.k[0]) << B::hp3(i.k[0]) << B::hp4(i.k[0]) << B::dhp1(i.k[0]) << B::dhp2(i.k[0]) << B::dhp3(i.k[0]) << B::dhp4(i.k[0]))
OP("spline", "Bezier frame", Mat3<R> f; f.setIdentity(); o << i.be.frenetFrameAt(f, i.k[3]) << f)
OP("spline", "Bezier split", BezierSegment3<R> s; BezierSegment3<R> e; i.be.split(i.k[3], s, e); o << s << e; s = i.be; s.split(i.k[4], s, e); o << s << e)
OP("spline", "Bezier length", o << i.be.length(3) << i.be.length(7))
OP("spline", "Bezier steps", BezierSegment3FwdDiff<R> f(i.a3, i.b3, i.c3, i.d3, R(.25)); for (int j = 0; j < 4; ++j) { o << f.currentPoint() << f.currentTangent(); f.stepForward(); })

#define COLOROPS(C, a_, b_, ...) \
OP(#C, "interp", C<R> c = i.a_; c.interp(c, i.b_, i.k[3]); o << c << C<R>::fromInterp(i.b_, i.a_, i.k[4]) << (c == i.a_) << (c != i.a_)) \
OP(#C, "cast", o << i.a_.template cast<float>().template cast<R>() << i.a_.template cast<double>().template cast<R>()) \
OP(#C, "set", C<R> c; c.set(i.k[0], i.k[3], i.k[4]); o << c; c.set(i.b_); o << c; __VA_ARGS__)
#define COLORARITH(C, a_, b_) \
OP(#C, "in place", C<R> c = i.a_; c += i.b_; o << c; c -= i.a_; o << c; c *= i.k[1]; o << c; c /= i.k[2]; o << c) \
OP(#C, "operators", o << i.a_ + i.b_ << -i.a_ << i.a_ - i.b_ << i.a_ * i.k[0] << i.a_ / i.k[1] << (i.a_ == i.b_) << (i.a_ != i.b_))
COLOROPS(ColorRGB, rgb, rgc, ColorRGB<R> d(i.k[0]); ColorRGB<R> e(i.n[1], i.n[2], 255); o << d << e)
COLOROPS(ColorRGBA, rga, rgd, ColorRGBA<R> d(i.k[0], i.k[3]); ColorRGBA<R> e(i.n[1], i.n[2], 255, 30); o << d << e)
COLOROPS(ColorHSV, hsv, hsw, ColorHSV<R> d(i.k[0], i.k[3], i.k[4]); o << d)
COLORARITH(ColorRGB, rgb, rgc)
COLORARITH(ColorRGBA, rga, rgd)
OP("ColorRGB", "conversions", o << i.rgb.toRGBA(i.k[0]) << i.rgb.toHSV() << i.rgc.toHSV())
OP("ColorRGBA", "conversions", o << i.rga.toRGB() << i.rga.toHSV() << i.rgd.toHSV())
OP("ColorHSV", "conversions", o << i.hsv.toRGB() << i.hsv.toRGBA(i.k[0]) << i.hsw.toRGB())
#undef COLOROPS
#undef COLORARITH

OP("functions", "angles", o << degreeToRadian(i.k[0]) << radianToDegree(i.k[1]) << ml::asin(i.k[0]) << ml::acos(i.k[3]) << ml::abs(i.k[2]) << next2D(i.k[0] > 0 ? Coord::X : Coord::Y) << next3D(i.c))
OP("functions", "modulus", o << ml::fmod(i.k[1], i.k[0]) << fmodPositive(i.k[2], i.k[0]) << fmodCentered(i.k[1], i.k[0]))
OP("functions", "clipping", o << ml::min(i.k[0], i.k[1]) << ml::max(i.k[0], i.k[1]) << clippedBetween(i.k[1], i.k[4], i.k[3]) << ml::min(i.n[0], i.n[1]) << ml::max(i.n[0], i.n[1]) << clippedBetween(i.n[1], i.n[0], 9))
OP("functions", "evaluate", for (int c = 0; c < 6; ++c) o << evaluate(i.k[3], i.k[4] / 2, ResponseCurveType(c)))
OP("functions", "interpolationRatio", for (int m = 0; m <= int(InterpolationMode::CircularInOut); ++m) o << interpolationRatio(i.k[3], InterpolationMode(m)))
OP("functions", "lerp", o << lerp(i.k[0], i.k[1], i.k[3]) << lerp(i.k[0], i.k[1], i.k[3], i.mode) << lerp(i.n[0], i.n[2], i.k[3]) << lerp(i.n[0], i.n[2], i.k[3], i.mode))
OP("functions", "clerp", R t = 0; o << clerp(i.k[0], i.k[1], i.k[3]) << clerpMaxAngle(i.k[0], i.k[1], i.k[3]) << clerpMaxAngle(i.k[0], i.k[5], i.k[3], t) << t)
OP("constants", "values", o << Constants<R>::PI << Constants<R>::PI_TIMES_2 << Vec2<R>::Zero << Vec3<R>::OneX << Vec4<R>::OneXnw << Quat<R>::One << Mat2<R>::One << Mat3<R>::One << Mat34<R>::One << Mat4<R>::One << Plane<R>::XY << ColorRGB<R>::White << Mat3<R>::DefaultTolerance.identity)

// yes or no questions about points all around
#define ASK(cls, name, N, make, ask) \
OP(cls, name " inside first", const auto c = far##N(i); make; probes(o, c, true, [&](const Vec##N<R>& p) { return ask; })) \
OP(cls, name " inside last", const auto c = far##N(i); make; probes(o, c, false, [&](const Vec##N<R>& p) { return ask; }))
ASK("AABB2", "contains", 2, const AABB2<R> b(around(c, 1, 1) + around(c, 3, 1) - c, around(c, 0, 1) + around(c, 2, 1) - c), b.contains(p))
ASK("AABB3", "contains", 3, const AABB3<R> b(around(c, 13, 2), around(c, 6, 2)), b.contains(p))
ASK("CAABB2", "contains", 2, const CAABB2<R> b(c, Vec2<R>(2)), b.contains(p))
ASK("CAABB3", "contains", 3, const CAABB3<R> b(c, Vec3<R>(2)), b.contains(p))
ASK("Circle", "contains", 2, const Circle<R> b(c, 1), b.contains(p))
ASK("Sphere", "contains", 3, const Sphere<R> b(c, 1), b.contains(p))
ASK("AABB3", "contains sphere", 3, const AABB3<R> b(around(c, 13, 2), around(c, 6, 2)), b.contains(Sphere<R>(p, R(.1))))
ASK("AABB3", "intersects", 3, const AABB3<R> b(around(c, 13, 2), around(c, 6, 2)), b.intersects(AABB3<R>(p, p)))
ASK("CAABB3", "intersects", 3, const CAABB3<R> b(c, Vec3<R>(2)), b.intersects(CAABB3<R>(p, Vec3<R>(R(.1)))))
ASK("Circle", "intersects", 2, const Circle<R> b(c, 1), b.intersects(Circle<R>(p, R(.1))))
ASK("Sphere", "intersects", 3, const Sphere<R> b(c, 1), b.intersects(Sphere<R>(p, R(.1))))
ASK("Frustum", "contains", 3, const Frustum<R> f = farFrustum(i), f.contains(p))
ASK("Frustum", "contains sphere", 3, const Frustum<R> f = farFrustum(i), f.contains(Sphere<R>(p, R(.1))))
ASK("Frustum", "intersects sphere", 3, const Frustum<R> f = farFrustum(i), f.intersects(Sphere<R>(p, R(.1))))
ASK("Line", "Tri2", 2, const Tri2<R> t = Tri2<R>::from(around(c, 0, 3), around(c, 2, 3), around(around(c, 1, 3), 3, 3)), t.contains(p))
ASK("Plane", "contains", 3, const Plane<R> q = Plane<R>::from(c, i.u3), q.contains(p, R(.5)))
