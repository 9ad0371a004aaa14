# float variants are built by g++ with assertions compiled out; double variants by clang++ with the library's assertions on and
# every automatic variable filled with NaN bytes, so that what the library forgets to assign is not what happened to lie on the stack
# property id -> harness variants and the text that goes into the evidence
def fd(src, **kw):
    return [dict(name=src.replace(".cpp", "") + "_" + r, src=src, defs=["-DMC_REAL=" + r] + kw.get("defs", []),
                 cxx="g++" if r == "float" else "clang++",
                 flags=["-O2", "-DNDEBUG"] if r == "float" else ["-O2", "-ftrivial-auto-var-init=pattern"]) for r in ("float", "double")]

# the same exploration (smaller alphabets) with AddressSanitizer watching every access
def asan(src, real="float"):
    return [dict(name=src.replace(".cpp", "") + "_asan", src=src, defs=["-DMC_REAL=" + real, "-DMC_ASAN"], flags=["-O1", "-g", "-fsanitize=address"])]

CHECKS = {
    "C01": dict(variants=fd("c01.cpp"), bounds='float and double; all vectors and vector pairs over the component alphabets {0,+-1,2,-3,.5}, {0,1,1+ulp,-.75,1000,-1e-4,3,-7e5} (15 values for Vec2 and single vectors), each also scaled by a huge and a tiny power of two; every Coord and Axis; 12 scalars; every conversion between dimensions and element types'),
    "C02": dict(variants=fd("c02.cpp"), bounds='float and double; lattice vectors (7 or 5 values per component, also x 2^+-40 / 2^+-300) x 15-degree grid over +-2 turns plus 13 odd angles (thorough 7.5 degrees) x coordinate axes and lattice unit axes; all words of up to 5 (thorough 7) quarter turns and mirrors in place'),
    "C03": dict(variants=fd("c03.cpp"), bounds='float and double; all pairs of a catalogue of 34/52/112/175 matrices (identity, rotations, scales, shears, rank-deficient, projective, badly scaled), all single-entry pairs, all 2x2 pairs over 4 (thorough 5) values, all 3x3 over {-1,0,1}, with every form (pure, in place, Pre, target aliasing an operand, a column, the linear part); vectors over 3-7 values per component'),
    "C04": dict(variants=fd("c04.cpp"), bounds='float and double; the catalogue, all products of two catalogue matrices, each catalogue matrix with one entry changed, with the whole matrix or one row or column in another unit, all unimodular matrices reached by words of up to 6/3/3/3 (thorough 8/5/4/4) elementary operations, all 2x2 over 9 integers, 3x3 over 3 (thorough 5), 4x4 over {0,1} (thorough also {-1,2})'),
    "C05": dict(variants=fd("c05.cpp"), bounds='float and double; explicit-state search over (element values, cached flags): all histories of every public operation with their argument alphabets to depth 4/3/3/3 (thorough 6/5/5/5) for Mat2/Mat3/Mat34/Mat4 with state deduplication (bounded at 6e6 states, reported if reached), every query and operation re-run on a fresh matrix in every state; tolerance bands around identity/normal/orthogonal over a perturbation lattice'),
    "C06": dict(variants=fd("c06.cpp"), bounds='float and double; axes lattice x 15-degree grid for every construction, 4^6 axis pairs x 6 coordinate pairs for frames, catalogue x rotations through every entry point, all rotation sequences to depth 3 (thorough 4), closure of the 24 cube rotations, drift patterns for orthonormalisation'),
    "C07": dict(variants=fd("c07.cpp"), bounds='float and double; affine catalogue x every operation and argument, all operation sequences to depth 4 (thorough 5) from 4 starting matrices, in place and pure, each result applied to a lattice of points and directions and its local rays and planes read'),
    "C08": dict(variants=fd("c08.cpp"), bounds='float and double; every catalogue matrix x counts 0..9 (thorough 0..33) and long counts up to 1025 around powers of two x layouts (disjoint, in place, strided with equal and different strides, interleaved, stride 0) with every byte of the buffers compared; 5^n vectors through the single forms'),
    "C09": dict(variants=fd("c09.cpp"), bounds='float and double; all pairs of a quaternion lattice, unit quaternions x vectors, axis lattice x 7.5-degree grid, all vector pairs of a lattice for from-to, closure and full multiplication tables of the binary octahedral (48) and icosahedral (120) groups by breadth-first search over product/quotient/inverse/matrix round trips'),
    "C10": dict(variants=fd("c10.cpp"), bounds='float and double; angle pairs on a 15/30-degree lattice plus odd ones, all pairs of lattice vectors (Vec2 and Vec3 also in small and large units), quaternions and rotation matrices x 7+ weights x maximum angles, pure and with the target aliasing either operand'),
    "C11": dict(variants=fd("c11.cpp"), bounds='float and double, three units of length; all pairs of boxes over a coordinate grid (degenerate ones included), all point lists up to length 4-5 in every memory layout, long lists with the extreme at every position, all histories of include/grow/move/scale/assign to depth 5-6'),
    "C12": dict(variants=fd("c12.cpp"), bounds='float and double, three units of length; boxes over a grid (degenerate included) x all start/end points and directions of a half-integer lattice inside, on and around the box, every overload'),
    "C13": dict(variants=fd("c13.cpp"), bounds='float and double, three units of length; as C11 for centre/extent boxes, with every conversion to and from bounds'),
    "C14": dict(variants=fd("c14.cpp"), bounds='float and double, three units of length; all ball pairs over a grid, all lines over a lattice against all balls, all point lists up to length 4-5 in every layout, long lists with the extreme at every position'),
    "C15": dict(variants=fd("c15.cpp"), bounds='float and double, three units of length; all planes through three lattice points, normal/offset lattice x points, rays, lines, spheres; all triples of 68 planes for the common point'),
    "C16": dict(variants=fd("c16.cpp"), bounds='float and double, three units of length; all lattice lines and rays x lattice points x parameters; all pairs of 2-D lattice lines for the crossing, exactly and nearly parallel ones included'),
    "C17": dict(variants=fd("c17.cpp"), bounds='float and double, three units of length; every triple of vertices on a 4x4 grid (all orders, degenerate included) x a fine point grid over and around it, also far from the origin and at unrepresentable coordinates'),
    "C18": dict(variants=fd("c18.cpp"), bounds='float and double, three units of length; frusta from field-of-view/aspect/near/far and lattice corner sets x rigid, scaled and sheared transforms x point and sphere lattices placed relative to every plane; decisions one precision step from each plane'),
    "C19": dict(variants=fd("c19.cpp") + asan("c19.cpp"), bounds='float, double and float under AddressSanitizer; all matrices up to 4x4 over small integer alphabets against exact integer elimination x 1..4 right-hand sides, permuted/scaled systems, dominant systems up to 129 unknowns built from known solutions; all tridiagonal and cyclic systems up to 4 (thorough 5) unknowns over 3-7 integers and diagonally dominant ones up to 6 (thorough 8)'),
    "C20": dict(variants=fd("c20.cpp") + asan("c20.cpp"), bounds='float, double and float under AddressSanitizer; all point sequences of length 2..6 (thorough ..8) over 5 points (x 9 end pairs when clamped), 6 patterns of length up to 33 (thorough 66) and around powers of two to 5000, in five units'),
    "C21": dict(variants=fd("c21.cpp"), bounds='float and double, three units of length; all segments over a 7-value control-point alphabet in the plane and per axis x parameter grid, step counts 1..9 and larger, split parameters'),
    "C22": dict(variants=fd("c22.cpp"), bounds='float and double; all channel tuples over 3-6 values, all pairs, all byte values in every channel, all histories of in-place operations to depth 4 (thorough 6) against plain channels'),
    "C23": dict(variants=fd("c23.cpp"), bounds='float and double; all 2^24 8-bit colours, 39^3 near-grey/near-primary corner colours, hues -720..1080 in half degrees (thorough 1/8) with neighbours of every sector boundary x saturations x values, all hue pairs of a grid x 9 weights'),
    "C24": dict(variants=fd("c24.cpp"), bounds='float and double; every easing mode x 20196 parameters (uniform grid, neighbours of 0, 1/2 and 1, outside values), every response curve x thresholds x inputs, lerp lattices for scalars, integers and vectors'),
    "C25": dict(variants=fd("c25.cpp"), bounds='float and double; all argument pairs of value lattices with neighbours of every multiple of every modulus and of every bound'),
    "C26": dict(variants=fd("c26.cpp"), bounds='float and double; rand() is replaced by the explorer: every sequence of generator outputs over an alphabet of 9-17 values (0, 1, middle, RAND_MAX and neighbours) up to the number of draws of each helper, all integer ranges of a lattice, rejection loops bounded'),
    "C27": dict(variants=fd("c27.cpp"), bounds='float and double; every path of up to 4 (thorough 6) conversions between quaternion, Mat3, Mat34, Mat4, axis-angle and the other element type from 13 axes x 30 angles with a translation; every catalogue matrix cast, read and written through data()'),
    "C28": dict(variants=[dict(v, inc=["libs/testlib/include"], libs=["-lCatch2"]) for v in fd("c28.cpp")], bounds='float and double; all 23 matcher types x 4 targets x 5 margins (and the default) x every pair of components (up to 3 components: every combination, thorough up to 4) x 15 deviations each (inside, outside and at the margin, sign flipped, neighbours, NaN, infinities), exchanged components, drift in all components; every printed form over 5 scales with every single component zero'),
    "C29": dict(variants=[dict(name="c29_float", src="c29.cpp", defs=["-DMC_REAL=float"], flags=["-O2", "-DNDEBUG"], libs=["-lpthread", "-Wl,-z,now"]),
                          dict(name="c29_double", src="c29.cpp", defs=["-DMC_REAL=double"], flags=["-O0"], libs=["-lpthread", "-Wl,-z,now"])],
                bounds='float at -O2 and double at -O0 with assertions; 307 operation bundles x 3 argument sets; all 848 241 ordered pairs of calls; for every call, every number of its operands changed in 4 ways (and every count and enumerator exchanged), followed by the call itself, and both orders of such pairs with numbers of their own; for every call, the other thread runs all calls of the class (thorough: of the library) at every instruction (up to 2500 evenly spaced ones, thorough 20000); one switch at up to 150 (thorough 5000; 1000 for calls that write shared memory) instructions of each call in fresh processes, the second call with the same and other arguments, from 3 starting histories for calls that write shared memory'),
    "C30": dict(variants=fd("c30.cpp"), bounds='float and double; about 140 calls that change an object or fill a result passed by reference, over 24 target types; every way of choosing each operand among the target, its members of the operand type and separate values, with at least one overlap; starting objects: all tuples over 2-6 values per number and ladders of every number (thorough also all pairs); all histories of overlapping calls to depth 2-4 (thorough one more) from 3 objects per type'),
}
