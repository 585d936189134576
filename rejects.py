"""Grammar of small programs whose sizes are all known at compile time: contradictory ones must not compile, consistent ones must."""
def programs():
    out = []  # (name, body, must_compile)
    V = lambda n, x: f"Vector<{n}> {x}; {x} = Ones; "
    M = lambda r, c, x, l="RowMajor": f"Matrix<{r},{c},double,{l}> {x}; {x} = Ones; "
    vops = ["auto x = a + b; use(x);", "auto x = a - b; use(x);", "double x = a * b; use(x);", "auto x = diagmult(a, b); use(x);", "bool x = a == b; use(x);", "bool x = a != b; use(x);",
            "a += b;", "a -= b;", "a = b;", "swap(a, b);", "auto x = a.as_diagonal() * b; use(x);", "a.as_slice() = b;", "auto x = a.as_diagonal() * b.as_diagonal(); use(x);"]
    good = ""
    for op in vops:
        good += "{ " + V(2, "a") + V(2, "b") + op + " }\n"
        for p, q in ((2, 3), (3, 2)): out.append((f"sizes {p} and {q}: {op}", V(p, "a") + V(q, "b") + op, False))
    mops = ["auto x = a + b; use(x);", "auto x = a - b; use(x);", "bool x = a == b; use(x);", "bool x = a != b; use(x);", "a += b;", "a -= b;", "a = b;"]
    for op in mops:
        good += "{ " + M(2, 3, "a") + M(2, 3, "b", "ColMajor") + op + " }\n"
        out.append((f"2x3 and 2x2: {op}", M(2, 3, "a") + M(2, 2, "b") + op, False)); out.append((f"2x3 and 3x3: {op}", M(2, 3, "a") + M(3, 3, "b", "ColMajor") + op, False))
    for l, ok, bad in (("auto x = a * b; use(x);", M(2, 3, "a") + M(3, 2, "b"), M(2, 3, "a") + M(2, 3, "b")),
                       ("auto x = a * b; use(x);", M(2, 3, "a") + V(3, "b"), M(2, 3, "a") + V(2, "b")), ("auto x = b * a; use(x);", M(2, 3, "a") + V(2, "b"), M(2, 3, "a") + V(3, "b")),
                       ("auto x = diagmult(a, b); use(x);", M(2, 3, "a") + V(3, "b"), M(2, 3, "a") + V(2, "b")), ("auto x = diagmult(b, a); use(x);", M(2, 3, "a") + V(2, "b"), M(2, 3, "a") + V(3, "b")),
                       ("auto x = a * b.as_diagonal(); use(x);", M(2, 3, "a") + V(3, "b"), M(2, 3, "a") + V(2, "b")), ("auto x = b.as_diagonal() * a; use(x);", M(2, 3, "a") + V(2, "b"), M(2, 3, "a") + V(3, "b")),
                       ("auto x = a ^ b; use(x);", V(3, "a") + V(3, "b"), V(2, "a") + V(2, "b")), ("auto x = a ^ b; use(x);", V(3, "a") + V(3, "b"), V(3, "a") + V(4, "b")),
                       ("a = Identity;", M(3, 3, "a"), M(2, 3, "a")), ("a += Identity;", M(3, 3, "a"), M(2, 3, "a")), ("auto x = a + Identity; use(x);", M(3, 3, "a"), M(2, 3, "a")),
                       ("use(trace(a));", M(2, 2, "a"), M(2, 3, "a")), ("Symmetrize(a);", M(2, 2, "a"), M(2, 3, "a")), ("auto x = exp(a); use(x);", M(2, 2, "a"), M(2, 3, "a")), ("use(determinant(a));", M(2, 2, "a"), M(2, 3, "a")),
                       ("auto x = cross_product_matrix(a); use(x);", V(3, "a"), V(2, "a")), ("Vector<3> x(a); use(x);", V(3, "a"), V(2, "a")), ("Matrix<2,3> x(a); use(x);", M(2, 3, "a"), M(3, 2, "a")),
                       ("auto x = gaussian_elimination(a, b); use(x);", M(2, 2, "a") + V(2, "b"), M(2, 2, "a") + V(3, "b")), ("auto x = gaussian_elimination(a, b); use(x);", M(2, 2, "a") + M(2, 3, "b"), M(2, 2, "a") + M(3, 3, "b")),
                       ("Cholesky<2> x(a); use(x);", M(2, 2, "a"), M(2, 3, "a")), ("Cholesky<2> x(a); use(x.backsub(b));", M(2, 2, "a") + V(2, "b"), M(2, 2, "a") + V(3, "b")), ("LU<2> x(a); use(x.backsub(b));", M(2, 2, "a") + V(2, "b"), M(2, 2, "a") + V(3, "b")), ("LU<2> x(a); use(x);", M(2, 2, "a"), M(2, 3, "a")),
                       ("SVD<2,3> x(a); use(x.backsub(b));", M(2, 3, "a") + V(2, "b"), M(2, 3, "a") + V(3, "b")),
                       ("Fill(a) = 1, 2, 3;", V(3, "a"), V(2, "a")), ("Fill(a) = 1, 2, 3, 4;", M(2, 2, "a"), M(1, 3, "a")), ("a = Data(1., 2.);", V(2, "a"), V(3, "a")), ("a = Data(1., 2., 3., 4.);", M(2, 2, "a"), M(2, 3, "a")), ("Vector<3> x = makeVector(1., 2., 3.); use(x);", "", None), ("Vector<3> x = makeVector(1., 2.); use(x);", None, "")):
        if ok is not None: good += "{ " + ok + l + " }\n"
        if bad is not None: out.append((f"{bad} {l}", bad + l, False))
    for s in ("0,3", "1,2", "3,0", "0,0", "2,1"): good += "{ " + V(3, "a") + f"auto x = a.slice<{s}>(); use(x); const Vector<3>& k = a; auto y = k.slice<{s}>(); use(y); }}\n"
    for s in ("0,4", "1,3", "3,1", "4,0", "-2,2", "0,-2"): out.append((f"Vector<3>.slice<{s}>()", V(3, "a") + f"auto x = a.slice<{s}>(); use(x);", False)); out.append((f"const Vector<3>.slice<{s}>()", V(3, "a0") + f"const Vector<3>& a = a0; auto x = a.slice<{s}>(); use(x);", False))
    for s in ("0,0,2,3", "1,2,1,1", "2,3,0,0", "0,1,2,2"): good += "{ " + M(2, 3, "a") + f"auto x = a.slice<{s}>(); use(x); }}\n"
    for s in ("0,0,3,3", "0,0,2,4", "1,0,2,1", "0,2,1,2", "-2,0,1,1", "0,-2,1,1", "0,0,-2,1", "0,0,1,-2"): out.append((f"Matrix<2,3>.slice<{s}>()", M(2, 3, "a") + f"auto x = a.slice<{s}>(); use(x);", False))
    out.append(("fixed-size vector with too few list elements", "Vector<3> x {{1., 2.}}; use(x);", False)); out.append(("fixed-size vector with too many list elements", "Vector<2> x {{1., 2., 3.}}; use(x);", False)); good += "{ Vector<3> x {{1., 2., 3.}}; use(x); }\n"
    out.insert(0, ("all consistent programs", good, True))
    pre = "#include <TooN/TooN.h>\n#include <TooN/helpers.h>\n#include <TooN/determinant.h>\n#include <TooN/Cholesky.h>\n#include <TooN/LU.h>\n#include <TooN/SVD.h>\nusing namespace TooN;\ntemplate<class T> void use(const T&) {}\nint main() { "
    return [(n, pre + b + "\n}\n", ok) for n, b, ok in out]
