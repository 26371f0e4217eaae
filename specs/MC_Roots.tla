------------------------------ MODULE MC_Roots ------------------------------
(* P11: linear arrays up to a size with every few sources on a raster of     *)
(* directions: the structure that root-MUSIC and ESPRIT rest on.             *)
EXTENDS MC
CONSTANTS Nmax, G, Kmax
Sines == [i \in 1..G |-> NSub(NDiv(2 * i, G + 1), 1)]
RECURSIVE Choose(_, _)
Choose(k, lo) == IF k = 0 THEN {<<>>} ELSE UNION { { <<i>> \o t : t \in Choose(k - 1, i + 1) } : i \in lo..G }
Pw(k) == RowOf([i \in 1..k |-> << "2", "0.5", "1" >>[i]])
Src(q) == [op |-> "ff1", v |-> VecTok(Len(q), RowOf([i \in 1..Len(q) |-> Shown(Sines[q[i]])])), unit |-> "sin", out |-> "s"]
D0(d) == << "0.5", "0.25", "0.4" >>[d]
Call(e, k) == [op |-> "est", e |-> e, R |-> Ref("R"), n |-> k]
Script(n, q, d, wl) ==
    LET k == Len(q)  dd == [d0 |-> NumTok(Shown(NMul(Tok(wl), Tok(D0(d)))))] IN
    << [op |-> "ula", n |-> n, out |-> "a"] @@ dd, Src(q),
       [op |-> "idealcov", a |-> "a", s |-> "s", wl |-> NumTok(wl), p |-> VecTok(k, Pw(k)), sg |-> NumTok("0.25"), out |-> "R"],
       [op |-> "mkest", k |-> "rootmusic", wl |-> NumTok(wl), out |-> "e"], [op |-> "mkest", k |-> "esprit", wl |-> NumTok(wl), out |-> "f"],
       Call("e", k) @@ [unit |-> "sin", out |-> "o"] @@ dd, Call("f", k) @@ [unit |-> "deg", form |-> "ls"] @@ dd, Call("f", k) @@ [form |-> "tls", rw |-> [t |-> "str", v |-> "none"], out |-> "p"] @@ dd,
       Call("e", n) @@ dd, Call("f", n) @@ dd, Call("e", 0), [op |-> "rpoke", x |-> "o"], Call("e", k) @@ dd >>
    \o (IF d # 1 THEN <<>> ELSE << Call("e", k), Call("f", k) >>)
    \o (IF n - 2 < k \/ d = 1 \/ d = 3 THEN <<>> ELSE << Call("f", k) @@ [disp |-> 2] @@ dd, Call("f", k) @@ [disp |-> 2, form |-> "ls", unit |-> "sin"] @@ dd >>)
Init == \E n \in 2..Nmax : \E k \in 1..IMin(Kmax, n - 1) : \E q \in Choose(k, 1) : \E d \in 1..3 : CaseInit(Script(n, q, d, IF (n + k + d) % 2 = 0 THEN "1" ELSE "2"))
Next == CaseNext
Spec == Init /\ [][Next]_<<heap, hist>>

Ar == heap["a"]
Sr == heap["s"]
wl == AsNum(hist[3].wl)
d0 == Ar.att.d0[1]
k == NSrc(Sr)
A == Steer(Ar, Sr, wl, "known")
n == Rows(A)
z == TruthFreqs([truth |-> [s |-> Sr]], wl, d0)
Pn == Complement(Projector(A))
Poly == PolyOf(Pn)
Value(c, x) == FoldLeft(LAMBDA a, b : NAdd(NMul(a, x), b), Tok("0"), c)
Derivative(c) == Vec(Len(c) - 1, LAMBDA i : NMul(c[i], Len(c) - i))
Apart == \A i, j \in 1..k : i < j => Lt(Tok("1e-3"), Abs(NSub(z[i], z[j])))
\* columns are geometric in the frequency
Geometric == \A i \in 1..n : \A j \in 1..k : CloseTo(A[i][j], Pow(z[j], i - 1), TinyTol, 0)
Rotates == \A t \in 1..(n-1) : MatClose(SubSeq(A, 1 + t, n), MatMul(SubSeq(A, 1, n - t), Diag([j \in 1..k |-> Pow(z[j], t)])), TinyTol)
\* every true frequency is a double root, and roots come in conjugate reciprocal pairs
DoubleRoots == Apart => \A j \in 1..k : Le(Abs(Value(Poly, z[j])), TinyTol) /\ Le(Abs(Value(Derivative(Poly), z[j])), TinyTol)
Reciprocal == VecClose(Poly, [i \in 1..Len(Poly) |-> Conj(Poly[Len(Poly) + 1 - i])], TinyTol)
\* on the unit circle the polynomial is the null spectrum: real and not negative
NullSpectrum == \A t \in 0..7 : LET x == CisTurn(NDiv(t, 8))  v == Value(Poly, x)  y == NMul(v, Conj(Pow(x, n - 1))) IN Le(Abs(Im(y)), TinyTol) /\ Le(NNeg(TinyTol), Re(y))
\* shift invariance: the rotation operator has the frequencies as eigenvalues, in any basis and with any row weights
Basis == LET T == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN Tok("2") ELSE IF i < j THEN Tok("1,1") ELSE Tok("0")]] IN MatMul(A, T)
Rotation == Apart => LET w == DefaultRowWeights(n - 1) IN
    /\ EigvalsOk(PhiLS(SubSeq(Basis, 1, n - 1), SubSeq(Basis, 2, n)), z)
    /\ EigvalsOk(PhiLS(RowScale(w, SubSeq(Basis, 1, n - 1)), RowScale(w, SubSeq(Basis, 2, n))), z)
\* the frequencies determine the directions
Invert == \A j \in 1..k : CloseTo(FreqOf(Sr.loc[j][1], "sin", wl, d0), z[j], TinyTol, 0)
=============================================================================
