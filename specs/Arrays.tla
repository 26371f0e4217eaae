------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Array designs and perturbations.  An abstract array is                  *)
(*   [t |-> "array", name, loc: m x d matrix, pert: sequence of            *)
(*    perturbations in order of first insertion, el: element,              *)
(*    att: attributes specific to the design]                              *)
(* and a perturbation [t |-> "pert", ty, known, par: enc array].           *)
(***************************************************************************)
EXTENDS Enc

NoAtt == <<>>
MkArray(loc, name, att) == [t |-> "array", name |-> name, loc |-> loc, pert |-> <<>>, el |-> "iso", att |-> att]
Size(a) == Len(a.loc)
Dim(a)  == Len(a.loc[1])

\* ---- element models.  out: number of outputs of one element
ElOut(el)    == CASE el = "iso" -> 1 [] el = "card" -> 1 [] el = "nearr" -> 1
                  [] el \in {"vec2", "pol2", "iso2"} -> 2 [] el = "vec3c" -> 3 [] OTHER -> 1
ElScalar(el) == ElOut(el) = 1
ElIso(el)    == el \in {"iso", "iso2"}
ElPlain(el)  == el = "iso"

\* ---- locations
GridLoc(idx, bases) == MatMul(idx, bases)
ColIdx(v)  == [i \in 1..Len(v) |-> <<v[i]>>]
UlaIdx(n)  == Range0(n)
NestedIdx(n1, n2) == Range0(n1) \o [j \in 1..n2 |-> (n1 + 1) * j - 1]
CoprimeIdx(m, n, mode) ==
    [i \in 1..n |-> (i - 1) * m] \o [j \in 1..((IF mode = "2m" THEN 2*m ELSE m) - 1) |-> j * n]
UraIdx(m, n) == [k \in 1..(m*n) |-> << (k-1) \div n, (k-1) % n >>]
UcaLoc(n, r) == [i \in 1..n |-> LET c == CisTurn(NDiv(i - 1, n)) IN << NMul(r, Re(c)), NMul(r, Im(c)) >>]

RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)

\* A minimum-redundancy array: n increasing indices from 0 whose differences
\* cover 0..aperture, with the aperture of the published tables.
MrlaAperture == << 0, 1, 3, 6, 9, 13, 17, 23, 29, 35, 41, 49, 57, 65, 73, 83, 93, 103, 113, 125 >>
IsMrla(idx, n) ==
    /\ Len(idx) = n
    /\ idx[1] = 0
    /\ \A i \in 1..(n-1) : idx[i] < idx[i+1]
    /\ idx[n] = MrlaAperture[n]
    /\ \A d \in 0..idx[n] : \E i, j \in 1..n : idx[i] - idx[j] = d

\* d0 as written by the user: scalar or one spacing per axis
D0Vec(d0, nd) == IF IsNumV(d0) THEN [i \in 1..nd |-> AsNum(d0)] ELSE AsVec(d0)
D0Bad(d0, nd) == ~IsNumV(d0) /\ (Len(d0.sh) # 1 \/ d0.sh[1] # nd)
BasesFor(d0v) == Diag(d0v)
RowNorms(B)   == [i \in 1..Len(B) |-> Norm(B[i])]

GridAtt(idx, bases, d0v, extra) == [grid |-> TRUE, idx |-> idx, bases |-> bases, d0 |-> d0v, extra |-> extra]
PlainAtt(extra) == [grid |-> FALSE, extra |-> extra]
IsGrid(a) == a.att.grid

GridArray(idx, d0v, name, extra) ==
    LET B == BasesFor(d0v) IN MkArray(GridLoc(idx, B), name, GridAtt(idx, B, d0v, extra))

\* ---- perturbations -----------------------------------------------------
\* "scale" (stretches the array by par[1], amplifies its outputs by par[2]) and "gain2" (another
\* class of gain errors) are perturbation types of the user
PertTypes == {"loc", "gain", "phase", "mc", "scale", "gain2"}
PerSensor == {"gain", "phase", "mc", "gain2"}
\* "" or the exception the constructor raises
PertCtorErr(ty, par) ==
    CASE ty = "loc" -> IF Len(par.sh) # 2 THEN "ValueError" ELSE IF par.sh[2] < 1 \/ par.sh[2] > 3 THEN "ValueError" ELSE ""
      [] ty \in {"gain", "phase", "gain2"} -> IF Len(par.sh) # 1 THEN "ValueError" ELSE ""
      [] ty = "mc" -> IF Len(par.sh) # 2 THEN "ValueError" ELSE IF par.sh[1] # par.sh[2] THEN "ValueError" ELSE ""
      [] OTHER -> ""
Applicable(p, a) == (p.ty \in PerSensor => ElScalar(a.el)) /\ (p.ty # "scale" => p.par.sh[1] = Size(a))
MkPert(ty, par, known) == [t |-> "pert", ty |-> ty, known |-> known, par |-> par]

\* a perturbation in a command is either inline or a reference to one made earlier
PertOf(H, x) == IF Has(x, "ref") THEN H[x.ref] ELSE MkPert(x.ty, Val(H, x.par), x.known)
PertSeq(H, items) == [i \in 1..Len(items) |-> PertOf(H, items[i])]

Put(ps, p) == IF \E i \in 1..Len(ps) : ps[i].ty = p.ty
              THEN [i \in 1..Len(ps) |-> IF ps[i].ty = p.ty THEN p ELSE ps[i]]
              ELSE Append(ps, p)
PutAll(ps, new) == FoldLeft(LAMBDA acc, p : Put(acc, p), ps, new)
Duplicate(ps) == \E i, j \in 1..Len(ps) : i < j /\ ps[i].ty = ps[j].ty

\* "" or why the perturbations cannot be put on an array ("any": some exception)
PertErr(a, ps, dupsAllowed) ==
    IF \E i \in 1..Len(ps) : PertCtorErr(ps[i].ty, ps[i].par) # "" THEN "ValueError"
    ELSE IF \E i \in 1..Len(ps) : ~Applicable(ps[i], a) THEN "RuntimeError"
    ELSE IF ~dupsAllowed /\ Duplicate(ps) THEN "RuntimeError"
    ELSE ""

\* ---- locations under location errors
PadTo(v, d) == [i \in 1..d |-> IF i <= Len(v) THEN v[i] ELSE Tok("0")]
AddErr(loc, E) ==
    LET d == IMax(Len(loc[1]), Len(E[1]))
    IN  [i \in 1..Len(loc) |-> VAdd(PadTo(loc[i], d), PadTo(E[i], d))]
LocUnder(loc, ps) ==
    FoldLeft(LAMBDA L, p : IF p.ty = "loc" THEN AddErr(L, AsMat(p.par)) ELSE IF p.ty = "scale" THEN MatScale(AsVec(p.par)[1], L) ELSE L, loc, ps)
ActualLoc(a) == LocUnder(a.loc, a.pert)
Keep(ps, which) == IF which = "all" THEN ps ELSE IF which = "none" THEN <<>> ELSE SelectSeq(ps, LAMBDA p : p.known)

\* ---- constructors: [err |-> exception or "", o |-> abstract array] ----------
Base(c) ==
    CASE c.op = "ula" ->
           [err |-> "", o |-> GridArray(ColIdx(UlaIdx(c.n)), D0Vec(c.d0, 1), Opt(c, "name", "ULA " \o Int2Str(c.n)), NoAtt)]
      [] c.op = "nested" ->
           [err |-> "", o |-> GridArray(ColIdx(NestedIdx(c.n1, c.n2)), D0Vec(c.d0, 1),
                Opt(c, "name", "Nested (" \o Int2Str(c.n1) \o "," \o Int2Str(c.n2) \o ")"),
                <<IntV(c.n1), IntV(c.n2)>>)]
      [] c.op = "coprime" ->
           LET lo == IMin(c.m, c.n)  hi == IMax(c.m, c.n)
               md == Opt(c, "mode", "2m")
               m2 == IF md \in {"2m", "2M"} THEN "2m" ELSE IF md \in {"m", "M"} THEN "m" ELSE "?"
           IN IF GcdOf(hi, lo) # 1 \/ m2 = "?" THEN [err |-> "ValueError"]
              ELSE [err |-> "", o |-> GridArray(ColIdx(CoprimeIdx(lo, hi, m2)), D0Vec(c.d0, 1),
                        Opt(c, "name", "Co-prime (" \o Int2Str(c.m) \o "," \o Int2Str(c.n) \o ")"),
                        << [t |-> "tup", v |-> <<IntV(lo), IntV(hi)>>], StrV(m2) >>)]
      [] c.op = "uca" ->
           [err |-> "", o |-> MkArray(UcaLoc(c.n, AsNum(c.r)), Opt(c, "name", "UCA " \o Int2Str(c.n)), PlainAtt(<<c.r>>))]
      [] c.op = "ura" ->
           IF D0Bad(c.d0, 2) THEN [err |-> "ValueError"]
           ELSE [err |-> "", o |-> GridArray(UraIdx(c.m, c.n), D0Vec(c.d0, 2),
                    Opt(c, "name", "URA " \o Int2Str(c.m) \o "x" \o Int2Str(c.n)),
                    << [t |-> "tup", v |-> <<IntV(c.m), IntV(c.n)>>] >>)]
      [] c.op = "gridarr" ->
           LET idx == AsMat(c.idx)  nd == c.idx.sh[2] IN
           IF (IF Has(c, "bases") THEN c.bases.sh[2] ELSE nd) > 3 THEN [err |-> "ValueError"]
           ELSE IF Has(c, "bases")
           THEN IF c.bases.sh[1] # nd THEN [err |-> "ValueError"]
                ELSE [err |-> "", o |-> MkArray(GridLoc(idx, AsMat(c.bases)), c.name,
                         GridAtt(idx, AsMat(c.bases), RowNorms(AsMat(c.bases)), NoAtt))]
           ELSE IF D0Bad(c.d0, nd) THEN [err |-> "ValueError"]
           ELSE [err |-> "", o |-> GridArray(idx, D0Vec(c.d0, nd), c.name, NoAtt)]
      [] c.op = "custom" ->
           IF Len(c.loc.sh) > 2 THEN [err |-> "ValueError"]
           ELSE IF Len(c.loc.sh) = 2 /\ c.loc.sh[2] > 3 THEN [err |-> "ValueError"]
           ELSE [err |-> "", o |-> MkArray(IF Len(c.loc.sh) = 1 THEN ColIdx(AsVec(c.loc)) ELSE AsMat(c.loc), c.name, PlainAtt(NoAtt))]
      [] c.op = "mrla" ->
           IF c.n < 1 \/ c.n > 20 THEN [err |-> "ValueError"] ELSE [err |-> "mrla"]

\* the presets are constrained by IsMrla, not fixed by the specification
MrlaFrom(c, r) ==
    LET idx == AsMat(r.idx) IN GridArray(idx, D0Vec(c.d0, 1), Opt(c, "name", "MRLA " \o Int2Str(c.n)), NoAtt)
MrlaIdxOk(c, r) == IsMatV(r.idx) /\ r.idx.sh = <<c.n, 1>> /\ IsMrla([i \in 1..c.n |-> Floor(AsMat(r.idx)[i][1])], c.n)

Dress(H, c, a) == [a EXCEPT !.el = Opt(c, "el", "iso"), !.pert = IF Has(c, "pert") THEN PertSeq(H, c.pert.items) ELSE <<>>]

\* ---- conformance of an observed array with an abstract one ---------------
SameArr(x, M, tol) == IsMatV(x) /\ MatClose(AsMat(x), M, tol)
SamePert(v, p) == /\ v.ty = p.ty
                  /\ v.known = p.known
                  /\ v.par.sh = p.par.sh
                  /\ AsFlat(v.par) = AsFlat(p.par)
SamePerts(vs, ps) == Len(vs) = Len(ps) /\ \A i \in 1..Len(ps) : SamePert(vs[i], ps[i])
SameScalar(x, y) == IF IsNumV(x) /\ IsNumV(y) THEN CloseTo(AsNum(x), AsNum(y), 0, TinyTol) ELSE x = y
\* element_locations etc. are relative to the size of the array
LocClose(x, M) == IsMatV(x) /\ MatCloseRel(AsMat(x), M, TinyTol)
ActClose(x, a) == IsMatV(x) /\ LET M == ActualLoc(a)  d == MatDist(AsMat(x), M) IN Ge(d, 0) /\ Le(d, NMul(TinyTol, NAdd(MaxAbs(M), MaxAbs(a.loc))))
ViewArray(a, r) ==
    Chk("is-array", r.t = "array",
    Chk("name", r.name = StrV(a.name),
    Chk("size", r.size = IntV(Size(a)),
    Chk("ndim", r.ndim = IntV(Dim(a)),
    Chk("locations", LocClose(r.loc, a.loc),
    Chk("perturbations", SamePerts(r.pert, a.pert),
    Chk("is-perturbed", r.perturbed = (a.pert # <<>>),
    Chk("actual-locations", ActClose(r.actual, a),
    Chk("actual-ndim", r.andim = IntV(Len(ActualLoc(a)[1])),
    Chk("element", r.el = a.el,
    Chk("output-size", r.osize = IntV(Size(a) * ElOut(a.el)),
    Chk("is-grid", r.grid = a.att.grid,
    Chk("queries", \A ty \in PertTypes : LET has == \E i \in 1..Len(a.pert) : a.pert[i].ty = ty IN
                        /\ r.has[ty].has = has
                        /\ has => LET p == CHOOSE q \in Range(a.pert) : q.ty = ty
                                  IN  SamePert([ty |-> ty, known |-> r.has[ty].known, par |-> r.has[ty].par], p),
    Chk("extra", Len(r.extra) = Len(a.att.extra) /\ \A i \in 1..Len(r.extra) : SameScalar(r.extra[i], a.att.extra[i]),
    IF ~a.att.grid THEN ""
    ELSE Chk("indices", IsMatV(r.idx) /\ r.idx.dt = "i" /\ MatDist(AsMat(r.idx), a.att.idx) = Tok("0"),
         Chk("bases", LocClose(r.bases, a.att.bases),
         Chk("d0", IsVecV(r.d0) /\ VecCloseRel(AsVec(r.d0), a.att.d0, TinyTol), ""
    )))))))))))))))))

\* ---- judgements: [v |-> failing clause or "", o |-> object bound to c.out] ----
Rejected(r, cls) == [v |-> Expect(r, cls), o |-> None]
JudgeNew(H, c, r) ==
    LET b == Base(c) IN
    IF b.err \notin {"", "mrla"} THEN Rejected(r, b.err)
    ELSE IF b.err = "mrla" /\ IsExc(r) /\ ~Has(c, "pert") THEN [v |-> "raised", o |-> None]
    ELSE IF b.err = "mrla" /\ ~IsExc(r) /\ r.t # "array" THEN [v |-> "is-array", o |-> None]
    ELSE IF b.err = "mrla" /\ ~IsExc(r) /\ ~MrlaIdxOk(c, r) THEN [v |-> "mrla-differences", o |-> None]
    ELSE LET a0 == IF b.err = "mrla"
                   THEN IF IsExc(r) THEN GridArray(ColIdx(UlaIdx(c.n)), D0Vec(c.d0, 1), "", NoAtt) ELSE MrlaFrom(c, r)
                   ELSE b.o
             ps == IF Has(c, "pert") THEN PertSeq(H, c.pert.items) ELSE <<>>
             e  == PertErr([a0 EXCEPT !.el = Opt(c, "el", "iso")], ps, FALSE)
         IN IF e # "" THEN Rejected(r, e)
            ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
            ELSE LET a == Dress(H, c, a0) IN [v |-> ViewArray(a, r), o |-> a]

Named(c, a) == IF Has(c, "name") THEN [a EXCEPT !.name = c.name] ELSE a
JudgePcopy(H, c, r) ==
    LET a == H[c.a]
        ps == PertSeq(H, c.pert.items)
        e == PertErr(a, ps, TRUE)
    IN IF e # "" THEN Rejected(r, e)
       ELSE IF IsExc(r) THEN [v |-> "raised", o |-> None]
       ELSE LET b == Named(c, [a EXCEPT !.pert = PutAll(a.pert, ps)]) IN [v |-> ViewArray(b, r), o |-> b]
JudgeFcopy(H, c, r) ==
    LET b == Named(c, [H[c.a] EXCEPT !.pert = <<>>])
    IN IF IsExc(r) THEN [v |-> "raised", o |-> None] ELSE [v |-> ViewArray(b, r), o |-> b]
JudgeMkPert(H, c, r) ==
    LET e == PertCtorErr(c.ty, c.par)  p == MkPert(c.ty, c.par, c.known)
    IN IF e # "" THEN Rejected(r, e)
       ELSE [v |-> Chk("raised", ~IsExc(r), Chk("perturbation", r.t = "pert" /\ SamePert(r, p), "")), o |-> p]
\* is_applicable_to(array) -> (bool, str)
JudgeAppl(H, c, r) ==
    [v |-> Chk("tuple", IsTup(r, 2) /\ r.v[1].t = "bool" /\ r.v[2].t = "str",
           Chk("applicable", r.v[1].v = Applicable(H[c.p], H[c.a]), "")), o |-> None]
\* the matrix handed out to the caller, which the caller may then overwrite
LocQ(a, q) == CASE q = "loc" -> a.loc [] q = "actual" -> ActualLoc(a) [] q = "idx" -> a.att.idx
JudgeGetLoc(H, c, r) ==
    [v |-> Chk("raised", ~IsExc(r), Chk(c.q, IF c.q = "actual" THEN ActClose(r, H[c.a]) ELSE LocClose(r, LocQ(H[c.a], c.q)), "")), o |-> r]
\* deferred full observation
JudgeView(H, c, r) == [v |-> ViewArray(H[c.a], r), o |-> None]

ArrayOps == {"ula", "nested", "coprime", "mrla", "uca", "ura", "gridarr", "custom"}
ArrayJudge(H, c, r) ==
    IF c.op \in ArrayOps THEN JudgeNew(H, c, r)
    ELSE CASE c.op = "pcopy"  -> JudgePcopy(H, c, r)
           [] c.op = "fcopy"  -> JudgeFcopy(H, c, r)
           [] c.op = "mkpert" -> JudgeMkPert(H, c, r)
           [] c.op = "appl"   -> JudgeAppl(H, c, r)
           [] c.op = "getloc" -> JudgeGetLoc(H, c, r)
           [] c.op = "aview"  -> JudgeView(H, c, r)
AllArrayOps == ArrayOps \cup {"pcopy", "fcopy", "mkpert", "appl", "getloc", "aview"}
=============================================================================
