------------------------------ MODULE Descent ------------------------------
(***************************************************************************)
(* Steepest descent and conjugate gradients: the direction rules.           *)
(*                                                                         *)
(* An old iterate x with gradient g, preconditioned gradient p and searched *)
(* direction d; a new iterate y with gradient ng and preconditioned         *)
(* gradient np; Tg, Td, Tp: g, d, p transported to y.                       *)
(***************************************************************************)
EXTENDS Geometry

Rules == {"FletcherReeves", "PolakRibiere", "HestenesStiefel", "HagerZhang", "LiuStorey"}

(* the inner products the rules are made of *)
Products(M, x, y, g, p, d, ng, np, Tg, Td, Tp) ==
  LET diff == ArrSub(ng, Tg) IN
  [nn |-> Inner(M, y, ng, np), gg |-> Inner(M, x, g, p), pd |-> Inner(M, y, np, diff),
   dd |-> Inner(M, y, diff, Td), dP |-> Inner(M, y, diff, ArrSub(np, Tp)), td |-> Inner(M, y, Td, ng),
   on |-> Inner(M, y, Tg, np), nT |-> Norm(M, y, Td), gn |-> Norm(M, x, g),
   ls |-> {NNeg(Inner(M, x, g, d)), NNeg(Inner(M, x, g, Td))},
   \* sizes, for rounding
   sdiff |-> NAdd(Norm(M, y, ng), Norm(M, y, Tg)), snp |-> Norm(M, y, np), sTp |-> Norm(M, y, Tp), sng |-> Norm(M, y, ng),
   sg |-> Norm(M, x, g), sd |-> Norm(M, x, d)]

(* Powell's test: consecutive gradients far from orthogonal *)
Powell(a) == NAbs(NDiv(a.on, a.nn))

(* denominators of the rule; the rule says nothing when one of them vanishes *)
Denoms(rule, a) == CASE rule \in {"FletcherReeves", "PolakRibiere"} -> {a.gg}
                     [] rule = "LiuStorey" -> a.ls
                     [] rule = "HestenesStiefel" -> {a.dd}
                     [] rule = "HagerZhang" -> {a.dd, a.nT, a.gn}
(* values the rule may take (Liu-Storey: the inner product with the old      *)
(* direction at the old point, before or after it was transported)           *)
Betas(rule, a) ==
  CASE rule = "FletcherReeves" -> {NDiv(a.nn, a.gg)}
    [] rule = "PolakRibiere" -> {NMax(N0, NDiv(a.pd, a.gg))}
    [] rule = "HestenesStiefel" -> {NMax(N0, NDiv(a.pd, a.dd))}
    [] rule = "HagerZhang" -> {NMax(NDiv(NSub(a.pd, NDiv(NMul(NMul(N2, a.dP), a.td), a.dd)), a.dd),
                                    NDiv(NInt(0 - 1), NMul(a.nT, NMin(NDec("0.01"), a.gn))))}
    [] rule = "LiuStorey" -> {NMax(N0, NMin(NDiv(a.pd, e), NDiv(a.nn, e))) : e \in a.ls}
(* rounding error of beta when inner products carry relative errors of size e *)
BetaErr(rule, a, e) ==
  LET epd == NMul(e, NMul(a.snp, a.sdiff)) edd == NMul(e, NMul(a.sdiff, a.nT))
      edP == NMul(e, NMul(a.sdiff, NAdd(a.snp, a.sTp))) etd == NMul(e, NMul(a.nT, a.sng))
      enn == NMul(e, NMul(a.sng, a.snp)) egg == NMul(e, NMul(a.sg, NMax(a.sg, a.sTp)))
      els == NMul(e, NMul(a.sg, NMax(a.sd, a.nT)))
      quot(n, en, d, ed) == NDiv(NAdd(en, NMul(NAbs(NDiv(n, d)), ed)), NAbs(d)) IN
  CASE rule = "FletcherReeves" -> quot(a.nn, enn, a.gg, egg)
    [] rule = "PolakRibiere" -> quot(a.pd, epd, a.gg, egg)
    [] rule = "HestenesStiefel" -> quot(a.pd, epd, a.dd, edd)
    [] rule = "HagerZhang" ->
         LET h == NDiv(NMul(NMul(N2, a.dP), a.td), a.dd)
             eh == NAdd(NDiv(NMul(N2, NAdd(NMul(edP, NAbs(a.td)), NMul(NAbs(a.dP), etd))), NAbs(a.dd)), NDiv(NMul(NAbs(h), edd), NAbs(a.dd)))
             n == NSub(a.pd, h) IN
         NAdd(quot(n, NAdd(epd, eh), a.dd, edd), NMul(e, NDiv(N1, NMul(a.nT, NMin(NDec("0.01"), a.gn)))))
    [] rule = "LiuStorey" -> MaxOf(<<quot(a.pd, epd, MinOf([i \in 1..1 |-> CHOOSE z \in a.ls : \A w \in a.ls : NLe(NAbs(z), NAbs(w))]), els),
                                     quot(a.nn, enn, CHOOSE z \in a.ls : \A w \in a.ls : NLe(NAbs(z), NAbs(w)), els)>>)
(* is every denominator safely different from zero? *)
DenErr(rule, a, e) == CASE rule \in {"FletcherReeves", "PolakRibiere"} -> NMul(e, NMul(a.sg, a.sg))
                        [] rule = "LiuStorey" -> NMul(e, NMul(a.sg, NMax(a.sd, a.nT)))
                        [] rule = "HestenesStiefel" -> NMul(e, NMul(a.sdiff, a.nT))
                        [] rule = "HagerZhang" -> NMul(e, NMul(a.sdiff, a.nT))
Sound(rule, a, e) == /\ \A z \in Denoms(rule, a) : ~NEq(z, N0)
                     /\ \A z \in (IF rule = "HagerZhang" THEN {a.dd} ELSE Denoms(rule, a)) : NLt(NMul(NInt(100), DenErr(rule, a, e)), NAbs(z))
=============================================================================
