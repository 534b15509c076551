----------------------------- MODULE MCGenerate -------------------------------
(* A generator with several workers over one schema of two shapes, one of which  *)
(* refers to the other. A worker takes any entity that is left and writes its     *)
(* arcs; its choices depend on the seed and the entity only. Every schedule ends  *)
(* in the same graph, and this graph is right: the entities asked for (more       *)
(* targets where a property needs them), each property within its cardinality.    *)
EXTENDS Generate, TLC
CONSTANTS Workers, MaxCount, MaxCard, Seeds
Iri(i) == [t |-> "iri", s |-> <<>>, dt |-> "", lang |-> <<>>, i |-> i]
Lit == [t |-> "lit", s |-> <<49>>, dt |-> "integer", lang |-> <<>>, i |-> ""]
VARIABLES cfg, card, seed, left, busy, written
vars == <<cfg, card, seed, left, busy, written>>

Shapes == <<[id |-> "A", props |-> <<[p |-> "r", k |-> "ref", x |-> "B", min |-> card[1], max |-> card[2]]>>],
            [id |-> "B", props |-> <<[p |-> "q", k |-> "lit", x |-> Lit.dt, f |-> <<>>, min |-> 1, max |-> 1]>>]>>
Cfg == [count |-> cfg[1], dist |-> cfg[2], w |-> cfg[3], nomin |-> FALSE, excluded |-> <<>>, maxprops |-> 0, over |-> <<<<>>, <<>>>>]
(* largest remainder: a share rounded down and what is left one by one *)
Floor(i) == IF Cfg.dist = "custom" THEN Cfg.w[i] ELSE IF Cfg.dist = "equal" THEN Cfg.count \div 2 ELSE (Cfg.w[i] * Cfg.count) \div SumOf(Cfg.w)
Rest == IF Cfg.dist = "custom" THEN 0 ELSE Cfg.count - Floor(1) - Floor(2)
Share(i) == Floor(i) + (IF i <= Rest THEN 1 ELSE 0)
(* with a remainder for one shape only, it goes to the shape with one *)
Share2(i) == IF Rest = 1 /\ Cfg.dist = "weighted" /\ (Cfg.w[1] * Cfg.count) % SumOf(Cfg.w) = 0 THEN Floor(i) + (i - 1) ELSE Share(i)
Need == IF Share2(1) > 0 THEN card[2] ELSE 0
Count(i) == IF i = 2 /\ Need > Share2(2) THEN Need ELSE Share2(i)
Name(i, n) == (IF i = 1 THEN "A" ELSE "B") \o ToString(n)
Entities == { <<i, n>> : i \in {1}, n \in 1..Count(1) } \union { <<i, n>> : i \in {2}, n \in 1..Count(2) }

(* any function of seed and entity will do *)
Choice(e) == (seed * 7 + e[2] * 3 + e[1]) 
ValuesOf(e) == card[1] + (Choice(e) % (card[2] - card[1] + 1))
Arcs(e) == IF e[1] = 1 THEN <<[p |-> RdfType, os |-> <<Iri("A")>>]>> \o
                            (IF ValuesOf(e) = 0 THEN <<>> ELSE <<[p |-> "r", os |-> [v \in 1..ValuesOf(e) |-> Iri(Name(2, ((e[2] - 1 + v - 1) % Count(2)) + 1))]]>>)
           ELSE <<[p |-> RdfType, os |-> <<Iri("B")>>], [p |-> "q", os |-> <<Lit>>]>>

Init == /\ cfg \in { <<c, "equal", <<1, 1>>>> : c \in 0..MaxCount } \union { <<c, "weighted", w>> : c \in 0..MaxCount, w \in {<<1, 3>>, <<2, 1>>} }
                   \union { <<0, "custom", w>> : w \in {<<2, 1>>, <<0, 2>>, <<3, 0>>} }
        /\ card \in { <<a, b>> : a \in 0..MaxCard, b \in 1..MaxCard } /\ card[1] <= card[2]
        /\ seed \in Seeds
        /\ left = Entities /\ busy = [w \in Workers |-> <<>>] /\ written = {}
Take(w) == /\ busy[w] = <<>> /\ left # {}
           /\ \E e \in left : left' = left \ {e} /\ busy' = [busy EXCEPT ![w] = e]
           /\ UNCHANGED <<cfg, card, seed, written>>
Write(w) == /\ busy[w] # <<>>
            /\ written' = written \union {[id |-> Name(busy[w][1], busy[w][2]), arcs |-> Arcs(busy[w])]}
            /\ busy' = [busy EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<cfg, card, seed, left>>
Next == \E w \in Workers : Take(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == left = {} /\ \A w \in Workers : busy[w] = <<>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
OneGraph == Done => written = { [id |-> Name(e[1], e[2]), arcs |-> Arcs(e)] : e \in Entities }
Right == Done => GraphProblem(Shapes, Cfg, SeqOf(written)) = ""
(* distinct values: a property has as many objects as it was given values *)
Distinct == \A s \in written : \A a \in 1..Len(s.arcs) : Cardinality({ s.arcs[a].os[j] : j \in 1..Len(s.arcs[a].os) }) = Len(s.arcs[a].os)
Ends == <>Done
=============================================================================
