---- MODULE MC_FileSys ----
EXTENDS FileSys, Json
CONSTANTS Depth
VARIABLES hist
N == {"a", "b"}
AllPaths == {<<x>> : x \in N} \cup {<<x, y>> : x, y \in N} \cup {<<"a", "b", "a">>, <<".", "a">>, <<"a", "", "b">>}
Paths == {p \in AllPaths : \A i \in 1..Len(p) : Kind(Clean(SubSeq(p, 1, i))) # "s"} \* not through links
Texts == {<<>>, <<97, 10, 98>>, <<0, 255, 10, 13, 10, 32, 99, 13>>}
Up(p) == LET q == Clean(p) IN SubSeq(q, 1, Len(q) - 1)
Free(p) == Clean(p) # <<>> /\ Kind(Clean(p)) = "none" /\ IsDir(fs, Up(p))
FileOk(p) == Free(p) \/ Kind(Clean(p)) = "f"
Ops == {[op |-> "mkdirs", p |-> p, trail |-> t, plen |-> 0, fail |-> f, race |-> r] : p \in Paths, t \in BOOLEAN, f \in {0, 1, 2}, r \in {0, 1}}
       \cup {[op |-> "write", p |-> p, data |-> d, app |-> a, pat |-> w] : p \in {p \in Paths : Len(p) <= 2 /\ FileOk(p)}, d \in Texts, a \in BOOLEAN, w \in {<<>>, <<1, 1>>, <<2, -1>>, <<0>>}}
       \cup {[op |-> "read", p |-> p, off |-> o, max |-> m, pat |-> w] : p \in {p \in Paths : Kind(Clean(p)) = "f"}, o \in {0, 1, 9}, m \in {0, 2, 8}, w \in {<<>>, <<1, 1>>, <<1, -1>>}}
       \cup {[op |-> "readall", p |-> p, fault |-> x] : p \in Paths, x \in {0, 1, 2}}
       \cup {[op |-> o, p |-> p] : o \in {"size", "access"}, p \in Paths}
       \cup {[op |-> "readtxt", p |-> p, stop |-> s, code |-> 5] : p \in {p \in Paths : Kind(Clean(p)) # "f" \/ \A i \in DOMAIN fs[Clean(p)].b : fs[Clean(p)].b[i] # 0}, s \in {0, 1, 2}}
       \cup {[op |-> "put", p |-> p, kind |-> k, data |-> <<>>] : p \in {p \in Paths : Free(p) /\ Len(p) = Len(Clean(p)) /\ Len(p) <= 2}, k \in {"x", "s", "f"}}
       \cup {[op |-> "rm", p |-> p] : p \in {p \in Paths : Kind(p) # "none"}}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in Ops : Len(hist) < Depth /\ Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
View == <<fs, Len(hist)>>
Bound == \A q \in DOMAIN fs : Len(fs[q].b) <= 8
(* whatever was there before stays, unless it is removed or the file is written again *)
Stays == [][\A q \in DOMAIN fs : q \in DOMAIN fs' \/ hist'[Len(hist')].i.op = "rm"]_<<fs, hist>>
====
