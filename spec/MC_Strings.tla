---- MODULE MC_Strings ----
(* every input over a two letter alphabet up to a length; the definitions are checked against their laws *)
EXTENDS Strings, Json
CONSTANTS N, M
VARIABLES hist
Str(n) == UNION {[1..k -> {97, 66}] : k \in 0..n}
S3(n) == UNION {[1..k -> {97, 44, 59}] : k \in 0..n}
U8(n) == UNION {[1..k -> {97, 195, 169, 240}] : k \in 0..n}
Ops == {[op |-> "cpy", src |-> s, size |-> n] : s \in Str(N), n \in 0..(N + 2)}
       \cup {[op |-> "cat", dst |-> d, src |-> s, size |-> n] : d \in Str(M), s \in Str(M), n \in 0..(2 * M + 2)}
       \cup {[op |-> "replace", s |-> s, pat |-> p, rep |-> r, failed |-> 0] : s \in Str(N), p \in Str(2), r \in Str(2)}
       \cup {[op |-> "split", s |-> s, delim |-> d, max |-> m] : s \in S3(N), d \in {<<44>>, <<44, 59>>, <<>>}, m \in 0..3}
       \cup {[op |-> "trim", s |-> s, cset |-> d] : s \in S3(N), d \in {<<44>>, <<44, 59>>, <<>>, <<97, 44>>, <<97, 44, 59>>}}
       \cup {[op |-> "utf8", s |-> s] : s \in U8(M)} \cup {[op |-> "utf8n", s |-> s, max |-> n] : s \in U8(M), n \in 0..(M + 1)}
       \cup {[op |-> "hex", data |-> [i \in 1..k |-> (i * 37) % 256], cap |-> c] : k \in 0..12, c \in 0..45}
       \cup {[op |-> o, s |-> s] : s \in Str(N), o \in {"upper", "lower"}}
       \cup {[op |-> "icmp", s |-> s, r |-> r] : s \in Str(M), r \in Str(M)}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in IF hist = <<>> THEN Ops ELSE {} : Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
Emit == PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
E_ == hist[1].i
O_ == hist[1].o
Law(e, o) ==
  /\ e.op = "cpy" => (e.size > 0 => Len(o.text) < e.size) /\ (o.ret < e.size => o.text = e.src)
  /\ e.op = "cat" => (e.size > Len(e.dst) => Len(o.text) < e.size) /\ (o.ret < e.size => o.text = e.dst \o e.src)
  /\ e.op = "replace" /\ e.pat = e.rep => o.text = e.s
  /\ e.op = "replace" /\ ~(\E i \in 1..Len(e.s) : Prefix(e.pat, SubSeq(e.s, i, Len(e.s)))) => o.text = e.s
  /\ e.op = "split" => Len(o.tokens) <= e.max /\ \A i \in 1..Len(o.tokens) : o.tokens[i] # <<>> /\ \A j \in 1..Len(e.delim) : ~In(e.delim[j], o.tokens[i])
  /\ e.op = "trim" /\ o.text # <<>> => ~In(Head(o.text), e.cset) /\ ~In(o.text[Len(o.text)], e.cset)
  /\ e.op = "hex" => Len(o.text) < Max(e.cap, 1)
RepLaw(e) ==
  /\ e.op = "replace" /\ e.pat # <<>> /\ e.s # <<>> /\ Inside(e.pat, e.s) /\ Replace(e.s, e.pat, e.rep) # <<>> => Replace(Rep(e.s, 3), e.pat, e.rep) = Rep(Replace(e.s, e.pat, e.rep), 3)
  /\ e.op = "split" /\ e.s # <<>> /\ In(e.s[Len(e.s)], e.delim) => LET p == Pieces(e.s, e.delim, <<>>) IN p # <<>> => Pieces(Rep(e.s, 3), e.delim, <<>>) = Rep(p, 3)
  /\ e.op = "utf8" /\ e.s # <<>> => Utf8(Rep(e.s, 3)) = 3 * Utf8(e.s)
  /\ e.op = "hex" /\ e.data # <<>> => HexAll(Rep(e.data, 2)) = Rep(HexAll(e.data), 2)
Laws == hist # <<>> => (Law(E_, O_) /\ RepLaw(E_))
View == hist
====
