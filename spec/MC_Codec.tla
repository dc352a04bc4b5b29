---- MODULE MC_Codec ----
EXTENDS Codec, Json
CONSTANTS N, Bytes
VARIABLES hist
Str(n, A) == UNION {[1..k -> A] : k \in 0..n}
U == {97, 37, 52, 70, 103, 43, 32}
Ops == {[op |-> "b64enc", data |-> s] : s \in {<<b>> \o t : b \in Bytes, t \in Str(N, {0, 255, 107, 180})}}
       \cup {[op |-> "b64enc", data |-> <<a, b, c>>] : a \in {0, 255}, b \in Bytes, c \in Bytes}
       \cup {[op |-> "b64dec", s |-> s] : s \in Str(N + 2, {65, 47, 61, 33})}
       \cup {[op |-> "b64dec", s |-> <<65, b, 98, 99>>] : b \in 1..255}
       \cup {[op |-> "urlenc", data |-> s, cap |-> c] : s \in Str(3, {97, 32, 37, 200}), c \in 0..10}
       \cup {[op |-> "urlenc", data |-> <<b>>, cap |-> 4] : b \in 0..255}
       \cup {[op |-> "urldec", s |-> s, cap |-> c] : s \in Str(4, U), c \in {0, 1, 2, 3, 5}}
       \cup {[op |-> "urldec", s |-> <<37, b, 50>>, cap |-> 9] : b \in 1..255}
       \cup {[op |-> "urldec", s |-> <<37, 52, b, 97>>, cap |-> 9] : b \in 1..255}
       \cup {[op |-> "urldec", s |-> <<97, b>>, cap |-> 9] : b \in 1..255}
MCInit == InitCfg(0) /\ hist = <<>>
MCNext == \E e \in IF hist = <<>> THEN Ops ELSE {} : Do(e) /\ hist' = Append(hist, [i |-> e, o |-> out'])
(* the one-byte base64 case has two allowed answers, an empty URL text too: replay only determined ones *)
Emit == (LET e == hist'[1].i IN e.op = "b64dec" \/ e.op = "urldec" \/ (Len(e.data) > 1)) => PrintT(ToJson([cfg |-> [k |-> 0], ev |-> hist']))
Law(e) == /\ e.op = "b64enc" => Dec64(Lead(Enc64(e.data))) = e.data /\ Len(Enc64(e.data)) + 1 = EncSize(Len(e.data))
                              /\ Len(e.data) + 1 <= DecSize(Len(Enc64(e.data)))
          /\ e.op = "b64dec" => Len(Dec64(Lead(e.s))) + 1 <= DecSize(Len(e.s))
          /\ e.op = "urlenc" => LET t == UrlEnc(e.data) r == UDec(t, 1, 1000, <<>>) IN r.data = e.data /\ ~r.bad /\ r.pos = Len(t)
RepLaw(e) == /\ e.op = "b64enc" /\ Len(e.data) = 3 => Enc64(Rep(e.data, 3)) = Rep(Enc64(e.data), 3)
             /\ e.op = "b64dec" /\ Len(e.s) = 4 /\ Len(Lead(e.s)) = 4 => Dec64(Rep(e.s, 3)) = Rep(Dec64(e.s), 3)
             /\ e.op = "urlenc" /\ e.data # <<>> => UrlEnc(Rep(e.data, 3)) = Rep(UrlEnc(e.data), 3)
             /\ e.op = "urldec" /\ e.s # <<>> =>
                  LET r == UDec(e.s, 1, 1000, <<>>) IN ~r.bad /\ r.pos = Len(e.s) => UDec(Rep(e.s, 3), 1, 1000, <<>>) = [bad |-> FALSE, data |-> Rep(r.data, 3), pos |-> 3 * Len(e.s)]
Laws == (hist # <<>> => RepLaw(hist[1].i)) /\ (hist # <<>> => Law(hist[1].i))
View == hist
====
