----------------------------- MODULE WaveformMC -----------------------------
EXTENDS Waveform, Json
CONSTANTS MaxLen, Emit
Samples == -2..2
VARIABLES xs, s
Init == xs = << >> /\ s = Begin
Next == Len(xs) < MaxLen /\ \E x \in Samples : xs' = Append(xs, x) /\ s' = Read(s, x)
Spec == Init /\ [][Next]_<<xs, s>>
Same == \A i \in 1..Len(xs) : At(s.lines, i) = xs[i]                                   \* expanding gives the profile back
Shortest == \A k \in 1..Len(s.lines) - 1 : s.lines[k].x # s.lines[k + 1].x              \* and no shorter file does
Covers == s.pos = Len(xs) /\ (xs # << >> => Last(s.lines).start + Last(s.lines).dur = Len(xs) + 1)
Folds == Compress(xs) = s.lines
(* standing still takes no power; the faster at constant speed, the more *)
Still == \A u \in {"mph", "kmph", "mps"} : LET v == [i \in 1..Len(xs) |-> Abs(xs[i]) * 100]
                                              t == [i \in 1..Len(xs) |-> i]
         IN Len(xs) > 2 => \A i \in 1..Len(xs) : /\ (v[i] = 0 => Power(u, t, v, i) = 0)
                                                  /\ (v[i] > 0 /\ Grad(t, v, i)[1] >= 0 => Power(u, t, v, i) < 0)
EmitRun == (Emit /\ xs # << >>) => PrintT("@@" \o ToJson([xs |-> xs, lines |-> s.lines]))
=============================================================================
