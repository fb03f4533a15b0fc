------------------------------ MODULE Buffered ------------------------------
(* A buffered sampler in front of a source that produces numbered batches.

   The source is called with a size and returns that many fresh samples; the
   i-th sample of the c-th call is the pair <<c, i>>.  Requests:
     Single  - the next buffered sample, refilling an exhausted buffer first;
     Batch   - forwarded to the source, the buffer is not touched.
   The request word is kept to generate histories for the implementation.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxBatch
VARIABLES n,      \* buffer size
          calls,  \* number of calls the source has received
          buf,    \* call whose samples are in the buffer (0: none yet)
          left,   \* how many of them have been handed out
          out,    \* history: delivered single samples, in order
          word    \* history: requests
vars == <<n, calls, buf, left, out, word>>

Init == n \in Sizes /\ calls = 0 /\ buf = 0 /\ left = n /\ out = <<>> /\ word = <<>>

Refill(c, b) == IF left = n THEN c + 1 ELSE c
Single ==
  /\ IF left = n
     THEN /\ calls' = calls + 1 /\ buf' = calls + 1 /\ left' = 1
          /\ out' = Append(out, <<calls + 1, 1>>)
     ELSE /\ UNCHANGED <<calls, buf>> /\ left' = left + 1
          /\ out' = Append(out, <<buf, left + 1>>)
  /\ word' = Append(word, "S") /\ UNCHANGED n
Batch ==
  /\ calls' = calls + 1
  /\ word' = Append(word, "B") /\ UNCHANGED <<n, buf, left, out>>

NBatch == Cardinality({i \in DOMAIN word : word[i] = "B"})
MaxLen == 2 * n + 3
Next == Len(word) < MaxLen /\ (Single \/ (NBatch < MaxBatch /\ Batch))
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
ExactlyOnce == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
InOrder     == \A i, j \in DOMAIN out : i < j =>
                 \/ out[i][1] < out[j][1]
                 \/ out[i][1] = out[j][1] /\ out[i][2] < out[j][2]
(* whatever lies before a delivered sample in its buffer was delivered too,
   and a buffer is left only when it was delivered completely               *)
NoSkip == \A i \in DOMAIN out :
            /\ out[i][2] \in 1..n
            /\ i > 1 => IF out[i][2] = 1 THEN out[i-1][2] = n
                        ELSE out[i] = <<out[i-1][1], out[i-1][2] + 1>>
            /\ i = 1 => out[i][2] = 1
MinimalCalls == calls - NBatch = (Len(out) + n - 1) \div n

Gen == Len(word) = MaxLen => PrintT("CASE " \o ToJson([n |-> n, word |-> word]))
=============================================================================
