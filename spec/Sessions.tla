------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Interleavings of interactive sessions: two commitments of provers, two  *)
(* verifiers that may be used again, and a network that delivers any       *)
(* commitment to any verifier, any challenge to any prover, any response   *)
(* to any verifier, and commitments whose statement is not the verifier's. *)
(*                                                                         *)
(* TLC enumerates every interleaving up to length L that ends in a         *)
(* verdict; each is replayed on the real code (zkv/sessions.py).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

L == atoi(IOEnv.ZK_L)
OutFile == IOEnv.ZK_OUT
Once == IOEnv.ZK_ONCE = "yes"    \* a commitment answers one challenge only

Vs == {1, 2}
VARIABLES h,     \* the history
          n,     \* commitments made
          held,  \* for each verifier its commitment and challenge, <<0, 0>> before
          resp,  \* responses made: commitment and challenge
          nch,   \* challenges issued
          acc    \* accepted: verifier, commitment, challenge, and what was held then
vars == <<h, n, held, resp, nch, acc>>

None == <<0, 0>>
Init == h = <<>> /\ n = 0 /\ held = [v \in Vs |-> None] /\ resp = <<>> /\ nch = 0 /\ acc = {}
Log(op, a, b) == h' = Append(h, <<op, a, b>>)

Commit == n < 2 /\ n' = n + 1 /\ Log("commit", n + 1, 0) /\ UNCHANGED <<held, resp, nch, acc>>
Challenge(v, k) ==
  /\ k <= n /\ (v = 2 => held[1] # None)
  /\ nch' = nch + 1 /\ held' = [held EXCEPT ![v] = <<k, nch + 1>>]
  /\ Log("challenge", v, k) /\ UNCHANGED <<n, resp, acc>>
\* a commitment made for another statement: refused, and nothing changes
Refused(v, k) == held[v] # None /\ k <= n /\ Log("refused", v, k) /\ UNCHANGED <<n, held, resp, nch, acc>>
Respond(k, v) ==
  /\ k <= n /\ held[v] # None
  /\ Once => \A i \in DOMAIN resp : resp[i][1] # k
  /\ \A i \in DOMAIN resp : resp[i] # <<k, held[v][2]>>
  /\ resp' = Append(resp, <<k, held[v][2]>>) /\ Log("respond", k, v) /\ UNCHANGED <<n, held, nch, acc>>
Right(v, i) == held[v] = resp[i]
Verify(v, i) ==
  /\ held[v] # None /\ i \in DOMAIN resp
  /\ acc' = IF Right(v, i) THEN acc \cup {[v |-> v, r |-> resp[i], held |-> held[v]]} ELSE acc
  /\ Log("verify", v, i) /\ UNCHANGED <<n, held, resp, nch>>
\* a verifier that has issued no challenge gives no verdict
Early(i) == i \in DOMAIN resp /\ Log("early", i, 0) /\ UNCHANGED <<n, held, resp, nch, acc>>

Next ==
  /\ Len(h) < L
  /\ IF Len(h) = L - 1
     THEN \E v \in Vs, i \in 1..L : Verify(v, i)
     ELSE \/ Commit
          \/ \E v \in Vs, k \in 1..2 : Challenge(v, k) \/ Refused(v, k) \/ Respond(k, v)
          \/ \E v \in Vs, i \in 1..L : Verify(v, i)
          \/ \E i \in 1..L : Early(i)
Spec == Init /\ [][Next]_vars

\* a verdict refers to the commitment and the challenge of its own session
Own == \A a \in acc : a.r = a.held
\* a response convinces one verifier only: no session is a replay of another
NoReplay == \A a, b \in acc : a.r[2] = b.r[2] => a.v = b.v /\ a.r = b.r
\* challenges are never issued before a commitment
After == \A v \in Vs : held[v] # None => held[v][1] \in 1..n /\ held[v][2] \in 1..nch
Collect == (Len(h) = L => TLCSet(1, Append(TLCGet(1), h))) /\ TRUE
ASSUME TLCSet(1, <<>>)
Written == JsonSerialize(OutFile, TLCGet(1)) /\ PrintT(<<"ZKGEN", ToJson(Len(TLCGet(1)))>>)
==============================================================================
