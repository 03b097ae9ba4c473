---------------------------- MODULE GenStatFile ----------------------------
(* Behaviours of StatFile chosen with knowledge of the state (window edges, *)
(* wrap-around, recycled slots) and printed as programs for the driver.     *)
EXTENDS StatFile, Json
CONSTANTS SIZES, DEPTH, CRASHES
VARIABLES cfg, st, now, ops
vars == <<cfg, st, now, ops>>

Kinds == {"gauge", "collated", "agg"}
Init == \E n \in SIZES, iv \in {1, 10, 60}, kind \in Kinds, off \in {0, 3}, less \in {0, 1, 200} :
          /\ cfg = [n |-> n, iv |-> iv, create |-> 1000000020 - (1000000020 % iv), kind |-> kind,
                    fixed |-> IF kind = "agg" THEN 6 ELSE 0]
          /\ st = NewFile(cfg)
          /\ now = 1000000020 + (2 * n + 5) * iv
          /\ ops = <<[o |-> "now", t |-> now],
                     [o |-> "open", zero |-> 1000000020 + (IF iv = 1 THEN 0 ELSE off), iv |-> iv, want |-> n - less,
                      kind |-> kind, fixed |-> cfg.fixed]>>

\* intervals worth touching, relative to the newest and to the creation
Near == {0, 1, 2, -1, -2, -3, 255, 256, -255, -256, cfg.n - 1, cfg.n, cfg.n + 1, 1 - cfg.n, -cfg.n, -cfg.n - 1, 2 * cfg.n, 2 * cfg.n + 1}
Deltas == {st.last + d : d \in Near} \cup {0, -1, -2, 1}
Interesting == {i \in Deltas : i > -3 * cfg.n /\ i < 40 * cfg.n}
One(S) == {RandomElement(S)}     \* a step has one successor: TLC draws, the state decides from what
Offs == {0, cfg.iv - 1, cfg.iv \div 2}

Upd == \E i \in One(Interesting), off \in One(Offs), v \in One({1, 2, 5}), c \in One({1, 1, 3}), mode \in One({"agg", "agg2", "agg3", "overwrite", "fill", "onlyempty"}) :
  LET m  == IF mode \in {"agg2", "agg3"} THEN "agg" ELSE mode
      t0 == TimeOf(cfg, i)
      t  == IF m = "agg" /\ cfg.kind # "collated" THEN t0 + off ELSE t0
      d  == [t |-> t, s |-> v * c, q |-> v * v * c, mn |-> v, mx |-> v + c - 1, c |-> c]
      \* the aggregate stays well below the 24 bits a float holds exactly
  IN /\ st' = Update(cfg, st, d, m).st
     /\ ops' = Append(ops, [o |-> "upd", d |-> d, mode |-> m])
     /\ UNCHANGED <<cfg, now>>
ReadOp == \E i \in One(Interesting), cnt \in One({1, 3, 257, cfg.n, cfg.n + 3}) :
  ops' = Append(ops, [o |-> "read", from |-> i, cnt |-> cnt]) /\ UNCHANGED <<cfg, st, now>>
BucketOp == \E i \in One({j \in Interesting : j > st.last - cfg.n /\ j <= st.last}) :
  ops' = Append(ops, [o |-> "bucket", i |-> i]) /\ UNCHANGED <<cfg, st, now>>
MapOp == \E i \in One(Interesting), off \in One(Offs) :
  ops' = Append(ops, [o |-> "map", t |-> TimeOf(cfg, i) + off]) /\ UNCHANGED <<cfg, st, now>>
Simple == \E o \in One(IF CRASHES THEN {"flush", "reopen", "reopeninit", "crash", "crash2", "damage", "ro"} ELSE {"flush", "reopen", "reopeninit", "ro", "reset"}), x \in One({0, 1}) :
  /\ ops' = Append(ops, IF o = "ro" THEN [o |-> "ro", t |-> TimeOf(cfg, st.last)]
                        ELSE IF o = "damage" THEN [o |-> "damage", how |-> IF x = 0 THEN "magic" ELSE "version"]
                        ELSE IF o = "reset" THEN [o |-> "rcum", t |-> IF x = 0 THEN 0 ELSE now - 7]
                        ELSE IF o = "crash2" THEN [o |-> "crash"] ELSE [o |-> o])
  /\ UNCHANGED <<cfg, st, now>>
Arm == \E k \in One(0..6) : ops' = Append(ops, [o |-> "arm", k |-> k]) /\ UNCHANGED <<cfg, st, now>>
Trunc == \E k \in One({0, 256, 100, 300, cfg.n - 1}) :
  ops' = Append(ops, [o |-> "trunc", k |-> k]) /\ UNCHANGED <<cfg, st, now>>
Clock == \E d \in One({1, cfg.iv, 300}) : now' = now + d /\ ops' = Append(ops, [o |-> "now", t |-> now + d]) /\ UNCHANGED <<cfg, st>>

\* weights: TLC picks a successor uniformly, so the kind of step is drawn first
Done == Len(ops) = DEPTH /\ PrintT("VPGEN " \o ToJson(ops)) /\ ops' = Append(ops, [o |-> "end"]) /\ UNCHANGED <<cfg, st, now>>
Step == /\ Len(ops) < DEPTH
        /\ LET w == RandomElement(1..100)
           IN IF w > 91 /\ ~CRASHES THEN IF w <= 98 THEN Upd ELSE Clock
              ELSE IF w <= 60 THEN Upd ELSE IF w <= 75 THEN ReadOp ELSE IF w <= 79 THEN BucketOp ELSE IF w <= 82 THEN MapOp
              ELSE IF w <= 91 THEN Simple ELSE IF w <= 96 THEN Arm ELSE IF w <= 98 THEN Clock ELSE Trunc
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

=============================================================================
