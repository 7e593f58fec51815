------------------------------- MODULE Address -------------------------------
(***************************************************************************)
(* Addresses of cloud objects in virtual-hosted form: labels of the bucket *)
(* name, the service mark, the region and the fixed domain, joined by dots,*)
(* then the key after a slash.  Labels and key parts are drawn from a set  *)
(* that contains the mark, the region and the domain themselves.           *)
(* Checked for every address: what is read out of it is what it was made   *)
(* of; an address without a key or of another form is refused.             *)
(* Mistake: "none"; "firstDot": the bucket ends at the first dot;          *)
(* "firstMark": at the first label that looks like the mark; "noKey": an   *)
(* address without a key is taken; "lastSlash": the key begins at the last *)
(* slash.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Labels, Mark, Regions, Domain, MaxBucket, MaxKey, Mistake
VARIABLES bucket, region, key, host, form
vars == <<bucket, region, key, host, form>>
SeqOf(n) == UNION {[1..k -> Labels] : k \in 1..n}
Init == /\ bucket \in SeqOf(MaxBucket) /\ region \in Regions
        /\ key \in SeqOf(MaxKey) \cup {<< >>}
        /\ form \in {"right", "noMark", "noDomain"}
        /\ host = bucket \o (IF form = "noMark" THEN << >> ELSE <<Mark>>) \o <<region>>
                  \o (IF form = "noDomain" THEN << >> ELSE <<Domain>>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
n == Len(host)
FirstMark == CHOOSE i \in 1..n : host[i] = Mark /\ \A k \in 1..(i - 1) : host[k] # Mark
Matches == n >= 4 /\ host[n] = Domain /\ host[n - 2] = Mark /\ host[n - 1] \in Regions
           /\ (key # << >> \/ Mistake = "noKey")
Parsed == [bucket |-> IF Mistake = "firstDot" THEN SubSeq(host, 1, 1)
                      ELSE IF Mistake = "firstMark" THEN SubSeq(host, 1, FirstMark - 1)
                      ELSE SubSeq(host, 1, n - 3),
           region |-> host[n - 1],
           key |-> IF Mistake = "lastSlash" /\ key # << >> THEN SubSeq(key, Len(key), Len(key)) ELSE key]
Resolves == (form = "right" /\ key # << >>) => Matches /\ Parsed = [bucket |-> bucket, region |-> region, key |-> key]
\* another form is taken only if it happens to be an address of the right form as well
Refuses == Matches => /\ key # << >>
                      /\ Parsed.bucket \o <<Mark, Parsed.region, Domain>> = host
==============================================================================
