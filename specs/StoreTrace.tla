------------------------------ MODULE StoreTrace ------------------------------
(***************************************************************************)
(* Decides recorded uses of the file managers and of the address parsers.  *)
(* The state is what every store (0 the local files, 1 S3, 2 GCS) holds    *)
(* under every name; an address is the text its parts are put together to. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, held
vars == <<l, held>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
At(m, o) == IF <<m, o>> \in DOMAIN held THEN held[<<m, o>>] ELSE << >>  \* << >> or << the bytes >>
Least(a, b) == IF a < b THEN a ELSE b

Init == l = 1 /\ held = << >>
Begin == Is("begin") /\ held' = << >>

\* a request is refused only if the service refused it, and then changes nothing
Stored(m, o, c) == /\ E.ok = 1 \/ E.failed = 1
                   /\ E.now = IF E.ok = 1 THEN <<c>> ELSE At(m, o)
                   /\ held' = IF E.ok = 1 THEN (<<m, o>> :> <<c>>) @@ held ELSE held
Write == Is("write") /\ Stored(E.m, E.o, E.c)
Copy == /\ Is("copy")
        /\ IF At(0, E.src) = << >> THEN E.ok = 0 /\ E.now = At(E.m, E.o) /\ UNCHANGED held
           ELSE Stored(E.m, E.o, At(0, E.src)[1])
Read == /\ Is("read") /\ UNCHANGED held
        /\ IF E.failed = 1 \/ At(E.m, E.o) = << >> THEN E.ok = 0 ELSE E.ok = 1 /\ E.out = At(E.m, E.o)[1]
\* bytes a up to but not including b, as far as there are any
Range == /\ Is("range") /\ UNCHANGED held
         /\ IF E.failed = 1 \/ At(E.m, E.o) = << >> THEN E.ok = 0
            ELSE LET t == At(E.m, E.o)[1]
                     inside == IF E.m = 0 THEN E.a <= Len(t) /\ E.a <= E.b ELSE E.a < Len(t)
                 IN  IF inside THEN E.ok = 1 /\ E.out = SubSeq(t, E.a + 1, Least(E.b, Len(t))) ELSE E.ok = 0
Full == Is("full") /\ E.ok = 0 /\ UNCHANGED held

Url(f, b, k, reg) == CASE f = "s3-dot" -> "https://" \o b \o ".s3." \o reg \o ".amazonaws.com/" \o k
                       [] f = "s3-dash" -> "https://" \o b \o ".s3-" \o reg \o ".amazonaws.com/" \o k
                       [] f = "s3" -> "s3://" \o b \o "/" \o k
                       [] f = "gcs-cloud" -> "https://storage.cloud.google.com/" \o b \o "/" \o k
                       [] f = "gcs-host" -> "https://" \o b \o ".storage.googleapis.com/" \o k
                       [] f = "gcs-path" -> "https://storage.googleapis.com/" \o b \o "/" \o k
                       [] f = "gs" -> "gs://" \o b \o "/" \o k
                       [] f = "s3-typo" -> "https://" \o b \o ".s3." \o reg \o ".amazonawsXcom/" \o k
                       [] f = "gcs-tail" -> "https://" \o b \o ".storage.googleapis.com.example.org/" \o k
                       [] f = "gcs-else" -> "https://storage.example.com/" \o b \o "/" \o k
                       [] f = "other" -> "https://" \o b \o ".example.org/" \o k
S3Ref == /\ Is("s3ref") /\ UNCHANGED held /\ E.url = Url(E.form, E.b, E.k, E.reg)
         /\ LET region == IF E.form = "s3" THEN E.env ELSE E.reg
                known == E.form \in {"s3-dot", "s3-dash", "s3"}
            IN  IF known /\ E.k # "" /\ region # "" THEN E.ok = 1 /\ E.out = <<region, E.b, E.k>> ELSE E.ok = 0
GcsRef == /\ Is("gcsref") /\ UNCHANGED held /\ E.url = Url(E.form, E.b, E.k, E.reg)
          /\ IF E.form \in {"gcs-cloud", "gcs-host", "gcs-path", "gs"} /\ E.k # "" THEN E.ok = 1 /\ E.out = <<E.b, E.k>> ELSE E.ok = 0
Kind(f) == CASE f \in {"s3-dot", "s3-dash", "s3"} -> "S3" [] f \in {"gcs-cloud", "gcs-host", "gcs-path", "gs"} -> "GCS" [] OTHER -> "UNKNOWN"
Type == /\ Is("type") /\ UNCHANGED held /\ E.out = Kind(E.form)
        /\ E.provider = (CASE E.out = "S3" -> "AWS" [] E.out = "GCS" -> "GCP" [] OTHER -> "")
        /\ E.service = (IF E.out = "UNKNOWN" THEN "" ELSE E.out)
Unsupported == Is("unsupported") /\ E.ok = <<0, 0>> /\ UNCHANGED held

Default == <<"us-east-1", "", "0", "HTTP", "">>
Client == /\ Is("client") /\ UNCHANGED held
          /\ \A i \in 1..5 : E.out[i] = IF E.opt[i] # "" THEN E.opt[i] ELSE IF E.env[i] # "" THEN E.env[i] ELSE Default[i]
          /\ E.cred = IF E.id # "" /\ E.key # "" THEN <<E.id, E.key>> ELSE << >>
\* one client for each region
Instances == /\ Is("instances") /\ UNCHANGED held
             /\ \A i, j \in 1..Len(E.regs) : (E.ids[i] = E.ids[j]) <=> (E.regs[i] = E.regs[j])
             /\ \A i \in 1..Len(E.regs) : E.right[i] = 1

Next == Begin \/ Write \/ Copy \/ Read \/ Range \/ Full \/ S3Ref \/ GcsRef \/ Type \/ Unsupported \/ Client \/ Instances
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
