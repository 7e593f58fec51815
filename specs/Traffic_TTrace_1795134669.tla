---- MODULE Traffic_TTrace_1795134669 ----
EXTENDS Sequences, TLCExt, Toolbox, Traffic, Naturals, TLC

_expression ==
    LET Traffic_TEExpression == INSTANCE Traffic_TEExpression
    IN Traffic_TEExpression!expression
----

_trace ==
    LET Traffic_TETrace == INSTANCE Traffic_TETrace
    IN Traffic_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        has = ({"int"})
        /\
        failed = (FALSE)
        /\
        kept = (<<<<0, 0>>, <<0, 0>>>>)
        /\
        sent = (<<<<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 1]>>, <<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 0]>>>>)
        /\
        on = (<<TRUE, TRUE>>)
    )
----

_init ==
    /\ kept = _TETrace[1].kept
    /\ on = _TETrace[1].on
    /\ has = _TETrace[1].has
    /\ sent = _TETrace[1].sent
    /\ failed = _TETrace[1].failed
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ kept  = _TETrace[i].kept
        /\ kept' = _TETrace[j].kept
        /\ on  = _TETrace[i].on
        /\ on' = _TETrace[j].on
        /\ has  = _TETrace[i].has
        /\ has' = _TETrace[j].has
        /\ sent  = _TETrace[i].sent
        /\ sent' = _TETrace[j].sent
        /\ failed  = _TETrace[i].failed
        /\ failed' = _TETrace[j].failed

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Traffic_TTrace_1795134669.json", _TETrace)

=============================================================================

 Note that you can extract this module `Traffic_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Traffic_TEExpression.tla` file takes precedence 
  over the module `Traffic_TEExpression` below).

---- MODULE Traffic_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Traffic, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Traffic` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        kept |-> kept
        ,on |-> on
        ,has |-> has
        ,sent |-> sent
        ,failed |-> failed
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_keptUnchanged |-> kept = kept'
        
        \* Format the `kept` variable as Json value.
        \* ,_keptJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(kept)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_keptModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].kept # _TETrace[s-1].kept
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Traffic_TETrace ----
\*EXTENDS IOUtils, Traffic, TLC
\*
\*trace == IODeserialize("Traffic_TTrace_1795134669.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Traffic_TETrace ----
EXTENDS Traffic, TLC

trace == 
    <<
    ([has |-> {"int"},failed |-> FALSE,kept |-> <<<<0, 0>>, <<0, 0>>>>,sent |-> <<<<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 0]>>, <<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 0]>>>>,on |-> <<TRUE, TRUE>>]),
    ([has |-> {"int"},failed |-> FALSE,kept |-> <<<<0, 0>>, <<0, 0>>>>,sent |-> <<<<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 1]>>, <<[bool |-> 0, open |-> 0, int |-> 0], [bool |-> 0, open |-> 0, int |-> 0]>>>>,on |-> <<TRUE, TRUE>>])
    >>
----


=============================================================================

---- CONFIG Traffic_TTrace_1795134669 ----
CONSTANTS
    N = 2
    MaxBytes = 3
    Mistake = "noInts"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 00:31:10 UTC 2026