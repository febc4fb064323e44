---- MODULE IndepMC_TTrace_1795018492 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, IndepMC

_expression ==
    LET IndepMC_TEExpression == INSTANCE IndepMC_TEExpression
    IN IndepMC_TEExpression!expression
----

_trace ==
    LET IndepMC_TETrace == INSTANCE IndepMC_TETrace
    IN IndepMC_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        S = ([ref |-> {[kind |-> "cell", script |-> 1, obs |-> <<4, 13, 40, 20>>], [kind |-> "cell", script |-> 2, obs |-> <<8, 26, 80, 40>>]}, ob |-> {[o |-> 1, k |-> 0, kind |-> "cell", script |-> 1]}])
        /\
        last = (<<<<>>, <<>>>>)
        /\
        h = (<<1>>)
        /\
        cell = (<<0, 0>>)
    )
----

_init ==
    /\ S = _TETrace[1].S
    /\ h = _TETrace[1].h
    /\ last = _TETrace[1].last
    /\ cell = _TETrace[1].cell
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ S  = _TETrace[i].S
        /\ S' = _TETrace[j].S
        /\ h  = _TETrace[i].h
        /\ h' = _TETrace[j].h
        /\ last  = _TETrace[i].last
        /\ last' = _TETrace[j].last
        /\ cell  = _TETrace[i].cell
        /\ cell' = _TETrace[j].cell

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("IndepMC_TTrace_1795018492.json", _TETrace)

=============================================================================

 Note that you can extract this module `IndepMC_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `IndepMC_TEExpression.tla` file takes precedence 
  over the module `IndepMC_TEExpression` below).

---- MODULE IndepMC_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, IndepMC

expression == 
    [
        \* To hide variables of the `IndepMC` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        S |-> S
        ,h |-> h
        ,last |-> last
        ,cell |-> cell
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_SUnchanged |-> S = S'
        
        \* Format the `S` variable as Json value.
        \* ,_SJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(S)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_SModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].S # _TETrace[s-1].S
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE IndepMC_TETrace ----
\*EXTENDS IOUtils, TLC, IndepMC
\*
\*trace == IODeserialize("IndepMC_TTrace_1795018492.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE IndepMC_TETrace ----
EXTENDS TLC, IndepMC

trace == 
    <<
    ([S |-> [ref |-> {[kind |-> "cell", script |-> 1, obs |-> <<4, 13, 40, 20>>], [kind |-> "cell", script |-> 2, obs |-> <<8, 26, 80, 40>>]}, ob |-> {}],last |-> <<<<>>, <<>>>>,h |-> <<>>,cell |-> <<0, 0>>]),
    ([S |-> [ref |-> {[kind |-> "cell", script |-> 1, obs |-> <<4, 13, 40, 20>>], [kind |-> "cell", script |-> 2, obs |-> <<8, 26, 80, 40>>]}, ob |-> {[o |-> 1, k |-> 0, kind |-> "cell", script |-> 1]}],last |-> <<<<>>, <<>>>>,h |-> <<1>>,cell |-> <<0, 0>>])
    >>
----


=============================================================================

---- CONFIG IndepMC_TTrace_1795018492 ----
CONSTANTS
    Steps = 4
    NO = 2
    Fault = "static"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Wed Nov 18 16:14:52 UTC 2026