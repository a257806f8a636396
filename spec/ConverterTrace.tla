---------------------------- MODULE ConverterTrace ----------------------------
(* Runs of the converter: [input, options, room, exit, out], see Converter.    *)
EXTENDS Converter, TLC, Json, IOUtils, Sequences
VARIABLE t
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.TRACES))
Traces == TLCGet(42)
TraceInit == t \in DOMAIN Traces
TraceSpec == TraceInit /\ [][FALSE]_t
T == Traces[t]
Typed == T.input \in Inputs /\ T.room \in Rooms /\ T.out \in Outs /\ {T.options, T.exit} \subseteq BOOLEAN
Explained == Typed /\ Allowed(T) => PrintT(ToJson([done |-> t]))
=============================================================================
