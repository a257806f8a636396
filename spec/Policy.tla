------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* The content security policy of the server.                              *)
(*                                                                         *)
(* A header is a sequence of policies, a policy a sequence of directives   *)
(* [name, sources], sources a sequence of tokens.  What a policy means is  *)
(* what browsers make of it: the first directive of a name counts, fetch   *)
(* directives fall back to others and in the end to default-src, without   *)
(* any of them everything is allowed, and several policies apply together. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT T(_)   \* the token written as given

VARIABLES opts,    \* [html, images, strict: BOOLEAN, publics: set of tokens, frame: set of at most one token]
          phase,   \* "loading", then "ready"
          resp     \* last response [route, status, header]
ovars == <<opts, phase, resp>>

Kinds == {"script", "style", "img", "media", "font", "connect", "frame", "object", "manifest", "worker", "child", "prefetch",
          "script-elem", "script-attr", "style-elem", "style-attr"}
Chain(k) ==
  CASE k = "script" -> <<"script-src", "default-src">>
    [] k = "script-elem" -> <<"script-src-elem", "script-src", "default-src">>
    [] k = "script-attr" -> <<"script-src-attr", "script-src", "default-src">>
    [] k = "style" -> <<"style-src", "default-src">>
    [] k = "style-elem" -> <<"style-src-elem", "style-src", "default-src">>
    [] k = "style-attr" -> <<"style-src-attr", "style-src", "default-src">>
    [] k = "frame" -> <<"frame-src", "child-src", "default-src">>
    [] k = "worker" -> <<"worker-src", "child-src", "script-src", "default-src">>
    [] OTHER -> <<k \o "-src", "default-src">>

Everything == T("*")
Named(policy, n) == {i \in DOMAIN policy : policy[i].name = n}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == {s[i] : i \in DOMAIN s}
(* what one policy allows *)
Allows(policy, k) ==
  LET present == {i \in DOMAIN Chain(k) : Named(policy, Chain(k)[i]) # {}}
  IN IF present = {} THEN {Everything}
     ELSE Range(policy[Least(Named(policy, Chain(k)[Least(present)]))].sources) \ {T("'none'")}
(* what all of them together allow (as far as sources are the same or everything) *)
Both(A, B) == IF Everything \in A THEN B ELSE IF Everything \in B THEN A ELSE A \cap B
RECURSIVE All(_, _)
All(header, k) == IF header = <<>> THEN {Everything} ELSE Both(Allows(Head(header), k), All(Tail(header), k))

(* what the options ask for *)
Remote(o) == IF o.strict THEN o.publics ELSE {Everything}
Asked(o, k) ==
  CASE k \in {"script", "script-elem", "script-attr", "worker", "connect", "font"} -> {T("'self'")}
    [] k \in {"style", "style-elem", "style-attr"} -> {T("'self'")} \cup (IF o.html THEN {T("'unsafe-inline'")} ELSE {})
    [] k = "img" -> IF o.html \/ o.images THEN Remote(o) ELSE {}
    [] k = "media" -> IF o.html THEN Remote(o) ELSE {}
    [] k = "frame" -> o.frame
    [] OTHER -> {}

ResponseOK(o, r) ==
  /\ \A k \in Kinds : All(r.header, k) = Asked(o, k)
  /\ r.route = "editor" => ((r.status # 404) = (o.frame # {}))

OInit == phase = "loading" /\ resp = [route |-> "none", status |-> 0, header |-> <<>>]
Ready == phase = "loading" /\ phase' = "ready" /\ UNCHANGED <<opts, resp>>
Respond(r) == ResponseOK(opts, r) /\ resp' = r /\ UNCHANGED <<opts, phase>>

(* consequences *)
NoForeignScripts == resp.header # <<>> => \A k \in {"script", "script-elem", "script-attr", "worker", "object"} : All(resp.header, k) \subseteq {T("'self'")}
StrictMeansPublic == (resp.header # <<>> /\ opts.strict) => \A k \in Kinds : Everything \notin All(resp.header, k)
=============================================================================
