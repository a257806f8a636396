------------------------------ MODULE PolicyMC ------------------------------
(***************************************************************************)
(* The header as the server writes it, character by character: the words   *)
(* of the language are single characters here, addresses are arbitrary     *)
(* sequences of characters, some of which the language uses itself.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen,     \* of addresses
          Escaping,   \* whether separators in addresses are escaped
          Blanks      \* whether blank addresses are ignored
VARIABLES opts, phase, resp, written, raw
Tok(k) == <<k>>
INSTANCE Policy WITH T <- Tok

Chars == {"a", " ", ";", ",", "*", "script-src"}
Words(n) == UNION {[1..i -> Chars] : i \in 0..n}
Escape(w) == IF Escaping THEN [i \in DOMAIN w |-> CASE w[i] = " " -> "%20" [] w[i] = ";" -> "%3B" [] w[i] = "," -> "%2C" [] OTHER -> w[i]] ELSE w

(* ------------------------------- writing ------------------------------- *)
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o Join(Tail(ws))
(* the addresses of the option, trimmed; parsing an address without anything gives one without anything *)
RECURSIVE Trim(_)
Trim(w) == IF w = <<>> THEN w ELSE IF w[1] = " " THEN Trim(Tail(w)) ELSE IF w[Len(w)] = " " THEN Trim(SubSeq(w, 1, Len(w) - 1)) ELSE w
Address(scheme, w) == IF w = <<>> THEN <<scheme \o ":">> ELSE <<scheme \o "://">> \o w
RECURSIVE Publics(_)
Publics(ws) == IF ws = <<>> THEN <<>>
               ELSE (IF Blanks /\ Trim(Head(ws)) = <<>> THEN <<>> ELSE <<Address("http", Trim(Head(ws))), Address("https", Trim(Head(ws)))>>) \o Publics(Tail(ws))
Escaped(ws) == [i \in DOMAIN ws |-> Escape(ws[i])]
Header ==
  LET source == IF raw.strict THEN Join(Escaped(Publics(raw.publics))) ELSE <<"*">>
      editor == raw.tipsy \in {"http://", "https://"}
  IN <<"default-src", " ", "'none'", ";", " ", "connect-src", " ", "'self'", ";", " ", "script-src", " ", "'self'", ";", " ", "font-src", " ", "'self'", ";", " ", "style-src", " ", "'self'">>
     \o (IF raw.html THEN <<" ", "'unsafe-inline'">> ELSE <<>>) \o <<";", " ">>
     \o (IF editor THEN <<"frame-src", " ">> \o Escape(<<raw.tipsy>> \o raw.rest) \o <<";", " ">> ELSE <<>>)
     \o (IF raw.images \/ raw.html THEN <<"img-src", " ">> \o source \o <<";">> ELSE <<>>)
     \o (IF raw.html THEN <<"media-src", " ">> \o source \o <<";">> ELSE <<>>)

(* ------------------------------- reading ------------------------------- *)
RECURSIVE Split(_, _)
Split(s, c) ==
  IF \A i \in DOMAIN s : s[i] # c THEN <<s>>
  ELSE LET i == Least({j \in DOMAIN s : s[j] = c}) IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
Full(ws) == SelectSeq(ws, LAMBDA w : w # <<>>)
(* a word is the name of a directive if it is one character *)
Directive(d) == LET ws == Full(Split(d, " ")) IN [name |-> (IF Len(ws[1]) = 1 THEN ws[1][1] ELSE "unknown"), sources |-> Tail(ws)]
Meaningful(ds) == SelectSeq(ds, LAMBDA d : Full(Split(d, " ")) # <<>>)
ReadPolicy(p) == LET ds == Meaningful(Split(p, ";")) IN [i \in DOMAIN ds |-> Directive(ds[i])]
ReadHeader(h) == LET ps == Split(h, ",") IN [i \in DOMAIN ps |-> ReadPolicy(ps[i])]

(* ------------------------------- serving ------------------------------- *)
Schemes == {"", "http://", "https://", "javascript:"}
Options == [html : BOOLEAN, images : BOOLEAN, strict : BOOLEAN, publics : {<<>>} \cup {<<w>> : w \in Words(MaxLen)} \cup {<<w, <<"a">>>> : w \in Words(1)},
            tipsy : Schemes, rest : Words(MaxLen)]
Relevant(r) == (r.rest # <<>> => r.tipsy # "") /\ (r.publics # <<>> => (r.strict /\ (r.images \/ r.html)))
               /\ (r.rest # <<>> => r.publics = <<>>) /\ (Len(r.publics) = 1 => Trim(r.publics[1]) = <<>> \/ Trim(r.publics[1]) = r.publics[1])
Asks(r) == [html |-> r.html, images |-> r.images, strict |-> r.strict,
            publics |-> UNION {{Tok(s \o "://") \o [i \in DOMAIN Trim(w) |-> CASE Trim(w)[i] = " " -> "%20" [] Trim(w)[i] = ";" -> "%3B" [] Trim(w)[i] = "," -> "%2C" [] OTHER -> Trim(w)[i]] : s \in {"http", "https"}} : w \in {v \in Range(r.publics) : Trim(v) # <<>>}},
            frame |-> IF r.tipsy \in {"http://", "https://"} THEN {Tok(r.tipsy) \o [i \in DOMAIN r.rest |-> CASE r.rest[i] = " " -> "%20" [] r.rest[i] = ";" -> "%3B" [] r.rest[i] = "," -> "%2C" [] OTHER -> r.rest[i]]} ELSE {}]
MInit == raw \in {r \in Options : Relevant(r)} /\ opts = Asks(raw) /\ OInit /\ written = <<>>
(* the header is computed once, before the first response *)
Start == written = <<>> /\ written' = Header /\ UNCHANGED <<opts, phase, resp, raw>>
MRespond(route) == /\ written # <<>>
                   /\ resp' = [route |-> route, status |-> IF route = "editor" /\ raw.tipsy \notin {"http://", "https://"} THEN 404 ELSE 200, header |-> ReadHeader(written)]
                   /\ UNCHANGED <<opts, phase, written, raw>>
Next == Start \/ (Ready /\ UNCHANGED <<written, raw>>) \/ \E r \in {"editor", "other"} : MRespond(r)
Spec == MInit /\ [][Next]_<<ovars, written, raw>>
(* the server refines the contract *)
Follows == resp.route # "none" => ResponseOK(opts, resp)
=============================================================================
