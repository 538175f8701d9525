-------------------------------- MODULE Stdin --------------------------------
(* StdinEventHandler: a thread that reads the keys of a terminal byte by byte *)
(* and edits a line, with a history of the lines entered before.              *)
(*                                                                            *)
(* Observations: O line k bytes.. (callback k gets the line), O end k (it     *)
(* ends), O raw / O cooked (the terminal is put in raw mode, restored).       *)
EXTENDS Integers, Sequences
NIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
EOF == -1
----------------------------------------------------------------------------
(* The editor: a function of the bytes read. *)
NewLine == [line |-> <<>>, cur |-> 0, esc |-> "", out |-> "", eof |-> FALSE]
\* history: lines and the position in it (Len: after the newest)
HPrev(h) == IF h.pos > 0 THEN [h EXCEPT !.pos = @ - 1] ELSE h
HNext(h) == IF h.pos < Len(h.lines) THEN [h EXCEPT !.pos = @ + 1] ELSE h
HAt(h) == IF h.pos < Len(h.lines) THEN h.lines[h.pos + 1] ELSE <<>>
HAdd(h, l) == IF l = <<>> THEN h ELSE [lines |-> Append(h.lines, l), pos |-> Len(h.lines) + 1]
Show(e, l) == [e EXCEPT !.line = l, !.cur = Len(l)]
Insert(e, c) == [e EXCEPT !.line = SubSeq(@, 1, e.cur) \o <<c>> \o SubSeq(@, e.cur + 1, Len(@)), !.cur = @ + 1]
Erase(e, i) == [e EXCEPT !.line = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Up(e, h) == IF h.pos > 0 THEN <<Show(e, HAt(HPrev(h))), HPrev(h)>> ELSE <<e, h>>
Down(e, h) == <<Show(e, IF h.pos < Len(h.lines) THEN HAt(HNext(h)) ELSE <<>>), HNext(h)>>
Plain(e) == [e EXCEPT !.esc = ""]
\* one byte: <<editor, history>>
Key(e, h, c) ==
  IF c = EOF THEN <<[e EXCEPT !.eof = TRUE], h>>
  ELSE CASE e.esc = "" ->
         (CASE c = 27 -> <<[e EXCEPT !.esc = "1"], h>>
            [] c \in {10, 13} -> <<[e EXCEPT !.out = "line"], h>>
            [] c = 3 -> <<[e EXCEPT !.out = "break"], h>>
            [] c \in {8, 127} -> IF e.cur > 0 THEN <<[Erase(e, e.cur) EXCEPT !.cur = @ - 1], h>> ELSE <<e, h>>
            [] OTHER -> <<Insert(e, c), h>>)
    [] e.esc = "1" -> <<[e EXCEPT !.esc = "2"], h>>         \* the '['
    [] e.esc = "2" ->
         LET p == Plain(e) IN
         (CASE c = 65 -> Up(p, h)
            [] c = 66 -> Down(p, h)
            [] c = 67 -> <<[p EXCEPT !.cur = IF @ < Len(p.line) THEN @ + 1 ELSE @], h>>
            [] c = 68 -> <<[p EXCEPT !.cur = IF @ > 0 THEN @ - 1 ELSE 0], h>>
            [] c = 72 -> <<[p EXCEPT !.cur = 0], h>>
            [] c = 70 -> <<[p EXCEPT !.cur = Len(p.line)], h>>
            [] c \in {50, 51, 53, 54} -> <<[e EXCEPT !.esc = CASE c = 50 -> "ins" [] c = 51 -> "del"
                                                               [] c = 53 -> "pgup" [] OTHER -> "pgdn"], h>>
            [] OTHER -> <<p, h>>)
    [] OTHER ->                                             \* the '~'
         LET p == Plain(e) IN
         IF c # 126 THEN <<p, h>>
         ELSE CASE e.esc = "del" -> IF p.cur < Len(p.line) THEN <<Erase(p, p.cur + 1), h>> ELSE <<p, h>>
                [] e.esc = "pgup" -> Up(p, h)
                [] e.esc = "pgdn" -> Down(p, h)
                [] OTHER -> <<p, h>>
----------------------------------------------------------------------------
\* init: threads, lines to read
NInits(kind, i) ==
  {[act |-> i[2], en |-> FALSE, cb |-> 0, cnt |-> 0, ign |-> FALSE, keys |-> <<>>, busy |-> -1,
    ed |-> NewLine, h |-> [lines |-> <<>>, pos |-> 0], l |-> "off", k |-> 0, text |-> <<>>, dead |-> FALSE,
    th |-> [t \in 0..i[1] |-> NIdle]]}
Listener == 99
NThreads(s) == DOMAIN s.th \cup {Listener}
NCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [NIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}
Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
Ok(s, t) == Fin(s, t, "ok", <<>>)

\* the line is complete
Event(s, text) ==
  IF s.cb = 0 THEN [s EXCEPT !.l = "after", !.text = text]
  ELSE [s EXCEPT !.l = "call", !.k = s.cb, !.text = text]
Listen(s) ==
  CASE s.l = "wait" ->
         IF ~s.en THEN {[s EXCEPT !.l = "stop"]}
         ELSE IF s.act > 0 THEN {[s EXCEPT !.act = @ - 1, !.l = "read", !.ed = NewLine]}
         ELSE {}
    [] s.l = "read" ->
         IF s.ed.eof THEN {[s EXCEPT !.l = "stop"]}
         ELSE IF s.ed.out = "line" THEN {Event(s, s.ed.line)}
         ELSE IF s.ed.out = "break" THEN {Event(s, <<>>)}
         ELSE IF s.keys = <<>> THEN {}
         ELSE LET r == Key(s.ed, s.h, Head(s.keys))
                  \* nothing follows the end of the input
                  rest == IF Head(s.keys) = EOF THEN s.keys ELSE Tail(s.keys)
              IN {[s EXCEPT !.ed = r[1], !.h = r[2], !.keys = rest]}
    [] s.l = "ret" -> {[s EXCEPT !.cnt = @ + 1, !.l = "after"]}
    [] s.l = "after" -> {[s EXCEPT !.l = "wait", !.ed = NewLine,
                                   !.h = IF s.ign \/ s.ed.out = "break" THEN @ ELSE HAdd(@, s.ed.line)]}
    [] OTHER -> {}
NStep(s, t) ==
  IF t = Listener THEN Listen(s)
  ELSE LET x == s.th[t] IN
  CASE x.ph = "pend" /\ x.op = "set" ->
         IF s.busy # -1 \/ s.l \in {"call", "in", "ret"} THEN {}
         ELSE IF s.cb # 0 THEN {Ok([s EXCEPT !.cb = x.a[1]], t)}
         ELSE {[s EXCEPT !.cb = x.a[1], !.busy = t, !.th[t].ph = "start"]}
    [] x.ph = "start" -> {Ok([s EXCEPT !.en = TRUE, !.l = "new", !.busy = -1], t)}
    [] x.ph = "pend" /\ x.op \in {"unset", "del"} ->
         IF s.busy # -1 THEN {}
         ELSE IF s.cb = 0 THEN {Ok([s EXCEPT !.dead = (x.op = "del")], t)}
         ELSE IF s.l \in {"call", "in", "ret"} THEN {}
         ELSE {[s EXCEPT !.cb = 0, !.busy = t, !.th[t].ph = "stop"]}
    [] x.ph = "stop" -> {[s EXCEPT !.en = FALSE, !.th[t].ph = "join"]}
    [] x.ph = "join" -> IF s.l = "off" THEN {Ok([s EXCEPT !.busy = -1, !.dead = (x.op = "del")], t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "more" -> {Ok([s EXCEPT !.act = @ + 1], t)}
    [] x.ph = "pend" /\ x.op = "ign" -> {Ok([s EXCEPT !.ign = (x.a[1] = 1)], t)}
    [] x.ph = "pend" /\ x.op = "isign" -> {Fin(s, t, "val", <<IF s.ign THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op = "count" -> {Fin(s, t, "val", <<s.cnt>>)}
    [] x.ph = "pend" /\ x.op = "key" -> {Ok([s EXCEPT !.keys = @ \o x.a], t)}
    \* the listener has nothing to do
    [] x.ph = "pend" /\ x.op = "settle" -> IF Listen(s) = {} /\ s.l \in {"wait", "read", "off"} THEN {Ok(s, t)} ELSE {}
    [] OTHER -> {}
NRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = NIdle]} ELSE {}
NObs(s, o, a) ==
  CASE o = "line" -> IF s.l = "call" /\ a[1] = s.k /\ Tail(a) = s.text THEN {[s EXCEPT !.l = "in"]} ELSE {}
    [] o = "end" -> IF s.l = "in" /\ a[1] = s.k THEN {[s EXCEPT !.l = "ret"]} ELSE {}
    [] o = "raw" -> IF s.l = "new" THEN {[s EXCEPT !.l = "wait"]} ELSE {}
    [] o = "cooked" -> IF s.l = "stop" THEN {[s EXCEPT !.l = "off"]} ELSE {}
    [] OTHER -> {}
NQuiet(s) == /\ s.l \in {"off", "wait", "read"} /\ Listen(s) = {}
             /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ (s.th[t].op # "settle" => NStep(s, t) = {})
=============================================================================
