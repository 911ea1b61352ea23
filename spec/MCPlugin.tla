------------------------------ MODULE MCPlugin ------------------------------
(***************************************************************************)
(* The way the wrapper goes through its arguments, word by word, checked   *)
(* against what CkubePlugin says a command line means, for every line of   *)
(* up to Depth tokens.  A selector is a text; the one with the clusters C  *)
(* worked in is "@" \o text \o "@" \o C.                                   *)
(***************************************************************************)
EXTENDS CkubePlugin
CONSTANTS Depth, Design
VARIABLES toks, rest, done
Tok(k, n, f, v) == [k |-> k, name |-> n, form |-> f, val |-> v, cs |-> << >>, reqs |-> << >>]
Word(v) == Tok("word", "", "", v)
Cl(f, v, cs) == [Tok("clusters", "--clusters", f, v) EXCEPT !.cs = cs]
Early == {Tok("opt", "-n", "sep", "get"), Tok("opt", "--namespace", "eq", "create"), Word("-v=6")}
Tokens == {Word("get"), Word("create"), Word("pods"), Word("-A"), Tok("sel", "-l", "sep", "a"), Tok("sel", "-l", "eq", "a"), Tok("sel", "-l", "glued", "b"),
        Tok("sel", "--selector", "sep", "get"), Tok("sel", "--selector", "eq", ""), Tok("fm", "--field-manager", "sep", "me"), Tok("fm", "--field-manager", "eq", "me"),
        Cl("sep", "c1", <<"c1">>), Cl("eq", "c1,c2", <<"c1", "c2">>), Cl("eq", "c2", <<"c2">>), Word("delete")}
Late == {"fm"}    \* options only sub commands know: not before them

\* ---- the algorithm
WithValue == {"--clusters", "-l", "--selector", "-n", "--namespace", "-o"}
Starts(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
Rest(w, p) == SubSeq(w, Len(p) + 1, Len(w))
State0 == [args |-> << >>, clusters |-> "", cmd |-> "", pos |-> 0, pre |-> ""]
RECURSIVE Scan(_, _)
Scan(st, ws) ==
  IF ws = << >> THEN st
  ELSE LET a == Head(ws) IN
       IF Starts(a, "--clusters=") THEN Scan([st EXCEPT !.clusters = Rest(a, "--clusters=")], Tail(ws))
       ELSE IF a = "--clusters" THEN IF Len(ws) > 1 THEN Scan([st EXCEPT !.clusters = ws[2]], Tail(Tail(ws))) ELSE Scan(st, Tail(ws))
       ELSE LET s1 == [st EXCEPT !.args = Append(@, a),
                                 !.cmd = IF @ = "" /\ ~Starts(a, "-") THEN a ELSE @]
                pre == IF Starts(a, "--selector=") THEN "--selector=" ELSE IF Starts(a, "-l=") THEN "-l="
                       ELSE IF Starts(a, "-l") /\ a # "-l" THEN "-l" ELSE "no"
                s2 == IF pre = "no" THEN s1 ELSE [s1 EXCEPT !.pos = Len(s1.args), !.pre = pre]
            IN IF a \in WithValue /\ Len(ws) > 1 /\ Design # "novalues"
               THEN LET s3 == [s2 EXCEPT !.args = Append(@, ws[2])] IN
                    Scan(IF a \in {"-l", "--selector"} THEN [s3 EXCEPT !.pos = Len(s3.args), !.pre = ""] ELSE s3, Tail(Tail(ws)))
               ELSE Scan(s2, Tail(ws))
Many(cl) == \E i \in 1..Len(cl) : SubSeq(cl, i, i) = ","
Worked(text, cl) == "@" \o text \o "@" \o cl
\* [ok, got]
Run(ws, tail) ==
  LET st == Scan(State0, ws) IN
  IF st.cmd \notin {"get", "create"} THEN [ok |-> FALSE, got |-> << >>]
  ELSE IF st.clusters = "" THEN [ok |-> TRUE, got |-> st.args \o tail]
  ELSE IF st.cmd = "get" THEN
    [ok |-> TRUE, got |-> IF st.pos = 0 THEN (IF Design = "afterdash" THEN st.args \o tail \o <<"-l", Worked("", st.clusters)>> ELSE st.args \o <<"-l", Worked("", st.clusters)>> \o tail)
                          ELSE [st.args EXCEPT ![st.pos] = st.pre \o Worked(Rest(st.args[st.pos], st.pre), st.clusters)] \o tail]
  ELSE IF Many(st.clusters) THEN [ok |-> FALSE, got |-> << >>]
  ELSE [ok |-> TRUE, got |-> (IF Design = "firstmanager" THEN SubSeq(st.args, 1, 1) \o <<"--field-manager", "dsm-cluster-" \o st.clusters>> \o SubSeq(st.args, 2, Len(st.args))
                              ELSE st.args \o <<"--field-manager", "dsm-cluster-" \o st.clusters>>) \o tail]

\* ---- its meaning: what a server would answer for a word, if it is a worked selector
Prefixes == {"", "--selector=", "-l=", "-l"}
Sel(w) == IF \E p \in Prefixes : Starts(w, p \o "@") THEN <<Rest(w, CHOOSE p \in Prefixes : Starts(w, p \o "@"))>> ELSE << >>
ClText == LET i == Last0(toks, "clusters") IN toks[i].val
WantSel == LET i == Last0(Theirs(toks), "sel") IN {Worked(IF i = 0 THEN "" ELSE Theirs(toks)[i].val, ClText)}
Meant ==
  LET o == Run(Join(toks), rest) IN
  IF Refused(toks) THEN ~o.ok
  ELSE /\ o.ok
       /\ IF Chosen(toks) = << >> THEN o.got = Join(Theirs(toks)) \o rest
          ELSE IF Command(toks) = "create" THEN Creates(o.got, toks, rest)
          ELSE Reads(o.got, toks, rest, [i \in DOMAIN o.got |-> Sel(o.got[i])], WantSel)

Init == toks = << >> /\ rest = << >> /\ done = FALSE
Next == /\ ~done
        /\ \/ Len(toks) < Depth /\ \E t \in Tokens \cup (IF Command(toks) = "" THEN Early ELSE {}) :
                /\ t.k \in Late => Command(toks) # ""
                /\ t.k = "sel" => Command(toks) # "create"
                /\ t.k = "word" /\ t.val = "create" => \A i \in DOMAIN toks : toks[i].k # "sel"
                /\ toks' = Append(toks, t) /\ UNCHANGED <<rest, done>>
           \/ rest' \in {<< >>, <<"--", "-l", "x">>, <<"--", "--clusters", "c2">>} /\ done' = TRUE /\ UNCHANGED toks
Spec == Init /\ [][Next]_<<toks, rest, done>>
MeansIt == done => Meant
=============================================================================
