------------------------------ MODULE GenPlugin ------------------------------
(* Command lines for the wrapper: everything that matters in every position, *)
(* printed by the simulator.                                                 *)
EXTENDS CkubePlugin, Json, IOUtils
VARIABLES toks, left
Pick(S) == {RandomElement(S)}
Tok(k, n, f, v) == [k |-> k, name |-> n, form |-> f, val |-> v, cs |-> << >>, reqs |-> << >>]
Word(v) == Tok("word", "", "", v)
Global == {Tok("opt", n, "sep", v) : n \in {"-n", "--namespace", "--context", "--kubeconfig", "--as", "--cluster", "--token", "--user", "--request-timeout", "-s", "-v", "--username", "--log-dir", "--vmodule", "--profile"}, v \in {"get", "create", "x", "c1"}}
          \cup {Tok("opt", n, "sep", v) : n \in {"-o", "--output", "-f", "--filename", "--as-group", "--as-uid", "--cache-dir", "--certificate-authority", "--client-certificate", "--client-key", "--tls-server-name",
                                              "--password", "--profile-output", "--log-file", "--log-file-max-size", "--log-flush-frequency", "--log-backtrace-at", "--stderrthreshold", "--server", "--v"}, v \in {"get", "create", "2"}}
          \cup {Tok("opt", n, "eq", v) : n \in {"--namespace", "--context", "--cluster", "--kubeconfig", "--v", "--as"}, v \in {"get", "x", "delete"}}
          \cup {Tok("opt", "-n", "glued", "kube-system"), Word("--insecure-skip-tls-verify"), Word("--match-server-version"), Word("-v=6")}
Own == {Tok("fm", "--field-manager", f, "me") : f \in {"sep", "eq"}} \cup
       {Tok("opt", n, "sep", v) : n \in {"-o", "--output", "-f", "--filename"}, v \in {"wide", "create", "x.yaml", "-"}}
       \cup {Tok("opt", n, "eq", v) : n \in {"--output", "--sort-by", "--field-selector", "--chunk-size", "--template", "--dry-run", "--from-literal"}, v \in {"json", "a=b", "{.x} {y}", ""}}
       \cup {Word(w) : w \in {"-A", "-w", "-owide", "--watch", "--show-labels", "pods", "deploy/web", "get", "create", "delete", "web-1", "a b", "--cluster=c2", "--clusterset=x", "--no-headers", "svc,pods", "--all-namespaces", "-L=app"}}
R(k, o, v) == [key |-> k, op |-> o, vals |-> v]
Sels == {<<"lab=alpha", <<R("lab", "eq", <<"alpha">>)>>>>, <<"lab!=alpha,tier in (a,b)", <<R("lab", "ne", <<"alpha">>), R("tier", "in", <<"a", "b">>)>>>>,
         <<"tier", <<R("tier", "ex", << >>)>>>>, <<"!tier", <<R("tier", "nex", << >>)>>>>, <<"lab==beta,tier notin (a)", <<R("lab", "eq", <<"beta">>), R("tier", "notin", <<"a">>)>>>>,
         <<"", << >>>>, <<"lab=alpha,lab=beta", <<R("lab", "eq", <<"alpha">>), R("lab", "eq", <<"beta">>)>>>>, <<"cluster=c1", <<R("cluster", "eq", <<"c1">>)>>>>}
SelForms == {<<"-l", "sep">>, <<"-l", "eq">>, <<"-l", "glued">>, <<"--selector", "sep">>, <<"--selector", "eq">>}
SelToks == {[k |-> "sel", name |-> f[1], form |-> f[2], val |-> s[1], cs |-> << >>, reqs |-> s[2]] : f \in SelForms, s \in Sels} \ {t \in {[k |-> "sel", name |-> "-l", form |-> "glued", val |-> "", cs |-> << >>, reqs |-> << >>]} : TRUE}
Css == {<<"c1", <<"c1">>>>, <<"c2", <<"c2">>>>, <<"c10,c2", <<"c10", "c2">>>>, <<"c1,c2,c10", <<"c1", "c2", "c10">>>>, <<"nowhere", <<"nowhere">>>>, <<"", << >>>>, <<"c1,prod.eu", <<"c1", "prod.eu">>>>, <<"prod.eu", <<"prod.eu">>>>}
ClToks == {[k |-> "clusters", name |-> "--clusters", form |-> f, val |-> c[1], cs |-> c[2], reqs |-> << >>] : f \in {"sep", "eq"}, c \in Css}
Rests == {<< >>, <<"--">>, <<"--", "-l", "a=b">>, <<"--", "--clusters", "c2">>, <<"--", "--clusters=c2", "get">>}
Init == toks = << >> /\ left = 99
Step ==
  /\ left \in 1..9
  /\ left' = left - 1
  /\ \E r \in Pick(1..20), g \in Pick(Global), o \in Pick(Own), s \in Pick(SelToks), c \in Pick(ClToks), w \in Pick({"get", "get", "get", "create", "delete", "apply", "describe", "Get", "creates"}) :
       toks' = Append(toks,
         IF Command(toks) = "" /\ left > 1 /\ r <= 7 THEN g
         ELSE IF r <= 11 /\ Command(toks) = "" THEN Word(IF r <= 9 THEN "get" ELSE IF r = 10 THEN "create" ELSE w)
         ELSE IF r <= 14 THEN c ELSE IF r <= 17 /\ Command(toks) # "create" THEN s
         ELSE IF Command(toks) = "" THEN Word("get") ELSE o)
Next ==
  \/ left = 99 /\ left' \in Pick(1..9) /\ UNCHANGED toks
  \/ Step
Spec == Init /\ [][Next]_<<toks, left>>
Emit == left = 0 => \A rest \in Pick(Rests) : PrintT("@@" \o ToJson([toks |-> toks, rest |-> rest]))
=============================================================================
