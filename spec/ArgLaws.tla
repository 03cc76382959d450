------------------------------- MODULE ArgLaws -------------------------------
(* What users rely on when they type: an option group is its letters apart, an
   attached value is the word after, a long name is its letter, a file or the
   environment is the words typed in its place, "--" makes any word literal;
   and a line that is taken honours every demand the table makes.            *)
EXTENDS Args
CONSTANTS Most
VARIABLES line, table
E(c, ty, fl, nm) == Entry(<<c, ty, fl>> \o nm)
Tables ==
  << << E(97, ArgBool, 8, S("all")), E(102, ArgText, 8, S("file")), E(110, ArgInt, 1, <<>>) >>,
     << E(97, ArgIncr, 8, S("all")), E(OR, 0, 0, <<>>), E(102, ArgText, 9, S("file")), E(OR, 0, 0, <<>>), E(110, ArgInt, 2, <<>>), E(MAND, ArgText, 0, <<>>) >>,
     << E(97, ArgBool, 0, <<>>), E(XOR, 0, 0, <<>>), E(102, ArgText, 8, S("al")), E(XOR, 0, 0, <<>>), E(110, ArgInt, 8, S("all")), E(MAYBE, ArgText, 1, <<>>) >>,
     << E(MAND, ArgText, 0, <<>>), E(MAND, ArgText, 1, <<>>) >> >>
Words == {S("-a"), S("-f"), S("-n"), S("-an"), S("-f=v"), S("--all"), S("--fi"), S("w"), S("-5"), S("--"), S("--argv-file=F"), S("--argv-f")}
CfgF == [close |-> TRUE, toggle |-> FALSE, multi |-> TRUE, after |-> FALSE, env |-> TRUE,
         files |-> (S("F") :> <<45, 97, NL, 120, 32, 121, NL, NL, 45, 110>>)]
Lines == UNION {[1..k -> Words] : k \in 0..Most}
Init == line \in Lines /\ table \in {Tables[i] : i \in 1..Len(Tables)}
Spec == Init /\ [][FALSE]_<<line, table>>

Run(ws) == ProcessArgs(table, CfgF, <<>>, ws)
Same(x, y) == x = y \/ (x.st = y.st /\ x.st # "go") \/ "any" \in {x.st, y.st}
Subst(w, by) == Concat([i \in 1..Len(line) |-> IF line[i] = w THEN by ELSE <<line[i]>>])
Plain == ~(\E i \in 1..Len(line) : line[i] = S("--"))
LetterOf(c) == \E i \in 1..Len(table) : table[i].letter = c

TheTablesAreGood == WellFormed(table) /\ ~OddTable(table)
GroupsAreLetters == Plain => Same(Run(line), Run(Subst(S("-an"), <<S("-a"), S("-n")>>)))
NamesAreLetters == Plain /\ table = Tables[1] => Same(Run(line), Run(Subst(S("--all"), <<S("-a")>>))) /\ Same(Run(line), Run(Subst(S("--fi"), <<S("-f")>>)))
(* when no other option awaits its value *)
AttachedIsNext == \A k \in 0..Len(line) :
  LET m == TakeWords(table, CfgF, Fresh(table), SubSeq(line, 1, k), 3) IN
  m.st = "go" /\ m.await = <<>> /\ ~m.last =>
    Same(TakeWords(table, CfgF, m, <<S("-f=v")>>, 3), TakeWords(table, CfgF, m, <<S("-f"), S("v")>>, 3))
FilesAreWords == Plain => Same(Run(line), Run(Subst(S("--argv-file=F"), <<S("-a"), S("x y"), S("-n")>>)))
EnvironmentIsWords == Plain => Same(Run(line), ProcessArgs(table, CfgF, Join(line, <<32, 9>>), <<>>))
                             /\ \A k \in 0..Len(line) : Same(Run(line), ProcessArgs(table, CfgF, Join(SubSeq(line, 1, k), <<32>>), SubSeq(line, k + 1, Len(line))))
AfterIsAfter == Plain => \A k \in 0..Len(line) :
  Same(Run(line), ProcessArgs(table, [CfgF EXCEPT !.after = TRUE], Join(SubSeq(line, k + 1, Len(line)), <<32>>), SubSeq(line, 1, k)))
LiteralAfterMark == table = Tables[4] /\ Len(line) >= 2 /\ ~(S("--") \in Range(line)) =>
  LET x == Run(<<S("--")>> \o line) IN x.st = "go" /\ x.vals = <<<<line[1]>>, Tail(line)>>
TakenIsComplete == LET x == Run(line) IN x.st = "go" =>
  /\ Complete(table, x)
  /\ \A i \in 1..Len(table) : x.used[i] => \A j \in Rivals(table, i) : ~x.used[j]
  /\ \A i \in 1..Len(table) : x.used[i] => x.vals[i] # <<>>
  /\ \A i \in 1..Len(table) : ~x.used[i] => x.vals[i] = Preset(table[i])
RefusedOnceOnly == \A k \in 0..Len(line) : TakeWords(table, CfgF, Fresh(table), SubSeq(line, 1, k), 3).st = "fail" => Run(line).st = "fail"
StricterRefusesMore == ProcessArgs(table, [CfgF EXCEPT !.multi = FALSE], <<>>, line).st = "go" => Same(Run(line), ProcessArgs(table, [CfgF EXCEPT !.multi = FALSE], <<>>, line))
=============================================================================
