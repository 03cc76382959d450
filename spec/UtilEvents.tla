----------------------------- MODULE UtilEvents -----------------------------
EXTENDS Containers, Hashes, Spool, Helpers
LOCAL RateOf == INSTANCE Rate WITH Second <- 1000000000
UtilMatch(e) ==
  LET a == e.a
      r == e.r
  IN
  CASE e.op = "tree" -> MatchTree(a, r)
    [] e.op = "list" -> MatchList(a, r)
    [] e.op = "hash" -> MatchHash(a, r)
    [] e.op = "read" -> MatchRead(a, r)
    [] e.op = "prstr" -> r.text = Quoted(a[1])
    [] e.op = "getenv" -> MatchGetenv(a, r)
    [] e.op = "atomic" -> MatchAtomic(a, r)
    [] e.op = "atomic64" -> MatchAtomic64(a, r)
    [] e.op = "atptr" -> MatchAtPtr(a, r)
    [] e.op = "atthr" -> MatchAtThr(a, r)
    [] e.op = "numrace" -> r = [kept |-> 1, first |-> 1, next |-> 1, distinct |-> 1]
    [] e.op = "time" -> MatchTime(a, r)
    [] e.op = "swap" -> MatchSwap(a, r)
    [] e.op = "spool" -> MatchSpool(a, r)
    [] e.op = "spthr" -> MatchSpThr(a, r)
    [] e.op = "paced" -> RateOf!MatchPaced(a, r)
    [] e.op = "busy" -> RateOf!MatchBusy(a, r)
    [] e.op = "idle" -> RateOf!MatchIdle(a, r)
=============================================================================
