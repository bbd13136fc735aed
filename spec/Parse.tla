------------------------------- MODULE Parse --------------------------------
(* Validation of recorded parses.  A record r has
     k   which grammar          b  the bytes handed in        a  arguments of the parse (a sequence)
     err "ok", "short" (the parser asked for bits that are not there) or the name of the returned error
     pos bits consumed          o  the field values found in the decoder's structures, in grammar order
   The grammar modules compute what they must be.                                                             *)
EXTENDS Bits
AnyVal == -77777777
Same(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : u[i] = AnyVal \/ u[i] = v[i]
FirstDiff(u, v) ==
  IF \E i \in 1..Len(u) : i > Len(v) \/ (u[i] # AnyVal /\ u[i] # v[i])
  THEN LET i == CHOOSE j \in 1..Len(u) : (j > Len(v) \/ (u[j] # AnyVal /\ u[j] # v[j])) /\ \A h \in 1..j-1 : h <= Len(v) /\ (u[h] = AnyVal \/ u[h] = v[h]) IN
       <<"field", i, "expected", u[i], "got", IF i > Len(v) THEN "nothing" ELSE ToString(v[i])>>
  ELSE <<"more fields than expected", Len(u), Len(v)>>
Judge(s, r) ==
  IF "crash" \in DOMAIN r THEN <<"crash", r.crash>>
  ELSE IF s.e = "any" \/ (s.e = "reject" /\ r.err # "ok") THEN <<>>
  ELSE IF s.e # r.err THEN <<"outcome expected", s.e, "got", r.err>>
  ELSE IF s.e # "ok" THEN <<>>
  ELSE IF s.p # r.pos THEN <<"position expected", s.p, "got", r.pos>>
  ELSE IF Same(s.o, r.o) THEN <<>>
  ELSE FirstDiff(s.o, r.o)
=============================================================================
