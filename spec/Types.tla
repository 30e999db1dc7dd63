-------------------------------- MODULE Types -------------------------------
(* The value types: which values a request (parse) or a response (dump) may *)
(* carry for each type and what they become.                                *)
EXTENDS Container, Issues

Ok(v) == [v |-> v, i |-> {}]
Bad(code) == [v |-> INV, i |-> Stop(<<>>, code)]

---------------------------------------------------------------------------
(* canonical base 64 *)
B64 == UPPER \o LOWER \o DIGIT \o "+/"
B64Pos == PosTab(B64)
B64Chars == DOMAIN B64Pos
IsBase64(s) ==
  LET n == Len(s)
      pad == IF n >= 2 /\ SubSeq(s, n - 1, n) = "==" THEN 2
             ELSE IF n >= 1 /\ SubSeq(s, n, n) = "=" THEN 1 ELSE 0
      last == B64Pos[SubSeq(s, n - pad, n - pad)] - 1
  IN /\ n % 4 = 0
     /\ AllIn(SubSeq(s, 1, n - pad), B64Chars)
     /\ pad = 2 => n >= 4 /\ last % 16 = 0
     /\ pad = 1 => n >= 4 /\ last % 4 = 0

(* absolute URL: scheme "://" non-empty authority *)
SchemeChars == UpperChars \cup LowerChars \cup DigitChars \cup {"+", "-", "."}
IsUrl(s) ==
  LET c == FindFrom(s, ":", 1)
      scheme == SubSeq(s, 1, c - 1)
      rest == From(s, c + 1)
  IN /\ c > 1
     /\ SubSeq(s, 1, 1) \in UpperChars \cup LowerChars
     /\ AllIn(scheme, SchemeChars)
     /\ StartsWith(rest, "//")
     /\ Len(rest) > 2 /\ SubSeq(rest, 3, 3) \notin {"/", "?", "#"}

(* date-time: YYYY-MM-DDThh:mm:ss[.fff[fff]][Z|(+|-)hh:mm] *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Dig(s, i, j) == j <= Len(s) /\ IsDigits(SubSeq(s, i, j))
Num(s, i, j) == ToNat(SubSeq(s, i, j))
DtFrac(s) == IF Len(s) > 19 /\ SubSeq(s, 20, 20) = "." THEN
               (IF Dig(s, 21, 26) THEN 6 ELSE IF Dig(s, 21, 23) THEN 3 ELSE 0 - 1)
             ELSE 0
DtZone(s) == From(s, 20 + (IF DtFrac(s) > 0 THEN DtFrac(s) + 1 ELSE 0))
IsZone(z) == \/ z = "" \/ z = "Z"
             \/ /\ Len(z) = 6 /\ SubSeq(z, 1, 1) \in {"+", "-"} /\ SubSeq(z, 4, 4) = ":"
                /\ IsDigits(SubSeq(z, 2, 3)) /\ IsDigits(SubSeq(z, 5, 6))
                /\ ToNat(SubSeq(z, 2, 3)) < 24 /\ ToNat(SubSeq(z, 5, 6)) < 60
IsDateTime(s) ==
  /\ Len(s) >= 19
  /\ Dig(s, 1, 4) /\ SubSeq(s, 5, 5) = "-" /\ Dig(s, 6, 7) /\ SubSeq(s, 8, 8) = "-"
  /\ Dig(s, 9, 10) /\ SubSeq(s, 11, 11) = "T"
  /\ Dig(s, 12, 13) /\ SubSeq(s, 14, 14) = ":" /\ Dig(s, 15, 16)
  /\ SubSeq(s, 17, 17) = ":" /\ Dig(s, 18, 19)
  /\ Num(s, 1, 4) >= 1 /\ Num(s, 6, 7) \in 1..12
  /\ Num(s, 9, 10) \in 1..MonthDays(Num(s, 1, 4), Num(s, 6, 7))
  /\ Num(s, 12, 13) < 24 /\ Num(s, 15, 16) < 60 /\ Num(s, 18, 19) < 60
  /\ DtFrac(s) >= 0
  /\ IsZone(DtZone(s))
(* the normal text of a date-time *)
IsoText(s) ==
  LET f == DtFrac(s)
      frac == IF f = 0 THEN "" ELSE SubSeq(s, 21, 20 + f) \o (IF f = 3 THEN "000" ELSE "")
      z == DtZone(s)
  IN SubSeq(s, 1, 19)
     \o (IF frac = "" \/ frac = "000000" THEN "" ELSE "." \o frac)
     \o (IF z = "Z" \/ z = "-00:00" THEN "+00:00" ELSE z)
(* a date-time as a point: day number, second of the day, microsecond (UTC) *)
DayNo(y, m, d) ==
  LET a == (14 - m) \div 12
      yy == y + 4800 - a
      mm == m + 12 * a - 3
  IN d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4 - yy \div 100 + yy \div 400
DtPoint(s) ==
  LET z == DtZone(s)
      off == IF z \in {"", "Z"} THEN 0
             ELSE (IF SubSeq(z, 1, 1) = "-" THEN 0 - 1 ELSE 1)
                  * (3600 * ToNat(SubSeq(z, 2, 3)) + 60 * ToNat(SubSeq(z, 5, 6)))
      f == DtFrac(s)
      micro == IF f = 0 THEN 0 ELSE IF f = 3 THEN 1000 * Num(s, 21, 23) ELSE Num(s, 21, 26)
      secs == 3600 * Num(s, 12, 13) + 60 * Num(s, 15, 16) + Num(s, 18, 19) - off
      day == DayNo(Num(s, 1, 4), Num(s, 6, 7), Num(s, 9, 10))
  IN <<day + (IF secs < 0 THEN 0 - 1 ELSE IF secs >= 86400 THEN 1 ELSE 0),
       (secs + 86400) % 86400, micro>>
DtAware(s) == DtZone(s) # ""
DtLt(a, b) == LET p == DtPoint(a) q == DtPoint(b)
              IN \/ p[1] < q[1]
                 \/ (p[1] = q[1] /\ p[2] < q[2])
                 \/ (p[1] = q[1] /\ p[2] = q[2] /\ p[3] < q[3])
DtEq(a, b) == DtPoint(a) = DtPoint(b)

---------------------------------------------------------------------------
IsFloat(v) == v.k \in {"flt", "fx", "bigf", "inf", "nan"}
IntVal(v) ==
  IF v.k \in {"int", "big"} THEN Ok(v)
  ELSE IF v.k = "flt" /\ v.d = 1 THEN Ok(IntV(v.n))
  ELSE IF v.k = "bigf" THEN Ok([k |-> "big", s |-> v.s])
  ELSE Bad(2)
DecVal(v) ==
  IF v.k = "int" THEN Ok([k |-> "flt", n |-> v.i, d |-> 1])
  ELSE IF v.k = "big" THEN IF Len(v.s) > 308 THEN Bad(1) ELSE Ok([k |-> "bigf", s |-> v.s])
  ELSE IF IsFloat(v) THEN Ok(v)
  ELSE Bad(2)
TypeVal(t, v, dir) ==
  CASE t = "unknown" -> Ok(v)
    [] t = "boolean" -> IF v.k = "bool" THEN Ok(v) ELSE Bad(2)
    [] t = "integer" -> IntVal(v)
    [] t = "decimal" -> DecVal(v)
    [] t \in {"string", "uri", "scim"} -> IF IsStr(v) THEN Ok(v) ELSE Bad(2)
    [] t = "binary" -> IF ~IsStr(v) THEN Bad(2) ELSE IF IsBase64(v.s) THEN Ok(v) ELSE Bad(3)
    [] t = "external" -> IF ~IsStr(v) THEN Bad(2) ELSE IF IsUrl(v.s) THEN Ok(v) ELSE Bad(8)
    [] t = "dateTime" ->
         IF dir = "parse"
         THEN IF ~IsStr(v) THEN Bad(2)
              ELSE IF IsDateTime(v.s) THEN Ok([k |-> "dt", s |-> IsoText(v.s)]) ELSE Bad(1)
         ELSE IF v.k = "dt" THEN Ok(Str(v.s)) ELSE Bad(2)
    [] t = "complex" -> IF IsObj(v) THEN Ok(v) ELSE Bad(2)
ScimName(t) == IF t \in {"uri", "scim", "external"} THEN "reference" ELSE t
=============================================================================
