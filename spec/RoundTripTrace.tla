--------------------------- MODULE RoundTripTrace ---------------------------
(* Recorded passes of the real readers and writers through files.
   RTA fort.14 (what "a"), RTM native form (what "m"): lines of the first file, then alternately the mesh read and the file written;
       nr: the mesh as read, numbers with the digits they have (17 significant), nw: in the 15 digits of the written forms;
   RTR runs (what "r"): states after each step from a fort.14 mesh and from the native file written from it;
   RTD boundary lists (what "d"): lines, and what each of the two owners reads. *)
EXTENDS RoundTrip, FiniteSets, Json, IOUtils
TabA == ndJsonDeserialize(IOEnv.RTA)
TabM == ndJsonDeserialize(IOEnv.RTM)
TabD == ndJsonDeserialize(IOEnv.RTD)
TabR == ndJsonDeserialize(IOEnv.RTR)
VARIABLES what, r
vars == <<what, r>>
Data == CASE what = "a" -> TabA [] what = "m" -> TabM [] what = "d" -> TabD [] what = "r" -> TabR
X == Data[r]
Init == what \in {"a", "m", "d", "r"} /\ r \in DOMAIN Data
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Parse(L) == IF what = "a" THEN Parse14(L) ELSE ParseM(L)
Same(a, b) == IF what = "a" THEN Same14(a, b) ELSE SameM(a, b)
(* a file is taken if and only if its section types exist *)
Taken == what = "a" => (X.ok <=> Sane14(X.file))
Ok == what \in {"a", "m"} /\ X.ok
FirstRead == Ok => Same(Parse(X.file), X.read[1].full)
Written == Ok => \A i \in DOMAIN X.wrote : Same(Parse(X.wrote[i]), X.read[i].short)
ReadBack == Ok => \A i \in 2..Len(X.read) : Same(X.read[i].short, X.read[1].short)
(* nothing is rounded that fits, and rounding happens once *)
Exact == Ok => \A i \in 2..Len(X.read) : Same(X.read[i].full, X.read[IF X.fits THEN 1 ELSE 2].full)
Lists == what = "d" => /\ X.ok /\ Mine(ParseD(X.file), X.me)
                       /\ X.read = Seen(ParseD(X.file), X.me)
                       /\ X.wrote = X.file
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 2
Runs == what = "r" => /\ Len(X.a) = Len(X.b) /\ Len(X.a) = 3
                      /\ \A k \in DOMAIN X.a : /\ Len(X.a[k]) = Len(X.b[k])
                            /\ \A e \in DOMAIN X.a[k] : LET y == X.a[k][e]  z == X.b[k][e] IN y.i = z.i /\ y.w = z.w /\ y.n = z.n /\ Near(y.v, z.v)
Foreign == what = "d" => X.strange      \* the list of another pair is refused
=============================================================================
