---------------------------- MODULE OpenMtpFile ----------------------------
(* OpenMTP files: a text header, a binary header of three sections, and the
   lines of the image, each with 32 bytes before its pixels.  A file is a
   record: its length, a seed that gives every byte of it, and runs of bytes
   put over those.  Places in the binary header count from its start. *)
EXTENDS Integers, Sequences, Real64

TextLen == 1345
First == 5175
Second == 2636
Third == 136704
ThirdComposite == 185188
LinePrefix == 32
MaxSize == 5000
MaxLen == 192999   \* of the binary header

Scalars == <<  \* place, width
  <<8, 4>>, <<12, 4>>, <<16, 4>>, <<20, 4>>, <<24, 4>>, <<28, 4>>, <<36, 4>>, <<40, 4>>, <<60, 4>>, <<64, 4>>, <<68, 4>>, <<87, 4>>, <<91, 4>>, <<111,
  4>>, <<123, 4>>, <<127, 4>>, <<131, 4>>, <<135, 4>>, <<5155, 4>>, <<5175, 4>>, <<5179, 4>>, <<5183, 4>>, <<5187, 4>>, <<5191, 4>>, <<7811, 4>>,
  <<7815, 4>>, <<7819, 4>>, <<7823, 4>>, <<96027, 4>>, <<96031, 4>>, <<144515, 4>>, <<5195, 2>>, <<5197, 2>>, <<7575, 2>>, <<7577, 2>>, <<7619, 2>>,
  <<7621, 2>>, <<95, 4>>, <<7623, 4>>, <<7367, 8>>, <<7375, 8>>, <<7527, 8>>, <<7627, 8>>, <<7635, 8>>, <<7643, 8>>, <<7651, 8>>, <<7659, 8>>, <<7667,
  8>>, <<7675, 8>>, <<7683, 8>>, <<7691, 8>>, <<7699, 8>>, <<7707, 8>>, <<7715, 8>>, <<7723, 8>>, <<7731, 8>>, <<7755, 8>>, <<7763, 8>>, <<7771, 8>>,
  <<7779, 8>>, <<7787, 8>> >>
Arrays == <<  \* place, width, elements
  <<5199, 2, 20>>, <<5239, 2, 20>>, <<5279, 2, 20>>, <<5319, 4, 256>>, <<6343, 4, 256>>, <<7383, 8, 6>>, <<7431, 8, 6>>, <<7479, 4, 3>>, <<7491, 4,
  3>>, <<7503, 2, 12>>, <<7579, 2, 12>>, <<7603, 8, 2>>, <<7827, 4, 11025>>, <<51927, 4, 11025>>, <<96035, 4, 3030>>, <<108155, 4, 3030>>, <<120275,
  4, 3030>>, <<132395, 4, 3030>>, <<144519, 4, 3030>>, <<156639, 4, 3030>>, <<168759, 4, 3030>>, <<180879, 4, 3030>> >>
Flags == <<  \* place of a word, and the value at which the flag is up
  <<16, 0>>, <<16, 1>>, <<16, 2>>, <<36, 0>>, <<36, 1>>, <<36, 2>>, <<36, 3>>, <<36, 5>>, <<40, 0>>, <<40, 1>>, <<40, 2>>, <<40, 3>>, <<40, 4>>, <<40,
  5>>, <<40, 6>>, <<40, 7>>, <<87, 0>>, <<87, 1>>, <<87, 2>>, <<91, 0>>, <<91, 1>>, <<91, 2>>, <<111, 0>>, <<111, 1>>, <<111, 2>>, <<111, 3>>, <<5155,
  0>>, <<5155, 1>>, <<5155, 2>>, <<5155, 3>>, <<5155, 4>>, <<5155, 5>>, <<5155, 6>>, <<5179, 0>>, <<5179, 1>>, <<5183, 0>>, <<5183, 1>>, <<5183, 2>>,
  <<5183, 3>> >>

RECURSIVE Over(_, _, _)
Over(runs, k, p) ==   \* the last run over p, 0 if none
  IF k = 0 THEN 0 ELSE IF p >= runs[k].at /\ p < runs[k].at + Len(runs[k].v) THEN k ELSE Over(runs, k - 1, p)
Byte(f, p) == LET k == Over(f.runs, Len(f.runs), p) IN
              IF k > 0 THEN f.runs[k].v[(p - f.runs[k].at) + 1] ELSE ((p * 7) + ((p \div 256) * 13) + f.seed) % 256
Raw(f, q) == Byte(f, TextLen + q)
Word(f, q) == <<(Raw(f, q) * 256) + Raw(f, q + 1), (Raw(f, q + 2) * 256) + Raw(f, q + 3)>>
Is(f, q, v) == Word(f, q) = <<0, v>>
Composite(f) == Is(f, 40, 3)
Rectified(f) == LET w == Word(f, 36) IN w[1] < 32768 /\ (w[1] > 0 \/ w[2] > 3)
\* what the header holds: the second section only of images that are not rectified
H(f, q) == IF q >= First /\ q < First + Second /\ Rectified(f) THEN 0
           ELSE IF q >= First + Second + Third /\ ~Composite(f) THEN 0 ELSE Raw(f, q)
Bytes(f, q, n) == [k \in 1..n |-> H(f, q + k - 1)]
Value(f, q) == LET b == Bytes(f, q, 4) IN (b[2] * 65536) + (b[3] * 256) + b[4]   \* of small numbers
Small(f, q) == Word(f, q)[1] = 0 /\ Word(f, q)[2] <= MaxSize
HeadLen(f) == TextLen + First + Second + (IF Composite(f) THEN ThirdComposite ELSE Third)
NLines(f) == Word(f, 131)[2]
NPixels(f) == Word(f, 135)[2]
HeadThere(f) == f.len >= TextLen + First /\ f.len >= HeadLen(f)
Readable(f) == HeadThere(f) /\ Small(f, 131) /\ Small(f, 135) /\ f.len >= HeadLen(f) + (NLines(f) * (NPixels(f) + LinePrefix))
PixelAt(f, y, x) == HeadLen(f) + (y * (NPixels(f) + LinePrefix)) + LinePrefix + x

\* ---- kinds of data
Chan(f, s) == \E v \in s : Is(f, 40, v)
Vis(f) == Chan(f, {1, 2, 3})
Ir(f) == Chan(f, {4, 5})
Wv(f) == Chan(f, {6, 7})
FormatA(f) == \/ (Ir(f) \/ Wv(f)) /\ NLines(f) = 2500 /\ NPixels(f) = 2500
              \/ Composite(f) /\ NLines(f) = 5000 /\ NPixels(f) = 5000
FormatB(f) == \/ (Ir(f) \/ Wv(f)) /\ NLines(f) = 625 /\ NPixels(f) = 1250 /\ Is(f, 123, 1810)
              \/ Composite(f) /\ NLines(f) = 1250 /\ NPixels(f) = 2500 /\ Is(f, 123, 3620)

\* ---- calibration: digits with blanks for zeros, five after the point; two before the point and one after
Digit(f, q) == IF Raw(f, q) = 32 THEN 0 ELSE Raw(f, q) - 48
Coefficient(f) == (Digit(f, 44) * 10000) + (Digit(f, 45) * 1000) + (Digit(f, 46) * 100) + (Digit(f, 47) * 10) + Digit(f, 48)
Space(f) == (Digit(f, 49) * 100) + (Digit(f, 50) * 10) + Digit(f, 51)
CalDay(f) == (Digit(f, 52) * 100) + (Digit(f, 53) * 10) + Digit(f, 54)
CalSlot(f) == (Digit(f, 55) * 10) + Digit(f, 56)
Sat(f) == Bytes(f, 32, 2)
M7 == <<77, 55>>
M6 == <<77, 54>>
Planck(rad, b, a) == RDiv(RNeg(R(b)), RSub(RLog(rad), R(a)))
Calibrated(f, n) ==
  LET rad == RMul(RDiv(Coefficient(f), 100000), RSub(n, RDiv(Space(f), 10))) IN
  IF Sat(f) # M7 THEN R(1)
  ELSE IF Vis(f) THEN RDiv(RMul(100, n), 255)
  ELSE IF ~Ir(f) /\ ~Wv(f) THEN R(1)
  ELSE IF n * 10 <= Space(f) \/ Coefficient(f) = 0 THEN R(0)
  ELSE IF Ir(f) THEN Planck(rad, "1255.5465", "6.9618") ELSE Planck(rad, "2233.4882", "9.2477")

\* ---- the date: year, and yymmdd and hhmm
DateOf(f) == LET d == Value(f, 24) t == Value(f, 28) md == d % 10000 IN
  <<Value(f, 8), md \div 100, md % 100, t \div 100, t % 100, 0>>
=============================================================================
