----------------------------- MODULE OpenMtpMC -----------------------------
(* The reader of OpenMTP files goes once through a file, section by section,
   with the same object for one file after another.  Checked: every field lies
   in one section and on no other field, the reader ends where the file does,
   and the image it holds is that of the last file, pixel by pixel. *)
EXTENDS OpenMtpFile, TLC
CONSTANTS Sizes, NFiles
VARIABLES f, at, line, image, n

vars == <<f, at, line, image, n>>
W(v) == <<0, 0, v \div 256, v % 256>>
Some == {[len |-> 0, seed |-> s, runs |-> <<[at |-> TextLen + 36, v |-> W(p)], [at |-> TextLen + 40, v |-> W(c)], [at |-> TextLen + 131, v |-> W(h)], [at |-> TextLen + 135, v |-> W(w)]>>] :
         s \in {0, 77}, p \in {0, 3, 4, 5}, c \in {3, 4}, h \in Sizes, w \in Sizes}
Full(g) == [g EXCEPT !.len = HeadLen(g) + (NLines(g) * (NPixels(g) + LinePrefix))]
Init == f \in {Full(g) : g \in Some} /\ at = 0 /\ line = -1 /\ image = <<>> /\ n = 1
ToLines == line = -1 /\ at' = TextLen + First + Second + (IF Composite(f) THEN ThirdComposite ELSE Third) /\ line' = 0 /\ image' = <<>> /\ UNCHANGED <<f, n>>
Line == /\ line >= 0 /\ line < NLines(f) /\ line' = line + 1 /\ at' = at + LinePrefix + NPixels(f)
        /\ image' = image \o [x \in 1..NPixels(f) |-> Byte(f, at + LinePrefix + x - 1)] /\ UNCHANGED <<f, n>>
Again == line = NLines(f) /\ n < NFiles /\ n' = n + 1 /\ \E g \in Some : f' = Full(g) /\ at' = 0 /\ line' = -1 /\ UNCHANGED image
Next == ToLines \/ Line \/ Again
Spec == Init /\ [][Next]_vars

AtEnd == line = NLines(f) => at = f.len
Whole == line = NLines(f) => /\ Len(image) = NLines(f) * NPixels(f)
                             /\ \A y \in 0..(NLines(f) - 1) : \A x \in 0..(NPixels(f) - 1) : image[(y * NPixels(f)) + x + 1] = Byte(f, PixelAt(f, y, x))
Spans == {<<Scalars[k][1], Scalars[k][2]>> : k \in DOMAIN Scalars} \union {<<Arrays[k][1], Arrays[k][2] * Arrays[k][3]>> : k \in DOMAIN Arrays}
         \union {<<0, 8>>, <<32, 2>>, <<44, 13>>, <<72, 15>>, <<115, 8>>, <<155, 2500>>, <<2655, 2500>>, <<7559, 16>>}
SectionOf(q) == IF q < First THEN 1 ELSE IF q < First + Second THEN 2 ELSE IF q < First + Second + Third THEN 3 ELSE 4
Apart == at = 0 => \A a, b \in Spans : a # b => a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
Within == at = 0 => \A a \in Spans : a[1] + a[2] <= MaxLen /\ SectionOf(a[1]) = SectionOf(a[1] + a[2] - 1)
Lengths == First + Second + ThirdComposite = MaxLen
Kinds == ~(Vis(f) /\ Ir(f)) /\ ~(FormatA(f) /\ FormatB(f))
=============================================================================
