----------------------------- MODULE SegAccess -----------------------------
(* Assembling an image from the segments of its files.

   A product p:  hrv, cols (samples per line), segl (lines per segment), present
   (set of sequence numbers with a file), mirrored (lines run east to west in
   the files), cov (actual HRV coverage), bpp.

   The northernmost scan line is number 0.  In the files line counting starts
   from the south, in segment 1.  The line the counting starts from is the full
   disc height for normal channels, the northernmost covered line for HRV.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

FullDisc == 3712
FullHRV == 11136

Levels(p) == IF 2^p.bpp > 1021 THEN 1021 ELSE 2^p.bpp
\* what the generator wrote in segment s, line l, column c (all from 0, s from 1)
Flat(p, s) == "flat" \in DOMAIN p /\ s \in DOMAIN p.flat
Stored(p, s, l, c) == IF Flat(p, s) THEN p.flat[s] ELSE 1 + ((s * 331 + l * 37 + c * 7) % (Levels(p) - 1))

TopLine(p) == IF p.hrv THEN Max({p.cov.ln, p.cov.un}) ELSE FullDisc
FileLine(p, n) == TopLine(p) - 1 - n
SegOf(p, n) == (FileLine(p, n) \div p.segl) + 1
LineIn(p, n) == FileLine(p, n) % p.segl

\* scan line n: the samples from west to east
HasData(p, n) == FileLine(p, n) >= 0 /\ SegOf(p, n) \in p.present
LineOf(p, n) ==
    IF ~HasData(p, n) THEN [c \in 1..p.cols |-> 0]
    ELSE [c \in 1..p.cols |-> Stored(p, SegOf(p, n), LineIn(p, n), IF p.mirrored THEN p.cols - c ELSE c - 1)]

\* where line n begins in the full-width image: the HRV image is two windows that
\* move independently, "lower" (south) and "upper" (north)
StartOf(p, n) ==
    IF ~p.hrv \/ n >= TopLine(p) THEN 0
    ELSE LET l == TopLine(p) - n IN        \* line in the reference grid, from 1 in the south
         IF l \in p.cov.ls..p.cov.ln THEN FullHRV - p.cov.lw
         ELSE IF l \in p.cov.us..p.cov.un THEN FullHRV - p.cov.uw
         ELSE 0

\* --- the cache: at most two decoded segments, most recently used first -----
Use(cache, s) == IF \E k \in 1..Len(cache) : cache[k] = s
                 THEN <<s>> \o SelectSeq(cache, LAMBDA x : x # s)
                 ELSE <<s>> \o SubSeq(cache, 1, IF Len(cache) > 1 THEN 1 ELSE Len(cache))
Miss(cache, s) == \A k \in 1..Len(cache) : cache[k] # s
=============================================================================
