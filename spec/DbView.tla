------------------------------- MODULE DbView -------------------------------
(* What db1_to_image makes of a directory: a picture of a channel.
   The counts come line by line as the instrument scanned them: from the south
   and the east (then the picture is turned by 180 degrees), or, in the other
   passages, from the north and the west.                                      *)
EXTENDS Db1

\* the count drawn at row y, column x (from 0), of an image of w times h
CountAt(v, w, h, northsouth, y, x) ==
  IF northsouth THEN v[(y * w) + x + 1] ELSE v[((h - 1 - y) * w) + (w - 1 - x) + 1]
\* from a scene, rows from the north, columns from the west
Scan(scene, w, h, northsouth) ==
  [k \in 1..(w * h) |-> LET l == (k - 1) \div w c == (k - 1) % w IN
     IF northsouth THEN scene[l + 1][c + 1] ELSE scene[h - l][w - c]]

SatKey == <<115, 97, 116, 101, 108, 108, 105, 116, 101, 58>> \o NameKey
StartKey == <<115, 99, 104, 101, 100, 117, 108, 101, 58, 115, 116, 97, 114, 116>>
NorthKey == <<115, 99, 104, 101, 100, 117, 108, 101, 58, 110, 111, 114, 116, 104, 115, 111, 117, 116, 104>>
PixelsKey == <<105, 109, 97, 103, 101, 58, 112, 105, 120, 101, 108, 115>>
LinesKey == <<105, 109, 97, 103, 101, 58, 108, 105, 110, 101, 115>>
Undefined == <<85, 110, 100, 101, 102, 105, 110, 101, 100>>
SomeStart == <<48, 49, 47, 48, 49, 47, 50, 48, 48, 48, 32, 48, 48, 58, 48, 48, 58, 48, 48, 46, 48, 48, 48>>
Safe(t) == [k \in DOMAIN t |-> IF t[k] = 47 \/ t[k] = 58 THEN 45 ELSE IF t[k] = 32 THEN 95 ELSE t[k]]
PictureName(info, n, fmt) ==
  Safe(StrAt(info, SatKey, Undefined) \o <<95>> \o StrAt(info, Channel(n) \o NameKey, Undefined) \o <<95>> \o StrAt(info, StartKey, SomeStart) \o <<46>> \o fmt)
RawSize(f) == 2 * Len(f.v) + f.odd
PictureW(info, f) == IntAt(info, PixelsKey, RawSize(f) \div 2)
PictureH(info) == IntAt(info, LinesKey, 1)
NorthSouth(info) == BoolAt(info, NorthKey, 0) = 1
=============================================================================
