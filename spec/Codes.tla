------------------------------- MODULE Codes -------------------------------
(* Satellites and channels: numbers, names, units.  WMO common code table C-5
   for satellites; the numbering of the HRIT dissemination on the other side. *)
EXTENDS Integers, Sequences, Real64

\* <<number in HRIT files, WMO number>>: satellites of the dissemination
HritWmo == { <<0, 1023>>, <<11, 3>>, <<12, 4>>, <<13, 5>>, <<16, 50>>, <<19, 51>>, <<20, 52>>, <<21, 53>>,
             <<321, 55>>, <<322, 56>>, <<323, 57>>, <<324, 70>>, <<17012, 204>>, <<17014, 205>>, <<17015, 206>>,
             <<18007, 251>>, <<18008, 252>>, <<18009, 253>>, <<18010, 254>>, <<18011, 255>>, <<18012, 256>>,
             <<19001, 310>>, <<19002, 311>>, <<20004, 151>>, <<20005, 152>>, <<21001, 58>>, <<21002, 59>> }
SatOfHRIT(h) == IF \E e \in HritWmo : e[1] = h THEN (CHOOSE e \in HritWmo : e[1] = h)[2] ELSE 1023
HRITOfSat(w) == IF \E e \in HritWmo : e[2] = w THEN (CHOOSE e \in HritWmo : e[2] = w)[1] ELSE 0

SatNames == { <<3, "METOP1">>, <<4, "METOP2">>, <<5, "METOP3">>, <<50, "METEOSAT3">>, <<51, "METEOSAT4">>, <<52, "METEOSAT5">>,
              <<53, "METEOSAT6">>, <<54, "METEOSAT7">>, <<55, "MSG1">>, <<56, "MSG2">>, <<57, "MSG3">>, <<58, "MTSAT1">>,
              <<59, "MTSAT2">>, <<70, "MSG4">>, <<150, "GMS3">>, <<151, "GMS4">>, <<152, "GMS5">>, <<204, "NOAA12">>,
              <<205, "NOAA14">>, <<206, "NOAA15">>, <<251, "GOES7">>, <<252, "GOES8">>, <<253, "GOES9">>, <<254, "GOES10">>,
              <<255, "GOES11">>, <<256, "GOES12">>, <<310, "GOMS1">>, <<311, "GOMS2">> }
SatName(id) == IF \E e \in SatNames : e[1] = id THEN (CHOOSE e \in SatNames : e[1] = id)[2]
               ELSE IF id \in {999, 1023} THEN "Non Spacecraft" ELSE "unknown"
SatIdOf(n) == IF \E e \in SatNames : e[2] = n THEN (CHOOSE e \in SatNames : e[2] = n)[1] ELSE -1

Seviri(id) == id \in {55, 56, 57, 70}
ChanNames == <<"VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV">>
ChanName(id, c) == IF ~Seviri(id) THEN "unknown" ELSE IF c = 0 THEN "no-channel" ELSE IF c \in 1..12 THEN ChanNames[c] ELSE "unknown"
ChanUnit(id, c) == IF Seviri(id) /\ c \in 1..12 THEN IF c \in 4..11 THEN "K" ELSE "mW m^-2 sr^-1 (cm^-1)^-1" ELSE "unknown"
ChanLevel(id, c) == IF Seviri(id) /\ c \in 0..12 THEN "1.5" ELSE ""
SensorName(id) == IF Seviri(id) THEN "Seviri" ELSE "unknown"
\* central wavelengths, in tenths of a micrometre
Wavelengths == <<6, 8, 16, 39, 62, 73, 87, 97, 108, 120, 134, 7>>
\* decimal digits worth keeping, and the values that stand for missing pixels
Digits10(c) == IF c \in {1, 2, 3, 12} THEN 4 ELSE IF c \in 0..12 THEN 2 ELSE 0
MissingPacked(c) == IF c \in 0..12 THEN 0 ELSE R("NaN")
MissingScaled(c) == CASE c = 1 -> R("-1.02691") [] c = 12 -> R("-1.63196") [] c \in 0..12 -> 0 [] OTHER -> R("NaN")
\* texts shown for satellites and channels of the dissemination
Labels == { <<0, "Non Spacecraft">>, <<11, "METOP1">>, <<12, "METOP2">>, <<13, "METOP3">>, <<16, "METEOSAT3">>, <<19, "METEOSAT4">>, <<20, "METEOSAT5">>,
            <<21, "METEOSAT6">>, <<150, "MTP1">>, <<151, "MTP2">>, <<321, "MSG1">>, <<322, "MSG2">>, <<323, "MSG3">>, <<324, "MSG4">>, <<17012, "NOAA12">>,
            <<17013, "NOAA13">>, <<17014, "NOAA14">>, <<17015, "NOAA15">>, <<18007, "GOES7">>, <<18008, "GOES8">>, <<18009, "GOES9">>, <<18010, "GOES10">>,
            <<18011, "GOES11">>, <<18012, "GOES12">>, <<19001, "GOMS1">>, <<19002, "GOMS2">>, <<19003, "GOMS3">>, <<20004, "GMS4">>, <<20005, "GMS5">>,
            <<20006, "GMS6">>, <<21001, "MTSAT1">>, <<21002, "MTSAT2">> }
Label(h) == IF \E e \in Labels : e[1] = h THEN (CHOOSE e \in Labels : e[1] = h)[2] ELSE "Unknown"
Nth(names, c, other) == IF c \in DOMAIN names THEN names[c] ELSE other
ChanLabel(h, c) ==
  CASE h \in 321..324 -> IF c = 0 THEN "Image data, no channel"
                         ELSE "MSG Seviri 1.5 " \o Nth(<<"Visible 0.6", "Visible 0.8", "Infrared 1.6", "Infrared 3.9", "Water Vapour 6.2", "Water Vapour 7.3",
                                  "Infrared 8.7", "Infrared 9.7", "Infrared 10.8", "Infrared 12.0", "Infrared 13.4", "HRV">>, c, "unknown") \o " channel"
    [] h \in 18007..18012 -> "GOES " \o Nth(<<"Visible", "Infrared 3.9", "Water Vapour 6.8", "Infrared 10.7", "Infrared 12.0">>, c, "unknown") \o " channel"
    [] h \in 20004..20006 \union {21001, 21002} -> "GMS/MTSAT " \o Nth(<<"Visible", "Infrared 3.8", "Water Vapour 6.7", "Infrared 10.8", "Infrared 12.0">>, c, "unknown") \o " channel"
    [] h \in 19001..19003 -> "GOMS " \o Nth(<<"Visible", "Water Vapour", "Infrared">>, c, "unknown") \o " channel"
    [] h \in {11, 12, 13} \union 17012..17015 -> "Polar orbiter single or composite " \o Nth(<<"Visible 0.6", "Visible 0.8", "Near Infrared 1.6", "Infrared 3.8", "Infrared 10.8", "Infrared 12.0">>, c, "unknown") \o " channel"
    [] OTHER -> "No channel information"
\* two satellites of the dissemination never share a number, nor a name
ASSUME \A a, b \in HritWmo : (a[1] = b[1] \/ a[2] = b[2]) => a = b
ASSUME \A a, b \in SatNames : (a[1] = b[1] \/ a[2] = b[2]) => a = b
\* a satellite has the same name on both sides
ASSUME \A e \in HritWmo : SatName(e[2]) = Label(e[1])
ASSUME \A a, b \in 1..12 : Wavelengths[a] = Wavelengths[b] => a = b
=============================================================================
