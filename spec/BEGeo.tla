-------------------------------- MODULE BEGeo --------------------------------
(* Great-circle distance, in fixed-point arithmetic with 8 decimals.

   On the unit sphere two points are within angle d iff the chord between them is no
   longer than 2 sin(d/2). Chords are computed here to about 10^-7 (less than a metre);
   within GeoMargin of equality the specification leaves the answer open.            *)
EXTENDS BENum

Scale == 100000000
SinTable == <<
    0, 1745241, 3489950, 5233596, 6975647, 8715574, 10452846, 12186934, 13917310,
    15643447, 17364818, 19080900, 20791169, 22495105, 24192190, 25881905, 27563736, 29237170,
    30901699, 32556815, 34202014, 35836795, 37460659, 39073113, 40673664, 42261826, 43837115,
    45399050, 46947156, 48480962, 50000000, 51503807, 52991926, 54463904, 55919290, 57357644,
    58778525, 60181502, 61566148, 62932039, 64278761, 65605903, 66913061, 68199836, 69465837,
    70710678, 71933980, 73135370, 74314483, 75470958, 76604444, 77714596, 78801075, 79863551,
    80901699, 81915204, 82903757, 83867057, 84804810, 85716730, 86602540, 87461971, 88294759,
    89100652, 89879405, 90630779, 91354546, 92050485, 92718385, 93358043, 93969262, 94551858,
    95105652, 95630476, 96126170, 96592583, 97029573, 97437006, 97814760, 98162718, 98480775,
    98768834, 99026807, 99254615, 99452190, 99619470, 99756405, 99862953, 99939083, 99984770,
    100000000>>

\* product of two fixed-point numbers of magnitude <= 1, truncated
FMul(x, y) ==
    LET sg == (IF x < 0 THEN -1 ELSE 1) * (IF y < 0 THEN -1 ELSE 1)
        a == IF x < 0 THEN -x ELSE x    b == IF y < 0 THEN -y ELSE y
        a1 == a \div 10000  a0 == a % 10000
        b1 == b \div 10000  b0 == b % 10000
    IN  sg * (a1*b1 + (a1*b0 + a0*b1 + (a0*b0) \div 10000) \div 10000)

\* An angle is in micro-degrees, 0 .. 360*10^6 (a TLC integer). 10^6 = 10^12 = 280 modulo 360.
MicroDeg(n) == (((n[2] + n[3]) * 280 + n[4]) % 360) * Base + n[5]
AbsMicro(n) == MicroDeg(IF n[1] < 0 THEN NumNeg(n) ELSE n)

\* u micro-degrees, u < 10^6, as radians in 8 decimals: u * pi/180 * 10^-6 * 10^8
SmallRad(u) == (u * 1745 + (u * 329) \div 1000) \div 1000
\* first quadrant: whole degree k and micro-degrees u
Sin1(k, u) ==
    IF u = 0 THEN SinTable[k + 1]
    ELSE LET d  == SmallRad(u)
             d2 == FMul(d, d)
             sd == d - FMul(d2, d) \div 6
             cd == Scale - d2 \div 2 + FMul(d2, d2) \div 24
         IN  FMul(SinTable[k + 1], cd) + FMul(SinTable[91 - k], sd)
\* 0 .. 180 degrees
SinHalf(m) == LET q == IF m > 90000000 THEN 180000000 - m ELSE m IN Sin1(q \div Base, q % Base)
\* any micro-degree angle in 0 .. 360*10^6
SinMicro(m) == IF m > 180000000 THEN -SinHalf(m - 180000000) ELSE SinHalf(m)
CosMicro(m) == IF m >= 270000000 THEN SinMicro(m - 270000000) ELSE SinMicro(m + 90000000)

\* kilometres (number) -> micro-degrees on the sphere of radius 6372.8 km: times 8990.6759
\* only for radii below 20020 km; 0.0089906759 degrees per km
KmMicro(n) == n[4] * 8990 + (n[4] * 6759) \div 10000 + ((n[5] \div 1000) * 8991) \div 1000
MaxKm == 20021

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x < y THEN y ELSE x
\* magnification that keeps squares accurate for short chords
Zoom(m) == IF m >= 10000000 THEN 1 ELSE IF m >= 1000000 THEN 10 ELSE IF m >= 100000 THEN 100 ELSE 1000

GeoMargin == 40
\* "yes" / "no" / "open"
Within(lat1, lon1, lat2, lon2, rad) ==
    LET s1 == (IF lat1[1] < 0 THEN -1 ELSE 1) * SinMicro(AbsMicro(lat1))
        s2 == (IF lat2[1] < 0 THEN -1 ELSE 1) * SinMicro(AbsMicro(lat2))
        c1 == CosMicro(AbsMicro(lat1))
        c2 == CosMicro(AbsMicro(lat2))
        dl == AbsMicro(NumSub(lon1, lon2))
        dx == Abs(FMul(c1, CosMicro(dl)) - c2)
        dy == Abs(FMul(c1, SinMicro(dl)))
        dz == Abs(s1 - s2)
    IN  IF rad[1] < 0 THEN "no"
        ELSE IF rad[1] > 0 \/ rad[2] > 0 \/ rad[3] > 0 \/ rad[4] >= MaxKm THEN "yes"
        ELSE LET h == KmMicro(rad) \div 2
                 t == IF h > 90000000 THEN 2 * Scale ELSE 2 * SinMicro(h)
                 f == Zoom(Max2(Max2(dx, dy), Max2(dz, t)))
                 sq(x) == FMul(x * f, x * f)
                 chord2 == sq(dx) + sq(dy) + sq(dz)
             IN  IF t > GeoMargin /\ chord2 < sq(t - GeoMargin) - 4 THEN "yes"
                 ELSE IF chord2 > sq(t + GeoMargin) + 4 THEN "no" ELSE "open"
=============================================================================
