------------------------------- MODULE Digest -------------------------------
(* P20: SHA-1/224/256/384/512 (FIPS 180-4), HMAC (FIPS 198), SipHash-2-4 and  *)
(* AES (FIPS 197, modes ECB and CBC), and the objects that compute them piece *)
(* by piece.                                                                  *)
EXTENDS Words, DigestBig
K256 == <<<<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>, <<49755, 14678>>, <<4593, 23025>>, <<33444, 37439>>, <<24277, 43804>>, <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>, <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>, <<27073, 58523>>, <<18310, 61374>>, <<40390, 4033>>, <<41420, 9228>>, <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>, <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>, <<3059, 50912>>, <<37191, 54695>>, <<25425, 1738>>, <<10599, 5161>>, <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>, <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>, <<59553, 41663>>, <<26187, 43034>>, <<35696, 49739>>, <<20899, 51052>>, <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>, <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>, <<3251, 14620>>, <<43594, 20184>>, <<51791, 23452>>, <<28659, 26670>>, <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>, <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>>>>
K512 == <<<<44578, 55080, 12184, 17034>>, <<26061, 9199, 17553, 28983>>, <<15151, 60493, 64463, 46528>>, <<56252, 33161, 56229, 59829>>, <<46392, 62280, 49755, 14678>>, <<53273, 46597, 4593, 23025>>, <<20379, 44825, 33444, 37439>>, <<33048, 55917, 24277, 43804>>, <<578, 41731, 43672, 55303>>, <<28606, 17776, 23297, 4739>>, <<45708, 20196, 34238, 9265>>, <<46306, 54783, 32195, 21772>>, <<35183, 62075, 23924, 29374>>, <<38577, 15126, 45566, 32990>>, <<4661, 9671, 1703, 39900>>, <<9876, 53097, 61812, 49563>>, <<19154, 40689, 27073, 58523>>, <<9699, 14415, 18310, 61374>>, <<54709, 35724, 40390, 4033>>, <<40037, 30636, 41420, 9228>>, <<629, 22827, 11375, 11753>>, <<58499, 28326, 33962, 19060>>, <<64468, 48449, 43484, 23728>>, <<21429, 33553, 35034, 30457>>, <<57259, 61030, 20818, 38974>>, <<12816, 11700, 50797, 43057>>, <<8511, 39163, 10184, 45059>>, <<3812, 48879, 32711, 48985>>, <<36802, 15784, 3059, 50912>>, <<42789, 37642, 37191, 54695>>, <<33391, 57347, 25425, 1738>>, <<28272, 2574, 10599, 5161>>, <<12284, 18130, 2693, 10167>>, <<51494, 23590, 8504, 11803>>, <<10989, 23236, 28156, 19756>>, <<46047, 40341, 3347, 21304>>, <<25566, 35759, 29524, 25866>>, <<45736, 15479, 2747, 30314>>, <<44774, 18413, 51502, 33218>>, <<13627, 5250, 11397, 37490>>, <<868, 19697, 59553, 41663>>, <<12289, 48194, 26187, 43034>>, <<38801, 53496, 35696, 49739>>, <<48688, 1620, 20899, 51052>>, <<21016, 55023, 59417, 53650>>, <<43280, 21861, 1572, 54937>>, <<8234, 22385, 13701, 62478>>, <<53688, 12987, 41072, 4202>>, <<53448, 47314, 49430, 6564>>, <<43859, 20801, 27656, 7735>>, <<60313, 57230, 30540, 10056>>, <<18600, 57755, 48309, 13488>>, <<23139, 50633, 3251, 14620>>, <<35531, 58177, 43594, 20184>>, <<58227, 30563, 51791, 23452>>, <<47267, 54962, 28659, 26670>>, <<45820, 24047, 33518, 29839>>, <<12128, 17175, 25455, 30885>>, <<43890, 41456, 30740, 33992>>, <<14828, 6756, 520, 36039>>, <<7720, 9059, 65530, 37054>>, <<48617, 56962, 27883, 42064>>, <<30997, 45766, 41975, 48889>>, <<21291, 58226, 30962, 50801>>, <<24988, 59942, 16078, 51751>>, <<49671, 8640, 47303, 53638>>, <<60190, 52704, 32214, 60122>>, <<53624, 61038, 20351, 62845>>, <<28602, 29207, 26538, 1776>>, <<39078, 41672, 32197, 2659>>, <<3502, 48889, 38916, 4415>>, <<18203, 4892, 2869, 7025>>, <<32132, 8964, 30709, 10459>>, <<9363, 16583, 43899, 13002>>, <<48828, 5577, 48650, 15518>>, <<3404, 39952, 26564, 17181>>, <<17078, 52030, 54462, 19653>>, <<32298, 64613, 10652, 22911>>, <<64236, 15062, 28587, 24523>>, <<22551, 19015, 6540, 27716>>>>
K1 == <<<<31129, 23170>>, <<60321, 28377>>, <<48348, 36635>>, <<49622, 51810>>>>
IV(alg) == CASE alg = 1 -> <<<<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>, <<57840, 50130>>>>
  [] alg = 224 -> <<<<40664, 49413>>, <<54535, 13948>>, <<56599, 12400>>, <<22841, 63246>>, <<2865, 65472>>, <<5393, 26712>>, <<36775, 25849>>, <<20388, 48890>>>>
  [] alg = 256 -> <<<<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>, <<21119, 20750>>, <<26764, 39685>>, <<55723, 8067>>, <<52505, 23520>>>>
  [] alg = 384 -> <<<<40664, 49413, 40285, 52155>>, <<54535, 13948, 10538, 25242>>, <<56599, 12400, 346, 37209>>, <<22841, 63246, 60632, 5423>>, <<2865, 65472, 9831, 26419>>, <<5393, 26712, 19079, 36532>>, <<36775, 25849, 11789, 56076>>, <<20388, 48890, 18461, 18357>>>>
  [] alg = 512 -> <<<<51464, 62396, 58983, 27145>>, <<42811, 33994, 44677, 47975>>, <<63531, 65172, 62322, 15470>>, <<14065, 24349, 62778, 42319>>, <<33489, 44518, 21119, 20750>>, <<27679, 11070, 26764, 39685>>, <<48491, 64321, 55723, 8067>>, <<8569, 4990, 52505, 23520>>>>

Wide(alg) == alg \in {384, 512}
Limbs(alg) == IF Wide(alg) THEN 4 ELSE 2
BlockLen(alg) == IF Wide(alg) THEN 128 ELSE 64
OutLen(alg) == IF alg = 1 THEN 20 ELSE alg \div 8
Rounds(alg) == IF Wide(alg) \/ alg = 1 THEN 80 ELSE 64
Pad(alg, m) ==
  LET B == BlockLen(alg) F == B \div 8
      z == (2 * B - 1 - F - (Len(m) % B)) % B
      bits == Len(m) * 8
  IN m \o <<128>> \o Zeros(z + F - 4) \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
sig0(alg, x) == IF Wide(alg) THEN WXor(WXor(Rotr(x, 1), Rotr(x, 8)), Shr(x, 7)) ELSE WXor(WXor(Rotr(x, 7), Rotr(x, 18)), Shr(x, 3))
sig1(alg, x) == IF Wide(alg) THEN WXor(WXor(Rotr(x, 19), Rotr(x, 61)), Shr(x, 6)) ELSE WXor(WXor(Rotr(x, 17), Rotr(x, 19)), Shr(x, 10))
Sum0(alg, x) == IF Wide(alg) THEN WXor(WXor(Rotr(x, 28), Rotr(x, 34)), Rotr(x, 39)) ELSE WXor(WXor(Rotr(x, 2), Rotr(x, 13)), Rotr(x, 22))
Sum1(alg, x) == IF Wide(alg) THEN WXor(WXor(Rotr(x, 14), Rotr(x, 18)), Rotr(x, 41)) ELSE WXor(WXor(Rotr(x, 6), Rotr(x, 11)), Rotr(x, 25))
Ch(x, y, z) == WXor(z, WAnd(x, WXor(y, z)))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))
RECURSIVE Sched(_, _, _)
Sched(alg, w, n) == LET t == Len(w) + 1 IN
  IF t > n THEN w
  ELSE Sched(alg, Append(w, IF alg = 1 THEN Rotl(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)
                            ELSE WAdd(WAdd(sig1(alg, w[t - 2]), w[t - 7]), WAdd(sig0(alg, w[t - 15]), w[t - 16]))), n)
Kc(alg, t) == IF alg = 1 THEN K1[((t - 1) \div 20) + 1] ELSE IF Wide(alg) THEN K512[t] ELSE K256[t]
F1(t, b, c, d) == IF t <= 20 THEN Ch(b, c, d) ELSE IF t \in 41 .. 60 THEN Maj(b, c, d) ELSE WXor(WXor(b, c), d)
RECURSIVE Run(_, _, _, _)
Run(alg, w, t, v) ==
  IF t > Rounds(alg) THEN v
  ELSE IF alg = 1 THEN
    LET x == WAdd(WAdd(WAdd(Rotl(v[1], 5), F1(t, v[2], v[3], v[4])), WAdd(v[5], w[t])), Kc(1, t)) IN
    Run(alg, w, t + 1, <<x, v[1], Rotl(v[2], 30), v[3], v[4]>>)
  ELSE
    LET t1 == WAdd(WAdd(WAdd(v[8], Sum1(alg, v[5])), WAdd(Ch(v[5], v[6], v[7]), Kc(alg, t))), w[t])
        t2 == WAdd(Sum0(alg, v[1]), Maj(v[1], v[2], v[3])) IN
    Run(alg, w, t + 1, <<WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7]>>)
WBytes(alg) == IF Wide(alg) THEN 8 ELSE 4
Words16(alg, p, o) == LET n == Limbs(alg) k == WBytes(alg) IN
  <<BE(p, o, n), BE(p, o + k, n), BE(p, o + 2 * k, n), BE(p, o + 3 * k, n), BE(p, o + 4 * k, n), BE(p, o + 5 * k, n), BE(p, o + 6 * k, n), BE(p, o + 7 * k, n),
    BE(p, o + 8 * k, n), BE(p, o + 9 * k, n), BE(p, o + 10 * k, n), BE(p, o + 11 * k, n), BE(p, o + 12 * k, n), BE(p, o + 13 * k, n), BE(p, o + 14 * k, n), BE(p, o + 15 * k, n)>>
AddV(h, v) == IF Len(h) = 5 THEN <<WAdd(h[1], v[1]), WAdd(h[2], v[2]), WAdd(h[3], v[3]), WAdd(h[4], v[4]), WAdd(h[5], v[5])>>
  ELSE <<WAdd(h[1], v[1]), WAdd(h[2], v[2]), WAdd(h[3], v[3]), WAdd(h[4], v[4]), WAdd(h[5], v[5]), WAdd(h[6], v[6]), WAdd(h[7], v[7]), WAdd(h[8], v[8])>>
RECURSIVE Blocks(_, _, _, _)
Blocks(alg, p, o, h) == IF o > Len(p) THEN h
  ELSE LET w == Sched(alg, Words16(alg, p, o), Rounds(alg)) IN Blocks(alg, p, o + BlockLen(alg), AddV(h, Run(alg, w, 1, h)))
Sha(alg, m) == LET h == Blocks(alg, Pad(alg, m), 1, IV(alg)) IN SubSeq(Concat([i \in 1 .. Len(h) |-> BEBytes(h[i])]), 1, OutLen(alg))
XorPad(alg, k, x) == [i \in 1 .. BlockLen(alg) |-> (IF i <= Len(k) THEN k[i] ELSE 0) ^^ x]
Hmac(alg, key, m) == LET k == IF Len(key) > BlockLen(alg) THEN Sha(alg, key) ELSE key IN
  Sha(alg, XorPad(alg, k, 92) \o Sha(alg, XorPad(alg, k, 54) \o m))
\* SipHash-2-4 -----------------------------------------------------------------
SipC == <<<<25973, 28787, 28005, 29551>>, <<28525, 28260, 29281, 25711>>, <<29281, 28261, 26469, 27769>>, <<25971, 31092, 25698, 29797>>>>
SipRound(v) ==
  LET a0 == WAdd(v[1], v[2]) c0 == WAdd(v[3], v[4])
      b1 == WXor(Rotl(v[2], 13), a0) d1 == WXor(Rotl(v[4], 16), c0)
      a1 == Rotl(a0, 32)
      c2 == WAdd(c0, b1) a2 == WAdd(a1, d1)
      b3 == WXor(Rotl(b1, 17), c2) d3 == WXor(Rotl(d1, 21), a2)
  IN <<a2, b3, Rotl(c2, 32), d3>>
RECURSIVE SipAbsorb(_, _, _)
SipAbsorb(m, p, v) == IF p > Len(m) THEN v
  ELSE LET w == LE64(m, p) u == SipRound(SipRound(<<v[1], v[2], v[3], WXor(v[4], w)>>)) IN SipAbsorb(m, p + 8, <<WXor(u[1], w), u[2], u[3], u[4]>>)
SipHash(m, k0, k1) ==
  LET r == Len(m) % 8
      p == m \o Zeros(7 - r) \o <<Len(m) % 256>>
      v0 == <<WXor(k0, SipC[1]), WXor(k1, SipC[2]), WXor(k0, SipC[3]), WXor(k1, SipC[4])>>
      v == SipAbsorb(p, 1, v0)
      u == SipRound(SipRound(SipRound(SipRound(<<v[1], v[2], WXor(v[3], <<255, 0, 0, 0>>), v[4]>>))))
  IN WXor(WXor(u[1], u[2]), WXor(u[3], u[4]))
\* AES ---------------------------------------------------------------------------
SBox == <<99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207, 208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8, 186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22>>
Sb(x) == SBox[x + 1]
XT(x) == IF x < 128 THEN 2 * x ELSE (2 * x - 256) ^^ 27
X4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
RECURSIVE KeyExp(_, _, _, _)
KeyExp(w, nk, n, rc) == LET i == Len(w) t == w[i] IN   \* w: sequence of 4-byte words
  IF i = n THEN w
  ELSE IF i % nk = 0 THEN KeyExp(Append(w, X4(w[i - nk + 1], <<Sb(t[2]) ^^ rc, Sb(t[3]), Sb(t[4]), Sb(t[1])>>)), nk, n, XT(rc))
  ELSE IF nk > 6 /\ i % nk = 4 THEN KeyExp(Append(w, X4(w[i - nk + 1], <<Sb(t[1]), Sb(t[2]), Sb(t[3]), Sb(t[4])>>)), nk, n, rc)
  ELSE KeyExp(Append(w, X4(w[i - nk + 1], t)), nk, n, rc)
KeySched(key) == LET nk == Len(key) \div 4 IN
  KeyExp([i \in 1 .. nk |-> <<key[4 * i - 3], key[4 * i - 2], key[4 * i - 1], key[4 * i]>>], nk, 4 * (nk + 7), 1)
X5(a, b, c, d, f) == ((((a ^^ b) ^^ c) ^^ d) ^^ f)
MixCol(c) == LET x == XT(c[1]) y == XT(c[2]) z == XT(c[3]) u == XT(c[4]) IN
  <<X5(x, y, c[2], c[3], c[4]), X5(c[1], y, z, c[3], c[4]), X5(c[1], c[2], z, u, c[4]), X5(x, c[1], c[2], c[3], u)>>
\* st: four columns
SR(st, j) == <<Sb(st[j][1]), Sb(st[(j % 4) + 1][2]), Sb(st[((j + 1) % 4) + 1][3]), Sb(st[((j + 2) % 4) + 1][4])>>
RECURSIVE AesRun(_, _, _, _)
AesRun(st, w, r, nr) ==
  LET a == SR(st, 1) b == SR(st, 2) c == SR(st, 3) d == SR(st, 4) k == 4 * r IN
  IF r = nr THEN <<X4(a, w[k + 1]), X4(b, w[k + 2]), X4(c, w[k + 3]), X4(d, w[k + 4])>>
  ELSE AesRun(<<X4(MixCol(a), w[k + 1]), X4(MixCol(b), w[k + 2]), X4(MixCol(c), w[k + 3]), X4(MixCol(d), w[k + 4])>>, w, r + 1, nr)
AesBlock(w, b) ==
  LET col(j) == <<b[4 * j - 3], b[4 * j - 2], b[4 * j - 1], b[4 * j]>>
      r == AesRun(<<X4(col(1), w[1]), X4(col(2), w[2]), X4(col(3), w[3]), X4(col(4), w[4])>>, w, 1, (Len(w) \div 4) - 1)
  IN r[1] \o r[2] \o r[3] \o r[4]
Xor16(a, b) == [i \in 1 .. 16 |-> a[i] ^^ b[i]]
\* encryption of whole blocks; prev is the chaining block (<<>>: ECB)
RECURSIVE AesAll(_, _, _, _)
AesAll(w, m, prev, acc) == IF Len(m) < 16 THEN acc
  ELSE LET b == SubSeq(m, 1, 16) c == AesBlock(w, IF prev = <<>> THEN b ELSE Xor16(b, prev)) IN
       AesAll(w, SubSeq(m, 17, Len(m)), IF prev = <<>> THEN <<>> ELSE c, acc \o c)
Aes(key, iv, cbc, m) == AesAll(KeySched(key), m, IF cbc THEN iv ELSE <<>>, <<>>)
\* objects -------------------------------------------------------------------------
\* S: the algorithm, the message under test and its value; objects are fed pieces
HashName(a) == <<115, 104, 97>> \o (IF a = 1 THEN <<49>> ELSE <<48 + (a \div 100), 48 + ((a \div 10) % 10), 48 + (a % 10)>>)
Step(S, e) ==
  CASE e.op = "msg" -> {[alg |-> e.alg, m |-> e.m, v |-> Sha(e.alg, e.m)]}
    [] e.op = "hmac" -> IF e.r = Hmac(e.alg, e.key, e.m) THEN {S} ELSE {}
    \* an object in its initial state (new, cleared, or reset by its digest) was given the pieces; r is its digest
    [] e.op = "obj" -> IF Concat(e.pieces) = S.m /\ e.r = S.v THEN {S} ELSE {}
    [] e.op = "zeros" -> IF e.r = ZeroDigest(e.alg, e.k) THEN {S} ELSE {}
    [] e.op = "short" -> IF e.r = 0 THEN {S} ELSE {}          \* output buffer too small: nothing is returned
    [] e.op = "sip" -> IF e.r = SipHash(e.m, e.k0, e.k1) THEN {S} ELSE {}
    [] e.op = "aes" ->         \* enc: cipher text of the whole blocks of m, whatever the pieces
         IF e.c = Aes(e.key, e.iv, e.cbc, e.m) /\ (e.fin >= 0 <=> Len(e.m) % 16 = 0) THEN {S} ELSE {}
    [] e.op = "aesdec" -> IF Aes(e.key, e.iv, e.cbc, e.p) = SubSeq(e.c, 1, (Len(e.c) \div 16) * 16) /\ Len(e.p) = (Len(e.c) \div 16) * 16 THEN {S} ELSE {}
    [] e.op = "name" -> IF e.s = HashName(e.alg) /\ e.back = e.alg /\ e.size = Len(Sha(e.alg, <<>>)) THEN {S} ELSE {}
    [] e.op = "badname" -> IF e.thrown = (\A a \in {1, 224, 256, 384, 512} : e.s # HashName(a)) THEN {S} ELSE {}
    [] e.op = "aeskey" -> IF e.thrown = (e.klen # e.want) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
