-------------------------------- MODULE Gzip --------------------------------
(***************************************************************************)
(* The gzip container (RFC 1952) and the deflate format (RFC 1951) as a    *)
(* machine: GzStep performs one part of a file r (a sequence of bytes) -   *)
(* a member header, a block header, a stored block, one symbol, a trailer. *)
(* The result of a finished machine z:                                     *)
(*   z.out   the bytes decompressed                                        *)
(*   z.st    "ok"    r is a sequence of complete, undamaged members        *)
(*           "bad"   it is not: out is what precedes the damage            *)
(*   z.open  1 if r contains something the format leaves to the reader     *)
(*           (reserved flags, a wrong header checksum, bytes behind the    *)
(*           last member): then refusing is right, too                     *)
(***************************************************************************)
EXTENDS Bits, TLC, SequencesExt
LOCAL INSTANCE Bitwise
LOCAL INSTANCE FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
ByteAt(r, k) == IF k < Len(r) THEN r[k + 1] ELSE 0
\* n <= 16 bits from bit i on
GetBits(r, i, n) ==
  LET k == i \div 8
  IN ((ByteAt(r, k) + 256 * ByteAt(r, k + 1) + 65536 * ByteAt(r, k + 2)) \div Pow2[(i % 8) + 1])
     % Pow2[n + 1]
HasBits(r, i, n) == i + n <= 8 * Len(r)
Align(i) == ((i + 7) \div 8) * 8

(* ---------------- CRC-32, as << high 16 bits, low 16 bits >> ------------ *)
XorW(a, b)   == << a[1] ^^ b[1], a[2] ^^ b[2] >>
HalfW(a)     == << a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768 >>
CrcBit(a)    == IF a[2] % 2 = 1 THEN XorW(HalfW(a), << 60856, 33568 >>) ELSE HalfW(a)
CrcTable     == [n \in 0..255 |->
                   CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(<< 0, n >>))))))))]
CrcStep(a, x) == XorW(CrcTable[(a[2] % 256) ^^ x],
                      << a[1] \div 256, (a[2] \div 256) + (a[1] % 256) * 256 >>)
Crc(q) == XorW(FoldLeft(CrcStep, << 65535, 65535 >>, q), << 65535, 65535 >>)
CrcBytes(c) == << c[2] % 256, c[2] \div 256, c[1] % 256, c[1] \div 256 >>

(* ------------------------------ Huffman codes --------------------------- *)
\* lens[s + 1] is the code length of symbol s
Code(lens) ==
  LET with(l) == SelectSeq([s \in 1..Len(lens) |-> s - 1], LAMBDA s : lens[s + 1] = l)
      all     == TLCEval([l \in 1..15 |-> with(l)])
  IN TLCEval([cnt |-> [l \in 1..15 |-> Len(all[l])],
              sym |-> FoldLeft(LAMBDA a, b : a \o b, << >>, all)])
RECURSIVE Spare(_, _, _)
Spare(c, l, left) == IF l > 15 THEN left
                     ELSE LET n == 2 * left - c.cnt[l]
                          IN IF n < 0 THEN n ELSE Spare(c, l + 1, n)
Oversubscribed(c) == Spare(c, 1, 1) < 0
\* << symbol, next bit >>, << -1, i >> without a code, << -2, i >> at the end
RECURSIVE SymFrom(_, _, _, _, _, _, _)
SymFrom(r, i, c, l, code, first, index) ==
  IF l > 15 THEN << -1, i >>
  ELSE IF ~HasBits(r, i, 1) THEN << -2, i >>
  ELSE LET x == code + GetBits(r, i, 1)
           n == c.cnt[l]
       IN IF x - n < first THEN << c.sym[index + (x - first) + 1], i + 1 >>
          ELSE SymFrom(r, i + 1, c, l + 1, 2 * x, 2 * (first + n), index + n)
Sym(r, i, c) == SymFrom(r, i, c, 1, 0, 0, 0)

FixedLit  == Code([s \in 1..288 |-> IF s <= 144 THEN 8 ELSE IF s <= 256 THEN 9
                                    ELSE IF s <= 280 THEN 7 ELSE 8])
FixedDist == Code([s \in 1..30 |-> 5])

LenBase  == << 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59,
               67, 83, 99, 115, 131, 163, 195, 227, 258 >>
LenExtra == << 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3,
               4, 4, 4, 4, 5, 5, 5, 5, 0 >>
DistBase == << 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513,
               769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 >>
DistExtra == << 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8,
                9, 9, 10, 10, 11, 11, 12, 12, 13, 13 >>
ClOrder == << 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 >>

\* the code lengths of a dynamic block: << lens, next bit >>, << <<>>, -1 >> if wrong
Rep(x, n) == [k \in 1..n |-> x]
RECURSIVE Lengths(_, _, _, _, _)
Lengths(r, i, c, acc, want) ==
  IF Len(acc) = want THEN << acc, i >>
  ELSE IF Len(acc) > want THEN << << >>, -1 >>
  ELSE LET s == Sym(r, i, c) IN
       IF s[1] < 0 THEN << << >>, -1 >>
       ELSE IF s[1] < 16 THEN Lengths(r, s[2], c, Append(acc, s[1]), want)
       ELSE LET w == CASE s[1] = 16 -> 2 [] s[1] = 17 -> 3 [] OTHER -> 7
                n == GetBits(r, s[2], w) + (IF s[1] = 18 THEN 11 ELSE 3)
            IN IF ~HasBits(r, s[2], w) \/ (s[1] = 16 /\ acc = << >>) THEN << << >>, -1 >>
               ELSE Lengths(r, s[2] + w, c,
                            acc \o Rep(IF s[1] = 16 THEN acc[Len(acc)] ELSE 0, n), want)

(* -------------------------------- machine ------------------------------- *)
None == [cnt |-> Rep(0, 15), sym |-> << >>]
GzInit == [ph |-> "header", i |-> 0, out |-> << >>, from |-> 0, last |-> 0,
           lit |-> None, dist |-> None, st |-> "", open |-> 0]
GzMagic(r)   == Len(r) >= 2 /\ r[1] = 31 /\ r[2] = 139
GzDone(z)    == z.ph = "end"
Bad(z)       == [z EXCEPT !.ph = "end", !.st = "bad"]

\* offset behind the zero-terminated text at offset p, Len(r) + 1 if there is no end
TextEnd(r, p) == LET ends == {k \in p..(Len(r) - 1) : r[k + 1] = 0}
                 IN IF ends = {} THEN Len(r) + 1
                    ELSE 1 + CHOOSE k \in ends : \A j \in ends : k <= j
GzHeader(r, z) ==
  LET p  == z.i \div 8
      fl == ByteAt(r, p + 3)
      a  == p + 10
      b  == IF Bit(fl, 2) = 1 THEN a + 2 + ByteAt(r, a) + 256 * ByteAt(r, a + 1) ELSE a
      c  == IF Bit(fl, 3) = 1 THEN TextEnd(r, b) ELSE b
      d  == IF Bit(fl, 4) = 1 THEN TextEnd(r, c) ELSE c
      e  == IF Bit(fl, 1) = 1 THEN d + 2 ELSE d
      hc == CrcBytes(Crc(SubSeq(r, p + 1, d)))
  IN IF p + 10 > Len(r) \/ ByteAt(r, p + 2) # 8 \/ e > Len(r) THEN Bad(z)
     ELSE [z EXCEPT !.ph = "block", !.i = 8 * e, !.from = Len(z.out),
           !.open = IF fl > 31 \/ (Bit(fl, 1) = 1 /\ SubSeq(r, d + 1, e) # SubSeq(hc, 1, 2))
                    THEN 1 ELSE @]

GzStored(r, z) ==
  LET p == Align(z.i + 3) \div 8
      n == ByteAt(r, p) + 256 * ByteAt(r, p + 1)
  IN IF p + 4 > Len(r) \/ ByteAt(r, p + 2) # 255 - ByteAt(r, p) \/ ByteAt(r, p + 3) # 255 - ByteAt(r, p + 1)
     THEN Bad(z)
     ELSE LET y == [z EXCEPT !.out = @ \o SubSeq(r, p + 5, Min2(Len(r), p + 4 + n)),
                             !.i = 8 * (p + 4 + n),
                             !.ph = IF GetBits(r, z.i, 1) = 1 THEN "trailer" ELSE "block"]
          IN IF p + 4 + n > Len(r) THEN Bad(y) ELSE y
GzDynamic(r, z) ==
  LET hl == GetBits(r, z.i + 3, 5) + 257
      hd == GetBits(r, z.i + 8, 5) + 1
      hc == GetBits(r, z.i + 13, 4) + 4
      at == [k \in 1..19 |-> CHOOSE j \in 1..19 : ClOrder[j] = k - 1]
      cl == Code([k \in 1..19 |-> IF at[k] > hc THEN 0 ELSE GetBits(r, z.i + 17 + 3 * (at[k] - 1), 3)])
      ls == TLCEval(Lengths(r, z.i + 17 + 3 * hc, cl, << >>, hl + hd))
      lit == Code(SubSeq(ls[1], 1, hl))
      dst == Code(SubSeq(ls[1], hl + 1, hl + hd))
  IN IF ~HasBits(r, z.i + 17, 3 * hc) \/ hl > 286 \/ hd > 30 \/ Oversubscribed(cl) THEN Bad(z)
     ELSE IF ls[2] < 0 THEN Bad(z)
     ELSE IF Oversubscribed(lit) \/ Oversubscribed(dst) \/ ls[1][257] = 0 THEN Bad(z)
     ELSE [z EXCEPT !.lit = lit, !.dist = dst, !.i = ls[2], !.ph = "sym",
                    !.last = GetBits(r, z.i, 1)]
GzBlock(r, z) ==
  LET t == GetBits(r, z.i + 1, 2)
  IN IF ~HasBits(r, z.i, 3) THEN Bad(z)
     ELSE CASE t = 0 -> GzStored(r, z)
            [] t = 1 -> [z EXCEPT !.lit = FixedLit, !.dist = FixedDist, !.i = @ + 3,
                                  !.ph = "sym", !.last = GetBits(r, z.i, 1)]
            [] t = 2 -> GzDynamic(r, z)
            [] OTHER -> Bad(z)
GzSym(r, z) ==
  LET s == TLCEval(Sym(r, z.i, z.lit)) IN
  IF s[1] < 0 \/ s[1] > 285 THEN Bad(z)
  ELSE IF s[1] < 256 THEN [z EXCEPT !.out = Append(@, s[1]), !.i = s[2]]
  ELSE IF s[1] = 256 THEN [z EXCEPT !.i = s[2], !.ph = IF z.last = 1 THEN "trailer" ELSE "block"]
  ELSE LET k  == s[1] - 256
           n  == LenBase[k] + GetBits(r, s[2], LenExtra[k])
           i2 == s[2] + LenExtra[k]
           d  == TLCEval(Sym(r, i2, z.dist))
       IN IF ~HasBits(r, s[2], LenExtra[k]) \/ d[1] < 0 \/ d[1] > 29 THEN Bad(z)
          ELSE LET w == DistBase[d[1] + 1] + GetBits(r, d[2], DistExtra[d[1] + 1])
                   m == Len(z.out)
               IN IF ~HasBits(r, d[2], DistExtra[d[1] + 1]) \/ w > m - z.from THEN Bad(z)
                  ELSE [z EXCEPT !.i = d[2] + DistExtra[d[1] + 1],
                                 !.out = @ \o [j \in 1..n |-> @[m - w + 1 + ((j - 1) % w)]]]
GzTrailer(r, z) ==
  LET p == Align(z.i) \div 8
      q == SubSeq(z.out, z.from + 1, Len(z.out))
      n == Len(q)
  IN IF p + 8 > Len(r) THEN Bad(z)
     ELSE IF SubSeq(r, p + 1, p + 4) # CrcBytes(Crc(q))
             \/ SubSeq(r, p + 5, p + 8) # << n % 256, (n \div 256) % 256, n \div 65536, 0 >>
     THEN Bad(z)
     ELSE [z EXCEPT !.ph = "next", !.i = 8 * (p + 8)]
\* behind a member: the end, another member, zero bytes (padding), or garbage
GzNext(r, z) ==
  LET p  == z.i \div 8
      nz == {k \in p..(Len(r) - 1) : r[k + 1] # 0}
      q  == IF nz = {} THEN Len(r) ELSE CHOOSE k \in nz : \A j \in nz : k <= j
      gap == IF q > p /\ q < Len(r) THEN 1 ELSE z.open
  IN IF q = Len(r) THEN [z EXCEPT !.ph = "end", !.st = "ok"]
     ELSE IF ByteAt(r, q) = 31 /\ ByteAt(r, q + 1) = 139
     THEN [z EXCEPT !.ph = "header", !.i = 8 * q, !.open = gap]
     ELSE [z EXCEPT !.ph = "end", !.st = "ok", !.open = 1]

GzStep(r, z) == CASE z.ph = "header"  -> GzHeader(r, z)
                  [] z.ph = "block"   -> GzBlock(r, z)
                  [] z.ph = "sym"     -> GzSym(r, z)
                  [] z.ph = "trailer" -> GzTrailer(r, z)
                  [] OTHER            -> GzNext(r, z)
=============================================================================
