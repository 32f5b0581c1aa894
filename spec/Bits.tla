-------------------------------- MODULE Bits --------------------------------
(* Bit fields of small naturals, and byte strings as Seq(0..255).           *)
EXTENDS Integers, Sequences

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
           16384, 32768, 65536, 131072, 262144, 524288, 1048576 >>

\* `width' bits of v starting at bit `lo'
Field(v, lo, width) == (v \div Pow2[lo + 1]) % Pow2[width + 1]
Bit(v, i)           == Field(v, i, 1)

\* little-endian bytes of a 32-bit number + 4, as five bytes (may carry out)
RECURSIVE AddCarry(_, _, _)
AddCarry(bs, i, c) ==
  IF i > Len(bs) THEN << c >>
  ELSE LET x == bs[i] + c IN << x % 256 >> \o AddCarry(bs, i + 1, x \div 256)

RECURSIVE SumSeq(_, _)
SumSeq(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumSeq(q, i + 1)
=============================================================================
