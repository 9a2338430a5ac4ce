-------------------------------- MODULE Aes --------------------------------
(* AES-256 (FIPS-197): key expansion, cipher and inverse cipher on byte      *)
(* tuples.  Everything is written as explicit tuples, which TLC evaluates    *)
(* eagerly.  MC_Aes checks it against the published vectors and the algebra. *)
EXTENDS Integers, Sequences, AesTab, Bitwise

X4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Word(k, j) == <<k[j], k[j+1], k[j+2], k[j+3]>>

\* 32 bytes of round key from the 32 before them
Next32(k, rc) ==
  LET w0 == X4(Word(k, 1), <<S1[k[30]+1] ^^ rc, S1[k[31]+1], S1[k[32]+1], S1[k[29]+1]>>)
      w1 == X4(Word(k, 5), w0)
      w2 == X4(Word(k, 9), w1)
      w3 == X4(Word(k, 13), w2)
      w4 == X4(Word(k, 17), <<S1[w3[1]+1], S1[w3[2]+1], S1[w3[3]+1], S1[w3[4]+1]>>)
      w5 == X4(Word(k, 21), w4)
      w6 == X4(Word(k, 25), w5)
      w7 == X4(Word(k, 29), w6)
  IN w0 \o w1 \o w2 \o w3 \o w4 \o w5 \o w6 \o w7

\* 15 round keys, 240 bytes
Expand(k) ==
  LET k1 == Next32(k, 1)   k2 == Next32(k1, 2)  k3 == Next32(k2, 4)  k4 == Next32(k3, 8)
      k5 == Next32(k4, 16) k6 == Next32(k5, 32) k7 == Next32(k6, 64)
  IN k \o k1 \o k2 \o k3 \o k4 \o k5 \o k6 \o SubSeq(k7, 1, 16)

\* one column: the bytes a, b, c, d (already moved by ShiftRows), round key bytes from o
MixC(a, b, c, d, w, o) == <<(((S2[a+1] ^^ S3[b+1]) ^^ S1[c+1]) ^^ S1[d+1]) ^^ w[o],
                            (((S1[a+1] ^^ S2[b+1]) ^^ S3[c+1]) ^^ S1[d+1]) ^^ w[o+1],
                            (((S1[a+1] ^^ S1[b+1]) ^^ S2[c+1]) ^^ S3[d+1]) ^^ w[o+2],
                            (((S3[a+1] ^^ S1[b+1]) ^^ S1[c+1]) ^^ S2[d+1]) ^^ w[o+3]>>
LastC(a, b, c, d, w, o) == <<S1[a+1] ^^ w[o], S1[b+1] ^^ w[o+1], S1[c+1] ^^ w[o+2], S1[d+1] ^^ w[o+3]>>

EncRound(s, w, o) == MixC(s[1], s[6], s[11], s[16], w, o) \o MixC(s[5], s[10], s[15], s[4], w, o+4)
                  \o MixC(s[9], s[14], s[3], s[8], w, o+8) \o MixC(s[13], s[2], s[7], s[12], w, o+12)
EncLast(s, w, o) == LastC(s[1], s[6], s[11], s[16], w, o) \o LastC(s[5], s[10], s[15], s[4], w, o+4)
                  \o LastC(s[9], s[14], s[3], s[8], w, o+8) \o LastC(s[13], s[2], s[7], s[12], w, o+12)
AddKey(s, w, o) == X4(Word(s, 1), Word(w, o)) \o X4(Word(s, 5), Word(w, o+4)) \o X4(Word(s, 9), Word(w, o+8)) \o X4(Word(s, 13), Word(w, o+12))

RECURSIVE EncRounds(_, _, _)
EncRounds(s, w, r) == IF r = 14 THEN EncLast(s, w, 225) ELSE EncRounds(EncRound(s, w, 16*r + 1), w, r + 1)
EncBlock(w, s) == EncRounds(AddKey(s, w, 1), w, 1)

\* inverse: a, b, c, d are moved by InvShiftRows; the round key is added before the columns are mixed
InvC(a0, b0, c0, d0, w, o) ==
  LET a == (IS[a0+1] ^^ w[o]) + 1    b == (IS[b0+1] ^^ w[o+1]) + 1
      c == (IS[c0+1] ^^ w[o+2]) + 1  d == (IS[d0+1] ^^ w[o+3]) + 1
  IN <<((M14[a] ^^ M11[b]) ^^ M13[c]) ^^ M9[d], ((M9[a] ^^ M14[b]) ^^ M11[c]) ^^ M13[d],
       ((M13[a] ^^ M9[b]) ^^ M14[c]) ^^ M11[d], ((M11[a] ^^ M13[b]) ^^ M9[c]) ^^ M14[d]>>
InvL(a, b, c, d, w, o) == <<IS[a+1] ^^ w[o], IS[b+1] ^^ w[o+1], IS[c+1] ^^ w[o+2], IS[d+1] ^^ w[o+3]>>
DecRound(s, w, o) == InvC(s[1], s[14], s[11], s[8], w, o) \o InvC(s[5], s[2], s[15], s[12], w, o+4)
                  \o InvC(s[9], s[6], s[3], s[16], w, o+8) \o InvC(s[13], s[10], s[7], s[4], w, o+12)
DecLast(s, w, o) == InvL(s[1], s[14], s[11], s[8], w, o) \o InvL(s[5], s[2], s[15], s[12], w, o+4)
                  \o InvL(s[9], s[6], s[3], s[16], w, o+8) \o InvL(s[13], s[10], s[7], s[4], w, o+12)
RECURSIVE DecRounds(_, _, _)
DecRounds(s, w, r) == IF r = 0 THEN DecLast(s, w, 1) ELSE DecRounds(DecRound(s, w, 16*r + 1), w, r - 1)
DecBlock(w, s) == DecRounds(AddKey(s, w, 225), w, 13)
=============================================================================
