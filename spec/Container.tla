----------------------------- MODULE Container ------------------------------
(***************************************************************************)
(* The DKSH container: a control section of 256 bytes, then the code,      *)
(* padded with zeros to a multiple of 256 bytes.                           *)
(***************************************************************************)
EXTENDS Layout

AlignUp(x, a) == ((x + a - 1) \div a) * a

HeaderWords == 32
ContainerCode(codeWords) == AlignUp(codeWords, 32)

(* the control section of a compute shader as little-endian 32-bit fields; *)
(* the rest is zero.  entry: the address of the label main                 *)
MagicHi == 18515                        \* 0x48534B44, "DKSH", as two halves
MagicLo == 19268
ComputeFields(o, entry, codeWords) ==
  << 24, 256, 8 * ContainerCode(codeWords), 24, 1,                   \* file header, after the magic
     5, entry - 8, o.gprs, 0, 0, AlignUp(o.local, 16) * 32 + 2048,   \* program header
     o.wg[1], o.wg[2], o.wg[3], AlignUp(o.shared, 256), AlignUp(o.local, 16), 0, 2048, 0, 0 >>

Field32(o, entry, codeWords, k) ==      \* the k-th field (from 0) of the section, as bits
  IF k = 0 THEN Shift(BitsOf(MagicHi), 16) \cup BitsOf(MagicLo)
  ELSE LET f == ComputeFields(o, entry, codeWords) IN IF k <= Len(f) THEN BitsOf(f[k]) ELSE {}

HeaderWord(o, entry, codeWords, j) ==   \* the j-th word (from 0)
  Field32(o, entry, codeWords, 2*j) \cup Shift(Field32(o, entry, codeWords, 2*j + 1), 32)
=============================================================================
