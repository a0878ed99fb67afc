---------------------------- MODULE Descriptors ----------------------------
(***************************************************************************)
(* What an operand of an instruction form can be.  a is always the lowest  *)
(* bit of the field the operand is written to.                             *)
(***************************************************************************)
EXTENDS Words

(* from names to the bits they stand for: the n-th name is the number n-1  *)
(* at bit a; an empty name is a hole                                       *)
NameMap(names, a) ==
  TLCEval([n \in TLCEval({names[i] : i \in 1..Len(names)} \ {""}) |->
     Shift(SmallBits((CHOOSE i \in 1..Len(names) :
                        names[i] = n /\ \A j \in 1..(i - 1) : names[j] # n) - 1), a)])

Comma        == [k |-> "comma"]
Gpr(a)       == [k |-> "gpr", a |-> a]
Mirror(a)    == [k |-> "mirror", a |-> a]        \* the register that is already at a
Pred(a)      == [k |-> "pred", a |-> a]
PredN(a)     == [k |-> "predn", a |-> a]         \* may be negated, at a + 3
IPred(a)     == [k |-> "ipred", a |-> a]         \* stored as 7 - index
Cbuf         == [k |-> "cbuf"]                   \* c[bank][offset]
Imm20        == [k |-> "imm20"]                  \* 19 bits, sign at 56
UExt         == [k |-> "uext"]                   \* 19 bits, the 20th at 56
UInt(b, a)   == [k |-> "uint", b |-> b, a |-> a]
SInt(b, a)   == [k |-> "sint", b |-> b, a |-> a]
F20          == [k |-> "f20"]
F32          == [k |-> "f32"]
D20          == [k |-> "d20"]
H9(a, n)     == [k |-> "h9", a |-> a, n |-> n]   \* sign at n
H16(a)       == [k |-> "h16", a |-> a]
Zero         == [k |-> "zero"]
Flag(s, a)   == [k |-> "flag", s |-> s, a |-> a]
Req(s, B)    == [k |-> "req", s |-> s, B |-> B]
Opt(s)       == [k |-> "opt", s |-> s]           \* a word that may be left out
Const(B)     == [k |-> "const", B |-> B]
Dot(d, a, names) ==                              \* one of names, else d, else required
  [k |-> "dot", names |-> names, f |-> NameMap(names, a),
   req |-> d = -1, def |-> IF d = -1 THEN {} ELSE Shift(SmallBits(d), a)]
Word(a, names) == [k |-> "dot", names |-> names, f |-> NameMap(names, a), req |-> TRUE, def |-> {}]
Neg(a)       == [k |-> "neg", a |-> a]
Tilde(a)     == [k |-> "tilde", a |-> a]
Abs(a, d)    == [k |-> "abs", a |-> a, d |-> d]
Po(a, b)     == [k |-> "po", a |-> a, b |-> b]
(* [register + offset]: size bits at addr, after dropping shr bits *)
Mem(imm, addr, size, shr) ==
  [k |-> "mem", imm |-> imm, a |-> addr, size |-> size, shr |-> shr]
LdcAddr      == [k |-> "ldcaddr", mem |-> Mem(TRUE, 20, 16, 0)]
AttrImm      == [k |-> "attrimm"]
AttrPatch    == [k |-> "attrpatch"]
AttrPhys     == [k |-> "attrphys"]
LabelRef     == [k |-> "label"]
XSigns       == [k |-> "xsigns"]
F2FRound     == [k |-> "f2fround", same |-> [n \in {".ROUND", ".FLOOR", ".CEIL", ".TRUNC", ".PASS"} |->
                   CASE n = ".ROUND" -> {42} [] n = ".FLOOR" -> {42, 39} [] n = ".CEIL" -> {42, 40}
                     [] n = ".TRUNC" -> {42, 40, 39} [] OTHER -> {40, 39}],
                 diff |-> NameMap(<<".RN", ".RM", ".RP", ".RZ">>, 39)]
IntFmt(U, S, a, sa) ==
  [k |-> "intfmt", U |-> U, S |-> S, u |-> NameMap(U, a), s |-> NameMap(S, a), sa |-> sa]
SrcFmt(a, sa) ==                                 \* the default is S32
  [k |-> "srcfmt", s |-> NameMap(<<".S8", "", ".S16", ".S32">>, a),
   u |-> NameMap(<<".U8", "", ".U16", ".U32">>, a), def |-> {a, a + 1}, sa |-> sa]
Bytes        == <<".B0", ".B1", ".B2", ".B3">>
SelI(ta, a)  == [k |-> "seli", ta |-> ta, bytes |-> NameMap(Bytes, a),
                 shorts |-> NameMap(<<".H0", ".INVALIDSIZE1", ".H1", ".INVALIDSIZE3">>, a)]
SelV(ta, a)  == [k |-> "selv", ta |-> ta, bytes |-> NameMap(Bytes, a),
                 shorts |-> NameMap(<<".H0", ".H1">>, a)]
LdgSize      == [k |-> "ldgsize", f |-> NameMap(<<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128", ".U">>, 48),
                 def |-> {50}]
AtomSize(a)  == [k |-> "atomsize", def |-> {},
                 f |-> NameMap(<<".U32", ".S32", ".U64", ".F32", ".F16x2", ".S64">>, a)]
TexTypes     == <<"1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE">>
TexsMode(a)  == [k |-> "texsmode"]
TexsType(a)  == [k |-> "texstype"]
TldsType(a)  == [k |-> "tldstype", a |-> a]
Swizzle      == [k |-> "swizzle", one |-> NameMap(<<"R", "G", "B", "A", "RG", "RA", "GA", "BA">>, 50),
                 two |-> NameMap(<<"RGB", "RGA", "RBA", "GBA", "RGBA">>, 50)]
TxqMode      == [k |-> "dot", req |-> TRUE, def |-> {},
                 names |-> <<"", "TEX_HEADER_DIMENSION", "TEX_HEADER_TEXTURE_TYPE", "", "", "TEX_HEADER_SAMPLER_POS">>,
                 f |-> NameMap(<<"", "TEX_HEADER_DIMENSION", "TEX_HEADER_TEXTURE_TYPE", "", "", "TEX_HEADER_SAMPLER_POS">>, 22)]

CCTests      == <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".NUM", ".NAN", ".LTU", ".EQU", ".LEU",
                  ".GTU", ".NEU", ".GEU", ".T", ".OFF", ".LO", ".SFF", ".LS", ".HI", ".SFT", ".HS", ".OFT",
                  ".CSM_TA", ".CSM_TR", ".CSM_MX", ".FCSM_TA", ".FCSM_TR", ".FCSM_MX", ".RLE", ".RGT">>
FloatTests   == <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".NUM", ".NAN", ".LTU", ".EQU", ".LEU",
                  ".GTU", ".NEU", ".GEU", ".T">>
BopNames     == <<".AND", ".OR", ".XOR", ".INVALIDBOP3">>
Flow         == [k |-> "flow", f |-> NameMap(CCTests, 0), def |-> {0, 1, 2, 3}]

F2IU == <<".INVALID0", ".U16", ".U32", ".U64">>
F2IS == <<".INVALID1", ".S16", ".S32", ".S64">>
I2FU == <<".U8", ".U16", ".U32", ".U64">>
I2FS == <<".S8", ".S16", ".S32", ".S64">>
I2IU == <<".U8", ".U16", ".U32">>
I2IS == <<".S8", ".S16", ".S32">>

(* an instruction form: fixed bits in hexadecimal *)
F(mnemonic, hex, predicated, ops) ==
  [m |-> mnemonic, base |-> FromHex(hex), guard |-> predicated, ops |-> ops]
============================================================================
