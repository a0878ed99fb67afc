------------------------------ MODULE IsaTable ------------------------------
(***************************************************************************)
(* The instruction forms of the assembler: mnemonic, fixed bits, whether   *)
(* it can be predicated, and its operands in the order they are written.   *)
(* When a mnemonic has several forms the first that fits is meant.         *)
(***************************************************************************)
EXTENDS Descriptors

S2RNames == <<
  "SR_LANEID", "SR_CLOCK", "SR_VIRTCFG", "SR_VIRTID", "SR_PM0", "SR_PM1", "SR_PM2",
  "SR_PM3", "SR_PM4", "SR_PM5", "SR_PM6", "SR_PM7", "SR12", "SR13", "SR14",
  "SR_ORDERING_TICKET", "SR_PRIM_TYPE", "SR_INVOCATION_ID", "SR_Y_DIRECTION",
  "SR_THREAD_KILL", "SM_SHADER_TYPE", "SR_DIRECTCBEWRITEADDRESSLOW",
  "SR_DIRECTCBEWRITEADDRESSHIGH", "SR_DIRECTCBEWRITEENABLED", "SR_MACHINE_ID_0",
  "SR_MACHINE_ID_1", "SR_MACHINE_ID_2", "SR_MACHINE_ID_3", "SR_AFFINITY",
  "SR_INVOCATION_INFO", "SR_WSCALEFACTOR_XY", "SR_WSCALEFACTOR_Z", "", "", "", "",
  "SR_CTA_PARAM", "", "", "", "SR_NTID", "SR_CirQueueIncrMinusOne", "SR_NLATC", "SR43",
  "SR_SM_SPA_VERSION", "SR_MULTIPASSSHADERINFO", "SR_LWINHI", "SR_SWINHI", "SR_SWINLO",
  "SR_SWINSZ", "SR_SMEMSZ", "SR_SMEMBANKS", "SR_LWINLO", "SR_LWINSZ", "SR_LMEMLOSZ",
  "SR_LMEMHIOFF", "SR_EQMASK", "SR_LTMASK", "SR_LEMASK", "SR_GTMASK", "SR_GEMASK",
  "SR_REGALLOC", "SR_BARRIERALLOC", "SR63", "SR_GLOBALERRORSTATUS", "SR65",
  "SR_WARPERRORSTATUS", "SR_WARPERRORSTATUSCLEAR", "SR68", "SR69", "SR70", "SR71",
  "SR_PM_HI0", "SR_PM_HI1", "SR_PM_HI2", "SR_PM_HI3", "SR_PM_HI4", "SR_PM_HI5",
  "SR_PM_HI6", "SR_PM_HI7", "SR_CLOCKLO", "SR_CLOCKHI", "SR_GLOBALTIMERLO",
  "SR_GLOBALTIMERHI", "SR84", "SR85", "SR86", "SR87", "SR88", "SR89", "SR90", "SR91",
  "SR92", "SR93", "SR94", "SR95", "SR_HWTASKID", "SR_CIRCULARQUEUEENTRYINDEX",
  "SR_CIRCULARQUEUEENTRYADDRESSLOW", "SR_CIRCULARQUEUEENTRYADDRESSHIGH", "SR100", "SR101",
  "SR102", "SR103", "SR104", "SR105", "SR106", "SR107", "SR108", "SR109", "SR110",
  "SR111", "SR112", "SR113", "SR114", "SR115", "SR116", "SR117", "SR118", "SR119",
  "SR120", "SR121", "SR122", "SR123", "SR124", "SR125", "SR126", "SR127", "SR128",
  "SR129", "SR130", "SR131", "SR132", "SR133", "SR134", "SR135", "SR136", "SR137",
  "SR138", "SR139", "SR140", "SR141", "SR142", "SR143", "SR144", "SR145", "SR146",
  "SR147", "SR148", "SR149", "SR150", "SR151", "SR152", "SR153", "SR154", "SR155",
  "SR156", "SR157", "SR158", "SR159", "SR160", "SR161", "SR162", "SR163", "SR164",
  "SR165", "SR166", "SR167", "SR168", "SR169", "SR170", "SR171", "SR172", "SR173",
  "SR174", "SR175", "SR176", "SR177", "SR178", "SR179", "SR180", "SR181", "SR182",
  "SR183", "SR184", "SR185", "SR186", "SR187", "SR188", "SR189", "SR190", "SR191",
  "SR192", "SR193", "SR194", "SR195", "SR196", "SR197", "SR198", "SR199", "SR200",
  "SR201", "SR202", "SR203", "SR204", "SR205", "SR206", "SR207", "SR208", "SR209",
  "SR210", "SR211", "SR212", "SR213", "SR214", "SR215", "SR216", "SR217", "SR218",
  "SR219", "SR220", "SR221", "SR222", "SR223", "SR224", "SR225", "SR226", "SR227",
  "SR228", "SR229", "SR230", "SR231", "SR232", "SR233", "SR234", "SR235", "SR236",
  "SR237", "SR238", "SR239", "SR240", "SR241", "SR242", "SR243", "SR244", "SR245",
  "SR246", "SR247", "SR248", "SR249", "SR250", "SR251", "SR252", "SR253", "SR254", "SR255">>

S2R == [k |-> "s2r", names |-> S2RNames, f |-> NameMap(S2RNames, 20)]

Table == <<
  F("AL2P", "EFA0000000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Pred(44), Comma, Gpr(0), Comma, Gpr(8), Comma, SInt(11, 20)>>),
  F("AL2P", "EFA0700000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, Gpr(8), Comma, SInt(11, 20)>>),
  F("AL2P", "EFA000000000FF00", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Pred(44), Comma, Gpr(0), Comma, SInt(11, 20)>>),
  F("AL2P", "EFA070000000FF00", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, SInt(11, 20)>>),
  F("AL2P", "EFA0000000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Pred(44), Comma, Gpr(0), Comma, Gpr(8)>>),
  F("AL2P", "EFA0700000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, Gpr(8)>>),
  F("AL2P", "EFA000000000FF00", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Pred(44), Comma, Gpr(0)>>),
  F("AL2P", "EFA070000000FF00", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrImm, Const(39..46)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrImm, Comma, Gpr(39)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Req(".P", {31}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrPatch, Const(39..46)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Req(".P", {31}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrPatch, Comma, Gpr(39)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Req(".PHYS", {}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrPhys, Const(39..46)>>),
  F("ALD", "EFD8000000000000", TRUE, <<Flag(".O", 32), Req(".PHYS", {}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), Gpr(0), Comma, AttrPhys, Comma, Gpr(39)>>),
  F("AST", "EFF0000000000000", TRUE, <<Dot(0, 47, <<".32", ".64", ".96", ".128">>), AttrImm, Comma, Gpr(0), Const(39..46)>>),
  F("AST", "EFF0000000000000", TRUE, <<Dot(0, 47, <<".32", ".64", ".96", ".128">>), AttrImm, Comma, Gpr(0), Comma, Gpr(39)>>),
  F("AST", "EFF0000000000000", TRUE, <<Req(".P", {31}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), AttrPatch, Comma, Gpr(0), Const(39..46)>>),
  F("AST", "EFF0000000000000", TRUE, <<Req(".PHYS", {}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), AttrPhys, Comma, Gpr(0), Const(39..46)>>),
  F("AST", "EFF0000000000000", TRUE, <<Req(".PHYS", {}), Dot(0, 47, <<".32", ".64", ".96", ".128">>), AttrPhys, Comma, Gpr(0), Comma, Gpr(39)>>),
  F("ATOM", "ED00000000000000", TRUE, <<Flag(".E", 48), Dot(-1, 52, <<".ADD", ".MIN", ".MAX", ".INC", ".DEC", ".AND", ".OR", ".XOR", ".EXCH", ".SAFEADD">>), AtomSize(49), Gpr(0), Comma, Mem(TRUE, 28, 20, 0), Comma, Gpr(20)>>),
  F("ATOMS", "EC00000000000000", TRUE, <<Dot(-1, 52, <<".ADD", ".MIN", ".MAX", ".INC", ".DEC", ".AND", ".OR", ".XOR", ".EXCH">>), Dot(-1, 28, <<".U32", ".S32", ".U64", ".S64">>), Gpr(0), Comma, Mem(TRUE, 30, 22, 2), Comma, Gpr(20)>>),
  F("B2R", "F0B8000000000000", TRUE, <<Gpr(0), Comma, UInt(8, 8)>>),
  F("B2R", "F0B8000000000000", TRUE, <<Req(".WARP", {33, 34, 35} \cup 8..15), Gpr(0)>>),
  F("B2R", "F0B8000000000000", TRUE, <<Req(".RESULT", {32, 34, 35} \cup 8..15), Gpr(0), Comma, PredN(45)>>),
  F("BFE", "5C00000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20)>>),
  F("BFE", "4C00000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf>>),
  F("BFE", "3800000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20>>),
  F("BFI", "5BF0000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("BFI", "53F0000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(39), Comma, Cbuf>>),
  F("BFI", "4BF0000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf, Comma, Gpr(39)>>),
  F("BFI", "36F0000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20, Comma, Gpr(39)>>),
  F("BPT", "E3A0000000000000", TRUE, <<Dot(-1, 6, <<".DRAIN_ILLEGAL", ".CAL", ".PAUSE", ".TRAP", ".INT", ".DRAIN">>), UInt(20, 20)>>),
  F("BPT", "E3A0000000000000", TRUE, <<Dot(-1, 6, <<".DRAIN_ILLEGAL", ".CAL", ".PAUSE", ".TRAP", ".INT", ".DRAIN">>)>>),
  F("CSET", "5098000000000000", TRUE, <<Flag(".BF", 44), Dot(15, 8, CCTests), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Req("CC", {}), Comma, PredN(39)>>),
  F("CSETP", "50A0000000000000", TRUE, <<Dot(15, 8, CCTests), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Req("CC", {}), Comma, PredN(39)>>),
  F("DADD", "5C70000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Gpr(20))>>),
  F("DADD", "4C70000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Cbuf)>>),
  F("DADD", "3870000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, D20, Flag(".NEG", 45), Flag(".ABS", 49)>>),
  F("DFMA", "5B70000000000000", TRUE, <<Dot(0, 50, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(20), Comma, Neg(49), Gpr(39)>>),
  F("DFMA", "5370000000000000", TRUE, <<Dot(0, 50, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(39), Comma, Neg(49), Cbuf>>),
  F("DFMA", "4B70000000000000", TRUE, <<Dot(0, 50, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Cbuf, Comma, Neg(49), Gpr(39)>>),
  F("DFMA", "3670000000000000", TRUE, <<Dot(0, 50, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, D20, Flag(".NEG", 48), Comma, Neg(49), Gpr(39)>>),
  F("DMNMX", "5C50000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Gpr(20)), Comma, PredN(39)>>),
  F("DMNMX", "4C50000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Cbuf), Comma, PredN(39)>>),
  F("DMNMX", "3850000000000000", TRUE, <<Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, D20, Flag(".NEG", 45), Flag(".ABS", 49), Comma, PredN(39)>>),
  F("DMUL", "5C80000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(20)>>),
  F("DMUL", "4C80000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Cbuf>>),
  F("DMUL", "3880000000000000", TRUE, <<Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, D20, Flag(".NEG", 48)>>),
  F("DSET", "5900000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, Neg(53), Abs(44, Gpr(20)), Comma, PredN(39)>>),
  F("DSET", "4900000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, Neg(53), Abs(44, Cbuf), Comma, PredN(39)>>),
  F("DSET", "3200000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, D20, Flag(".NEG", 53), Flag(".ABS", 44), Comma, PredN(39)>>),
  F("DSETP", "5B80000000000000", TRUE, <<Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, Neg(6), Abs(44, Gpr(20)), Comma, PredN(39)>>),
  F("DSETP", "4B80000000000000", TRUE, <<Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, Neg(6), Abs(44, Cbuf), Comma, PredN(39)>>),
  F("DSETP", "3680000000000000", TRUE, <<Dot(-1, 48, FloatTests), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, D20, Flag(".NEG", 6), Flag(".ABS", 44), Comma, PredN(39)>>),
  F("NOP", "50B0000000000F00", TRUE, <<Flag(".TRIG", 13)>>),
  F("NOP", "50B0000000000000", TRUE, <<Flag(".TRIG", 13), Req("CC", {}), Dot(15, 8, CCTests)>>),
  F("NOP", "50B0000000000F00", TRUE, <<Flag(".TRIG", 13), UInt(16, 20)>>),
  F("NOP", "50B0000000000000", TRUE, <<Flag(".TRIG", 13), Req("CC", {}), Dot(15, 8, CCTests), Comma, UInt(16, 20)>>),
  F("MOV", "5C98078000000000", TRUE, <<Gpr(0), Comma, Gpr(20)>>),
  F("MOV", "5C98000000000000", TRUE, <<Gpr(0), Comma, Gpr(20), Comma, UInt(4, 39)>>),
  F("MOV", "4C98078000000000", TRUE, <<Gpr(0), Comma, Cbuf>>),
  F("MOV", "4C98000000000000", TRUE, <<Gpr(0), Comma, Cbuf, Comma, UInt(4, 39)>>),
  F("MOV", "3898078000000000", TRUE, <<Gpr(0), Comma, Imm20>>),
  F("MOV", "3898000000000000", TRUE, <<Gpr(0), Comma, Imm20, Comma, UInt(4, 39)>>),
  F("MOV32I", "010000000000F000", TRUE, <<Gpr(0), Comma, UInt(32, 20)>>),
  F("MOV32I", "0100000000000000", TRUE, <<Gpr(0), Comma, UInt(32, 20), Comma, UInt(4, 12)>>),
  F("MUFU", "5080000000000000", TRUE, <<Dot(-1, 20, <<".COS", ".SIN", ".EX2", ".LG2", ".RCP", ".RSQ", ".RCP64H", ".RSQ64H", ".SQRT">>), Flag(".SAT", 50), Gpr(0), Comma, Neg(48), Abs(46, Gpr(8))>>),
  F("S2R", "F0C8000000000000", TRUE, <<Gpr(0), Comma, S2R>>),
  F("FADD", "5C58000000000000", TRUE, <<Flag(".FTZ", 44), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Gpr(20))>>),
  F("FADD", "4C58000000000000", TRUE, <<Flag(".FTZ", 44), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Cbuf)>>),
  F("FADD", "3858000000000000", TRUE, <<Flag(".FTZ", 44), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, F20, Flag(".NEG", 45), Flag(".ABS", 49)>>),
  F("FADD32I", "0800000000000000", TRUE, <<Flag(".FTZ", 55), Gpr(0), Flag(".CC", 52), Comma, Neg(56), Abs(54, Gpr(8)), Comma, F32, Flag(".NEG", 53), Flag(".ABS", 57)>>),
  F("FFMA", "5980000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 51, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(20), Comma, Neg(49), Gpr(39)>>),
  F("FFMA", "5180000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 51, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(39), Comma, Neg(49), Cbuf>>),
  F("FFMA", "4980000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 51, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Cbuf, Comma, Neg(49), Gpr(39)>>),
  F("FFMA", "3280000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 51, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, F20, Flag(".NEG", 48), Comma, Neg(49), Gpr(39)>>),
  F("FFMA32I", "0C00000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Flag(".SAT", 55), Gpr(0), Flag(".CC", 52), Comma, Neg(56), Gpr(8), Comma, F32, Comma, Neg(57), Mirror(0)>>),
  F("FMNMX", "5C60000000000000", TRUE, <<Flag(".FTZ", 44), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Gpr(20)), Comma, PredN(39)>>),
  F("FMNMX", "4C60000000000000", TRUE, <<Flag(".FTZ", 44), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, Neg(45), Abs(49, Cbuf), Comma, PredN(39)>>),
  F("FMNMX", "3860000000000000", TRUE, <<Flag(".FTZ", 44), Gpr(0), Flag(".CC", 47), Comma, Neg(48), Abs(46, Gpr(8)), Comma, F20, Flag(".NEG", 45), Flag(".ABS", 49), Comma, PredN(39)>>),
  F("FMUL", "5C68000000000000", TRUE, <<Dot(0, 44, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 41, <<"", ".D2", ".D4", ".D8", ".M8", ".M4", ".M2", ".INVALIDSCALE37">>), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Gpr(20)>>),
  F("FMUL", "4C68000000000000", TRUE, <<Dot(0, 44, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 41, <<"", ".D2", ".D4", ".D8", ".M8", ".M4", ".M2", ".INVALIDSCALE37">>), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Neg(48), Cbuf>>),
  F("FMUL", "3868000000000000", TRUE, <<Dot(0, 44, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Dot(0, 41, <<"", ".D2", ".D4", ".D8", ".M8", ".M4", ".M2", ".INVALIDSCALE37">>), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, F20, Flag(".NEG", 48)>>),
  F("FMUL32I", "1E00000000000000", TRUE, <<Dot(0, 53, <<"", ".FTZ", ".FMZ", ".INVALIDFMZ3">>), Flag(".SAT", 55), Gpr(0), Flag(".CC", 52), Comma, Gpr(8), Comma, F32>>),
  F("FSET", "5800000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Flag(".FTZ", 55), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, Neg(53), Abs(44, Gpr(20)), Comma, PredN(39)>>),
  F("FSET", "4800000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Flag(".FTZ", 55), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, Neg(53), Abs(44, Cbuf), Comma, PredN(39)>>),
  F("FSET", "3000000000000000", TRUE, <<Flag(".BF", 52), Dot(-1, 48, FloatTests), Flag(".FTZ", 55), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Neg(43), Abs(54, Gpr(8)), Comma, F20, Flag(".NEG", 53), Flag(".ABS", 44), Comma, PredN(39)>>),
  F("FSETP", "5BB0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, Neg(6), Abs(44, Gpr(20)), Comma, PredN(39)>>),
  F("FSETP", "4BB0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, Neg(6), Abs(44, Cbuf), Comma, PredN(39)>>),
  F("FSETP", "36B0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(7, Gpr(8)), Comma, F20, Flag(".NEG", 6), Flag(".ABS", 44), Comma, PredN(39)>>),
  F("XMAD", "5B00000000000000", TRUE, <<XSigns, Flag(".PSL", 36), Dot(0, 50, <<"", ".CLO", ".CHI", ".CSFU", ".CBCC">>), Flag(".MRG", 37), Flag(".X", 38), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Dot(0, 53, <<".H0", ".H1">>), Comma, Gpr(20), Dot(0, 35, <<".H0", ".H1">>), Comma, Gpr(39)>>),
  F("XMAD", "5100000000000000", TRUE, <<XSigns, Dot(0, 50, <<"", ".CLO", ".CHI", ".CSFU">>), Flag(".X", 54), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Dot(0, 53, <<".H0", ".H1">>), Comma, Gpr(39), Dot(0, 52, <<".H0", ".H1">>), Comma, Cbuf>>),
  F("XMAD", "4E00000000000000", TRUE, <<XSigns, Flag(".PSL", 55), Dot(0, 50, <<"", ".CLO", ".CHI", ".CSFU">>), Flag(".MRG", 56), Flag(".X", 54), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Dot(0, 53, <<".H0", ".H1">>), Comma, Cbuf, Dot(0, 52, <<".H0", ".H1">>), Comma, Gpr(39)>>),
  F("XMAD", "3600000000000000", TRUE, <<XSigns, Flag(".PSL", 36), Dot(0, 50, <<"", ".CLO", ".CHI", ".CSFU", ".CBCC">>), Flag(".MRG", 37), Flag(".X", 38), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Dot(0, 53, <<".H0", ".H1">>), Comma, UInt(16, 20), Comma, Gpr(39)>>),
  F("SHR", "5C28000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 39, <<".C", ".W">>), Dot(0, 43, <<"", ".INVALIDSHRXMODE1", ".X", ".XHI">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20)>>),
  F("SHR", "4C28000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 39, <<".C", ".W">>), Dot(0, 43, <<"", ".INVALIDSHRXMODE1", ".X", ".XHI">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf>>),
  F("SHR", "3828000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 39, <<".C", ".W">>), Dot(0, 43, <<"", ".INVALIDSHRXMODE1", ".X", ".XHI">>), Flag(".BREV", 40), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20>>),
  F("SHF", "5CF8000000000000", TRUE, <<Req(".R", {}), Flag(".W", 50), Dot(0, 37, <<".32", ".INVALIDMAXSHIFT3", ".U64", ".S64">>), Dot(0, 48, <<"", ".HI", ".X", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("SHF", "5BF8000000000000", TRUE, <<Req(".L", {}), Flag(".W", 50), Dot(0, 37, <<".32", ".INVALIDMAXSHIFT3", ".U64", ".S64">>), Dot(0, 48, <<"", ".HI", ".X", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("SHF", "38F8000000000000", TRUE, <<Req(".R", {}), Flag(".W", 50), Dot(0, 37, <<".32", ".INVALIDMAXSHIFT3", ".U64", ".S64">>), Dot(0, 48, <<"", ".HI", ".X", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, UInt(6, 20), Comma, Gpr(39)>>),
  F("SHF", "36F8000000000000", TRUE, <<Req(".L", {}), Flag(".W", 50), Dot(0, 37, <<".32", ".INVALIDMAXSHIFT3", ".U64", ".S64">>), Dot(0, 48, <<"", ".HI", ".X", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, UInt(6, 20), Comma, Gpr(39)>>),
  F("F2F", "5CA8000000000000", TRUE, <<Flag(".FTZ", 44), Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), Dot(2, 10, <<"", ".F16", ".F32", ".F64">>), F2FRound, Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Gpr(20)), Dot(0, 41, <<".H0", ".H1">>)>>),
  F("F2F", "4CA8000000000000", TRUE, <<Flag(".FTZ", 44), Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), Dot(2, 10, <<"", ".F16", ".F32", ".F64">>), F2FRound, Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Cbuf), Dot(0, 41, <<".H0", ".H1">>)>>),
  F("F2F", "38A8000000000000", TRUE, <<Flag(".FTZ", 44), Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), Dot(2, 10, <<"", ".F16", ".F32", ".F64">>), F2FRound, Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, F20, Flag(".NEG", 45), Flag(".ABS", 49), Dot(0, 41, <<".H0", ".H1">>)>>),
  F("F2I", "5CB0000000000000", TRUE, <<Flag(".FTZ", 44), IntFmt(F2IU, F2IS, 8, 12), Dot(2, 10, <<"", ".F16", ".F32", ".F64">>), Dot(0, 39, <<"", ".FLOOR", ".CEIL", ".TRUNC">>), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Gpr(20)), Dot(0, 41, <<".H0", ".H1">>)>>),
  F("F2I", "4CB0000000000000", TRUE, <<Flag(".FTZ", 44), IntFmt(F2IU, F2IS, 8, 12), Dot(2, 10, <<"", ".F16", ".F32", ".F64">>), Dot(0, 39, <<"", ".FLOOR", ".CEIL", ".TRUNC">>), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Cbuf), Dot(0, 41, <<".H0", ".H1">>)>>),
  F("I2F", "5CB8000000000000", TRUE, <<Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), IntFmt(I2FU, I2FS, 10, 13), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Gpr(20)), SelI(10, 41)>>),
  F("I2F", "4CB8000000000000", TRUE, <<Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), IntFmt(I2FU, I2FS, 10, 13), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Cbuf), SelI(10, 41)>>),
  F("I2F", "38B8000000000000", TRUE, <<Dot(2, 8, <<"", ".F16", ".F32", ".F64">>), IntFmt(I2FU, I2FS, 10, 13), Dot(0, 39, <<".RN", ".RM", ".RP", ".RZ">>), Gpr(0), Flag(".CC", 47), Comma, Imm20, Flag(".NEG", 45), Flag(".ABS", 49), SelI(10, 41)>>),
  F("I2I", "5CE0000000000000", TRUE, <<IntFmt(I2IU, I2IS, 8, 12), IntFmt(I2IU, I2IS, 10, 13), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Gpr(20)), SelI(10, 41)>>),
  F("I2I", "4CE0000000000000", TRUE, <<IntFmt(I2IU, I2IS, 8, 12), IntFmt(I2IU, I2IS, 10, 13), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Abs(49, Cbuf), SelI(10, 41)>>),
  F("I2I", "38E0000000000000", TRUE, <<IntFmt(I2IU, I2IS, 8, 12), IntFmt(I2IU, I2IS, 10, 13), Flag(".SAT", 50), Gpr(0), Flag(".CC", 47), Comma, Imm20, Flag(".NEG", 45), Flag(".ABS", 49)>>),
  F("HADD2", "5D10000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Flag(".FTZ", 39), Flag(".SAT", 32), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(31), Abs(30, Gpr(20)), Dot(0, 28, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>)>>),
  F("HADD2", "7A80000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Flag(".FTZ", 39), Flag(".SAT", 52), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(56), Abs(54, Cbuf)>>),
  F("HADD2", "7A00000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Flag(".FTZ", 39), Flag(".SAT", 52), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H9(30, 56), Comma, H9(20, 29)>>),
  F("HADD2_32I", "2C00000000000000", TRUE, <<Flag(".FTZ", 55), Flag(".SAT", 52), Gpr(0), Comma, Neg(56), Gpr(8), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H16(36), Comma, H16(20)>>),
  F("HFMA2", "7080000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 57, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Gpr(8), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(56), Cbuf, Comma, Neg(51), Gpr(39), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>)>>),
  F("HFMA2", "7000000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 57, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Gpr(8), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H9(30, 56), Comma, H9(20, 29), Comma, Neg(51), Gpr(39), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>)>>),
  F("HFMA2", "6080000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 57, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Gpr(8), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(56), Gpr(39), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(51), Cbuf>>),
  F("HFMA2", "5D00000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 37, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 32), Gpr(0), Comma, Gpr(8), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(31), Gpr(20), Dot(0, 28, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(30), Gpr(39), Dot(0, 35, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>)>>),
  F("HFMA2_32I", "2800000000000000", TRUE, <<Dot(0, 55, <<"", ".FTZ", ".FMZ">>), Gpr(0), Comma, Gpr(8), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H16(36), Comma, H16(20), Comma, Neg(52), Mirror(0)>>),
  F("HMUL2", "5D08000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 39, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 32), Gpr(0), Comma, Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(31), Abs(30, Gpr(20)), Dot(0, 28, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>)>>),
  F("HMUL2", "7880000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 39, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(43), Abs(54, Cbuf)>>),
  F("HMUL2", "7800000000000000", TRUE, <<Dot(0, 49, <<"", ".F32", ".MRG_H0", ".MRG_H1">>), Dot(0, 39, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H9(30, 56), Comma, H9(20, 29)>>),
  F("HMUL2_32I", "2A00000000000000", TRUE, <<Dot(0, 55, <<"", ".FTZ", ".FMZ">>), Flag(".SAT", 52), Gpr(0), Comma, Gpr(8), Dot(0, 53, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H16(36), Comma, H16(20)>>),
  F("HSET2", "5D18000000000000", TRUE, <<Flag(".BF", 49), Dot(-1, 35, FloatTests), Flag(".FTZ", 50), Dot(-1, 45, BopNames), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(31), Abs(30, Gpr(20)), Dot(0, 28, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, PredN(39)>>),
  F("HSET2", "7C80000000000000", TRUE, <<Flag(".BF", 53), Dot(-1, 49, FloatTests), Flag(".FTZ", 54), Dot(-1, 45, BopNames), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(56), Cbuf, Comma, PredN(39)>>),
  F("HSET2", "7C00000000000000", TRUE, <<Flag(".BF", 53), Dot(-1, 49, FloatTests), Flag(".FTZ", 54), Dot(-1, 45, BopNames), Gpr(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H9(30, 56), Comma, H9(20, 29), Comma, PredN(39)>>),
  F("HSETP2", "5D20000000000000", TRUE, <<Dot(-1, 35, FloatTests), Flag(".H_AND", 49), Flag(".FTZ", 6), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(31), Abs(30, Gpr(20)), Dot(0, 28, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, PredN(39)>>),
  F("HSETP2", "7E80000000000000", TRUE, <<Dot(-1, 49, FloatTests), Flag(".H_AND", 53), Flag(".FTZ", 6), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, Neg(56), Abs(54, Cbuf), Comma, PredN(39)>>),
  F("HSETP2", "7E00000000000000", TRUE, <<Dot(-1, 49, FloatTests), Flag(".H_AND", 53), Flag(".FTZ", 6), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Neg(43), Abs(44, Gpr(8)), Dot(0, 47, <<".H1_H0", ".F32", ".H0_H0", ".H1_H1">>), Comma, H9(30, 56), Comma, H9(20, 29), Comma, PredN(39)>>),
  F("PSETP", "5090000000000000", TRUE, <<Dot(-1, 24, BopNames), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, PredN(12), Comma, PredN(29), Comma, PredN(39)>>),
  F("PSET", "5088000000000000", TRUE, <<Flag(".BF", 44), Dot(-1, 24, BopNames), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, PredN(12), Comma, PredN(29), Comma, PredN(39)>>),
  F("P2R", "5CE8000000000000", TRUE, <<Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Gpr(0), Comma, Word(40, <<"PR", "CC">>), Comma, Gpr(8), Comma, Gpr(20)>>),
  F("P2R", "4CE8000000000000", TRUE, <<Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Gpr(0), Comma, Word(40, <<"PR", "CC">>), Comma, Gpr(8), Comma, Cbuf>>),
  F("P2R", "38E8000000000000", TRUE, <<Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Gpr(0), Comma, Word(40, <<"PR", "CC">>), Comma, Gpr(8), Comma, Imm20>>),
  F("R2P", "5CF0000000000000", TRUE, <<Word(40, <<"PR", "CC">>), Comma, Gpr(8), Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Comma, Gpr(20)>>),
  F("R2P", "4CF0000000000000", TRUE, <<Word(40, <<"PR", "CC">>), Comma, Gpr(8), Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Comma, Cbuf>>),
  F("R2P", "38F0000000000000", TRUE, <<Word(40, <<"PR", "CC">>), Comma, Gpr(8), Dot(0, 41, <<".B0", ".B1", ".B2", ".B3">>), Comma, Imm20>>),
  F("IADD", "5C10000000000000", TRUE, <<Po(48, 49), Flag(".SAT", 50), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Neg(48), Gpr(20)>>),
  F("IADD", "4C10000000000000", TRUE, <<Po(48, 49), Flag(".SAT", 50), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Neg(48), Cbuf>>),
  F("IADD", "3810000000000000", TRUE, <<Po(48, 49), Flag(".SAT", 50), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Imm20, Flag(".NEG", 48)>>),
  F("IADD32I", "1C00000000000000", TRUE, <<Po(55, 56), Flag(".SAT", 54), Flag(".X", 53), Gpr(0), Flag(".CC", 52), Comma, Neg(56), Gpr(8), Comma, SInt(32, 20)>>),
  F("IADD3", "5CC0000000000000", TRUE, <<Dot(0, 37, <<"", ".RS", ".LS">>), Flag(".X", 48), Gpr(0), Flag(".CC", 47), Comma, Neg(51), Gpr(8), Dot(0, 35, <<"", ".H0", ".H1">>), Comma, Neg(50), Gpr(20), Dot(0, 33, <<"", ".H0", ".H1">>), Comma, Neg(49), Gpr(39), Dot(0, 31, <<"", ".H0", ".H1">>)>>),
  F("IADD3", "4CC0000000000000", TRUE, <<Flag(".X", 48), Gpr(0), Flag(".CC", 47), Comma, Neg(51), Gpr(8), Comma, Neg(50), Cbuf, Comma, Neg(49), Gpr(39)>>),
  F("IADD3", "38C0000000000000", TRUE, <<Flag(".X", 48), Gpr(0), Flag(".CC", 47), Comma, Neg(51), Gpr(8), Comma, UExt, Flag(".NEG", 50), Comma, Neg(49), Gpr(39)>>),
  F("ICMP", "5B40000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("ICMP", "5340000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Gpr(0), Comma, Gpr(8), Comma, Gpr(39), Comma, Cbuf>>),
  F("ICMP", "4B40000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Gpr(0), Comma, Gpr(8), Comma, Cbuf, Comma, Gpr(39)>>),
  F("ICMP", "3640000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Gpr(0), Comma, Gpr(8), Comma, Imm20, Comma, Gpr(39)>>),
  F("IMNMX", "5C20000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 43, <<"", ".XLO", ".XMED", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, PredN(39)>>),
  F("IMNMX", "4C20000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 43, <<"", ".XLO", ".XMED", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf, Comma, PredN(39)>>),
  F("IMNMX", "3820000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Dot(0, 43, <<"", ".XLO", ".XMED", ".XHI">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20, Comma, PredN(39)>>),
  F("ISCADD", "5C18000000000000", TRUE, <<Po(48, 49), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Neg(48), Gpr(20), Comma, UInt(5, 39)>>),
  F("ISCADD", "4C18000000000000", TRUE, <<Po(48, 49), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Neg(48), Cbuf, Comma, UInt(5, 39)>>),
  F("ISCADD", "3818000000000000", TRUE, <<Po(48, 49), Gpr(0), Flag(".CC", 47), Comma, Neg(49), Gpr(8), Comma, Neg(48), Imm20, Comma, UInt(5, 39)>>),
  F("ISET", "5B50000000000000", TRUE, <<Flag(".BF", 44), Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, PredN(39)>>),
  F("ISET", "4B50000000000000", TRUE, <<Flag(".BF", 44), Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf, Comma, PredN(39)>>),
  F("ISET", "3650000000000000", TRUE, <<Flag(".BF", 44), Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20, Comma, PredN(39)>>),
  F("ISETP", "5B60000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Gpr(8), Comma, Gpr(20), Comma, PredN(39)>>),
  F("ISETP", "4B60000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Gpr(8), Comma, Cbuf, Comma, PredN(39)>>),
  F("ISETP", "3660000000000000", TRUE, <<Dot(-1, 49, <<".F", ".LT", ".EQ", ".LE", ".GT", ".NE", ".GE", ".T">>), Dot(1, 48, <<".U32", ".S32">>), Flag(".X", 43), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Gpr(8), Comma, Imm20, Comma, PredN(39)>>),
  F("FLO", "5C30000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".SH", 41), Gpr(0), Flag(".CC", 47), Comma, Tilde(40), Gpr(20)>>),
  F("FLO", "4C30000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".SH", 41), Gpr(0), Flag(".CC", 47), Comma, Tilde(40), Cbuf>>),
  F("FLO", "3830000000000000", TRUE, <<Dot(1, 48, <<".U32", ".S32">>), Flag(".SH", 41), Gpr(0), Flag(".CC", 47), Comma, Imm20, Flag(".INV", 40)>>),
  F("POPC", "5C08000000000000", TRUE, <<Gpr(0), Comma, Tilde(40), Gpr(20)>>),
  F("POPC", "4C08000000000000", TRUE, <<Gpr(0), Comma, Tilde(40), Cbuf>>),
  F("POPC", "3808000000000000", TRUE, <<Gpr(0), Comma, Imm20, Flag(".INV", 40)>>),
  F("LDC", "EF90000000000000", TRUE, <<Dot(-1, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64">>), Dot(0, 44, <<"", ".IL", ".IS", ".ISL">>), Gpr(0), Comma, LdcAddr>>),
  F("LEA", "5BDF000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 38), Gpr(0), Flag(".CC", 47), Comma, Neg(37), Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("LEA", "5BDF000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 38), Gpr(0), Flag(".CC", 47), Comma, Neg(37), Gpr(8), Comma, Gpr(20), Comma, Gpr(39), Comma, UInt(5, 28)>>),
  F("LEA", "5BD8000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 38), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(37), Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("LEA", "5BD8000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 38), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(37), Gpr(8), Comma, Gpr(20), Comma, Gpr(39), Comma, UInt(5, 28)>>),
  F("LEA", "1807000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 57), Gpr(0), Flag(".CC", 47), Comma, Neg(56), Gpr(8), Comma, Cbuf, Comma, Gpr(39)>>),
  F("LEA", "1807000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 57), Gpr(0), Flag(".CC", 47), Comma, Neg(56), Gpr(8), Comma, Cbuf, Comma, Gpr(39), Comma, UInt(5, 51)>>),
  F("LEA", "1800000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 57), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(56), Gpr(8), Comma, Cbuf, Comma, Gpr(39)>>),
  F("LEA", "1800000000000000", TRUE, <<Req(".HI", {}), Flag(".X", 57), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(56), Gpr(8), Comma, Cbuf, Comma, Gpr(39), Comma, UInt(5, 51)>>),
  F("LEA", "5BD7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Gpr(20)>>),
  F("LEA", "5BD7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Gpr(20), Comma, UInt(5, 39)>>),
  F("LEA", "5BD0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Gpr(20)>>),
  F("LEA", "5BD0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Gpr(20), Comma, UInt(5, 39)>>),
  F("LEA", "4BD7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Cbuf>>),
  F("LEA", "4BD7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Cbuf, Comma, UInt(5, 39)>>),
  F("LEA", "4BD0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Cbuf>>),
  F("LEA", "4BD0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Cbuf, Comma, UInt(5, 39)>>),
  F("LEA", "36D7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Imm20>>),
  F("LEA", "36D7000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Imm20, Comma, UInt(5, 39)>>),
  F("LEA", "36D0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Imm20>>),
  F("LEA", "36D0000000000000", TRUE, <<Opt(".LO"), Flag(".X", 46), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Neg(45), Gpr(8), Comma, Imm20, Comma, UInt(5, 39)>>),
  F("LOP", "5C40000000000000", TRUE, <<Dot(-1, 41, <<".AND", ".OR", ".XOR", ".PASS_B">>), Flag(".X", 43), Dot(0, 44, <<"", ".T", ".Z", ".NZ">>), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Tilde(39), Gpr(8), Comma, Tilde(40), Gpr(20)>>),
  F("LOP", "4C40000000000000", TRUE, <<Dot(-1, 41, <<".AND", ".OR", ".XOR", ".PASS_B">>), Flag(".X", 43), Dot(0, 44, <<"", ".T", ".Z", ".NZ">>), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Tilde(39), Gpr(8), Comma, Tilde(40), Cbuf>>),
  F("LOP", "3840000000000000", TRUE, <<Dot(-1, 41, <<".AND", ".OR", ".XOR", ".PASS_B">>), Flag(".X", 43), Dot(0, 44, <<"", ".T", ".Z", ".NZ">>), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Tilde(39), Gpr(8), Comma, Tilde(40), Imm20>>),
  F("LOP32I", "0400000000000000", TRUE, <<Dot(-1, 53, <<".AND", ".OR", ".XOR", ".PASS_B">>), Flag(".X", 57), Gpr(0), Flag(".CC", 52), Comma, Tilde(55), Gpr(8), Comma, UInt(32, 20), Flag(".INV", 56)>>),
  F("LOP3", "5BE0000000000000", TRUE, <<Req(".LUT", {}), Flag(".X", 38), Dot(0, 36, <<"", ".T", ".Z", ".NZ">>), Pred(48), Comma, Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39), Comma, UInt(8, 28)>>),
  F("LOP3", "5BE7000000000000", TRUE, <<Req(".LUT", {}), Flag(".X", 38), Dot(0, 36, <<"", ".T", ".Z", ".NZ">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39), Comma, UInt(8, 28)>>),
  F("LOP3", "3C00000000000000", TRUE, <<Req(".LUT", {}), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20, Comma, Gpr(39), Comma, UInt(8, 48)>>),
  F("LOP3", "0200000000000000", TRUE, <<Req(".LUT", {}), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf, Comma, Gpr(39), Comma, UInt(8, 48)>>),
  F("FCMP", "5BA0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("FCMP", "53A0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Gpr(0), Comma, Gpr(8), Comma, Gpr(39), Comma, Cbuf>>),
  F("FCMP", "4BA0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Gpr(0), Comma, Gpr(8), Comma, Cbuf, Comma, Gpr(39)>>),
  F("FCMP", "36A0000000000000", TRUE, <<Dot(-1, 48, FloatTests), Flag(".FTZ", 47), Gpr(0), Comma, Gpr(8), Comma, F20, Comma, Gpr(39)>>),
  F("SEL", "5CA0000000000000", TRUE, <<Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, PredN(39)>>),
  F("SEL", "4CA0000000000000", TRUE, <<Gpr(0), Comma, Gpr(8), Comma, Cbuf, Comma, PredN(39)>>),
  F("SEL", "38A0000000000000", TRUE, <<Gpr(0), Comma, Gpr(8), Comma, Imm20, Comma, PredN(39)>>),
  F("SHFL", "EF10000000000000", TRUE, <<Dot(-1, 30, <<".IDX", ".UP", ".DOWN", ".BFLY">>), Pred(48), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Gpr(39)>>),
  F("SHFL", "EF10000010000000", TRUE, <<Dot(-1, 30, <<".IDX", ".UP", ".DOWN", ".BFLY">>), Pred(48), Comma, Gpr(0), Comma, Gpr(8), Comma, UInt(5, 20), Comma, Gpr(39)>>),
  F("SHFL", "EF10000020000000", TRUE, <<Dot(-1, 30, <<".IDX", ".UP", ".DOWN", ".BFLY">>), Pred(48), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 34)>>),
  F("SHFL", "EF10000030000000", TRUE, <<Dot(-1, 30, <<".IDX", ".UP", ".DOWN", ".BFLY">>), Pred(48), Comma, Gpr(0), Comma, Gpr(8), Comma, UInt(5, 20), Comma, UInt(13, 34)>>),
  F("SHL", "5C48000000000000", TRUE, <<Flag(".W", 39), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Gpr(20)>>),
  F("SHL", "4C48000000000000", TRUE, <<Flag(".W", 39), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Cbuf>>),
  F("SHL", "3848000000000000", TRUE, <<Flag(".W", 39), Flag(".X", 43), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), Comma, Imm20>>),
  F("SYNC", "F0F8000000000000", TRUE, <<Flow>>),
  F("CONT", "E350000000000000", TRUE, <<Flow>>),
  F("BRK", "E340000000000000", TRUE, <<Flow>>),
  F("KIL", "E330000000000000", TRUE, <<Flow>>),
  F("RET", "E320000000000000", TRUE, <<Flow>>),
  F("LONGJMP", "E310000000000000", TRUE, <<Flow>>),
  F("EXIT", "E300000000000000", TRUE, <<Flag(".KEEPREFCOUNT", 5), Flow>>),
  F("RRO", "5C90000000000000", TRUE, <<Dot(-1, 39, <<".SINCOS", ".EX2">>), Gpr(0), Comma, Neg(45), Abs(49, Gpr(20))>>),
  F("RRO", "4C90000000000000", TRUE, <<Dot(-1, 39, <<".SINCOS", ".EX2">>), Gpr(0), Comma, Neg(45), Abs(49, Cbuf)>>),
  F("RRO", "3890000000000000", TRUE, <<Dot(-1, 39, <<".SINCOS", ".EX2">>), Gpr(0), Comma, F20, Flag(".NEG", 45), Flag(".ABS", 49)>>),
  F("SUST", "EB20000000000000", TRUE, <<Req(".P", {}), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CS", ".WT">>), Dot(15, 20, <<"", ".R", ".G", ".RG", ".B", ".RB", ".GB", ".RGB", ".A", ".RA", ".GA", ".RGA", ".BA", ".RBA", ".GBA", ".RGBA">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Mem(FALSE, 20, 24, 0), Comma, Gpr(0), Comma, Gpr(39)>>),
  F("SUST", "EB28000000000000", TRUE, <<Req(".P", {}), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CS", ".WT">>), Dot(15, 20, <<"", ".R", ".G", ".RG", ".B", ".RB", ".GB", ".RGB", ".A", ".RA", ".GA", ".RGA", ".BA", ".RBA", ".GBA", ".RGBA">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Mem(FALSE, 20, 24, 0), Comma, Gpr(0), Comma, UInt(13, 36)>>),
  F("SUST", "EB20000000000000", TRUE, <<Req(".D", {52}), Flag(".BA", 23), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CS", ".WT">>), Dot(4, 20, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Mem(FALSE, 20, 24, 0), Comma, Gpr(0), Comma, Gpr(39)>>),
  F("SUST", "EB28000000000000", TRUE, <<Req(".D", {52}), Flag(".BA", 23), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CS", ".WT">>), Dot(4, 20, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Mem(FALSE, 20, 24, 0), Comma, Gpr(0), Comma, UInt(13, 36)>>),
  F("SULD", "EB00000000000000", TRUE, <<Req(".P", {}), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CI", ".CV">>), Dot(15, 20, <<"", ".R", ".G", ".RG", ".B", ".RB", ".GB", ".RGB", ".A", ".RA", ".GA", ".RGA", ".BA", ".RBA", ".GBA", ".RGBA">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Gpr(0), Comma, Mem(FALSE, 20, 24, 0), Comma, Gpr(39)>>),
  F("SULD", "EB08000000000000", TRUE, <<Req(".P", {}), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CI", ".CV">>), Dot(15, 20, <<"", ".R", ".G", ".RG", ".B", ".RB", ".GB", ".RGB", ".A", ".RA", ".GA", ".RGA", ".BA", ".RBA", ".GBA", ".RGBA">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Gpr(0), Comma, Mem(FALSE, 20, 24, 0), Comma, UInt(13, 36)>>),
  F("SULD", "EB00000000000000", TRUE, <<Req(".D", {52}), Flag(".BA", 23), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CI", ".CV">>), Dot(4, 20, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Gpr(0), Comma, Mem(FALSE, 20, 24, 0), Comma, Gpr(39)>>),
  F("SULD", "EB08000000000000", TRUE, <<Req(".D", {52}), Flag(".BA", 23), Dot(-1, 33, <<".1D", ".1D_BUFFER", ".1D_ARRAY", ".2D", ".2D_ARRAY", ".3D">>), Dot(0, 24, <<"", ".CG", ".CI", ".CV">>), Dot(4, 20, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Dot(1, 49, <<".IGN", "", ".TRAP">>), Gpr(0), Comma, Mem(FALSE, 20, 24, 0), Comma, UInt(13, 36)>>),
  F("VOTE", "50D8000000000000", TRUE, <<Dot(-1, 48, <<".ALL", ".ANY", ".EQ">>), Gpr(0), Comma, Pred(45), Comma, PredN(39)>>),
  F("VMAD", "5F04000000000000", TRUE, <<SrcFmt(37, 48), SrcFmt(29, 49), Po(53, 54), Dot(0, 51, <<"", ".SHR_7", ".SHR_15", ".INVALIDVMADSCALE3">>), Flag(".SAT", 55), Gpr(0), Flag(".CC", 47), Comma, Neg(54), Gpr(8), SelV(37, 36), Comma, Gpr(20), SelV(29, 28), Comma, Neg(53), Gpr(39)>>),
  F("VMAD", "5F00000000000000", TRUE, <<SrcFmt(37, 48), Dot(1, 49, <<".U16", ".S16">>), Po(53, 54), Dot(0, 51, <<"", ".SHR_7", ".SHR_15", ".INVALIDVMADSCALE3">>), Flag(".SAT", 55), Gpr(0), Flag(".CC", 47), Comma, Neg(54), Gpr(8), SelV(37, 36), Comma, UInt(16, 20), Comma, Neg(53), Gpr(39)>>),
  F("VMNMX", "3A04000000000000", TRUE, <<Dot(1, 54, <<".UD", ".SD">>), SrcFmt(37, 48), SrcFmt(29, 49), Dot(0, 56, <<".MN", ".MX">>), Flag(".SAT", 55), Dot(7, 51, <<".MRG_16H", ".MRG_16L", ".MRG_8B0", ".MRG_8B2", ".ACC", ".MIN", ".MAX">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), SelV(37, 36), Comma, Gpr(20), SelV(29, 28), Comma, Gpr(39)>>),
  F("VMNMX", "3A00000000000000", TRUE, <<Dot(1, 54, <<".UD", ".SD">>), SrcFmt(37, 48), Dot(1, 49, <<".U16", ".S16">>), Dot(0, 56, <<".MN", ".MX">>), Flag(".SAT", 55), Dot(7, 51, <<".MRG_16H", ".MRG_16L", ".MRG_8B0", ".MRG_8B2", ".ACC", ".MIN", ".MAX">>), Gpr(0), Flag(".CC", 47), Comma, Gpr(8), SelV(37, 36), Comma, UInt(16, 20), Comma, Gpr(39)>>),
  F("VSETP", "50F4000000000000", TRUE, <<Dot(-1, 43, <<".F", ".LT", ".EQ", ".LE", "", "", "", "", "", "", "", "", "", "", "", "", ".GT", ".NE", ".GE", ".T">>), SrcFmt(37, 48), SrcFmt(29, 49), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Gpr(8), SelV(37, 36), Comma, Gpr(20), SelV(29, 28), Comma, PredN(39)>>),
  F("VSETP", "50F0000000000000", TRUE, <<Dot(-1, 43, <<".F", ".LT", ".EQ", ".LE", "", "", "", "", "", "", "", "", "", "", "", "", ".GT", ".NE", ".GE", ".T">>), SrcFmt(37, 48), Dot(1, 49, <<".U16", ".S16">>), Dot(-1, 45, BopNames), Pred(3), Comma, Pred(0), Comma, Gpr(8), SelV(37, 36), Comma, UInt(16, 20), Comma, PredN(39)>>),
  F("STG", "EED8000000000000", TRUE, <<Flag(".E", 45), Dot(0, 46, <<"", ".CG", ".CS", ".WT">>), Dot(4, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Mem(TRUE, 20, 24, 0), Comma, Gpr(0)>>),
  F("STS", "EF58000000000000", TRUE, <<Dot(4, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Mem(TRUE, 20, 24, 0), Comma, Gpr(0)>>),
  F("STL", "EF50000000000000", TRUE, <<Dot(0, 44, <<"", ".CG", ".CS", ".WT">>), Dot(4, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Mem(TRUE, 20, 24, 0), Comma, Gpr(0)>>),
  F("TEX", "C000000000000000", TRUE, <<Flag(".NDV", 35), Flag(".NODEP", 49), Flag(".AOFFI", 54), Dot(0, 55, <<"", ".LZ", ".LB", ".LL", ".INVALIDBLOD4", ".INVALIDBLOD5", ".LBA", ".LLA">>), Flag(".DC", 50), Flag(".LC", 58), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TEX", "DE80000000000000", TRUE, <<Req(".B", {}), Flag(".NDV", 35), Flag(".NODEP", 49), Flag(".AOFFI", 36), Dot(0, 37, <<"", ".LZ", ".LB", ".LL", ".INVALIDBLOD4", ".INVALIDBLOD5", ".LBA", ".LLA">>), Flag(".DC", 50), Flag(".LC", 40), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Zero, Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TEXS", "D000000000000000", TRUE, <<Dot(1, 59, <<".F16", "">>), TexsMode(53), Flag(".NODEP", 49), Gpr(28), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, TexsType(53), Comma, Swizzle>>),
  F("TLD4", "C800000000000000", TRUE, <<Dot(-1, 56, <<".R", ".G", ".B", ".A">>), Dot(0, 54, <<"", ".AOFFI", ".PTP">>), Flag(".DC", 50), Flag(".NDV", 35), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TLD4", "DEC0000000000000", TRUE, <<Dot(-1, 38, <<".R", ".G", ".B", ".A">>), Req(".B", {}), Dot(0, 36, <<"", ".AOFFI", ".PTP">>), Flag(".DC", 50), Flag(".NDV", 35), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Zero, Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TLD4S", "DF00000000000000", TRUE, <<Dot(0, 55, <<"", ".F16">>), Dot(-1, 52, <<".R", ".G", ".B", ".A">>), Flag(".AOFFI", 51), Flag(".DC", 50), Flag(".NODEP", 49), Gpr(28), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36)>>),
  F("TLD", "DC00000000000000", TRUE, <<Dot(-1, 55, <<".LZ", ".LL">>), Flag(".AOFFI", 35), Flag(".MS", 50), Flag(".CL", 54), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TLD", "DD00000000000000", TRUE, <<Req(".B", {}), Dot(-1, 55, <<".LZ", ".LL">>), Flag(".AOFFI", 35), Flag(".MS", 50), Flag(".CL", 54), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Zero, Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TLDS", "D200000000000000", TRUE, <<Dot(1, 59, <<".F16", "">>), Dot(-1, 53, <<".LZ", ".LL">>), Flag(".AOFFI", 54), Flag(".MS", 55), Flag(".NODEP", 49), Gpr(28), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, TldsType(53), Comma, Swizzle>>),
  F("TMML", "DF58000000000000", TRUE, <<Req(".LOD", {}), Flag(".NDV", 35), Flag(".NODEP", 49), Gpr(0), Comma, Gpr(8), Comma, UInt(13, 36), Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TMML", "DF60000000000000", TRUE, <<Req(".B", {}), Req(".LOD", {}), Flag(".NDV", 35), Flag(".NODEP", 49), Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Zero, Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TXD", "DE00000000000000", TRUE, <<Flag(".LC", 50), Flag(".AOFFI", 35), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, UInt(13, 36), Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TXD", "DE40000000000000", TRUE, <<Req(".B", {}), Flag(".LC", 50), Flag(".AOFFI", 35), Flag(".NODEP", 49), Pred(51), Comma, Gpr(0), Comma, Gpr(8), Comma, Gpr(20), Comma, Zero, Comma, Word(28, TexTypes), Comma, UInt(4, 31)>>),
  F("TXQ", "DF48000000000000", TRUE, <<Flag(".NODEP", 49), Gpr(0), Comma, Gpr(8), Comma, TxqMode, Comma, UInt(13, 36), Comma, UInt(4, 31)>>),
  F("TXQ", "DF50000000000000", TRUE, <<Req(".B", {}), Flag(".NODEP", 49), Gpr(0), Comma, Gpr(8), Comma, TxqMode, Comma, Zero, Comma, UInt(4, 31)>>),
  F("LDG", "EED0000000000000", TRUE, <<Flag(".E", 45), Dot(0, 46, <<"", ".CG", ".CI", ".CV">>), LdgSize, Gpr(0), Comma, Mem(TRUE, 20, 24, 0)>>),
  F("LDG", "EEC8000000000000", TRUE, <<Flag(".E", 45), Dot(0, 46, <<"", ".CG", ".CI", ".CV">>), LdgSize, IPred(41), Comma, Gpr(0), Comma, Mem(TRUE, 20, 20, 0)>>),
  F("LDS", "EF48000000000000", TRUE, <<Flag(".U", 44), Dot(4, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Gpr(0), Comma, Mem(TRUE, 20, 24, 0)>>),
  F("LDL", "EF40000000000000", TRUE, <<Dot(0, 44, <<"", ".LU", ".CI", ".CV">>), Dot(4, 48, <<".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128">>), Gpr(0), Comma, Mem(TRUE, 20, 24, 0)>>),
  F("RED", "EBF8000000000000", TRUE, <<Flag(".E", 48), Dot(0, 23, <<".ADD", ".MIN", ".MAX", ".INC", ".DEC", ".AND", ".OR", ".XOR">>), AtomSize(20), Mem(TRUE, 28, 20, 0), Comma, Gpr(0)>>),
  F("BRA", "E240000000000000", TRUE, <<Flag(".U", 7), Flag(".LMT", 6), Flow, Comma, LabelRef>>),
  F("BRA", "E24000000000000F", TRUE, <<Flag(".U", 7), Flag(".LMT", 6), LabelRef>>),
  F("PBK", "E2A0000000000000", FALSE, <<LabelRef>>),
  F("SSY", "E290000000000000", FALSE, <<LabelRef>>),
  F("CAL", "E260000000000000", FALSE, <<Dot(1, 6, <<".NOINC", ".INC">>), LabelRef>>),
  F("PCNT", "E2B0000000000000", FALSE, <<LabelRef>>)
>>

Mnemonics == {Table[i].m : i \in 1..Len(Table)}

(* the forms of each mnemonic, in order *)
FormsOf == TLCEval([m \in Mnemonics |-> SelectSeq(Table, LAMBDA f : f.m = m)])
=============================================================================
