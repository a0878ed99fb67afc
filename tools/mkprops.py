import json
T="The existing tests assemble about a thousand one-instruction programs and compare a single word, so "
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
ISA=["src/parse.cpp","src/operand.h","src/table.h","src/opcode.h","src/helper.cpp"]
p("C01","Every instruction form encodes its opcode, registers and predicates exactly",
  "Every statement the assembler accepts becomes one 64-bit word that carries the opcode of that instruction form and, in the fields the instruction set gives them, exactly the registers and predicates that were written, with their negation and absolute-value marks. No register number, zero register, predicate or operand mark is lost, moved to another field or replaced.",
  ["inputs","programs"],"all instruction forms, all registers R0-R254 and RZ, all predicates P0-P6 and PT, plain or negated, in every operand position and in combination",
  T+"they fix a few register numbers per form; a field that is one bit too narrow, or an operand that goes wrong only for certain registers or combinations, passes them.",
  ISA,[("the table of forms with their opcodes and operand functions","src/table.h"),("register and predicate operands","src/helper.cpp, src/operand.h")])
p("C02","Modifiers select exactly the variant written, and defaults when omitted",
  "Every modifier and every allowed combination of modifiers of an instruction selects exactly the encoding the instruction set assigns to it, and an omitted modifier selects its documented default. Modifiers of different groups never influence one another unless the instruction set says so.",
  ["inputs","programs"],"all forms, all values of each modifier group, all pairs and many larger combinations of groups",
  T+"they try single modifiers with the others left out; the combinations and most default/explicit interactions are never seen.",
  ISA,[("modifier tables and flags","src/operand.h: DEFINE_FLAG, DEFINE_TABLE"),("find_in_table","src/helper.cpp")])
p("C03","Integer operands are encoded exactly or rejected",
  "An integer immediate, constant-buffer index or offset, memory or attribute offset, mask or count is encoded so that the field means exactly the written value, and a value that the field cannot hold, or an offset with an alignment it cannot express, is rejected. No value is ever truncated, wrapped, saturated or spilled into neighbouring bits.",
  ["inputs"],"all integer operands of all forms, all values at, around and far outside the limits of the field, in every notation",
  T+"they use one or two values in the middle of the range for each field; limits, signs, alignment and 64-bit extremes are not reached.",
  ["src/helper.cpp","src/operand.h","src/context.cpp"],[("convert_integer and the operand wrappers","src/helper.cpp, src/operand.h"),("reading of literals","src/context.cpp: tokenize")])
p("C04","Floating-point operands are correctly rounded and encoded",
  "A decimal literal denotes the nearest single-precision value (ties to even, infinity on overflow), and a single, double or half precision immediate is encoded as that value in its format - for half precision rounded to nearest even - cut to the width of the field, with its sign kept also for zero and infinity. An integer written in its place denotes that integer, and one that a single-precision operand cannot represent exactly is rejected; infinities and quiet NaNs can be written by name with either sign.",
  ["inputs"],"all decimal literals, of any length and magnitude, including ties, subnormals, overflow and signed zeros, and integers written where a float is expected",
  T+"they use a handful of short literals; rounding ties, subnormals, long literals and the two halves of packed operands are not reached.",
  ["src/helper.cpp","src/fp16.h","src/operand.h","src/context.cpp"],[("conversion to the three formats","src/helper.cpp, src/fp16.h"),("reading of literals","src/context.cpp: tokenize")])
p("C05","Operands occupy separate bits and encodings are unambiguous",
  "Changing one operand or modifier of an instruction changes only the bits that belong to it, for every setting of all others. Two statements that mean different things never produce the same word, so a disassembler can recover what was written.",
  ["inputs","programs"],"all forms, all pairs of operands and modifiers within a form, and all pairs of forms",
  T+"they never compare two encodings with one another; a field that overlaps another only shows when both are set.",
  ["src/opcode.h","src/operand.h","src/table.h"],[("add_bits refuses bits that are already set","src/opcode.h"),("field addresses of the operands","src/table.h, src/operand.h")])
p("C06","Guard predicates are encoded on every instruction that allows them",
  "A statement guarded by @P0-@P6, @PT or the negation of one encodes exactly that guard, an unguarded statement encodes always, and the guard changes nothing else about the instruction. Instructions without predicated execution, and anything that is not a predicate after the guard sign, are rejected.",
  ["inputs","programs"],"all forms under all sixteen guards, written with any spacing and in any place of a program",
  T+"they use guards on very few instructions.",
  ["src/parse.cpp","src/opcode.h","src/table.h"],[("the guard of a statement","src/parse.cpp"),("forms without predicated execution","src/table.h")])
p("C07","Every label and numeric target resolves to the address it names",
  "A branch, call or synchronization target given by label encodes the distance from the following instruction to the address of the first instruction after the label, wherever the label is defined, and counting the control words in between; a numeric target encodes the distance to that address. Undefined labels, labels defined twice, and targets farther than the field can express are rejected.",
  ["programs","inputs"],"all programs with labels and branches: any length, any number, naming, order and placement of labels, forward and backward, near and up to the limits of the field",
  T+"hardly any program in them has a label, and none has control words in between or a distance near the limits.",
  ["src/context.cpp","src/operand.h","src/nxas.cpp"],[("label pass","src/context.cpp: find_labels"),("target operand","src/operand.h: label"),("address of each instruction","src/nxas.cpp")])
p("C08","Scheduling annotations and operand reuse reach their own instruction's slot",
  "The wait count, yield, read and write barriers, dependency mask and reuse flags written on an instruction are encoded exactly, in the part of the control word that belongs to that instruction, whatever its neighbours say; those left out have their documented defaults. Annotations with values out of range, unknown ones, and reuse on operands that cannot be reused are rejected.",
  ["inputs","programs"],"all combinations and orders of annotations, all reusable operand positions of all forms, in each of the three slots of a bundle and with any neighbours",
  T+"they compare only the instruction word, never a control word.",
  ["src/parse.cpp","src/nxas.cpp","src/opcode.h","src/helper.cpp"],[("annotations","src/parse.cpp"),("control words","src/nxas.cpp: generate_sched"),("reuse flags","src/helper.cpp, src/opcode.h")])
p("C09","Programs of any length keep every instruction, in order, in padded bundles",
  "The image of a program is a sequence of bundles of one control word and three instruction words that contains the instructions of the program in the order written, each once, followed only by padding instructions that complete the last bundle and carry the fixed padding encoding. This holds for programs of any length, including the empty one.",
  ["programs"],"all programs, from no instruction to millions",
  T+"no program in them has more than a few instructions and padding is never looked at.",
  ["src/nxas.cpp","src/write.cpp"],[("bundling and padding","src/nxas.cpp: assemble"),("output","src/write.cpp")])
p("C10","Spacing, line breaks and number notation do not change the result",
  "Two texts that differ only in blanks, tabs, carriage returns or line breaks between words, or in writing the same number or register in another notation, give the same image. Every word is read exactly to its end: no character of a text is skipped, read twice or attributed to a neighbouring word.",
  ["inputs","programs"],"all placements of white space, all integer notations (decimal, octal, hexadecimal, signed, leading zeros), all short words, all programs",
  T+"they are written in one style.",
  ["src/context.cpp","src/token.cpp"],[("tokenizer","src/context.cpp: tokenize")])
p("C11","Nothing outside the language is accepted",
  "A text that is not a program of the language - an unknown mnemonic, modifier or annotation, a missing, extra or unsuitable operand, a modifier of another instruction, words or characters out of place - is rejected and never yields an image. In particular no operand is silently ignored and no word is taken for another that merely resembles it.",
  ["inputs"],"all texts",
  "The existing tests contain almost only valid statements; the set of texts that must be rejected is infinite.",
  ["src/parse.cpp","src/helper.cpp","src/operand.h","src/context.cpp","src/options.cpp"],[("statement parser","src/parse.cpp"),("operand functions","src/operand.h"),("find_in_table compares whole words","src/helper.cpp")])
p("C12","Trying the forms of a mnemonic leaves no trace of the ones that did not fit",
  "When a mnemonic has several forms, a statement is encoded as if the form that fits were the only one: nothing of a form tried before it - operand bits, modifiers, reuse flags, position in the text - remains, whichever operand made that form fail. Every statement that fits a form is accepted, whatever other forms precede it.",
  ["inputs","programs"],"all mnemonics with several forms, all of their forms, all operands and modifiers, in every order within a program",
  T+"they hold one or two examples of each form, with few modifiers and no control words, so leftovers of a failed attempt do not show.",
  ["src/parse.cpp","src/opcode.h","src/operand.h"],[("each attempt starts from a saved context and a new opcode","src/parse.cpp")])
p("C13","Every rejection names the file, line and column of the offending word",
  "A rejected text is reported as file:line:column of the first character of the word at which it stops being a program (for a mnemonic with several forms, the word at which the first of the forms that get through the most operands fails), counting lines and columns from one and a tab as four columns, under the file name that was given; only errors of the text as a whole (a null character, a missing or misplaced entry point, a shader type without image) have no place. This holds wherever in the text the error is and whatever surrounds it.",
  ["inputs","programs"],"all rejected texts: any kind of error, any number of lines, labels and statements before it, any mixture of blanks, any file name",
  "The existing tests do not look at diagnostics at all.",
  ["src/error.cpp","src/context.cpp","src/parse.cpp"],[("line and column kept by the tokenizer","src/context.cpp"),("report of the failed token","src/error.cpp, src/parse.cpp")])
p("C14","Every text ends in an image or a reported error",
  "For every sequence of bytes the assembler terminates, within time and memory proportionate to the text, with an image or with a diagnostic and failure status. It never crashes, aborts, hangs, reads or writes outside its memory or runs into undefined behaviour, and a call that returns keeps nothing but its image: assembling again and again takes no more memory than once.",
  ["inputs"],"all byte strings: empty, cut off anywhere, with any byte values, with very long words, lines and label lists",
  T+"all of them are well-formed and tiny.",
  ["src/context.cpp","src/parse.cpp","src/helper.cpp","src/operand.h","src/options.cpp","src/dksh.cpp"],[("ends of text in the tokenizer","src/context.cpp"),("table searches","src/helper.cpp"),("bit clashes are excluded, not asserted","src/opcode.h")])
p("C15","Shader containers describe their program exactly",
  "With the container option the image is a header followed by the code at its aligned place and zero padding to the alignment, and the header states exactly the code size, entry point, register count, workgroup size, shared and local memory derived from the options and the program, with defaults for what was not given. A container whose entry point is missing or not at the start of a bundle is rejected.",
  ["programs","configurations"],"all combinations, orders and values of the options, all program sizes, all entry points",
  "No existing test produces a container.",
  ["src/dksh.cpp","src/write.cpp","src/options.cpp"],[("header and padding","src/dksh.cpp: write_dksh"),("option values","src/options.cpp")])
p("C16","Options are read wherever they stand, checked, and otherwise have no effect",
  "Each option takes exactly its own arguments, on its own line and with nothing after them, may stand before any statement and in any order, and the last value given for a setting wins; an unknown option, a missing, extra or out-of-range value, a second shader type, or a shader type for which no image can be made, is rejected. Options never change the code itself.",
  ["inputs","configurations"],"all sequences of options and statements, all values",
  "The existing tests contain no options.",
  ["src/options.cpp","src/parse.cpp","src/write.cpp"],[("option parser","src/options.cpp"),("shader type check","src/write.cpp")])
p("C17","The command line tool writes the image or fails and says so",
  "The tool exits with success only if the output file holds exactly the image of the input file, byte for byte and nothing else; in every other case - bad arguments, unreadable input, invalid program, output that cannot be opened or completely written - it exits with status one and a message. A rejected program or bad usage leaves existing files untouched, and input files are never changed.",
  ["inputs","configurations","fault_sequences"],"all argument vectors, all input files (sizes, bytes, pipes), all points at which writing fails",
  "The existing tests never start the tool.",
  ["src/command_line.cpp","src/nxas.cpp"],[("arguments, reading and writing files","src/command_line.cpp")])
p("C18","The result depends on the text alone",
  "Assembling a text gives the same image or the same diagnostic whenever and however often it is done: whatever was assembled before it in the same process, in however many threads at once, whatever memory held before, under any file name, environment, locale and optimization level. Concurrent calls do not race.",
  ["histories","schedules","configurations"],"all sequences and interleavings of calls, all initial memory contents, all build settings",
  "Each existing test makes one call with a fixed name, in one thread.",
  ["src/nxas.cpp","src/context.cpp","src/opcode.h","src/parse.cpp"],[("all state lives in the context and opcode of a call","src/nxas.cpp, src/context.h"),("members are initialised","src/opcode.h, src/context.h")])
p("C19","What a diagnostic says about the text is true",
  "Where a diagnostic quotes a word, label, option, register or literal, that is the word at the reported place, whole and as it is written; a number it names is the value written there; the kind of word it says it found is the kind that stands there; a word or kind of word it says was expected would be accepted there; a range it states is the range accepted there, no narrower and no wider; and what it says is unknown, undefined, defined or given twice, misaligned, negated or not predicated is so.",
  ["inputs"],"all rejected texts, all words, numbers and labels in them",
  "The existing tests do not look at diagnostics at all.",
  ["src/error.cpp","src/helper.cpp","src/token.cpp","src/parse.cpp","src/operand.h","src/options.cpp","src/context.cpp"],[("messages and what they quote","src/error.cpp, src/helper.cpp: confirm_type, convert_integer"),("names of the kinds of words","src/token.cpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,x['title']
M=dict(version=1,setup_cmd="python3 setup.py",checks=[],not_applicable=[],notes="TLA+ specification in spec/, checked with TLC (and Apalache for the unbounded layout proof); conformance in nxv/. No hooks in /repo: everything is observed through the public API and the tool.")
tech={"C05":"TLC on the TLA+ field model (all forms), and trace validation of real runs","C07":"Apalache inductive proof of the layout model; TLC trace validation of real runs","C08":"TLC on the scheduling model; TLC trace validation of real runs","C09":"Apalache inductive proof of the layout model; TLC trace validation of real runs","C15":"Apalache inductive proof of the layout model; TLC trace validation of real runs","C17":"TLC on the command line model; its argument vectors and faults replayed into the tool, outcomes validated by TLC","C18":"TLC trace validation of recorded call histories (threads, sanitizers, memory fills)","C19":"TLA+ specification of the claims of a diagnostic; TLC decides them for recorded runs","C14":"TLC model checking of the machine; TLC validation of the outcomes of sanitized runs"}
for x in P:
    i=x['id']
    M['checks'].append(dict(property=i,quick_cmd="python3 check.py "+i,thorough_cmd="python3 check.py %s --tier thorough"%i,
     technique=tech.get(i,"TLA+ specification of the assembler; TLC validates recorded runs of the real code against it"),level="model_checking",
     level_note="Every run of the real code on generated inputs is compared by TLC with the specification; sound for the inputs explored (see evidence), trusts TLC, the compiler and the transcription of the instruction set in spec/."))
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
