mk('mirror-high-register','C01','FFMA32I or HFMA2_32I with a destination of R128 or more',
 'the mirrored destination register is compared in seven bits only, so statements with a high register abort',
 [('src/operand.h','op.value &= ~(uint64_t{0xff} << address);','op.value &= ~(uint64_t{0x7f} << address);')],
 same('FFMA32I R200, R1, 1.0, R200;\nHFMA2_32I R130, R1, 1.0, 1.0, R130;'))
mk('i2f-signed-half','C02','I2F from S16 with the H1 selector (signed source and selector together)',
 'the selector of a signed 16-bit source is looked up among the byte selectors',
 [('src/operand.h','''        const uint64_t type = (op.value >> 10) & 0b111;
        const char* const* const table = type == 1''','''        const uint64_t type = (op.value >> 10) & 0b1111;
        const char* const* const table = type == 1''')],
 same('I2F.F32.S16 R1, R2.H1;'))
mk('offset-below-minimum','C03','a memory operand with the offset -2^23 - 1 (or one below the minimum of the form)',
 'one value below the minimum is accepted and wraps to the maximum',
 [('src/operand.h','is_zero_reg ? 0 : -(1 << (size - 1));','is_zero_reg ? 0 : -(1 << (size - 1)) - 1;')],
 rejected('LDG R1, [R2-0x800001];','1:12'))
mk('double-through-single','C04','an integer of more than 24 bits as a double precision operand, with ones down to the rounding',
 'integers are rounded to single precision before they become double',
 [('src/helper.cpp','value = static_cast<double>(token.data.immediate);','value = static_cast<float>(token.data.immediate);')],
 same('DADD R2, R4, 0x1fffffff;'))
mk('txq-index-spill','C05','TXQ with a texture index of 0x2000 or more',
 'the index field is taken one bit too wide, its top bit is the NODEP flag',
 [('src/table.h','comma, txq::mode, comma, uinteger<13, 36>, comma','comma, txq::mode, comma, uinteger<14, 36>, comma')],
 rejected('TXQ R1, R2, TEX_HEADER_DIMENSION, 0x2005, 0xf;'))
mk('guarded-pcnt','C06','a guard on PCNT, which is not predicated',
 'the guard of PCNT is accepted and encoded',
 [('src/table.h','INSN(0xE2B0000000000000ULL, NO_PRED, "PCNT", label)','INSN(0xE2B0000000000000ULL, 0, "PCNT", label)')],
 rejected('@P0 PCNT 0x10;'))
mk('label-16-bits','C07','a label more than 64 KiB into the code',
 'addresses of labels are kept in 16 bits',
 [('src/context.cpp','    return it->second;\n','    const uint16_t offset = static_cast<uint16_t>(it->second);\n    return offset;\n')],
 '''(echo 'BRA end;'; yes 'NOP;' | head -n 8999; echo end:; echo 'EXIT;') > "$w/a.sass"
./_build/nxas "$w/a.sass" -o "$w/a.bin" || exit 1
# the distance is 96008 - 16
[ "$(od -An -tx8 -j8 -N8 "$w/a.bin" | tr -d ' ')" = e24000176f87000f ] || { od -An -tx8 -N64 "$w/a.bin"; exit 1; }
''')
mk('label-prefix','C07','two labels of more than 31 characters that differ only after the 31st',
 'labels are told apart by 31 characters only; both sites look fine alone',
 [('src/context.cpp','label.append(potential_label, static_cast<size_t>(text - potential_label));',
   'label.append(potential_label, std::min<size_t>(31, text - potential_label));'),
  ('src/context.cpp','find_label(std::string_view label) const\n{\n','find_label(std::string_view label) const\n{\n    label = label.substr(0, 31);\n')],
 same('loop_over_every_light_of_the_scene_1:\nNOP;\nloop_over_every_light_of_the_scene_2:\nBRA loop_over_every_light_of_the_scene_1;\nBRA loop_over_every_light_of_the_scene_2;'))
mk('write-barrier-default','C08','a read barrier without a write barrier',
 'an instruction with only a read barrier also gets a write barrier',
 [('src/parse.cpp','.write_barrier = write_barrier.value_or(7)','.write_barrier = write_barrier.value_or(read_barrier.value_or(7))')],
 same('STG [R2], R4 @RB 3;'))
mk('padding-control','C09','a program whose length is no multiple of three; only its control word shows it',
 'the first padding instruction has the control bits of an empty opcode instead of those of padding',
 [('src/nxas.cpp','if (index + address >= num_instructions) {','if (index + address > num_instructions) {')],
 same('NOP;\nNOP;\nNOP;\nNOP;'))
mk('octal','C10','an integer in octal notation',
 'a number with a leading zero is read as decimal',
 [('src/context.cpp','std::strtoll(contents, &conversion_end, 0)','std::strtoll(contents, &conversion_end, has_hex ? 0 : 10)')],
 same('MOV32I R1, 0777;\nMOV32I R1, -0x0;' if 0 else 'MOV32I R1, 0777;'))
mk('open-absolute','C11','an absolute value without its closing bar',
 'an operand with only the opening bar is accepted',
 [('src/operand.h','''    if (is_absolute) {
        CHECK(confirm_type(token, token_type::vbar));
        token = ctx.tokenize();''','''    if (is_absolute && token.type == token_type::vbar) {
        token = ctx.tokenize();''')],
 rejected('FADD R1, |R2, R3;'))
mk('reuse-kept','C12','a statement with .reuse on the first source whose first form fails after it',
 'the reuse flags of a form that did not fit stay set',
 [('src/parse.cpp','        op = saved_op;','        op.value = saved_op.value;')],
 same('FADD R1, R2.reuse, c[0x1][0x4];\nMOV R1, R2;'))
mk('f2f-table-end','C14','an unknown modifier in the place of the rounding of F2F between formats',
 'the table of rounding modes has no end',
 [('src/operand.h','''        static const char* table[] = {"RN", "RM", "RP", "RZ", nullptr};
        const std::optional result''','''        static const char* table[] = {"RN", "RM", "RP", "RZ"};
        const std::optional result''')],
 '''# what lies behind each table is made to be no address
for f in src/*.cpp; do
    python3 "$here/guard.py" g++ -std=c++20 -O1 -Iinclude -Isrc -c "$f" -o "$w/$(basename "$f").o" || exit 1
done
g++ "$w"/*.o -o "$w/nxas" || exit 1
echo 'F2F.F32.F16.QQ R1, R2;' > "$w/a.sass"
"$w/nxas" "$w/a.sass" -o "$w/a.bin" 2> "$w/err"; rc=$?
[ $rc = 1 ] || { echo "exit $rc"; exit 1; }
''',{'guard.py':open('/verif/driver/guard.py').read()})
mk('entry-16-bits','C15','a container whose entry point lies more than 64 KiB into the code',
 'the entry point is cut to 16 bits',
 [('src/dksh.cpp','program_header.entrypoint = *entrypoint_code_offset - 8;','program_header.entrypoint = static_cast<uint16_t>(*entrypoint_code_offset - 8);')],
 '''(echo .dksh compute; yes 'NOP;' | head -n 9000; echo main:; echo 'EXIT;') > "$w/a.sass"
./_build/nxas "$w/a.sass" -o "$w/a.bin" || exit 1
# bytes 28 to 31 of the header
[ "$(od -An -tu4 -j28 -N4 "$w/a.bin" | tr -d ' ')" = 96000 ] || { od -An -tu4 -N64 "$w/a.bin"; exit 1; }
''')
mk('second-type','C16','two .type options without a container',
 'a second shader type replaces the first instead of being rejected',
 [('src/options.cpp','        if (type) {','        if (type && is_dksh) {')],
 rejected('.type vertex\n.type compute\nNOP;','2:1'))
mk('stale-tail','C17','an output file that exists and is longer than the image',
 'an existing output file is overwritten in place, what lay behind the image stays',
 [('src/command_line.cpp','        std::ofstream outfp(output_file, std::ios::binary);\n','        const std::ios::openmode mode = std::ifstream(output_file).is_open()\n                                            ? std::ios::binary | std::ios::in | std::ios::out\n                                            : std::ios::binary | std::ios::out;\n        std::ofstream outfp(output_file, mode);\n')],
 '''echo 'NOP;' > "$w/a.sass"; head -c 100 /dev/zero > "$w/a.bin"
./_build/nxas "$w/a.sass" -o "$w/a.bin" || exit 1
[ "$(stat -c %s "$w/a.bin")" = 32 ]
''')
mk('option-prefix','C17','an input file whose name begins with -o',
 'every argument that begins with -o is taken for -o',
 [('src/command_line.cpp','if (std::strcmp(argv[i], "-o") == 0) {','if (std::strncmp(argv[i], "-o", 2) == 0) {')],
 '''echo 'NOP;' > "$w/-old.sass"; bin=$PWD/_build/nxas; cd "$w"
"$bin" -old.sass -o a.bin || exit 1
[ "$(stat -c %s a.bin)" = 32 ]
''')
def says(text,what):
    return '''cat > "$w/a.sass" <<'EOF'
%s
EOF
./_build/nxas "$w/a.sass" -o "$w/a.bin" 2> "$w/err" && exit 1
sed 's/\\x1b\\[[0-9;]*m//g' "$w/err" | grep -qF -- '%s' || { cat "$w/err"; exit 1; }
''' % (text, what)
mk('range-32-bits','C19','a 32-bit immediate that is out of range',
 'the range that a diagnostic names is cut to 32 bits',
 [('src/helper.cpp','                    value, min, max);','                    value, min, static_cast<int64_t>(static_cast<int32_t>(max)));')],
 says('MOV32I R1, 0x100000000;', '4294967295'))
mk('mnemonic-cut','C19','an unknown mnemonic of more than 24 characters',
 'the diagnostic quotes only the beginning of a long mnemonic',
 [('src/parse.cpp','"unknown mnemonic \\33[1m%.*s\\33[0m", std::size(token.data.string),','"unknown mnemonic \\33[1m%.*s\\33[0m", std::min<size_t>(24, std::size(token.data.string)),')],
 says('this_is_a_mnemonic_with_a_long_name R1;', 'this_is_a_mnemonic_with_a_long_name'))
PROG='''#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include "nxas.h"
'''
RUN='''g++ -std=c++20 -O1 -pthread -Iinclude "$here/demo.cpp" _build/libnxas_lib.a -o "$w/demo" || exit 1
timeout 120 "$w/demo"
'''
mk('mnemonic-cache','C18','a second call whose text lies at the address of an earlier one, with another mnemonic in the same place',
 'the place of a mnemonic in the table is remembered by the address of the word, across calls',
 [('src/parse.cpp','''    const size_t num_insns = sizeof(table) / sizeof(table[0]);
    for (size_t i = 0; i < num_insns; ++i) {
        const insn& insn = table[i];
        if (!equal(token, insn.mnemonic)) {
            continue;
        }
''','''    const size_t num_insns = sizeof(table) / sizeof(table[0]);
    // statements are often tried again, remember where the mnemonic starts
    static thread_local const char* known = nullptr;
    static thread_local size_t first = 0;
    const bool is_known = known == token.data.string.data();
    for (size_t i = is_known ? first : 0; i < num_insns; ++i) {
        const insn& insn = table[i];
        if (!equal(token, insn.mnemonic)) {
            continue;
        }
        if (known != token.data.string.data()) {
            known = token.data.string.data();
            first = i;
        }
''')],RUN,{'demo.cpp':PROG+'''
int main()
{
    std::string text = "NOP;                    ";
    const auto nop = nxas::assemble(text, "a");
    text = "EXIT;                   ";
    const auto exit1 = nxas::assemble(text, "a");
    text = "MOV R1, R2;             ";
    text.replace(0, text.size(), "AL2P R0, R5;            ");
    const auto al2p = nxas::assemble(text, "a");
    return nop.size() == 4 && exit1.size() == 4 && al2p.size() == 4 ? 0 : 1;
}
'''})
mk('label-buffer','C18','two threads that read labels at the same time',
 'labels are read into one buffer that all threads share',
 [('src/context.cpp','            std::string label;\n','            // avoids an allocation for each label\n            static std::string label;\n            label.clear();\n')],
 RUN,{'demo.cpp':PROG+'''
int main()
{
    std::vector<std::thread> threads;
    bool good[4]{};
    for (int t = 0; t < 4; ++t) {
        threads.emplace_back([t, &good] {
            std::string text, name = "label_of_thread_number_" + std::string(20 + t, 'a' + t);
            for (int i = 0; i < 2000; ++i) {
                text += name + std::to_string(i) + ":\\nBRA " + name + std::to_string(i) + ";\\n";
            }
            const auto first = nxas::assemble(text, "a");
            good[t] = true;
            for (int i = 0; i < 20; ++i) {
                good[t] = good[t] && nxas::assemble(text, "a") == first;
            }
        });
    }
    for (auto& thread : threads) {
        thread.join();
    }
    return good[0] && good[1] && good[2] && good[3] ? 0 : 1;
}
'''})
mk('line-16-bits','C13','an error after line 65536',
 'line numbers are kept in 16 bits',
 [('src/token.h','    int line;\n    int column;','    uint16_t line;\n    int column;')],
 '''(yes '' | head -n 70000; echo 'BAD;') > "$w/a.sass"
./_build/nxas "$w/a.sass" -o "$w/a.bin" 2> "$w/err" && exit 1
sed 's/\\x1b\\[[0-9;]*m//g' "$w/err" | grep -q ':70001:1: error'
''')
mk('line-counted','C14','a long text: nothing but the time it takes shows it',
 'the line of a word is counted from the start of the text, which takes time quadratic in its length',
 [('src/context.cpp','    token.filename = filename;\n    token.line = line;\n    token.column = column;\n\n    if (!*text)','    token.filename = filename;\n    token.line = static_cast<int>(std::count(text_begin, text, \'\\n\'));\n    token.column = column;\n\n    if (!*text)')],
 '''yes 'NOP;' | head -n 150000 > "$w/a.sass"
timeout 20 ./_build/nxas "$w/a.sass" -o "$w/a.bin" || exit 1
''')
mk('name-cached','C18','a program whose statements need more than one form, then a text with an error under another file name at the same address',
 'the diagnostic of a later call carries the file name of an earlier one',
 [('src/error.cpp','    const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);','''    // the name is the same for a whole file
    static thread_local const char* last;
    static thread_local std::string name;
    if (token.filename != last) {
        last = token.filename;
        name = token.filename;
    }
    const int first_length = std::snprintf(NULL, 0, errfmt, name.c_str(), line, column);'''),
  ('src/error.cpp','std::snprintf(error.message.get(), length, errfmt, token.filename, line, column);','std::snprintf(error.message.get(), length, errfmt, name.c_str(), line, column);'),
  ('src/error.cpp','#include <cstdlib>\n','#include <cstdlib>\n#include <string>\n')],
 RUN.replace('timeout 120 "$w/demo"','timeout 120 "$w/demo" 2> "$w/err"; grep -q second "$w/err"'),{'demo.cpp':PROG+'''#include <cstring>
int main()
{
    char name[16] = "first";
    nxas::assemble("MOV R1, 5;", name);
    strcpy(name, "second");
    nxas::assemble("MOV R1, [R2];", name);
}
'''})
