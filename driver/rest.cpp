// Assembles the same programs again and again and records what stays behind.
//
//   rest CASES OUT ROUNDS
//
// CASES: records "<length>\n<bytes>", all of them programs
// OUT: "<bytes in use> <open files>\n" after each round
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

#include <dirent.h>
#include <malloc.h>

#include "nxas.h"

static size_t open_files()
{
    size_t count = 0;
    if (DIR* const dir = opendir("/proc/self/fd")) {
        while (readdir(dir))
            ++count;
        closedir(dir);
    }
    return count;
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    std::string cases;
    if (FILE* const file = fopen(argv[1], "rb")) {
        static char buffer[65536];
        for (size_t n; (n = fread(buffer, 1, sizeof buffer, file)) > 0;)
            cases.append(buffer, n);
        fclose(file);
    } else {
        return 2;
    }
    std::vector<std::string> texts;
    for (size_t pos = 0; pos < cases.size();) {
        const size_t eol = cases.find('\n', pos);
        const size_t length = strtoul(cases.c_str() + pos, nullptr, 10);
        texts.push_back(cases.substr(eol + 1, length));
        pos = eol + 1 + length;
    }
    FILE* const out = fopen(argv[2], "w");
    if (!out)
        return 2;
    static char out_buffer[65536];
    setvbuf(out, out_buffer, _IOFBF, sizeof out_buffer);
    for (int round = atoi(argv[3]); round; --round) {
        for (const std::string& text : texts)
            nxas::assemble(text, "in.sass");
        const struct mallinfo2 info = mallinfo2();
        fprintf(out, "%zu %zu\n", info.uordblks + info.hblkhd, open_files());
    }
    return fclose(out) ? 2 : 0;
}
