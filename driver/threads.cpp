// Calls the assembler many times in one process and records every result.
// The texts have to be programs: the library ends the process otherwise.
//
//   threads CASES OUT THREADS ROUNDS SEED
//
// Each thread assembles all the texts ROUNDS times, each time in another order.
// CASES: records "<length>\n<bytes>"; OUT: for each call
//   u32 thread, u32 text, u32 words, u64 each
// A process that ends before its last call leaves no OUT.
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "nxas.h"

int main(int argc, char** argv)
{
    if (argc < 6)
        return 2;
    std::string cases;
    if (FILE* const file = fopen(argv[1], "rb")) {
        char buffer[65536];
        for (size_t n; (n = fread(buffer, 1, sizeof buffer, file)) > 0;)
            cases.append(buffer, n);
        fclose(file);
    } else {
        return 2;
    }
    std::vector<std::string> texts;
    for (size_t pos = 0; pos < cases.size();) {
        const size_t eol = cases.find('\n', pos);
        const size_t length = strtoul(cases.c_str() + pos, nullptr, 10);
        texts.push_back(cases.substr(eol + 1, length));
        pos = eol + 1 + length;
    }
    const unsigned num_threads = static_cast<unsigned>(atoi(argv[3]));
    const unsigned rounds = static_cast<unsigned>(atoi(argv[4]));
    const unsigned seed = static_cast<unsigned>(atoi(argv[5]));

    size_t longest = 0;
    for (const std::string& text : texts)
        longest = std::max(longest, text.size());

    struct call
    {
        uint32_t text;
        std::vector<uint64_t> words;
    };
    std::vector<std::vector<call>> calls(num_threads);
    const auto work = [&](unsigned id) {
        std::mt19937 rng(seed * 1000 + id);
        std::string place;
        place.reserve(longest);
        std::vector<uint32_t> order(texts.size());
        for (uint32_t i = 0; i < order.size(); ++i)
            order[i] = i;
        for (unsigned round = 0; round < rounds; ++round) {
            for (size_t i = order.size(); i > 1; --i)
                std::swap(order[i - 1], order[rng() % i]);
            for (const uint32_t text : order) {
                errno = rng() % 2 ? ERANGE : 0;
                const std::string name = "file" + std::to_string(rng() % 100);
                // mostly in the place of the call before
                place.assign(texts[text]);
                calls[id].push_back({text, nxas::assemble(rng() % 8 ? place : texts[text], name.c_str())});
            }
        }
    };
    if (num_threads == 1) {
        work(0);
    } else {
        std::vector<std::thread> threads;
        for (unsigned id = 0; id < num_threads; ++id)
            threads.emplace_back(work, id);
        for (std::thread& thread : threads)
            thread.join();
    }

    FILE* const out = fopen(argv[2], "wb");
    if (!out)
        return 2;
    for (uint32_t id = 0; id < num_threads; ++id) {
        for (const call& c : calls[id]) {
            const uint32_t words = static_cast<uint32_t>(c.words.size());
            fwrite(&id, 4, 1, out);
            fwrite(&c.text, 4, 1, out);
            fwrite(&words, 4, 1, out);
            fwrite(c.words.data(), 8, words, out);
        }
    }
    return fclose(out) ? 2 : 0;
}
