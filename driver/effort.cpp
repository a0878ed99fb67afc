// Assembles one text, for a tool that counts instructions, and records the most
// memory that was held at a time.
//
//   effort TEXT OUT
//
// OUT: "<KiB>\n", also if the library ends the process.
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>

#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>

#include "nxas.h"

static size_t held, most;
static const char* out;

static void* take(size_t size)
{
    void* const p = malloc(size ? size : 1);
    if (!p)
        abort();
    held += malloc_usable_size(p);
    most = held > most ? held : most;
    return p;
}

static void give(void* p)
{
    held -= p ? malloc_usable_size(p) : 0;
    free(p);
}

void* operator new(size_t size) { return take(size); }
void* operator new[](size_t size) { return take(size); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

static void report()
{
    char line[32];
    const int n = snprintf(line, sizeof line, "%zu\n", most >> 10);
    const int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, line, static_cast<size_t>(n)) != n)
        abort();
    close(fd);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    out = argv[2];
    std::string text;
    if (FILE* const file = fopen(argv[1], "rb")) {
        static char buffer[65536];
        for (size_t n; (n = fread(buffer, 1, sizeof buffer, file)) > 0;)
            text.append(buffer, n);
        fclose(file);
    } else {
        return 2;
    }
    text.shrink_to_fit();
    atexit(report);
    nxas::assemble(text, "in.sass");
    return 0;
}
