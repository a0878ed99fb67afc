// Runs texts through the assembler library, each in a process of its own, and
// records what came of it. Knows nothing about the language.
//
//   driver CASES OUT [cpu seconds] [address space in MiB, 0: no limit] [filename]
//
// CASES: records "<length>\n<bytes>"; OUT: records of
//   u32 kind     0 image, 1 exit(1), 2 other exit, 3 signal, 4 ran out of time,
//                5 not run, because too many before it ran out of time
//   u32 detail   exit code or signal
//   u32 words    u64 each
//   u32 length   of what was written to stderr, then the bytes
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "nxas.h"

static std::string read_all(int fd)
{
    std::string out;
    char buffer[65536];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, buffer, sizeof buffer)) > 0;)
        out.append(buffer, static_cast<size_t>(n));
    return out;
}

static void put32(std::string& out, uint32_t value)
{
    out.append(reinterpret_cast<const char*>(&value), 4);
}

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
// Another environment and another time, for whatever asks for them.
extern "C" char** environ;

static char* look_up(const char* name)
{
    const size_t length = strlen(name);
    for (char** e = environ; e && *e; ++e)
        if (!strncmp(*e, name, length) && (*e)[length] == '=')
            return *e + length + 1;
    return nullptr;
}

extern "C" char* getenv(const char* name) noexcept
{
    char* const value = look_up(name);
    return value ? value : look_up("NXV_ENVIRONMENT");
}

extern "C" char* secure_getenv(const char* name) noexcept
{
    return getenv(name);
}

static long later()
{
    return look_up("NXV_LATER") ? 20L * 365 * 86400 + 12345 : 0;
}

extern "C" int clock_gettime(clockid_t id, struct timespec* out) noexcept
{
    const long r = syscall(SYS_clock_gettime, id, out);
    out->tv_sec += later();
    return static_cast<int>(r);
}

extern "C" int gettimeofday(struct timeval* out, void*) noexcept
{
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    out->tv_sec = now.tv_sec;
    out->tv_usec = now.tv_nsec / 1000;
    return 0;
}

extern "C" time_t time(time_t* out) noexcept
{
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    if (out)
        *out = now.tv_sec;
    return now.tv_sec;
}
#else
static char* look_up(const char* name)
{
    return getenv(name);
}
#endif

static std::string load(const char* path)
{
    std::string out;
    if (const int fd = open(path, O_RDONLY); fd >= 0) {
        out = read_all(fd);
        close(fd);
    } else {
        _exit(2);
    }
    return out;
}

// the next of the records at pos
static std::string next_case(const std::string& cases, size_t& pos)
{
    const size_t eol = cases.find('\n', pos);
    const size_t length = strtoul(cases.c_str() + pos, nullptr, 10);
    if (eol == std::string::npos || eol + 1 + length > cases.size())
        _exit(2);
    pos = eol + 1 + length;
    return cases.substr(eol + 1, length);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    const rlim_t cpu = argc > 3 ? strtoul(argv[3], nullptr, 10) : 20;
    const rlim_t mib = argc > 4 ? strtoul(argv[4], nullptr, 10) : 0;
    const char* const filename = argc > 5 ? argv[5] : "in.sass";

    // the locale of a program that uses the library
    if (const char* const locale = look_up("NXV_LOCALE"); locale && !setlocale(LC_ALL, locale))
        return 2;

    // No stdio here: a child that calls exit() would flush or rewind it.
    const std::string cases = load(argv[1]);
    std::vector<std::string> before;
    if (const char* const path = look_up("NXV_BEFORE_FILE")) {
        const std::string file = load(path);
        for (size_t pos = 0; pos < file.size();)
            before.push_back(next_case(file, pos));
    }
    const size_t calls_before = look_up("NXV_BEFORE") ? strtoul(look_up("NXV_BEFORE"), nullptr, 10) : 0;
    size_t next_before = 0;
    std::string out;

    const int words_fd = memfd_create("words", 0);
    const int err_fd = memfd_create("err", 0);
    if (words_fd < 0 || err_fd < 0)
        return 2;

    int hangs = 0;
    for (size_t pos = 0; pos < cases.size();) {
        const std::string text = next_case(cases, pos);
        next_before += calls_before;
        if (hangs == 2) {
            put32(out, 5);
            put32(out, 0);
            put32(out, 0);
            put32(out, 0);
            continue;
        }
        if (ftruncate(words_fd, 0) || ftruncate(err_fd, 0))
            return 2;
        lseek(words_fd, 0, SEEK_SET);
        lseek(err_fd, 0, SEEK_SET);

        const pid_t pid = fork();
        if (pid < 0)
            return 2;
        if (pid == 0) {
            struct rlimit limit { cpu, cpu + 1 };
            setrlimit(RLIMIT_CPU, &limit);
            limit = {0, 0};
            setrlimit(RLIMIT_CORE, &limit);
            if (mib) {
                limit = {mib << 20, mib << 20};
                setrlimit(RLIMIT_AS, &limit);
            }
            alarm(static_cast<unsigned>(cpu * 4));
            dup2(err_fd, 2);
            const int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(null, 1);
            // every other time at the same address as the calls before
            const bool same_place = calls_before && next_before / calls_before % 2;
            std::string place, name;
            if (calls_before && !before.empty()) {
                size_t longest = text.size();
                for (const std::string& b : before)
                    longest = b.size() > longest ? b.size() : longest;
                place.reserve(longest);
                name.reserve(strlen(filename) + 64);
                for (size_t i = 0; i < calls_before; ++i) {
                    place = before[(next_before + i) % before.size()];
                    name = i % 3 ? "before.sass" : "another/name.s";
                    nxas::assemble(place, name.c_str());
                }
                place = text;
                name = filename;
                errno = ERANGE; // as a caller may leave it
            }
            const std::vector<uint64_t> words =
                same_place ? nxas::assemble(place, name.c_str()) : nxas::assemble(text, filename);
            // a marker first: an image can be empty
            const uint64_t marker = 0x6b6f;
            if (write(words_fd, &marker, 8) != 8)
                _exit(99);
            const char* data = reinterpret_cast<const char*>(words.data());
            size_t left = words.size() * 8;
            while (left) {
                const ssize_t n = write(words_fd, data, left);
                if (n <= 0)
                    _exit(99);
                data += n;
                left -= static_cast<size_t>(n);
            }
            _exit(42);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0)
            if (errno != EINTR)
                return 2;

        const std::string words = read_all(words_fd);
        std::string err = read_all(err_fd);
        if (err.size() > 65536)
            err.resize(65536);
        uint32_t kind, detail;
        if (WIFEXITED(status)) {
            detail = static_cast<uint32_t>(WEXITSTATUS(status));
            kind = detail == 42 && words.size() >= 8 ? 0 : detail == 1 ? 1 : 2;
            if (detail == 99)
                return 2;
        } else {
            detail = static_cast<uint32_t>(WTERMSIG(status));
            kind = detail == SIGXCPU || detail == SIGALRM || detail == SIGKILL ? 4 : 3;
            hangs += kind == 4;
        }
        put32(out, kind);
        put32(out, detail);
        const size_t count = kind == 0 ? words.size() / 8 - 1 : 0;
        put32(out, static_cast<uint32_t>(count));
        if (count)
            out.append(words, 8, count * 8);
        put32(out, static_cast<uint32_t>(err.size()));
        out += err;
    }
    const int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return 2;
    for (size_t done = 0; done < out.size();) {
        const ssize_t n = write(fd, out.data() + done, out.size() - done);
        if (n <= 0)
            return 2;
        done += static_cast<size_t>(n);
    }
    return close(fd) ? 2 : 0;
}
