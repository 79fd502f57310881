// Shared plumbing of all harnesses: random numbers, statistics, verdict output.
//
// Protocol on stdout (parsed by bin/check.py):
//   @V <key>\t<message>     a violated oracle (key names the violation class)
//   @K <key>\t<message>     a probe of a recorded known finding fired
//   @S <name> <number>      statistic, summed over all shards
//   @M <text>               a sample case, written out
// Distinct-case hashes go to the file given with --hashes (8 bytes each).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace hv {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// set of 64 bit hashes (no std containers: must be usable with MSan and without
// disturbing the allocation monitors)
struct HashSet {
    uint64_t* t = nullptr;
    size_t cap = 0, n = 0;
    void insert(uint64_t h) {
        if (!h) h = 1;
        if (n * 2 >= cap) grow();
        size_t i = h & (cap - 1);
        while (t[i]) {
            if (t[i] == h) return;
            i = (i + 1) & (cap - 1);
        }
        t[i] = h;
        ++n;
    }
    void grow() {
        size_t oc = cap;
        uint64_t* o = t;
        cap = cap ? cap * 2 : 512;
        t = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        n = 0;
        for (size_t i = 0; i < oc; ++i) if (o[i]) insert(o[i]);
        if (o) munmap(o, oc * 8);
    }
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // uniform in [0, n)
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * uint64_t(n) >> 32) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

struct Args {
    uint64_t seed = 1;
    long cases = 100;
    long from = 0;      // first case index
    long step = 1;      // stride between cases (for sharding)
    long only = -1;     // run just this case, verbosely
    const char* profile = "all";
    bool is(const char* p) const { return !strcmp(profile, p); }
    const char* hashes = nullptr;
    const char* progress = nullptr;
    bool verbose = false;
};

struct Out {
    Args args;
    struct Stat { const char* name; long long v; } stats[256];
    int nstats = 0;
    HashSet hashes;
    int samples = 0;
    volatile long* progress = nullptr;
    long current = -1;
    FILE* out = stdout;
    void (*before_finish)() = nullptr;

    void init(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            const char* v = argv[i + 1];
            auto eq = [&](const char* n) { return !strcmp(argv[i], n); };
            if (eq("--seed")) args.seed = strtoull(v, nullptr, 10);
            else if (eq("--cases")) args.cases = atol(v);
            else if (eq("--from")) args.from = atol(v);
            else if (eq("--step")) args.step = atol(v);
            else if (eq("--only")) args.only = atol(v);
            else if (eq("--profile")) args.profile = v;
            else if (eq("--hashes")) args.hashes = v;
            else if (eq("--progress")) args.progress = v;
            else if (eq("--verbose")) args.verbose = atol(v) != 0;
            else { fprintf(stderr, "bad argument %s\n", argv[i]); exit(3); }
        }
        setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
        if (args.progress) {
            int fd = open(args.progress, O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) progress = static_cast<volatile long*>(p);
            }
        }
    }
    // iterate over the cases of this shard
    template <typename F>
    void run(F f) {
        if (args.only >= 0) {
            args.verbose = true;
            begin_case(args.only);
            f(args.only);
            end_case();
        }
        else {
            for (long i = 0; i < args.cases; ++i) {
                long c = args.from + i * args.step;
                begin_case(c);
                f(c);
                end_case();
            }
        }
        finish();
    }
    void begin_case(long c) {
        current = c;
        if (progress) progress[0] = c;
    }
    long long& stat_ref(const char* name) {
        for (int i = 0; i < nstats; ++i) if (stats[i].name == name || !strcmp(stats[i].name, name)) return stats[i].v;
        stats[nstats] = {name, 0};
        return stats[nstats++].v;
    }
    void stat(const char* name, long long n = 1) { stat_ref(name) += n; }
    // what a case did: several calls in a case count as one
    uint64_t case_hash = 0;
    void hash(uint64_t h) { case_hash = case_hash * 0x9e3779b97f4a7c15ull + h + 1; }
    void end_case() {
        if (case_hash) hashes.insert(case_hash);
        case_hash = 0;
    }
    bool want_sample() const { return samples < 2; }
    void sample(const char* s) {
        if (samples++ < 2) { fprintf(out, "@M %s\n", s); }
    }
    void finish() {
        if (auto f = before_finish) { before_finish = nullptr; f(); }
        for (int i = 0; i < nstats; ++i) fprintf(out, "@S %s %lld\n", stats[i].name, stats[i].v);
        if (args.hashes) {
            if (FILE* f = fopen(args.hashes, "wb")) {
                for (size_t i = 0; i < hashes.cap; ++i) if (hashes.t[i]) fwrite(&hashes.t[i], 8, 1, f);
                fclose(f);
            }
        }
        fflush(out);
    }
    [[noreturn]] __attribute__((format(printf, 3, 4))) void violation(const char* key, const char* f, ...) {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        fprintf(out, "@V %s\t%s (case %ld)\n", key, buf, current);
        finish();
        _exit(10);
    }
};

inline Out out;

} // namespace hv
