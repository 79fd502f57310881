// counts the distinct 64 bit hashes in the given files
#include "common.hpp"
int main(int argc, char** argv) {
    hv::HashSet s;
    for (int i = 1; i < argc; ++i) {
        FILE* f = fopen(argv[i], "rb");
        if (!f) continue;
        static uint64_t b[4096];
        size_t n;
        while ((n = fread(b, 8, 4096, f)) > 0) for (size_t k = 0; k < n; ++k) s.insert(b[k]);
        fclose(f);
    }
    printf("%zu\n", s.n);
}
