// Linearizability checker (Wing-Gong search with memoisation) for short histories.
#pragma once
#include "common.hpp"

namespace lin {

struct Op {
    int kind;           // meaning is the model's
    int64_t a, b;       // arguments
    int64_t r, r2;      // results
    uint64_t call, ret;
    int thread;
};
constexpr int MAXOPS = 62;

// step(state, op, next): may op, as observed, take effect in state?
template <typename Step>
struct Checker {
    const Op* ops;
    int n;
    Step step;
    hv::HashSet seen;
    long nodes = 0;
    uint64_t pred[MAXOPS];      // operations which returned before this one was called
    int64_t final_state = 0;
    int order[MAXOPS];

    bool run(int64_t init) {
        for (int i = 0; i < n; ++i) {
            pred[i] = 0;
            for (int k = 0; k < n; ++k) if (k != i && ops[k].ret < ops[i].call) pred[i] |= 1ull << k;
        }
        return dfs(0, init, 0);
    }
    bool dfs(uint64_t done, int64_t s, int depth) {
        if (depth == n) { final_state = s; return true; }
        if (++nodes > 400000) return true;      // gave up: inconclusive, counted by the caller
        uint64_t h = hv::mix(done ^ hv::mix(uint64_t(s) + 0x1234567));
        size_t before = seen.n;
        seen.insert(h);
        if (seen.n == before) return false;
        for (int i = 0; i < n; ++i) {
            if (done >> i & 1) continue;
            if (pred[i] & ~done) continue;
            int64_t ns = s;
            if (!step(s, ops[i], ns)) continue;
            order[depth] = i;
            if (dfs(done | 1ull << i, ns, depth + 1)) return true;
        }
        return false;
    }
    ~Checker() { if (seen.t) munmap(seen.t, seen.cap * 8); }
};

} // namespace lin
