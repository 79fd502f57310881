// -DPOLICY=PAtomic|PTrackMT|PStd, -DREAL for real threads
#include "conc.hpp"
using namespace hv;
using Pol = POLICY;

static Conc<Pol> g_conc;

int main(int argc, char** argv) {
    out.init(argc, argv);
    be::init();
    conc<Pol> = &g_conc;
    g_conc.prof = out.args.profile;
    out.before_finish = [] { g_conc.report(); };
    out.run([&](long c) {
        g_conc.run_case(mix(out.args.seed * 1000003ull + uint64_t(c)));
        out.stat("cases");
    });
    return 0;
}
