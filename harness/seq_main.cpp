// one policy of the sequential engine; -DPOLICY=PAtomic|PLocal|PTrack|PStd
#include "seq.hpp"
using namespace hv;
using Pol = POLICY;

int main(int argc, char** argv) {
    out.init(argc, argv);
    am_install();
    static Eng<Pol> e;
    eng<Pol> = &e;
    e.prof = make_profile(out.args.profile);
    out.before_finish = [] { eng<Pol>->report(); };
    out.run([&](long c) {
        e.run_case(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (e.n_disposals) out.hash(mix(e.cov ^ e.obs));
        if (out.want_sample()) {
            char b[900];
            snprintf(b, sizeof b, "case %ld [%s/%s]: %.800s", c, Pol::name, out.args.profile, e.trace);
            out.sample(b);
        }
        out.stat("cases");
    });
    return 0;
}
