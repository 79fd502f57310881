// -DLIB=LX|LS
#include "uniq.hpp"
using namespace hv;
using Lib = LIB;
int main(int argc, char** argv) {
    out.init(argc, argv);
    static UEng<Lib> e;
    ue<Lib> = &e;
    out.before_finish = [] { ue<Lib>->report(); };
    out.run([&](long c) {
        e.run_case(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (e.n_disp) out.hash(e.cov);
        if (out.want_sample()) {
            char b[900];
            snprintf(b, sizeof b, "case %ld [%s]: %.800s", c, Lib::name, e.trace);
            out.sample(b);
        }
        out.stat("cases");
    });
    return 0;
}
