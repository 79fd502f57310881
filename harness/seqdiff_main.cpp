// The same programs with the standard pointers and with xmem's, observations compared.
#include "seq.hpp"
using namespace hv;

template <typename P>
static void compare(Eng<PStd>& a, Eng<P>& b) {
    int n = a.nobs < b.nobs ? a.nobs : b.nobs;
    int i = 0;
    while (i < n && a.obsq[i].slot == b.obsq[i].slot && a.obsq[i].a == b.obsq[i].a && a.obsq[i].b == b.obsq[i].b && a.obsq[i].c == b.obsq[i].c) ++i;
    if (i == n && a.nobs == b.nobs && a.obs == b.obs) return;
    if (i == n) out.violation("diff.length", "std makes %d observations, %s %d", a.nobs, P::name, b.nobs);
    auto& x = a.obsq[i];
    auto& y = b.obsq[i];
    a.trace[x.at] = 0;
    const char* tail = strlen(a.trace) > 300 ? a.trace + strlen(a.trace) - 300 : a.trace;
    if (a.cov != b.cov && x.slot != y.slot) out.violation("harness", "programs diverge: %s", tail);
    out.violation("diff.observation", "observation %d differs: std %s of %d: %ld %ld %ld, xmem %s %s of %d: %ld %ld %ld; after ... %s", i,
        x.what, x.slot, x.a, x.b, x.c, P::name, y.what, y.slot, y.a, y.b, y.c, tail);
}
static long long n_obs;

int main(int argc, char** argv) {
    out.init(argc, argv);
    am_install();
    static Eng<PStd> s;
    static Eng<PAtomic> a;
    static Eng<PLocal> l;
    eng<PStd> = &s;
    eng<PAtomic> = &a;
    eng<PLocal> = &l;
    s.prof = a.prof = l.prof = make_profile(out.args.profile);
    out.before_finish = [] { out.stat("observations_compared", n_obs); eng<PStd>->report(); };
    out.run([&](long c) {
        uint64_t seed = mix(out.args.seed * 1000003ull + uint64_t(c));
        s.run_case(seed);
        a.run_case(seed);
        l.run_case(seed);
        if (s.n_disposals) out.hash(mix(s.cov ^ s.obs));
        if (out.want_sample()) {
            char b[900];
            snprintf(b, sizeof b, "case %ld [%d observations]: %.800s", c, s.nobs, s.trace);
            out.sample(b);
        }
        n_obs += s.nobs;
        compare(s, a);
        compare(s, l);
        out.stat("cases");
    });
    return 0;
}
