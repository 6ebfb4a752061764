// Checks of the filter's properties: exhaustive enumeration of bounded histories of the real filter.
#include "scen.hpp"
#include "fplan.hpp"
using namespace vf;

int main(int argc, char **argv) {
    parse_args(argc, argv); init_shm();
    Plan plan = make_plan(opt.prop, opt.tier == "thorough");
    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay); std::stringstream ss; ss << f.rdbuf();
        const string why = isolated([&] { replay_history(ss.str(), plan.oracle); }, 60);
        printf("%s\n", why.empty() ? "history holds" : why.c_str());
        return why.empty() ? 0 : 1;
    }
    vector<Job> jobs; vector<string> samples;
    for (auto &s : plan.scenarios) {
        if (!opt.only.empty() && s.name.find(opt.only) == string::npos) continue;
        if (s.ramp) jobs.push_back({s.name, [s, &plan] { Explorer e; e.s = s; e.oracle = plan.oracle; e.run(); }});
        else for (size_t i = 0; i < s.alphabet.size(); i++)
            jobs.push_back({s.name + strf(" #%zu", i), [s, i, &plan] { Explorer e; e.s = s; e.oracle = plan.oracle; e.first = i; e.run(); }});
    }
    if (opt.list) { for (auto &j : jobs) puts(j.name.c_str()); return 0; }
    if (getenv("VF_PROFILE")) opt.workers = 1;
    auto r = run_jobs(jobs, [&](const string &t) { replay_history(t, plan.oracle); });
    for (size_t i = 0; i < plan.scenarios.size() && samples.size() < 6; i += 1 + plan.scenarios.size() / 6) {
        auto s = plan.scenarios[i]; vector<Op> ops; if (s.ramp) ops.assign(s.ops.begin(), s.ops.begin() + std::min<size_t>(s.ops.size(), 8)); else for (size_t k = 0; k < s.alphabet.size() && (int) k < s.depth; k++) ops.push_back(s.alphabet[k]);
        samples.push_back(s.name + ": " + oneline(history_text(s.cfg, ops)).substr(0, 600));
    }
    // histories that are known to fail are replayed one by one
    for (auto &k : load_known(opt.prop)) {
        string d; for (size_t i = 0; i < k.first.size(); i++) { if (k.first.compare(i, 3, " | ") == 0) { d += '\n'; i += 2; } else d += k.first[i]; }
        const string why = isolated([&] { replay_history(d, plan.oracle); }, 20);
        if (!why.empty()) r.findings.push_back({d, why});
    }
    return report(r, samples, plan.bounds, "single-threaded use; the coin of each insert is an input of the exploration (standard random engine replaced); slab blocks of the index are 32 KB instead of 2 MB; distinct sorted keys for the bulk loaders; only present keys are deleted");
}
