struct Item { Prog p; int bound; uint64_t cap; };
static vector<Op> ops(const char *s) { vector<Op> r; std::istringstream ls(s); string o; while (std::getline(ls, o, ';')) { Op x; if (sscanf(o.c_str(), " %c %d %d", &x.c, &x.a, &x.b) >= 1) r.push_back(x); } return r; }
struct Ground { const char *name; vector<Pre> pre; vector<const char *> bodies, pairs; bool raw = false; };
static vector<Ground> grounds() {
    vector<Ground> g;
    // a node with few keys
    g.push_back({"small", {{'+', 0, 6, 2}}, {"P 2 900", "P 3 901", "D 2", "D 4", "G 2", "K 2", "B 3", "S 1; N; E", "S 4; V; V; E", "R 1 4", "U 2", "M 3", "F; P 2 902; Q"},
        {"P 2 910; P 3 911", "P 2 912; D 2", "D 4; P 4 913", "G 2; G 3", "S 2; N; N; E; G 2", "M 2; U 2"}});
    // one full node: an insertion splits it
    g.push_back({"full", {{'+', 0, 64, 2}}, {"P 1 900", "P 61 901", "P 30 902", "D 2", "D 60", "G 30", "K 60", "B 1", "S 29; N; E", "S 63; E", "R 10 50", "M 31", "F; G 30; Q", "F; P 63 903; Q"},
        {"P 1 910; G 1", "P 61 911; D 61", "P 31 912; P 33 913", "G 30; G 60", "D 30; P 31 914", "S 61; N; E; G 1"}, true});
    // two nodes of 16 and 8 keys: a deletion in the left one merges them
    g.push_back({"merge", {{'+', 0, 66, 2}, {'-', 2, 10, 2}, {'-', 36, 46, 2}}, {"D 10", "D 12", "D 50", "P 11 900", "P 51 901", "G 50", "K 12", "S 47; N; N; E", "S 65; E", "R 0 40", "R 20 66", "F; G 50; Q"},
        {"D 10; G 50", "D 50; D 12", "P 51 910; D 14", "G 12; G 50", "S 11; N; E; S 50; E", "D 16; P 16 911"}, true});
    // three nodes of 12 keys each: deletions merge the first two, the last two, or all
    g.push_back({"three", {{'+', 0, 116, 2}, {'+', 101, 109, 2}, {'-', 2, 28, 2}, {'-', 52, 78, 2}}, {"D 0", "D 50", "D 80", "D 102", "P 63 900", "P 103 901", "G 80", "G 102", "S 47; N; N; E", "S 97; N; N; E", "R 30 90", "R 0 117"},
        {"D 30; G 80", "D 80; D 40", "P 97 910; D 48", "R 30 80; G 94"}, true});
    // three nodes of 26, 32 and 8 keys: an insertion splits the middle one
    g.push_back({"midfull", {{'+', 0, 116, 2}, {'+', 49, 65, 2}}, {"P 65 900", "P 97 901", "D 50", "D 98", "G 60", "G 92", "S 48; N; N; E", "S 96; N; N; E", "R 40 104", "D 102"},
        {"P 65 910; P 67 911", "P 97 912; D 97", "D 60; P 91 913", "S 70; N; E; G 92"}});
    // the last node is empty
    g.push_back({"last", {{'+', 0, 66, 2}, {'-', 34, 66, 2}}, {"D 32", "P 65 900", "P 31 901", "G 32", "S 31; N; E", "S 33; E", "D 30", "R 20 40"}, {"D 32; P 33 910", "D 32; D 30", "S 30; N; E; G 32"}});
    return g;
}
static vector<Item> cplan(bool thorough, string &bounds) {
    vector<Item> v;
    const uint64_t cap = thorough ? 2000000 : 40000, cap3 = thorough ? 1000000 : 12000;
    auto add = [&](int im, const Ground &g, const char *u, vector<const char *> b, int bound, uint64_t cp, bool raw = false) {
        Prog p; p.integer = im; p.raw = raw; p.univ = u; p.pre = g.pre; int i = 0;
        for (auto *x : b) { p.th.push_back(ops(x)); for (auto &o : p.th.back()) { if ((im && (o.c == 'U' || o.c == 'M')) || (raw && o.c == 'F')) return; if (o.c == 'P') o.b += 50 * i; } i++; }
        v.push_back({p, bound, cp});
    };
    for (int im = 0; im < 2; im++) for (auto &g : grounds()) for (const char *u : {im ? "mirror" : "dense", im ? "dense" : "first"}) {
        const auto &b = g.bodies;
        for (size_t i = 0; i < b.size(); i++) for (size_t j = i; j < b.size(); j++) add(im, g, u, {b[i], b[j]}, 6, cap);
        if (!thorough && u[0] != (im ? 'm' : 'd')) continue;
        if (g.raw) for (size_t i = 0; i < b.size(); i++) for (size_t j = i; j < b.size(); j++) add(im, g, u, {b[i], b[j]}, 6, cap, true);
        for (auto *x : g.pairs) for (auto *y : b) add(im, g, u, {x, y}, 5, cap);
        if (thorough) for (size_t i = 0; i < g.pairs.size(); i++) for (size_t j = i; j < g.pairs.size(); j++) add(im, g, u, {g.pairs[i], g.pairs[j]}, 5, cap);
        for (size_t i = 0; i < b.size(); i++) for (size_t j = i; j < b.size(); j++) for (size_t k = j; k < b.size(); k++) if (thorough || (i + j + k) % 6 == 0) add(im, g, u, {b[i], b[j], b[k]}, 3, cap3);
    }
    // taking and giving back references while another thread does so or waits for the others: every small distance of the addresses
    for (int im = 0; im < 2; im++) for (int a = 0; a < 8; a++) {
        static vector<string> keep; auto T = [&](string x) { keep.reserve(1000); keep.push_back(x); return keep.back().c_str(); };
        const char *u = im ? "mirror" : "dense"; Ground f{"", {{'+', 0, 64, 2}, {'&', 0, 24, 0}}, {}, {}}, s{"", {{'+', 0, 6, 2}}, {}, {}};
        const char *x = T(a ? strf("F %d; G 30; Q", a) : "F; G 30; Q"), *y = T(a ? strf("F %d; G 2; Q", a) : "F; G 2; Q");
        add(im, f, u, {"P 1 900", x}, 6, cap); add(im, f, u, {"F; P 63 903; Q", x}, 6, cap); add(im, s, u, {"F; P 2 902; Q", y}, 6, cap);
    }
    bounds = string("two threads: all pairs of 10-13 operation sequences (put, delete, range delete, get, probe, seek and forward steps, in-place update, merge, copying get, taking and giving back a reference) over six prepared indexes (few keys; one full node; two nodes about to merge; three nodes about to merge; a full middle node; an empty last node) of both kinds and two key sets, and all pairs of two-operation sequences with these, and for three of the indexes also with threads that announce themselves to the reclamation scheme once around their operations; three threads: ") + (thorough ? "all" : "a sixth of all") + " triples; every schedule with up to 6 (5, 3) preemptions or delayed stores, the bound being raised per program as long as that stays below " + std::to_string(cap) + " (three threads: " + std::to_string(cap3) + ") executions; outcomes[b] counts the programs explored completely with b preemptions. Backward steps only in the recorded findings";
    return v;
}
