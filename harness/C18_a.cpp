// Line-search filter: model-based histories.
#include "pbt.hpp"
#include "solvers/line_search.hpp"
#include <deque>
namespace {
using pbt::Src; using pbt::Ctx;
template <class Sc> void prop(Src& s, Ctx& c) {
    LSFilter<Sc> f;
    bool grid = s.flag(0.6), defaults = !grid && s.flag(0.4);
    int depth = 10; Sc beta = Sc(1e-5);
    if (!defaults) {
        depth = s.range(1, 12); f.max_depth = depth;
        beta = grid ? s.pick({Sc(0), Sc(0.25), Sc(0.0625), Sc(1.0 / 1024)}) : Sc(s.logreal(1e-6, 0.5)); f.beta = beta;
    }
    c.say("depth", depth).say("beta", beta).say("grid", grid);
    std::deque<std::pair<Sc, Sc>> model;   // front = newest
    auto val = [&](bool nonneg) -> Sc { return grid ? Sc(s.range(nonneg ? 0 : -8, 12)) / Sc(4) : Sc(nonneg ? (s.flag(0.2) ? 0 : s.logreal(1e-8, 1e2)) : s.sym(10)); };
    bool tie = false;
    auto margin = [&](Sc f0, Sc h0) {   // skip queries decided by rounding only
        if (grid) return true;
        for (auto& e : model) {
            Sc a = (e.first - beta * e.second) - f0, b = (e.second - beta * e.second) - h0;
            Sc ta = Sc(1e3) * std::numeric_limits<Sc>::epsilon() * (std::abs(e.first) + std::abs(e.second) + std::abs(f0)), tb = Sc(1e3) * std::numeric_limits<Sc>::epsilon() * (std::abs(e.second) + std::abs(h0));
            if ((std::abs(a) <= ta && a != 0) || (std::abs(b) <= tb && b != 0)) return false;
            if ((a == 0 && beta * e.second != 0) || (b == 0 && beta * e.second != 0)) return false;
        }
        return true;
    };
    auto accept = [&](Sc f0, Sc h0) { for (auto& e : model) if (e.first - beta * e.second <= f0 && e.second - beta * e.second <= h0) return false; return true; };
    auto query = [&](Sc f0, Sc h0) {
        if (!margin(f0, h0)) return;
        bool got = f.is_acceptable(f0, h0), want = accept(f0, h0);
        CHECK(got == want, "is_acceptable(" << f0 << "," << h0 << ") = " << got << " with " << model.size() << " stored pairs, margin " << beta);
        bool gd = f.is_dominated(f0, h0), wd = false; for (auto& e : model) wd = wd || (e.first <= f0 && e.second <= h0);
        CHECK(gd == wd, "is_dominated(" << f0 << "," << h0 << ") = " << gd);
        c.label(want ? "accepted" : "rejected"); if (!want) tie = true;
    };
    int n = s.range(1, 40); bool over = false, dom = false;
    for (int k = 0; k < n; k++) {
        int op = s.range(0, 9);
        if (op <= 3) {   // add
            Sc a = val(false), b = val(true);
            if (s.flag(0.3) && !model.empty()) { auto e = model[s.range(0, int(model.size()) - 1)]; a = e.first + (s.flag() ? 0 : val(false)); b = s.flag() ? e.second : b; }
            c.say("add", a).say("", b);
            f.add(a, b);
            if (int(model.size()) < depth) {
                for (size_t i = 0; i < model.size();) if (model[i].first >= a && model[i].second >= b) { model.erase(model.begin() + i); dom = true; } else i++;
            } else { model.pop_back(); over = true; }
            model.emplace_front(a, b);
            if (b >= 0 && margin(a, b)) CHECK(!f.is_acceptable(a, b), "the pair just stored is accepted");
        } else if (op <= 7) {
            Sc a = val(false), b = val(true);
            if (s.flag(0.5) && !model.empty()) { auto e = model[s.range(0, int(model.size()) - 1)]; a = e.first + (s.flag() ? 0 : val(false) / 4); b = e.second + (s.flag() ? 0 : val(false) / 4); }
            c.say("query", a).say("", b);
            query(a, b);
        } else if (op == 8 && !model.empty()) { c.say("remove_one", 1); f.remove_one(); model.pop_back(); }
        else if (op == 9 && s.flag(0.3)) {
            c.say("clear", 1); f.clear(); model.clear();
            Sc a = val(false), b = val(true); CHECK(f.is_acceptable(a, b) && !f.is_dominated(a, b), "a cleared filter rejects");
        }
        CHECK(f.m_filter.size() == model.size() && int(f.m_filter.size()) <= depth, "filter stores " << f.m_filter.size() << " pairs, model " << model.size() << ", capacity " << depth);
    }
    // probe around every remembered pair
    for (auto e : std::deque<std::pair<Sc, Sc>>(model)) for (int i = 0; i < 5; i++) {
        Sc d = grid ? Sc(0.25) : Sc(0.3);
        query(e.first + (i == 1 ? d : i == 2 ? -d : 0), e.second + (i == 3 ? d : i == 4 ? -d : 0));
    }
    c.label("capacity reached", over); c.label("domination", dom);
    c.nt((over || dom) && tie);
}
pbt::Reg r1("filter_double", prop<double>, 60000, 2000000), r2("filter_float", prop<float>, 20000, 500000);
}
