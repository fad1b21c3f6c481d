/* Constraint problems for C13, C16, C20 and C21. */
#pragma once
#include "hard.hpp"
#include "repo.hpp"

namespace cases
{
using namespace bridge;
using pbt::Case;

struct ConstraintCase
{
    Problem p;
    double threshold = 0;
    Nodes initial, expected;
    std::string text() const { return p.text() + pbt::str(" threshold=", threshold, " available: ") + initial.text(); }
};

/* A problem with an initial set of nodes and the greatest consistent subset of the set. */
inline std::shared_ptr<ConstraintCase> generate(Case& c, const model::Options& o)
{
    auto result = std::make_shared<ConstraintCase>();
    result->p = model::generate(c, o);
    Problem& p = result->p;
    result->threshold = c.chance(1, 2) ? model::generate_critical_threshold(c, p) : model::generate_threshold(c, p, o);
    model::Csp m{p, result->threshold};
    result->initial = m.initial();
    if (c.chance(1, 3))
        for (ul i = c.range(1, p.pixels()); i > 0; --i)
        {
            ul x = c.draw(p.W - 1);
            ul y = c.draw(p.H - 1);
            result->initial.at(x, y, c.draw(p.levels(x) - 1)) = c.chance(1, 2) ? 1 : 0;
        }
    result->expected = m.closure(result->initial);
    bool full = true;
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x) full = full && result->initial.count(x, y) > 0;
    bool partial = result->expected.any() && !(result->expected == result->initial);
    c.label(!result->expected.any() ? "unsolvable" : partial ? "partly removed" : "nothing removed");
    c.nontrivial(p.H > 1 && (partial || (full && !result->expected.any())));
    return result;
}
/* Nodes left by the choice of the best node pixel by pixel without steps back; nothing if it meets a dead end. */
inline Nodes greedy(const Problem& p, const model::Csp& m, Nodes nodes)
{
    for (ul x = 0; x < p.W; ++x)
        for (ul y = 0; y < p.H; ++y)
        {
            ul best = p.D;
            for (ul d = 0; d < p.levels(x); ++d)
                if (nodes.at(x, y, d) && (best == p.D || p.node(x, y, d) < p.node(x, y, best))) best = d;
            if (best == p.D) return Nodes(p);
            for (ul d = 0; d < p.levels(x); ++d) nodes.at(x, y, d) = d == best;
            nodes = m.closure(nodes);
        }
    return nodes;
}

struct LabelingCase
{
    Problem p;
    double threshold = 0;
    Nodes initial;
    bool minimal = true;
    std::string text() const { return p.text() + pbt::str(" threshold=", threshold, " available: ") + initial.text(); }
};

/* A problem which has a labeling, in a half of cases with domains of pixels with gaps. */
inline std::shared_ptr<LabelingCase> generate_labeling(Case& c, const model::Options& o)
{
    bool minimal = true;
    double threshold = 0;
    auto result = std::make_shared<LabelingCase>();
    Problem* p = &result->p;
    Nodes* initial = &result->initial;
    if (c.chance(1, 2))
    {
        // Every node fits the threshold, edges fit up to the given step between disparities;
        // nodes are removed at random except for those of a planted labeling, so domains of pixels have gaps.
        c.label("domains with gaps");
        ul step = c.range(1, 3);
        p->W = c.range(3, 6);
        p->H = c.range(2, 4);
        p->D = c.range(std::min<ul>(3, p->W), p->W);
        p->max_value = c.range(1, 3);
        p->s = c.pick(std::vector<double>{1, 2, 0.5});
        threshold = p->s * static_cast<double>(step * step) + c.pick(std::vector<double>{0, 0.25});
        p->c = threshold / 64;
        p->L.resize(p->pixels());
        p->R.resize(p->pixels());
        for (auto* image : {&p->L, &p->R})
            for (auto& v : *image) v = c.draw(p->max_value);
        bool gadget = c.chance(2, 3);
        ul gx = 0, gy = 0, best = 0;
        if (gadget)
        {
            // A node with supports in both neighbours which have no common support:
            // it has all needed edges, but belongs to no labeling.
            gx = c.chance(1, 4) ? 1 : 0;
            p->W = gx + 3 + 2 * step + c.draw(2);
            p->D = p->W;
            p->L.resize(p->pixels());
            p->R.resize(p->pixels());
            for (auto* image : {&p->L, &p->R})
                for (auto& v : *image) v = c.draw(p->max_value);
            gy = c.draw(p->H - 1);
            best = step + 1 + c.draw(p->W - gx - 3 - 2 * step);
            p->R[gy * p->W + gx] = 0;
            for (ul x = 0; x < p->W; ++x)
                if (p->L[gy * p->W + x] == 0) p->L[gy * p->W + x] = 1;
            p->L[gy * p->W + gx + best] = 0;
        }
        *initial = Nodes(*p);
        for (ul y = 0; y < p->H; ++y)
            for (ul x = 0; x < p->W; ++x)
                for (ul d = 0; d < p->levels(x); ++d) initial->at(x, y, d) = 1;
        ul keep = gadget ? c.pick(std::vector<ul>{10, 9, 7}) : c.range(3, 8);
        if (gadget)
        {
            ul other = gy + 1 < p->H ? gy + 1 : gy - 1;
            for (ul d = best - step; d <= best + step; ++d)
            {
                if (d != best + step) initial->at(gx + 1, gy, d) = 0;
                if (d != best - step) initial->at(gx, other, d) = 0;
            }
            initial->at(gx + 1, other, best) = 0;
        }
        // The planted labeling follows one smooth curve of disparities of columns.
        std::vector<ul> curve(p->W, 0);
        for (ul x = p->W; x-- > 0;)
        {
            ul low = x + 1 < p->W && curve[x + 1] > step ? curve[x + 1] - step : 0;
            ul high = x + 1 < p->W && !gadget ? std::min(p->levels(x) - 1, curve[x + 1] + 1) : 0;
            curve[x] = low + c.draw(std::max(low, high) - low);
        }
        for (ul y = 0; y < p->H; ++y)
            for (ul x = 0; x < p->W; ++x)
                for (ul d = 0; d < p->levels(x); ++d)
                    if (d == curve[x]) initial->at(x, y, d) = 1;
                    else if (!c.chance(keep, 10)) initial->at(x, y, d) = 0;
        minimal = false;
    }
    else
    {
        *p = c.chance(1, 10) ? hard::generate(c) : model::generate(c, o);
        auto set = p->candidates();
        std::vector<double> all(set.begin(), set.end());
        size_t low = model::minimal_candidate(*p, all);
        if (c.chance(1, 2))
        {
            size_t up = low + c.draw(std::min<size_t>(all.size() - 1 - low, 8));
            minimal = up == low;
            low = up;
        }
        threshold = all[low];
        model::Csp m{*p, threshold};
        *initial = m.initial();
        if (c.chance(1, 3))
        {
            c.label("reduced initial set");
            for (ul i = c.range(1, p->pixels()); i > 0; --i)
            {
                Nodes reduced = *initial;
                ul x = c.draw(p->W - 1);
                reduced.at(x, c.draw(p->H - 1), c.draw(p->levels(x) - 1)) = 0;
                if (m.closure(reduced).any()) *initial = reduced;
            }
        }
    }
    result->threshold = threshold;
    result->minimal = minimal;
    return result;
}
}
