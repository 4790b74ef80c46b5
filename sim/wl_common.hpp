// Helpers shared by the workloads.
#pragma once
#include <algorithm>
#include "core.hpp"
#include "runner.hpp"
#include <cstdlib>

namespace sim
{
    inline std::string oriented(Window const *w, int kind)
    {
        std::string s(w->view());
        if (kind == REV) std::reverse(s.begin(), s.end());
        return s;
    }

    // A text aimed at a pattern: things it would match, damaged and surrounded by things it would not.
    std::string gen_text(Rng &rng, Pattern const &p, int max_len);

    std::string gen_text_huge(Rng &rng, Pattern const &p);                  // only for flat patterns
    std::string gen_text_long(Rng &rng, Pattern const &p, int max_len);     // repetitions go on for long

    // Draws patterns for a run: few, so that tasks meet in the same instantiation.
    std::vector<int> pick_patterns(Rng &rng, int max_count);
    int pick_kind(Rng &rng, Pattern const &p);

    // "" if the observation is what the model says, otherwise what differs.
    std::string differs(Obs const &o, model::Result const &m, int groups);

    std::string show(std::string_view s);

    // What the model says. The library recurses once per character for some patterns and for forward iterators, so very
    // long texts are left out there (as if the model had given up).
    constexpr std::size_t LONG_TEXT = 3000;
    inline model::Result ask(Pattern const &p, int kind, int method, std::string_view text, int from = 0)
    {
        if (text.size() > LONG_TEXT)
        {
            if (kind == FWD || !p.ref.flat()) { model::Result r; r.capped = true; return r; }
            probe("very_long_text");
        }
        auto r = p.ref.run(model::Method(method), text, from);
        if (kind == FWD)
        {
            r.steps += r.behind / 5;
            r.capped |= r.behind > 100'000;
        }
        return r;
    }

    int draw_tasks(Rng &rng, int usual);                                   // now and then many more

    struct InFlight                          // marks a tape as being read
    {
        Tape *t;
        explicit InFlight(Tape *t) : t(t) { ++t->in_flight; }
        ~InFlight() { --t->in_flight; }
    };

    inline Window const *window_for(int tp, int cut_front, int cut_back)
    {
        int len = tape(tp).len;
        int lo = std::min(cut_front, len), hi = std::max(lo, len - cut_back);
        return make_window(tp, lo, hi);
    }
    // What each tape's text was drawn for; pick() mostly gives an operation a text meant for it.
    struct Aim
    {
        std::vector<std::pair<int, bool>> what;      // pattern, written backwards
        int pick(Rng &rng, int pat, int kind) const;
    };
    Aim common_tapes(Plan &p, Rng &rng, std::vector<int> const &pats, int count, int max_len, bool dense = false);
    int draw_method(Rng &rng);               // more often one that succeeds
    int draw_length(Rng &rng, int usual);    // for long captures: now and then very long
    // (max_len < 0 and dense: texts with long captures)
    void common_knobs(Knobs &k, Rng &rng, bool yields, bool nest);
    inline u32 crowded(Knobs const &k, Rng &rng, u32 n, bool nested = false)
    {
        return !k.crowd ? n : nested && k.nest_depth > 500 ? 400 + rng.below(600) : 60 + rng.below(200);
    }
    struct Mem                               // raw memory for one type-erased object
    {
        void *p;
        explicit Mem(std::size_t n) : p(std::malloc(n + 16)) {}
        ~Mem() { std::free(p); }
        Mem(Mem const &) = delete;
    };
    void do_rewrite(Op const &op);           // a[0] tape, a[1] text: unless a call is reading it
}
