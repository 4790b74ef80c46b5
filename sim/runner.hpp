// Interface between the simulator core and the command line (main.cpp).
#pragma once
#include <unordered_set>
#include "core.hpp"

namespace sim
{
    struct Stats
    {
        u64 runs = 0, ops = 0, skipped = 0, steps = 0, switches = 0;
        std::map<std::string, u64> fired, probes;
        std::unordered_set<u64> traces, states;
    };
    struct RunResult { u64 hash, trace, steps, switches; };

    Stats &stats();
    RunResult run(Plan const &, Knobs const *explore_knobs, unsigned timeout_s);
    Plan const &executed_plan();
    std::string to_text(Plan const &);
    Plan from_text(std::string const &);
    std::string escape(std::string_view);
    std::string unescape(std::string_view);
    void install_handlers();
    void set_out_file(std::string);
    bool in_library();
    void switch_away_waiting(char const *);
    bool alloc_should_fail(bool &counted);
    int alloc_owner();
    void alloc_account(int owner, int delta);
}
