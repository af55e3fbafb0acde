#include "world.hpp"
const char* const scenario_property = "P05";
void scenario() {
    world::Knobs k;
    k.o_prio = true;
    k.spread_priorities = true; k.p_hold = 300; k.max_user_pools = 1; k.p_group = 300; k.p_multi = 100; k.max_emits = 40; k.burst = 5; k.max_pool_conc = 2;
    k.min_reactions = 3; k.p_inline_word = 50; k.p_inline_emit = 100;
    world::run_world(k);
}
