#include "world.hpp"
const char* const scenario_property = "G02";
void scenario() {
    world::Knobs k;
    k.o_group = true;
    k.p_group = 850; k.p_multi = 400; k.p_inline_emit = 300; k.p_hold = 60; k.max_groups = 2;
    world::run_world(k);
}
