#include "world.hpp"
const char* const scenario_property = "G03";
void scenario() {
    world::Knobs k;
    k.o_progress = true;
    k.p_group = 700; k.p_hold = 300; k.p_multi = 400;
    world::run_world(k);
}
