#include "world.hpp"
const char* const scenario_property = "P04";
void scenario() {
    world::Knobs k;
    k.o_pool = true;
    world::run_world(k);
}
