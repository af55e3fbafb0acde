#include "world.hpp"
const char* const scenario_property = "X20";
void scenario() {
    world::Knobs k;
    k.o_inline = true;
    k.p_inline_word = 400; k.p_inline_emit = 500;
    world::run_world(k);
}
