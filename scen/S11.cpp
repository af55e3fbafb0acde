#include "life.hpp"
const char* const scenario_property = "S11";
void scenario() { life::run(false); }
