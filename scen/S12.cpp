#include "life.hpp"
const char* const scenario_property = "S12";
void scenario() { life::run(true); }
