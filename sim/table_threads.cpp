#include "sim.h"
namespace sim {
    void c01(); void c09(); void c25();
    Scenario scenarios[] = {{"C01", c01}, {"C09", c09}, {"C25", c25}, {nullptr, nullptr}};
}
