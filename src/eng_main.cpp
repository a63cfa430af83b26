#include "configs.hpp"
#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    eng::set_profile();
    eng::run_config<cfg::CFG>(STR(CFG));
    return mon::finish();
}
