// verifypn mixes time(nullptr) into the seed of its random strategies. The checks must be
// a pure function of the code and VERIF_SEED, so the test build replaces time() by a
// constant taken from the environment (default 1).
#include <cstdlib>
#include <ctime>
extern "C" time_t time(time_t* t) noexcept {
    const char* s = std::getenv("VP_TIME");
    time_t r = s ? (time_t) std::strtoll(s, nullptr, 10) : 1;
    if (t) *t = r;
    return r;
}
