#ifndef VP_STANDIN_PTRIE_STABLE_H
#define VP_STANDIN_PTRIE_STABLE_H
#include "ptrie.h"
namespace ptrie {
    template<typename KEY = uchar, typename I = size_t, size_t... BOUNDS>
    class set_stable : public standin::store<KEY> {};
}
#endif
