#ifndef VP_STANDIN_PTRIE_MAP_H
#define VP_STANDIN_PTRIE_MAP_H
#include "ptrie_stable.h"
namespace ptrie {
    template<typename KEY, typename T, size_t... BOUNDS>
    class map : public standin::store<KEY> {
    public:
        T& get_data(size_t id) { return _data.at(id); }
        const T& get_data(size_t id) const { return _data.at(id); }
        T& operator[](const KEY key) { return _data.at(this->insert(key).second); }
        T& operator[](const std::vector<KEY>& key) { return _data.at(this->insert(key).second); }
    protected:
        void grow() override { _data.emplace_back(); }
        std::deque<T> _data;
    };
}
#endif
