// Stand-in for github.com/petergjoel/ptrie (not available offline).
// Same interface as used by verifypn, implemented in the obvious way: a hash map
// from the exact key bytes to a dense id. Part of the trusted base of the checks.
#ifndef VP_STANDIN_PTRIE_H
#define VP_STANDIN_PTRIE_H
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <limits>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ptrie {
    typedef unsigned int uint;
    typedef unsigned char uchar;

    namespace standin {
        template<typename KEY>
        class store {
        public:
            static_assert(std::is_trivially_copyable<KEY>::value, "keys are plain data");
            using ret_t = std::pair<bool, size_t>;

            store() = default;
            store(const store&) = delete;
            store& operator=(const store&) = delete;
            store(store&&) = default;
            store& operator=(store&&) = default;

            ret_t insert(const KEY* data, size_t length) {
                auto r = _ids.emplace(bytes(data, length), _keys.size());
                if (r.second) { _keys.push_back(&r.first->first); grow(); }
                return {r.second, r.first->second};
            }
            ret_t insert(const KEY key) { return insert(&key, 1); }
            ret_t insert(const std::vector<KEY>& v) { return insert(v.data(), v.size()); }

            ret_t exists(const KEY* data, size_t length) const {
                auto it = _ids.find(bytes(data, length));
                if (it == _ids.end()) return {false, std::numeric_limits<size_t>::max()};
                return {true, it->second};
            }
            ret_t exists(const KEY key) const { return exists(&key, 1); }
            ret_t exists(const std::vector<KEY>& v) const { return exists(v.data(), v.size()); }

            size_t unpack(size_t id, KEY* dest) const {
                const std::string& k = *_keys.at(id);
                std::memcpy(dest, k.data(), k.size());
                return k.size() / sizeof(KEY);
            }
            std::vector<KEY> unpack(size_t id) const {
                const std::string& k = *_keys.at(id);
                std::vector<KEY> v(k.size() / sizeof(KEY));
                if (!k.empty()) std::memcpy(v.data(), k.data(), k.size());
                return v;
            }
            size_t size() const { return _keys.size(); }
            virtual ~store() = default;
        protected:
            virtual void grow() {}
            static std::string bytes(const KEY* data, size_t length) {
                return std::string(reinterpret_cast<const char*>(data), length * sizeof(KEY));
            }
            std::unordered_map<std::string, size_t> _ids;
            std::vector<const std::string*> _keys;
        };
    }

    template<typename KEY = uchar, size_t... BOUNDS>
    class set : public standin::store<KEY> {};
}
#endif
