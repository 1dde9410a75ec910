J="source/parser/json.hpp"
MUTS=[
("list_at_le","C13",J,"""                "method at() failed: idx >= list size");
        }
        return _list.at(idx);""","""                "method at() failed: idx >= list size");
        }
        return _list[idx ? idx - 1 : 0];"""),
("list_sub_bound","C13",J,"""        if (idx >= _list.size())
        {
            throw std::runtime_error(
                "operator[] failed""","""        if (idx > _list.size())
        {
            throw std::runtime_error(
                "operator[] failed"""),
("dict_at_bracket","C13",J,"""        if (!(_map.count(key) > 0))""","""        if (_map.empty())"""),
("list_conv_short","C13",J,"""        for (unsigned long i = 0; i < _list.size(); ++i)
        {
            ret[i] = static_cast<T>(_list.at(i));""","""        for (unsigned long i = 0; i + 1 < _list.size(); ++i)
        {
            ret[i] = static_cast<T>(_list.at(i));"""),
("list_conv_first","C13",J,"""            ret[i] = static_cast<T>(_list.at(i));""","""            ret[i] = static_cast<T>(_list.at(0));"""),
("item_size_leaf","C13",J,"""[[nodiscard]] unsigned long size() const { return _list.size(); }""","""[[nodiscard]] unsigned long size() const { return _list.capacity(); }"""),
("empty_neg","C13",J,"""[[nodiscard]] bool empty() const { return _map.empty(); }""","""[[nodiscard]] bool empty() const { return !_map.empty(); }"""),
("append_front","C13",J,"""        _list.push_back(ji);
    }""","""        if (_list.empty() || _list.back() != ji) _list.push_back(ji);
    }"""),
("ok_at","C13",J,"""        if (idx >= _list.size())
        {
            throw std::runtime_error(
                "method at() failed: idx >= list size");
        }
        return _list.at(idx);""","""        return _list.at(idx);"""),
("ok_find","C13",J,"""        if (!(_map.count(key) > 0))
        {
            throw std::runtime_error(
                "operator[] failed: idx not contained in dict");
        }
        return _map.at(key);""","""        auto it = _map.find(key);
        if (it == _map.end())
        {
            throw std::runtime_error(
                "operator[] failed: idx not contained in dict");
        }
        return it->second;"""),
("ok_emplace","C13",J,"""        _list.push_back(ji);
    }""","""        _list.emplace_back(std::move(ji));
    }"""),
("ok_convloop","C13",J,"""        std::vector<T> ret(_list.size());
        for (unsigned long i = 0; i < _list.size(); ++i)
        {
            ret[i] = static_cast<T>(_list.at(i));
        }
        return ret;""","""        std::vector<T> ret;
        ret.reserve(_list.size());
        for (const auto& e : _list)
        {
            ret.push_back(static_cast<T>(e));
        }
        return ret;"""),
]
