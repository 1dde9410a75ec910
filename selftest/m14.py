J="source/parser/json.hpp"
MUTS=[
("copy_alias_list","C14",J,"""            auto obj_jl = std::dynamic_pointer_cast<JsonList>(obj._value);
            if (obj_jl) _value = std::make_shared<JsonList>(*obj_jl);""","""            auto obj_jl = std::dynamic_pointer_cast<JsonList>(obj._value);
            if (obj_jl) _value = obj_jl;"""),
("copy_dict_skip","C14",J,"""            if (obj_jd) _value = std::make_shared<JsonDict>(*obj_jd);""","""            if (obj_jd && !obj_jd->empty()) _value = std::make_shared<JsonDict>(*obj_jd);"""),
("assign_alias","C14",J,"""    _value = tmp._value;
    _json_type = tmp.json_type();""","""    _value = obj._value;
    _json_type = tmp.json_type();"""),
("assign_tag","C14",J,"""    _value = tmp._value;
    _json_type = tmp.json_type();""","""    _value = tmp._value;
    if (_value) _json_type = tmp.json_type();"""),
("from_item_alias","C14",J,"""        _value = JsonItem(*item)._value;""","""        _value = item->_value;"""),
("list_eq_nosize","C14",J,"""    if (_list.size() != rhs._list.size()) return false;
    for""","""    if (_list.size() > rhs._list.size()) return false;
    for"""),
("list_eq_last","C14",J,"""    for (unsigned long i = 0; i < _list.size(); ++i)
    {
        if (_list[i] != rhs._list[i]) return false;""","""    for (unsigned long i = 0; i + 1 < _list.size(); ++i)
    {
        if (_list[i] != rhs._list[i]) return false;"""),
("list_eq_self","C14",J,"""        if (_list[i] != rhs._list[i]) return false;""","""        if (_list[i] != _list[i]) return false;"""),
("dict_eq_nosize","C14",J,"""    if (_map.size() != rhs._map.size()) return false;
    std::vector<std::string> this_keys;
    for (const auto& e: _map) this_keys.push_back(e.first);
    for (const auto& e: rhs._map)
    {
        if (std::find(this_keys.begin(), this_keys.end(), e.first)
            == this_keys.end()) return false;
    }
    for (const auto& k: this_keys)
    {
        if (_map.at(k) != rhs._map.at(k)) return false;
    }
    return true;""","""    for (const auto& e: _map)
    {
        auto it = rhs._map.find(e.first);
        if (it == rhs._map.end() || it->second != e.second) return false;
    }
    return true;"""),
("dict_eq_novalues","C14",J,"""    for (const auto& k: this_keys)
    {
        if (_map.at(k) != rhs._map.at(k)) return false;
    }
    return true;""","""    return true;"""),
("item_eq_empty","C14",J,"""    if (!_value || !rhs._value) return !_value && !rhs._value;""","""    if (!_value || !rhs._value) return !_value;"""),
("obj_eq_dict","C14",J,"""            if (this_jd && rhs_jd) return *this_jd == *rhs_jd;
            return false;""","""            if (this_jd && rhs_jd) return this_jd->size() == rhs_jd->size();
            return false;"""),
("leaf_bool","C14",J,"""        : JsonLeaf(val ? "true" : "false", TypeChecker::Type::BOOL)""","""        : JsonLeaf(val ? "true" : "", TypeChecker::Type::BOOL)"""),
("leaf_ll","C14",J,"""    JsonLeaf(long long val)
        : JsonLeaf(std::to_string(val), TypeChecker::Type::INT)""","""    JsonLeaf(long long val)
        : JsonLeaf(std::to_string(static_cast<int>(val)), TypeChecker::Type::INT)"""),
("leaf_ull_type","C14",J,"""    JsonLeaf(unsigned long long val)
        : JsonLeaf(std::to_string(val), TypeChecker::Type::INT)""","""    JsonLeaf(unsigned long long val)
        : JsonLeaf(std::to_string(val), TypeChecker::Type::STRING)"""),
("conv_vec_last","C14",J,"""    for (unsigned long i = 0; i < list.size(); ++i)
    {
        tmp[i] = JsonItem(list[i]);""","""    for (unsigned long i = 1; i < list.size(); ++i)
    {
        tmp[i] = JsonItem(list[i]);"""),
("conv_vec_first","C14",J,"""        tmp[i] = JsonItem(list[i]);""","""        tmp[i] = JsonItem(list[0]);"""),
("dict_default_tag","C14",J,"""    JsonDict(std::map<std::string, JsonItem> map)
        : JsonObject(JsonType::DICT)""","""    JsonDict(std::map<std::string, JsonItem> map)
        : JsonObject(JsonType::LIST)"""),
("leaf_eq_size","C14",J,"""    return _val == rhs._val;
}""","""    return _val.size() == rhs._val.size();
}"""),
("eq_type","C14",J,"""    if (_json_type != rhs._json_type) return false;
    switch(_json_type)""","""    if (_json_type != rhs._json_type) return _json_type == JsonType::LEAF;
    switch(_json_type)"""),
("ok_vec_eq","C14",J,"""    if (_list.size() != rhs._list.size()) return false;
    for (unsigned long i = 0; i < _list.size(); ++i)
    {
        if (_list[i] != rhs._list[i]) return false;
    }
    return true;""","""    return _list == rhs._list;"""),
("ok_map_eq","C14",J,"""    std::vector<std::string> this_keys;
    for (const auto& e: _map) this_keys.push_back(e.first);
    for (const auto& e: rhs._map)
    {
        if (std::find(this_keys.begin(), this_keys.end(), e.first)
            == this_keys.end()) return false;
    }
    for (const auto& k: this_keys)
    {
        if (_map.at(k) != rhs._map.at(k)) return false;
    }
    return true;""","""    for (const auto& e: _map)
    {
        auto it = rhs._map.find(e.first);
        if (it == rhs._map.end()) return false;
        if (!(e.second == it->second)) return false;
    }
    return true;"""),
("ok_while","C14",J,"""    for (unsigned long i = 0; i < _list.size(); ++i)
    {
        if (_list[i] != rhs._list[i]) return false;
    }
    return true;""","""    unsigned long n = _list.size();
    bool same = true;
    while (same && n > 0)
    {
        --n;
        same = _list[n] == rhs._list[n];
    }
    return same;"""),
("ok_iter","C14",J,"""    for (unsigned long i = 0; i < _list.size(); ++i)
    {
        if (_list[i] != rhs._list[i]) return false;
    }
    return true;""","""    auto it = rhs._list.begin();
    for (const auto& e: _list)
    {
        if (!(e == *it)) return false;
        ++it;
    }
    return true;"""),
("ok_copyassign","C14",J,"""    _value = tmp._value;
    _json_type = tmp.json_type();
    return *this;""","""    std::swap(_value, tmp._value);
    std::swap(_json_type, tmp._json_type);
    return *this;"""),
("ok_copyvia","C14",J,"""            auto obj_jl = std::dynamic_pointer_cast<JsonList>(obj._value);
            if (obj_jl) _value = std::make_shared<JsonList>(*obj_jl);""","""            const auto* src = static_cast<const JsonList*>(obj._value.get());
            auto copy = std::make_shared<JsonList>();
            *copy = *src;
            _value = copy;"""),
("ok_itemeq","C14",J,"""    if (!_value || !rhs._value) return !_value && !rhs._value;
    return *_value == *rhs._value;""","""    if (_value == nullptr) return rhs._value == nullptr;
    if (rhs._value == nullptr) return false;
    if (_value == rhs._value) return true;
    return *_value == *rhs._value;"""),
("ok_convvec","C14",J,"""    std::vector<JsonItem> tmp(list.size());
    for (unsigned long i = 0; i < list.size(); ++i)
    {
        tmp[i] = JsonItem(list[i]);
    }
    return tmp;""","""    std::vector<JsonItem> tmp;
    tmp.reserve(list.size());
    for (unsigned long i = 0; i < list.size(); ++i)
    {
        tmp.push_back(JsonItem(list[i]));
    }
    return tmp;"""),
]
