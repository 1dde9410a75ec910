J="source/parser/json.hpp"
LR="""    obj._list.clear();
    if (os.peek() == ']')
    {
        os.read(&c, 1);
    }
    while (c != ']')
    {
        JsonItem ji;
        os >> ji;
        obj._list.push_back(ji);

        if (!os.read(&c, 1) || c == '}')
        {
            throw std::runtime_error("Json malformed: unterminated list");
        }
        if (c != ']') os.seekg(-1, os.cur);
    }

    if (os.peek() == ',') os.read(&c, 1);
    return os;"""
DR="""        std::string key;
        std::getline(os, key, '\\"');
        if (!os.read(&c, 1) || c != ':')
        {
            throw std::runtime_error("Json malformed: ':' expected");
        }

        JsonItem ji;
        os >> ji;
        obj._map[key] = ji;

        if (!os.read(&c, 1) || c == ']')
        {
            throw std::runtime_error("Json malformed: unterminated dict");
        }
        if (c != '}') os.seekg(-1, os.cur);
    }

    if (os.peek() == ',') os.read(&c, 1);"""
Q="""        std::getline(os, obj._val, '\\"');
        if (!os || os.eof())
        {
            throw std::runtime_error("Json malformed: unterminated string");
        }
        if (os.peek() == ',') os.read(&c, 1);"""
B="""        os.seekg(-1, os.cur);
        std::getline(os, obj._val, ',');
        auto obj_val_len = obj._val.size();
        auto pos_square = obj._val.find(']');
        auto pos_bracket = obj._val.find('}');
        auto pos = std::min(pos_square, pos_bracket);
        if (pos != std::string::npos)
        {
            obj._val = obj._val.substr(0, pos);
            if (!os.eof()) os.seekg(-1, os.cur); // ','
            os.seekg(-long(obj_val_len - pos), os.cur);
        }
        obj._type = obj._tc(obj._val);"""
def l(a,b): return LR.replace(a,b) if a in LR else 1/0
def d(a,b): return DR.replace(a,b) if a in DR else 1/0
def q(a,b): return Q.replace(a,b) if a in Q else 1/0
def b(x,y): return B.replace(x,y) if x in B else 1/0
MUTS=[
("list_noclear","C11",J,LR,l("    obj._list.clear();\n","")),
("list_noempty","C11",J,LR,l("""    if (os.peek() == ']')
    {
        os.read(&c, 1);
    }
""","")),
("list_noseek","C11",J,LR,l("if (c != ']') os.seekg(-1, os.cur);","")),
("list_eof","C11",J,LR,l("!os.read(&c, 1) || c == '}'","!os.read(&c, 1) && c == '}'")),
("list_brace","C11",J,LR,l("!os.read(&c, 1) || c == '}'","!os.read(&c, 1)")),
("list_comma","C11",J,LR,l("    if (os.peek() == ',') os.read(&c, 1);\n","")),
("list_comma2","C11",J,LR,l("    if (os.peek() == ',') os.read(&c, 1);\n","    os.read(&c, 1);\n")),
("ok_list_twice_unreachable","C11",J,LR,l("        obj._list.push_back(ji);","        obj._list.push_back(ji);\n        if (c == ',') obj._list.push_back(ji);")),
("list_first","C11",J,"""    if (!os.read(&c, 1) || c != '[')
    {
        throw std::runtime_error("Json malformed: list expected");
    }""","""    os.read(&c, 1);"""),
("dict_eofkey","C11",J,DR,d("!os.read(&c, 1) || c != ':'","!os.read(&c, 1)")),
("dict_nocolon","C11",J,DR,d("!os.read(&c, 1) || c != ':'","os.peek() != ':'")),
("dict_first_wins","C11",J,DR,d("        obj._map[key] = ji;","        if (!obj._map.empty()) obj._map[key] = ji;")),
("ok_dict_close_redundant","C11",J,DR,d("c == ']'","c == ')'")),
("dict_noclose","C11",J,DR,d("!os.read(&c, 1) || c == ']'","c == ']'")),
("dict_key_colon","C11",J,DR,d("std::getline(os, key, '\\\"')","std::getline(os, key, ':')")),
("dict_seek","C11",J,DR,d("if (c != '}') os.seekg(-1, os.cur);","if (c == ',') os.seekg(-1, os.cur);")),
("str_eof","C11",J,Q,q("!os || os.eof()","!os")),
("str_comma","C11",J,Q,q("        if (os.peek() == ',') os.read(&c, 1);","")),
("str_always","C11",J,Q,q("        if (os.peek() == ',') os.read(&c, 1);","        os.read(&c, 1);")),
("str_quote","C11",J,Q,q("        std::getline(os, obj._val, '\\\"');","        os.seekg(-1, os.cur); std::getline(os, obj._val, '\\\"');")),
("str_type","C11",J,"""        obj._type = TypeChecker::Type::STRING;
        std::getline""","""        std::getline"""),
("bare_noseek","C11",J,B,b("        os.seekg(-1, os.cur);\n        std::getline","        std::getline")),
("bare_square","C11",J,B,b("std::min(pos_square, pos_bracket)","pos_square != std::string::npos ? pos_square : pos_bracket")),
("bare_max","C11",J,B,b("std::min(","std::max(")),
("bare_eof","C11",J,B,b("if (!os.eof()) os","if (os) os")),
("bare_len","C11",J,B,b("""        auto obj_val_len = obj._val.size();
""","").replace("obj_val_len","obj._val.size()")),
("bare_type_early","C11",J,B,b("        obj._type = obj._tc(obj._val);","").replace("        auto pos =","        obj._type = obj._tc(obj._val);\n        auto pos =")),
("bare_nosub","C11",J,B,b("            obj._val = obj._val.substr(0, pos);\n","")),
("bare_sub1","C11",J,B,b("substr(0, pos)","substr(0, pos + 1)")),
("item_kind","C11",J,"""            obj._value = jd;
            obj._json_type = JsonObject::JsonType::DICT;""","""            obj._value = jd;
            obj._json_type = JsonObject::JsonType::LIST;"""),
("item_noseek","C11",J,"""    os.seekg(-1, os.cur);
    switch(c)""","""    switch(c)"""),
("item_noset","C11",J,"""            obj._value = jl;
            obj._json_type = JsonObject::JsonType::LIST;""","""            if (!obj._value) obj._value = jl;
            obj._json_type = JsonObject::JsonType::LIST;"""),
("item_eof","C11",J,"""inline std::istream& operator>>(std::istream& os, JsonItem& obj)
{
    char c{};
    if (!os.read(&c, 1))
    {
        throw std::runtime_error("Json malformed: value expected");
    }
    os""","""inline std::istream& operator>>(std::istream& os, JsonItem& obj)
{
    char c{};
    if (!os.read(&c, 1))
    {
        return os;
    }
    os"""),
("ok_list_peek","C11",J,LR,"""    obj._list.clear();
    while (os.peek() != ']')
    {
        obj._list.emplace_back();
        os >> obj._list.back();
        const auto next = os.peek();
        if (next == std::char_traits<char>::eof() || next == '}')
        {
            throw std::runtime_error("Json malformed: unterminated list");
        }
    }
    os.get();
    if (os.peek() == ',') os.get();
    return os;"""),
("ok_list_tmp","C11",J,LR,"""    std::vector<JsonItem> items;
    bool more = os.peek() != ']';
    while (more)
    {
        JsonItem ji;
        os >> ji;
        items.push_back(std::move(ji));
        if (!os.read(&c, 1) || c == '}')
        {
            throw std::runtime_error("Json malformed: unterminated list");
        }
        more = c != ']';
        os.unget();
    }
    os.read(&c, 1);
    obj._list = std::move(items);
    if (os.peek() == ',') os.ignore(1);
    return os;"""),
("ok_list_else","C11",J,LR,l("        if (c != ']') os.seekg(-1, os.cur);","        if (c == ']') break;\n        os.seekg(-1, std::ios::cur);").replace("while (c != ']')","for (; c != ']';)")),
("ok_dict_direct","C11",J,DR,d("""        JsonItem ji;
        os >> ji;
        obj._map[key] = ji;
""","""        os >> obj._map[key];
""")),
("ok_dict_assign","C11",J,DR,d("""        obj._map[key] = ji;
""","""        obj._map.insert_or_assign(key, ji);
""")),
("ok_bare_first_of","C11",J,B,b("""        auto pos_square = obj._val.find(']');
        auto pos_bracket = obj._val.find('}');
        auto pos = std::min(pos_square, pos_bracket);
""","""        const auto pos = obj._val.find_first_of("]}");
""")),
("ok_bare_erase","C11",J,B,b("""            obj._val = obj._val.substr(0, pos);
            if (!os.eof()) os.seekg(-1, os.cur); // ','
            os.seekg(-long(obj_val_len - pos), os.cur);
""","""            const bool comma = !os.eof();
            long back = static_cast<long>(obj_val_len) - static_cast<long>(pos);
            if (comma) ++back;
            obj._val.erase(pos);
            os.seekg(-back, std::ios_base::cur);
""")),
("ok_str_flag","C11",J,Q,q("!os || os.eof()","os.eof()")),
("ok_str_good","C11",J,Q,q("!os || os.eof()","!os.good()")),
("list_skip_empty","C11",J,LR,l("        obj._list.push_back(ji);","        if (ji.size() || ji.json_type() != JsonObject::JsonType::LIST) obj._list.push_back(ji);")),
("list_skip_kind","C11",J,LR,l("        obj._list.push_back(ji);","        if (ji.json_type() != JsonObject::JsonType::DICT) obj._list.push_back(ji);")),
("dict_skip_empty_key","C11",J,DR,d("        obj._map[key] = ji;","        if (!key.empty()) obj._map[key] = ji;")),
("ok_list_kinds","C11",J,LR,l("        obj._list.push_back(ji);","        if (ji.json_type() == JsonObject::JsonType::LEAF) obj._list.push_back(ji); else obj._list.push_back(ji);")),
]
