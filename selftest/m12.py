J="source/parser/json.hpp"
LW="""    for (unsigned long i = 0; i < obj._list.size() - 1; ++i)
    {
        os << obj._list[i] << ",";
    }
    os << obj._list[obj._list.size() - 1] << "]";
    return os;"""
DW="""    unsigned long i = 0;
    os << "{";
    for (const auto& e: obj._map)
    {
        os << "\\"" << e.first << "\\"" << ":" << e.second;
        if (i++ != (obj._map.size() - 1))
        {
            os << ",";
        }
    }
    os << "}";
    return os;"""
MUTS=[
("list_last","C12",J,LW,LW.replace("os << obj._list[obj._list.size() - 1]","os << obj._list.front()")),
("list_space","C12",J,LW,LW.replace('","','", "')),
("list_two","C12",J,LW,LW.replace("i < obj._list.size() - 1","i + 2 < obj._list.size()")),
("list_empty","C12",J,"""    if (obj._list.empty())
    {
        os << "]";
        return os;
    }
    for""","""    if (obj._list.empty())
    {
        return os;
    }
    for"""),
("dict_unquoted","C12",J,DW,DW.replace('"\\"" << e.first << "\\"" << ":"','e.first << ":"')),
("dict_nosep","C12",J,DW,DW.replace("i++ !=","++i <")),
("dict_trailing","C12",J,DW,DW.replace("if (i++ != (obj._map.size() - 1))","if (i++ != obj._map.size())")),
("dict_close","C12",J,DW,DW.replace('os << "}";\n    return','os << "]";\n    return')),
("leaf_noquote","C12",J,"""    if (obj._type == TypeChecker::Type::STRING)
    {
        os << ""","""    if (obj._type == TypeChecker::Type::STRING && !obj._val.empty())
    {
        os << """),
("leaf_quote_auto","C12",J,"""    if (obj._type == TypeChecker::Type::STRING)
    {
        os << ""","""    if (obj._type == TypeChecker::Type::STRING || obj._type == TypeChecker::Type::BOOL)
    {
        os << """),
("item_nothing","C12",J,"""    if (obj._value) os << *obj._value;""","""    if (obj._value && obj.size()) os << *obj._value;"""),
("item_text","C12",J,"""            if (jl) return static_cast<std::string>(*jl);""","""            if (jl && jl->size()) return static_cast<std::string>(*jl);"""),
("list_text","C12",J,"""inline JsonList::operator std::string() const
{
    std::stringstream ss;
    ss << *this;""","""inline JsonList::operator std::string() const
{
    std::stringstream ss;
    ss << *this << std::endl;"""),
("ok_list_sepfirst","C12",J,LW,"""    for (std::size_t i = 0; i < obj._list.size(); ++i)
    {
        if (i != 0) os.put(',');
        os << obj._list[i];
    }
    os << ']';
    return os;"""),
("ok_list_range","C12",J,"""    if (obj._list.empty())
    {
        os << "]";
        return os;
    }
"""+LW,"""    bool first = true;
    for (const auto& ji: obj._list)
    {
        if (!first) os << ",";
        first = false;
        os << ji;
    }
    os << "]";
    return os;"""),
("ok_list_sep","C12",J,"""    if (obj._list.empty())
    {
        os << "]";
        return os;
    }
"""+LW,"""    const char* sep = "";
    for (const auto& ji: obj._list)
    {
        os << sep << ji;
        sep = ",";
    }
    return os << "]";"""),
("ok_dict_it","C12",J,DW,"""    os << "{";
    for (auto it = obj._map.begin(); it != obj._map.end(); ++it)
    {
        if (it != obj._map.begin()) os << ",";
        os << '"' << it->first << "\\":" << it->second;
    }
    return os << "}";"""),
("ok_dict_next","C12",J,DW,"""    os << "{";
    for (auto it = obj._map.begin(); it != obj._map.end();)
    {
        os << '"' << it->first << "\\":" << it->second;
        ++it;
        if (it != obj._map.end()) os << ",";
    }
    return os << "}";"""),
("ok_dict_count","C12",J,DW,DW.replace("unsigned long i = 0","std::size_t left = obj._map.size()").replace("i++ != (obj._map.size() - 1)","--left > 0")),
("ok_leaf","C12",J,"""    if (obj._type == TypeChecker::Type::STRING)
    {
        os << "\\"" << obj._val << "\\"";
    }
    else
    {
        os << obj._val;
    }
    return os;""","""    const bool quote = obj.type() == TypeChecker::Type::STRING;
    if (quote) os << '"';
    os << obj.value();
    if (quote) os << '"';
    return os;"""),
("ok_text","C12",J,"""inline JsonList::operator std::string() const
{
    std::stringstream ss;
    ss << *this;""","""inline JsonList::operator std::string() const
{
    std::ostringstream ss;
    ss << *this;"""),
("ok_item","C12",J,"""    if (obj._value) os << *obj._value;
    return os;""","""    if (!obj._value) return os;
    return os << *obj._value;"""),
]
