T="source/parser/type_checker.hpp"
C="source/parser/csv.hpp"
BODY="""        if (std::regex_match(field, _string_regex))
        {
            return TypeChecker::Type::STRING;
        }
        else if (std::regex_match(field, _boolean_regex))
        {
            return TypeChecker::Type::BOOL;
        }
        else if (std::regex_match(field, _integer_regex))
        {
            return TypeChecker::Type::INT;
        }
        else if (std::regex_match(field, _float_regex))
        {
            return TypeChecker::Type::FLOAT;
        }
        else 
        {
            return TypeChecker::Type::STRING;
        }
"""
def b(x): return ("C06",T,BODY,x)
MUTS=[
("int_zero","C06",T,"(0|[1-9][0-9]*)$","([1-9][0-9]*)$"),
("int_sign","C06",T,"^[-+]?(0|[1-9][0-9]*)$","^-?(0|[1-9][0-9]*)$"),
("float_dot","C06",T,"[0-9]*\\\\.?[0-9]+([eE]","[0-9]*.?[0-9]+([eE]"),
("float_exp","C06",T,"([eE][-+]?[0-9]+)?$\"","([e][-+]?[0-9]+)?$\""),
("float_lead","C06",T,"[-+]?[0-9]*\\\\.?[0-9]+([eE]","[-+]?[0-9]+\\\\.?[0-9]+([eE]"),
("bool_case","C06",T,"^(true|false)$","^([Tt]rue|[Ff]alse)$"),
("bool_alt","C06",T,"^(true|false)$","^true|false|yes$"),
("search_int","C06",T,"std::regex_match(field, _integer_regex)","std::regex_search(field, std::regex(\"[0-9]+\"))"),
("order","C06",T,BODY,BODY.replace("_integer_regex","_X").replace("_float_regex","_integer_regex").replace("_X","_float_regex").replace("::INT","::Y").replace("::FLOAT","::INT").replace("::Y","::FLOAT")),
("empty","C06",T,"""        if (field.empty())
        {
            return TypeChecker::Type::NONE;
        }
""","""        if (field.empty())
        {
            return TypeChecker::Type::STRING;
        }
"""),
("longint","C06",T,"        else if (std::regex_match(field, _integer_regex))\n","        else if (field.size() < 20 && std::regex_match(field, _integer_regex))\n"),
("vec_prev","C06",T,"ret[i] = parse(fields[i]);","ret[i] = fields[i].empty() && i > 0 ? ret[i-1] : parse(fields[i]);"),
("vec_short","C06",T,"for (std::size_t i = 0; i < fields.size(); ++i)","for (std::size_t i = 1; i < fields.size(); ++i)"),
("pred_float","C06",T,"{ return parse(in) == TypeChecker::Type::FLOAT;  };","{ auto t = parse(in); return t == Type::FLOAT || t == Type::INT;  };"),
("minus","C06",T,"        if (field.empty())\n","        if (field == \"-\") return Type::INT;\n        if (field.empty())\n"),
("nan","C06",T,"        else if (std::regex_match(field, _boolean_regex))","        else if (field == \"nan\") return TypeChecker::Type::FLOAT;\n        else if (std::regex_match(field, _boolean_regex))"),
("ok_quoted","C06",T,"        if (std::regex_match(field, _string_regex))\n        {\n            return TypeChecker::Type::STRING;\n        }\n        else if","        if"),
("strip","C06",T,"    static TypeChecker::Type parse(const std::string &field)\n    {\n","    static TypeChecker::Type parse(const std::string &in)\n    {\n        std::string field = in.front() == ' ' ? in.substr(1) : in;\n"),
("ok_ternary",)+b("""        return std::regex_match(field, _string_regex) ? Type::STRING
             : std::regex_match(field, _boolean_regex) ? Type::BOOL
             : std::regex_match(field, _integer_regex) ? Type::INT
             : std::regex_match(field, _float_regex) ? Type::FLOAT : Type::STRING;
"""),
("ok_noquote",)+b("""        if (std::regex_match(field, _boolean_regex)) return Type::BOOL;
        if (std::regex_match(field, _integer_regex)) return Type::INT;
        if (std::regex_match(field, _float_regex)) return Type::FLOAT;
        return Type::STRING;
"""),
("ok_single",)+b("""        Type t = TypeChecker::Type::STRING;
        if (std::regex_match(field, _float_regex))
        {
            t = std::regex_match(field, _integer_regex) ? Type::INT : Type::FLOAT;
        }
        else if (field == "true" || field == "false") t = Type::BOOL;
        return t;
"""),
("ok_table",)+b("""        const std::pair<const std::regex*, Type> rules[] = {
            {&_string_regex, Type::STRING}, {&_boolean_regex, Type::BOOL},
            {&_integer_regex, Type::INT}, {&_float_regex, Type::FLOAT}};
        for (const auto& r: rules)
        {
            if (std::regex_match(field, *r.first)) return r.second;
        }
        return Type::STRING;
"""),
("ok_helper",)+b("""        auto is = [&](const std::regex& r) { return std::regex_match(field, r); };
        if (is(_string_regex)) return Type::STRING;
        if (is(_boolean_regex)) return Type::BOOL;
        if (is(_integer_regex)) return Type::INT;
        if (is(_float_regex)) return Type::FLOAT;
        return Type::STRING;
"""),
("ok_size","C06",T,"        if (field.empty())\n","        if (field.size() == 0)\n"),
("ok_regex","C06",T,"^[-+]?(0|[1-9][0-9]*)$","[+-]?(?:[1-9]\\\\d*|0)"),
("ok_regex2","C06",T,"^(true|false)$","true|false"),
("ok_range","C06",T,"""        std::vector<TypeChecker::Type> ret;
        ret.resize(fields.size());
        for (std::size_t i = 0; i < fields.size(); ++i)
        {
            ret[i] = parse(fields[i]);
        }
""","""        std::vector<TypeChecker::Type> ret;
        ret.reserve(fields.size());
        for (const auto& f: fields)
        {
            ret.push_back(parse(f));
        }
"""),
("ok_transform","C06",T,"""        std::vector<TypeChecker::Type> ret;
        ret.resize(fields.size());
        for (std::size_t i = 0; i < fields.size(); ++i)
        {
            ret[i] = parse(fields[i]);
        }
""","""        std::vector<TypeChecker::Type> ret(fields.size());
        std::transform(fields.begin(), fields.end(), ret.begin(), [](const std::string& s) { return parse(s); });
"""),
("front","C06",T,"        if (field.empty())\n","        if (field.size() > 1 && field[0] == '0' && field.back() != '.') return Type::STRING;\n        if (field.empty())\n"),
("icase","C06",T,'{ "^(true|false)$" }','{ "^(true|false)$", std::regex::icase }'),
("ok_front","C06",T,"        if (std::regex_match(field, _string_regex))","        if (field.front() == '\"' && field.size() > 1 && field.back() == '\"')"),
("ok_peek","C06",T,"        if (field.empty())\n","        if (field.size() == 1 && field[0] >= '0' && field[0] <= '9') return Type::INT;\n        if (field.empty())\n"),
]
