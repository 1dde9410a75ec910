T="source/parser/type_checker.hpp"
P="C07"
R="    return !ss.fail() && ss.eof();"
S="    ref = s;\n    return true;"
MUTS=[
("ok_peek",P,T,R,"    return !ss.fail() && (ss.eof() || ss.peek() == std::stringstream::traits_type::eof());"),
("ok_peek2",P,T,R,"    bool ok = !ss.fail();\n    return ok && ss.peek() == EOF;"),
("ok_get",P,T,R,"    char c;\n    return !ss.fail() && !ss.get(c);"),
("skipchr",P,T,R,"    char c;\n    return !ss.fail() && !(ss >> c);"),
("getbad",P,T,R,"    ss.get();\n    return ss.eof();"),
("ok_asn",P,T,S,"    ref.assign(s);\n    return true;"),
("ok_asn2",P,T,S,"    ref.assign(s.data(), s.size());\n    return true;"),
("ok_asn3",P,T,S,"    ref = s.substr(0);\n    return true;"),
("ok_asn4",P,T,S,"    ref = std::string(s);\n    return true;"),
("asn5",P,T,S,"    ref = s.substr(0, 255);\n    return true;"),
("ok_asn6",P,T,S,"    std::string t{s};\n    ref.swap(t);\n    return true;"),
("ok_asn7",P,T,S,"    ref.clear(); ref += s;\n    return true;"),
("ok_asn8",P,T,S,"    ref.assign(s.begin(), s.end());\n    return true;"),
]
