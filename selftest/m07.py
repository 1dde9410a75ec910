T="source/parser/type_checker.hpp"; C="source/parser/csv.hpp"
MUTS=[
("as_uninit","C07",C,"        T ret{};\n        as(ret);","        T ret;\n        as(ret);"),
("noeof","C07",T,"return !ss.fail() && ss.eof();","return !ss.fail();"),
("or","C07",T,"return !ss.fail() && ss.eof();","return !ss.fail() || ss.eof();"),
("ok_helper","C07",T,"return !ss.fail() && ss.eof();","if (ss.fail()) return false;\n    bool e = ss.eof(); return e;"),
("ok_if","C07",T,"    ss >> ref;\n    return !ss.fail() && ss.eof();","    if (!(ss >> ref)) return false;\n    return ss.eof();"),
("bool1","C07",T,'if (s == "true" || s == "1")','if (s == "true")'),
("booltrue","C07",T,'if (s == "true" || s == "1")','if (s == "true" || s == "1" || s == "yes")'),
("rowidx","C07",C,"        , _idx{obj._idx}\n","        \n",0),
("tmpint","C07",T,"    ss >> ref;\n","    long x{}; ss >> x; ref = static_cast<T>(x);\n"),
("boolflip","C07",T,'return v ? "true" : "false";','return v ? "false" : "true";'),
("matuninit","C07",C,"            T t{};\n","            T t;\n"),
("strmod","C07",T,"    ref = s;\n    return true;","    ref = s.substr(1);\n    return true;"),
]
