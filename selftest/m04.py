C="source/parser/cifar.hpp"
M="source/parser/mnist.hpp"
P="C04"
MUTS=[
("gc0",P,C,"                data.read(reinterpret_cast<char*>(&_fine_label), 1);\n","                data.read(reinterpret_cast<char*>(&_fine_label), 1);\n                if (data.eof()) data.clear();\n"),
("ok_gc",P,C,"                data.read(reinterpret_cast<char*>(&_fine_label), 1);\n","                data.read(reinterpret_cast<char*>(&_fine_label), 1);\n                if (data.gcount() != 1) throw std::runtime_error(\"short\");\n                data.clear();\n"),
("ok_gc2",P,M,"        data.read(reinterpret_cast<char *>(&_label), 1);\n","        data.read(reinterpret_cast<char *>(&_label), 1);\n        if (data.gcount() < 1) { data.clear(); throw std::runtime_error(\"short\"); }\n"),
("ok_clearthrow",P,C,'            throw std::runtime_error("Batch malformed: could not read label");','            { _batch_ifs.clear(); throw std::runtime_error("Batch malformed: could not read label"); }'),
("noclear",P,C,"        _batch_ifs.clear();","        ;",0),
]
