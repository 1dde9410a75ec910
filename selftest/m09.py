C="source/parser/csv.hpp"
P="C09"
MUTS=[
("hoist",P,C,"            std::string s;\n            std::getline(ss, s, _separator);\n            T t{};","            std::getline(ss, s, _separator);\n            T t{};"),
("hoist2",P,C,"        std::stringstream ss{_line};\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n            std::string s;\n            std::getline(ss, s, _separator);\n            T t{};\n            _tc.template operator()<T>(s, t);\n            ret[i] = t;","        std::stringstream ss{_line};\n        std::string s;\n        T t{};\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n            std::getline(ss, s, _separator);\n            _tc.template operator()<T>(s, t);\n            ret[i] = t;"),
("rowsm1",P,C,"        ret.resize(_rows_amount);\n\n        auto file = std::ifstream{_fn};\n        std::string line;\n        for (std::size_t i = 0; i < _rows_amount; ++i)\n        {\n            if (!std::getline(file, line)) break;\n            ret[i] = std::vector<T>","        ret.resize(_rows_amount);\n\n        auto file = std::ifstream{_fn};\n        std::string line;\n        for (std::size_t i = 0; i + 1 < _rows_amount; ++i)\n        {\n            if (!std::getline(file, line)) break;\n            ret[i] = std::vector<T>"),
("insbeg",P,C,"ret.insert(ret.end(), line_vec","ret.insert(ret.begin(), line_vec"),
("sepc",P,C,"auto line_vec = std::vector<T>(CSVRow{line, i, _cols_amount, _types, _separator});","auto line_vec = std::vector<T>(CSVRow{line, i, _cols_amount, _types});"),
("rowidx",P,C,"ret.push_back(CSVRow{line, i, _cols_amount, _types, _separator});","ret.push_back(CSVRow{line, i + 1, _cols_amount, _types, _separator});"),
("typeidx",P,C,"ret.push_back(CSVField{s, _types.at(i), i});","ret.push_back(CSVField{s, _types.at(0), i});"),
("end",P,C,"std::max(_rows_amount, std::size_t{1})","std::max(_rows_amount - 1, std::size_t{1})"),
("endmax",P,C,"std::max(_rows_amount, std::size_t{1}),","_rows_amount,"),
("beg0",P,C,"return CSVIterator{_fn, 1, _cols","return CSVIterator{_fn, 0, _cols"),
("entryi",P,C,"operator[](i + 1));","operator[](i));"),
("entries",P,C,"return rows_size() == 0 ? 0 : rows_size() - 1;","return rows_size() - 1;"),
("feat",P,C,"return cols_size();","return cols_size() - _labels_idx.size();"),
("noclear",P,C,"            _stream.clear();\n",""),
("back0",P,C,"            _row._idx = 0;\n            _stream.clear","            _stream.clear"),
("skip",P,C,"for (std::size_t i = _row._idx + 1; i < _req_row_idx; ++i)","for (std::size_t i = _row._idx; i < _req_row_idx; ++i)"),
("ign",P,C,"            _stream.ignore(\n                std::numeric_limits<std::streamsize>::max(), '\\n');","            _stream.ignore(\n                4096, '\\n');"),
("eq",P,C,"return _req_row_idx == rhs._req_row_idx;","return _row._idx == rhs._row._idx;"),
("post",P,C,"        CSVIterator tmp(*this);\n        operator++();\n        return tmp;","        operator++();\n        CSVIterator tmp(*this);\n        return tmp;"),
("copyrow",P,C,"        , _row{std::string(), 0, obj._row._cols_amount, \n","        , _row{std::string(), obj._row._idx, obj._row._cols_amount, \n"),
("hdrtypes",P,C,"            std::stringstream ss{first_line};","            std::stringstream ss{header};"),
("lt",P,C,"if (_req_row_idx < _row._idx) ","if (_req_row_idx + 1 < _row._idx) "),
("nobreak",P,C,"            if (!std::getline(file, line)) break;\n            ret[i] = line;","            if (!std::getline(file, line) || line.empty()) break;\n            ret[i] = line;"),
("skipempty",P,C,"            if (!std::getline(file, line)) break;\n            ret[i] = line;","            if (!std::getline(file, line)) break;\n            if (line.empty()) continue;\n            ret[i] = line;"),
("skiprow",P,C,"            if (!std::getline(file, line)) break;\n            ret.push_back(","            if (!std::getline(file, line)) break;\n            if (line.empty()) continue;\n            ret.push_back("),
("ok_push",P,C,"        std::vector<T> ret;\n        ret.resize(_cols_amount);\n        std::stringstream ss{_line};\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n            std::string s;\n            std::getline(ss, s, _separator);\n            T t{};\n            _tc.template operator()<T>(s, t);\n            ret[i] = t;\n        }","        std::vector<T> ret;\n        ret.reserve(_cols_amount);\n        std::stringstream ss{_line};\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n            std::string s;\n            std::getline(ss, s, _separator);\n            T t{};\n            _tc.template operator()<T>(s, t);\n            ret.push_back(t);\n        }"),
("ok_while",P,C,"        auto file = std::ifstream{_fn};\n        std::string line;\n        for (std::size_t i = 0; i < _rows_amount; ++i)\n        {\n            if (!std::getline(file, line)) break;\n            ret[i] = line;\n        }","        auto file = std::ifstream{_fn};\n        std::string line;\n        std::size_t i = 0;\n        while (i < _rows_amount && std::getline(file, line))\n        {\n            ret[i] = line;\n            ++i;\n        }"),
("ok_upd",P,C,"            _row._idx = 0;\n            _stream.clear();\n            _stream.seekg(0);\n            std::getline(_stream, _row._line);","            _stream.clear();\n            _stream.seekg(0);\n            std::getline(_stream, _row._line);\n            _row._idx = 0;"),
("ok_upd2",P,C,"        for (std::size_t i = _row._idx + 1; i < _req_row_idx; ++i)\n        {\n            _stream.ignore(\n                std::numeric_limits<std::streamsize>::max(), '\\n');\n        }\n\n        if (_row._idx != _req_row_idx)\n        {\n            std::getline(_stream, _row._line);\n            _row._idx = _req_row_idx;\n        }","        while (_row._idx < _req_row_idx)\n        {\n            std::getline(_stream, _row._line);\n            ++_row._idx;\n        }"),
("ok_resize",P,C,"        std::vector<std::string> ret;\n        ret.resize(_rows_amount);","        std::vector<std::string> ret(_rows_amount);"),
("ok_entries",P,C,"return rows_size() == 0 ? 0 : rows_size() - 1;","if (_rows_amount > 0) return _rows_amount - 1;\n        return 0;"),
("ok_end",P,C,"std::max(_rows_amount, std::size_t{1})","(_rows_amount < 1 ? std::size_t{1} : _rows_amount)"),
]
