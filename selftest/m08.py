C="source/parser/csv.hpp"
P="C08"
MUTS=[
("ignore_off",P,C,"        for (std::size_t i = 0; i < idx; ++i)\n        {\n            file.ignore","        for (std::size_t i = 1; i < idx; ++i)\n        {\n            file.ignore"),
("ignore_lim",P,C,"            file.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');","            file.ignore(1024, '\\n');"),
("cache_stale",P,C,"        _row_cache = CSVRow{line, idx, _cols_amount, _types, _separator};\n        file.close();\n        return CSVRow{_row_cache};","        CSVRow r{line, idx, _cols_amount, _types, _separator};\n        _row_cache._idx = idx;\n        file.close();\n        return r;"),
("cache_hdr",P,C,"_row_cache  = CSVRow{first_line, 1,","_row_cache  = CSVRow{first_line, 0,"),
("noguard0",P,C,'        if (_rows_amount == 0) throw std::runtime_error("CSV file is empty");\n',''),
("mod_cols",P,C,"idx = idx % _rows_amount;","idx = idx % (_rows_amount + 1);"),
("sepfixed",P,C,"std::count(header.begin(), header.end(), separator)+1","std::count(header.begin(), header.end(), ',')+1"),
("rows_m1",P,C,"++_rows_amount;\n        file.clear","++_rows_amount;\n        if (_rows_amount > 1000) --_rows_amount;\n        file.clear"),
("fieldtype",P,C,"return CSVField{field, _types.at(idx), idx};","return CSVField{field, _types.at(i ? i - 1 : 0), idx};"),
("le",P,C,"if (idx >= this->_cols_amount)","if (idx > this->_cols_amount)"),
("copysep",P,C,"        _separator = obj._separator;\n        return *this;\n    }\n\n    /**\n     * \\brief Operator overloading to print","        return *this;\n    }\n\n    /**\n     * \\brief Operator overloading to print"),
("copycols",P,C,"        _cols_amount = obj._cols_amount;\n        _types = obj._types;","        _types = obj._types;"),
("auto",P,C,"            || types.size() != cols_amount) ","            || types.size() < cols_amount) "),
("countfirst",P,C,"std::count(header.begin(), header.end(), separator)+1","std::count(first_line.begin(), first_line.end(), separator)+1"),
("rowsep",P,C,"_row_cache = CSVRow{line, idx, _cols_amount, _types, _separator};","_row_cache = CSVRow{line, idx, _cols_amount, _types};"),
("eqidx",P,C,"return _line == rhs._line;","return _idx == rhs._idx;"),
("cachecmp",P,C,"if (_row_cache.idx() == idx) return _row_cache;","if (_row_cache.idx() >= idx) return _row_cache;"),
("hdrcache",P,C,"if (_row_cache.idx() == idx) return _row_cache;","if (_row_cache.idx() == idx || idx == 0) return _row_cache;"),
("eofrows",P,C,"for (std::string row; std::getline(file, row); ) ++_rows_amount;","for (std::string row; !file.eof(); ++_rows_amount) std::getline(file, row);"),
("emptyrows",P,C,"for (std::string row; std::getline(file, row); ) ++_rows_amount;","for (std::string row; std::getline(file, row); ) if (!row.empty()) ++_rows_amount;"),
("ok_hdr0",P,C,"if (_row_cache.idx() == idx) return _row_cache;","if (_row_cache.idx() == idx) return _row_cache;\n        if (idx == 0) return _row_header;"),
("ok_while",P,C,"        for (std::size_t i = 0; i < idx; ++i)\n        {\n            file.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');\n        }\n","        std::size_t left = idx;\n        while (left > 0)\n        {\n            file.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');\n            --left;\n        }\n"),
("ok_getline",P,C,"            file.ignore(std::numeric_limits<std::streamsize>::max(), '\\n');\n        }\n\n        std::string line;","            std::string skipped; std::getline(file, skipped);\n        }\n\n        std::string line;"),
("ok_forfield",P,C,"        std::string field;\n        std::size_t i = 0;\n        std::stringstream ss{_line};\n        while(std::getline(ss, field, _separator)) \n        {\n            if(i == idx)\n            {\n                return CSVField{field, _types.at(idx), idx};\n            }\n\n            i++;\n        }\n","        std::stringstream ss{_line};\n        std::string field;\n        for (std::size_t i = 0; i <= idx; ++i)\n        {\n            if (!std::getline(ss, field, _separator)) throw std::runtime_error(\"CSV bad format: fields missing\");\n        }\n        return CSVField{field, _types.at(idx), idx};\n"),
("ok_count",P,C,"for (std::string row; std::getline(file, row); ) ++_rows_amount;","std::string row; std::size_t n = 0; while (std::getline(file, row)) { n += 1; }\n _rows_amount = n;"),
]
