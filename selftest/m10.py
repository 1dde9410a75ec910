C="source/parser/csv.hpp"
P="C10"
MUTS=[
("rowbyval",P,C,"    CSVRow(std::string line, std::size_t row_idx, std::size_t cols_amount, \n        std::vector<TypeChecker::Type>& types, char","    CSVRow(std::string line, std::size_t row_idx, std::size_t cols_amount, \n        std::vector<TypeChecker::Type> types, char"),
("fieldbyval",P,C,"CSVField(std::string field, TypeChecker::Type& type, std::size_t col_index)","CSVField(std::string field, TypeChecker::Type type, std::size_t col_index)"),
("localtypes",P,C,"        std::string line;\n        std::getline(file, line);\n        _row_cache = CSVRow{line, idx, _cols_amount, _types, _separator};\n        file.close();\n        return CSVRow{_row_cache};","        std::string line;\n        std::getline(file, line);\n        auto types = _types;\n        CSVRow row{line, idx, _cols_amount, types, _separator};\n        _row_cache = row;\n        file.close();\n        return row;"),
("copydef",P,C,"""    CSV(const CSV& obj)
        : DatasetParser(obj)
        , _fn{obj._fn}
        , _types{obj._types}
        , _row_header{obj._row_header._line, obj._row_header._idx,
                      obj._row_header._cols_amount, _types, obj._separator}
        , _row_cache{obj._row_cache._line, obj._row_cache._idx,
                     obj._row_cache._cols_amount, _types, obj._separator}
        , _cols_amount{obj._cols_amount}
        , _rows_amount{obj._rows_amount}
        , _separator{obj._separator}
        , _labels_idx{obj._labels_idx}
    { }""","    CSV(const CSV& obj) = default;"),
("copyidx",P,C,"_row_cache{obj._row_cache._line, obj._row_cache._idx,","_row_cache{obj._row_cache._line, obj._row_header._idx,"),
("ok_copy",P,C,"        , _row_header{obj._row_header._line, obj._row_header._idx,\n                      obj._row_header._cols_amount, _types, obj._separator}","        , _row_header{obj._row_header._line, 0,\n                      obj._cols_amount, _types, obj._separator}"),
]
