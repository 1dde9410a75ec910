D="source/data/dataset.hpp"
RES="""                if (_data[idx] > max_vec[col]) max_vec[col] = _data[idx];
                if (_data[idx] < min_vec[col]) min_vec[col] = _data[idx];
"""
LAB="""        for (auto it = _labels_idx.begin(); it != _labels_idx.end(); )
        {
            if (*it >= _feature_size) _labels_idx.erase(it++); else ++it;
        }
"""
INP="""        for (SizeType idx_val = 0; idx_val < _feature_size; ++idx_val)
        {
            if (_labels_idx.find(idx_val) == _labels_idx.end())
            {
                _input_idx.insert(idx_val);
            }
        }
"""
SHUF="""                new_data[new_idx * _feature_size + i]
                    = _data[curr_idx * _feature_size + i];
"""
SETCOPY="""        for (const auto& idx: set_idx)
        {
            dst[i++] = _data[data_entry_idx + idx];
        }
        return dst;
"""
MUTS=[
("vec_noresize","C31",D,"        _data.resize(_dataset_size);\n\n        // Init indexes set.","        // Init indexes set.",0),
("vec_seqmin","C31",D,"SizeType(_data.size() / std::max(_feature_size, SizeType(1))))}","SizeType(_data.size()))}"),
("vec_dsround","C31",D,"* (_feature_size * _sequence_size)}","* _feature_size}"),
("vec_label_gt","C31",D,"if (*it >= _feature_size) _labels_idx.erase(it++)","if (*it > _feature_size) _labels_idx.erase(it++)",0),
("mat_label_gt","C31",D,"if (*it >= _feature_size) _labels_idx.erase(it++)","if (*it > _feature_size) _labels_idx.erase(it++)",1),
("cub_label_gt","C31",D,"if (*it >= _feature_size) _labels_idx.erase(it++)","if (*it > _feature_size) _labels_idx.erase(it++)",2),
("set_label_gt","C31",D,"if (*it >= _feature_size) _labels_idx.erase(it++)","if (*it > _feature_size) _labels_idx.erase(it++)",3),
("label_keep_inputs","C31",D,"        _input_idx.clear();\n",""),
("mat_max","C31",D,"_feature_size = std::min(v.size(), _feature_size);","_feature_size = std::max(v.size(), _feature_size);",0),
("cub_seq_first","C31",D,"                _sequence_size = std::min(m.size(), _sequence_size);\n",""),
("cub_tail","C31",D,"const auto& v = m[i];","const auto& v = m[m.size() - _sequence_size + i];"),
("seq_nofa","C31",D,"        _feature_amount = _sequence_size * _sequence_amount;\n        _data","        _data"),
("seq_noresize","C31",D,"        _feature_amount = _sequence_size * _sequence_amount;\n        _data.resize(_dataset_size);","        _feature_amount = _sequence_size * _sequence_amount;"),
("entry_off","C31",D,"if (row_idx >= _feature_amount) return {};\n        return {","if (row_idx > _feature_amount) return {};\n        return {"),
("entry_seq_one","C31",D,"+ long(_sequence_size * _feature_size)};","+ long(_feature_size)};"),
("input_all","C31",D,"if (_input_idx.size() == _feature_size) return entry(row_idx);","if (_input_idx.size() >= _labels_idx.size()) return entry(row_idx);"),
("inputs_seq_entry","C31",D,"return entry_seq(seq_idx);","return entry(seq_idx);"),
("inputs_fs","C31",D,"return Dataset<T>(ret, _input_idx.size(), _sequence_size);","return Dataset<T>(ret, _feature_size, _sequence_size);"),
("labels_seq1","C31",D,"return Dataset<T>(ret, _labels_idx.size(), _sequence_size);","return Dataset<T>(ret, _labels_idx.size());"),
("labels_row","C31",D,"                ret[(row_i * _labels_idx.size()) + labels_col_i++]\n                    = _data[(row_i * _feature_size) + col_i];","                ret[(row_i * _labels_idx.size()) + labels_col_i++]\n                    = _data[(row_i * _feature_size) + labels_col_i - 1];"),
("seq_field_nostep","C31",D,"            data_entry_idx += _feature_size;\n","            data_entry_idx += set_idx.size();\n"),
("seq_label_off","C31",D,"if (seq_idx >= _sequence_amount || _labels_idx.empty()) return {};","if (seq_idx > _sequence_amount || _labels_idx.empty()) return {};"),
("size_seq","C31",D,"SizeType size() const { return _feature_amount; };","SizeType size() const { return _sequence_amount; };"),
("mat_unfix","C31",D,"        _feature_amount = _sequence_amount * _sequence_size;\n        _dataset_size","        _dataset_size",0),
("seq_unfix","C31",D,"        _sequence_amount = _feature_amount\n            / std::max(_sequence_size, SizeType(1));","        _sequence_amount = _feature_amount / _sequence_size;"),
("sub_noclamp","C32",D,"            to = _feature_amount;\n","            to = _feature_amount - 1;\n"),
("sub_throw","C32",D,"if (from > to)","if (from >= to)"),
("sub_nolabels","C32",D,"_feature_size, _sequence_size, _labels_idx);","_feature_size, _sequence_size);"),
("sub_noseq","C32",D,"_feature_size, _sequence_size, _labels_idx);","_feature_size, 1, _labels_idx);"),
("perc_round","C32",D,"            perc * static_cast<NumType>(_feature_amount));","            perc * static_cast<NumType>(_feature_amount) + 0.5);"),
("split_noround","C32",D,"            / static_cast<NumType>(_sequence_size)) * _sequence_size;","            );"),
("split_to1","C32",D,"subdata(to, _feature_amount)","subdata(to + 1, _feature_amount)"),
("split_clamp","C32",D,"        if (perc > 1.0) perc = 1.0;\n        if (perc < 0.0) perc = 0.0;\n        auto to = static_cast<SizeType>(perc\n","        if (perc < 0.0) perc = 0.0;\n        auto to = static_cast<SizeType>(perc\n"),
("pair_swap","C32",D,": training_set(train_set)\n            , testing_set(test_set)",": training_set(test_set)\n            , testing_set(train_set)"),
("shuf_cell","C32",D,SHUF,SHUF.replace("new_idx * _feature_size + i","new_idx + i * _feature_amount")),
("shuf_mod","C32",D,SHUF,SHUF.replace("new_data[new_idx *","new_data[shuffle_indexes[i % _feature_amount] *")),
("shuf_nolast","C32",D,"curr_idx < _feature_amount; ++curr_idx)","curr_idx + 1 < _feature_amount; ++curr_idx)"),
("norm_all","C32",D,"        if (idx_vec.empty())\n","        if (true)\n"),
("norm_max","C32",D,"- min) / (max - min);","- min) / max;"),
("norm_first","C32",D,"for (std::size_t row = 0; row < _feature_amount; ++row)\n        {\n            for (const auto& col: idx_vec)","for (std::size_t row = 1; row < _feature_amount; ++row)\n        {\n            for (const auto& col: idx_vec)"),
("norm_thr","C32",D,"        if (min == max) {","        if (min > max) {"),
("auto_else","C32",D,RES,RES.replace("                if (_data[idx] <","                else if (_data[idx] <").replace("> max_vec[col]) max_vec[col] = _data[idx];","> min_vec[col]) max_vec[col] = _data[idx];")),
("auto_row0","C32",D,"            max_vec[col] = _data[col];\n",""),
("auto_skip","C32",D,"for (std::size_t row = 1; row < _feature_amount; ++row)","for (std::size_t row = 1; row + 1 < _feature_amount; ++row)"),
("norm_unfix","C32",D,"        if (_data.empty()) return *this;\n\n",""),
("cat_d1","C32",D,"if (d1.empty()) return d2;","if (d1.empty()) return d1;"),
("cat_axis","C32",D,"if (axis != 2 && d1._labels_idx","if (axis == 0 && d1._labels_idx"),
("cat_lab","C32",D,"axis == 2 ? std::set<SizeType>() : d1._labels_idx","d1._labels_idx"),
("cat_shape","C32",D,"res, res_shape[2], res_shape[1],","res, res_shape[2], d1._sequence_size,"),
("cat_swap","C32",D,"DLMath::concatenate(res.data(),\n                            d1._data.data(), d1_shape,\n                            d2._data.data(), d2_shape, axis);","DLMath::concatenate(res.data(),\n                            d2._data.data(), d2_shape,\n                            d1._data.data(), d1_shape, axis);"),
("parse_enc","C32",D,"dataset_parser.encoding_labels_idx(label_encoding)","dataset_parser.encoding_labels_idx()"),
("parse_seq","C32",D,"                sequence_size,\n                dataset_parser","                1,\n                dataset_parser"),
# refactorings
("ok_lab_iter","C31",D,LAB,"""        for (auto it = _labels_idx.begin(); it != _labels_idx.end(); )
        {
            if (!(*it < _feature_size)) it = _labels_idx.erase(it);
            else ++it;
        }
""",0),
("ok_lab_lower","C31",D,LAB,"        _labels_idx.erase(_labels_idx.lower_bound(_feature_size), _labels_idx.end());\n",1),
("ok_lab_post","C31",D,LAB,"""        auto it = _labels_idx.begin();
        while (it != _labels_idx.end())
        {
            const SizeType value = *it;
            it++;
            if (value >= _feature_size) _labels_idx.erase(value);
        }
""",3),
("ok_count","C31",D,INP,INP.replace("_labels_idx.find(idx_val) == _labels_idx.end()","_labels_idx.count(idx_val) == 0").replace("++idx_val","idx_val++"),0),
("ok_inp_continue","C31",D,INP,"""        for (SizeType idx_val = 0; idx_val < _feature_size; ++idx_val)
        {
            if (_labels_idx.find(idx_val) != _labels_idx.end()) continue;
            _input_idx.insert(_input_idx.end(), idx_val);
        }
""",3),
("ok_helper","C31",[(D,"        for (auto it = _labels_idx.begin(); it != _labels_idx.end(); )\n        {\n            if (*it >= _feature_size) _labels_idx.erase(it++); else ++it;\n        }\n        _input_idx.clear();\n"+INP,"        _split_columns();\n"),
  (D,"private:\n","private:\n    void _split_columns()\n    {\n"+LAB+"        _input_idx.clear();\n"+INP+"    }\n")],None,None),
("ok_ctorassign","C31",D,"        , _feature_amount{_dataset_size / std::max(_feature_size, SizeType(1))}","        , _feature_amount{_feature_size == 0 ? _dataset_size : _dataset_size / _feature_size}"),
("ok_entry_assign","C31",D,"""        return {_data.begin() + long(row_idx * _feature_size),
                _data.begin() + long(row_idx * _feature_size)
                    + long(_feature_size)};""","""        auto first = _data.begin() + static_cast<std::ptrdiff_t>(row_idx * _feature_size);
        std::vector<T> ret(first, first + static_cast<std::ptrdiff_t>(_feature_size));
        return ret;"""),
("ok_entry_loop","C31",D,"""        return {_data.begin() + long(row_idx * _feature_size),
                _data.begin() + long(row_idx * _feature_size)
                    + long(_feature_size)};""","""        std::vector<T> ret;
        ret.reserve(_feature_size);
        for (SizeType i = 0; i < _feature_size; ++i)
        {
            ret.push_back(_data[row_idx * _feature_size + i]);
        }
        return ret;"""),
("ok_input_noshort","C31",D,"        if (_input_idx.size() == _feature_size) return entry(row_idx);\n",""),
("ok_field_push","C31",D,"        std::vector<T> dst(set_idx.size());\n        auto data_entry_idx = row_idx * _feature_size;\n        SizeType i = 0;\n"+SETCOPY,"""        std::vector<T> dst;
        dst.reserve(set_idx.size());
        for (auto it = set_idx.begin(); it != set_idx.end(); ++it)
        {
            dst.push_back(_data[row_idx * _feature_size + *it]);
        }
        return dst;
"""),
("ok_field_twice","C31",D,"            dst[i++] = _data[data_entry_idx + idx];\n        }\n        return dst;","            auto x = _data[data_entry_idx + idx];\n            dst[i] = x;\n            i += 1;\n        }\n        return dst;"),
("ok_inputs_incr","C31",D,"            std::size_t trainset_col_i = 0;\n            for (const auto& col_i: _input_idx)\n            {\n                ret[(row_i * _input_idx.size()) + trainset_col_i++]\n                    = _data[(row_i * _feature_size) + col_i];\n            }","            const auto values = input(row_i);\n            for (std::size_t k = 0; k < values.size(); ++k)\n            {\n                ret[row_i * values.size() + k] = values[k];\n            }"),
("ok_seq_swap","C31",D,"        _dataset_size = _sequence_size * _sequence_amount * _feature_size;\n        _feature_amount = _sequence_size * _sequence_amount;\n","        _feature_amount = _sequence_size * _sequence_amount;\n        _dataset_size = _feature_amount * _feature_size;\n"),
("ok_sub_min","C32",D,"        if (to > _feature_amount)\n        {\n            to = _feature_amount;\n        }\n","        to = std::min(to, _feature_amount);\n"),
("ok_perc_clamp","C32",D,"        if (perc > 1.0) perc = 1.0;\n        if (perc < 0.0) perc = 0.0;\n        auto to = static_cast<SizeType>(\n","        perc = std::max(0.0, std::min(perc, 1.0));\n        auto to = static_cast<SizeType>(\n"),
("ok_split_int","C32",D,"        return SplitDataset(subdata(0, to), subdata(to, _feature_amount));","        auto train = subdata(0, to);\n        auto test = subdata(to, _feature_amount);\n        return SplitDataset(train, test);"),
("ok_shuf_gather","C32",D,SHUF,SHUF.replace("new_data[new_idx *","new_data[curr_idx *").replace("_data[curr_idx *","_data[new_idx *",2).replace("new_data[new_idx * _feature_size + i]\n","new_data[curr_idx * _feature_size + i]\n")),
("ok_shuf_swap","C32",D,"        _data = new_data;\n        return *this;\n    }\n\n    Dataset<T>& min_max","        _data.swap(new_data);\n        return *this;\n    }\n\n    Dataset<T>& min_max"),
("ok_shuf_copy","C32",D,"            for (std::size_t i = 0; i < _feature_size; ++i)\n            {\n"+SHUF+"            }\n","            std::copy(_data.begin() + long(curr_idx * _feature_size),\n                      _data.begin() + long((curr_idx + 1) * _feature_size),\n                      new_data.begin() + long(new_idx * _feature_size));\n"),
("ok_norm_range","C32",D,"        for (std::size_t row = 0; row < _feature_amount; ++row)\n        {\n            for (const auto& col: idx_vec)\n            {\n                _data[row * _feature_size + col]\n                    = (_data[row * _feature_size + col] - min) / (max - min);","        const T range = max - min;\n        for (std::size_t row = 0; row < _feature_amount; ++row)\n        {\n            for (const auto& col: idx_vec)\n            {\n                auto& x = _data[row * _feature_size + col];\n                x = (x - min) / range;"),
("ok_auto_max","C32",D,RES,"                max_vec[col] = std::max(max_vec[col], _data[idx]);\n                min_vec[col] = std::min(min_vec[col], _data[idx]);\n"),
("ok_auto_colmajor","C32",D,"        for (std::size_t row = 1; row < _feature_amount; ++row)\n        {\n            for (std::size_t col = 0; col < _feature_size; ++col)\n            {\n","        for (std::size_t col = 0; col < _feature_size; ++col)\n        {\n            for (std::size_t row = 1; row < _feature_amount; ++row)\n            {\n",0),
("ok_cat_order","C32",D,"        if (axis > 2)\n        {\n            throw std::runtime_error(\n                \"Axis overflow: axis param is out of range [0,2]\");\n        }\n        if (axis != 2 && d1._labels_idx != d2._labels_idx)\n        {","        if (axis >= 3)\n        {\n            throw std::runtime_error(\n                \"Axis overflow: axis param is out of range [0,2]\");\n        }\n        if (!(d1._labels_idx == d2._labels_idx) && axis != 2)\n        {"),
("ok_cat_if","C32",D,"        return Dataset<T>(res, res_shape[2], res_shape[1],\n                          axis == 2 ? std::set<SizeType>() : d1._labels_idx);","        std::set<SizeType> result_labels;\n        if (axis != 2) result_labels = d1._labels_idx;\n        return Dataset<T>(res, res_shape[2], res_shape[1], result_labels);"),
("ok_parse_var","C32",D,"""        return Dataset<T>(
                dataset_parser.data_to_encoding(label_encoding),
                dataset_parser.encoding_feature_size(label_encoding),
                sequence_size,
                dataset_parser.encoding_labels_idx(label_encoding)
            );""","""        const auto width = dataset_parser.encoding_feature_size(label_encoding);
        auto labels = dataset_parser.encoding_labels_idx(label_encoding);
        auto values = dataset_parser.data_to_encoding(label_encoding);
        Dataset<T> result(values, width, sequence_size, labels);
        return result;"""),
]
