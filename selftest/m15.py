P="source/parser/parser.hpp"
ROW="""        for (SizeType i = 0; i < entries_amount(); ++i)
        {
            ret.push_back(entry(i)[idx]);
        }

        return {ret.begin(), ret.end()};"""
CP="""                    for (SizeType col_idx = 0; col_idx < feature_size();
                         ++col_idx)
                    {
                        if (label_indexes.find(
                            col_idx) == label_indexes.end())
                        {
                            ret[row_idx * entry_size + input_idx++]
                                = row[col_idx];
                        }
                    }"""
OH="""                        for(SizeType col_idx = 0; col_idx < one_hot_size;
                            ++col_idx)
                        {
                            ret[row_idx * entry_size + col_offset + col_idx] =
                                col_idx == one_hot_idx ?
                                NumType(1) : NumType(0);
                        }
"""
MUTS=[
("uniq_last","C15",P,"i < entries_amount(); ++i)\n        {\n            ret.push","i + 1 < entries_amount(); ++i)\n        {\n            ret.push"),
("uniq_skip_first","C15",P,ROW,ROW.replace("i = 0","i = 1")),
("uniq_fixed","C15",P,"entry(i)[idx]","entry(i)[0]"),
("uniq_first","C15",P,"entry(i)[idx]","entry(0)[idx]"),
("map_pre","C15",P,"value_to_index[l] = i++;","value_to_index[l] = ++i;"),
("map_start","C15",P,"        SizeType i = 0;\n        for (const auto& l","        SizeType i = 1;\n        for (const auto& l"),
("map_otheridx","C15",P,"auto unique_set = unique(idx);","auto unique_set = unique(idx + 1);"),
("width_nolabels","C15",P,"SizeType entry_size = feature_size() - labels_idx().size();","SizeType entry_size = feature_size();"),
("width_assign","C15",P,"entry_size += one_hot_label_map.size();\n                }\n                return","entry_size = one_hot_label_map.size() + feature_size() - labels_idx().size();\n                }\n                return"),
("width_minus1","C15",P,"entry_size += one_hot_label_map.size();\n                }\n                return","entry_size += one_hot_label_map.size() - 1;\n                }\n                return"),
("width_col0","C15",P,"auto one_hot_label_map = unique(label_idx);","auto one_hot_label_map = unique(0); (void) label_idx;"),
("lab_end","C15",P,"i < encoding_entry_size; ++i","i < encoding_entry_size - 1; ++i"),
("lab_from0","C15",P,"SizeType i = trainset_idx_offset; i","SizeType i = 0; i"),
("lab_fs","C15",P,"i < encoding_entry_size; ++i","i < feature_size(); ++i"),
("lab_default_swap","C15",P,"                return labels_idx();","                return {feature_size() - 1};"),
("def_stride","C15",P,"ret[row_idx * feature_size() + col_idx] = row[col_idx];","ret[row_idx * labels_idx().size() + col_idx] = row[col_idx];"),
("def_swap","C15",P,"ret[row_idx * feature_size() + col_idx] = row[col_idx];","ret[row_idx + col_idx * entries_amount()] = row[col_idx];"),
("def_row","C15",P,"ret[row_idx * feature_size() + col_idx] = row[col_idx];","ret[row_idx * feature_size() + col_idx] = row[feature_size() - 1 - col_idx];"),
("oh_inputs_gap","C15",P,CP,CP.replace("input_idx++","col_idx")),
("oh_inputs_inv","C15",P,"col_idx) == label_indexes.end())","col_idx) != label_indexes.end())"),
("oh_inputs_last","C15",P,CP,CP.replace("col_idx < feature_size();","col_idx + 1 < feature_size();")),
("oh_inputs_val","C15",P,"                                = row[col_idx];","                                = row[input_idx];"),
("oh_offset_stuck","C15",P,"                        col_offset += one_hot_size;","                        col_offset = feature_size() - label_indexes.size() + one_hot_size;"),
("oh_offset_one","C15",P,"                        col_offset += one_hot_size;","                        col_offset += label_indexes.size();"),
("oh_offset_fs","C15",P,"SizeType col_offset = feature_size() - label_indexes.size();","SizeType col_offset = label_indexes_vec[0];"),
("oh_label0","C15",P,"auto label_value = row[label_indexes_vec[i]];","auto label_value = row[label_indexes_vec[0] + i];"),
("oh_map0","C15",P,"                            one_hot_label_maps[i];","                            one_hot_label_maps[0];"),
("oh_ge","C15",P,"col_idx == one_hot_idx ?","col_idx >= one_hot_idx ?"),
("oh_swap","C15",P,"NumType(1) : NumType(0);","NumType(0) : NumType(1);"),
("oh_size_m1","C15",P,"col_idx < one_hot_size;","col_idx < one_hot_size - 1;"),
("oh_rows","C15",P,"std::vector<NumType> ret(entry_size * entries_amount());","std::vector<NumType> ret(feature_size() * entries_amount());"),
("oh_width_map","C15",P,"                    auto one_hot_label_map = unique_map(\n                        label_idx);","                    auto one_hot_label_map = unique_map(\n                        *label_indexes.begin()); (void) label_idx;"),
("ok_uniq_set","C15",P,"""        std::vector<NumType> ret;

"""+ROW,"""        std::set<NumType> ret;
        const SizeType n = entries_amount();
        for (SizeType i = 0; i < n; ++i)
        {
            auto row = entry(i);
            ret.insert(row[idx]);
        }

        return ret;"""),
("ok_uniq_while","C15",P,ROW,"""        SizeType i = 0;
        while (i < entries_amount())
        {
            const auto row = entry(i++);
            ret.push_back(row.at(idx));
        }
        std::set<NumType> values(ret.begin(), ret.end());
        return values;"""),
("ok_uniq_rev","C15",P,ROW,"""        for (SizeType i = entries_amount(); i-- > 0;)
        {
            ret.push_back(entry(i)[idx]);
        }

        return {ret.begin(), ret.end()};"""),
("ok_map_size","C15",P,"value_to_index[l] = i++;","value_to_index[l] = value_to_index.size() - 1; ++i;"),
("ok_map_emplace","C15",P,"value_to_index[l] = i++;","value_to_index.emplace(l, i); ++i;"),
("ok_map_iter","C15",P,"        for (const auto& l: unique_set)\n        {\n            value_to_index[l] = i++;","        for (auto it = unique_set.begin(); it != unique_set.end(); ++it)\n        {\n            value_to_index[*it] = i;\n            i += 1;"),
("ok_width_var","C15",P,"""                SizeType entry_size = feature_size() - labels_idx().size();
                for (const auto& label_idx: labels_idx())
                {
                    auto one_hot_label_map = unique(label_idx);
                    entry_size += one_hot_label_map.size();
                }
                return entry_size;""","""                const auto label_indexes = labels_idx();
                SizeType encoded = 0;
                for (const auto& label_idx: label_indexes)
                {
                    encoded += unique_map(label_idx).size();
                }
                return encoded + feature_size() - label_indexes.size();"""),
("ok_if","C15",P,"""        switch(label_encoding)
        {
            case LabelEncoding::ONE_HOT_ENCODING:
            {
                std::set<SizeType> encoding_label_indexes;""","""        if (label_encoding != LabelEncoding::ONE_HOT_ENCODING) return labels_idx();
        switch(label_encoding)
        {
            case LabelEncoding::ONE_HOT_ENCODING:
            {
                std::set<SizeType> encoding_label_indexes;"""),
("ok_count","C15",P,"if (label_indexes.find(\n                            col_idx) == label_indexes.end())","if (label_indexes.count(col_idx) == 0)"),
("ok_continue","C15",P,CP,"""                    for (SizeType col_idx = 0; col_idx < feature_size();
                         ++col_idx)
                    {
                        if (label_indexes.find(
                            col_idx) != label_indexes.end()) continue;
                        ret[row_idx * entry_size + input_idx] = row[col_idx];
                        ++input_idx;
                    }"""),
("ok_oh_set","C15",P,OH,"""                        ret[row_idx * entry_size + col_offset + one_hot_idx] = NumType(1);
"""),
("ok_oh_if","C15",P,OH,"""                        for(SizeType col_idx = 0; col_idx < one_hot_size;
                            ++col_idx)
                        {
                            auto& cell = ret[row_idx * entry_size + col_offset + col_idx];
                            cell = NumType(0);
                            if (one_hot_idx == col_idx) cell = NumType(1);
                        }
"""),
("ok_oh_hoist","C15",P,"                    auto row = entry(row_idx);\n\n","                    auto row = entry(row_idx);\n                    const SizeType base = row_idx * entry_size;\n                    (void) base;\n\n"),
("ok_oh_order","C15",P,"""                        auto one_hot_size = one_hot_label_map.size();
                        auto one_hot_idx = one_hot_label_map.at(
                            label_value);""","""                        auto one_hot_idx = one_hot_label_map.at(
                            row[label_indexes_vec[i]]);
                        auto one_hot_size = one_hot_label_maps.at(i).size();
                        (void) label_value;"""),
("ok_def_insert","C15",P,"""                std::vector<NumType> ret(feature_size() * entries_amount());
                for (SizeType row_idx = 0; row_idx < entries_amount();
                     ++row_idx)
                {
                    auto row = entry(row_idx);
                    for (SizeType col_idx = 0; col_idx < feature_size();
                         ++col_idx)
                    {
                        ret[row_idx * feature_size() + col_idx] = row[col_idx];
                    }
                }
                return ret;""","""                std::vector<NumType> ret;
                for (SizeType row_idx = 0; row_idx < entries_amount();
                     ++row_idx)
                {
                    auto row = entry(row_idx);
                    ret.insert(ret.end(), row.begin(), row.begin() + static_cast<long>(feature_size()));
                }
                return ret;"""),
("ok_helper","C15",P,["x"],""),
]
MUTS=[m for m in MUTS if m[0]!="ok_helper"]
MUTS+=[
("width_const","C15",P,"""                    entry_size += one_hot_label_map.size();
                }
                return entry_size;""","""                    entry_size += one_hot_label_map.size() > 1 ? one_hot_label_map.size() : 0;
                }
                return entry_size;"""),
("ok_width_zero","C15",P,"""                    entry_size += one_hot_label_map.size();
                }
                return entry_size;""","""                    if (one_hot_label_map.size() != 0) entry_size += one_hot_label_map.size();
                }
                return entry_size;"""),
("ok_width_zero2","C15",P,"""                    entry_size += one_hot_label_map.size();
                }
                return entry_size;""","""                    entry_size += one_hot_label_map.size() > 0 ? one_hot_label_map.size() : 0;
                }
                return entry_size;"""),
("ok_width_empty","C15",P,"""                    entry_size += one_hot_label_map.size();
                }
                return entry_size;""","""                    if (!one_hot_label_map.empty()) entry_size += one_hot_label_map.size();
                }
                return entry_size;"""),
]
