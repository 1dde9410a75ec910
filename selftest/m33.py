DE="source/dnn/dense.cpp"; CO="source/dnn/convolutional.cpp"; PO="source/dnn/pooling.cpp"; FF="source/dnn/feedforward.cpp"; LA="source/dnn/layer.cpp"
DR="source/dnn/dropout.cpp"; AC="source/dnn/activation.cpp"; RE="source/dnn/recurrent.cpp"; MS="source/dnn/mse_loss.cpp"; LO="source/dnn/loss.cpp"
MO="source/dnn/model.cpp"
MUTS=[
# refactorings
("ok_dense_ref","C33",DE,"""    for (SizeType i = 0; i < output_size(); ++i)
    {
        for (SizeType j = 0; j < input_size(); ++j)
        {
            _weights[i * input_size() + j] = in.at(
                dump_fields.at(DumpFields::WEIGHTS)).at(i).at(j);
        }
    }

    for (SizeType i = 0; i < output_size(); ++i)
    {
        _biases[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(i);
    }
""","""    const auto& weights = in.at(dump_fields.at(DumpFields::WEIGHTS));
    const auto biases = in.at(dump_fields.at(DumpFields::BIASES));
    const SizeType rows = output_size(), columns = input_size();
    for (SizeType i = 0; i < rows; ++i)
    {
        const auto& row = weights.at(i);
        for (SizeType j = 0; j < columns; ++j)
        {
            _weights[i * columns + j] = row.at(j);
        }
        _biases[i] = biases.at(i).as<NumType>();
    }
"""),
("ok_dense_vec","C33",DE,"""    for (SizeType i = 0; i < output_size(); ++i)
    {
        _biases[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(i);
    }
""","""    const auto biases = in.at(dump_fields.at(DumpFields::BIASES)).as_vec<NumType>();
    for (SizeType i = 0; i < output_size(); ++i) _biases[i] = biases[i];
"""),
("ok_dense_dumpvec","C33",DE,"""    Json biases;
    for (SizeType i = 0; i < output_size(); ++i)
    {
        biases.append(_biases[i]);
    }

    out[dump_fields.at(DumpFields::WEIGHTS)] = weights;
    out[dump_fields.at(DumpFields::BIASES)] = biases;
""","""    out[dump_fields.at(DumpFields::WEIGHTS)] = weights;
    auto& biases = out[dump_fields.at(DumpFields::BIASES)];
    for (SizeType i = 0; i != output_size(); i++)
    {
        biases.append(Json(_biases[i]));
    }
"""),
("ok_dense_flat_loop","C33",DE,"""    for (SizeType i = 0; i < output_size(); ++i)
    {
        SizeType offset = i * input_size();

        Json weights_row;
        for (SizeType j = 0; j < input_size(); ++j)
        {
            weights_row.append(_weights[offset + j]);
        }
        weights.append(weights_row);
    }
""","""    SizeType w = 0;
    for (SizeType i = 0; i < output_size(); ++i)
    {
        Json weights_row;
        for (SizeType j = input_size(); j > 0; --j, ++w)
        {
            weights_row.append(_weights[w]);
        }
        weights.append(weights_row);
    }
"""),
("ok_type_first","C33",LA,"""    auto t = in.at(dump_fields.at(DumpFields::TYPE));
    if (t.as<std::string>() != type())
    {""","""    const auto& t = in.at(dump_fields.at(DumpFields::TYPE));
    const std::string loaded = t.as<std::string>();
    if (!(loaded == type()))
    {"""),
("ok_shapes_reserve","C33",LA,"""    std::vector<DLMath::Shape3d> output_shapes;
    auto output_shapes_json = in.at(dump_fields.at(DumpFields::OUTPUT_SIZE));
    for (SizeType i = 0; i < output_shapes_json.size(); ++i)
    {
        auto shape = output_shapes_json[i];
        output_shapes.emplace_back(shape[0], shape[1], shape[2]);
    }""","""    std::vector<DLMath::Shape3d> output_shapes;
    const auto& output_shapes_json = in.at(dump_fields.at(DumpFields::OUTPUT_SIZE));
    const SizeType amount = output_shapes_json.size();
    output_shapes.reserve(amount);
    for (SizeType i = 0; i < amount; ++i)
    {
        const auto& shape = output_shapes_json.at(i);
        output_shapes.push_back(DLMath::Shape3d(shape.at(0), shape.at(1), shape.at(2)));
    }"""),
("ok_dropout_local","C33",DR,"""    _drop_probability = in.at(dump_fields.at(DumpFields::OTHERS))
        .at("drop_probability").as<NumType>();
    _scale = (_drop_probability == 1.0) ? 1.0 : 1.0 / (1.0 - _drop_probability);
""","""    const auto others = in.at(dump_fields.at(DumpFields::OTHERS));
    NumType p = others.at("drop_probability");
    _drop_probability = p;
    if (p == 1.0) _scale = 1.0; else _scale = 1.0 / (1.0 - p);
"""),
("ok_dropout_inplace","C33",DR,"""    Json others;
    others["drop_probability"] = _drop_probability;
    out[dump_fields.at(DumpFields::OTHERS)] = others;
""","""    out[dump_fields.at(DumpFields::OTHERS)]["drop_probability"] = _drop_probability;
"""),
("ok_rec_merge","C33",RE,"""    for (SizeType i = 0; i < _hidden_size; ++i)
    {
        _biases_to_h[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(0).at(i);
    }

    for (SizeType i = 0; i < _shared_fields->output_size(); ++i)
    {
        _biases_to_o[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(1).at(i);
    }
""","""    const auto& biases = in.at(dump_fields.at(DumpFields::BIASES));
    SizeType k = 0;
    while (k < _hidden_size) { _biases_to_h[k] = biases.at(0).at(k); k++; }
    for (k = 0; k < _shared_fields->output_size(); ++k) _biases_to_o[k] = biases.at(1).at(k);
"""),
("ok_model_range","C33",MO,"""    for (std::size_t l_i = 0; l_i < _state.layers.size(); ++l_i)
    {
        auto layer_json = Json(model["layers"][l_i]);
        _state.layers[l_i]->load(layer_json);
    }
""","""    std::size_t l_i = 0;
    const auto& layers = model.at("layers");
    for (auto& layer: _state.layers)
    {
        layer->load(layers.at(l_i));
        ++l_i;
    }
"""),
("ok_model_backwards","C33",MO,"""    for (std::size_t l_i = 0; l_i < _state.layers.size(); ++l_i)
    {
        auto layer_json = Json(model["layers"][l_i]);
        _state.layers[l_i]->load(layer_json);
    }
""","""    for (std::size_t l_i = _state.layers.size(); l_i-- > 0;)
    {
        _state.layers[l_i]->load(model["layers"][l_i]);
    }
"""),
("ok_model_dump_copy","C33",MO,"""    for (auto& layer: _state.layers)
    {
        layers_json.append(layer->dump());
    }
    model["layers"] = layers_json;
""","""    for (std::size_t i = 0; i < _state.layers.size(); ++i)
    {
        const auto layer = _state.layers[i];
        layers_json.append(layer->dump());
    }
    model["layers"] = layers_json;
"""),
# breakages
("bad_model_first","C33",MO,'model["layers"][l_i]','model["layers"][l_i / 2]'),
("bad_model_last","C33",MO,"l_i < _state.layers.size(); ++l_i)\n    {\n        auto layer_json","l_i + 1 < _state.layers.size(); ++l_i)\n    {\n        auto layer_json"),
("bad_model_name","C33",MO,'_shared_fields->name() = model["name"].as<std::string>();',''),
("bad_model_key","C33",MO,'model["layers"] = layers_json;','model["layer"] = layers_json;'),
("bad_dense_transposed","C33",DE,"dump_fields.at(DumpFields::WEIGHTS)).at(i).at(j);","dump_fields.at(DumpFields::WEIGHTS)).at(i % input_size()).at(j);"),
("bad_dense_stride","C33",DE,"_weights[i * input_size() + j] = in.at(","_weights[i * output_size() + j] = in.at("),
("bad_dense_gradients_kept","C33",DE,"    _weight_gradients.resize(output_size() * input_size());\n    _bias_gradients.resize(output_size());\n\n    for (SizeType i = 0; i < output_size(); ++i)\n    {\n        for","    _bias_gradients.resize(output_size());\n\n    for (SizeType i = 0; i < output_size(); ++i)\n    {\n        for"),
("bad_conv_offset","C33",CO,"""            SizeType c_offset = c * _shared_fields->input_shape().channels()
                              * _n_filters;
            Json weights_col;""","""            SizeType c_offset = c * _kernel_shape.height()
                              * _n_filters;
            Json weights_col;"""),
("bad_conv_padding","C33",CO,"_padding = DLMath::Shape2d(padding.at(0), padding.at(1));","_padding = DLMath::Shape2d(padding.at(1), padding.at(0));"),
("bad_pool_stride","C33",PO,"std::vector<std::size_t> stride = { _stride.height(), _stride.width() };","std::vector<std::size_t> stride = { _stride.height(), _stride.height() };"),
("bad_ff_inputs","C33",FF,"    _output_activations.resize(output_size());\n    _input_gradients.resize(input_size());\n}","    _output_activations.resize(output_size());\n    _input_gradients.resize(output_size());\n}"),
("bad_layer_size","C33",LA,"    _shared_fields->input_size() = _shared_fields->input_shape().size();\n\n    std::vector<DLMath::Shape3d> output_shapes;","    std::vector<DLMath::Shape3d> output_shapes;"),
("bad_layer_axes","C33",LA,"shape.height(), shape.width(), shape.channels()\n        };\n        output_shape","shape.width(), shape.height(), shape.channels()\n        };\n        output_shape"),
("bad_layer_anytype","C33",LA,"if (t.as<std::string>() != type())","if (t.as<std::string>() != type() && std::string(in.at(dump_fields.at(DumpFields::NAME))) != _shared_fields->name())"),
("ok_layer_none","C33",LA,"if (in.json_type() == JsonObject::JsonType::NONE)","if (in.json_type() == JsonObject::JsonType::LEAF)"),
("bad_dropout_scale","C33",DR,"_scale = (_drop_probability == 1.0) ? 1.0 : 1.0 / (1.0 - _drop_probability);\n}","}"),
("bad_elu_alpha","C33",AC,"others[\"alpha\"] = _alpha;","others[\"alpha\"] = NumType(1.0);"),
("bad_mse","C33",MS,"    _loss_tolerance = in.at(dump_fields.at(DumpFields::OTHERS))","    if (_loss_tolerance == 0.0) _loss_tolerance = in.at(dump_fields.at(DumpFields::OTHERS))"),
("bad_loss_gradients","C33",LO,"    _gradients.resize(input_size());\n}\n\nvoid LossLayer::_set","    _gradients.resize(output_size());\n}\n\nvoid LossLayer::_set"),
("bad_rec_state","C33",RE,"_hidden_state.resize(_hidden_size * std::max(_time_steps, SizeType(1U)));\n    _weights_i_to_h_gradients","_hidden_state.resize(_hidden_size * _time_steps);\n    _weights_i_to_h_gradients"),
("bad_rec_bias","C33",RE,"_biases_to_o[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(1).at(i);","_biases_to_o[i] = in.at(dump_fields.at(DumpFields::BIASES)).at(i < _hidden_size ? 1 : 0).at(i);"),
("bad_rec_weights_order","C33",RE,"    weights.append(weights_h_to_h);\n    weights.append(weights_h_to_o);","    weights.append(weights_h_to_o);\n    weights.append(weights_h_to_h);"),
]
MUTS=[m for m in MUTS if m[3] is not None]
