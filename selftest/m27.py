R="source/dnn/recurrent.cpp"
M="source/dnn/model.cpp"
STEPF="""    for (const auto& forward_arc: _state.training_forward_run)
    {
        forward_arc.to->training_forward(forward_arc.from->last_output());
    }
"""
STEPB="""    for (const auto& backward_arc: _state.backward_run)
    {
        backward_arc.to->backward(backward_arc.from->last_input_gradient());
    }
"""
LOSSB="""    for (auto loss_layer: _state.loss_layers)
    {
        loss_layer->backward(not_used);
    }
"""
TARGET="""    for (auto loss_layer: _state.loss_layers)
    {
        loss_layer->set_target(target);
    }
"""
INPUT="""    for (auto input_layer: _state.input_layers)
    {
        input_layer->training_forward(input);
    }
"""
TRAIN2="""    for (const auto& layer: model_from._state.layers)
    {
        optimizer.train(*layer);
    }
#endif"""
INIT="""            case InitializationFunction::XAVIER:
            {
                layer->init("""
UPD="""        // Update next hidden state for next time step.
        for (SizeType j = 0; j < _hidden_size; ++j)
        {
            tmp_mul[j] = NumType(0.0);
            for (SizeType i = 0; i < _hidden_size; ++i)
            {
                tmp_mul[j] += _weights_h_to_h[(i * _hidden_size) + j] 
                    * next_hidden_state[i];
            }
        }
        next_hidden_state = std::vector<NumType>(tmp_mul, 
            tmp_mul + _hidden_size);"""
BIASO="""        DLMath::arr_sum(
            _biases_to_o_gradients.data(), 
            _biases_to_o_gradients.data(),
            curr_sequence_gradients, _shared_fields->output_size());
"""
MUTS=[
# the recurrent layer
("bad_tanh_of_tanh","C27",R,"DLMath::tanh_1_opt<NumType>(","DLMath::tanh_1<NumType>("),
("bad_prev_is_slot","C27",R,"                    * prev_hs[j];","                    * _hidden_state[t_idx * _hidden_size + j];"),
("bad_next_wraps_early","C27",R,"next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;","next_hs_idx = (t + 2 >= _time_steps && t > 1) ? 0 : t + 1;"),
("bad_whh_transposed","C27",R,"tmp_mul[j] += _weights_h_to_h[(i * _hidden_size) + j] \n","tmp_mul[j] += _weights_h_to_h[(j * _hidden_size) + i] \n"),
("bad_bias_assigned","C27",R,BIASO,"""        std::copy(curr_sequence_gradients, curr_sequence_gradients + _shared_fields->output_size(), _biases_to_o_gradients.data());
"""),
("bad_no_carry","C27",R,UPD,"        std::fill(next_hidden_state.begin(), next_hidden_state.end(), NumType(0.0));"),
("bad_input_gradient_step","C27",R,"            + (t_idx * _shared_fields->input_size());","            + (curr_hs_idx * _shared_fields->input_size());"),
("bad_last_input_step","C27",R,"_last_input[(t_idx * _shared_fields->input_size()) + j];","_last_input[j];"),
("bad_out_bias_hidden","C27",R,"            _biases_to_o.data(), _shared_fields->output_size());\n    }","            _biases_to_h.data(), _shared_fields->output_size());\n    }"),
("bad_input_grad_kept","C27",R,"        std::fill(curr_input_gradients, curr_input_gradients + _shared_fields->input_size(), 0);\n",""),
("ok_carry_loop","C27",R,UPD,"""        for (SizeType j = 0; j < _hidden_size; ++j)
        {
            NumType sum = 0;
            for (SizeType i = 0; i < _hidden_size; ++i)
            {
                sum += next_hidden_state[i] * _weights_h_to_h[i * _hidden_size + j];
            }
            tmp_mul[j] = sum;
        }
        for (SizeType j = 0; j < _hidden_size; ++j) next_hidden_state[j] = tmp_mul[j];"""),
("ok_bias_loop","C27",R,BIASO,"""        for (SizeType i = 0; i < _shared_fields->output_size(); ++i)
        {
            _biases_to_o_gradients[i] += curr_sequence_gradients[i];
        }
"""),
("ok_tmp_vector","C27",R,"    auto *tmp_mul = new NumType[_hidden_size];\n\n    // The last time step","    std::vector<NumType> tmp_vec(_hidden_size);\n    auto *tmp_mul = tmp_vec.data();\n\n    // The last time step",R,"    delete[] tmp_mul;\n\n    return Layer::forward(","    return Layer::forward("),
("ok_return_buffer","C27",R,"return Layer::backward(_input_gradients);","return _input_gradients;"),
("ok_tanh_inline","C27",R,"""                DLMath::tanh_1_opt<NumType>(
                    next_hidden_state.data(), 
                    _hidden_state.data() + curr_hs_idx * _hidden_size, 
                    _hidden_size);""","""                for (SizeType j = 0; j < _hidden_size; ++j)
                {
                    const NumType h = _hidden_state[curr_hs_idx * _hidden_size + j];
                    next_hidden_state[j] = (NumType(1) - h) * (NumType(1) + h);
                }"""),
# the model
("bad_step_forward_only","C28",M,STEPF,STEPF.replace("to->training_forward","to->forward")),
("bad_step_from_gradient","C28",M,STEPB,STEPB.replace("last_input_gradient","last_output")),
("bad_step_skips_first_arc","C28",M,STEPB,"""    for (std::size_t i = 1; i < _state.backward_run.size(); ++i)
    {
        _state.backward_run[i].to->backward(_state.backward_run[i].from->last_input_gradient());
    }
"""),
("bad_step_one_loss","C28",M,LOSSB,"    if (!_state.loss_layers.empty()) _state.loss_layers.front()->backward(not_used);\n"),
("bad_step_target_late","C28",M,TARGET,"",M,"    // Backward.\n","    // Backward.\n"+TARGET),
("bad_step_runs_predict_arcs","C28",M,STEPF,STEPF.replace("training_forward_run","forward_run")),
("bad_step_loss_after_arcs","C28",M,LOSSB,"",M,STEPB,STEPB+LOSSB),
("bad_predict_last","C28",M,"return _state.output_layers.front()->last_output();","return _state.output_layers.back()->last_output();"),
("bad_predict_first_input","C28",M,"""    for (auto input_layer: _state.input_layers)
    {
        input_layer->forward(input);
    }""","""    if (!_state.input_layers.empty()) _state.input_layers.front()->forward(input);"""),
("bad_train_self","C28",M,TRAIN2,TRAIN2.replace("model_from._state","_state")),
("bad_train_stops","C28",M,TRAIN2,TRAIN2.replace("        optimizer.train(*layer);","        if (layer == model_from._state.layers.back()) break;\n        optimizer.train(*layer);")),
("bad_accuracy_sum","C28",M,"        sum += loss_layer->accuracy();\n    }\n    return sum / _state.loss_layers.size();","        sum += loss_layer->accuracy();\n    }\n    return sum;"),
("bad_avg_first","C28",M,"""        sum += loss_layer->avg_loss();
    }""","""        sum = loss_layer->avg_loss();
    }"""),
("bad_output_size_first","C28",M,"return _state.output_layers[output_layer_idx]->output_size();","return _state.output_layers.front()->output_size();"),
("bad_reset_front","C28",M,"""    for (const auto& loss_layer: _state.loss_layers)
    {
        loss_layer->reset_score();
    }""","""    if (_state.loss_layers.size() == 1) _state.loss_layers.front()->reset_score();"""),
("ok_step_index","C28",M,STEPF,"""    for (std::size_t i = 0; i < _state.training_forward_run.size(); ++i)
    {
        const auto& output = _state.training_forward_run[i].from->last_output();
        _state.training_forward_run[i].to->training_forward(output);
    }
"""),
("ok_step_target_after_input","C28",M,TARGET,"",M,INPUT,INPUT+TARGET),
("ok_step_refs","C28",M,INPUT,INPUT.replace("auto input_layer","const auto& input_layer")),
("ok_step_arc_copies","C28",M,STEPB,"""    for (const auto& backward_arc: _state.backward_run)
    {
        auto from = backward_arc.from;
        auto to = backward_arc.to;
        to->backward(from->last_input_gradient());
    }
"""),
("ok_step_helper","C28",M,"void Model::step(","""static void run_backward(const std::vector<DLGraph::Arc>& arcs)
{
    for (auto it = arcs.begin(); it != arcs.end(); ++it)
    {
        it->to->backward(it->from->last_input_gradient());
    }
}

void Model::step(""",M,STEPB,"    run_backward(_state.backward_run);\n"),
("ok_predict_pointer","C28",M,"""    for (auto input_layer: _state.input_layers)
    {
        input_layer->forward(input);
    }""","""    for (const auto& input_layer: _state.input_layers)
    {
        Layer& l = *input_layer;
        l.forward(input);
    }"""),
("ok_train_delegates","C28",M,"    train(optimizer, *this);","    for (auto& layer: _state.layers) optimizer.train(*layer);"),
("ok_accuracy_accumulate","C28",M,"        sum += loss_layer->accuracy();\n    }\n    return sum / _state.loss_layers.size();","        sum += loss_layer->accuracy() / _state.loss_layers.size();\n    }\n    return sum;"),
("ok_output_size_swapped","C28",M,"""    if (output_layer_idx >= _state.output_layers.size()
        || !_state.output_layers[output_layer_idx])
    {
        return 0;
    }
    return _state.output_layers[output_layer_idx]->output_size();""","""    if (output_layer_idx < _state.output_layers.size())
    {
        const auto& layer = _state.output_layers[output_layer_idx];
        if (layer) return layer->output_size();
    }
    return 0;"""),
]
MUTS=[(m if len(m)==5 else (m[0],m[1],[(m[i],m[i+1],m[i+2]) for i in range(2,len(m),3)],None,None)) for m in MUTS]
