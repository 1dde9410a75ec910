"""Optimizers, losses, parameter indices, shapes, models (C23-C26, C29): planted changes (bad_) and refactorings (ok_)"""
N="source/dnn/"
GD="""        NumType& param    = layer_to.param(i);
        NumType& gradient = layer_from.gradient(i);

        param -= _eta * gradient;

        // Reset the gradient accumulated again in the next training epoch.
        gradient = NumType{0.0};
"""
ADAM="""        // bias correction.
        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));

        param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));

        ++_t;
"""
MSEF="""    _loss = DLMath::mean_squared_error(_target.data(), inputs.data(), in_size);
    _cumulative_loss += _loss;

    if (-_loss_tolerance <= _loss && _loss <= _loss_tolerance)
    {
        _correct++;
    }
    else 
    {
        _incorrect++;
    }
"""
ACT="""    for (SizeType i = 0; i < _shared_fields->input_size(); ++i)
    {
        if (_target[i] != NumType{0.0})
        {
            return i;
        }
    }

    throw std::runtime_error("_target is an array of 0.0 values");
"""
DP="""    if (index >= param_count())
    {
        throw std::runtime_error("index overflow");
    }
    if (index < _weights.size())
    {
        return _weights[index];
    }
    return _biases[index - _weights.size()];
"""
RP=open("/repo/source/dnn/recurrent.cpp").read()
RP=RP[RP.index("    SizeType acc_size = 0;\n    if (index < _weights_i_to_h.size())"):RP.index("NumType& RecurrentLayer::gradient")]
RP=RP[:RP.rindex("}")]
OUTS="""    return input_side == 0 ?
        0 : ((input_side - kernel_side + (2 * padding)) / stride) + 1ULL;
"""
POUT="    return input_side == 0 ? 0 : ((input_side - kernel_side) / stride) + 1ULL;\n"
MUTS=[
# C23
("ok_gd_locals","C23",N+"gd_optimizer.cpp",GD,"""        NumType& gradient = layer_from.gradient(i);
        const NumType delta = gradient * _eta;
        gradient = 0.0;
        layer_to.param(i) -= delta;
"""),
("ok_gd_while","C23",N+"gd_optimizer.cpp",[0],None),
("ok_gd_two_loops","C23",N+"gd_optimizer.cpp",GD,"""        NumType& param    = layer_to.param(i);
        param = param - _eta * layer_from.gradient(i);
    }
    for (SizeType i = 0; i < param_count; ++i)
    {
        layer_from.gradient(i) = NumType{0.0};
"""),
("ok_gd_helper","C23",[(N+"gd_optimizer.cpp",GD,"        descend(layer_to.param(i), layer_from.gradient(i), _eta);\n"),(N+"gd_optimizer.cpp","GradientDescentOptimizer::GradientDescentOptimizer(","static void descend(NumType& param, NumType& gradient, NumType eta)\n{\n    param -= eta * gradient;\n    gradient = 0;\n}\n\nGradientDescentOptimizer::GradientDescentOptimizer(")],None,None),
("bad_gd_plus","C23",N+"gd_optimizer.cpp","param -= _eta","param += _eta"),
("bad_gd_clear_to","C23",N+"gd_optimizer.cpp","        gradient = NumType{0.0};","        layer_to.gradient(i) = NumType{0.0};"),
("bad_gd_from_params","C23",N+"gd_optimizer.cpp","layer_to.param(i)","layer_from.param(i)"),
("ok_adam_denominators","C23",N+"adam_optimizer.cpp",ADAM,"""        // bias correction.
        const auto den_1 = 1 - std::pow(_beta_1, _t);
        const auto den_2 = 1 - std::pow(_beta_2, _t);
        ++_t;

        const auto step = (_m / den_1) / (_epsilon + std::sqrt(_v / den_2));
        param = param - step * _eta;
"""),
("ok_adam_moments_swapped","C23",N+"adam_optimizer.cpp","""        // beta 1 - Momentum optimizer.
        _m = _beta_1 * _m + (1 - _beta_1) * gradient;

        // beta 2 - RMSProp optimizer.
        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
""","""        const NumType g = gradient;
        _v = (1 - _beta_2) * g * g + _v * _beta_2;
        _m *= _beta_1;
        _m += (1 - _beta_1) * g;
"""),
("bad_adam_t","C23",N+"adam_optimizer.cpp","        ++_t;\n","        if (i == 0) ++_t;\n"),
("bad_adam_eps","C23",N+"adam_optimizer.cpp","std::sqrt(v_corrected) + _epsilon","std::sqrt(v_corrected + _epsilon)"),
("bad_adam_v","C23",N+"adam_optimizer.cpp","(gradient * gradient)","gradient"),
("ok_adam_reset_order","C23",N+"adam_optimizer.cpp","    _t = 1;\n    _m = 0;\n    _v = 0;\n","    _v = _m = NumType(0);\n    _t = SizeType(1);\n"),
("ok_check_early","C23",N+"optimizer.cpp","""    if (layer_from.param_count() != layer_to.param_count())
    {
        throw std::runtime_error("Layers have different amount of params");
    }
    train(layer_from, layer_to);
""","""    const SizeType n = layer_to.param_count();
    if (n == layer_from.param_count())
    {
        train(layer_from, layer_to);
        return;
    }
    throw std::runtime_error("Layers have different amount of params");
"""),
("bad_check_less","C23",N+"optimizer.cpp","layer_from.param_count() != layer_to.param_count()","layer_from.param_count() < layer_to.param_count()"),
# C24
("ok_mse_abs","C24",N+"mse_loss.cpp",MSEF,"""    const NumType loss = DLMath::mean_squared_error(
        _target.data(), inputs.data(), in_size);
    const bool hit = loss >= -_loss_tolerance && loss <= _loss_tolerance;
    _correct += hit ? 1 : 0;
    _incorrect += hit ? 0 : 1;
    _loss = loss;
    _cumulative_loss = _cumulative_loss + loss;
"""),
("ok_mse_inverted","C24",N+"mse_loss.cpp","""    if (-_loss_tolerance <= _loss && _loss <= _loss_tolerance)
    {
        _correct++;
    }
    else 
    {
        _incorrect++;
    }
""","""    SizeType& counter = (-_loss_tolerance <= _loss && _loss <= _loss_tolerance)
        ? _correct : _incorrect;
    ++counter;
"""),
("bad_mse_strict","C24",N+"mse_loss.cpp","_loss <= _loss_tolerance","_loss < _loss_tolerance"),
("ok_cce_findif","C24",N+"cce_loss.cpp",ACT,"""    SizeType i = 0;
    const SizeType n = _shared_fields->input_size();
    while (i < n && _target[i] == NumType{0.0}) ++i;
    if (i == n)
    {
        throw std::runtime_error("_target is an array of 0.0 values");
    }
    return i;
"""),
("ok_cce_order","C24",N+"cce_loss.cpp","""    _loss = DLMath::cross_entropy(_target.data(), inputs.data(), in_size);
    _cumulative_loss += _loss;
    
    auto max = DLMath::max_and_argmax(inputs.data(), in_size);
    // NumType max_value = std::get<0>(max);
    SizeType max_index = std::get<1>(max);

    _active = _argactive();
    if (max_index == _active)
    {
        ++_correct;
    }
    else 
    {
        ++_incorrect;
    }
""","""    _active = _argactive();
    _loss = DLMath::cross_entropy(_target.data(), inputs.data(), in_size);
    _cumulative_loss += _loss;

    if (_active != DLMath::argmax(inputs.data(), in_size)) ++_incorrect;
    else ++_correct;
"""),
("bad_cce_counts_both","C24",N+"cce_loss.cpp","        ++_incorrect;","        ++_incorrect; if (max_index + 1 == _active) ++_correct;"),
("bad_cce_last_active","C24",N+"cce_loss.cpp","            return i;","            if (i + 1 == _shared_fields->input_size() || _target[i + 1] == 0.0) return i;"),
("ok_accuracy_guard_local","C24",N+"loss.cpp","""    return static_cast<NumType>(_correct) 
         / static_cast<NumType>(_correct + _incorrect);
""","""    const auto samples = static_cast<NumType>(_incorrect + _correct);
    return static_cast<NumType>(_correct) / samples;
"""),
("bad_avg","C24",N+"loss.cpp","""    return static_cast<NumType>(_cumulative_loss) 
         / static_cast<NumType>(_correct + _incorrect);
""","""    return static_cast<NumType>(_cumulative_loss) 
         / static_cast<NumType>(_correct + 1);
"""),
("ok_set_target_assign","C24",N+"loss.cpp","    _target = target;\n","    _target.assign(target.begin(), target.end());\n"),
("bad_reset","C24",N+"loss.cpp","    _incorrect       = 0;\n",""),
# C25
("ok_dense_param_nested","C25",N+"dense.cpp",DP,"""    const SizeType n_weights = _weights.size();
    if (index < n_weights) return _weights[index];
    if (index < param_count()) return _biases[index - n_weights];
    throw std::runtime_error("index overflow");
"""),
("ok_conv_param_cond","C25",N+"convolutional.cpp",DP,"""    if (param_count() <= index)
    {
        throw std::out_of_range("index overflow");
    }
    return index < _weights.size() ? _weights[index]
                                   : _biases[index - _weights.size()];
"""),
("ok_rec_param_sub","C25",N+"recurrent.cpp",RP,"""    for (SharedParams* part: {&_weights_i_to_h, &_weights_h_to_h, &_biases_to_h,
                              &_weights_h_to_o})
    {
        if (index < part->size()) return (*part)[index];
        index -= part->size();
    }
    return _biases_to_o[index];
"""),
("ok_rec_param_sub2","C25",N+"recurrent.cpp",RP,"""    if (index < _weights_i_to_h.size()) return _weights_i_to_h[index];
    index -= _weights_i_to_h.size();
    if (index < _weights_h_to_h.size()) return _weights_h_to_h[index];
    index -= _weights_h_to_h.size();
    if (index < _biases_to_h.size()) return _biases_to_h[index];
    index -= _biases_to_h.size();
    if (index < _weights_h_to_o.size()) return _weights_h_to_o[index];
    return _biases_to_o[index - _weights_h_to_o.size()];
"""),
("ok_dense_count","C25",N+"dense.hpp","""        return (_shared_fields->input_size() + 1UL)
            * _shared_fields->output_size();""","""        const SizeType out = _shared_fields->output_size();
        return _shared_fields->input_size() * out + out;"""),
("bad_rec_order","C25",N+"recurrent.cpp","""    if (index < acc_size + _biases_to_h.size())
    {
        return _biases_to_h[index - acc_size];
    }
    acc_size += _biases_to_h.size();
    if (index < acc_size + _weights_h_to_o.size())
    {
        return _weights_h_to_o[index - acc_size];
    }
    acc_size += _weights_h_to_o.size();
""","""    if (index < acc_size + _weights_h_to_o.size())
    {
        return _weights_h_to_o[index - acc_size];
    }
    acc_size += _weights_h_to_o.size();
    if (index < acc_size + _biases_to_h.size())
    {
        return _biases_to_h[index - acc_size];
    }
    acc_size += _biases_to_h.size();
"""),
("bad_dense_bound","C25",N+"dense.cpp","    if (index >= param_count())\n","    if (index > param_count())\n",0),
("bad_conv_grad_mod","C25",N+"convolutional.cpp","_bias_gradients[index - _weight_gradients.size()]","_bias_gradients[index % _bias_gradients.size()]"),
# C26
("ok_conv_side","C26",N+"convolutional.cpp",OUTS,"""    if (input_side == 0) return 0;
    const SizeType padded = input_side + padding + padding;
    return 1ULL + (padded - kernel_side) / stride;
"""),
("ok_pool_side","C26",N+"pooling.cpp",POUT,"""    if (input_side == 0)
    {
        return 0;
    }
    return (input_side - kernel_side + stride) / stride;
"""),
("bad_pool_ceil","C26",N+"pooling.cpp",POUT,"    return input_side == 0 ? 0 : ((input_side - kernel_side + stride - 1) / stride) + 1ULL;\n"),
("ok_dense_ctor","C26",N+"dense.cpp","""    _weights.resize(output_size * input_size);

    // Each node in this layer is assigned a bias.
    _biases.resize(output_size);

    _weight_gradients.resize(output_size * input_size);
    _bias_gradients.resize(output_size);
""","""    const SizeType n_weights = input_size * output_size;
    _bias_gradients.resize(output_size);
    _weight_gradients.resize(n_weights);
    _biases.resize(output_size);
    _weights.resize(n_weights);
"""),
("ok_ff_ctor_init","C26",N+"feedforward.cpp","""    , _output_activations{}
    , _input_gradients{}
{
    _output_activations.resize(output_shape.size());
    _input_gradients.resize(input_shape.size());
}
""","""    , _output_activations(output_shape.size())
    , _input_gradients(input_shape.size())
{
}
"""),
("ok_act_shape","C26",N+"activation.cpp","""    _shared_fields->output_shape() = input_shape.size();
    _output_activations.resize(_shared_fields->output_shape().size());
""","""    const SizeType size = input_shape.size();
    _output_activations.resize(size);
    _shared_fields->output_shape() = size;
"""),
("ok_conv_setshape_local","C26",N+"convolutional.cpp","""    _weights.resize(_kernel_shape.size() * input_shape.shape().channels() * _n_filters);
    _weight_gradients.resize(_kernel_shape.size() * input_shape.shape().channels()
                             * _n_filters);
""","""    const auto n = input_shape.shape().channels() * _n_filters * _kernel_shape.size();
    for (Params* p: {&_weight_gradients}) p->resize(n);
    _weights.resize(n);
"""),
("ok_rec_ctor","C26",N+"recurrent.cpp","""    _hidden_state = std::vector<NumType>(
        _hidden_size * std::max(_time_steps, SizeType(1U)), 0.0);
""","""    _hidden_state.assign(hidden_size * (time_steps == 0 ? 1 : time_steps), 0.0);
"""),
("ok_dropout_scale","C26",N+"dropout.cpp","""    , _scale{(_drop_probability == 1.0) ? 1.0 : 1.0 / (1.0 - drop_probability)}
    , _random_generator{random_generator}
    , _zero_mask_idxs{}
{

}
""","""    , _scale{1.0}
    , _random_generator{random_generator}
    , _zero_mask_idxs{}
{
    if (drop_probability != 1.0) _scale = 1.0 / (1.0 - drop_probability);
}
"""),
("ok_layer_prefix","C26",N+"layer.cpp","""    if (_shared_fields->name().empty())
    {
        if (prefix_name.empty()) prefix_name = "layer_";
        _shared_fields->name() = prefix_name + std::to_string(DLMath::unique());
    }
""","""    if (name.empty())
    {
        _shared_fields->name() = (prefix_name.empty() ? std::string("layer_") : prefix_name)
            + std::to_string(DLMath::unique());
    }
"""),
("bad_rec_steps","C26",N+"recurrent.cpp","    _input_gradients.resize(input_size * _time_steps);\n","    _input_gradients.resize(input_size);\n"),
("bad_pool_keeps_out","C26",N+"pooling.cpp","    _output_activations.resize(output_size());\n",""),
# C29
("ok_edge_order","C29",N+"model.cpp","""    create_back_arc(src, dst);
    create_front_arc(src, dst);
""","""    create_front_arc(src, dst);
    create_back_arc(src, dst);
""",0),
("ok_edge_direct","C29",N+"model.cpp","""    create_back_arc(src, dst);
    create_front_arc(src, dst);
""","""    _state.graph.add_arc_backward(dst, src);
    _state.graph.add_arc_forward(src, dst);
    _state.update();
""",0),
("ok_update_order","C29",N+"model.hpp","""            layers = graph.layers();
            input_layers = graph.input_layers();
            output_layers = graph.output_layers();
""","""            output_layers = graph.output_layers();
            input_layers = graph.input_layers();
            layers = graph.layers();
"""),
("ok_swap_member","C29",N+"model.cpp","""    using std::swap;
    swap(lop._shared_fields, rop._shared_fields);
    swap(lop._state, rop._state);
""","""    std::swap(lop._state, rop._state);
    lop._shared_fields.swap(rop._shared_fields);
"""),
("ok_addlayer_local","C29",N+"model.hpp","""        _state.graph.add_node(
            std::make_shared<Layer_t>(std::forward<T>(args)...)
        );
        _state.update();
        return std::dynamic_pointer_cast<Layer_t>(_state.layers.back());
""","""        auto layer = std::make_shared<Layer_t>(std::forward<T>(args)...);
        _state.graph.add_node(layer);
        _state.update();
        return layer;
"""),
("ok_ctor_update","C29",N+"model.cpp","""    _state.update();
}

Model& Model::operator=(Model obj)
{
    swap(*this, obj);
    return *this;
}
""","""    _state.update();
}

Model& Model::operator=(Model obj)
{
    using EdgeLearning::swap;
    swap(obj, *this);
    return *this;
}
"""),
("bad_backarc_noupdate","C29",N+"model.cpp","""    _state.graph.add_arc_backward(dst, src);
    _state.update();
""","""    _state.graph.add_arc_backward(dst, src);
"""),
("bad_backarc_dir","C29",N+"model.cpp","add_arc_backward(dst, src)","add_arc_backward(src, dst)"),
]
MUTS=[m for m in MUTS if m[3]!=[0]]
MUTS.append(("ok_gd_while","C23",[(N+"gd_optimizer.cpp","    for (SizeType i = 0; i < param_count; ++i)\n    {\n","    SizeType i = 0;\n    while (i != param_count)\n    {\n"),(N+"gd_optimizer.cpp","        gradient = NumType{0.0};\n","        gradient = NumType{0.0};\n        ++i;\n")],None,None))
