D="source/dnn/"
RELUF="""    SizeType size = _output_activations.size();
    DLMath::relu<NumType>(_output_activations.data(), inputs.data(),
                          size);
    return ActivationLayer::forward(_output_activations);"""
BSUM="""        NumType sum = 0;
        for (SizeType r = 0; r < _shared_fields->output_shape().height(); ++r)
        {
            auto step = _shared_fields->output_shape().width() * _n_filters;
            for (SizeType c = 0; c < _shared_fields->output_shape().width(); ++c)
            {
                sum += gradients[r * step + c * _n_filters + f];
            }
        }
        _bias_gradients[f] += sum;"""
MUTS=[
("ok_relu_loop","C21",D+"activation.cpp",RELUF,"""    for (SizeType i = 0; i < _output_activations.size(); ++i)
    {
        _output_activations[i] = std::max(NumType(0), inputs[i]);
    }
    return _output_activations;"""),
("bad_relu_loop","C21",D+"activation.cpp",RELUF,"""    for (SizeType i = 1; i < _output_activations.size(); ++i)
    {
        _output_activations[i] = std::max(NumType(0), inputs[i]);
    }
    return _output_activations;"""),
("bad_relu_returns_input","C21",D+"activation.cpp",RELUF,RELUF.replace("forward(_output_activations)","forward(inputs)")),
("ok_elu_ternary","C21",D+"activation.cpp","""    DLMath::elu<NumType>(_output_activations.data(), inputs.data(),
                         size, _alpha);""","""    for (SizeType i = 0; i < size; ++i)
        _output_activations[i] = inputs[i] > 0 ? inputs[i] : _alpha * (std::exp(inputs[i]) - 1);"""),
("bad_elu_alpha_one","C21",D+"activation.cpp","""    DLMath::elu<NumType>(_output_activations.data(), inputs.data(),
                         size, _alpha);""","""    DLMath::elu<NumType>(_output_activations.data(), inputs.data(),
                         size);"""),
("bad_elu1_not_opt","C22",D+"activation.cpp","""    DLMath::elu_1_opt<NumType>(_input_gradients.data(),""","""    DLMath::elu_1<NumType>(_input_gradients.data(),"""),
("bad_tanh1_not_opt","C22",D+"activation.cpp","""    DLMath::tanh_1_opt<NumType>(_input_gradients.data(),""","""    DLMath::tanh_1<NumType>(_input_gradients.data(),"""),
("ok_tanh1_last_input","C22",D+"activation.cpp","""    DLMath::tanh_1_opt<NumType>(_input_gradients.data(),
                                _output_activations.data(),""","""    DLMath::tanh_1<NumType>(_input_gradients.data(),
                                _last_input,"""),
("ok_relu1_last_input","C22",D+"activation.cpp","""    DLMath::relu_1<NumType>(_input_gradients.data(), _output_activations.data(),
                            size);""","""    DLMath::relu_1<NumType>(_input_gradients.data(), _last_input,
                            size);"""),
("ok_sigmoid_back_loop","C22",D+"activation.cpp","""    DLMath::sigmoid_1_opt<NumType>(_input_gradients.data(),
                                   _output_activations.data(),
                                   size);
    // Calculate dJ/dz = dJ/dg(z) * dg(z)/dz.
    DLMath::arr_mul(_input_gradients.data(), _input_gradients.data(),
                    gradients.data(), size);""","""    for (SizeType i = 0; i < size; ++i)
    {
        const NumType y = _output_activations[i];
        _input_gradients[i] = gradients[i] * y * (NumType(1) - y);
    }"""),
("ok_linear_assign","C22",D+"activation.cpp","""    SizeType size = _input_gradients.size();
    // Linear activation: dg(z)/dz = 1.
    std::copy(
        gradients.begin(),
        gradients.begin() + static_cast<std::int64_t>(size),
        _input_gradients.begin());""","""    _input_gradients = gradients;"""),
("ok_linear_forward_copy","C21",D+"activation.cpp","    _output_activations = inputs;","    std::copy(inputs.begin(), inputs.end(), _output_activations.begin());"),
("ok_dense_std","C21",D+"dense.cpp","""    DLMath::dense(
        _output_activations.data(),
        inputs.data(), _weights.data(), _biases.data(),
        in_size, out_size);""","""    for (SizeType i = 0; i < out_size; ++i)
    {
        NumType z = _biases[i];
        const NumType* row = _weights.data() + i * in_size;
        for (SizeType j = 0; j < in_size; ++j) z += row[j] * inputs[j];
        _output_activations[i] = z;
    }"""),
("ok_dense_input_size","C21",D+"dense.cpp","    SizeType in_size = inputs.size();","    SizeType in_size = input_size();"),
("bad_dense_swap","C21",D+"dense.cpp","        in_size, out_size);\n    return FeedforwardLayer::forward","        out_size, in_size);\n    return FeedforwardLayer::forward"),
("bad_dense_b_swap","C22",D+"dense.cpp","        in_size, out_size);\n\n    return FeedforwardLayer::backward","        out_size, in_size);\n\n    return FeedforwardLayer::backward"),
("bad_dense_returns_grad","C22",D+"dense.cpp","    return FeedforwardLayer::backward(_input_gradients);;","    return FeedforwardLayer::backward(gradients);"),
("ok_dense_b_1d","C22",D+"dense.cpp","    SizeType in_size = _shared_fields->input_size();","    SizeType in_size = _input_gradients.size();"),
("bad_conv_pad","C21",D+"convolutional.cpp","        _weights.data(), _kernel_shape, _n_filters, _stride, _padding);\n","        _weights.data(), _kernel_shape, _n_filters, _stride, {0, 0});\n"),
("bad_conv_stride","C21",D+"convolutional.cpp","        _weights.data(), _kernel_shape, _n_filters, _stride, _padding);\n","        _weights.data(), _kernel_shape, _n_filters, _kernel_shape, _padding);\n"),
("ok_conv_biasloop","C21",D+"convolutional.cpp","""    for (SizeType i = 0; i < _output_activations.size(); ++i)
    {
        _output_activations[i] += _biases[i % _n_filters];
    }""","""    auto out = _output_activations.begin();
    while (out != _output_activations.end())
    {
        for (const auto& b : _biases) *out++ += b;
    }"""),
("ok_conv_bsum_linear","C22",D+"convolutional.cpp",BSUM,"""        for (SizeType i = f; i < gradients.size(); i += _n_filters)
        {
            _bias_gradients[f] += gradients[i];
        }"""),
("ok_conv_bsum_direct","C22",D+"convolutional.cpp",BSUM,BSUM.replace("        NumType sum = 0;\n","").replace("sum +=","_bias_gradients[f] +=").replace("        _bias_gradients[f] += sum;","")),
("bad_conv_bsum_assign","C22",D+"convolutional.cpp","_bias_gradients[f] += sum;","_bias_gradients[f] = sum;"),
("bad_conv_step","C22",D+"convolutional.cpp","auto step = _shared_fields->output_shape().width() * _n_filters;","auto step = _shared_fields->output_shape().height() * _n_filters;"),
("bad_conv_nofill","C22",D+"convolutional.cpp","    std::fill(_input_gradients.begin(), _input_gradients.end(), 0);\n",""),
("bad_conv_kstep","C22",D+"convolutional.cpp","        auto k_step = k_shape.width() * src_shape.channels();\n","        auto k_step = k_shape.height() * src_shape.channels();\n"),
("bad_conv_shape","C22",D+"convolutional.cpp","dst_coord.row * dst_shape.width() * n_filters","dst_coord.row * dst_shape.height() * n_filters"),
("bad_avg_kstart","C22",D+"avg_pooling.cpp","for (SizeType k_i = 0;","for (SizeType k_i = 1;"),
("bad_avg_div","C22",D+"avg_pooling.cpp","k_shape.width() * k_shape.height()","k_shape.width() * k_shape.width()"),
("bad_avg_nofill","C22",D+"avg_pooling.cpp","    std::fill(_input_gradients.begin(), _input_gradients.end(), 0);\n",""),
("ok_avg_assignfill","C22",D+"avg_pooling.cpp","    std::fill(_input_gradients.begin(), _input_gradients.end(), 0);\n","    for (auto& g : _input_gradients) g = 0.0;\n"),
("ok_avg_twoloops","C22",D+"avg_pooling.cpp","""            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
            {
                auto row_k = k_i / k_shape.width();
                auto col_k = k_i % k_shape.width();
""","""            for (SizeType row_k = 0; row_k < k_shape.height(); ++row_k)
            for (SizeType col_k = 0; col_k < k_shape.width(); ++col_k)
            {
"""),
("bad_max_ge","C22",D+"max_pooling.cpp","if (curr_val > max)","if (curr_val < max)"),
("bad_max_assign","C22",D+"max_pooling.cpp","                += output_gradient;","                = output_gradient;"),
("ok_max_ge","C22",D+"max_pooling.cpp","if (curr_val > max)","if (curr_val >= max)"),
("ok_max_idx","C22",D+"max_pooling.cpp","""                auto curr_val = src[row_src + col_src];
                if (curr_val > max)
                {
                    max = curr_val;
                    max_row = row_src;""","""                if (src[row_src + col_src] > src[max_row + max_col])
                {
                    max_row = row_src;"""),
("bad_drop_back_scale","C22",D+"dropout.cpp","                    _scale, input_size());","                    1.0, input_size());"),
("bad_drop_noclear","C21",D+"dropout.cpp","    _zero_mask_idxs.clear();\n",""),
("bad_drop_invert","C21",D+"dropout.cpp","random_value > _drop_probability","random_value < _drop_probability"),
("ok_drop_div","C21",D+"dropout.cpp","inputs[i] * _scale;","_drop_probability < 1.0 ? inputs[i] / (1.0 - _drop_probability) : inputs[i];"),
("ok_drop_swap","C21",D+"dropout.cpp","""        if (random_value > _drop_probability)
        {
            _output_activations[i] = inputs[i] * _scale;
        }
        else
        {
            _output_activations[i] = NumType(0.0);
            _zero_mask_idxs.push_back(i);
        }""","""        if (random_value <= _drop_probability)
        {
            _zero_mask_idxs.push_back(i);
            _output_activations[i] = 0.0;
            continue;
        }
        _output_activations[i] = _scale * inputs[i];"""),
("bad_drop_range","C21",D+"dropout.cpp","uniform_pdf<NumType>(0.5, 1.0)","uniform_pdf<NumType>(0.0, 1.0)"),
("bad_drop_base","C21",D+"dropout.cpp","    Layer::training_forward(inputs);\n",""),
("ok_drop_size","C21",D+"dropout.cpp","i < output_size();","i < inputs.size();"),
("ok_drop_back_merge","C22",D+"dropout.cpp","""    for (const auto& i: _zero_mask_idxs)
    {
        _input_gradients[i] = 0;
    }""","""    for (SizeType j = 0; j < _zero_mask_idxs.size(); ++j)
    {
        _input_gradients[_zero_mask_idxs[j]] *= 0;
    }"""),
("bad_layer_lastinput","C21",D+"layer.cpp","    _last_input = inputs.data();\n","    if (!_last_input) _last_input = inputs.data();\n"),
("ok_layer_ptr","C21",D+"layer.cpp","    _last_input = inputs.data();\n    return forward(inputs);","    const auto& out = forward(inputs);\n    _last_input = inputs.data();\n    return out;"),
]
