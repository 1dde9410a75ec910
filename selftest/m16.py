H="source/dnn/dlmath.hpp"
DENSE="""            dst[i] = bias[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                dst[i] += weights[(i * input_size) + j] * src[j];
            }
"""
D1="""        for (SizeType i = 0; i < output_size; ++i)
        {
            bias_gradients[i] += gradients[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                weight_gradients[(i * input_size) + j] +=
                    gradients[i] * last_input[j];
                input_gradients[j] +=
                    gradients[i] * weights[(i * input_size) + j];
            }
        }
        return input_gradients;"""
SM="""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = std::exp(src[i]);
            sum_exp_z += dst[i];
        }
"""
CONVIF="""                if (col_src < 0 || row_src < 0 ||
                    col_src >= static_cast<int64_t>(src_step) ||
                    row_src >= static_cast<int64_t>(src_shape.height()))
                {
                    continue; //< zero-padding.
                }
                sum += src[row_src * static_cast<int64_t>(src_step)
                           + col_src] * k[k_i * n_filters + f];"""
MUTS=[
("dense_stride","C16",H,DENSE,DENSE.replace("i * input_size","i * output_size")),
("dense_lastin","C16",H,DENSE,DENSE.replace("j < input_size","j + 1 < input_size")),
("dense_sub","C16",H,DENSE,DENSE.replace("dst[i] = bias[i];","dst[i] += bias[i];")),
("dense1_norm","C16",H,D1,D1.replace("bias_gradients[i] +=","bias_gradients[i] =")),
("dense1_wi","C16",H,D1,D1.replace("last_input[j]","last_input[i]")),
("thr_wi","C16",H,"                            (out_idx * input_size) + j] * src[j];","                            (out_idx * input_size) + j] * src[out_idx];"),
("thr_skip","C16",H,"                    for (SizeType j = 0; j < input_size; ++j)\n                    {\n                        dst[out_idx] += weights[","                    for (SizeType j = 1; j < input_size; ++j)\n                    {\n                        dst[out_idx] += weights["),
("mat_cols","C16",H,"mat_src[(i * cols) + j]","mat_src[(i * rows) + j]"),
("fill_miss","C16",H,"        std::fill(input_gradients, input_gradients + input_size, 0);","        std::fill(input_gradients, input_gradients + output_size, 0);",0),
("tanh1","C17",H,"return T{1} - x * x;","return T{1} - x;"),
("sig1","C17",H,"        return sigmoid_1_opt(s);","        return sigmoid_1_opt(x);"),
("elu1","C17",H,"T{1} : alpha * std::exp(x)","T{1} : alpha * (std::exp(x) - 1)"),
("relu1_ge","C17",H,"return x > T{0} ? T{1} : T{0};","return x >= T{0} ? T{1} : T{0};"),
("sm_scale","C18",H,"            dst[i] *= inv_sum_exp_z;","            dst[i] *= sum_exp_z;",0),
("ssm_div","C18",H,"            dst[i] = std::exp(src[i] - d);\n            sum_exp_z += dst[i];","            sum_exp_z += std::exp(src[i]);\n            dst[i] = std::exp(src[i] - d);"),
("sm1_sign","C18",H,"(i == j ? 1.0 : 0.0) - src[j]) * gradients[j]","(i == j ? 1.0 : 0.0) - src[i]) * gradients[j]"),
("mse_n","C18",H,"return ret / length;","return ret / (length + 1);"),
("mse_sign","C18",H,"return -T{2.0} * norm * (y - y_hat);","return T{2.0} * norm * (y - y_hat);"),
("ce_norm","C18",H,"return norm * (-y / (std::max(y_hat, std::numeric_limits<T>::min())));","return (-y / (std::max(y_hat, std::numeric_limits<T>::min())));"),
("conv_left","C19",H,CONVIF,CONVIF.replace("col_src < 0 || ","")),
("conv_le","C19",H,CONVIF,CONVIF.replace("row_src >= ","row_src > ")),
("conv_k","C19",H,CONVIF,CONVIF.replace("k_i * n_filters + f","f * k_size + k_i")),
("conv_stride","C19",H,"static_cast<int64_t>(col_dst * s.width())","static_cast<int64_t>(col_dst * s.height())"),
("conv_pad","C19",H,"                auto row = static_cast<int64_t>(row_dst * s.height())\n                    - static_cast<int64_t>(p.height());","                auto row = static_cast<int64_t>(row_dst * s.height())\n                    - static_cast<int64_t>(p.width());"),
("conv_dsth","C19",H,"dst[dst_coord.row * dst_shape.width() * n_filters","dst[dst_coord.row * dst_shape.height() * n_filters"),
("conv_size","C19",H,"src_shape.height() - k_shape.height() + 2 * p.height()) / s.height()) + 1","src_shape.height() - k_shape.height() + p.height()) / s.height()) + 1"),
("max_init","C19",H,"            T max = src[\n                row * static_cast<int64_t>(src_step)\n                + col + static_cast<int64_t>(c)];","            T max = 0;"),
("max_kw","C19",H,"                auto row_k = k_i / k_shape.width();\n","                auto row_k = k_i / k_shape.height();\n",1),
("avg_div","C19",H,"= sum / (k_shape.height() * k_shape.width());","= sum / (k_shape.height() * k_shape.height());"),
("app_offset","C20",H,"        SizeType offset     = tmp_offset * dst_axis_offset;","        SizeType offset     = dst_axis_offset;"),
("cat_second","C20",H,"                      axis, src1_shape[axis]);","                      axis, src2_shape[axis]);",0),
("cat_check","C20",H,"            if (i != axis && src1_shape[i] != src2_shape[i])","            if (i > axis && src1_shape[i] != src2_shape[i])"),
("sep_axis","C20",H,"            src_axis_offset += dst_shape[axis];","            src_axis_offset += dst_shape[0];"),
("sepn_check","C20",H,"for (SizeType shape_idx = 1; shape_idx < dst_shapes.size(); ++shape_idx)","for (SizeType shape_idx = 2; shape_idx < dst_shapes.size(); ++shape_idx)"),
("catn_src","C20",H,"            src_offset += src_shape.size();","            src_offset += src_shape[axis];"),
# refactorings
("ok_dense_acc","C16",H,DENSE,"""            T acc{0};
            for (SizeType j = 0; j < input_size; ++j)
            {
                acc += weights[(i * input_size) + j] * src[j];
            }
            dst[i] = acc + bias[i];
"""),
("ok_dense_ptr","C16",H,DENSE,"""            const T* w = weights + i * input_size;
            const T* s = src;
            T acc = bias[i];
            for (const T* e = w + input_size; w != e; ++w, ++s)
            {
                acc += *w * *s;
            }
            dst[i] = acc;
"""),
("ok_dense_inner","C16",H,DENSE,"""            dst[i] = std::inner_product(src, src + input_size, weights + i * input_size, bias[i]);
"""),
("ok_dense_rev","C16",H,DENSE,"""            dst[i] = bias[i];
            SizeType j = input_size;
            while (j-- > 0)
            {
                dst[i] += weights[(i * input_size) + j] * src[j];
            }
"""),
("ok_dense_unroll","C16",H,DENSE,"""            T acc = bias[i];
            SizeType j = 0;
            for (; j + 1 < input_size; j += 2)
            {
                acc += weights[(i * input_size) + j] * src[j] + weights[(i * input_size) + j + 1] * src[j + 1];
            }
            if (j < input_size) acc += weights[(i * input_size) + j] * src[j];
            dst[i] = acc;
"""),
("ok_dense_index","C16",H,DENSE,"""            dst[i] = bias[i];
            SizeType at = i * input_size;
            for (SizeType j = 0; j < input_size; ++j, ++at)
            {
                dst[i] += weights[at] * src[j];
            }
"""),
("ok_d1_two","C16",H,D1,"""        for (SizeType i = 0; i < output_size; ++i)
        {
            bias_gradients[i] += gradients[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                weight_gradients[(i * input_size) + j] +=
                    gradients[i] * last_input[j];
            }
        }
        for (SizeType j = 0; j < input_size; ++j)
        {
            for (SizeType i = 0; i < output_size; ++i)
            {
                input_gradients[j] +=
                    gradients[i] * weights[(i * input_size) + j];
            }
        }
        return input_gradients;"""),
("ok_d1_hoist","C16",H,D1,"""        for (SizeType i = 0; i < output_size; ++i)
        {
            const T g = gradients[i];
            T* wg = weight_gradients + i * input_size;
            const T* w = weights + i * input_size;
            for (SizeType j = 0; j < input_size; ++j)
            {
                input_gradients[j] += g * w[j];
                wg[j] += g * last_input[j];
            }
            bias_gradients[i] += g;
        }
        return input_gradients;"""),
("ok_fill_loop","C16",H,"        std::fill(input_gradients, input_gradients + input_size, 0);","        for (SizeType j = 0; j < input_size; ++j) input_gradients[j] = T{0};",0),
("ok_relu_if","C17",H,"return std::max(x, T{0});","if (x < T{0}) { return T{0}; }\n        return x;"),
("ok_sig_exp","C17",H,"return 1 / (1 + std::exp(-x));","const T e = std::exp(x);\n        return e / (e + T{1});"),
("ok_elu_expm1","C17",H,"return x > 0 ? x : alpha * (std::exp(x) - 1);","if (x > 0) return x;\n        return alpha * std::expm1(x);"),
("ok_sm_div","C18",H,SM,"""        for (SizeType i = 0; i < length; ++i)
        {
            const T e = std::exp(src[i]);
            sum_exp_z += e;
            dst[i] = e;
        }
"""),
("ok_sm_two","C18",H,SM,"""        std::transform(src, src + length, dst, [](T v) { return std::exp(v); });
        sum_exp_z = std::accumulate(dst, dst + length, T{0});
"""),
("ok_max_loop","C18",H,"        return *std::max_element(src, src + length);","""        T best = src[0];
        for (SizeType i = 1; i < length; ++i)
        {
            if (src[i] > best) best = src[i];
        }
        return best;"""),
("ok_argmax_loop","C18",H,"""        return static_cast<SizeType>(std::distance(src, 
            std::max_element(src, src + length)));""","""        SizeType best = 0;
        for (SizeType i = 1; i < length; ++i)
        {
            if (src[i] > src[best]) best = i;
        }
        return best;"""),
("ok_conv_if","C19",H,CONVIF,"""                const bool inside = col_src >= 0 && row_src >= 0
                    && col_src < static_cast<int64_t>(src_step)
                    && row_src < static_cast<int64_t>(src_shape.height());
                if (inside)
                {
                    sum += src[row_src * static_cast<int64_t>(src_step)
                               + col_src] * k[k_i * n_filters + f];
                }"""),
("ok_avg_loops","C19",H,"""            T sum = 0;
            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
            {
                auto row_k = k_i / k_shape.width();
                auto col_k = k_i % k_shape.width();
""","""            T sum = 0;
            for (SizeType row_k = 0; row_k < k_shape.height(); ++row_k)
            for (SizeType col_k = 0; col_k < k_shape.width(); ++col_k)
            {
"""),
("ok_max_std","C19",H,"                if (curr_val > max) max = curr_val;","                max = std::max(max, curr_val);"),
("ok_slide_local","C19",H,"                auto row = static_cast<int64_t>(row_dst * s.height())\n                    - static_cast<int64_t>(p.height());","                int64_t row = static_cast<int64_t>(row_dst) * static_cast<int64_t>(s.height());\n                row -= static_cast<int64_t>(p.height());"),
("ok_app_copy","C20",H,"""            for (SizeType src_idx = 0; src_idx < src_offset; ++src_idx)
            {
                dst[i * dst_offset + offset + src_idx] = src[
                        i * src_offset + src_idx];
            }""","""            std::copy(src + i * src_offset, src + (i + 1) * src_offset, dst + i * dst_offset + offset);"""),
("ok_app_walk","C20",H,"""            for (SizeType src_idx = 0; src_idx < src_offset; ++src_idx)
            {
                dst[i * dst_offset + offset + src_idx] = src[
                        i * src_offset + src_idx];
            }""","""            const T* from = src + i * src_offset;
            T* to = dst + i * dst_offset + offset;
            for (SizeType n = src_offset; n > 0; --n) *to++ = *from++;"""),
("ok_app_acc","C20",H,"""        for (SizeType i = 0; i < dst_shape.size(); ++i)
        {
            if (i < axis)
            {
                iteration_amount *= dst_shape[i];
            }
            else if (i > axis)
            {
                tmp_offset *= dst_shape[i];
            }
        }
""","""        for (SizeType i = 0; i < axis; ++i) iteration_amount *= dst_shape[i];
        for (SizeType i = axis + 1; i < dst_shape.size(); ++i) tmp_offset *= dst_shape[i];
""",0),
]
