H="source/dnn/dlmath.hpp"
MUTS=[
("ok_acc_ce","C18",H,"PLACEHOLDER","x"),
("ok_mul_transform","C16",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = src1[i] * src2[i];
        }
        return dst;""","""        std::transform(src1, src1 + length, src2, dst,
                       [](const T& a, const T& b) { return a * b; });
        return dst;"""),
("ok_mul_mulp","C16",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = src1[i] * src2[i];
        }
        return dst;""","""        std::transform(src1, src1 + length, src2, dst, std::multiplies<T>());
        return dst;"""),
("ok_matarr_inner","C16",H,"""            arr_dst[i] = T{0};
            for (SizeType j = 0; j < cols; ++j)
            {
                arr_dst[i] += mat_src[(i * cols) + j] * arr_src[j];
            }""","""            const T* row = mat_src + i * cols;
            arr_dst[i] = std::inner_product(row, row + cols, arr_src, T{0});"""),
("bad_matarr_inner","C16",H,"""            arr_dst[i] = T{0};
            for (SizeType j = 0; j < cols; ++j)
            {
                arr_dst[i] += mat_src[(i * cols) + j] * arr_src[j];
            }""","""            const T* row = mat_src + i * rows;
            arr_dst[i] = std::inner_product(row, row + cols, arr_src, T{0});"""),
("ok_relu_transform","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu(src[i]);
        }
        return dst;""","""        std::transform(src, src + length, dst, [](T x) { return relu(x); });
        return dst;"""),
("ok_relu_while","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu(src[i]);
        }
        return dst;""","""        T* out = dst;
        const T* const end = src + length;
        while (src != end) *out++ = relu(*src++);
        return dst;"""),
("ok_relu_down","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu(src[i]);
        }
        return dst;""","""        while (length-- > 0) dst[length] = relu(src[length]);
        return dst;"""),
("bad_relu_down","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu(src[i]);
        }
        return dst;""","""        while (--length > 0) dst[length] = relu(src[length]);
        return dst;"""),
("ok_sm_accumulate","C18",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = std::exp(src[i]);
            sum_exp_z += dst[i];
        }
""","""        std::transform(src, src + length, dst,
                       [](T v) { return std::exp(v); });
        sum_exp_z = std::accumulate(dst, dst + length, T{0});
"""),
("ok_smj_split","C18",H,"""                dst[i] += src[i] * (
                    (i == j ? 1.0 : 0.0) - src[j]) * gradients[j];""","""                const T delta = i == j ? T{1} : T{0};
                dst[i] += (delta - src[j]) * src[i] * gradients[j];"""),
("ok_smj_sum","C18",H,"""            dst[i] = T{0.0};
            for(SizeType j = 0; j < length; ++j)
            {
                dst[i] += src[i] * (
                    (i == j ? 1.0 : 0.0) - src[j]) * gradients[j];
            }""","""            T s{0};
            for(SizeType j = 0; j < length; ++j) s += src[j] * gradients[j];
            dst[i] = src[i] * (gradients[i] - s);"""),
("ok_slide_ternary","C19",H,"""        s.width() = std::max(s.width(), SizeType(1));
        s.height() = std::max(s.height(), SizeType(1));""","""        if (s.width() == 0) s.width() = 1;
        if (s.height() == 0) s.height() = 1;"""),
("bad_slide_swap","C19",H,"""        s.height() = std::max(s.height(), SizeType(1));""","""        s.height() = std::max(s.width(), SizeType(1));"""),
("ok_conv_nested","C19",H,"""            for (SizeType k_i = 0; k_i < k_size; ++k_i)
            {
                auto row_k = k_i / k_step;
                auto col_k = k_i % k_step;
                auto row_src = row + static_cast<int64_t>(row_k);""","""            for (SizeType row_k = 0, k_i = 0; row_k < k_size / k_step; ++row_k)
            for (SizeType col_k = 0; col_k < k_step; ++col_k, ++k_i)
            {
                auto row_src = row + static_cast<int64_t>(row_k);"""),
("ok_app_memcpy","C20",H,"""            for (SizeType src_idx = 0; src_idx < src_offset; ++src_idx)
            {
                dst[i * dst_offset + offset + src_idx] = src[
                        i * src_offset + src_idx];
            }""","""            std::copy_n(src + i * src_offset, src_offset,
                        dst + i * dst_offset + offset);"""),
("bad_app_memcpy","C20",H,"""            for (SizeType src_idx = 0; src_idx < src_offset; ++src_idx)
            {
                dst[i * dst_offset + offset + src_idx] = src[
                        i * src_offset + src_idx];
            }""","""            std::copy_n(src + i * dst_offset, src_offset,
                        dst + i * dst_offset + offset);"""),
("ok_concat_loop","C20",H,"""        append(dst, dst_shape, src1, src1_shape[axis], axis, 0);
        return append(dst, dst_shape, src2, src2_shape[axis],
                      axis, src1_shape[axis]);""","""        const T* const srcs[] = {src1, src2};
        const SizeType extents[] = {src1_shape[axis], src2_shape[axis]};
        SizeType at = 0;
        for (SizeType b = 0; b < 2; ++b)
        {
            append(dst, dst_shape, srcs[b], extents[b], axis, at);
            at += extents[b];
        }
        return dst;"""),
("ok_dense_call","C16",H,"""            dst[i] = bias[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                dst[i] += weights[(i * input_size) + j] * src[j];
            }
        }
        return dst;""","""        }
        matarr_mul_no_check<T>(dst, weights, src, output_size, input_size);
        arr_sum<T>(dst, dst, bias, output_size);
        return dst;"""),
("ok_dense1_stdfn","C16",H,"""        std::fill(input_gradients, input_gradients + input_size, 0);
        for""","""        std::fill_n(input_gradients, input_size, T{0});
        for"""),
][1:]
MUTS+=[
("bad_inplace","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu_1(src[i]);
        }""","""        std::fill(dst, dst + length, T{0});
        for (SizeType i = 0; i < length; ++i)
        {
            if (src[i] > T{0}) dst[i] = T{1};
        }"""),
("bad_extract_axis","C20",H,"""            throw std::runtime_error("extract error: axis param overload.");""","""            axis = dst_shape.size() - 1;"""),
("ok_inplace_tmp","C17",H,"""        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = relu_1(src[i]);
        }""","""        for (SizeType i = 0; i < length; ++i)
        {
            const T x = src[i];
            dst[i] = T{0};
            if (x > T{0}) dst[i] = T{1};
        }"""),
]
