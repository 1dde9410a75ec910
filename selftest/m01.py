M="source/parser/mnist.hpp"
C="source/parser/cifar.hpp"
MUTS=[
# C01
("c1_nolabelmagic","C01",M,"        if (_is_malformed(_label_ifs, LABEL_MAGIC))","        if (_is_malformed(_label_ifs, LABEL_MAGIC) && image_count == 0)"),
("c1_magic_low","C01",M,"        return magic != num_to_check;","        return (magic & 0xffff) != num_to_check;"),
("c1_magic_or","C01",M,"        return magic != num_to_check;","        return magic < num_to_check;"),
("c1_rows_only","C01",M,"if (rows != MnistImage::IMAGE_SIDE || columns != MnistImage::IMAGE_SIDE)","if (rows != MnistImage::IMAGE_SIDE && columns != MnistImage::IMAGE_SIDE)"),
("c1_count_less","C01",M,"if (label_count != image_count)","if (label_count < image_count)"),
("c1_size_min","C01",M,"        _size = image_count;","        _size = image_count > 60000 ? 60000 : image_count;"),
("c1_size16","C01",M,"        _size = image_count;","        _size = static_cast<std::uint16_t>(image_count);"),
("c1_swap","C01",M,"        std::swap(buf[1], buf[2]);\n",""),
("ok_c1_noopenlabel","C01",M,"if(!_label_ifs.is_open() || !_label_ifs.good())","if(!_label_ifs.is_open() && !_label_ifs.good() && image_fp.empty())"),
("c1_reject_zero","C01",M,"        _size = image_count;","        if (image_count == 0) throw std::runtime_error(\"empty\");\n        _size = image_count;"),
("c1_reject_big","C01",M,"        if (label_count != image_count)","        if (label_count != image_count || image_count > 1000000)"),
("c1_order","C01",M,"        rows = read_uint32_endian_order(_image_ifs);\n        columns = read_uint32_endian_order(_image_ifs);","        rows = read_uint32_endian_order(_image_ifs);\n        columns = rows;"),
("ok_c1_helper","C01",M,"""        if (_is_malformed(_label_ifs, LABEL_MAGIC))
        {
            _image_ifs.close();
            _label_ifs.close();
            throw std::runtime_error("Labels malformed: magic number error");
        }""","""        auto fail = [&](const char* what)
        {
            _image_ifs.close();
            _label_ifs.close();
            throw std::runtime_error(what);
        };
        if (_is_malformed(_label_ifs, LABEL_MAGIC)) fail("Labels malformed: magic number error");"""),
("ok_c1_reorder","C01",M,"""        auto image_count = read_uint32_endian_order(_image_ifs);

        if (_is_malformed(_label_ifs, LABEL_MAGIC))
        {
            _image_ifs.close();
            _label_ifs.close();
            throw std::runtime_error("Labels malformed: magic number error");
        }
""","""        if (_is_malformed(_label_ifs, LABEL_MAGIC))
        {
            _image_ifs.close();
            _label_ifs.close();
            throw std::runtime_error("Labels malformed: magic number error");
        }
        auto image_count = read_uint32_endian_order(_image_ifs);
"""),
("ok_c1_shape","C01",M,"if (rows != MnistImage::IMAGE_SIDE || columns != MnistImage::IMAGE_SIDE)","const bool square = rows == columns;\n        if (!square || columns != MnistImage::IMAGE_SIDE)"),
("ok_c1_bytes","C01",M,"""    uint32_endian_order(ret);
    return ret;
""","""    const unsigned char* b = reinterpret_cast<const unsigned char*>(&ret);
    return (static_cast<std::uint32_t>(b[0]) << 24) | (static_cast<std::uint32_t>(b[1]) << 16)
         | (static_cast<std::uint32_t>(b[2]) << 8) | static_cast<std::uint32_t>(b[3]);
"""),
("ok_c1_open","C01",M,"if(!_label_ifs.is_open() || !_label_ifs.good())","if(!_label_ifs)"),
("ok_c1_destr","C01",M,"        std::uint32_t columns, rows;\n        rows = read_uint32_endian_order(_image_ifs);\n        columns = read_uint32_endian_order(_image_ifs);","        const std::uint32_t rows = read_uint32_endian_order(_image_ifs);\n        const std::uint32_t columns = read_uint32_endian_order(_image_ifs);"),
# C02
("c2_img_hdr","C02",M,"IMAGE_HEADER_SIZE + idx * height() * width()","IMAGE_HEADER_SIZE + idx * (height() * width() + (idx > 9999))"),
("c2_mod","C02",M,"        idx = idx % _size;","        if (idx > _size) idx = idx % _size;",1),
("c2_mod1","C02",M,"        idx = idx % _size;","        idx = idx % (_size + 1);",0),
("c2_item","C02",M,"return {image(idx), label(idx)};","return {image(idx), label(idx % 255)};"),
("c2_item_c","C02",C,"return {image(idx), label(idx)};","return {image(idx), label(idx + SIZE / SIZE - 1 + (idx >= SIZE))};"),
("c2_c100_off","C02",C,"                (idx * (height() * width() * channels() + _label_offset))\n                + _label_offset),","                (idx * (height() * width() * channels() + 1))\n                + _label_offset),"),
("c2_c100_hdr","C02",C,"                + _label_offset),","                + 1),"),
("c2_idx","C02",C,"CifarLabel ret{_batch_ifs, idx, _dataset};","CifarLabel ret{_batch_ifs, idx % 1000, _dataset};"),
("c2_len","C02",C,"                  IMAGE_SIDE * IMAGE_SIDE * IMAGE_CHANNELS);\n","                  IMAGE_SIDE * IMAGE_SIDE * IMAGE_CHANNELS - 1);\n"),
("c2_label_int","C02",M,"std::int64_t>(\n            LABEL_HEADER_SIZE","std::int8_t>(\n            LABEL_HEADER_SIZE"),
("c2_mod_image","C02",C,"        idx = idx % SIZE;\n        _batch_ifs.clear();\n        _batch_ifs.seekg(\n","        if (idx >= SIZE) idx -= SIZE;\n        _batch_ifs.clear();\n        _batch_ifs.seekg(\n"),
("ok_c2_pos","C02",C,"""        _batch_ifs.seekg(static_cast<std::int64_t>(
            idx * (height() * width() * channels() + _label_offset)),
            _batch_ifs.beg);""","""        const std::size_t record = side() * side() * channels() + _label_offset;
        const auto pos = static_cast<std::int64_t>(record * idx);
        _batch_ifs.seekg(pos);"""),
("ok_c2_helper","C02",M,"""        _image_ifs.clear();
        _image_ifs.seekg(static_cast<std::int64_t>(
            IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
        MnistImage ret{_image_ifs, idx};""","""        auto go = [](std::ifstream& s, std::size_t p) { s.clear(); s.seekg(static_cast<std::streamoff>(p), std::ios::beg); };
        go(_image_ifs, idx * height() * width() + IMAGE_HEADER_SIZE);
        MnistImage ret{_image_ifs, idx};"""),
("ok_c2_item","C02",M,"return {image(idx), label(idx)};","auto lab = label(idx);\n        auto img = image(idx);\n        return {img, lab};"),
("ok_c2_while","C02",M,"        idx = idx % _size;","        if (idx >= _size) idx %= _size;",0),
("ok_c2_read2","C02",C,"""        data.read(reinterpret_cast<char*>(_image.data()),
                  IMAGE_SIDE * IMAGE_SIDE * IMAGE_CHANNELS);""","""        char* to = reinterpret_cast<char*>(&_image[0]);
        data.read(to, static_cast<std::streamsize>(_image.size()));"""),
# C03
("c3_nolabel_fine","C03",C,"ret.push_back(cifar_label.fine_label());","ret.push_back(cifar_label.coarse_label());"),
("c3_label_first","C03",M,"        std::vector<NumType> ret(mnist_image.begin(), mnist_image.end());\n        ret.push_back(mnist_label);","        std::vector<NumType> ret;\n        ret.push_back(mnist_label);\n        ret.insert(ret.end(), mnist_image.begin(), mnist_image.end());"),
("c3_fs","C03",M,"        return height() * width() + 1;","        return height() * width();"),
("c3_labidx","C03",C,"                return {feature_size() - 1};","                return {feature_size()};",0),
("c3_amount","C03",M,"    SizeType entries_amount() const override\n    {\n        return size();","    SizeType entries_amount() const override\n    {\n        return size() - (size() > 0);"),
("c3_order","C03",C,"new_offset + j * IMAGE_CHANNELS + 1]\n                            = _image[g_offset","new_offset + j * IMAGE_CHANNELS + 1]\n                            = _image[b_offset"),
("c3_rowcol","C03",C,"                    size_t offset = i * IMAGE_SIDE;\n                    size_t new_offset = i * IMAGE_SIDE * IMAGE_CHANNELS;","                    size_t offset = i * IMAGE_SIDE;\n                    size_t new_offset = i * IMAGE_CHANNELS;"),
("c3_shape","C03",C,"                return {channels(), side(), side()};","                return {side(), channels(), side()};"),
("c3_entry_other","C03",M,"auto mnist_label = label(i).data();","auto mnist_label = label(i + 1).data();"),
("c3_norm","C03",M,"        ret.push_back(mnist_label);","        ret.push_back(mnist_label % 10);"),
("ok_c3_reserve","C03",M,"        std::vector<NumType> ret(mnist_image.begin(), mnist_image.end());\n        ret.push_back(mnist_label);","        std::vector<NumType> ret;\n        ret.reserve(feature_size());\n        ret.insert(ret.end(), mnist_image.begin(), mnist_image.end());\n        ret.emplace_back(static_cast<NumType>(mnist_label));"),
("ok_c3_loop","C03",M,"        std::vector<NumType> ret(mnist_image.begin(), mnist_image.end());\n        ret.push_back(mnist_label);","        std::vector<NumType> ret;\n        for (auto p: mnist_image) ret.push_back(static_cast<NumType>(p));\n        ret.push_back(mnist_label);"),
("ok_c3_index","C03",M,"        std::vector<NumType> ret(mnist_image.begin(), mnist_image.end());\n        ret.push_back(mnist_label);","        std::vector<NumType> ret(feature_size());\n        for (std::size_t k = 0; k < mnist_image.size(); ++k) ret[k] = mnist_image[k];\n        ret[feature_size() - 1] = mnist_label;"),
("ok_c3_chan","C03",C,"""                        ret[new_offset + j * IMAGE_CHANNELS]
                            = _image[r_offset + offset + j];
                        ret[new_offset + j * IMAGE_CHANNELS + 1]
                            = _image[g_offset + offset + j];
                        ret[new_offset + j * IMAGE_CHANNELS + 2]
                            = _image[b_offset + offset + j];""","""                        for (size_t ch = 0; ch < IMAGE_CHANNELS; ++ch)
                            ret[new_offset + j * IMAGE_CHANNELS + ch]
                                = _image[ch * IMAGE_SIDE * IMAGE_SIDE + offset + j];
                        (void) r_offset; (void) g_offset; (void) b_offset;"""),
("ok_c3_flat","C03",C,"""                for (size_t i = 0; i < IMAGE_SIDE; ++i) {
                    size_t offset = i * IMAGE_SIDE;
                    size_t new_offset = i * IMAGE_SIDE * IMAGE_CHANNELS;
                    for (size_t j = 0; j < IMAGE_SIDE; ++j) {
                        ret[new_offset + j * IMAGE_CHANNELS]
                            = _image[r_offset + offset + j];
                        ret[new_offset + j * IMAGE_CHANNELS + 1]
                            = _image[g_offset + offset + j];
                        ret[new_offset + j * IMAGE_CHANNELS + 2]
                            = _image[b_offset + offset + j];
                    }
                }""","""                for (size_t p = 0; p < IMAGE_SIDE * IMAGE_SIDE; ++p) {
                    ret[p * IMAGE_CHANNELS] = _image[r_offset + p];
                    ret[p * IMAGE_CHANNELS + 1] = _image[g_offset + p];
                    ret[p * IMAGE_CHANNELS + 2] = _image[b_offset + p];
                }"""),
("ok_c3_if","C03",C,"""        switch(_dataset)
        {
            case CifarDataset::CIFAR_100:
            {
                ret.push_back(cifar_label.fine_label());
                break;
            }
            case CifarDataset::CIFAR_10:
            default:
            {
                ret.push_back(cifar_label.data());
                break;
            }
        }
        return ret;""","""        const bool fine = _dataset == CifarDataset::CIFAR_100;
        ret.push_back(fine ? cifar_label.fine_label() : cifar_label.coarse_label());
        return ret;"""),
# C04
("c4_noimg","C04",M,"        if (!_image_ifs)\n        {\n            throw std::runtime_error(\"Images malformed: could not read image\");","        if (_image_ifs.bad())\n        {\n            throw std::runtime_error(\"Images malformed: could not read image\");"),
("c4_noclear","C04",M,"        _label_ifs.clear();\n",""),
("c4_clear_after","C04",C,"        _batch_ifs.clear();\n        _batch_ifs.seekg(static_cast<std::int64_t>(\n            idx * (height() * width() * channels() + _label_offset)),\n            _batch_ifs.beg);","        _batch_ifs.seekg(static_cast<std::int64_t>(\n            idx * (height() * width() * channels() + _label_offset)),\n            _batch_ifs.beg);\n        _batch_ifs.clear();"),
("c4_header","C04",M,"    if (!ifs)\n    {\n        throw std::runtime_error(\"Data malformed: unexpected end of file\");","    if (ifs.gcount() == 0)\n    {\n        throw std::runtime_error(\"Data malformed: unexpected end of file\");"),
("c4_gcount","C04",C,"        if (!_batch_ifs)\n        {\n            throw std::runtime_error(\"Batch malformed: could not read image\");","        if (_batch_ifs.gcount() == 0)\n        {\n            throw std::runtime_error(\"Batch malformed: could not read image\");"),
("ok_c4_fail","C04",M,"        if (!_image_ifs)\n        {\n            throw std::runtime_error(\"Images malformed: could not read image\");","        if (_image_ifs.fail())\n        {\n            throw std::runtime_error(\"Images malformed: could not read image\");"),
("ok_c4_gcount","C04",C,"        if (!_batch_ifs)\n        {\n            throw std::runtime_error(\"Batch malformed: could not read image\");","        if (!_batch_ifs || _batch_ifs.gcount() != 3072)\n        {\n            _batch_ifs.clear();\n            throw std::runtime_error(\"Batch malformed: could not read image\");"),
# C05
("c5_257","C05",M,"(sizeof(map) - 1) / 256.0","(sizeof(map) - 1) / 254.0"),
("c5_nominus","C05",M,"((sizeof(map) - 1) / 256.0)","(sizeof(map) / 255.0)"),
("c5_pixel","C05",M,"auto grayscale = _image[offset + j];","auto grayscale = _image[offset + j / 2 * 2];"),
("c5_transposed","C05",M,"auto grayscale = _image[offset + j];","auto grayscale = _image[j * IMAGE_SIDE + i];"),
("c5_oneglyph","C05",C,"                ret += c;\n                ret += c;\n","                ret += c;\n"),
("c5_offset","C05",C,"                    _image[b_offset + offset + j]);","                    _image[b_offset + offset + j + IMAGE_SIDE]);"),
("c5_r","C05",C,"                    _image[r_offset + offset + j],\n                    _image[g_offset","                    _image[g_offset + offset + j],\n                    _image[g_offset"),
("c5_bright","C05",C,"r * 0.21 + g * 0.72 + b * 0.07","r * 0.31 + g * 0.72 + b * 0.07"),
("ok_c5_append","C05",M,"                ret += c;\n                ret += c;\n","                ret.append(2, c);\n"),
("ok_c5_int","C05",M,"""                auto c = map[static_cast<std::size_t>(
                    grayscale * ((sizeof(map) - 1) / 256.0))];""","""                auto c = map[static_cast<std::size_t>(grayscale) * (sizeof(map) - 1) / 256];"""),
("ok_c5_var","C05",M,"""                auto c = map[static_cast<std::size_t>(
                    grayscale * ((sizeof(map) - 1) / 256.0))];""","""                const double step = (sizeof(map) - 1) / 256.0;
                const auto pos = static_cast<std::size_t>(step * grayscale);
                const char c = map[pos];"""),
("ok_c5_bright","C05",C,"r * 0.21 + g * 0.72 + b * 0.07","0.07 * b + 0.72 * g + 0.21 * r"),
("ok_c5_nl","C05",M,"            ret += \"\\n\";\n        }","            ret.push_back('\\n');\n        }"),
("ok_c5_flat","C05",M,"""        for (size_t i = 0; i < IMAGE_SIDE; ++i)
        {
            size_t offset = i * IMAGE_SIDE;
            for (size_t j = 0; j < IMAGE_SIDE; ++j)
            {
                auto grayscale = _image[offset + j];""","""        size_t pixel = 0;
        for (size_t i = 0; i < IMAGE_SIDE; ++i)
        {
            for (size_t j = 0; j < IMAGE_SIDE; ++j)
            {
                auto grayscale = _image[pixel++];"""),
]
