D="source/dnn/dlgraph.cpp"
H="source/dnn/dlgraph.hpp"
FIND="""    if (std::find(_layers.begin(), _layers.end(), layer)
        != _layers.cend())
    {
        return;
    }
"""
FWDL="""    for (const auto& from: froms)
    {
        _forward_graph.add_arc(from, to);
        _training_forward_graph.add_arc(from, to);
    }
    _compute_input_layers();
    _compute_output_layers();
"""
INS="""    for (std::size_t l_idx = 0; l_idx < _layers.size(); ++l_idx)
    {
        if (!_forward_graph.has_predecessors(l_idx)
            && std::find(_loss_layers_idx.begin(), _loss_layers_idx.end(), l_idx)
               == _loss_layers_idx.cend())
        {
            _input_layers_idx.push_back(l_idx);
        }
    }
"""
OUTS=INS.replace("predecessors","successors").replace("input","output")
GUARD="""                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
                    && DLMath::index_of(done_list, to_layer_idx) == -1
                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
"""
RUN="""    while(!layers_idx.empty())
    {
        auto curr_layers_idx = layers_idx;
        layers_idx.clear();
        for (auto from_layer_idx: curr_layers_idx)
        {
            for (const auto& to_layer_idx: forward(from_layer_idx))
            {
                DLGraph::Arc arc;
                arc.from = _layers[from_layer_idx];
                arc.to   = _layers[to_layer_idx];
                ret.push_back(arc);

                done_list.push_back(from_layer_idx);
                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
                    && DLMath::index_of(done_list, to_layer_idx) == -1
                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
                {
                    layers_idx.push_back(to_layer_idx);
                }
            }
        }
    }
"""
HASP="""        for (const auto& edge: _edges)
        {
            if (std::find(edge.second.begin(), edge.second.end(), idx)
                != edge.second.cend())
            {
                return true;
            }
        }
        return false;
"""
CLONE="""    for(const auto& l: obj._layers)
    {
        _layers.push_back(l->clone());
    }
"""
MUTS=[
 ("bad_node_twice","C30",D,FIND,""),
 ("bad_node_first","C30",D,FIND,"    if (!_layers.empty() && _layers.front() == layer) return;\n"),
 ("bad_node_last_only","C30",D,FIND,"    if (!_layers.empty() && _layers.back() == layer) return;\n"),
 ("bad_edge_no_back","C30",D,"    add_arc_forward(froms, to);\n    add_arc_backward(to, froms);\n","    add_arc_forward(froms, to);\n",0),
 ("bad_edge_back_same","C30",D,"    add_arc_backward(tos, from);","    add_arc_backward(from, tos);"),
 ("bad_fwd_training_first_only","C30",D,FWDL,FWDL.replace("        _training_forward_graph","        if (from == froms.front()) _training_forward_graph")),
 ("bad_fwd_no_compute","C30",D,FWDL,FWDL.replace("    _compute_output_layers();\n","")),
 ("bad_fwd_compute_if_one","C30",D,FWDL,FWDL.replace("    _compute_input_layers();\n","    if (froms.size() == 1) _compute_input_layers();\n")),
 ("bad_loss_in_forward","C30",D,"        _training_forward_graph.add_arc(from, to);\n    }\n}","        _training_forward_graph.add_arc(from, to);\n        _forward_graph.add_arc(from, to);\n    }\n}"),
 ("bad_back_swapped","C30",D,"        _backward_graph.add_arc(from, to);","        _backward_graph.add_arc(to, from);",0),
 ("bad_ins_loss","C30",D,INS,INS.replace("            && std::find(_loss_layers_idx.begin(), _loss_layers_idx.end(), l_idx)\n               == _loss_layers_idx.cend())","            && (_loss_layers_idx.empty() || _loss_layers_idx.back() != l_idx))")),
 ("bad_outs_training","C30",D,OUTS,OUTS.replace("!_forward_graph","!_training_forward_graph")),
 ("bad_ins_no_clear","C30",D,"    _input_layers_idx.clear();\n",""),
 ("bad_copy_one_graph","C30",D,"    _training_forward_graph._edges = obj._training_forward_graph._edges;","    _training_forward_graph._edges = obj._forward_graph._edges;",0),
 ("bad_assign_keeps","C30",D,"    _layers.clear();\n",""),
 ("bad_assign_loss","C30",D,"    _loss_layers_idx = obj._loss_layers_idx;\n",""),
 ("bad_copy_shares","C30",D,CLONE,CLONE.replace("l->clone()","l"),0),
 ("bad_copy_no_compute","C30",D,"    _backward_graph._edges = obj._backward_graph._edges;\n    _compute_input_layers();","    _backward_graph._edges = obj._backward_graph._edges;\n",0),
 ("bad_has_swap","C30",D,"    return _forward_graph.has_successors(layer_idx);","    return _training_forward_graph.has_successors(layer_idx);"),
 ("bad_pred_swap","C30",D,"    return _backward_graph.predecessors(layer_idx);","    return _backward_graph.successors(layer_idx);"),
 ("bad_matrix","C30",D,"    return _backward_graph.adjacent_matrix();","    return _training_forward_graph.adjacent_matrix();"),
 ("bad_layers_idx","C30",D,"        ret[l_idx] = l_idx;","        ret[l_idx] = l_idx + 1 - 1 * (l_idx < _layers.size() - 1 || l_idx == 0);"),
 ("bad_forward_layers","C30",D,"            ret.push_back(_layers[l_idx]);\n        }\n","            ret.push_back(_layers[ret.size()]);\n        }\n"),
 ("bad_output_layers","C30",D,"    for (const auto& l_idx: _output_layers_idx)\n    {\n        ret.push_back(_layers[l_idx]);","    for (const auto& l_idx: _output_layers_idx)\n    {\n        if (has_training_forward(l_idx)) ret.push_back(_layers[l_idx]);"),
 ("bad_run_done","C30",D,GUARD,GUARD.replace("                    && DLMath::index_of(done_list, to_layer_idx) == -1\n",""),1),
 ("bad_run_dup","C30",D,GUARD,GUARD.replace("\n                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)",")"),0),
 ("bad_run_cur","C30",D,GUARD,GUARD.replace("(DLMath::index_of(curr_layers_idx, to_layer_idx) == -1\n                    && ","("),2),
 ("bad_run_start","C30",D,"    std::vector<SizeType> layers_idx(_loss_layers_idx);","    std::vector<SizeType> layers_idx(_loss_layers_idx.begin(), _loss_layers_idx.begin() + (_loss_layers_idx.empty() ? 0 : 1));"),
 ("bad_run_first","C30",D,"            for (const auto& to_layer_idx: backward(from_layer_idx))\n            {","            for (const auto& to_layer_idx: backward(from_layer_idx))\n            {\n                if (to_layer_idx == from_layer_idx) continue;"),
 ("bad_run_new_only","C30",D,"                ret.push_back(arc);\n","                if (DLMath::index_of(done_list, to_layer_idx) == -1) ret.push_back(arc);\n",0),
 ("bad_index","C30",D,"    return DLMath::index_of(layer_pointers, &l);","    auto r = DLMath::index_of(layer_pointers, &l);\n    return r < 0 ? 0 : r;"),
 ("bad_g_arc_reversed","C30",H,"        _edges[static_cast<std::size_t>(from_idx)].insert(\n            static_cast<std::size_t>(to_idx));","        _edges[static_cast<std::size_t>(to_idx)].insert(\n            static_cast<std::size_t>(from_idx));"),
 ("bad_g_arc_replaces","C30",H,"        _edges[static_cast<std::size_t>(from_idx)].insert(\n            static_cast<std::size_t>(to_idx));","        _edges[static_cast<std::size_t>(from_idx)] = {static_cast<std::size_t>(to_idx)};"),
 ("bad_g_arc_no_to","C30",H,"if (from_idx == -1 || to_idx == -1)","if (from_idx == -1)"),
 ("bad_g_hasp_key","C30",H,HASP,"        return _edges.count(idx) > 0;\n"),
 ("bad_g_hasp_first","C30",H,HASP,HASP.replace("                return true;\n            }\n","                return true;\n            }\n            if (edge.first > idx) return false;\n")),
 ("bad_g_pred_succ","C30",H,"                ret.insert(node);","                ret.insert(*successors.begin());"),
 ("bad_g_matrix_t","C30",H,"                ret[row + col] = std::int64_t(1);","                ret[col * _nodes.size() + edge.first] = std::int64_t(1);"),
 ("bad_g_hass","C30",H,"_edges.count(idx) > 0 && !_edges.at(idx).empty()","_edges.count(idx) > 0 && _edges.at(idx).size() > 1"),
 ("ok_node_loop","C30",D,FIND,"    for (const auto& l: _layers)\n    {\n        if (l == layer) return;\n    }\n"),
 ("ok_node_index","C30",D,FIND,"    if (DLMath::index_of(_layers, layer) != -1) return;\n"),
 ("ok_node_anyof","C30",D,FIND,"    if (std::any_of(_layers.begin(), _layers.end(), [&](const std::shared_ptr<Layer>& x) { return x == layer; })) return;\n"),
 ("ok_node_count","C30",D,FIND,"    if (std::count(_layers.begin(), _layers.end(), layer) > 0) return;\n"),
 ("ok_ins_helper","C30",[(D,INS,"    for (auto l_idx: forward_layers_idx())\n    {\n        if (!_forward_graph.has_predecessors(l_idx)) _input_layers_idx.push_back(l_idx);\n    }\n")],None,None),
 ("ok_ins_local","C30",D,"    _input_layers_idx.clear();\n"+INS,"    std::vector<SizeType> r;\n"+INS.replace("            _input_layers_idx.push_back","            r.push_back")+"    _input_layers_idx = std::move(r);\n"),
 ("ok_ins_isloss","C30",D,INS,INS.replace("        if (!_forward","        bool is_loss = false;\n        for (auto x: _loss_layers_idx) is_loss = is_loss || x == l_idx;\n        if (is_loss) continue;\n        if (!_forward").replace("\n            && std::find(_loss_layers_idx.begin(), _loss_layers_idx.end(), l_idx)\n               == _loss_layers_idx.cend())",")")),
 ("ok_fwd_twoloops","C30",D,FWDL,"    for (const auto& from: froms)\n    {\n        _forward_graph.add_arc(from, to);\n    }\n    for (std::size_t i = 0; i < froms.size(); ++i)\n    {\n        _training_forward_graph.add_arc(froms[i], to);\n    }\n    _compute_output_layers();\n    _compute_input_layers();\n"),
 ("ok_assign_swap","C30",D,"    _loss_layers_idx = obj._loss_layers_idx;\n\n    _layers.clear();\n","    _layers.clear();\n    _loss_layers_idx = obj._loss_layers_idx;\n"),
 ("ok_run_contains","C30",D,RUN,RUN.replace("DLMath::index_of(done_list, to_layer_idx) == -1","std::find(done_list.begin(), done_list.end(), to_layer_idx) == done_list.end()")),
 ("ok_run_swap","C30",D,RUN,RUN.replace("        auto curr_layers_idx = layers_idx;\n        layers_idx.clear();\n","        std::vector<SizeType> curr_layers_idx;\n        curr_layers_idx.swap(layers_idx);\n")),
 ("ok_run_move","C30",D,RUN,RUN.replace("        auto curr_layers_idx = layers_idx;\n        layers_idx.clear();\n","        auto curr_layers_idx = std::move(layers_idx);\n        layers_idx.clear();\n")),
 ("ok_run_brace","C30",D,RUN,RUN.replace("                DLGraph::Arc arc;\n                arc.from = _layers[from_layer_idx];\n                arc.to   = _layers[to_layer_idx];\n                ret.push_back(arc);\n","                ret.push_back({_layers[from_layer_idx], _layers[to_layer_idx]});\n")),
 ("ok_run_queue","C30",D,RUN,"""    for (std::size_t k = 0; k < layers_idx.size(); ++k)
    {
        auto from_layer_idx = layers_idx[k];
        for (const auto& to_layer_idx: forward(from_layer_idx))
        {
            DLGraph::Arc arc;
            arc.from = _layers[from_layer_idx];
            arc.to   = _layers[to_layer_idx];
            ret.push_back(arc);
            if (DLMath::index_of(layers_idx, to_layer_idx) == -1)
            {
                layers_idx.push_back(to_layer_idx);
            }
        }
    }
"""),
 ("ok_run_donebefore","C30",D,RUN,RUN.replace("                done_list.push_back(from_layer_idx);\n","").replace("        {\n            for (const","        {\n            done_list.push_back(from_layer_idx);\n            for (const")),
 ("ok_forward_layers","C30",D,"    std::vector<std::shared_ptr<Layer>> ret;\n    for (std::size_t l_idx = 0; l_idx < _layers.size(); ++l_idx)\n    {\n        if (std::find(_loss_layers_idx.begin(),\n                      _loss_layers_idx.end(),\n                      l_idx) == _loss_layers_idx.cend())\n        {\n            ret.push_back(_layers[l_idx]);\n        }\n    }\n    return ret;","    std::vector<std::shared_ptr<Layer>> ret;\n    for (auto l_idx: forward_layers_idx()) ret.push_back(_layers[l_idx]);\n    return ret;"),
 ("ok_layers_idx_iota","C30",D,"    for (std::size_t l_idx = 0; l_idx < _layers.size(); ++l_idx)\n    {\n        ret[l_idx] = l_idx;\n    }\n","    std::iota(ret.begin(), ret.end(), SizeType(0));\n"),
 ("ok_layers_idx_push","C30",D,"    std::vector<SizeType> ret(_layers.size());\n    for (std::size_t l_idx = 0; l_idx < _layers.size(); ++l_idx)\n    {\n        ret[l_idx] = l_idx;\n    }\n","    std::vector<SizeType> ret;\n    ret.reserve(_layers.size());\n    while (ret.size() < _layers.size()) ret.push_back(ret.size());\n"),
 ("ok_index_loop","C30",D,"""    std::vector<const Layer*> layer_pointers;
    for (const auto& l_graph: _layers)
    {
        layer_pointers.push_back(l_graph.get());
    }
    return DLMath::index_of(layer_pointers, &l);""","""    for (std::size_t k = 0; k < _layers.size(); ++k)
    {
        if (_layers[k].get() == &l) return static_cast<std::int64_t>(k);
    }
    return -1;"""),
 ("ok_g_hasp_count","C30",H,HASP,HASP.replace("std::find(edge.second.begin(), edge.second.end(), idx)\n                != edge.second.cend()","edge.second.count(idx) > 0")),
 ("ok_g_hasp_pred","C30",H,HASP,"        return !predecessors(idx).empty();\n"),
 ("ok_g_hasp_find","C30",H,HASP,HASP.replace("std::find(edge.second.begin(), edge.second.end(), idx)\n                != edge.second.cend()","edge.second.find(idx) != edge.second.end()")),
 ("ok_g_succ_find","C30",H,"        return _edges.count(idx) > 0 ? _edges.at(idx) : std::set<std::size_t>();","        auto it = _edges.find(idx);\n        if (it == _edges.end()) return {};\n        return it->second;"),
 ("ok_g_hass","C30",H,"        return _edges.count(idx) > 0 && !_edges.at(idx).empty();","        return !successors(idx).empty();"),
 ("ok_g_arc_ref","C30",H,"        _edges[static_cast<std::size_t>(from_idx)].insert(\n            static_cast<std::size_t>(to_idx));","        auto& s = _edges[static_cast<std::size_t>(from_idx)];\n        s.insert(static_cast<std::size_t>(to_idx));"),
 ("ok_g_arc_two_throws","C30",H,"        if (from_idx == -1 || to_idx == -1)\n        {","        if (to_idx < 0)\n        {\n            throw std::runtime_error(\"to\");\n        }\n        if (from_idx < 0)\n        {"),
]
