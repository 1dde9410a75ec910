// Analysis translation unit: the single graph, instantiated.
#include "dnn/dlgraph.hpp"
template class EdgeLearning::Graph<std::shared_ptr<EdgeLearning::Layer>>;
