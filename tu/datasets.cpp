// Analysis translation unit: the dataset, instantiated.
#include "data/dataset.hpp"
template class EdgeLearning::Dataset<double>;
