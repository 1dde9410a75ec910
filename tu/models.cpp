// Analysis translation unit: the templates of Model that build its graph, instantiated.
#include "dnn/model.hpp"
#include "dnn/dense.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/recurrent.hpp"
namespace el_instances {
using namespace EdgeLearning;
void use(Model& m, Model& n)
{
    m.add_layer<DenseLayer>("a", SizeType(1), SizeType(1));
    m.add_layer<RecurrentLayer>("r", SizeType(1), SizeType(1), SizeType(1), SizeType(1));
    m.add_loss<MeanSquaredLossLayer>("b", SizeType(1), SizeType(1));
    swap(m, n);
}
}
