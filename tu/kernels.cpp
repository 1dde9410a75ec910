// Analysis translation unit: the numeric kernels of DLMath, instantiated for the library's number type.
#include "dlmath.hpp"
namespace el_instances {
using namespace EdgeLearning;
using N = NumType;
using S2 = DLMath::Shape2d;
using S3 = DLMath::Shape3d;
void use(N* d, const N* s, const N* t, N v, SizeType n, S3 s3, S2 s2, std::vector<S3> v3, std::vector<SizeType> vs, N* d2, RneType& r)
{
    DLMath::arr_mul<N>(d, s, t, n); DLMath::arr_mul<N>(d, s, v, n);
    DLMath::arr_sum<N>(d, s, t, n); DLMath::arr_sum<N>(d, s, v, n);
    DLMath::matarr_mul<N>(d, s, t, n, n); DLMath::matarr_mul_no_check<N>(d, s, t, n, n);
    DLMath::relu<N>(v); DLMath::relu<N>(d, s, n); DLMath::relu_1<N>(v); DLMath::relu_1<N>(d, s, n);
    DLMath::elu<N>(v, v); DLMath::elu<N>(d, s, n, v); DLMath::elu_1<N>(v, v); DLMath::elu_1<N>(d, s, n, v);
    DLMath::elu_1_opt<N>(v, v); DLMath::elu_1_opt<N>(d, s, n, v);
    DLMath::tanh<N>(v); DLMath::tanh<N>(d, s, n); DLMath::tanh_1<N>(v); DLMath::tanh_1<N>(d, s, n);
    DLMath::tanh_1_opt<N>(v); DLMath::tanh_1_opt<N>(d, s, n);
    DLMath::sigmoid<N>(v); DLMath::sigmoid<N>(d, s, n); DLMath::sigmoid_1<N>(v); DLMath::sigmoid_1<N>(d, s, n);
    DLMath::sigmoid_1_opt<N>(v); DLMath::sigmoid_1_opt<N>(d, s, n);
    DLMath::softmax<N>(d, s, n); DLMath::stable_softmax<N>(d, s, n); DLMath::stable_softmax_no_check<N>(d, s, n);
    DLMath::softmax_1_opt<N>(d, s, t, n); DLMath::softmax_1_opt_no_check<N>(d, s, t, n); DLMath::softmax_1<N>(d, s, t, n);
    DLMath::cross_entropy<N>(v, v); DLMath::cross_entropy<N>(s, t, n); DLMath::cross_entropy_1<N>(v, v, v); DLMath::cross_entropy_1<N>(d, s, t, v, n);
    DLMath::squared_error<N>(v, v); DLMath::mean_squared_error<N>(s, t, n); DLMath::squared_error_1<N>(v, v, v);
    DLMath::mean_squared_error_1<N>(d, s, t, v, n);
    DLMath::max<N>(s, n); DLMath::argmax<N>(s, n); DLMath::max_and_argmax<N>(d, n);
    DLMath::cross_correlation<N>(d, s, s2, t, s2, s2, s2);
    DLMath::cross_correlation<N>(d, s, s3, t, s2, s2, s2);
    DLMath::cross_correlation<N>(d, s, s3, t, s2, n, s2, s2);
    DLMath::max_pool<N>(d, s, s3, s2, s2); DLMath::avg_pool<N>(d, s, s3, s2, s2);
    DLMath::append<N>(d, vs, s, n, n, n); DLMath::extract<N>(d, vs, s, n, n, n);
    DLMath::append_check<N>(d, vs, s, n, n, n); DLMath::extract_check<N>(d, vs, s, n, n, n);
    DLMath::concatenate<N>(d, s, s3, t, s3, n); DLMath::separate<N>(d, s3, d2, s3, s, n);
    DLMath::concatenate<N>(d, s, v3, n); DLMath::separate<N>(d, v3, s, n);
    DLMath::dense<N>(d, s, s, t, n, n); DLMath::dense_thread_opt<N>(d, s, s, t, n, n); DLMath::dense_simd_opt(d, s, s, t, n, n);
    DLMath::dense_1<N>(d, d2, d2, s, s, t, n, n); DLMath::dense_1_thread_opt<N>(d, d2, d2, s, s, t, n, n);
    DLMath::rand<N>(v, v, r); DLMath::unique_rand_sequence(n, n, r);
    DLMath::initialization_pdf<N>(DLMath::InitializationFunction::XAVIER, DLMath::ProbabilityDensityFunction::NORMAL, n);
    DLMath::index_of<SizeType>(vs, n);
}
}
