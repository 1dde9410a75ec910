// Analysis translation unit: everything source/parser exports, with the
// template members instantiated for the element types the library supports.
#include "parser/type_checker.hpp"
#include "parser/parser.hpp"
#include "parser/csv.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include "parser/json.hpp"

namespace el_instances {
using namespace EdgeLearning;
template <typename T> void use_csv(CSV& c, CSVRow& r, CSVField& f)
{
    T t{};
    f.as<T>(t);
    (void) f.as<T>();
    (void) r.to_vec<T>();
    (void) c.to_vec<T>();
    (void) c.to_mat<T>();
}
template <typename T> void use_leaf(JsonLeaf& l, JsonItem& i)
{
    T t{};
    l.as<T>(t);
    (void) l.as<T>();
    i.as<T>(t);
    (void) i.as<T>();
    std::vector<T> v;
    std::map<std::string, T> m;
    i.as_vec<T>(v);
    i.as_map<T>(m);
    (void) i.as_vec<T>();
    (void) i.as_map<T>();
}
void use(CSV& c, CSVRow& r, CSVField& f, JsonLeaf& l, JsonItem& i)
{
    use_csv<int>(c, r, f);
    use_csv<double>(c, r, f);
    use_csv<std::string>(c, r, f);
    use_csv<bool>(c, r, f);
    use_leaf<int>(l, i);
    use_leaf<double>(l, i);
    use_leaf<std::string>(l, i);
    use_leaf<bool>(l, i);
    l.value(1);
    l.value(1.0);
    l.value(true);
    TypeChecker tc;
    (void) tc(1);
    (void) tc(1.0);
    (void) tc(true);
    (void) tc(1ul);
}
}
