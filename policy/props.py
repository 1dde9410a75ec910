"""The table of properties: one place from which properties.jsonl and
MANIFEST.json are generated (python3 tool/mk.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


NA = []          # (id, reason) of properties nothing claims

IR = "static dataflow over normalised LLVM IR of the current sources"

prop("C01", "Only a consistent pair of MNIST files opens",
     "Opening a MNIST image/label file pair succeeds only if both files could be opened, carry their magic numbers, declare 28x28 images and "
     "the same number of records; every other pair ends in an exception, and no consistent pair is turned away. The size the dataset then "
     "reports is the record count the headers declare.",
     ["inputs", "fault_sequences"], "every pair of files, including missing, short, swapped and mismatching ones, on hosts of either byte order",
     "The tests open three fixtures; they cannot reach every header value or every point at which a header may be cut short.",
     ["source/parser/mnist.hpp"],
     [("header validation in the MNIST dataset constructor", "Mnist::Mnist"), ("big-endian word reader", "read_uint32_endian_order")],
     IR + ": must-facts over file bytes at constructor exits",
     "decides which header conditions are established at every normal constructor exit and which conditions lead to rejection; assumes the "
     "documented behaviour of file streams")
prop("C02", "A record index addresses that record's bytes and nothing else",
     "Asking a MNIST or CIFAR dataset for the image or label at an index (taken modulo the number of records) delivers exactly the bytes that "
     "the published file format assigns to that record, of full length, and the object carries that index. An item pairs the image and the label "
     "of one and the same record, whatever was read before.",
     ["inputs", "histories", "configurations"], "every index, every order of preceding calls, every dataset flavour and shape order",
     "The tests look at a handful of indices of one fixture and never at fine-label files of every configuration.",
     ["source/parser/mnist.hpp", "source/parser/cifar.hpp"],
     [("seek before each read", "Mnist::image, Mnist::label, Cifar::image, Cifar::label"), ("record readers", "MnistImage, MnistLabel, CifarImage, CifarLabel")],
     IR + ": canonical file-offset polynomials of every byte delivered",
     "compares, for each reachable configuration, the source offset of every delivered byte with the format's polynomial")
prop("C03", "Numeric entries have the advertised layout",
     "The numeric entry of an image record is its pixels as unsigned values in the order the dataset advertises, followed by the record's label "
     "(the fine one where the dataset has fine labels). The advertised feature count, label position, entry count and image shape agree with that "
     "layout for every dataset flavour and channel order.",
     ["inputs", "configurations"], "every record, every dataset flavour, both channel orders",
     "The tests compare a few values of one entry; sign handling, channel permutation and label position are functions of all 785/3073 positions and every configuration.",
     ["source/parser/mnist.hpp", "source/parser/cifar.hpp"],
     [("entry construction", "Mnist::entry, Cifar::entry"), ("channel permutation", "CifarImage::data"), ("declared layout", "feature_size, labels_idx, shape")],
     IR + ": sequence domain over ordered container writes",
     "derives the exact term of every element of an entry and compares it with the declared layout")
prop("C04", "Short image files raise an error and do not poison later reads",
     "When the bytes of a requested record cannot be read completely, the request ends in an exception rather than in a record with made-up "
     "content. After such a failure, requests for records that are present succeed again.",
     ["inputs", "fault_sequences", "histories"], "every truncation point of every file and every order of requests",
     "The fixtures are complete files; no test reads past a truncation point or reads again after one.",
     ["source/parser/mnist.hpp", "source/parser/cifar.hpp"],
     [("stream state tests after reading", "Mnist::image, Mnist::label, Cifar::image, Cifar::label, read_uint32_endian_order"),
      ("stream state reset before seeking", "Mnist::image, Mnist::label, Cifar::image, Cifar::label")],
     IR + ": typestate of input streams",
     "requires a not-failed fact for every read at every normal exit and a state reset that dominates every positioned read")
prop("C05", "Rendering an image stays in bounds and shows every pixel in place",
     "The text rendering of an image shows each pixel exactly where it belongs, row by row, for every pixel value, with glyphs ordered by "
     "brightness and never outside the glyph palette. The brightness of a colour pixel takes all three of its colour values into account and never overflows.",
     ["inputs"], "every image content",
     "The tests never render an image with extreme pixel values, nor compare the rendering.",
     ["source/parser/mnist.hpp", "source/parser/cifar.hpp"],
     [("palette lookup", "MnistImage and CifarImage text conversion"), ("brightness formula", "perception_brightness")],
     IR + ": intervals and linear forms of floating terms, sequence domain over text",
     "bounds every palette index and derives the pixel each character depends on")
TC = "source/parser/type_checker.hpp"
CSVH = "source/parser/csv.hpp"
prop("C06", "A field's type is the one its text has",
     "The inferred type of a text is determined by the text alone: the empty text has no type, true and false are boolean, an optionally signed "
     "decimal integer without leading zeros is an integer, an optionally signed decimal number with a fraction or an exponent is a floating number, "
     "and everything else is a string. The type predicates, the column types of a row and the type of a single field all agree with that classification.",
     ["inputs"], "every text",
     "The tests try some forty texts; the classification is a function of all strings.",
     [TC, CSVH],
     [("classification", "TypeChecker::operator()(std::string)"), ("predicates", "TypeChecker::is_bool, is_int, is_float, is_string"), ("column types", "CSVRow, CSVField")],
     IR + ": decision tables over the classification branches combined with an exact regular-language comparison (product automata)",
     "compares, as languages, the set of texts for which each type is delivered with the specified one; assumes std::regex_match implements ECMAScript "
     "matching for the character-level subset used")
prop("C07", "Converting a text delivers the value the text denotes",
     "Converting a text to an integer, a floating number, a boolean or a string delivers the value the text denotes and reports success exactly when "
     "the whole text is such a value; a string is delivered unchanged; a boolean is true exactly for the texts true and 1. Converting a value to text "
     "and values of CSV fields and JSON leaves go through the same conversion. A value that was never read or computed is never delivered, whatever the text is.",
     ["inputs"], "every text and every target type",
     "The tests convert a dozen well-formed texts; failing conversions and indeterminate values show up only for texts that no test uses.",
     [TC, CSVH, "source/parser/json.hpp"],
     [("conversion", "convert, TypeChecker::operator()"), ("delivery", "CSVField::as, JsonLeaf::as"), ("initialisation", "constructors of parser classes")],
     IR + ": origin of every delivered value, definite assignment",
     "derives the origin term of every delivered value and status; requires definite assignment of every delivered variable and every scalar member; "
     "the meaning of stream extraction itself is the standard library's")
prop("C08", "Row and column indices address the lines and fields of the file",
     "Row i of a CSV file (modulo the number of rows) is exactly line i of the file whatever was read before, row 0 being the header, and carries that "
     "number; field k of a row is exactly the text between its separators k-1 and k, or an error when there is no such field. The number of rows is the number of lines, the "
     "last one with or without a terminator, and the number of columns is one more than the number of separators in the header. Rows are equal exactly when their lines are.",
     ["inputs", "histories"], "every file content, separator and order of accesses",
     "The tests read one small file mostly in ascending order; the cached row, skipping of lines and missing fields depend on the history and the content.",
     [CSVH],
     [("row access and the cached row", "CSV::operator[]"), ("field access", "CSVRow::operator[]"), ("counting", "CSV::CSV"), ("row copies", "CSVRow")],
     IR + ": stream positions in lines and fields, invariant of the cached row by induction over member functions",
     "proves line/field origin terms of every delivered row and field; assumes the file does not change while the object lives")
prop("C09", "Converting or iterating a CSV file visits every row and field in order",
     "Converting a row to a vector delivers exactly one element per column, element k being the conversion of field k; an absent field never shows the content of another. "
     "Converting a file delivers one element per line in order, and a flattened file the rows one after the other. Iteration runs over exactly the rows after the header; an iterator "
     "always delivers the row it names, whichever way it was moved, copied or read past the end before. Entry i of the dataset is the row after the header with that number, and the entry count, "
     "feature count and label columns agree with the file. Missing types are inferred from the first row after the header.",
     ["inputs", "histories"], "every file, every target type, every sequence of iterator operations",
     "The tests iterate forwards over one well-formed file; ragged rows and mixed iterator moves are never tried.",
     [CSVH],
     [("row conversions", "CSVRow conversion operators"), ("file conversions", "CSV conversion operators"), ("iteration", "CSVIterator, CSV::begin, CSV::end"),
      ("dataset view", "CSV::entry, entries_amount, feature_size, labels_idx")],
     IR + ": symbolic sequence domain, iterator invariant by induction over its operations",
     "derives for every conversion the length and the k-th element as terms over (file, line, field), and proves the iterator invariant for every operation")
prop("C10", "Parsed objects never refer to storage that is gone",
     "Rows, fields and iterators refer to the column types of the file object they came from, or to those they were given; a copy of a file object, or one assigned to, is independent of the original and "
     "owns the types its rows refer to, with the same content otherwise. No parser object or result keeps the address of a temporary, a local variable or a by-value argument.",
     ["histories"], "every history of copies, assignments and destructions",
     "A dangling reference reads plausible values until the memory is reused; the tests keep every object alive to the end.",
     [CSVH, "source/parser/json.hpp", "source/parser/cifar.hpp", "source/parser/mnist.hpp"],
     [("copies of files", "CSV copy constructor and assignment"), ("kept references", "CSVField, CSVRow, CSVIterator")],
     IR + ": escape analysis of addresses, member-by-member copy relation",
     "tracks where the address of every local ends up at each normal exit; heap storage freed by its owner is outside")
JS = "source/parser/json.hpp"
prop("C11", "Reading JSON text yields the written value or an error",
     "Reading well-formed JSON (without white space) consumes exactly the value and a comma right behind it, and gives exactly that value: a list its elements in order, each once, a dict its entries under their keys, a quoted "
     "text as a string with exactly that text, any other leaf its text up to the next ',', ']' or '}' with the type that text has, whatever the object held before and whatever follows, be it the end of the input. Malformed text "
     "(a missing or wrong bracket, an unterminated string or key, a missing ':' or value, the end of the input inside a value) is reported by an exception; reading never runs on for ever.",
     ["inputs"], "every text, nesting, position of the value in the input and previous content of the object",
     "The tests read a dozen documents; truncated input and particular sequences of brackets, commas and quotes are rarely tried.",
     [JS],
     [("readers", "operator>> of JsonItem, JsonLeaf, JsonList, JsonDict")],
     IR + ": typestate product of each reader with a grammar of its input, to a fixpoint",
     "explores every reachable combination of program point, stream position and token class for each reader; nested values by induction; escapes and white space are outside the format")
prop("C12", "The written form of a JSON value is its JSON text",
     "Writing a JSON value, or converting it to text, gives exactly its JSON form for every value: a list is [ elements separated by single commas ], a dict is { \"key\":value } with one entry per key in key order, the empty "
     "containers [] and {}, a leaf its text, in quotes exactly when it is a string, and an empty item nothing. Nothing else is written, nothing is left out, and writing leaves the value alone.",
     ["inputs"], "every value of every kind, containers of every size",
     "The tests print two fixed documents; separators go wrong at sizes 0, 1 and 2 and for particular nestings.",
     [JS],
     [("writers", "operator<< of the JSON classes"), ("text conversions", "operator std::string of the JSON classes")],
     IR + ": abstract states of the writers instantiated at each element count, token by token comparison",
     "derives the written sequence of tokens for 0 to 5 elements of a container and for each kind of leaf; nested values by induction; texts are not escaped by design")
prop("C13", "Misusing a JSON value is reported, never undefined or silently wrong",
     "Every access to a JSON value either delivers the addressed part of what it holds or throws: indexing a list with an index below its size delivers that element and with any other index throws; a key of a "
     "dict delivers its entry, and reading a missing key throws without adding it, while the subscript adds it; an index or key applied to another kind, a conversion of a value of another kind and the value of an empty item throw. "
     "Appending to a list or an empty item adds exactly one element at the end, to anything else throws. Sizes are those of the held value, and list conversions convert every element in its place.",
     ["inputs", "histories"], "every value of every kind (empty, leaf, list, dict), every index and key, every conversion target",
     "The tests use well-formed accesses and a few wrong ones; each accessor has a case per kind and an edge at size.",
     [JS],
     [("item accessors", "JsonItem::at, operator[], append, size, value"), ("container accessors", "JsonList::at, JsonDict::at, operator[]"),
      ("conversions", "JsonItem::as, as_vec, as_map, convert_json_object")],
     IR + ": enumeration of the dynamic kinds, must-facts (index < size, key present) at every normal exit",
     "decides for each accessor and each kind of held value what is returned or thrown; the meaning of std::map, std::vector and std::shared_ptr is the standard library's")
prop("C14", "JSON values are copied by value and compared by content",
     "Copying, assigning or building a JSON item from a value of any kind gives it an object of its own with the same kind and content, never shared with its source, and leaves the source alone; assigning an item to itself changes nothing. "
     "An item made from a number, boolean, text or container holds exactly that value with its type. Two items are equal exactly when both are empty or they have the same kind and equal content: equal text, "
     "equally many pairwise equal elements, the same keys with equal values; unequal is the negation.",
     ["inputs", "histories"], "every pair of values of every kind, every history of copies and assignments",
     "The tests compare a few small documents; sharing between copies, missing elements and mixed kinds show up only on particular values.",
     [JS],
     [("copies", "JsonItem copy constructor and assignment"), ("construction", "JsonItem, JsonLeaf, JsonList, JsonDict constructors"), ("equality", "operator== of the JSON classes")],
     IR + ": ownership of held objects per dynamic kind, case analysis of the comparison loops",
     "requires every held object of a copy to be newly made with the source's content, and every TRUE of a comparison to imply equal sizes and equal elements; depth is covered by induction")
prop("C15", "Label encodings of a dataset agree with each other and with the data",
     "For every dataset, every number and position of label columns: the values of a column are those of all entries, and each value is given its rank among them. The default encoding is the entries as they are, row after row. The one-hot "
     "encoding of an entry is its non-label columns in their order, followed for each label column, ascending, by one column per value of that label, with a 1 at the rank of the entry's value and 0 elsewhere. "
     "The encoded width and the encoded label columns are those of this layout.",
     ["inputs", "configurations"], "every dataset, every set of label columns anywhere in the row, every number of classes per label",
     "The tests encode fixtures with one label column at the end; offsets of several labels, classes and columns cancel out there.",
     ["source/parser/parser.hpp"],
     [("values and ranks", "DatasetParser::unique, unique_map"), ("widths and columns", "DatasetParser::encoding_feature_size, encoding_labels_idx"), ("encoded data", "DatasetParser::data_to_encoding")],
     IR + ": recognised loops and recurrences, places and values of every store compared with the layout",
     "names every loop by what bounds it and every value by the element it is, then compares what is stored where with the definition; the dataset's own answers are taken as constant")
DM = "source/dnn/dlmath.hpp"
KF = IR + ": closed forms of stores and recurrences, compared with the defining formula"
KN = ("derives from the IR what every store and carried value is, as terms over symbolic data, and compares them with the formula on a grid of sizes including zero and one; "
      "real arithmetic (rounding, overflow and NaN are not modelled); what the closed form does not cover is reported as undecided")
prop("C16", "Dense layer kernels compute the matrix products they stand for",
     "Summing and multiplying arrays, multiplying a matrix with an array, and the forward and backward kernels of a dense layer compute exactly their defining formulas for every size and every content: each output is its bias plus the "
     "products of its row of weights with the input; each weight gradient grows by output gradient times input, each bias gradient by the output gradient, and each input gradient is the sum over the outputs of weight times "
     "output gradient. The parallel variants give the same results as the sequential ones, and nothing but the results is written.",
     ["inputs"], "every array content, every size, each of the three variants",
     "The tests multiply one or two small matrices of one shape; wrong strides and accumulation errors vanish on square shapes and zeroed destinations.",
     [DM],
     [("array and matrix products", "DLMath::arr_sum, arr_mul, matarr_mul"), ("dense kernels", "DLMath::dense, dense_1 and their _opt variants")], KF, KN)
prop("C17", "Activations and their derivatives are the functions they are named after",
     "Each activation (ReLU, ELU, sigmoid, hyperbolic tangent) applied to a value or to an array gives its defining formula at every position and for every length, on both sides of the break point where there is one, and each "
     "derivative is the derivative of that function, in terms of the input or, for the optimised variants, of the function's result. An array is written exactly from 0 to its length, also in place.",
     ["inputs"], "every value and every length, source and destination distinct or the same",
     "The tests check three or four values per function; the sign of a branch or a factor matters only on part of the range.",
     [DM],
     [("activations", "DLMath::relu, elu, sigmoid, tanh"), ("derivatives", "DLMath::relu_1, elu_1, sigmoid_1, tanh_1 and their _opt variants")], KF, KN)
prop("C18", "Softmax, losses and extrema of arrays follow their formulas",
     "Softmax and its derivative, cross entropy and mean squared error with their derivatives, and the largest element and its position of an array follow their defining formulas for every array content and length. The softmax of an array "
     "is each exponential over the sum of all of them; losses sum over all elements; the derivative of a loss is the derivative of that loss with the advertised normalisation; the position is that of the first largest element.",
     ["inputs"], "every array content and length",
     "The tests use arrays of four elements; a dropped last element, an off-diagonal term or a tie is not sampled.",
     [DM],
     [("softmax", "DLMath::softmax, softmax_1"), ("losses", "DLMath::cross_entropy, cross_entropy_1, squared_error, mean_squared_error, mean_squared_error_1"), ("extrema", "DLMath::max, argmax, max_argmax")], KF, KN)
prop("C19", "Convolution and pooling combine exactly the elements under the window",
     "Cross correlation, max pooling and average pooling write, for every output position, exactly the combination of the elements the window covers there: the sum of products with the kernel of each filter, with zeros outside of the "
     "source, the largest, or the mean, per channel. This holds for every shape of source and window, stride, padding and number of filters and channels, for the output size that follows from them; nothing outside is read or written.",
     ["inputs", "configurations"], "every shape, stride, padding, number of channels and filters, every content",
     "The tests use a few square shapes with one or two strides; height and width, rows and channels are confused without notice there.",
     [DM],
     [("cross correlation", "DLMath::cross_correlation, kernel_slide"), ("pooling", "DLMath::max_pool, avg_pool")], KF, KN)
prop("C20", "Blocks are joined and split without losing or mixing elements",
     "Concatenating blocks along an axis puts each element of each block at its coordinates in the joined block, separating is the exact inverse, and appending to or extracting from a block at an offset of an axis moves exactly the addressed "
     "part, for every number of dimensions, every axis and every shape. Every element of the result is written once and nothing outside of it is; joining or separating blocks whose other dimensions disagree, or along an axis that does not exist, is reported by an exception, as is such an axis by the checked partial copies.",
     ["inputs", "configurations"], "every shape, axis and number of blocks",
     "The tests join two blocks of similar shape; strides are wrong only for particular axes and unequal shapes.",
     [DM],
     [("joining and splitting", "DLMath::concatenate, separate"), ("partial copies", "DLMath::append, extract")], KF, KN)

LF = "closed forms of the layer methods over normalised LLVM IR of the whole dnn library (virtual table, members by debug information), compared with the defining formula"
LN = ("derives from the IR what every element of the object's buffers is after the method, as terms over symbolic inputs, parameters and gradients, and compares it with the formula of the layer on a grid of shapes; "
      "real arithmetic (rounding, overflow and NaN are not modelled); what the closed form does not cover is reported as undecided")
A = "source/dnn/"
prop("C21", "The forward pass of every layer computes its defining formula",
     "For every shape, every parameter value and every input, forward of each layer writes its formula to every element of its output and returns that output: dense: bias plus weights times input; convolution: the cross correlation with each "
     "filter plus the bias of that filter; max and average pooling: the largest or mean of each window per channel; ReLU, ELU, sigmoid, tanh, softmax and linear: the function of that name; dropout: the identity. training_forward "
     "returns the same and remembers the input for the backward pass; that of dropout keeps exactly the elements whose random draw exceeds the drop probability, scaled by 1/(1-p), and clears and records the others.",
     ["inputs", "configurations"], "every shape, stride, padding, parameter, input and random draw",
     "The tests run each layer on one or two square shapes with few values; a dropped bias, a swapped extent or a stale element is not seen there.",
     [A + "dense.cpp", A + "convolutional.cpp", A + "max_pooling.cpp", A + "avg_pooling.cpp", A + "activation.cpp", A + "dropout.cpp", A + "layer.cpp"],
     [("forward", "Layer::forward of DenseLayer, ConvolutionalLayer, MaxPoolingLayer, AveragePoolingLayer, ReluLayer, EluLayer, SoftmaxLayer, TanhLayer, SigmoidLayer, LinearLayer, DropoutLayer"),
      ("training_forward", "Layer::training_forward, DropoutLayer::training_forward")], LF, LN)
prop("C22", "The backward pass of every layer is the derivative of its forward pass",
     "For every shape, parameter, input and incoming gradient, backward of each layer sets every element of its input gradient to the sum over outputs of incoming gradient times the derivative of that output with respect to that input - "
     "nothing of an earlier call remains in it - and adds to each weight and bias gradient the derivative with respect to that parameter, so that the gradients of several samples accumulate. Max pooling passes a gradient to the element that "
     "was the largest (all values being different), average pooling an equal share to every element of the window, dropout nothing to dropped elements. The input gradient is returned.",
     ["inputs", "configurations", "histories"], "every shape, stride, padding, parameter, input and gradient, first or later sample of a batch",
     "The tests check few gradients on one shape, mostly after a single pass from zero, where assigning and accumulating agree.",
     [A + "dense.cpp", A + "convolutional.cpp", A + "max_pooling.cpp", A + "avg_pooling.cpp", A + "activation.cpp", A + "dropout.cpp", A + "layer.cpp"],
     [("backward", "Layer::backward of every feedforward layer")], LF, LN)
prop("C23", "An optimizer step updates each parameter by its rule and clears the gradient",
     "Training a layer applies the rule of the optimizer to every parameter index exactly once: gradient descent subtracts eta times the gradient; Adam folds the gradient into its running first and second moment, corrects both for the number "
     "of steps done and subtracts eta times their quotient, counting one step per parameter. Gradients are taken from the first layer and cleared afterwards, parameters belong to the second one. reset brings Adam back to its initial state; "
     "train_check refuses layers with different numbers of parameters by an exception.",
     ["inputs", "histories"], "every number of parameters, every parameter, gradient, rate and moment, same or different layers",
     "The tests train one small layer for one step; a parameter left out, a gradient that survives or a correction that lags behind needs more.",
     [A + "gd_optimizer.cpp", A + "adam_optimizer.cpp", A + "optimizer.cpp"],
     [("update", "GradientDescentOptimizer::_train, AdamOptimizer::_train"), ("reset", "AdamOptimizer::reset"), ("hand-over", "Optimizer::train, train_check")], LF, LN)
prop("C24", "Loss layers count every sample once and their gradients are scaled derivatives",
     "forward of a loss layer adds the loss of the sample (mean squared error, categorical cross entropy) to the running total and counts the sample exactly once: as correct when the mean squared error lies within the tolerance or the largest "
     "output is at the first active class of the target, else as incorrect. It is refused by an exception when no target is set, or none of its classes is active. backward returns the derivative of the loss by each output times the inverse batch size. "
     "accuracy and avg_loss are the hits and the total over the number of samples counted since reset_score, which clears all three.",
     ["inputs", "histories"], "every number of outputs, every output, target, tolerance and score so far",
     "The tests look at single samples with a given target; counts and totals over several samples, ties and tolerances are not explored.",
     [A + "loss.cpp", A + "mse_loss.cpp", A + "cce_loss.cpp"],
     [("loss and score", "MeanSquaredLossLayer::forward, CategoricalCrossEntropyLossLayer::forward"), ("gradient", "backward of both"), ("averages", "LossLayer::accuracy, avg_loss, reset_score, set_target")], LF, LN)

prop("C25", "Every parameter index reaches one parameter and the gradient belonging to it",
     "For every layer and size, param_count is the number of weights and biases the layer holds. Every index below it yields a parameter of its own - the weights first, then the biases (recurrent: input weights, hidden weights, hidden biases, "
     "output weights, output biases) - and gradient with the same index yields the gradient of exactly that parameter. Every other index is refused by an exception, so are all indices of layers without parameters, whose count is zero.",
     ["inputs", "configurations"], "every layer, size and index",
     "The tests ask for a few indices of layers with equal or square sizes; where two parts meet and sizes differ is not sampled.",
     [A + "dense.hpp", A + "dense.cpp", A + "convolutional.hpp", A + "convolutional.cpp", A + "recurrent.hpp", A + "recurrent.cpp", A + "activation.hpp", A + "dropout.hpp", A + "pooling.hpp", A + "loss.hpp"],
     [("count", "Layer::param_count of every layer"), ("access", "Layer::param, Layer::gradient of every layer")], LF, LN)
prop("C26", "Shapes and buffers of a layer always fit its input shape",
     "After construction with any sizes, and after any change of the input shape, the output shape is the one that follows from the input shape and the settings of the layer (per axis (in - kernel + 2 padding) / stride + 1 for convolution, "
     "without padding for pooling, zero for an empty input; one value per filter or channel), and every buffer - outputs, input gradients, weights, biases and their gradients, hidden state, loss gradients - has exactly the size that these "
     "shapes require. A new layer remembers its settings (kernel, stride, padding, filters, alpha, drop probability and scale, batch size, tolerance, hidden size, steps) and its parameter gradients are zero.",
     ["inputs", "configurations", "histories"], "every shape, kernel, stride, padding, size and later change of the input shape",
     "The tests construct a few square layers; extents of different axes, and buffers left over from an earlier shape, are confused without notice.",
     [A + "layer.hpp", A + "layer.cpp", A + "feedforward.cpp", A + "dense.cpp", A + "convolutional.cpp", A + "pooling.cpp", A + "activation.cpp", A + "dropout.cpp", A + "loss.cpp", A + "recurrent.cpp"],
     [("construction", "constructors of every layer"), ("change of shape", "Layer::input_shape, _set_input_shape of every layer")], LF, LN)
prop("C27", "The recurrent layer computes its recurrence and the exact gradients through time",
     "For any sizes, number of time steps, parameters, hidden state and input, the forward pass sets the hidden state of each step to tanh(input weights * input + hidden weights * previous hidden state + hidden biases) and the outputs of "
     "the step to output weights * hidden state + output biases; the next sequence starts from the last hidden state. backward adds to every parameter gradient, and sets every input gradient to, the derivative of the outputs of all steps "
     "weighted by the incoming gradient, through all steps and starting from the hidden state with which the sequence began.",
     ["inputs", "configurations", "histories"], "every size, number of steps, parameter, initial hidden state, input and gradient",
     "The tests only run the layer and look at a few values: that a gradient is the derivative, through several steps and from a hidden state other than zero, is not checked.",
     [A + "recurrent.cpp", A + "dlmath.hpp"],
     [("forward", "RecurrentLayer::forward"), ("backward", "RecurrentLayer::backward")], LF, LN)
MF = "typestate over every path of every function of Model (normalised LLVM IR), the graph being a boundary whose answers carry versions"
MN = ("derives from the IR which question of the graph every list of a model was last assigned from and which changes of the graph lie between it and each normal return, and compares the arcs that a call "
      "enters with those it must enter; what is not covered is reported as undecided")
GF = "closed forms of the graph operations over normalised LLVM IR, evaluated over graphs as sets of arcs and compared with the specified sets and lists"
GN = ("derives from the IR what an operation leaves in the layers, the three sets of arcs and the index lists, and what a question answers, and compares both with the definition on a family of graphs (chains, skips, "
      "diamonds, several inputs, cycles, losses anywhere); std::map, std::set, std::vector and std::find are modelled by their specification; what the closed form does not cover is reported as undecided")
prop("C28", "A model runs every layer and arc of its graph in order, with the data of the arc",
     "Model::step gives every loss layer the target, runs training_forward of every input layer on the input, then of the destination of every forward arc of training on the last output of its source in the order of the run, then "
     "backward of every loss layer, then backward of the destination of every backward arc on the last input gradient of its source in that order. predict does the same with forward on the arcs without loss layers, returns the last output of the first "
     "output layer and is refused by an exception if there is none. train hands every layer to the optimizer exactly once. accuracy and avg_loss are means over the loss layers, reset_score resets all of them; "
     "input_size and output_size are those of the layer with the given index, zero for an index without a layer.",
     ["inputs", "configurations"], "every model: any layers, arcs, number of inputs, outputs and losses",
     "The tests use chains with one input and one loss layer: several inputs, outputs and losses, and the order where they meet, are not sampled.",
     [A + "model.cpp"],
     [("step", "Model::step"), ("prediction", "Model::predict"), ("update", "Model::train"), ("scores and sizes", "Model::accuracy, avg_loss, reset_score, input_size, output_size")], LF, LN)
prop("C29", "A model's lists always are those of its graph as it is now",
     "Whenever a public function of Model (constructors, copy, assignment, swap, add_layer, add_loss, create_back_arc, create_front_arc, create_edge, create_loss_edge, ...) returns, its lists of layers, input, output and loss layers and its runs "
     "for training, prediction and the way back are the answers its own graph gives now - not those of an earlier graph, of the graph of another model, or of another question. add_layer and add_loss add exactly the new layer; "
     "create_front_arc, create_back_arc, create_edge and create_loss_edge exactly their arcs: arcs into a loss layer are not part of the run for predictions, backward arcs lead from the destination to the source.",
     ["histories"], "every sequence of building, copying, assigning and swapping models",
     "The tests build chains in one order and do not go on building copied or assigned models; a list that lags behind shows only then.",
     [A + "model.hpp", A + "model.cpp"],
     [("lists", "Model::State::update and every function of Model that changes the graph"), ("arcs", "Model::create_*, Model::add_layer, Model::add_loss"), ("getters", "Model::layers, input_layers, output_layers, loss_layers")], MF, MN)

prop("C30", "A graph holds the arcs entered; its lists and runs follow from them",
     "DLGraph::add_node appends a layer unless the graph has it, add_loss also records its index as a loss; add_arc_forward enters its arcs into the forward and the training graph, into the training graph alone if they lead to a loss layer, "
     "add_arc_backward into the backward graph, add_edge does the first and the second with source and destination exchanged - and nothing else changes. The input (output) layers always are the layers, losses excluded, without a forward "
     "predecessor (successor). A copied or assigned graph has a clone of every layer in the same place, the same arcs and losses, and shares nothing with the original. has_*, *_predecessors, successor sets, adjacency matrices, index lists, "
     "layer lists and index_of answer for the right graph and layer. A run (training_forward_run, forward_run, backward_run) contains every arc reachable from the input layers (loss layers) exactly once, each after its source was reached. "
     "A single Graph refuses arcs of unknown nodes.",
     ["inputs", "histories", "configurations"], "every graph of layers: chains, skips, diamonds, several inputs, outputs and losses, cycles, in any order of building",
     "The tests build one graph in one order; losses between layers, arcs from several sources, repeated arcs, cycles and assignment over an existing graph are not sampled.",
     [A + "dlgraph.hpp", A + "dlgraph.cpp"],
     [("building", "DLGraph::add_node, add_loss, add_edge, add_arc_forward, add_arc_backward"), ("lists", "DLGraph::_compute_input_layers, _compute_output_layers"), ("runs", "DLGraph::training_forward_run, forward_run, backward_run"),
      ("single graph", "Graph::add_arc, successors, predecessors, has_successors, has_predecessors, adjacent_matrix")], GF, GN)
DF = "closed forms of the members of Dataset over normalised LLVM IR, evaluated on a family of shapes over symbolic elements and compared with the specified object"
DN = ("derives from the IR what a member leaves in the data, the sizes and the index sets, or hands out, and compares it with the definition on a grid of sizes, sequence sizes, label sets and ragged inputs; every element is "
      "a symbol of its own, so a wrong index, a lost or repeated element and a read outside of the data show; std::set, its iterators and std::vector are modelled by their specification; what the closed form does not cover is reported as undecided")
prop("C31", "A dataset keeps the whole sequences given and hands out the right fields",
     "A dataset made from a vector, rows or sequences of rows keeps exactly the whole sequences of whole entries that the data hold, cut to the shortest row (sequence), in order; its feature size, sequence size, numbers of entries and "
     "sequences and data length agree with each other for every input, empty and ragged ones included; the labels are the given indices below the feature size and the inputs all other ones. Changing the sequence size or the label indices gives the "
     "same as constructing with them. entry, input, label (entry_seq, inputs_seq, labels_seq) return the elements of that entry (sequence) at every, the input, the label columns, in order, and nothing past the end; inputs and labels are the datasets of those "
     "columns with the same sequence size. No operation reads outside of the data or divides by zero.",
     ["inputs"], "every data length, feature size, sequence size, ragged input and label set",
     "The tests use one 5x4 matrix and a few cubes with full sequences; incomplete sequences, sequence size zero, empty rows, label indices past the end and label sets with gaps are not sampled together.",
     ["source/data/dataset.hpp"],
     [("construction", "Dataset(Vec), Dataset(Mat), Dataset(Cub), Dataset()"), ("setters", "Dataset::sequence_size(SizeType), label_idx(std::set)"), ("fields", "Dataset::entry, input, label, entry_seq, inputs_seq, labels_seq, inputs, labels, size, empty")], DF, DN)
prop("C32", "Parts, joins, shuffles and normalisation of datasets keep what they must",
     "subdata(from, to) is the dataset of the entries from..to (to cut to the size) with the same sizes and labels, refused if from > to; subdata(p) the first floor(p n) entries and split(p) the first floor(p n / s) sequences and the rest, p cut "
     "to [0, 1]: together they hold every entry once, in order. shuffle permutes whole entries and changes nothing else. min_max_normalization maps x to (x - min) / (max - min) in the chosen columns (all if none are given), with the minimum and maximum "
     "of each column if none are given, and leaves other columns alone; equal limits are refused. concatenate joins along the axis, gives the other one if one is empty, refuses other axes, unequal shapes on the other axes and, except on axis 2, unequal labels. "
     "parse asks the parser for data, feature size and labels of the same encoding.",
     ["inputs"], "every dataset, pair of datasets, share, range, axis and permutation",
     "The tests split at a few shares of one dataset and concatenate a few shapes; incomplete last sequences, shares between two entries, columns given out of order and differing labels are not sampled.",
     ["source/data/dataset.hpp"],
     [("parts", "Dataset::subdata, split, SplitDataset"), ("joins", "Dataset::concatenate, parse"), ("whole", "Dataset::shuffle, min_max_normalization")], DF, DN)
PF = "closed forms of dump and load of every layer class over normalised LLVM IR with JSON values as trees; load is evaluated on the tree that dump has built over symbolic elements, in an object of another size"
PN = ("derives from the IR which tree of values dump builds out of the elements of a layer and what load does with that tree in a layer of other sizes, and compares every learnable parameter, shape, size and setting with the layer that was "
      "dumped, for a grid of sizes; the elements stay symbolic. Numbers are taken to pass through a JSON value unchanged (how many digits their text has is not claimed) and the fields of a dump to have different names. What cannot be derived after an edit is reported as undecided")
prop("C33", "A layer loads what its class has dumped and nothing else; a model layer by layer",
     "For every layer class but ConcatenateLayer: load on the JSON value that dump has returned makes a layer of that class - whatever its own sizes and parameters were - one with the name, the input and output shapes and sizes, the "
     "settings (kernel, stride, padding, filters, drop probability and scale, saturation value, tolerance, hidden size, time steps, hidden activation) and every learnable parameter of the layer that was dumped, each in its place, and "
     "with buffers and gradients of the sizes that belong to it; numbers as far as their JSON text has them. The dump of a layer of another type and an empty value are refused with an exception. Model::load on what Model::dump has written "
     "sets the name and has every layer of the model load the dump of the layer in the same place, once.",
     ["inputs"], "every layer class, size and parameter value",
     "The tests dump and load a few layers of one or two sizes and look at sizes more than at parameters; non-square weights, several filters and channels, settings that differ from the defaults and other types are not sampled.",
     ["source/dnn/layer.cpp", "source/dnn/feedforward.cpp", "source/dnn/activation.cpp", "source/dnn/dense.cpp", "source/dnn/convolutional.cpp", "source/dnn/pooling.cpp", "source/dnn/dropout.cpp", "source/dnn/loss.cpp", "source/dnn/mse_loss.cpp", "source/dnn/recurrent.cpp", "source/dnn/model.cpp"],
     [("what is written", "Layer::dump and its overrides, Model::dump"), ("what is read", "Layer::load and its overrides, Model::load")], PF, PN)
