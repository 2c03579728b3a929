"""Source of /verif/properties.jsonl (run: python3 tool/gen_properties.py)."""
import json, os
L = "src/neural_network/layer/"
LH = "include/snn/neural_network/layer/"
N = L + "neuron/"
O = "src/neural_network/optimizer/"
NN = "src/neural_network/"
D = "src/data/"
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Saving and loading a network loses nothing",
  "A network saved to a file and loaded back has the same architecture, weights, optimizer settings, momentum history, recurrent memory, statistics and training counters as the one saved: every part of the persistent state is written and read back, in the same order in both directions, including the state a part inherits. The loaded network has usable activation functions and is idle, and saving is refused while the network is training.",
  ["inputs", "configurations", "histories"], "every architecture (layer kinds, optimizers), every training history before the save",
  "Tests save three small architectures and compare with the library's own equality; a member left out of both saving and comparing, or one only non-trivial after particular histories (momentum buffers, recurrent memory), goes unnoticed.",
  [NN + "StraightforwardNeuralNetwork.cpp", "include/snn/neural_network/NeuralNetwork.hpp", LH + "Layer.hpp"],
  [("serialize member templates", "one per class in include/snn/neural_network"), ("saveSync/loadFrom/saveAs", NN + "StraightforwardNeuralNetwork.cpp")],
  [("archived members", "the persistent state of each class", "class definitions")], ["loadFrom", "saveAs"])
p("C02", "A copied network is complete and independent",
  "A copy of a network carries over all learned and configured state of the original, and every layer, neuron, layer optimizer and the network optimizer is duplicated, with the copy's parts referring to the copy's own layer and optimizer and never to the original's. Copying a network that is training is refused.",
  ["inputs", "configurations", "histories"], "every architecture and history; every later change to either network",
  "A test can copy a few architectures and look at a few members; sharing one optimizer or one back-reference only shows after the original changes or dies.",
  [NN + "NeuralNetwork.cpp", NN + "StraightforwardNeuralNetwork.cpp", LH + "Layer.tpp"],
  [("copy constructors and clone", "NeuralNetwork.cpp, StraightforwardNeuralNetwork.cpp, layer/*.cpp, optimizer/*.cpp")],
  [("LayerOptimizer::layer", "back-reference to the owning layer", "optimizer/LayerOptimizer.hpp")], ["copy constructor"])
p("C03", "Equality compares everything that decides behaviour",
  "Two networks compare equal exactly when they have the same layers in number, kind and order, equal neurons (weights, histories and settings), equal layer optimizers in number and order, equal network optimizers and equal training state, and the inequality operator is always the negation of equality. Comparing networks of different shapes is safe and yields unequal.",
  ["inputs", "configurations"], "every pair of networks, layers, neurons and optimizers, including those differing in a single member or in length",
  "Tests compare a handful of equal networks and a few unequal ones; each forgotten member needs a pair that differs in just that member.",
  [NN + "NeuralNetwork.cpp", LH + "Layer.tpp", N + "Neuron.cpp"],
  [("operator== / operator!=", "every class of the network")], [], ["operator=="])
p("C04", "Inference does not change what was learned",
  "Computing an output, a class or an evaluation of a network never changes weights, biases, momentum history, optimizer settings, layer configuration or training counters. Only the memory of the last inputs and outputs that a later training step or time step needs, and the record of non-finite outputs, may change.",
  ["inputs", "histories", "configurations"], "every sequence of inference calls on every architecture",
  "A test can compare outputs before and after a few calls; it cannot enumerate every call path and every member it may write.",
  [NN + "NeuralNetwork.cpp", LH + "Layer.tpp"],
  [("computeOutput / computeCluster / evaluate", NN + "StraightforwardNeuralNetwork.cpp")],
  [("weights", "learned parameters", "neuron/Neuron.hpp")], ["computeOutput", "computeCluster", "evaluate"])
p("C05", "Dropout drops in training and only rescales in inference",
  "During training each output is kept or zeroed according to one presence mask, drawn anew exactly when a new sequence starts or the number of outputs changes, and the back-propagated errors are masked by the same mask. During inference nothing is dropped: every output is multiplied by one minus the dropout rate, deterministically, and the layer is switched between the two behaviours by whether the network is training.",
  ["inputs", "histories"], "every rate, every layer size, every interleaving of training and inference calls",
  "The mask is random; tests check averages over a few draws and cannot see a mask that is reused, redrawn or of the wrong length.",
  [O + "Dropout.cpp", LH + "Layer.tpp"],
  [("applyAfterOutputForTraining / applyAfterOutputForTesting / applyBeforeBackpropagation", O + "Dropout.cpp")],
  [("presenceProbabilities", "which outputs are kept", "optimizer/Dropout.hpp")], ["layer output"])
p("C06", "A temporal reset forgets the previous sequence",
  "When a computation starts a new temporal sequence, its output and the recurrent memory afterwards depend only on the current inputs and the weights, never on what was computed before. The start-of-sequence signal reaches every neuron of every recurrent layer in both inference and training.",
  ["inputs", "histories"], "every history of earlier calls before the reset",
  "Tests reset after a few short sequences; dependence on an arbitrary earlier history is a two-run property.",
  [N + "RecurrentNeuron.cpp", N + "GatedRecurrentUnit.cpp", L + "SimpleLayer.cpp"],
  [("reset", N + "RecurrentNeuron.cpp"), ("reset propagation", "NeuralNetwork::output, Layer::output, SimpleLayer::computeOutput")],
  [("lastOutput, previousOutput", "recurrent memory", LH + "neuron/RecurrentNeuron.hpp")], ["computeOutput with temporalReset"])
p("C07", "A dense neuron computes and learns by the gradient of its weighted sum",
  "A dense neuron outputs its activation function applied to the sum of inputs times weights plus its bias times its last weight. In training it returns to its inputs the error times the activation derivative at that sum times the weights before the update, and moves every weight, the bias weight included, by learning rate over batch size times that error times its input plus momentum times the weight's previous change, recording that change and the inputs in order for batched training.",
  ["inputs", "histories"], "all inputs, weights, errors, learning rates, momentums and batch sizes",
  "Tests check convergence on a few problems, which survives many wrong update rules.",
  [N + "SimpleNeuron.cpp", O + "StochasticGradientDescent.cpp", N + "CircularData.cpp"],
  [("output, backOutput, train", N + "SimpleNeuron.cpp"), ("updateWeights", O + "StochasticGradientDescent.cpp")],
  [("previousDeltaWeights", "momentum history", LH + "neuron/Neuron.hpp")], ["neuron outputs and weights"])
p("C08", "A recurrent neuron feeds its last output back and learns from it",
  "A recurrent neuron outputs its activation function applied to inputs times weights plus its own previous output times the recurrent weight plus its bias times the bias weight, and remembers that output for the next time step. In training it back-propagates like a dense neuron and moves input, bias and recurrent weights by their own gradients with momentum, the recurrent one driven by an error accumulated along the sequence.",
  ["inputs", "histories"], "all inputs, weights, errors, sequences and optimizer settings",
  "Tests check that small sequence problems are learned, which a wrong update of one weight survives.",
  [N + "RecurrentNeuron.cpp", O + "StochasticGradientDescent.cpp"],
  [("output, backOutput, train", N + "RecurrentNeuron.cpp"), ("updateWeights", O + "StochasticGradientDescent.cpp")],
  [("lastOutput, previousOutput, recurrentError", "recurrent memory", LH + "neuron/RecurrentNeuron.hpp")], ["neuron outputs and weights"])
p("C09", "Signals run through every layer once, forward then backward",
  "A forward pass feeds the inputs to the first layer and each layer's outputs to the next, in order, each once, and returns the last layer's outputs. A training step runs one training-mode forward pass, turns each output into an error of twice (desired minus output), passes it backward through every layer from last to second, each receiving the errors the later one returned, and trains the first layer with what remains, counting one training.",
  ["inputs", "configurations"], "any number and kind of layers, any inputs and desired outputs",
  "Tests train small networks to convergence; a layer skipped or an error passed to the wrong layer in deep networks can still converge.",
  [NN + "NeuralNetwork.cpp", LH + "Layer.tpp", LH + "SimpleLayer.tpp"],
  [("output, outputForTraining, trainOnce", NN + "NeuralNetwork.cpp"), ("layer output / backOutput / train", LH + "Layer.tpp")],
  [], ["computeOutput", "trainOnce"])
p("C10", "Convolution and locally connected layers read the right window",
  "Every output of a convolution layer is the filter's neuron applied to exactly the inputs of its window, stride one, all channels, in a fixed row, column, channel order, with the same weights at every position. Every output of a locally connected layer uses its own neuron on non-overlapping windows that tile the input, with positions beyond the input read as zero padding, and outputs are ordered by position then filter.",
  ["inputs", "configurations"], "every input size, channel count, kernel size and number of filters",
  "Tests use a few, often square, shapes; index arithmetic errors show only on other shapes.",
  [L + "Convolution1D.cpp", L + "Convolution2D.cpp", L + "LocallyConnected1D.cpp", L + "LocallyConnected2D.cpp"],
  [("constructors and computeOutput", L + "Convolution*.cpp, LocallyConnected*.cpp")],
  [("kernelIndexes", "input index of each window cell", LH + "FilterLayer.hpp")], ["layer output"])
p("C11", "Window layers return each error to the inputs that caused it",
  "The errors a convolution or locally connected layer passes back have the size of its inputs and each input receives exactly the sum of the errors of all the window cells that read it. Every neuron is trained on every window position it was applied to, with that position's error.",
  ["inputs", "configurations"], "every input size, channel count, kernel size and number of filters, as first layer or inner layer",
  "Tests use a few shapes and check convergence; misrouted errors in one layer slow learning without failing a test.",
  [L + "Convolution1D.cpp", L + "Convolution2D.cpp", L + "LocallyConnected1D.cpp", L + "LocallyConnected2D.cpp"],
  [("computeBackOutput, computeTrain", L + "Convolution*.cpp, LocallyConnected*.cpp")],
  [("kernelIndexes", "input index of each window cell", LH + "FilterLayer.hpp")], ["layer backOutput", "layer train"])
p("C12", "Max pooling outputs each window's maximum and routes its error there",
  "Each output of a max pooling layer is the largest input of its window within one channel, windows tile the input without overlap, and cells beyond the input are ignored. The error of each output is passed back to the input that was the maximum in the last forward pass and every other input receives zero.",
  ["inputs", "configurations"], "every input size, channel count and kernel size, all values including negative ones and ties",
  "Tests use a few shapes with positive values.",
  [L + "MaxPooling1D.cpp", L + "MaxPooling2D.cpp"],
  [("computeOutput, computeBackOutput", L + "MaxPooling*.cpp")],
  [("maxValueIndexes", "index of the maximum of each window", LH + "MaxPooling1D.hpp")], ["layer output", "layer backOutput"])
p("C13", "Declared sizes and shapes are the real ones",
  "Every layer's declared input and output shapes match the number of values it takes and produces, each layer's number of inputs is the previous layer's number of outputs, and a network's numbers of inputs, outputs, neurons and parameters equal what its layers really hold.",
  ["configurations"], "every architecture that can be declared",
  "Tests enumerate a few architectures; size arithmetic must hold for all kernel sizes, channels and filters.",
  [L + "LayerFactory.cpp", LH + "LayerFactory.hpp", L + "FilterLayer.cpp", NN + "NeuralNetwork.cpp"],
  [("layer model constructors and build", L + "LayerFactory.cpp"), ("getShapeOf*, getNumberOf*", "layer classes, NeuralNetwork.cpp")],
  [("shapeOfOutput, numberOfKernels", "sizes of a filter layer", LH + "FilterLayer.hpp")], ["getters"])
p("C14", "Impossible architectures are rejected at construction",
  "Building a network fails with an error, before any computation, when the architecture lacks an input or a hidden layer, declares an input that is not first, a non-positive size, a filter layer whose input dimensions or kernel do not fit, or optimizer settings out of range. Every valid architecture is accepted and its layers are built in the declared order and kind.",
  ["configurations"], "every list of layer declarations and optimizer settings",
  "Tests try some invalid architectures; each validation condition has boundary values in each dimension.",
  [L + "LayerFactory.cpp", NN + "NeuralNetwork.cpp", LH + "Layer.tpp", O + "StochasticGradientDescent.cpp"],
  [("LayerFactory::build", L + "LayerFactory.cpp"), ("isValid", "network, layers, neurons, optimizer")], [], ["constructor"])
p("C15", "Inconsistent data sets are rejected",
  "Creating a data set fails with an error when its training or testing inputs and labels differ in number, its sizes are inconsistent, or its kind and nature are not supported. Training refuses data whose input or label size does not match the network, batch sizes below one, above the training set or above one for temporal data.",
  ["inputs", "configurations"], "all sizes and shapes of the given vectors and all batch sizes",
  "Tests try a few mismatches.",
  [D + "Data.cpp", NN + "StraightforwardNeuralNetwork.cpp"],
  [("Data constructors, isValid", D + "Data.cpp"), ("validData", NN + "StraightforwardNeuralNetwork.cpp")],
  [("Set::size", "number of data of a set", "include/snn/data/Set.hpp")], ["Data constructor", "train", "startTrainingAsync"])
p("C16", "Inputs keep their own labels under shuffling and batching",
  "At every position of a shuffled training set, the inputs and the label or expected outputs handed to training belong to the same original datum, and a batch is made of the inputs and outputs of the same consecutive positions, averaged alike. Testing data are always presented in their original order with their own labels.",
  ["inputs", "histories"], "every permutation, position, batch size and kind of problem",
  "Tests look at a few shuffles of small sets.",
  [D + "Data.cpp", D + "CompositeForClassification.cpp", D + "CompositeForMultipleClassification.cpp", D + "CompositeForRegression.cpp"],
  [("getTrainingData, getTrainingOutputs, getTestingData, getTestingOutputs", D + "Data.cpp")],
  [("shuffledIndexes", "order of presentation", "include/snn/data/Set.hpp")], ["getTrainingData", "getTrainingOutputs"])
p("C17", "Shuffling permutes the data and keeps temporal order",
  "Shuffling presents every training datum exactly once per epoch; sequences are reordered only as whole sequences, each kept contiguous and in time order, and time series are presented in time order within each window. Undoing the shuffle restores the original order.",
  ["inputs", "histories", "configurations"], "every set size, sequence layout, number of recurrences and random outcome",
  "Tests sample a few random shuffles.",
  [D + "Data.cpp", D + "CompositeForNonTemporalData.cpp", D + "CompositeForTemporalData.cpp", D + "CompositeForTimeSeries.cpp"],
  [("shuffle, unshuffle", D + "CompositeFor*.cpp")],
  [("shuffledIndexes, indexesForShuffles", "order of presentation", "include/snn/data/Set.hpp")], ["shuffle"])
p("C18", "Training never alters the data and normalisation is linear",
  "Normalising maps every input of both sets linearly per column, with a scale and offset computed from the given data so that the data span the requested range. Apart from explicit normalisation, no training, evaluation, shuffling or access changes the stored inputs and labels.",
  ["inputs", "histories"], "all data values (non-constant columns) and every sequence of operations",
  "Tests check one small set.",
  [D + "Data.cpp"],
  [("normalize", D + "Data.cpp")], [("Set::inputs, Set::labels", "the stored data", "include/snn/data/Set.hpp")], ["getTrainingData"])
p("C19", "Evaluation metrics count what they say",
  "Every evaluated datum is counted once as well classified or misclassified, each output of it once as true or false positive or negative according to the threshold, and rates, F1 score, mean absolute error and root mean squared error are the standard functions of those counts and of the absolute and squared errors since the evaluation began. Starting an evaluation clears all counts.",
  ["inputs", "histories"], "all outputs, labels, thresholds and evaluation sequences",
  "Tests check one or two hand-made evaluations.",
  [NN + "StatisticAnalysis.cpp"],
  [("evaluateOnceFor*, startTesting, stopTesting", NN + "StatisticAnalysis.cpp")],
  [("clusters", "per-output counts", "include/snn/neural_network/StatisticAnalysis.hpp")], ["getters after evaluate"])
p("C20", "Best results are tracked exactly and auto-save fires only on a new best",
  "After each evaluation every best-so-far metric is the best value over all completed evaluations, its improvement flag is set exactly when this evaluation is strictly better than all earlier ones, and the first evaluation always counts. With auto-save enabled the network is saved exactly when the accuracy flag is set, to the configured path, and never otherwise.",
  ["inputs", "histories"], "every sequence of evaluation results",
  "Tests observe a single run; which of five metrics is compared to which maximum needs orders of results a test does not produce.",
  [NN + "StatisticAnalysis.cpp", NN + "StraightforwardNeuralNetwork.cpp"],
  [("stopTesting", NN + "StatisticAnalysis.cpp"), ("evaluate", NN + "StraightforwardNeuralNetwork.cpp")],
  [("...Max, ...Min, ...IsBetterThan...", "best values and flags", "include/snn/neural_network/StatisticAnalysis.hpp")], ["getGlobalClusteringRateMax", "saved file"])
p("C21", "The predicted class is the index of the largest output",
  "The class computed for an input is the smallest index whose output is not exceeded by any other output, for outputs of any finite value and sign. Evaluation counts a classification as right exactly when that index is the expected class.",
  ["inputs"], "all finite output vectors of any length",
  "Tests use activations in a small range.",
  [NN + "StraightforwardNeuralNetwork.cpp", NN + "StatisticAnalysis.cpp"],
  [("computeCluster", NN + "StraightforwardNeuralNetwork.cpp"), ("evaluateOnceForClassification", NN + "StatisticAnalysis.cpp")], [], ["computeCluster"])
p("C22", "Stop conditions combine as any-of and all-of",
  "A single stop condition is over exactly when its epoch count is exceeded, its accuracy is reached, its error is low enough or its time has elapsed. Conditions joined by or are over as soon as one of them is, conditions joined by and only once all of them are, and mixing the two in either operand is refused.",
  ["inputs", "programs"], "all combinations of conditions and all current values",
  "Tests check a few combinations; each pair of conditions and each operand order is a separate case.",
  [NN + "Wait.cpp"], [("operator||, operator&&, isOver", NN + "Wait.cpp")],
  [("epochs, accuracy, mae, duration, op", "the requested limits", "include/snn/neural_network/Wait.hpp")], ["isOver"])
p("C23", "Training starts, stops and ends in a consistent state",
  "Only one training runs at a time, a stop request issued at any time after training was started is never lost, and stopping waits for the training thread to end. However training ends, the network is idle, able to be saved and to train again, and destroying a network stops its training first.",
  ["schedules", "histories"], "every order of start, stop, train, save and destroy calls and every way training can end",
  "Tests start and stop training with sleeps; the windows in which a request is lost last microseconds.",
  [NN + "StraightforwardNeuralNetwork.cpp"],
  [("startTrainingAsync, train, stopTrainingAsync, trainSync", NN + "StraightforwardNeuralNetwork.cpp")],
  [("wantToStopTraining, isIdle", "lifecycle flags", "include/snn/neural_network/StraightforwardNeuralNetwork.hpp")], ["isTraining", "train", "stopTrainingAsync"])
p("C24", "Activation functions, their derivatives and names agree",
  "Each activation function offered computes its documented formula and its derivative method computes the mathematical derivative of that formula at the same point. Selecting an activation yields the function of that name, and its reported kind is the one selected.",
  ["inputs"], "every activation and every real argument (away from kinks)",
  "Tests check a few points of some functions.",
  [N + "activation_function/ActivationFunction.cpp", LH + "neuron/activation_function/*.hpp"],
  [("function, derivative, get", LH + "neuron/activation_function")], [("activationFunctions", "registry by kind", N + "activation_function/ActivationFunction.cpp")], ["layer output"])
p("C25", "Softmax outputs the normalised exponentials",
  "A softmax layer turns its outputs, in training and inference alike, into the exponentials of each output divided by the sum of all exponentials, computed so that large finite outputs do not overflow, and therefore positive and summing to one. It changes neither the number nor the order of outputs.",
  ["inputs"], "all finite output vectors of any length",
  "Tests check a few vectors.",
  [O + "Softmax.cpp"], [("computeSoftmax", O + "Softmax.cpp")], [], ["layer output"])
p("C26", "Layer optimizers act at their place, in order, and by their formula",
  "Layer optimizers are applied in the declared order to a layer's outputs after they are computed and to its errors before they are back-propagated, both for inner layers and the first layer. The error multiplier scales every error by its factor, and L1 and L2 regularisation add their coefficient times the layer's average absolute or squared weight to every error, and none of them changes the outputs.",
  ["inputs", "configurations"], "every list of optimizers, layer and value",
  "Tests check that networks with optimizers still converge.",
  [O + "L1Regularization.cpp", O + "L2Regularization.cpp", O + "ErrorMultiplier.cpp", LH + "Layer.tpp"],
  [("applyBeforeBackpropagation, applyAfterOutput*", O), ("Layer hooks", LH + "Layer.tpp")], [("optimizers", "list of a layer", LH + "Layer.hpp")], ["layer backOutput", "layer output"])
p("C27", "Each epoch trains every batch once and evaluates on schedule",
  "Every epoch shuffles the data, then visits consecutive batches from the first position, each once, as long as a full batch fits and training is not to stop, training on data marked for training and only propagating the others. Evaluation runs before the first epoch and after every epoch whose number is a multiple of the evaluation frequency, never when that frequency is zero or negative, and stop conditions are checked before every batch and every epoch.",
  ["inputs", "histories", "configurations"], "all data sizes, batch sizes, frequencies and stop conditions",
  "Tests run small trainings and look at the final accuracy.",
  [NN + "StraightforwardNeuralNetwork.cpp"], [("trainSync, evaluate", NN + "StraightforwardNeuralNetwork.cpp")],
  [("index, epoch", "progress", "include/snn/neural_network/StraightforwardNeuralNetwork.hpp")], ["train"])
p("C28", "Non-finite outputs are detected and stop learning",
  "As soon as a forward pass produces a NaN or infinite output the network records it, in a build with fast floating-point arithmetic too, the step that saw it changes no weight, and training and waiting for training end. Results are then reported as NaN and the network is idle.",
  ["inputs", "histories"], "every output vector with one or more non-finite values, in training and in inference",
  "Tests provoke one overflow; which pass sees it and whether the compiler folded the test away depends on flags and position.",
  [NN + "NeuralNetwork.cpp", NN + "StraightforwardNeuralNetwork.cpp", "include/snn/tools/Tools.hpp"],
  [("output, outputForTraining, backpropagationAlgorithm", NN + "NeuralNetwork.cpp"), ("trainSync, continueTraining, waitFor", NN + "StraightforwardNeuralNetwork.cpp")],
  [("outputNan", "a non-finite output was seen", "include/snn/neural_network/NeuralNetwork.hpp")], ["hasNan"])
p("C29", "History buffers return values in the order they were stored",
  "The fixed-size history a neuron keeps for batched training holds the last values stored, overwriting the oldest, and reading it back returns them in the order they were stored, each once per cycle. It starts filled with zero vectors and no access leaves its bounds.",
  ["histories"], "every capacity and every interleaving of stores and reads with matching counts",
  "Tests exercise it only through training with a few batch sizes.",
  [N + "CircularData.cpp"], [("initialize, pushBack, getBack", N + "CircularData.cpp")],
  [("queue, indexPush, indexGet", "ring buffer", LH + "neuron/CircularData.hpp")], ["momentum and batch training"])
p("C30", "Time-series and sequence flags mark the right data",
  "For sequential data every sequence's first datum, and no other, is marked as first of its sequence, in training and testing, and for time series a reset happens at the first testing datum and at the first datum of each training window, while the data that only warm up the memory are not learned from or evaluated. Independent data are always treated as the start of a sequence in training and never need warm-up.",
  ["inputs", "configurations"], "every sequence layout, series length and number of recurrences",
  "Tests use a few layouts.",
  [D + "CompositeForTemporalData.cpp", D + "CompositeForTimeSeries.cpp", D + "CompositeForNonTemporalData.cpp", D + "Data.cpp"],
  [("isFirst*DataOfTemporalSequence, needTo*On*Data", D)],
  [("areFirstDataOfTemporalSequence, needToTrainOnData", "marks", "include/snn/data/Set.hpp")], ["training loop"])
p("C31", "A gated recurrent unit blends its previous output with its candidate",
  "The output of a gated recurrent unit is (1 - update) times its previous output plus update times its candidate, where the gates see the inputs and the candidate sees the inputs with the reset gate applied to the previous output. The output is remembered for the next time step, and a reset clears it and all three gates.",
  ["inputs", "histories"], "all inputs, weights and sequences",
  "Tests check that one sequence problem is learned.",
  [N + "GatedRecurrentUnit.cpp"], [("output, reset", N + "GatedRecurrentUnit.cpp")],
  [("previousOutput", "memory of the unit", LH + "neuron/GatedRecurrentUnit.hpp")], ["layer output"])
p("C32", "Training converges and reaches useful accuracy",
  "Training a suitable network on a learnable problem improves its accuracy until the stop condition is met.",
  ["inputs", "histories"], "all problems and initial weights", "Tests sample a few seeds and problems.",
  [NN + "StraightforwardNeuralNetwork.cpp"], [("train", NN + "StraightforwardNeuralNetwork.cpp")], [], ["getGlobalClusteringRate"])
p("C33", "A crash while saving never destroys the previous save",
  "Saving a network over an existing save, by saveAs or auto-save, never opens the existing file for writing: the new save is written completely and closed under another name and then takes the place of the old one in a single step. Whenever the process dies, the file of that name is either the complete previous save or the complete new one.",
  ["crash_points", "histories"], "every point of a save at which the process can die",
  "Tests never crash.",
  [NN + "StraightforwardNeuralNetwork.cpp"], [("saveAs, saveSync, trainSync", NN + "StraightforwardNeuralNetwork.cpp")],
  [("autoSaveFilePath", "where auto-save writes", "include/snn/neural_network/StraightforwardNeuralNetwork.hpp")], ["saved file"])
p("C34", "Progress can be observed from another thread while training runs",
  "Reading accuracy, error, epoch or idleness of a network from another thread while it trains is free of data races and yields values the training really produced.",
  ["schedules"], "every interleaving of the training thread and observers", "Tests observe a few interleavings.",
  [NN + "StraightforwardNeuralNetwork.cpp"], [("waitFor, getters", NN + "StraightforwardNeuralNetwork.cpp")], [], ["waitFor"])
p("C35", "A gated recurrent unit learns from every error once, with all three gates",
  "For every error handed to a gated recurrent unit, each of its three gates takes exactly one step of the network's optimizer on that gate's share of the error by the gradient of the unit's blend, and an inner unit passes back to each input the sum of what the three gates contribute. Learning in first position changes the unit exactly as learning inside the network does.",
  ["inputs", "histories"], "all inputs, errors, weights, gate states and activation functions",
  "Tests check that one sequence problem is learned; a missing or doubled gate step only makes it slower.",
  [N + "GatedRecurrentUnit.cpp"], [("backOutput, train", N + "GatedRecurrentUnit.cpp")],
  [("resetGate, updateGate, outputGate", "the three gates", LH + "neuron/GatedRecurrentUnit.hpp")], ["training", "layer back output"])
p("C36", "The summary reports the network's real structure",
  "The text of NeuralNetwork::summary lists every layer in order and the optimizer, and the shapes, numbers of neurons, filters and parameters, kernel sizes, activation functions and layer optimizers it shows are those the network really has, for every kind of layer and input dimension.",
  ["inputs", "configurations"], "every architecture",
  "Tests compare the text of a few fixed architectures only in part.",
  [NN + "StraightforwardNeuralNetwork.cpp", NN + "layer/"], [("summary", NN + "StraightforwardNeuralNetwork.cpp")],
  [], ["summary()"])

p("C37", "Networks and data sets share no mutable state",
  "Two networks, or two data sets, trained or used at the same time on different threads do not influence or race with each other: nothing that their operations write is shared between objects, the objects all networks use are never modified, and the random number generator belongs to the thread.",
  ["schedules", "histories"], "every number of networks and every interleaving of their operations",
  "Tests run one network at a time; a race between two trainings shows rarely and not as a failed assertion.",
  ["include/snn/tools/Tools.hpp", N + "activation_function/ActivationFunction.cpp", NN + "StraightforwardNeuralNetwork.cpp"],
  [("train, computeOutput, evaluate, shuffle", NN + "StraightforwardNeuralNetwork.cpp")],
  [("rng", "random number generator of a thread", "include/snn/tools/Tools.hpp")], ["training several networks"])
p("C38", "Only initialisation, shuffling and dropout in training are random",
  "Apart from building a network, shuffling data and the dropout of a training pass, nothing the library does is random: computing outputs, evaluating, back-propagation and weight updates, data access, saving, loading, copying and comparing give the same result whenever they start from the same state.",
  ["inputs", "histories"], "every operation, state and input",
  "A test run cannot tell a deterministic result from one that is rarely or slightly random.",
  [NN, N, D], [("computeOutput, evaluate, train", NN + "StraightforwardNeuralNetwork.cpp"), ("randomBetween, randomVector", "include/snn/tools/Tools.hpp")],
  [("rng", "source of randomness", "include/snn/tools/Tools.hpp")], ["computeOutput", "evaluate"])

p("C39", "A new network starts with small random weights and a neutral state",
  "Every neuron of a newly built layer has one weight per input, one for the bias and, when recurrent, one for the recurrence; each of them is its own random draw in the interval of half-width 2.4/sqrt(number of weights), the last one not negative. It has its layer's bias input and activation function, learns with the network's optimizer, and its remembered inputs, deltas, outputs and errors are zero. A new network reports no training, epoch 0, not training, no NaN and unmeasured statistics.",
  ["inputs", "configurations"], "every kind of layer, shape, kernel size and number of filters and neurons",
  "Tests train from a few initial weights and never look at them; a wrong scale, a shared draw or a leftover state only slows learning.",
  [LH + "neuron/Neuron.hpp", NN + "layer/LayerFactory.cpp"], [("constructors of neurons, layers and networks", LH + "neuron/Neuron.hpp")],
  [("weights, lastInputs, previousDeltaWeights", "state of a neuron", LH + "neuron/Neuron.hpp")], ["training from a new network"])
p("C40", "Bitmaps show the data, the filters' outputs and their weights in place",
  "saveData2DAsBitmap draws each pixel of a two-dimensional datum from the channels of its own position; saveFilterLayersAsBitmap and saveFeatureMapsAsBitmap write, for every filter layer with two dimensions, one image in which filter f fills tile f, left to right and top to bottom, showing exactly its own outputs at each position, or the sum of the weights it applies to each input position. Nothing is read out of bounds, other layers draw nothing, the image is complete when it is saved under its own name, and drawing the network is refused while it trains.",
  ["inputs", "configurations"], "every shape, number of channels and filters, kernel size and mix of layers",
  "Tests only check that drawing does not throw.",
  [NN + "NeuralNetworkVisualization.cpp", NN + "StraightforwardNeuralNetwork.cpp"],
  [("saveData2DAsBitmap, saveFilterLayersAsBitmap, saveFeatureMapsAsBitmap", NN + "StraightforwardNeuralNetwork.cpp")],
  [], ["bitmap files"])
p("C41", "Objects are destroyed completely and nothing points at a dead or moved one",
  "Whatever is owned through a pointer to its base (layers, neurons, optimizers, the parts of a data set) is destroyed as what it is, in every program that uses the public headers; a network or data set, which its own layers, optimizers, thread and parts point back into, cannot be copied or moved member by member, so no part refers to another object's state; the parts of a data set describe that data set's own sets; every object created with new has an owner; no function returns a reference, pointer or iterator to a local or temporary object.",
  ["histories", "configurations"], "every sequence of constructions, copies, moves and destructions a program may write",
  "Tests destroy a few objects of a few kinds; a leak, a base destructor, or a dangling reference goes unnoticed until memory is reused.",
  [LH + "BaseLayer.hpp", "include/snn/data/Data.hpp"], [("destructors, copy and move constructors, owning members", LH + "BaseLayer.hpp")],
  [("layers, optimizer, problemComposite", "owned parts", "include/snn/neural_network/NeuralNetwork.hpp")], ["destruction and copying of networks and data sets"])
p("C42", "The validity verdict of a network covers every part of it",
  "isValid of a network tells the first thing wrong in it, and 0 only when nothing is: its number of inputs (101) and of layers (102), its optimizer (learning rate in ]0, 1[, momentum in [0, 1]), then each layer in order. A layer's verdict is that of its first neuron whose bias (301) or some weight (303) lies outside [-100000, 10000], all gates of a recurrent unit included; the layers the factory builds are valid as built. Asking changes nothing.",
  ["inputs", "histories"], "every state training or setWeights can reach, every kind of layer",
  "Tests only ask healthy networks; a skipped gate, a swallowed error code or a shifted bound is invisible there.",
  ["include/snn/neural_network/layer/Layer.tpp", N + "Neuron.cpp", N + "GatedRecurrentUnit.cpp", NN + "NeuralNetwork.cpp"],
  [("isValid", NN + "NeuralNetwork.cpp"), ("isValid", N + "Neuron.cpp")], [("weights, bias", "the judged state", LH + "neuron/Neuron.hpp")], ["isValid"])
p("C43", "A refused operation changes nothing",
  "When an operation is refused with an error - training with data that do not fit or while training, saving or drawing a network that trains, copying one, mixing or-ed and and-ed stop conditions, a precision or separator for a problem without one, a wrong number of weights - everything is as it was before: the network, the data, the condition and the files are unchanged and a training in progress goes on. A precision or separator that is accepted is the one returned afterwards, and so are weights. Every error is an exception derived from std::exception.",
  ["inputs", "histories"], "every state of network, data and stop condition, every argument",
  "Tests assert that the error is thrown and drop the object; they never look at what the failed call left behind.",
  [NN + "StraightforwardNeuralNetwork.cpp", "src/data/Data.cpp", NN + "Wait.cpp", N + "Neuron.cpp"],
  [("train", NN + "StraightforwardNeuralNetwork.cpp"), ("setPrecision", "src/data/Data.cpp"), ("setWeights", N + "Neuron.cpp")], [("isIdle, epoch, autoSaveFilePath, thread", "what a refusal must not touch", "include/snn/neural_network/StraightforwardNeuralNetwork.hpp")], ["saveAs", "setSeparator"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    import re
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P:
            jsonschema.validate(x, s)
    except ImportError:
        pass
    print(len(P))
