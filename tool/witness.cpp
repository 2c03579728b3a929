// Instantiates the header-only part of the public interface so that it can be analysed
// (it has no other instantiation inside the library itself).
#include "neural_network/StraightforwardNeuralNetwork.hpp"
#include "data/Data.hpp"

using O = snn::LayerOptimizerModel;
template snn::LayerModel snn::Input<int>(int);
template snn::LayerModel snn::Input<int, int>(int, int);
template snn::LayerModel snn::Input<int, int, int>(int, int, int);
template snn::LayerModel snn::FullyConnected<>(int, snn::activation);
template snn::LayerModel snn::FullyConnected<O, O>(int, snn::activation, O, O);
template snn::LayerModel snn::Recurrence<>(int, snn::activation);
template snn::LayerModel snn::Recurrence<O, O>(int, snn::activation, O, O);
template snn::LayerModel snn::GruLayer<>(int);
template snn::LayerModel snn::GruLayer<O, O>(int, O, O);
template snn::LayerModel snn::MaxPooling<>(int);
template snn::LayerModel snn::LocallyConnected<>(int, int, snn::activation);
template snn::LayerModel snn::LocallyConnected<O, O>(int, int, snn::activation, O, O);
template snn::LayerModel snn::Convolution<>(int, int, snn::activation);
template snn::LayerModel snn::Convolution<O, O>(int, int, snn::activation, O, O);
