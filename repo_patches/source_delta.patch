From 68ec7edffde99a90895571f986559f4769b05aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/34] fix: SGD adds the bias weight's delta instead of
 replacing the weight with it

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From 4e9fc9cc63007fed30d89693bfaf6cc8d0eff84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 02/34] fix: 2D kernel row is the kernel rank divided by the
 output width, not its height

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 3c440899967909ab60818462c1f442f4c0698d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 03/34] fix: 1D max pooling has an output for each channel

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From acee5d17eb3c88ef47329a1b65bcce60a6b29d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 04/34] fix: a convolution in first position is trained on
 every kernel position

---
 src/neural_network/layer/Convolution1D.cpp | 5 +++--
 src/neural_network/layer/Convolution2D.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..1bba810 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,9 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..861ffef 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,9 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From df5006fcf3caa22118fb4683892d8c967d815293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/34] fix: the number of outputs of a network is the size of
 its last layer's output, not its number of neurons

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..62e7cfe 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From c2b55ffa68ed9e569002d3c7860b5c89b17cba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 06/34] fix: refuse a filter layer whose kernel size or number
 of filters is not positive

---
 src/neural_network/layer/LayerFactory.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..873fed6 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -120,6 +120,9 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<GruLayer>(model, optimizer);
 
     case maxPooling:
+        if (model.kernelSize < 1)
+            throw InvalidArchitectureException("Kernel must have a size of at least 1.");
+
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = {1, shapeOfInput[0]};
@@ -154,6 +157,12 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case locallyConnected:
+        if (model.kernelSize < 1)
+            throw InvalidArchitectureException("Kernel must have a size of at least 1.");
+
+        if (model.numberOfFilters < 1)
+            throw InvalidArchitectureException("Layer must have at least 1 filter.");
+
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
@@ -199,6 +208,12 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case convolution:
+        if (model.kernelSize < 1)
+            throw InvalidArchitectureException("Kernel must have a size of at least 1.");
+
+        if (model.numberOfFilters < 1)
+            throw InvalidArchitectureException("Layer must have at least 1 filter.");
+
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
-- 
2.43.0


From 49a5832608dfbe2471a1e4cd30633328afc7151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 07/34] fix: best F1 score and best RMSE record their own value

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..5fa7ef0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From d36565768ed7d63e7ba9324ac5d13609075fd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 08/34] fix: the predicted class is the greatest output even
 when no output exceeds -2

---
 src/neural_network/StatisticAnalysis.cpp            | 2 +-
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 5fa7ef0..0ff8a82 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -154,7 +154,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
 
     for (int i = 0; i < (int)clusters.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex < 0 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..1cb6e7d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -54,7 +54,7 @@ int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bo
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex < 0 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
-- 
2.43.0


From eadc0e0e77f6413c711b0e96220ded50350630b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 09/34] fix: mixing || and && in a wait is refused whichever
 side the other operator comes from

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..2914f66 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From 04d89ec323f1a79199e4c33fde1419464b7a095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 10/34] fix: && of waits keeps the MAE criterion when only one
 side has one

---
 src/neural_network/Wait.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 2914f66..3004c68 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae > 0 && wait.mae > 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 14093bf1d961d416f2100351388fd0e8bd4f24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 11/34] fix: refuse to copy a network that is training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 1cb6e7d..16f68f6 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -33,7 +33,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From 15b4c93c30637271efc3c4384bb5f88ab281e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 12/34] fix: a network loaded from an auto save is idle

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 16f68f6..10376e2 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -298,6 +298,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    neuralNetwork->resetTrainingValues(); // an auto save is written during training
     return *neuralNetwork;
 }
 
-- 
2.43.0


From 8ba3a03d4b66d8ee98afea16c7b9041adebdbd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 13/34] fix: a stop requested right after startTrainingAsync is
 not lost

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 10376e2..af1b2b4 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -73,6 +73,8 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
+    this->wantToStopTraining = false;
+    this->isIdle = false;
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
@@ -82,6 +84,8 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->wantToStopTraining = false;
+    this->isIdle = false;
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -91,8 +95,6 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     wait.startClock();
     this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
-- 
2.43.0


From 41e5869a9b43df2541815edde062d450acdaa31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 14/34] fix: refuse data whose inputs and labels do not have
 the same number of elements

---
 src/data/Data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..651efc3 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -269,13 +269,13 @@ void Data::unshuffle()
 int Data::isValid()
 {
     if (!this->sets[testing].shuffledIndexes.empty()
-        && this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
+        || this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
         return 403;
 
     if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
+        || this->sets[training].size != (int)this->sets[training].labels.size()
+        || this->sets[testing].size != (int)this->sets[testing].inputs.size()
+        || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
     int err = this->problemComposite->isValid();
-- 
2.43.0


From 089a300a5b4b7a924c6db5dc6d37d8ab8f7a8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 15/34] fix: the training label follows the shuffle as the
 training data does

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..a04fa18 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const int shuffledIndex = this->sets[training].shuffledIndexes[index];
+    for (int i = 0; i < (int)this->sets[training].labels[shuffledIndex].size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (this->sets[training].labels[shuffledIndex][i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From d79717184daf5c7789527cd4776db0d7fca5ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 16/34] fix: derivative of the improved sigmoid includes the
 slope of its linear term

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..c09b1b7 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,7 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            return std::exp(x) / powf((std::exp(x) + 1.0f), 2) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 0d214c40921809ad45cd17e0b45974d8dd48f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 17/34] fix: comparing layers with different numbers of
 optimizers does not read past the shorter list

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From 41aeed13c6918166a37343ed76af69ef29518d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 18/34] fix: max pooling layers with different optimizers are
 not equal

---
 src/neural_network/layer/MaxPooling1D.cpp | 5 ++---
 src/neural_network/layer/MaxPooling2D.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/layer/MaxPooling1D.cpp b/src/neural_network/layer/MaxPooling1D.cpp
index 1c6b56f..1d0954a 100644
--- a/src/neural_network/layer/MaxPooling1D.cpp
+++ b/src/neural_network/layer/MaxPooling1D.cpp
@@ -118,9 +118,8 @@ bool MaxPooling1D::operator==(const BaseLayer& layer) const
     {
         const auto& l = dynamic_cast<const MaxPooling1D&>(layer);
 
-        return typeid(*this).hash_code() == typeid(layer).hash_code()
-            && this->kernelSize == l.kernelSize
-            && this->shapeOfInput == l.shapeOfInput;
+        return this->FilterLayer::operator==(layer)
+            && this->numberOfOutputs == l.numberOfOutputs;
     }
     catch (std::bad_cast&)
     {
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 6add766..1b15070 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -128,9 +128,8 @@ bool MaxPooling2D::operator==(const BaseLayer& layer) const
     {
         const auto& l = dynamic_cast<const MaxPooling2D&>(layer);
 
-        return typeid(*this).hash_code() == typeid(layer).hash_code()
-            && this->kernelSize == l.kernelSize
-            && this->shapeOfInput == l.shapeOfInput;
+        return this->FilterLayer::operator==(layer)
+            && this->numberOfOutputs == l.numberOfOutputs;
     }
     catch (std::bad_cast&)
     {
-- 
2.43.0


From 796c98a95649cafe068a1e71ad9089645b88972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 19/34] fix: neurons trained with different batch sizes are not
 equal

---
 src/neural_network/layer/neuron/Neuron.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/layer/neuron/Neuron.cpp b/src/neural_network/layer/neuron/Neuron.cpp
index 6a6d98c..babb1f9 100644
--- a/src/neural_network/layer/neuron/Neuron.cpp
+++ b/src/neural_network/layer/neuron/Neuron.cpp
@@ -84,6 +84,7 @@ bool Neuron::operator==(const Neuron& neuron) const
 {
     return typeid(*this).hash_code() == typeid(neuron).hash_code()
         && this->numberOfInputs == neuron.numberOfInputs
+        && this->batchSize == neuron.batchSize
         && this->weights == neuron.weights
         && this->bias == neuron.bias
         && this->previousDeltaWeights == neuron.previousDeltaWeights
-- 
2.43.0


From e2f6ed4e830790f7e121d9d1da4284977349ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 20/34] fix: dropout covers every output of a filter layer

---
 src/neural_network/optimizer/Dropout.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..4d41e6d 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,7 +36,11 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    // the outputs of a filter layer are more numerous than its neurons
+    const bool hasWrongSize = this->presenceProbabilities.size() != outputs.size();
+    if (hasWrongSize)
+        this->presenceProbabilities.resize(outputs.size());
+    if (temporalReset || hasWrongSize)
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
-- 
2.43.0


From 8a1d37ee32b0cb088ce0743105405324dc659199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 21/34] fix: NaN and infinite outputs are detected in a
 -ffast-math build

---
 include/snn/tools/Tools.hpp          | 11 ++++++++++-
 src/neural_network/NeuralNetwork.cpp |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..e68ea74 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -1,6 +1,8 @@
 #pragma once
-#include <format>
+#include <bit>
 #include <chrono>
+#include <cstdint>
+#include <format>
 #include <iostream>
 #include <random>
 #include <stdexcept>
@@ -44,6 +46,13 @@ namespace snn::tools
     float randomBetween(const float min, const float max);
     std::vector<float> randomVector(const float min, const float max, const size_t size);
 
+    // false for NaN and infinities, even when compiled with -ffast-math
+    inline
+    bool isFinite(const float value)
+    {
+        return (std::bit_cast<uint32_t>(value) & 0x7F800000u) != 0x7F800000u;
+    }
+
     inline
     std::string toString(std::chrono::milliseconds duration)
     {
diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 62e7cfe..568008a 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -64,7 +64,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +77,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From 6f40bb01945559bbfe4d14ef2c33c72fd9ca2821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 22/34] fix: sequential data are shuffled sequence by sequence

---
 src/data/CompositeForTemporalData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index f5f1570..2cd7a66 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,11 +9,11 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i > this->sets[training].size; ++i)
+    for (size_t i = 0; i < this->sets[training].areFirstDataOfTemporalSequence.size(); ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
-            this->indexesForShuffles.push_back(i);
+            this->indexesForShuffles.push_back(static_cast<int>(i));
         }
     }
 }
@@ -27,7 +27,7 @@ void CompositeForTemporalData::shuffle()
         this->sets[training].shuffledIndexes[j++] = this->indexesForShuffles[i];
 
         int index = this->indexesForShuffles[i] + 1;
-        while (!this->sets[training].areFirstDataOfTemporalSequence[index])
+        while (index < this->sets[training].size && !this->sets[training].areFirstDataOfTemporalSequence[index])
         {
             this->sets[training].shuffledIndexes[j++] = index++;
         }
@@ -41,7 +41,7 @@ void CompositeForTemporalData::unshuffle()
 
 bool CompositeForTemporalData::isFirstTrainingDataOfTemporalSequence(int index) const
 {
-    return this->sets[training].areFirstDataOfTemporalSequence[index];
+    return this->sets[training].areFirstDataOfTemporalSequence[this->sets[training].shuffledIndexes[index]];
 }
 
 bool CompositeForTemporalData::isFirstTestingDataOfTemporalSequence(int index) const
-- 
2.43.0


From d351c616a2f6fc61a463dcce4793c68fbbe02929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 23/34] fix: absolute errors are no longer truncated to
 integers

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 0ff8a82..1381c3e 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -105,7 +105,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +139,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +161,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +174,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
-- 
2.43.0


From e336714a837c78fd6665a94aee6ce47c1a53bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 24/34] fix: root mean squared error is computed from squared
 errors

---
 include/snn/neural_network/StatisticAnalysis.hpp | 1 +
 src/neural_network/StatisticAnalysis.cpp         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..d507b12 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -11,6 +11,7 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 1381c3e..a64f0cb 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -106,6 +108,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
         }
 
         clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -140,6 +143,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
         }
 
         clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -162,6 +166,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         if (i == classNumber)
         {
             clusters[i].totalError += std::abs(1 - outputs[i]);
+            clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -175,6 +180,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         else
         {
             clusters[i].totalError += std::abs(0 - outputs[i]);
+            clusters[i].totalSquaredError += (0 - outputs[i]) * (0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -238,7 +244,7 @@ float StatisticAnalysis::computeRootMeanSquaredError() const
     float totalError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalError += c.totalSquaredError;
     }
     const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
-- 
2.43.0


From 924c7db36ac5eb853f3ebea68a6ec7a5f7a8161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 25/34] fix: zero limits take part in combined stop conditions

---
 src/neural_network/Wait.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 3004c68..1ae0226 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
@@ -44,7 +44,7 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.mae > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
-- 
2.43.0


From c20c64c1c9162f06098eddfdb91024ec2641a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 26/34] fix: reject negative input sizes and sizes whose
 product overflows

---
 src/neural_network/layer/LayerFactory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 873fed6..00f639e 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -277,11 +277,15 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : models[0].shapeOfInput)
+    {
+        if (size < 1)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
         numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
+        if (numberOfInputs > 2073600)
+            throw InvalidArchitectureException("Layer is too big.");
+    }
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
-- 
2.43.0


From fda8e48519e1710ae1fc232b5856a008447177a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 27/34] fix: present the data after the last window of a time
 series once and in order

---
 src/data/CompositeForTimeSeries.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..bbcb426 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,7 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
-    {
-        this->sets[training].needToTrainOnData[i] = false;
-    }
-
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < offset && i < this->sets[training].size; ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
@@ -72,6 +67,14 @@ void CompositeForTimeSeries::shuffle()
             iForIndex ++;
         }
     }
+    // The data after the last complete window are presented in order but are not learned.
+    const int endOfWindows = iForIndex * (this->numberOfRecurrences + 1) + offset;
+    for (int i = endOfWindows; i < this->sets[training].size; ++i)
+    {
+        this->sets[training].shuffledIndexes[i] = i;
+        this->sets[training].areFirstDataOfTemporalSequence[i] = i == endOfWindows;
+        this->sets[training].needToTrainOnData[i] = false;
+    }
     this->offset = (this->offset+1) % (this->numberOfRecurrences+1);
 }
 
-- 
2.43.0


From 1025bc4aee1ba3f5eb4288be66c7a8c359232bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 28/34] fix: reject empty data and data of differing sizes

---
 src/data/Data.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 651efc3..be4bd33 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Training data cannot be empty.");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -171,6 +174,9 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A sequence cannot be empty.");
+
         ranges::move(v, back_inserter(this->sets[set].inputs));
 
         this->sets[set].areFirstDataOfTemporalSequence[i] = true;
@@ -198,6 +204,9 @@ void Data::flatten(vector<vector<vector<float>>>& input3D)
     size_t i = 0;
     for (vector2D<float>& v : input3D)
     {
+        if (v.empty())
+            throw runtime_error("A sequence cannot be empty.");
+
         ranges::move(v, back_inserter(this->sets[training].inputs));
 
         this->sets[training].areFirstDataOfTemporalSequence[i] = true;
@@ -278,6 +287,16 @@ int Data::isValid()
         || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
+    for (const auto& set : this->sets)
+    {
+        for (const auto& input : set.inputs)
+            if ((int)input.size() != this->sizeOfData)
+                return 405;
+        for (const auto& label : set.labels)
+            if ((int)label.size() != this->numberOfLabels)
+                return 405;
+    }
+
     int err = this->problemComposite->isValid();
     if (err != 0)
         return err;
-- 
2.43.0


From a3c0f6f5d5fb6c85adc0a8170b07d295cfaae508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 29/34] fix: derivative of the improved sigmoid is finite for
 large sums

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index c09b1b7..6f6393f 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,8 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2) + 0.05f;
+            const float sigmoid = 1.0f / (1.0f + std::exp(-x));
+            return sigmoid * (1.0f - sigmoid) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 697b5286980de3859af366e93867a9a6735ddc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 30/34] fix: summaries of recurrent layers showed the input and
 output sizes swapped

---
 src/neural_network/layer/GruLayer.cpp   | 4 ++--
 src/neural_network/layer/Recurrence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From 861e1984567cb9cd9f68c414022b9ad3ee62e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 31/34] fix: a crash while saving destroyed the previous save

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index af1b2b4..f67b70e 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,3 +1,4 @@
+#include <filesystem>
 #include <fstream>
 #include <thread>
 #include <stdexcept>
@@ -288,9 +289,13 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
     this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
+    const string temporaryFilePath = filePath + ".tmp";
+    {
+        ofstream ofs(temporaryFilePath);
+        boost::archive::text_oarchive archive(ofs);
+        archive << this;
+    }
+    filesystem::rename(temporaryFilePath, filePath); // a crash while writing must not destroy the previous save
 }
 
 
-- 
2.43.0


From 612d1b9aec27f2de2953b1b741451d4cebec6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 32/34] fix: networks trained at the same time raced on the
 random number generator

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index e68ea74..e381eec 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -39,8 +39,8 @@ namespace snn::internal
 
 namespace snn::tools
 {
-    static std::random_device rd;
-    static std::mt19937 rng(rd());
+    static thread_local std::random_device rd;
+    static thread_local std::mt19937 rng(rd());
 
     int randomBetween(const int min, const int max); // [min; max[
     float randomBetween(const float min, const float max);
-- 
2.43.0


From 0e88fd0bdaf52773b8bece2a1739035d174f0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 33/34] fix: feature map bitmaps read weights of other filters
 and past the last neuron

---
 .../NeuralNetworkVisualization.cpp            | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..2056717 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -8,7 +8,7 @@ using namespace tools;
 
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
-    if (filterLayer == nullptr)
+    if (filterLayer == nullptr || filterLayer->getNumberOfNeurons() == 0)
         return;
     auto shape = filterLayer->getShapeOfInput();
     if (shape.size() != 3)
@@ -52,20 +52,25 @@ std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLay
     auto outputShape = filterLayer->getShapeOfOutput();
     auto filterSize = filterLayer->getKernelSize();
     auto neuronByFilter = outputShape[X] * outputShape[Y];
+    // a convolution has one neuron per filter, a locally connected layer has one per filter and position
+    const bool isConvolution = filterLayer->getNumberOfNeurons() == outputShape[C];
+    const int step = isConvolution ? 1 : filterSize;
     vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
     for (int n = 0; n < neuronByFilter; ++n)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
+        const int neuronIndex = isConvolution ? filterNumber : n * outputShape[C] + filterNumber;
+        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(neuronIndex))->getWeights();
+        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]) * step;
+        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]) * step;
 
-        for (int y = 0; y < filterSize; ++y)
+        for (int y = 0; y < filterSize && neuronPositionY + y < inputShape[Y]; ++y)
         {
-            for (int x = 0; x < filterSize; ++x)
+            for (int x = 0; x < filterSize && neuronPositionX + x < inputShape[X]; ++x)
             {
                 const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
-                const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
+                const int j = flatten(x, y, filterSize) * inputShape[C];
+                for (int c = 0; c < inputShape[C]; ++c)
+                    weights[i] += neuronWeight[j + c];
             }
         }
     }
-- 
2.43.0


From 5b3dd66847a30f4c5b5a71d5ead2cb295917aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 34/34] fix: bitmaps of data without exactly one or three
 channels read shifted or past the end

---
 src/neural_network/NeuralNetworkVisualization.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 2056717..ff5f39d 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -132,9 +132,10 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
             }
             else
             {
-                const auto red = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto blue = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto green = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto red = static_cast<unsigned char>(inputs[index] * 255.0f);
+                const auto blue = static_cast<unsigned char>(inputs[index + 1] * 255.0f);
+                const auto green = static_cast<unsigned char>(shapeOfInput[C] > 2 ? inputs[index + 2] * 255.0f : 0.0f);
+                index += shapeOfInput[C];
                 image.set_pixel(x, y, red, blue, green);
             }
         }
-- 
2.43.0

