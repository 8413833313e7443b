#!/usr/bin/env python3
# Source of /verif/properties.jsonl: one short record per property.
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PH="src/core/trainingset/xmmPhrase.cpp"; PHH="src/core/trainingset/xmmPhrase.hpp"
TS="src/core/trainingset/xmmTrainingSet.cpp"; TSH="src/core/trainingset/xmmTrainingSet.hpp"
MO="src/core/model/xmmModel.hpp"; SC="src/core/model/xmmModelSingleClass.cpp"; SCH="src/core/model/xmmModelSingleClass.hpp"
SP="src/core/model/xmmModelSharedParameters.cpp"; CF="src/core/model/xmmModelConfiguration.hpp"
GD="src/core/distributions/xmmGaussianDistribution.cpp"; AT="src/core/common/xmmAttribute.hpp"; MX="src/core/common/xmmMatrix.hpp"
JS="src/core/common/xmmJson.cpp"; JSH="src/core/common/xmmJson.hpp"; CB="src/core/common/xmmCircularbuffer.hpp"; EV="src/core/common/xmmEvents.hpp"
GM="src/models/gmm/xmmGmm.cpp"; GS="src/models/gmm/xmmGmmSingleClass.cpp"; GP="src/models/gmm/xmmGmmParameters.cpp"
HM="src/models/hmm/xmmHierarchicalHmm.cpp"; HS="src/models/hmm/xmmHmmSingleClass.cpp"; HP="src/models/hmm/xmmHmmParameters.cpp"
KM="src/models/kmeans/xmmKMeans.cpp"; KP="src/models/kmeans/xmmKMeansParameters.cpp"

prop("C01","A phrase is exactly the ordered frames recorded since its last clear",
 "After any sequence of recording, clearing, re-dimensioning and out-of-range or ill-sized calls, a phrase's sizes, emptiness, values and data pointers are exactly those of the ordered list of frames accepted per modality since the last operation that emptied it; its length is that of the shorter modality. A call whose frame has the wrong size, whose index or column is out of range, or which does not apply to that kind of phrase raises an exception and changes nothing. No call sequence reads or writes outside the recorded data.",
 ["histories","inputs"],"all sequences, up to a depth, of record/record_input/record_output/clear/clearInput/clearOutput/dimension changes/reads on unimodal and bimodal phrases, and long recordings crossing every storage-growth boundary",
 "The suite records one fixed phrase of each kind and serialises it; it never interleaves modalities, clears, re-dimensions or crosses the storage-growth boundary in a chosen order.",
 [PH,PHH],[("frame storage growth and per-modality lengths","xmm::Phrase::record*/reallocateLength/trim in "+PH),("dimension listener that drops data","xmm::Phrase::onAttributeChange in "+PH)],
 ["Phrase public getters"],[("per-modality lengths","number of frames held","xmm::Phrase in "+PHH)])

prop("C02","Copying or assigning a phrase gives an independent, equal phrase",
 "A phrase that is copied from, or assigned from, another equals it in all observable respects, and afterwards no operation on either one (recording, clearing, relabelling, re-dimensioning, destruction) is observable through the other, except that phrases over shared memory keep referring to the same user buffers, which they never free or resize. Event listeners registered on one phrase are never notified of changes to another. Every such history is free of leaks, double frees and reads of uninitialised or freed memory.",
 ["histories"],"all histories up to a depth over two phrases (own/shared memory, unimodal/bimodal, empty/non-empty) of copy construction, assignment in both directions, self assignment, mutation and destruction",
 "The suite copies only through containers and JSON, on non-empty phrases that own their memory, and compares values, not lifetime.",
 [PH,AT],[("copy constructor and assignment","xmm::Phrase in "+PH),("attributes copied without their listener","xmm::Attribute in "+AT)],
 ["Phrase getters, listeners; memory-safety instrumentation"])

prop("C03","A training set's labels and class subsets always match its phrases",
 "After any history of adding, replacing, removing, clearing and relabelling phrases (including renaming a phrase in place or by assignment), a training set's size, indices, label set and per-label subsets are exactly those computed from its current phrases, and retrieving an index or label that is absent yields nothing. Each class subset contains exactly the same phrase objects, under the same indices, that carry this label in the set.",
 ["histories"],"all operation histories up to a depth over three indices and three labels, including relabelling through the phrase object, label removal and re-adding",
 "The suite builds one training set in a fixed order and never relabels, replaces or removes a phrase.",
 [TS,TSH,PH],[("label bookkeeping","xmm::TrainingSet::update/onPhraseEvent in "+TS),("label change event","xmm::Phrase::onAttributeChange in "+PH)],
 ["TrainingSet public getters"])

prop("C04","Training sets that are copied, assigned or destroyed never affect others",
 "A training set that is copied or assigned from another contains equal phrases and labels but shares nothing with it when the source owns its phrases: no later operation on either, nor the destruction of either, is observable through the other. Phrases that outlive a set which referred to them (sub-sets by class, sets over shared phrases, removed or replaced phrases held by the user) stay usable, and relabelling them then affects only sets still containing them. No such history leaks or touches freed memory.",
 ["histories"],"all histories up to a depth over two or three training sets of copy construction, assignment, phrase insertion/removal/relabelling through either set, class-subset extraction and destruction in every order",
 "The suite never copies a training set and lets both live on, never destroys one while another still holds its phrases, and does not run with memory instrumentation.",
 [TS,TSH],[("copy constructor and assignment of sets","xmm::TrainingSet in "+TS),("phrase event registration","xmm::EventGenerator in "+EV)],
 ["TrainingSet public getters; memory-safety instrumentation"])

prop("C05","Parameter values outside their documented limits are always refused",
 "Setting any model, set or phrase parameter (dimension, input dimension, smoothing window, number of gaussians, states or clusters, regularisation terms, iteration counts and thresholds, modes, column names) takes effect if and only if the value lies within that parameter's limits, in which case it reads back equal; otherwise an exception is raised and every parameter keeps its value. The limits that depend on another parameter (input dimension against dimension; number of column names against dimension) are enforced after every sequence of changes, on fresh, copied, assigned and reloaded objects alike, and the parameters then remain mutually consistent.",
 ["histories","inputs","configurations"],"for every parameter of every kind of object, all boundary values around its limits, and all short sequences of dimension / input-dimension changes, on original, copied, assigned and JSON-reloaded objects",
 "The suite only ever sets legal values once, before training.",
 [AT,"src/core/common/xmmAttribute.cpp",SP,GP,HP,KP,PH,TS],[("limit checking","xmm::checkLimits / Attribute::set in "+AT),("dimension listeners","onAttributeChange of Phrase, TrainingSet, SharedParameters, GaussianDistribution")],
 ["parameter set()/get()"])

prop("C06","Statistics, rescaling and normalisation apply to every frame and column",
 "For every phrase and training set with data, the mean, standard deviation and minimum/maximum it reports are those of exactly its recorded frames, column by column. Rescaling replaces every value of every frame x by (x - offset) * gain of its own column and touches nothing else, for unimodal and bimodal, owned and shared data; an offset or gain whose size is not the phrase's dimension is refused with an exception and changes nothing. Normalising a training set gives each non-constant column zero mean and unit standard deviation over all the frames of all its phrases.",
 ["inputs","configurations"],"all phrases up to 3 frames, 3 columns and every input/output split with values from a small set, and all training sets of up to 3 such phrases",
 "The suite never calls rescale or normalise, and checks statistics of no bimodal phrase.",
 [PH,TS],[("statistics and rescale","xmm::Phrase::mean/standardDeviation/minmax/rescale in "+PH),("normalise","xmm::TrainingSet::normalize in "+TS)],
 ["Phrase/TrainingSet statistics getters"])

prop("C07","Phrases and training sets survive a JSON round trip unchanged",
 "Writing any phrase or training set to JSON and reading it back, directly or through serialised text, into a new or an already used object, yields an object equal to the original in every observable respect: kind, dimensions, label, column names, length, and every value, at least to single precision, with every label, index and subset. The reloaded object behaves like the original under further recording, relabelling and training.",
 ["inputs","histories"],"all phrases over small shapes (modality, split, 0..3 frames, extreme float values, empty and unusual labels) and all training sets of up to 3 such phrases, loaded into fresh and previously used targets, then used",
 "The suite round-trips one non-empty phrase of each kind and one training set, never into a used object, and never uses the result afterwards.",
 [PH,TS,JSH],[("serialisers","toJson/fromJson of Phrase and TrainingSet; json2array/array2json in "+JSH)],
 ["toJson/fromJson"])

prop("C08","A model survives a JSON round trip with same configuration and behaviour",
 "For every model kind, configuration and training state, writing the model (or a single class, its parameters or a gaussian distribution) to JSON and reading it back, directly or through text, into a new or an already trained object, restores every configuration value, class, class order and trained parameter exactly up to serialisation precision. Fed with any frame sequence after a reset, the reloaded model produces the same results as the original, and it can be retrained and saved again with the same outcome.",
 ["configurations","inputs","histories"],"all combinations of small configurations (covariance, regression estimator, transition mode, hierarchical flag, components/states, regularisation, windows, overrides per class), trained or not, into fresh and used targets, then all short filter sequences",
 "The suite checks one configuration per model after default training, into a fresh object, and compares a handful of fields.",
 [GM,GS,HM,HS,GP,HP,SP,GD,MO],[("serialisers","toJson/fromJson of models, classes, parameters and distributions")],
 ["toJson/fromJson; filter results"])

prop("C09","Malformed JSON is refused with an exception and without side effects",
 "Loading any structurally damaged document (a field removed, of another type, or with a wrong array length or an out-of-range value) into a phrase, training set, model, class, parameter set or distribution either raises an exception or loads a document that is consistent; it never crashes or touches memory out of bounds. If it raises, the target object is exactly as it was before the call and remains usable.",
 ["inputs"],"every single-node mutation (remove, null, wrong type, shortened, lengthened, negative, oversized) of valid documents of every kind, loaded into fresh and used targets",
 "The suite only loads documents produced by the library itself.",
 [JS,JSH,PH,TS,GM,GS,HM,HS,GP,HP,SP,GD],[("array size checks","json2vector/json2array in "+JSH),("load into temporary then assign","fromJson of all classes")],
 ["fromJson; memory-safety instrumentation"])

prop("C10","Gaussian densities and regressions equal their mathematical definition",
 "For every mean, positive-definite covariance (full or diagonal), modality split and observation, a gaussian's likelihood, input likelihood and joint likelihood equal the corresponding multivariate normal densities, and its regression equals the conditional mean (full) or the output mean (diagonal); the reported output covariance is the conditional one. This still holds after any sequence of covariance-mode switches, dimension changes, regularisation, copying, assignment, JSON reload and conversion to and from confidence ellipses. A request that needs the other modality, or the inverse of a singular covariance, raises an exception instead of computing.",
 ["inputs","histories","configurations"],"all dimensions 1..3, all input/output splits, a grid of means, covariances and observations, and all short sequences of mode switches, copies and reloads",
 "The suite exercises the distribution only through one trained model, unimodal, with its default mode.",
 [GD],[("inverse covariance update and likelihoods","xmm::GaussianDistribution in "+GD)],
 ["likelihood(), regression() and public mean/covariance"])

prop("C11","Matrix products, inverses and determinants are correct, pivots included",
 "For every square matrix that is invertible (pivots below 1e-9 count as null), inversion yields the matrix whose product with the original is the identity and the reported determinant has the right value and sign, whichever row exchanges are needed; singular square matrices are refused with an exception. For full-rank rectangular matrices the pseudo-inverse satisfies the Moore-Penrose conditions. Products, transposes, element sums, row and column swaps and copies equal their definitions for all conforming shapes, non-conforming products raise, and no operation alters its operands.",
 ["inputs"],"all 1x1 to 3x3 matrices over a small integer alphabet including zero and negative pivots, a family of 4x4 ones, and all pairs of small shapes",
 "No test covers matrices; trained covariances need no row exchange.",
 [MX],[("gauss-jordan inversion","xmm::Matrix::gauss_jordan_inverse/pinv in "+MX)],
 ["Matrix public operations"])

prop("C12","Likelihood smoothing spans exactly the last frames since reset",
 "For every model kind, class and window length, the smoothed likelihood a class reports after a frame is the average of the log-likelihoods of exactly the last min(n, window) frames since the last reset, n being the number of frames received since then. Changing the window length (globally, at any time) applies from the next reset at the latest, to every class, with no frame counted twice or lost. The normalised likelihoods over classes then each lie in [0,1] and sum to one, and the reported most likely class is one with the highest smoothed likelihood.",
 ["histories","configurations","inputs"],"all windows 1..4 and every interleaving up to a depth of frames from a small alphabet, resets and window changes, for single classes and 1..3-class models of each kind",
 "The suite filters with the default window of 1 and never checks the smoothed value.",
 [CB,SC,GS,HS,HM,GM],[("circular buffer","xmm::CircularBuffer in "+CB),("smoothed likelihood","updateResults of GMM/HMM single classes")],
 ["results after filter()"])

prop("C13","GMM recognition and regression equal the mixture definition",
 "For every trained or hand-set gaussian mixture model, each frame's instantaneous class likelihood is the weighted sum of the component densities, component responsibilities are its normalised terms, normalised likelihoods are the class likelihoods divided by their sum, and the most likely class attains the maximum. In bimodal mode a class predicts the responsibility-weighted mean of the component regressions, and the model output is the prediction of the most likely class (most-likely estimation) or the likelihood-weighted mean over classes (mixture estimation), with matching output variances. This holds for all covariance modes and per-class overrides.",
 ["inputs","configurations"],"all combinations of 1..3 classes, 1..2 components, dimensions and splits, covariance modes, estimators, parameter grids and frame sequences up to a depth",
 "The suite trains on one random data set and prints or compares a handful of values.",
 [GM,GS,GD],[("GMM filtering","xmm::GMM::filter/updateResults in "+GM),("single class","xmm::SingleClassGMM::obsProb/regression/updateResults in "+GS)],
 ["filter() results"])

prop("C14","HMM and hierarchical HMM filtering equals the forward algorithm",
 "For every hidden Markov model (any topology, number of states, per-class settings), the likelihood, state probabilities, progress and prediction reported after each frame since reset equal those of the mathematically defined forward recursion on that model's parameters. In hierarchical mode the same holds for the two-level recursion with its entry, exit and between-class transition probabilities, and in the other mode classes run as independent cyclic models. Class ranking and model output follow the chosen estimator as documented.",
 ["inputs","configurations","histories"],"all combinations of 1..3 classes, 1..3 states, both topologies, hierarchical or not, estimators, parameter grids, and all frame sequences up to a depth over a small alphabet",
 "The suite compares one trained model's results on one sequence against recorded values, for the default topology.",
 [HM,HS],[("forward recursion","SingleClassHMM::forward_init/forward_update in "+HS),("hierarchical forward","HierarchicalHMM::forward_init/forward_update in "+HM)],
 ["filter() results"])

prop("C15","GMM training yields a valid mixture that matches the EM definition",
 "For every training data set and configuration, a trained class is a valid mixture: weights non-negative summing to one, finite means, symmetric covariances with positive variances no smaller than the regularisation. Its parameters are those reached by expectation-maximisation from the k-means or equal-size initialisation on exactly the phrases of this class, run for the configured stopping rule: exactly the maximum number of iterations when it is set at or above the minimum, otherwise at least the minimum and then until the relative log-likelihood gain falls to the threshold.",
 ["inputs","configurations"],"all small data sets over a value alphabet with 1..3 phrases, 1..3 components, both covariance modes, unimodal/bimodal, regularisation and stopping-rule settings",
 "The suite compares a single trained model with stored numbers for default settings.",
 [GS,SC],[("EM update","xmm::SingleClassGMM::emAlgorithm* in "+GS),("stopping rule","xmm::SingleClassProbabilisticModel::train / emAlgorithmHasConverged in "+SC)],
 ["class components and weights; training events"])

prop("C16","HMM training yields a stochastic model matching Baum-Welch",
 "For every training data set and configuration, a trained class is a valid hidden Markov model: prior, transition rows and mixture weights are non-negative and sum to one (apart from the transition from the last state back to the first, which a non-hierarchical model sets to a small constant), left-right models keep their band structure, covariances are symmetric with positive variances, and exit probabilities lie in [0,1]. Its parameters are those reached by Baum-Welch re-estimation over all phrases of the class from the documented initialisation, under the configured stopping rule. Phrases of different lengths, and in any order, each count for all their frames.",
 ["inputs","configurations"],"all small data sets over a value alphabet with 1..3 phrases of 1..5 frames, 1..3 states, both topologies and covariance modes, unimodal/bimodal, several stopping settings",
 "The suite compares one trained model with stored numbers for default settings and equal phrases.",
 [HS,SC],[("Baum-Welch","xmm::SingleClassHMM::baumWelch* in "+HS),("initialisation","xmm::SingleClassHMM::initParametersToDefault/initMeans* in "+HS)],
 ["class prior, transition, states; training events"])

prop("C17","A class's trained parameters depend only on its own data and configuration",
 "For every training set, model kind and configuration, the parameters learned for a class are the same whether training is sequential, parallel or in background, whether the class is trained alone or with others, whatever the other classes contain, whatever the order of phrase indices' insertion, and however often or in which sequence training was called before. Training with a set leaves exactly its classes in the model; training one label changes that class only. Training never modifies the training set, which may be destroyed afterwards.",
 ["histories","configurations"],"all histories up to a depth of train(set)/train(set,label)/remove/clear with several small sets in all three threading modes, each final class compared with one trained alone from scratch",
 "The suite trains each model once, in one order, and cannot compare histories.",
 [MO,SC,GM,HM],[("per-class training from class subset","xmm::Model::train in "+MO)],
 ["class parameters; size(); getters"])

prop("C18","The class set of a model follows its train, remove and clear history",
 "After any history of training, adding single classes, removing, clearing, resetting, loading and invalid calls, a model's size, class names, class lookup and trained flag are exactly those of a plain list of its trained classes, results vectors have one entry per class in that order, and every class keeps its own parameters. Removing a class does not change the parameters of the remaining ones, nor, after a reset, their individual outputs where these do not depend on the class priors. Calls naming an absent class raise an exception and change nothing; filtering an untrained model or with a frame of wrong size raises an exception.",
 ["histories"],"all operation histories up to a depth over three labels for both probabilistic model kinds",
 "The suite trains once and then only filters.",
 [MO,GM,HM],[("class map management","xmm::Model::train/removeClass/clear/addModelForClass/reset in "+MO)],
 ["size(), models, results"])

prop("C19","Copied or assigned models are equal to and independent of their source",
 "A model that is copied or assigned from another has the same configuration, classes and parameters and, after a reset, the same outputs on any frames; later changes to either one's parameters, training, filtering state or existence are not observable through the other, and each uses its own settings. This holds whatever both objects contained before, for self assignment, and for chains of copies. No such history leaks or touches freed memory.",
 ["histories","configurations"],"all histories up to a depth over two models of copy construction, assignment both ways, shared-parameter changes, retraining, filtering, removal and destruction, for every model kind",
 "The suite copies models once to compare with a JSON reload, and never modifies or destroys the source.",
 [MO,SC,GM,GS,HM,HS,KM],[("copy of model and of its classes","copy constructor/assignment of xmm::Model and single classes")],
 ["configuration, filter results; memory-safety instrumentation"])

prop("C20","Reset makes a model forget all previously filtered frames",
 "After a reset, the results a model reports for any frame sequence are the same as those of a freshly loaded identical model, regardless of what was filtered before, how often it was reset, and whether results were read. Filtering itself never alters the trained parameters or configuration, and repeating the same sequence after a reset reproduces identical results. Training and loading also leave the model in the reset state.",
 ["histories","configurations"],"all filter/reset interleavings up to a depth over a small frame alphabet, for each model kind, topology, hierarchy and estimator",
 "The suite filters one sequence once.",
 [GM,GS,HM,HS,MO],[("reset of buffers and forward state","reset() of all models")],
 ["filter() results"])

prop("C21","Training events obey one complete, ordered protocol per training run",
 "Whatever the threading mode and thread schedule, every training run emits for each class being trained zero or more progress reports with strictly increasing iteration numbers followed by exactly one terminal event (done, error or cancelled) and nothing afterwards; then, once every class has terminated, exactly one overall completion event, which is the last event of the run. Each event names the class it concerns. When the completion event is delivered, or training is reported finished by a foreground call, the classes are in their final state and the model is ready for filtering.",
 ["schedules","configurations","histories"],"all thread interleavings up to a preemption bound, for 1..3 classes, all threading modes and successful, failing and cancelled classes, including consecutive runs",
 "The tests run with whatever schedule the machine happens to produce; the threading tests are not part of the stable suite and only sleep and print.",
 [MO,SC,EV],[("event emission","xmm::SingleClassProbabilisticModel::train in "+SC),("completion","xmm::Model::onTrainingEvent/joinTraining in "+MO)],
 ["training event listener"])

prop("C22","Background training is safe against every concurrent call, on any schedule",
 "While a model is training in background, every other public call on the model (other than from a class event listener, and other than changing its settings, its listeners or the training set in use) either completes correctly or is refused with an exception, on every thread schedule: no data race, deadlock, crash or use of freed memory, and the training in progress produces the same classes as a foreground run. The model reports itself as training, and not as trained, from the start of the run until it is ready, and always eventually reports that it no longer is. A new run, a reset, filtering, a copy or a configuration change then works as if training had been in the foreground.",
 ["schedules","programs"],"all interleavings up to a preemption bound of background training of 1..2 classes with each public operation issued from the main thread",
 "No deterministic test can choose the schedule; the stable suite contains no concurrent test.",
 [MO,SC,SCH],[("training flag and counters","xmm::Model::is_training_/models_still_training_ in "+MO),("training mutex","SingleClassProbabilisticModel in "+SCH)],
 ["public API; race and lifetime instrumentation"])

prop("C23","Cancelling training, or destroying a model that trains, is always clean",
 "Cancelling a background training (all classes or one) at any moment returns with the cancelled classes no longer running, each cancelled class ends with a single terminal event and is absent from the model unless it had completed, a class cancelled while it has iterations left stops instead of running them, the other classes complete normally, and the model finally reports that it is no longer training and is usable again. Removing a class, clearing or destroying a model during training likewise ends its training first. No schedule deadlocks, crashes, races or leaves a thread running on destroyed objects.",
 ["schedules","fault_sequences"],"all interleavings up to a preemption bound of cancel-all, cancel-one, remove, clear and destroy with the training of 1..2 classes, from every point of the run",
 "Cancellation points depend on the schedule; no stable test cancels.",
 [MO,SC],[("cancel flag","xmm::SingleClassProbabilisticModel::cancelTraining in "+SC),("cancelTraining and joinTraining","xmm::Model in "+MO)],
 ["training(), events, size(); race and lifetime instrumentation"])

prop("C24","A class whose training fails is dropped and the others are unaffected",
 "If training a class is impossible (empty phrases, too little data, non-invertible covariance, or a phrase whose dimensions or modalities are not those of the set), then in every threading mode that class produces one error event and is not part of the model afterwards, while every other class is trained exactly as if the failing one had not been in the set, and the model can be filtered, retrained, copied and saved immediately. A training call that is refused as a whole raises an exception and leaves the model as it was and not in training.",
 ["histories","configurations","fault_sequences"],"all assignments of good and failing data to 1..3 classes, failing kinds, model kinds and threading modes, with every short follow-up history",
 "The suite trains only on valid data.",
 [MO,SC,GS,HS],[("error handling in training","xmm::SingleClassProbabilisticModel::train in "+SC),("dropping of failed classes","xmm::Model::joinTraining in "+MO)],
 ["events, size(), filter()"])

prop("C25","K-means clustering ends in a valid partition and filters to nearest centre",
 "For every data set and number of clusters, the trained centres are, unless the iteration limit was reached, a fixed point of Lloyd's iteration from the chosen initialisation: each centre is the mean of the frames nearest to it. Filtering returns, for any frame, the distances to all centres and the index of a nearest one. Copied, assigned and retrained clusterings behave identically and independently, training on an empty set changes nothing, and filtering an untrained clustering or a frame of the wrong size is refused with an exception.",
 ["inputs","configurations","histories"],"all data sets of up to 6 frames over a value alphabet, 1..3 clusters, both initialisation modes, and short copy/train/filter histories",
 "No test covers k-means directly.",
 [KM,KP],[("Lloyd iteration","xmm::KMeans::train/updateCenters in "+KM),("filter","xmm::KMeans::filter in "+KM)],
 ["centers, results"])

prop("C26","Per-class settings override global ones for that class and no other",
 "For every sequence of global and per-class configuration changes, a class is trained with its own settings if it has any and with the global settings otherwise; settings of one class are never used for another, and removing an override restores the global settings at the next training. Copying, assigning or saving and reloading a configuration preserves every setting and override, and changing the settings of one model never affects another's.",
 ["histories","configurations"],"all sequences up to a depth of global changes, per-class overrides, resets of overrides, copies, JSON reloads and training, for two labels and every setting",
 "The suite sets global parameters once before training.",
 [CF,MO,GP,HP],[("configuration lookup","xmm::Configuration in "+CF),("configuration passed to classes","xmm::Model::train/addModelForClass in "+MO)],
 ["parameters of trained classes"])

prop("C27","Every event reaches every registered listener exactly once",
 "For every history of registering and removing listeners, by the application or by the listeners themselves while an event is delivered, each listener that is registered when an event is sent, and is not removed before its turn, hears it exactly once with its content unchanged, and no other listener hears it; an owner that registers twice hears it once. Copies of a generator have a list of their own. Phrases, whether new, copied, assigned or reloaded, notify every change of their label once, with the new label in place. A model keeps its listeners when it is read again from JSON, and a copied or assigned model takes those of its source.",
 ["histories"],"all histories of adding, removing, replacing and sending with up to three listeners of which one acts during the delivery, on generators, phrases and models",
 "No test registers a listener.",
 [EV,PH,MO],[("delivery","xmm::EventGenerator::notifyListeners in "+EV),("label change","xmm::Phrase::onAttributeChange in "+PH),("training events","xmm::Model::onTrainingEvent in "+MO)],
 ["public API; listeners that count"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
