import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RU="src/learning/toolkit/rand_utils.rs"
p("C01","Shuffles conserve their elements, whatever the generator does",
 "fisher_yates returns, and in_place_fisher_yates leaves behind, exactly the multiset of elements it was given: nothing lost, duplicated, altered or taken from uninitialised memory, for every length (0 and 1 included), element type and random stream; fisher_yates leaves its input slice unchanged. If the random generator fails (panics) part-way through an in-place shuffle, the slice is still a rearrangement of the original elements, each owned exactly once. Both finish after a bounded number of steps once the generator yields ordinary values.",
 ["inputs","fault_sequences","histories"],"every slice (length, type, contents), every stream of values out of the thread generator incl. extreme and rejected draws, a generator failure at every draw, every content of freshly allocated memory, every history of earlier calls",
 "tests/doc-tests shuffle one 5- or 10-element integer slice under one arbitrary stream and check containment only; no failure of the generator, no owned element types, no fresh-memory content is ever varied",
 [RU],[("fisher_yates inside-out loop over an uninitialised vector",RU+":55"),("in_place_fisher_yates swap loop",RU+":96")],["return value / the slice after the call","drop counts of owned elements"])
p("C02","Shuffles are unbiased",
 "When the thread generator yields independent uniform values, fisher_yates and in_place_fisher_yates produce every ordering of the input with equal probability, for every input length, and successive shuffles are independent of one another and of the contents of the slice.",
 ["inputs","histories"],"every input length, contents and number of earlier calls, over the law of the generator",
 "unit tests look at one outcome and only check containment; a law over outcomes needs thousands of controlled streams",
 [RU],[("range of each draw (i+1, n-i)",RU+":66,103")],["frequency of orderings, positions, fixed points, adjacencies, cycles over many simulated streams"])
p("C03","Reservoir sampling returns k distinct pool entries for any stream",
 "reservoir_sample(pool, k) returns exactly k entries drawn from k different positions of the pool (all of the pool when k equals its length, none when k is 0), unaltered and without changing the pool, for every random stream and every history of earlier calls. It panics exactly when k exceeds the pool's length (or when the generator itself fails), never returning fewer or repeated positions.",
 ["inputs","fault_sequences","histories"],"every pool, every k, every stream of draws incl. extreme values and generator failure at every draw",
 "the one unit test checks the length of a single sample of 3 out of 7",
 [RU],[("reservoir replacement r < reservoir_size",RU+":34"),("length assert",RU+":17")],["return value","pool after the call"])
p("C04","Reservoir sampling is unbiased",
 "When the thread generator yields independent uniform values, reservoir_sample(pool, k) selects every set of k positions of the pool with equal probability, for every pool length and every k, and successive samples are independent.",
 ["inputs","histories"],"every pool length, k and number of earlier calls, over the law of the generator",
 "a single outcome cannot show a law; the unit test checks the length only",
 [RU],[("gen_range(0, ele_seen) with ele_seen counted from 1",RU+":26")],["frequencies of subsets, inclusion and pair inclusion over many simulated streams"])
G="src/stats/dist/gaussian.rs"; X="src/stats/dist/exponential.rs"
p("C05","Random draws follow the distribution the object describes",
 "Values drawn from a Gaussian or Exponential with an ordinary generator follow the law given by its parameters, which is also the law its own pdf, logpdf and cdf describe (Gaussian cdf to within its documented 0.003), in the body and in the tails, whichever constructor made it. No draw is NaN or outside the support (an Exponential is never negative) whatever the generator yields, and the sequence of draws depends only on the parameters and the state of the generator passed in: sample and ind_sample agree, repeating from the same generator state repeats the values, and changing mean/std-dev/rate only shifts and scales them.",
 ["inputs","histories"],"all parameters over many orders of magnitude, all generator streams (ordinary and extreme), all histories of earlier draws",
 "doc-tests evaluate pdf/logpdf/cdf at one point each; nothing ever draws a sample",
 [G,X],[("mean + std_dev * n",G+":159"),("n / lambda",X+":114"),("constructors keep variance and std_dev in step",G+":49"),("pdf/logpdf/cdf",G+":65"),("pdf/logpdf/cdf",X+":54")],["values returned by sample/ind_sample/pdf/logpdf/cdf"])
p("C06","Concurrent callers do not disturb each other's random results",
 "Shuffles, reservoir samples and distribution draws (including several threads sharing one distribution object) made by several threads at once give each caller exactly what it would have got running alone with its own generator, under every interleaving and whatever other callers did before, including when another caller's generator fails mid-call.",
 ["schedules","fault_sequences","histories"],"every interleaving at basic-block granularity of 2 to 4 caller threads, every placement of a generator failure in one of them",
 "tests call each function from a single thread; no test controls an interleaving",
 [RU,G,X],[("no shared mutable state between calls; thread-local generator",RU+":24,57,98")],["results of each simulated caller thread vs its solo run"])
SH="src/data/transforms/shuffle.rs"
p("C07","The Shuffler permutes whole rows uniformly and repeatably",
 "Shuffler::transform returns a matrix of the same shape holding exactly the input's rows, each intact, in an order that is uniform over all orderings when the generator is, for every number of rows and columns and every stream. Its order is a function of the state of the generator it was given only, so equal seeds replay equal orders, and successive transforms by one Shuffler continue its generator rather than repeat.",
 ["inputs","histories","fault_sequences"],"every matrix shape, every stream of the supplied generator (extreme values, failure at any draw), every history of transforms",
 "tests shuffle two small matrices with one seed and compare the shape / one outcome",
 [SH],[("row swap loop over gen_range(0, n-i)",SH+":80")],["matrix returned by transform"])
CV="src/analysis/cross_validation.rs"
p("C08","k-fold validation partitions the samples exactly and pairs rows with targets",
 "In k_fold_validate every sample is in the test set of exactly one of the k folds and in the training set of all the others, fold sizes differ by at most one, and every row handed to train/predict/score keeps its own target, for every sample count, every 2 <= k <= samples and every random stream; exactly k scores come back, in fold order. With an ordinary generator every assignment of samples to folds of those sizes is equally likely.",
 ["inputs","fault_sequences","histories"],"all n, k, random streams (ordinary and extreme), histories of earlier validations",
 "unit tests pin the fold index arithmetic for two sizes and never see a shuffled data set or pairings",
 [CV,RU],[("ShuffledIndices + Folds + Partition",CV+":62-180")],["arguments the model's train/predict and the score function receive"])
p("C09","k-fold validation reports a model's failure and stops",
 "If the model's train or predict fails in some fold, k_fold_validate returns that very error, makes no further call on the model or the score function, and returns no scores; a failure never turns into a score and never goes missing.",
 ["fault_sequences"],"a failure of train or predict in any fold at any n and k, in any mixture",
 "no test makes a model fail",
 [CV],[("try! on train/predict",CV+":45")],["result of k_fold_validate; calls observed by the model"])
L="src/learning/"
p("C10","A failed training leaves the model as it was",
 "If train (or fit) on a model that was trained before returns an error, or panics because a random generator, user-supplied kernel, mean function, initializer, distribution, search structure, cost or linear-algebra step failed, the model still answers predict (and reports its learned parameters) exactly as it did before that call; if the model had never been trained it still refuses to predict. This holds for every supervised and unsupervised model, neural networks and PCA included.",
 ["fault_sequences","histories","inputs"],"a failure at every point a callback, random draw or linear-algebra routine can fail, for every model and every earlier history",
 "tests train each model once on good data; no failure is ever injected during training",
 [L+"gmm.rs",L+"naive_bayes.rs",L+"k_means.rs",L+"pca.rs",L+"gp.rs",L+"svm.rs",L+"lin_reg.rs",L+"logistic_reg.rs",L+"glm.rs",L+"knn/mod.rs",L+"dbscan.rs",L+"nnet/mod.rs"],[("fields assigned only once all fallible steps are done",L+"gp.rs:170"),("train returning Err",L+"naive_bayes.rs:77")],["predict before and after the failing call"])
p("C11","Retraining supersedes earlier training",
 "After a successful train, predictions and reported learned parameters are those of a freshly constructed, identically configured model trained on the same data with the same random stream, whatever the model was trained on before (other shapes included) and whatever failed or succeeded in between. (Neural networks, which document no reset, continue from their current weights and are exempt.)",
 ["histories","inputs","fault_sequences"],"all histories of trainings, failed trainings, predictions and setter calls before the last training",
 "tests train each model object once",
 [L+"gmm.rs",L+"naive_bayes.rs",L+"k_means.rs",L+"pca.rs",L+"gp.rs",L+"svm.rs",L+"lin_reg.rs",L+"logistic_reg.rs",L+"glm.rs",L+"knn/mod.rs",L+"dbscan.rs"],[("train overwrites every learned field",L+"pca.rs:130")],["predict of the retrained model vs a fresh one"])
p("C12","A model answers predict only when trained",
 "predict on a never successfully trained model returns an error (never a panic or made-up values), and after a successful train on ordinary data predict on rows of the trained width succeeds with one answer per row, for every model, however trainings, failed trainings, predictions and predictions that fail (in a user-supplied kernel, say) interleave. (A neural network answers from its initial weights before training, a DBSCAN model answers while it is set predictive and gives an error while it is not, and a Gaussian mixture trained without regularization may report an error, never panic, when a component has collapsed.)",
 ["histories","fault_sequences"],"all sequences of train / failing train / predict on each model",
 "a handful of tests predict on an untrained model; none interleave failures",
 [L+"k_means.rs",L+"gmm.rs",L+"svm.rs",L+"gp.rs",L+"glm.rs",L+"lin_reg.rs",L+"logistic_reg.rs",L+"naive_bayes.rs",L+"dbscan.rs",L+"knn/mod.rs",L+"pca.rs"],[("Error::new_untrained",L+"error.rs:50")],["result of predict"])
p("C13","K-means initializers return k valid starting centroids for any stream",
 "For every finite data set with at least k distinct rows and every random stream, Forgy and KPlusPlus start from k different rows of the data (k distinct points for KPlusPlus) and RandomPartition from the means of k non-empty groups that partition all the rows; with an ordinary generator Forgy chooses every set of k rows equally often, RandomPartition sends each row beyond the first of each group to every group equally often and independently, and KPlusPlus picks each next row with probability proportional to its squared distance from the nearest chosen one. Too few rows, or squared distances that overflow or are undefined, give an error or panic in bounded time, never a made-up centroid.",
 ["inputs","fault_sequences","histories"],"all data sets, k and streams incl. extreme draws and draw rounding",
 "unit tests pin sample_discretely for one draw and fit one data set",
 [L+"k_means.rs",RU],[("Forgy / RandomPartition / KPlusPlus init_centroids, sample_discretely",L+"k_means.rs:215-330")],["centroids returned by Initializer::init_centroids"])
p("C14","K-means ends in a consistent, no worse clustering from any start",
 "For any starting centroids and any random stream, a trained k-means model has k finite centroids, predict labels every row with its nearest centroid, each further iteration does not increase the within-cluster sum of squares, a cluster that lost all its rows keeps a finite centroid, and with enough iterations the non-empty clusters' centroids are the means of the rows assigned to them (up to the 1e-14 change of cost at which training stops), never exceeding the iteration limit.",
 ["inputs","fault_sequences"],"all data sets, k, iteration limits, initializers (user-supplied ones included) and random streams",
 "tests fit one well separated data set and check the labels",
 [L+"k_means.rs"],[("fit loop: update_centroids / get_closest_centroids",L+"k_means.rs:80-200")],["centroids() and predict() after training with 1,2,3.. iterations"])
p("C15","Gaussian mixture training improves the likelihood and keeps valid parameters",
 "For any random stream and finite data set, training starts from as many different rows as there are components, each row equally often, and either reports an error (a component collapsed onto too few rows) or leaves a Gaussian mixture whose every iteration was one expectation-maximization step from the one before, with mixing weights that are non-negative and sum to one, finite means and symmetric covariances, and each row of predict is a probability distribution over the components; each further EM iteration without regularization does not decrease the data's log-likelihood (as computed from the model's own parameters). Starting weights that are negative or not one per component are refused.",
 ["inputs","fault_sequences"],"all random starts (stream of the reservoir sample), data sets, component counts, covariance options and iteration limits",
 "tests check one hand-made mixture's shape and error paths",
 [L+"gmm.rs"],[("membership_weights / update_params",L+"gmm.rs:180-330")],["mixture_weights, means, covariances, predict"])
GD=L+"optim/grad_desc.rs"
p("C16","Stochastic optimisers visit each sample once per pass, correctly paired",
 "In every pass StochasticGD, AdaGrad and RMSProp hand the cost function each training sample exactly once, as a single row together with its own target, in an order that is uniform when the generator is; they make exactly the configured number of passes (or stop after the first pass whose mean cost equals the previous one's, zero counting as the cost before the first); and each update follows the documented rule for that algorithm from the gradient just received.",
 ["inputs","fault_sequences","histories"],"all data sets, pass counts, parameters and random streams",
 "tests optimise one quadratic and check the end point",
 [GD,RU],[("in_place_fisher_yates of the indices each pass",GD+":170-330")],["the (params, inputs, targets) sequence given to compute_grad and the returned parameters"])
p("C17","Batch optimisers stay bounded and never end worse than they began",
 "GradientDesc and ConjugateGD call the cost function a bounded number of times set by their configuration (iters; 1 + iters * (1 + max)), for any cost function including ones that return NaN, infinities or inconsistent gradients at any call, and return parameters of the starting length; ConjugateGD returns a point at which it computed the cost and which, on a finite cost, is not worse than the start, and GradientDesc stops as soon as the cost changes by less than its tolerance.",
 ["fault_sequences","inputs"],"all cost surfaces and all faults (NaN/inf/discontinuity) of the cost function at any call",
 "tests optimise one smooth quadratic",
 [GD,L+"optim/fmincg.rs"],[("iteration loop and tolerance",GD+":80"),("line-search limits",L+"optim/fmincg.rs:70-200")],["calls made to the user's Optimizable; returned parameters and cost"])
NN=L+"nnet/mod.rs"
p("C18","Networks start from the documented random law and keep layers apart",
 "A new network's Linear layers get weights drawn independently from a zero-mean normal law with variance 2/(fan-in + fan-out), the bias input counting towards fan-in, for any layer sizes and in every way of constructing the network, each layer using its own consecutive block of the parameters; forward, weights and training hand each layer exactly its own block with its own input, the gradient the optimiser receives is the derivative of the summed cost of the rows plus that of the regularization, and a failing layer or optimiser leaves the weights unchanged.",
 ["inputs","fault_sequences","histories"],"all layer stacks, random streams, and failures of any layer at any call",
 "tests build one fixed network and compare one forward pass",
 [NN,L+"nnet/net_layer.rs"],[("Linear::default_params Xavier init",L+"nnet/net_layer.rs:120"),("weight slicing by num_params",NN+":330-430")],["parameters/inputs the layers receive; network outputs"])
CM="src/analysis/confusion_matrix.rs"
p("C19","Confusion matrix is independent of hash seeds and conserves counts",
 "confusion_matrix counts every (prediction, target) pair exactly once: entry (i,j) is the number of samples whose target is the i-th and prediction the j-th label, its total is the number of samples, and rows/columns are in sorted label order (or the given order), whatever the process's hash-table seed, hasher quality or order of first appearance of the labels.",
 ["inputs","fault_sequences","configurations"],"all label sequences, all hash seeds, degenerate Hash implementations",
 "tests run under whatever random hash seed the process got, on two label sequences",
 [CM],[("HashMap label index",CM+":70-110")],["returned matrix"])
p("C20","Models can be shared and trained from several threads without interference",
 "Several threads predicting with one shared trained model, and threads training separate models (or cross-validating, shuffling, fitting transformers) at the same time, each get exactly the result they would get alone with the same data and generator, under every interleaving and also when another thread's training fails.",
 ["schedules","fault_sequences","histories"],"all interleavings (basic-block granularity) of 2 to 4 threads over every model, all failure points in one of them",
 "tests are single-threaded per model object",
 [L+"k_means.rs",L+"gmm.rs",L+"svm.rs",L+"gp.rs",L+"naive_bayes.rs",L+"knn/binary_tree.rs",NN,RU],[("predict(&self) without interior mutability; no global state",L+"mod.rs")],["results of each simulated thread vs its solo run"])
T="src/data/transforms/"
p("C21","Fitted transformers survive rejected batches and invert what they applied",
 "Fitting maps the data's column minima and maxima (means and standard deviations) onto the configured ones, and no rows, non-finite values, an overflowing range or, for a Standardizer, a constant column are rejected; a Normalizer gives rows of unit norm and leaves zero rows alone. A MinMaxScaler, Standardizer or Normalizer that rejects a batch (wrong width, non-finite values) returns an error and afterwards transforms and inverts exactly as before; transforming, in any order and any number of times, never changes the fitted parameters; and inv_transform of a transformed batch gives the batch back up to rounding.",
 ["histories","fault_sequences","inputs"],"all histories of fit, transform, inverse transform and rejected batches, norm/linear-algebra failures at any call",
 "tests transform one batch after one fit",
 [T+"minmax.rs",T+"standardize.rs",T+"normalize.rs"],[("fit then transform; Error on bad batches",T+"minmax.rs:120")],["matrices and errors returned by fit/transform/inv_transform"])
p("C32","Every call comes back",
 "Every train, predict, transform, optimise, validate and initialize call returns (a result, an error or a panic) within a number of steps bounded by the sizes of its arguments, and within a stack that does not grow with the number of rows, for any data (duplicate or neighbouring rows, NaN, infinities, extremes, no rows), any number of clusters, folds, neighbours and any leaf size, any failures of user-supplied parts and any random stream that is ordinary eventually; an answer covers every row asked about.",
 ["inputs","fault_sequences","histories"],"all data, configurations, failures of callbacks and streams",
 "tests run on small ordinary data and would hang or crash the test process rather than fail",
 [L+"knn/binary_tree.rs",L+"dbscan.rs",L+"k_means.rs",L+"gmm.rs",L+"optim/fmincg.rs",GD,RU,L+"svm.rs",L+"glm.rs"],[("tree splitting on equal rows",L+"knn/binary_tree.rs:283"),("retry and line-search loops",L+"k_means.rs:291"),("cluster expansion",L+"dbscan.rs:173")],["that the call ends, and after how many simulated steps"])
SV=L+"svm.rs"
p("C33","Support vector machines are trained by Pegasos on any stream",
 "SVM training makes exactly optim_iters steps; step t (from 1) draws one training row, every row equally often and independently of earlier draws when the generator is uniform, and adds one to that row's weight exactly when its target times the sum over all rows of weight * target * kernel with that row, divided by lambda * t, is below one. Rows get a leading bias entry of one before any kernel sees them, and predict is the sign of the sum of weight * target * kernel over the training rows. This holds for every kernel, lambda, row count and random stream and for every history of earlier (also failed) trainings; a failing generator never yields a successful training.",
 ["inputs","fault_sequences","histories"],"all kernels, targets, lambdas, step counts and random streams",
 "no test trains an SVM on more than four rows, and none looks at its weights",
 [SV],[("Pegasos loop over gen_range(0, n)",SV+":155-180"),("sign of kernel expansion",SV+":128-150")],["calls of a user-supplied kernel; predictions made to tell the weights"])
p("C34","What a call gives depends on its arguments and its draws only",
 "Training with predictions, validating, shuffling, sampling, drawing, initializing, scaling, optimising and counting give bit for bit the same results and errors, and use equally many random draws, when repeated with equal arguments and an equal random stream: whatever the hash seeds, the contents of fresh memory, the clock, the number of processors, the stack and the thread are, and whatever other calls, failed ones included, the process or thread made before.",
 ["histories","fault_sequences","configurations"],"all pairs of process states and all histories of earlier calls",
 "tests run each call once in whatever state the process is in",
 ["src/learning/mod.rs","src/analysis/confusion_matrix.rs","src/analysis/cross_validation.rs",L+"dbscan.rs",L+"k_means.rs",L+"gmm.rs",L+"nnet/mod.rs",GD,RU],[("no hash order, clock, static or uninitialised memory in any result","src/learning/mod.rs"),("HashMap label index","src/analysis/confusion_matrix.rs:70-110")],["results of every call, repeated in two simulated process states"])
p("C35","User-supplied parts may use the library while it calls them",
 "A kernel, mean function, initializer, class distribution, search structure, link criterion, cost, layer, optimiser or score function that, while the library calls it, itself trains, asks (the very model it belongs to included), validates, shuffles, samples or scales gets what it would get outside, also when its own use of the library fails, and the outer call goes on and ends exactly as if it had not: no state is shared between a call and those made within it, and no lock or borrow is held over a call of user-supplied code.",
 ["schedules","fault_sequences","histories"],"all pairs of calls, nested at any call of a user-supplied part",
 "tests only use built-in parts, which never call back",
 [SV,L+"gp.rs",L+"k_means.rs",L+"naive_bayes.rs",L+"knn/mod.rs",L+"glm.rs",L+"logistic_reg.rs",L+"nnet/mod.rs",GD,L+"optim/fmincg.rs","src/analysis/cross_validation.rs"],[("callbacks called with no shared scratch state","src/learning/mod.rs")],["results of the nested and of the outer call vs the same calls made apart"])
p("C36","A row's answer does not depend on the company it is asked in",
 "Every trained model's predict, and every fitted scaler's transform and inverse, answers a row alike (labels exactly, numbers up to rounding) whether it is asked about alone or in a batch, whatever other rows come with it (repeated, in any order, not finite, extreme), however many there are, and whatever was asked, or asked and failed, before.",
 ["histories","inputs","fault_sequences"],"all ways of dividing questions into batches and all histories of questions",
 "tests ask one batch once",
 [L+"k_means.rs",L+"gmm.rs",SV,L+"gp.rs",L+"naive_bayes.rs",L+"knn/mod.rs",L+"dbscan.rs",L+"pca.rs",L+"glm.rs",L+"lin_reg.rs",L+"logistic_reg.rs",L+"nnet/mod.rs",T+"minmax.rs",T+"standardize.rs",T+"normalize.rs"],[("predict row by row",L+"mod.rs")],["answers of predict/transform for single rows and batches"])
p("C37","Models hand their user-supplied parts their own data and use what comes back",
 "The parts a user may supply are asked about the model's own data, and what they answer is what the model uses: every training of naive Bayes updates a new distribution with exactly its classes' rows, each class once, and predicts the class for which that distribution's answers, given the classes' shares as priors, are largest; KNN has its search structure built with its rows and asked for its k, and answers a most frequent label of the neighbours found; a Gaussian process's mean and covariance, asked before or after training, are those of its kernel (sums and products of kernels included), mean function and noise on its rows; logistic regression has its optimiser called once with its rows behind a leading one, its targets, a start and a cross-entropy cost and adopts what it returns; generalised linear models settle on the parameters that balance the score equations of their link, variance and weights; k-means starts from its initializer's centroids; a Normalizer divides each row by its norm. An error or panic of a part is the call's own, no failure is lost, and none of this depends on earlier, also failed, trainings and questions.",
 ["inputs","fault_sequences","histories"],"all parts, data, histories and failures at any call of a part",
 "tests train the provided parts once, on tidy data, and look at predictions only",
 [L+"naive_bayes.rs",L+"knn/mod.rs",L+"gp.rs",L+"logistic_reg.rs",L+"lin_reg.rs",L+"glm.rs",L+"k_means.rs",L+"toolkit/kernel.rs",T+"normalize.rs"],[("from_model_params, update_params, joint_log_lik",L+"naive_bayes.rs"),("build, search and vote",L+"knn/mod.rs"),("IRLS",L+"glm.rs"),("ker_mat, posterior",L+"gp.rs")],["calls of recording parts and their answers; predictions, posteriors, parameters"])
p("C38","Calls leave nothing behind, however often they are made and however they end",
 "The memory the library holds does not grow with the number of calls made: once a call's result and the model it belongs to are dropped nothing of the call stays allocated, and a model that is trained and asked over and over with the same arguments and draws holds no more after many rounds than after a few, wherever calls succeed, return errors or panic (in the random generator, a user-supplied part or a linear-algebra step). This holds for trainings, questions, validations, shuffles, samples, draws, scalings, optimisations and counts. (Room that stays the same however often a call is made is fine.)",
 ["inputs","fault_sequences","histories"],"all histories of calls, arguments and failures at any point of them",
 "tests make a few calls each and measure no memory",
 [RU,L+"dbscan.rs",L+"gp.rs",L+"svm.rs",L+"nnet/mod.rs",L+"knn/binary_tree.rs",GD,"src/analysis/cross_validation.rs","src/analysis/confusion_matrix.rs"],[("buffers, copies of the training data and learned state",L+"*.rs"),("copies of each fold's rows","src/analysis/cross_validation.rs")],["bytes allocated and not freed by the thread, after each round of calls"])
PURE="pure function of its arguments: no random draw, callback failure, schedule, clock or I/O the simulator could vary"
def na(id,title,stmt,files,mech,obs):
    p(id,title,stmt,["inputs"],"every input in the domain","example-based tests sample a few points; the claim is for all inputs",files,mech,obs)
na("C22","Kernels are symmetric and positive semi-definite","Every provided kernel that is documented as a kernel gives k(x,y)=k(y,x) and positive semi-definite Gram matrices for admissible parameters; sums and products of kernels combine values pointwise.",[L+"toolkit/kernel.rs"],[("kernel formulas",L+"toolkit/kernel.rs")],["kernel values"])
na("C23","Activation gradients and inverses match the functions","For Sigmoid, Linear, Exp and Tanh func_grad is the derivative of func, func_grad_from_output(func(x)) equals func_grad(x), and func_inv inverts func on its range.",[L+"toolkit/activ_fn.rs"],[("formulas",L+"toolkit/activ_fn.rs")],["function values"])
na("C24","Cost and regularization gradients match their costs","Cost functions' and regularizations' gradients are the derivatives of their values.",[L+"toolkit/cost_fn.rs",L+"toolkit/regularization.rs"],[("formulas",L+"toolkit/cost_fn.rs")],["values and gradients"])
na("C25","Scores equal their textbook definitions","accuracy, precision, recall, F1 and negative mean squared error return the textbook value for every input and panic or error on mismatched lengths.",["src/analysis/score.rs"],[("formulas","src/analysis/score.rs")],["scores"])
na("C26","Nearest-neighbour structures agree with brute force","KD-tree and ball-tree searches return neighbours at the same distances as brute force for every data set, query and k.",[L+"knn/mod.rs",L+"knn/binary_tree.rs",L+"knn/brute_force.rs"],[("tree pruning",L+"knn/binary_tree.rs")],["search results"])
na("C27","DBSCAN clusters are the density-connected components","Training labels core points by density-connected component, border points by a neighbouring core point's cluster and all others as noise.",[L+"dbscan.rs"],[("expand_cluster",L+"dbscan.rs")],["clusters()"])
na("C28","GP, linear and generalised linear predictions solve their equations","On well-posed data Gaussian-process, linear, logistic and GLM predictions satisfy the model's estimating equations.",[L+"gp.rs",L+"lin_reg.rs",L+"glm.rs",L+"logistic_reg.rs"],[("closed forms / IRLS",L+"lin_reg.rs")],["predictions and coefficients"])
na("C29","PCA components are orthonormal and ordered","PCA's components are orthonormal, ordered by explained variance, and predict projects centred data on them.",[L+"pca.rs"],[("svd of centred data",L+"pca.rs")],["components(), predict"])
na("C30","Naive Bayes predicts the maximum posterior class","Naive Bayes estimates priors and per-class parameters from the counts and moments and predicts the class with the largest posterior.",[L+"naive_bayes.rs"],[("joint_log_lik",L+"naive_bayes.rs")],["predictions, class_prior"])
na("C31","Bundled datasets are complete","The iris and trees data sets load with the documented shapes and values.",["src/datasets/iris.rs","src/datasets/trees.rs"],[("literals","src/datasets/iris.rs")],["data(), target()"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    for n in x['statement'].split('. '): pass
print(len(P))
