"""Single source for properties.jsonl and MANIFEST.json (python tools/admin.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, state=state))


ALGOS = ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py",
         "torchiva/five.py", "torchiva/beamformer.py", "torchiva/wpe.py"]

prop("C01", "Batched processing equals processing every item alone",
     "Every separation, extraction, beamforming, dereverberation, transform, scaling and convolution operation accepts "
     "leading batch dimensions of any number and size, and its result for an item of the batch is the result it gives for "
     "that item alone. The contents of the other items never influence it, and no input tensor is modified.",
     ["inputs", "configurations"],
     "all operations, channel counts, batch layouts and contents of the other batch items",
     "the tests run one or two batch shapes and compare shapes or losses, not items; leakage needs particular neighbours",
     ALGOS + ["torchiva/stft.py", "torchiva/scaling.py", "torchiva/utils.py", "torchiva/fftconvolve.py", "torchiva/nn.py"],
     [("einsum / matmul over the last axes only", "torchiva/linalg.py, torchiva/t_iss.py"),
      ("broadcast of the demixing matrices over the batch", "torchiva/auxiva_ip.py")],
     ["returned tensors"],
     "real code on every enumerated layout; batches up to 3 items and 2 leading dimensions")

prop("C02", "A call depends only on its own arguments, never on earlier calls",
     "Calling a separator, dereverberation, beamforming or end-to-end object repeatedly, with any mixture of shapes, "
     "precisions, overridden parameters, failing calls and backward passes, gives for each call the result a fresh object "
     "gives. Earlier results, input tensors, the configuration and the weights of the object stay unchanged.",
     ["histories"],
     "all call histories on one object, or on two objects that share a source model",
     "tests construct an object and call it once; residue of a previous call shows only in sequences of particular calls",
     ALGOS + ["torchiva/base.py", "torchiva/models/classic.py", "torchiva/nn.py"],
     [("reset of stateful source models per call", "torchiva/t_iss.py, torchiva/wpe.py, torchiva/models/classic.py"),
      ("per call parameters resolved into locals", "torchiva/base.py:_set_params")],
     ["returned tensors", "object attributes", "state_dict"],
     "all histories up to depth 3 over 7 call kinds on the real objects")

prop("C03", "Parameters given per call act exactly like constructor parameters",
     "For every algorithm, a parameter passed to a call overrides the constructor value for that call only and has "
     "exactly the effect it has when given to the constructor, also for falsy values such as zero or False. Parameters "
     "given at neither place take the documented default, and a request for more sources than channels is refused.",
     ["configurations", "inputs"],
     "all algorithms, all subsets of overridden parameters and value pairs",
     "tests pass parameters at one place with a handful of values; wrong precedence for one subset or for a falsy value goes unseen",
     ["torchiva/base.py"] + ALGOS,
     [("_set_params: call value unless None", "torchiva/base.py")],
     ["returned tensors", "raised errors"],
     "all subsets of the parameters of each algorithm in both directions")

prop("C04", "Demixing-matrix checkpointing changes neither outputs nor gradients",
     "Turning on demixing-matrix checkpointing changes only memory use: the outputs, the gradients with respect to the "
     "input and those with respect to every model parameter equal the ones of plain back-propagation for every size, "
     "number of iterations, dereverberation setting, projection back and source model without memory.",
     ["configurations", "inputs"],
     "all configurations of the iterative separation with stateless source models",
     "the existing gradient test runs one configuration; the reversal of an update can be wrong for particular taps, delays or channel counts only",
     ["torchiva/t_iss.py"],
     [("custom backward that inverts the updates", "torchiva/t_iss.py")],
     ["returned tensors", ".grad of input and parameters"],
     "full configuration product up to 4 channels, 3 taps, 3 iterations")

prop("C05", "Projected-back sources add up to the reference microphone",
     "When as many sources as channels are separated without dereverberation and projected back onto a microphone, the sources sum to the "
     "signal of that microphone, whatever the number of iterations and the source model. Projections onto different "
     "microphones are the same sources up to one complex gain per source and frequency.",
     ["inputs", "configurations"],
     "all determined configurations, reference microphones, iteration counts and signals of full rank",
     "tests only look at SDR of one sample with the first microphone",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py"],
     [("projection back", "torchiva/t_iss.py, torchiva/auxiva_ip.py, torchiva/linalg.py")],
     ["returned tensors"],
     "invariant evaluated on every enumerated configuration and all reference microphones")

prop("C06", "No iteration makes the separation objective worse",
     "For the super-Gaussian and the Gaussian source model, running an iterative separation algorithm for one more "
     "iteration never increases the negative log-likelihood of the demixing filters, from any input signal and for any "
     "number of channels, frequencies, frames and dereverberation taps.",
     ["inputs", "configurations", "histories"],
     "all iteration prefixes from all enumerated signals",
     "tests check the final SDR on one recording after many iterations; a single non-monotone update is hidden",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py"],
     [("majorization-minimization updates", "torchiva/t_iss.py, torchiva/auxiva_ip.py, torchiva/auxiva_ip2.py")],
     ["returned tensors after n and n+1 iterations"],
     "every prefix of up to 8 iterations for each enumerated initial state; likelihood evaluated by an independent oracle")

prop("C07", "T-ISS computes the published iterative source steering updates",
     "The joint dereverberation and separation by iterative source steering returns, for every number of channels, "
     "sources, taps, delay, iterations, reference microphone and source model, exactly the signals the published update "
     "rules give, including the background channels of the over-determined case and the regularization of the package.",
     ["inputs", "configurations"],
     "all configurations and signals on which the update rules are well posed",
     "tests check shapes and SDR; an index, sign or delay error in one branch leaves them green",
     ["torchiva/t_iss.py", "torchiva/linalg.py"],
     [("demixing, background and dereverberation updates", "torchiva/t_iss.py")],
     ["returned tensors"],
     "lock-step comparison with a loop-form reference model on full configuration products and a complete lattice of small signals")

prop("C08", "AuxIVA-IP, OverIVA-IP and IP2 compute the published updates",
     "Separation by iterative projection, its over-determined variant and its pairwise variant for two channels return, for "
     "every number of channels, sources, iterations, reference microphone and source model, exactly the signals the "
     "published update rules give. The pairwise variant gives the same separation at any signal level and in single precision.",
     ["inputs", "configurations"],
     "all configurations and signals on which the update rules are well posed",
     "tests check shapes and SDR of one recording",
     ["torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/linalg.py"],
     [("iterative projection updates", "torchiva/auxiva_ip.py"), ("background orthogonality", "torchiva/auxiva_ip.py"),
      ("generalized eigenvectors of two covariances", "torchiva/auxiva_ip2.py")],
     ["returned tensors"],
     "lock-step comparison with a loop-form reference model and LAPACK")

prop("C09", "FIVE extracts the published maximum-SINR source",
     "Single source extraction by maximum signal-to-interference-and-noise ratio returns, for every number of channels, "
     "iterations, power iterations, reference microphone and source model, the signal the published algorithm gives on "
     "whitened input. Without a reference microphone it is returned unscaled.",
     ["inputs", "configurations"],
     "all configurations and signals on which the algorithm is well posed",
     "tests check the shape and SDR of one recording",
     ["torchiva/five.py", "torchiva/linalg.py"],
     [("whitening, smallest eigenvector or power method, projection back", "torchiva/five.py")],
     ["returned tensors"],
     "lock-step comparison with a loop-form reference model")

prop("C10", "Dereverberation subtracts exactly the delayed linear prediction",
     "Dereverberation returns the input minus the weighted least-squares prediction of each channel from the frames at "
     "the configured delay and taps, for every number of channels, taps, delay, frames and iterations. The frames that have no "
     "past within the filter are returned unchanged.",
     ["inputs", "configurations"],
     "all configurations and signals with a well-posed prediction",
     "tests check that the call returns the right shape",
     ["torchiva/wpe.py", "torchiva/linalg.py"],
     [("delayed frame matrix and loaded normal equations", "torchiva/wpe.py"), ("hankel_view", "torchiva/linalg.py")],
     ["returned tensors"],
     "lock-step comparison with a loop-form reference model plus invariants")

prop("C11", "Beamformers compute the textbook filter of the masked covariances",
     "Each mask-based beamformer (minimum variance distortionless response from covariances or relative transfer function, "
     "maximum SNR, multichannel Wiener) applies the textbook filter of the covariances weighted by its target and noise "
     "masks, for every mask, reference microphone, number of sources, level and length of the signal. Silent frequencies give "
     "finite output.",
     ["inputs", "configurations"],
     "all beamformer variants, masks, reference microphones, signal levels",
     "tests run one configuration and compare shapes",
     ["torchiva/beamformer.py", "torchiva/linalg.py"],
     [("covariance, filter computation, application", "torchiva/beamformer.py")],
     ["returned tensors"],
     "lock-step comparison with a LAPACK-based reference model on full products and every short mask pattern")

prop("C12", "Eigenvalue decompositions are valid for every Hermitian matrix",
     "The plain and generalized Hermitian eigenvalue decompositions return real eigenvalues in ascending order with "
     "eigenvectors that satisfy the eigen equation and are orthonormal (with respect to the second matrix when given), for "
     "every Hermitian matrix including diagonal, degenerate, singular and null ones, at every scale and in both precisions.",
     ["inputs"],
     "all Hermitian matrices, and pairs with a positive definite second matrix",
     "tests use random matrices, which are never diagonal, degenerate or null",
     ["torchiva/linalg.py"],
     [("closed-form 2x2 decomposition and whitening", "torchiva/linalg.py")],
     ["returned tensors"],
     "complete lattices of small-integer matrices")

prop("C13", "Short-time transform is invertible and matches its definition",
     "The short-time Fourier transform computes the windowed discrete Fourier sums for every transform size, hop, window "
     "and signal length, and its inverse returns the original samples wherever the overlap-add condition holds, for every "
     "batch shape and precision and for windows given by name, array or tensor.",
     ["inputs", "configurations"],
     "all transform parameters, lengths and signals",
     "tests use a few sizes with one named window",
     ["torchiva/stft.py"],
     [("window selection, synthesis window, overlap-add", "torchiva/stft.py")],
     ["returned tensors"],
     "basis of the signal space for every enumerated parameter set (the map is linear)")

prop("C15", "FFT convolution equals direct convolution",
     "Convolution computed by FFT equals the direct sum for every pair of lengths, output mode, axis, precision and "
     "broadcast batch shape.",
     ["inputs", "configurations"],
     "all operand lengths, modes, axes and contents",
     "tests compare a few random pairs",
     ["torchiva/fftconvolve.py"],
     [("padding to the full length and centring", "torchiva/fftconvolve.py")],
     ["returned tensors"],
     "all pairs of unit impulses determine the bilinear map for every enumerated length pair")

prop("C16", "Scale restoration rescales each source to best match the reference",
     "Both scale restoration functions multiply each source by one complex gain per frequency that best matches the "
     "reference microphone, in the least-squares sense or for the requested mixed norm. The result does not depend on the scale at which the sources arrive, "
     "and each iteration of the mixed-norm version does not increase the distortion.",
     ["inputs", "configurations"],
     "all sources, references, norm exponents and iteration counts",
     "tests check shapes and one norm",
     ["torchiva/scaling.py"],
     [("minimum_distortion, minimum_distortion_l2_phase, lpq weights", "torchiva/scaling.py")],
     ["returned tensors"],
     "defining equations and reference model on every enumerated configuration")

prop("C17", "Selecting the most energetic signals keeps whole signals in energy order",
     "Selecting the most energetic signals returns exactly the requested number of complete, unmodified input signals, "
     "the ones with the largest energy in descending order, independently for every batch item, whatever the channel "
     "axis, data type and level of the signals.",
     ["inputs", "configurations"],
     "all energy orders, counts, axes, batch shapes",
     "the tests do not check the selection at all",
     ["torchiva/utils.py"],
     [("sort by energy and gather", "torchiva/utils.py")],
     ["returned tensors"],
     "every permutation and tie pattern up to 5 signals; extreme levels and energy ratios")

prop("C14", "End-to-end separator equals transform, configured algorithm, inverse transform",
     "The end-to-end separator returns, for every algorithm, transform setting, parameter set, source model (object, "
     "description or default), batch shape and signal length, one waveform per source of exactly the length of the input. It "
     "equals transforming the input, applying the equally configured algorithm and transforming back, with zeros after the "
     "last sample the inverse transform covers, and unknown algorithms are refused. Iterations or sources set on the object hold from the next call.",
     ["inputs", "configurations", "histories"],
     "all algorithms, constructor parameter products, transform settings and lengths",
     "tests use one length and default parameters; a parameter that does not reach the algorithm or a length off by some samples is unseen",
     ["torchiva/nn.py", "torchiva/stft.py", "torchiva/utils.py"],
     [("routing of the constructor parameters", "torchiva/nn.py"), ("padding to the input length", "torchiva/nn.py")],
     ["returned tensors"],
     "real code against the explicit composition on full parameter products and every length in a range")

prop("C18", "The model cache never serves a wrong or partial model",
     "Loading a pre-trained model from a URL either fails or yields exactly the weights and settings published at that URL, "
     "whatever network faults, process crashes, concurrent loads and loads of other URLs happened before. After any such "
     "history a load with a working server succeeds, and a model loaded once needs no network again.",
     ["fault_sequences", "crash_points", "schedules", "histories"],
     "all fault sequences, crash points in the download, interleavings of two loads, URL pairs",
     "the test downloads from the internet once; faults, crashes and races are never exercised",
     ["torchiva/loader.py"],
     [("download to a temporary file and atomic rename", "torchiva/loader.py"), ("cache folder derived from the whole URL", "torchiva/loader.py")],
     ["loaded separator", "cache folder"],
     "real code with scratch home folder, loopback server, line-level crash injection and scheduler",
     state=[("model cache", "downloaded weights and configuration per URL", "~/.torchiva_models")])

prop("C19", "Saved separators load back identically, with exactly the requested changes",
     "A separator whose weights and configuration were saved loads back, by folder or by file names, as a separator with the "
     "same weights, settings and outputs; extra parameters change exactly the settings they name, as if given at construction. "
     "Missing or wrong paths are refused, and loading neither changes the files nor influences later loads.",
     ["configurations", "histories"],
     "all algorithms, models, settings, override subsets, file presence patterns and load histories",
     "the tests load one model and check nothing about its settings",
     ["torchiva/loader.py", "torchiva/nn.py", "torchiva/utils.py"],
     [("configuration update and state dict", "torchiva/loader.py"), ("instantiate", "torchiva/utils.py")],
     ["loaded separator", "files"],
     "real files in a scratch folder, all subsets of up to two overrides")

prop("C20", "The separate command writes every result to its own file and nothing else",
     "For every input file the separate command writes exactly one output, at the corresponding place, with the sampling rate and length of "
     "the input and the samples the separator configured by the options gives for this file alone, whatever other files "
     "are processed. Inputs and unrelated files are never modified, and impossible requests are refused before writing.",
     ["inputs", "configurations", "histories"],
     "all file layouts, output locations, option values and pairs, command sequences",
     "the tests run one command per algorithm and do not look at the outputs",
     ["torchiva/separate.py"],
     [("listing of inputs and construction of output paths", "torchiva/separate.py"), ("options to separator parameters", "torchiva/separate.py")],
     ["file tree", "samples"],
     "real command in a scratch folder; all subsets of a set of files, all option pairs",
     state=[("file system", "inputs and outputs", "scratch folder")])

prop("C21", "Source models compute their defining weights and masks",
     "The super-Gaussian and Gaussian models return the inverse of their defined source activity, bounded by their "
     "regularization; the factorization model returns the inverse of a positive low-rank model whose divergence from the "
     "power spectrogram no update increases; the neural models compute the masks defined by their parameters. All of "
     "them accept any batch shape and return positive real weights of the shape of the input.",
     ["inputs", "configurations", "histories"],
     "all models, settings, shapes, levels and spectrograms, all numbers of factorization updates",
     "tests use the models inside an algorithm only",
     ["torchiva/models/classic.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py"],
     [("forward of each model", "torchiva/models")],
     ["returned tensors"],
     "lock-step comparison with reference models built from the checkpoint parameters",
     state=[("factors", "state of the factorization across iterations", "torchiva/models/classic.py")])

prop("C22", "Concurrent calls on one object do not disturb each other",
     "Two threads that call the same separator, beamformer, transform or model object, or two objects that share a "
     "source model without memory, at the same time each get the result they would get alone, whatever the interleaving.",
     ["schedules"],
     "all interleavings of two calls",
     "tests are single threaded",
     ALGOS + ["torchiva/nn.py", "torchiva/stft.py", "torchiva/models/glu.py"],
     [("all working data in locals", "torchiva/*.py")],
     ["returned tensors"],
     "line-level scheduler, all schedules with one preemption, a grid with two")

prop("C23", "Silent, repeated or very short signals give finite output of the right shape",
     "Every algorithm returns finite output of the documented shape for signals with silent channels, frequencies or "
     "passages, identical or proportional channels, few frames and extreme levels, in both precisions. Silence in gives "
     "silence out, and a silent frequency stays silent. A silent microphone does not change what FIVE, WPE and the "
     "beamformers obtain from the other microphones.",
     ["inputs", "configurations"],
     "all patterns of silence and repetition, levels, lengths",
     "tests use one recording and random noise, which are never degenerate",
     ALGOS + ["torchiva/linalg.py", "torchiva/scaling.py", "torchiva/nn.py"],
     [("regularized solves and divisions", "torchiva/linalg.py")],
     ["returned tensors"],
     "all subsets of silent channels, frequencies and blocks, all copy patterns of channels; silent channels removed by hand as oracle")

prop("C24", "Linear algebra helpers equal their definitions on every kind of matrix",
     "The regularized solvers and inverses, complex products, magnitudes, Hermitian transposes, diagonal loading and "
     "sliding-window views equal their definitions for real and complex operands of any batch shape, precision and memory "
     "layout, including conjugated views and singular matrices, and preserve the shape. The conversions between real and "
     "complex types keep the precision.",
     ["inputs"],
     "all small matrices, operand kinds and layouts",
     "tests cover the eigenvalue decompositions of random matrices only",
     ["torchiva/linalg.py", "torchiva/dtypes.py"],
     [("the helper functions", "torchiva/linalg.py"), ("precision preserving conversions", "torchiva/dtypes.py")],
     ["returned tensors"],
     "complete lattices of small matrices; all operand kinds")

prop("C25", "Separation commutes with the symmetries of the signal model",
     "Permuting the frequencies, permuting the frames (without dereverberation), rotating the phase or the sign of a "
     "frequency, conjugating the signal or changing its level transforms the output of every algorithm in the same "
     "way. Algorithms without channel order also commute with permutations of the channels. Dereverberation and mask-based beamformers treat every frequency alone.",
     ["inputs", "configurations"],
     "all elements of the symmetry groups, all algorithms",
     "tests never relate two runs",
     ALGOS,
     [("updates per frequency with weights shared across frequencies", "torchiva/*.py")],
     ["returned tensors"],
     "all permutations of 4 frequencies, rotations and transpositions of frames, all channel permutations")

prop("C26", "Results depend on the values given, not on their storage or on global settings",
     "The result of an operation is the same for every memory layout of the same values (strided, transposed, expanded, "
     "conjugated), with and without gradient recording, for every default precision and random seed, and for copied, "
     "pickled or reloaded objects. The result has the precision of the input, the input is never modified, and the "
     "process-wide settings and random generators of the user are left alone.",
     ["inputs", "configurations"],
     "all operations, storages, settings, kinds of copies",
     "tests use freshly allocated contiguous tensors and the defaults",
     ALGOS + ["torchiva/linalg.py", "torchiva/stft.py", "torchiva/models/glu.py", "torchiva/models/blstm.py"],
     [("out-of-place operations, new tensors typed after the input", "torchiva/*.py")],
     ["returned tensors"],
     "full product of operations, storages and settings")

prop("C27", "Gradients equal the derivatives of the outputs",
     "The gradients obtained by back-propagation through every algorithm, transform, scaling, source model and matrix "
     "function equal the derivatives of the outputs with respect to the input and to the model parameters, and stay finite "
     "when a part of the signal (frames, a channel, an item of the batch) is digital silence.",
     ["inputs", "configurations"],
     "all operations and coordinate directions",
     "one test checks gradients of one update",
     ALGOS + ["torchiva/linalg.py", "torchiva/nn.py", "torchiva/scaling.py"],
     [("differentiable operations", "torchiva/*.py")],
     [".grad"],
     "every coordinate direction of small inputs and parameters against central differences")

prop("C28", "Memory held for results and gradients does not grow with iterations or calls",
     "With demixing matrix checkpointing, T_ISS stores for each additional iteration only demixing filters, whose size depends "
     "neither on the number of frames nor on the size of the source model, and the peak of the backward pass grows by no "
     "frame dependent amount per iteration. Without gradients, the memory used by any separator does not depend on the number of iterations. "
     "Once the results of calls are released, with or without gradients, after a backward pass or a failure, no separator, transform, scaling or model "
     "retains more tensor memory than before these calls (the NMF model: than after its last plain call).",
     ["histories", "configurations"],
     "all numbers of iterations, configurations and call histories",
     "no test measures memory; a retained graph or buffer changes no output and shows only in long sessions",
     ALGOS + ["torchiva/base.py", "torchiva/nn.py", "torchiva/models/classic.py"],
     [("checkpoint of every iteration", "torchiva/t_iss.py"), ("detached state kept in the object", "torchiva/t_iss.py, torchiva/base.py")],
     ["allocations reported by torch.profiler"],
     "all configurations and call words up to the bound on the real code, exact byte account",
     )

prop("C29", "An exported training run loads back as the trained separator",
     "Exporting any run of the training scripts, with one checkpoint or an ensemble of several, writes a model folder that the loader "
     "turns into the separator that was trained: the same algorithm and settings, the mean of the weights of exactly the requested epochs, "
     "the same output for the same input.",
     ["configurations", "inputs"],
     "all algorithms, source models, settings and lists of epochs",
     "the training scripts have no tests",
     ["examples/export_model.py", "examples/test.py", "examples/separation_model.py", "torchiva/loader.py", "torchiva/nn.py"],
     [("average of the checkpoints", "examples/test.py:load_ensemble_model"), ("written configuration", "examples/export_model.py")],
     ["files of the exported model", "outputs of the loaded separator"],
     "all configurations and epoch lists up to the bound on the real scripts; the Lightning library is a stand-in")

prop("C30", "Training batches are complete, aligned, and clipped at the chosen percentile",
     "The training data pipeline serves every batch of every loader exactly once per epoch in round robin order, also around "
     "interrupted epochs; a crop has the requested length, lies in the signal and is centered where the sources overlap; mixture and reference "
     "of an example stay aligned in time and refer to the chosen microphone for every channel permutation; collating pads with zeros only. "
     "Gradients are scaled down to the chosen percentile of all norms so far and never otherwise changed.",
     ["histories", "inputs", "schedules"],
     "all loader lengths, interruption points, crops, permutations, words of gradient norms",
     "the training scripts have no tests",
     ["examples/dataloader.py", "examples/autoclip_module.py"],
     [("rotation of the loaders", "examples/dataloader.py:InterleavedLoaders"), ("crop", "examples/dataloader.py:compute_interval"),
      ("history of norms", "examples/autoclip_module.py")],
     ["batches", "gradients"],
     "all schedules and random draws up to the bound on the real scripts")

prop("C31", "Every computation takes place on the device of its input",
     "A separator, beamformer, model, transform or function given tensors on an accelerator, with its own parameters moved there by .to(device), "
     "computes there: no operation mixes tensors of the device and of the host, results and gradients live on the device of the input and have "
     "the values computed on the host. This holds as well for an object used alternately on several devices, for loaded separators, and for the "
     "separate command with --device.",
     ["configurations", "histories"],
     "all modes, models and sequences of devices; the continuous integration has no accelerator",
     "tests run on the host only",
     ALGOS + ["torchiva/linalg.py", "torchiva/scaling.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/models/classic.py", "torchiva/separate.py"],
     [("constants created in the updates", "torchiva/auxiva_ip.py, torchiva/t_iss.py, torchiva/linalg.py"),
      ("window as buffer", "torchiva/stft.py:STFT"), ("decompositions on the host", "torchiva/linalg.py:eigh_wrapper, torchiva/five.py"),
      ("transfers of the command", "torchiva/separate.py:separate_one_file")],
     ["device and values of results and gradients"],
     "all configurations and device sequences up to the bound on the real code, under a dispatcher that simulates an accelerator")

prop("C32", "Training follows the best assignment; validation leaves no trace",
     "The loss of a training batch is the mean over its items of the negative signal-to-distortion ratio of the best assignment between the "
     "references and as many of the most energetic outputs, over their common length, of the separation of the configured number of channels; its "
     "gradient, clipped at the chosen percentile of all norms so far, is what the optimiser follows. A validation epoch reports the mean loss of "
     "its batches and changes no weight, gradient, statistic, clipping history or random state of the training run.",
     ["histories", "inputs", "configurations"],
     "all sequences of training batches and validation epochs, all orders and levels of the outputs, all algorithms",
     "the training scripts have no tests; residue of a validation shows only in the training steps after it",
     ["examples/separation_model.py", "examples/autoclip_module.py", "torchiva/utils.py", "torchiva/nn.py"],
     [("loss", "examples/separation_model.py:compute_metrics"), ("hooks of the trainer", "examples/separation_model.py:WSJModel"),
      ("selection of outputs", "torchiva/utils.py:select_most_energetic")],
     ["loss", "logged metrics", "gradients", "weights", "optimiser state"],
     "all histories up to depth 4 on the real training model; the Lightning trainer is a stand-in")

prop("C33", "The evaluation script scores and stores every utterance it was asked for",
     "For every command line, the evaluation script processes the requested number of mixtures of the requested split with the requested "
     "channels, source model, algorithm, window and number of iterations, or with the mean of the requested checkpoints. It stores each source "
     "in a wave file of its own with the output closest to it, and the scores, tables and summary are those of exactly these files.",
     ["configurations", "inputs"],
     "all numbers of mixtures, limits, splits, channels, models, algorithms, windows and lists of checkpoints",
     "the evaluation script has no tests",
     ["examples/test.py", "examples/dataloader.py", "torchiva/nn.py"],
     [("loop over the data set", "examples/test.py"), ("assignment of outputs to sources", "examples/test.py"), ("attributes of the separator", "torchiva/nn.py:BSSSeparator.forward")],
     ["wave files", "result, summary and table files"],
     "all command lines of the stated grid on the real script with synthetic audio")

P.sort(key=lambda p: p["id"])
