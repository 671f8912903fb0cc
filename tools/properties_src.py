"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/properties_src.py)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/hookeai/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop('C01', 'Model checkpoints: a load restores exactly what was last saved under it',
     'After any sequence of saves and loads of model states (initial, numbered epoch, unnumbered default, best), loading a state restores exactly the parameters most recently saved under it and reports its epoch, "last" is the highest saved epoch, and at most one best state exists, the most recently saved one. '
     'Saving or loading an epoch discards only the numbered states of later epochs of the same model (and only when discarding is requested), never the initial, default or best state, nor any file of another model in the same directory. '
     'Loading a state that does not exist raises an error and neither changes the model nor removes any file.',
     ['histories'], 'all histories of save/load calls over several models sharing a directory, all state kinds, epochs and discard flags',
     'No existing test touches checkpoint files; the guarantee ranges over all save/load histories and model names.',
     ['model_architectures/procedures/model_state_files.py', 'model_architectures/procedures/model_training.py'],
     [('save_model_state', 'model_architectures/procedures/model_state_files.py'), ('load_model_state', 'model_architectures/procedures/model_state_files.py'), ('save_training_state', 'model_architectures/procedures/model_training.py')],
     ['model directory contents', 'model parameters after load', 'returned epoch'])

prop('C02', 'Training: epochs run, histories, checkpoints and best state are consistent',
     'A training run of n maximum epochs performs epochs 0 to n inclusive (unless stopped), each one updating the parameters once per batch (with the gradient of the loss of that batch alone) and recording one loss (the mean over its batches) and one learning rate in the saved history. '
     'Exactly the epochs that are multiples of the saving period plus the final epoch are kept as numbered states, and the best state on disk is the parameters at the end of the last epoch attaining the minimum recorded loss; the returned best loss and epoch are that minimum and its first occurrence. '
     'Resuming from a stored state starts from exactly those parameters, and two runs with the same seed are identical.',
     ['inputs', 'configurations', 'histories'], 'all loss sequences (including ties), batch sizes, epoch counts, save periods, learning-rate schedules, resume points and model families (recurrent network, recurrent constitutive, hybrid)',
     'No training test exists in the repository; the outcome depends on the full loss history.',
     ['model_architectures/rnn_base_model/train/training.py', 'model_architectures/rc_base_model/train/training.py', 'model_architectures/hybrid_base_model/train/training.py', 'model_architectures/procedures/model_training.py'],
     [('train_model', 'model_architectures/rnn_base_model/train/training.py'), ('train_model', 'model_architectures/rc_base_model/train/training.py'), ('save_loss_history', 'model_architectures/procedures/model_training.py')],
     ['model directory', 'loss_history_record.pkl', 'returned (model, best_loss, best_epoch)'])

prop('C03', 'Early stopping and convergence stopping follow their declared criteria',
     'With early stopping, the validation loss is evaluated exactly at the epochs that are multiples of the validation frequency, training stops at the first evaluation where the count of consecutive insufficient improvements reaches the trigger tolerance, and the final and best stored states are then the parameters at the lowest validation loss. '
     'The validation history has one entry per epoch up to the last evaluation (gaps repeat the previous value), and evaluating it leaves training parameters and stored checkpoints unaffected. '
     'With parameter convergence stopping, training stops exactly when the most recent trigger-tolerance changes of every parameter are below tolerance and the history is longer than the required minimum.',
     ['histories', 'configurations'], 'all validation loss sequences and parameter histories, frequencies, trigger and improvement tolerances',
     'No existing test; the decision depends on the whole history.',
     ['model_architectures/rnn_base_model/train/training.py', 'model_architectures/rc_base_model/train/training.py', 'model_architectures/hybrid_base_model/train/training.py'],
     [('EarlyStopper', 'model_architectures/rnn_base_model/train/training.py'), ('check_model_parameters_convergence', 'model_architectures/rc_base_model/train/training.py')],
     ['returned stop decisions', 'validation loss history', 'stored states'])

prop('C04', 'Time-series data sets: one abstract behaviour in memory and on disk',
     'For every sequence of operations (adding or concatenating, removing or renaming features, reading, saving, loading, copying, moving, overwriting) the sample at index i is the one the same operations on a plain list of samples would give, whether the data set is kept in memory or as files. '
     'On disk the number of sample files is the length of the data set, a saved and reloaded (or moved) data set has the same samples in the same order, and an operation that produces a new data set never alters its source.',
     ['histories', 'configurations'], 'all operation sequences on data sets of any size and both storage kinds, including directory relocation',
     'No existing data set tests; equivalence is over operation histories.',
     ['time_series_data/time_dataset.py'],
     [('TimeSeriesDataset', 'time_series_data/time_dataset.py'), ('concatenate_dataset_features', 'time_series_data/time_dataset.py')],
     ['dataset[i]', 'len(dataset)', 'sample files'])

prop('C05', 'Splitting and k-folds partition the data; seeds reproduce them',
     'Splitting a data set by fractions yields subsets with the prescribed sizes in which every sample occurs exactly once over all subsets, and the same seed always reproduces the same split. '
     'In k-fold cross-validation every sample is used exactly once for testing over the folds, and never both to train and to test in the same fold. '
     'Data loading delivers every sample exactly once per pass, in data set order unless shuffling is requested.',
     ['inputs', 'configurations'], 'all data set sizes, fraction vectors, fold counts, seeds and batch sizes',
     'No existing test; leakage-free splits must hold for all sizes and fractions.',
     ['time_series_data/time_dataset.py', 'model_architectures/rnn_base_model/train/cross_validation.py', 'miscellaneous/dataset_processing/tsdataset_splitter.py'],
     [('split_dataset', 'time_series_data/time_dataset.py'), ('kfold_cross_validation', 'model_architectures/rnn_base_model/train/cross_validation.py'), ('get_time_series_data_loader', 'time_series_data/time_dataset.py')],
     ['subset indices', 'fold sizes'])

prop('C06', 'Prediction: every sample exactly once, under its own id, for any batch size',
     'Predicting a non-empty data set writes exactly one result per sample, result i holding the model output and ground truth of sample i in physical units, with the same contents for any batch size. '
     'The reported average loss is the mean of the per-sample losses (none if ground truth is missing), prediction leaves stored model states untouched, and each prediction goes to a new results folder, never overwriting an earlier one.',
     ['inputs', 'configurations', 'histories'], 'all data set sizes, batch sizes, normalization settings, and repeated predictions',
     'No existing prediction test.',
     ['model_architectures/rnn_base_model/predict/prediction.py', 'model_architectures/rc_base_model/predict/prediction.py', 'model_architectures/hybrid_base_model/predict/prediction.py', 'model_architectures/procedures/model_prediction.py'],
     [('predict', 'model_architectures/rnn_base_model/predict/prediction.py'), ('make_predictions_subdir', 'model_architectures/procedures/model_prediction.py')],
     ['prediction_sample_*.pkl', 'returned average loss'])

prop('C07', 'Data scaling: transform and inverse are mutual inverses, fitted on the data',
     'A scaler fitted on data (min-max, mean-std, or constant scalings) maps that data to the prescribed range or to zero mean and unit deviation per feature, and inverse transform undoes transform (and vice versa) for every tensor; for a feature that is constant in the data, transforms stay finite and the inverse returns its data value. '
     'Fitting on a data set gives the same statistics whatever the batching used to read it, transforms never modify their input, and the fitted scaling survives saving and re-initializing the model.',
     ['inputs', 'configurations'], 'all finite data tensors (sequence, batch), scaling kinds and ranges, batch sizes',
     'No existing scaler tests.',
     ['utilities/data_scalers.py', 'utilities/fit_data_scalers.py', 'model_architectures/procedures/model_data_scaling.py'],
     [('TorchMinMaxScaler', 'utilities/data_scalers.py'), ('TorchStandardScaler', 'utilities/data_scalers.py'), ('fit_data_scalers', 'model_architectures/procedures/model_data_scaling.py')],
     ['transform / inverse_transform', 'fitted minimum/maximum/mean/std'])

prop('C08', 'von Mises plasticity: stress on or inside the hardening yield surface, exactly',
     'Along every strain path the elastic model gives the linear elastic stress of the total strain, and the von Mises models (isotropic and mixed hardening) give the stress, elastic strain, accumulated plastic strain and back stress of the backward-Euler return mapping: elastic while the trial stress is inside the current yield surface, otherwise exactly on the updated one. '
     'Accumulated plastic strain never decreases, total strain is the sum of elastic and plastic strain with plastic strain volume-preserving, and the plastic flag is raised exactly on plastic increments. '
     'The elastic stiffness of every declared elastic symmetry is that of its independent moduli, an update never modifies the state it starts from, and an update that cannot be solved is reported as failed.',
     ['inputs', 'histories', 'configurations'], 'all strain paths (loading, unloading, reversal, any increment size), hardening laws and material parameters, 3D and plane strain',
     'No existing test runs a plastic material model.',
     ['simulators/fetorch/material/models/standard/elastic.py', 'simulators/fetorch/material/models/standard/von_mises.py', 'simulators/fetorch/material/models/standard/von_mises_mixed.py', 'simulators/fetorch/material/models/standard/hardening.py'],
     [('VonMises.state_update', 'simulators/fetorch/material/models/standard/von_mises.py'), ('VonMisesMixed.state_update', 'simulators/fetorch/material/models/standard/von_mises_mixed.py'), ('get_hardening_law', 'simulators/fetorch/material/models/standard/hardening.py')],
     ['state variables returned by the state update'])

prop('C09', 'Pressure-dependent plasticity: cone/apex return onto the yield surface',
     'Along every strain path the Drucker-Prager model returns a stress inside or exactly on the current cone, using the smooth cone return when the returned deviatoric stress is admissible and otherwise the apex return, with the corresponding dilatancy and accumulated plastic strain. '
     'The Lou-type model with its pressure- and third-invariant terms switched off reproduces the von Mises response, and in general leaves the stress inside or on its yield surface; accumulated plastic strain never decreases, plane strain is the three-dimensional response with no out-of-plane strain, and permuted strain axes give permuted responses.',
     ['inputs', 'histories', 'configurations'], 'all strain paths including tension towards the apex, all cohesion/friction/dilatancy parameters',
     'No existing test.',
     ['simulators/fetorch/material/models/standard/drucker_prager.py', 'simulators/fetorch/material/models/standard/lou.py'],
     [('DruckerPrager.state_update', 'simulators/fetorch/material/models/standard/drucker_prager.py'), ('LouZhangYoon.state_update', 'simulators/fetorch/material/models/standard/lou.py')],
     ['state variables returned by the state update'])

prop('C10', 'Vectorized material models agree with the standard ones',
     'For every material, strain path and material parameters, the vectorization-compatible version of a material model, whether called singly or mapped over a batch of points, produces the same state variables as the standard version for each point, independently of which other points share the batch.',
     ['inputs', 'histories', 'configurations'], 'all material models with both versions, strain paths, and batch compositions (elastic and plastic points mixed)',
     'No existing test.',
     ['simulators/fetorch/material/models/vmap/von_mises.py', 'simulators/fetorch/material/models/vmap/von_mises_mixed.py', 'simulators/fetorch/material/models/vmap/drucker_prager.py', 'simulators/fetorch/material/models/vmap/lou.py'],
     [('VonMisesVMAP', 'simulators/fetorch/material/models/vmap/von_mises.py'), ('DruckerPragerVMAP', 'simulators/fetorch/material/models/vmap/drucker_prager.py')],
     ['state variables of both versions'])

prop('C11', 'The consistent tangent is the derivative of the stress update',
     'For every material model that provides one and every state reached by a strain path, the tangent modulus returned by the state update is the derivative of the updated stress with respect to the strain increment; in particular it is the elastic modulus for elastic increments.',
     ['inputs', 'histories', 'configurations'], 'all reachable states, increments away from the elastic-plastic boundary, material parameters',
     'No existing test.',
     ['simulators/fetorch/material/models/standard/von_mises.py', 'simulators/fetorch/material/models/standard/von_mises_mixed.py', 'simulators/fetorch/material/models/standard/drucker_prager.py', 'simulators/fetorch/material/models/vmap/drucker_prager.py', 'simulators/fetorch/material/models/vmap/von_mises.py', 'simulators/fetorch/material/models/vmap/von_mises_mixed.py'],
     [('state_update', 'simulators/fetorch/material/models/standard/von_mises.py')],
     ['consistent tangent', 'updated stress'])

prop('C12', 'Material states: trial updates never touch committed history until commit',
     'A material state update never modifies the state it starts from, and repeating it with the same inputs gives the same result. '
     'In a finite element structure the last converged state of every element and integration point changes only when the state is committed (to exactly the current one), current and converged states are independent copies, and each element is always updated with its own constitutive model and its own state.',
     ['histories', 'configurations'], 'all interleavings of trial updates, commits, reads and re-initializations over elements and integration points',
     'No existing test of history handling.',
     ['simulators/fetorch/structure/structure_state.py', 'simulators/fetorch/material/material_su.py'],
     [('StructureMaterialState', 'simulators/fetorch/structure/structure_state.py')],
     ['element states before/after each operation'])

prop('C13', 'Finite elements: shape functions, quadrature and Jacobians are exact',
     'For every element type, each shape function is one at its own node and zero at the others, they sum to one, they reproduce every polynomial of the element order, and the reported derivatives are those of the shape functions. '
     'Each quadrature rule integrates exactly all polynomials up to its degree over the reference element, and for any affine element shape the Jacobian and its determinant are those of the map, so that integrated volumes and gradients of linear displacement fields are exact.',
     ['inputs', 'configurations'], 'all element types and quadratures, all reference points, all affinely mapped elements',
     'Existing tests sample two points per element and a single unit configuration; they do not evaluate quadrature rules.',
     ['simulators/fetorch/element/type/quad4.py', 'simulators/fetorch/element/type/quad8.py', 'simulators/fetorch/element/type/tri3.py', 'simulators/fetorch/element/type/hexa8.py', 'simulators/fetorch/element/type/tetra4.py', 'simulators/fetorch/element/integrations/internal_forces.py', 'simulators/fetorch/element/derivatives/jacobian.py'],
     [('eval_shapefun', 'simulators/fetorch/element/type/quad4.py'), ('eval_jacobian', 'simulators/fetorch/element/derivatives/jacobian.py')],
     ['shape functions', 'quadrature points/weights', 'jacobian', 'strain'])

prop('C14', 'Mesh: assembly and extraction are adjoint; configurations advance in step',
     'Extracting element data from a nodal field and assembling element contributions into the mesh address the same nodes in the same order for every connectivity, so each element contribution lands exactly once on its own nodes and shared nodes receive the sum. '
     'Each configuration update replaces only the requested configuration (coordinates are the initial ones plus the prescribed displacements, or unchanged if so requested), an advance makes the previous current configuration the last one, and the initial configuration is never altered.',
     ['inputs', 'histories', 'configurations'], 'all meshes (element types mixed, any connectivity), nodal fields and sequences of configuration updates',
     'Existing tests use one fixed mesh and one update.',
     ['simulators/fetorch/structure/structure_mesh.py'],
     [('StructureMesh', 'simulators/fetorch/structure/structure_mesh.py')],
     ['assembled mesh arrays', 'mesh configurations'])

prop('C15', 'Force-equilibrium loss equals the specified imbalance and is mode independent',
     'For every specimen history the loss is the specified sum over time steps of squared internal minus reaction forces over constrained degrees of freedom plus squared internal forces over free ones (per node or per Dirichlet boundary set), with the prescribed time weights and scaling, and it vanishes when the recorded reactions are those of the true material. '
     'The time-sequential, element-sequential and vectorized evaluation modes give the same loss for the same data.',
     ['inputs', 'histories', 'configurations'], 'all specimen displacement/reaction histories, boundary sets, weights, and evaluation modes',
     'No existing test.',
     ['material_model_finder/model/material_discovery.py'],
     [('MaterialModelFinder.forward', 'material_model_finder/model/material_discovery.py')],
     ['loss returned by the finder'])

prop('C16', 'Learnable parameters stay within bounds and drive the material model',
     'After every training step (of a constitutive model, a hybrid model or a material model finder) all learnable parameters of constitutive models and parts lie within their bounds and satisfy the declared material constraints, and the material response is computed with exactly their current physical values. '
     '(A parameter that enters the convexity constraint needs bounds that contain zero.) Normalizing and de-normalizing a parameter are mutual inverses, values already admissible are unchanged by enforcement, and reading parameters never alters them.',
     ['histories', 'inputs', 'configurations'], 'all parameter values, bounds, normalization settings and sequences of updates',
     'No existing test.',
     ['model_architectures/rc_base_model/model/recurrent_model.py', 'material_model_finder/model/material_discovery.py', 'model_architectures/hybrid_base_model/train/training.py', 'material_model_finder/utilities/torch_parameters.py'],
     [('RecurrentConstitutiveModel', 'model_architectures/rc_base_model/model/recurrent_model.py'), ('enforce_parameters_bounds', 'model_architectures/rc_base_model/model/recurrent_model.py')],
     ['model parameters', 'model output'])

prop('C17', 'Generated strain paths start at zero, obey bounds and repeat under a seed',
     'For bounds that contain zero, every generated strain path has the requested number of time points and components, starts at zero, stays within the strain bounds unless an increment norm or noise is prescribed, and is reproduced by the same seed while other seeds give other paths. '
     'Proportional paths are linear in time along a fixed direction (also with a prescribed increment norm), polynomial paths have a degree below their number of control points, components are sampled independently, prescribed increment norms are met at every loading step, and cyclic paths retrace their loading branch backwards to the initial strain with the declared number of cycles and rest there; generated noise has the declared distribution and leaves the noiseless path unchanged. Inadmissible requests are refused.',
     ['inputs', 'configurations'], 'all dimensions, bounds, path lengths, cycles and seeds',
     'No existing test.',
     ['data_generation/strain_paths/proportional_path.py', 'data_generation/strain_paths/random_path.py', 'data_generation/strain_paths/noise_generator.py'],
     [('ProportionalStrainPathGenerator', 'data_generation/strain_paths/proportional_path.py'), ('RandomStrainPathGenerator', 'data_generation/strain_paths/random_path.py')],
     ['returned strain path'])

prop('C18', 'Generated material patches have a consistent mesh and boundary conditions',
     'A generated patch has nodes labelled consecutively without gaps on its regular grid at the grid coordinates, boundary sets that are exactly the nodes on its corners, edges and faces, and, in the mesh written for the simulator, elements whose node lists are the correct corner/edge/interior nodes in the element ordering. '
     'Prescribed boundary displacements are those of the requested deformation: corners get the corner displacements (zero where constrained), edges follow the requested curve through them (straight edges interpolate them linearly) with nodes evenly spaced along it, face nodes interpolate the edges, the requested rigid rotation about the centroid and translation are superimposed, and shared nodes get one value. '
     'A patch is returned exactly when its deformed boundary is admissible (simple and correctly oriented in 2D). The same random seed reproduces the patch. Removing elements from the written mesh keeps the remaining elements, nodes, materials and prescribed displacements, relabelled in order, and is refused if a boundary node would vanish.',
     ['inputs', 'configurations'], 'all patch dimensions, element types, element counts and deformation orders',
     'No existing test.',
     ['data_generation/spdg/patch.py', 'data_generation/spdg/patch_generator.py', 'simulators/links/discretization/finite_element.py'],
     [('FiniteElementPatchGenerator', 'data_generation/spdg/patch_generator.py'), ('FiniteElementPatch', 'data_generation/spdg/patch.py')],
     ['mesh nodes, connectivities and boundary displacements'])

prop('C19', 'Tensor storage conversions are lossless and preserve products',
     'Converting a second- or fourth-order tensor (symmetric or not, 2D or 3D) to its matricial form and back returns the tensor, the matricial form preserves double contractions, and the vectorized and standard conversions agree. '
     'Reduction and expansion between 2D and 3D forms keep in-plane components in place and put the out-of-plane component where requested, and the tensorial operators satisfy their defining identities.',
     ['inputs', 'configurations'], 'all tensors, dimensions, symmetries',
     'Existing tests cover one engineering-notation routine on one tensor.',
     ['simulators/fetorch/math/matrixops.py', 'simulators/fetorch/math/tensorops.py', 'simulators/fetorch/math/voigt_notation.py'],
     [('get_tensor_mf', 'simulators/fetorch/math/matrixops.py'), ('get_tensor_from_mf', 'simulators/fetorch/math/matrixops.py')],
     ['returned arrays'])

prop('C20', 'Output folders and files are never silently overwritten',
     'Requesting a new output folder or file that already exists yields a fresh unused name (the smallest free numeric suffix) and leaves every existing folder and file intact; only an explicit overwrite request replaces a folder, and then only that one. '
     'Searching a folder for a file returns a file matching the requested pattern, with earlier patterns taking precedence, or reports that there is none.',
     ['histories'], 'all sequences of creations and deletions in a directory tree',
     'No existing test.',
     ['ioput/iostandard.py', 'model_architectures/procedures/model_prediction.py'],
     [('make_directory', 'ioput/iostandard.py'), ('new_file_path_with_int', 'ioput/iostandard.py')],
     ['filesystem'])

prop('C21', 'Hybrid models compute the declared composition of their parts',
     'A hybrid model evaluates each hybridization channel layer by layer in position order, feeding each model the output of its predecessor (or the input), joined with the model input where a residual connection is declared and converted to and from the normalized features a part works in, and combines the channels with the declared operator (first channel, or sum), independently of the order in which the parts were registered. '
     'The evaluation never modifies its input or its parts, a model rebuilt from its files computes the same, and a layout with two parts at the same place is rejected.',
     ['inputs', 'configurations', 'histories'], 'all channel/layer layouts and registration orders, all inputs',
     'No existing test.',
     ['model_architectures/hybrid_base_model/model/hybrid_model.py', 'model_architectures/hybrid_base_model/model/hybridized_layers.py', 'model_architectures/hybrid_base_model/model/hybridization.py', 'model_architectures/hybrid_base_model/model/transfer_learning.py'],
     [('HybridModel.forward', 'model_architectures/hybrid_base_model/model/hybrid_model.py')],
     ['model output'])

prop('C22', 'Recurrent networks are causal, batch independent and resumable',
     'The output of a recurrent model at a time depends only on inputs up to that time and on that sample alone, processing a sequence in consecutive pieces while carrying the hidden state gives the same outputs as processing it whole, and the custom and library implementations of the gated recurrent unit compute the same function of the same weights. '
     'The recurrent constitutive model likewise returns, for each path, the material response integrated step by step from the virgin state, whichever of its evaluation modes is used. A model rebuilt from its initialization file and a stored state computes the same as the model that was stored, in training and in evaluation mode.',
     ['inputs', 'histories', 'configurations'], 'all weights, sequences, layers, batch sizes and split points',
     'No existing test.',
     ['model_architectures/rnn_base_model/custom/gru_vmap.py', 'model_architectures/rnn_base_model/model/gru_model.py', 'model_architectures/rc_base_model/model/recurrent_model.py'],
     [('GRURNNModel.forward', 'model_architectures/rnn_base_model/model/gru_model.py'), ('RecurrentConstitutiveModel.forward', 'model_architectures/rc_base_model/model/recurrent_model.py')],
     ['model outputs'])

prop('C23', 'Derived strain and stress features are what they are named',
     'For every data set of strain-stress paths, adding a derived feature gives each sample, at each time, the first or second principal invariant of its strain (symmetric or not), the mean stress, or the traceless deviatoric stress in the component order of the path, whatever that order is and however the data set is stored; the volumetric and deviatoric parts compose back to the stress. '
     'Nothing else of the samples changes, and features that do not exist for the data are refused without effect.',
     ['inputs', 'configurations', 'histories'], 'all tensors, component orders, data set kinds and orders of addition',
     'No existing test.',
     ['model_architectures/materials/strain_features.py', 'model_architectures/materials/stress_features.py'],
     [('add_strain_features', 'model_architectures/materials/strain_features.py'), ('add_stress_features', 'model_architectures/materials/stress_features.py')],
     ['samples of the data set'])

prop('C24', 'Material parameter discovery records, stops and saves as declared',
     'The learning procedure of the material model finder performs one update per epoch from epoch 0 to the last declared epoch unless all parameters stopped changing for the declared number of epochs; it records the loss, learning rate and parameter values of every epoch, saves the states of the finder and of every material model at the declared epochs, and keeps as best state and best parameters those of the epoch with the lowest recorded loss, within bounds at all times. '
     'Running again in the same directory never mixes states of different runs.',
     ['histories', 'configurations'], 'all loss sequences, schedulers, saving frequencies, stopping rules and repeated runs',
     'No existing test.',
     ['material_model_finder/train/training.py', 'material_model_finder/model/material_discovery.py'],
     [('train_model', 'material_model_finder/train/training.py')],
     ['files of the model directory', 'returned best loss'])

prop('C25', 'Specimen files keep mesh, boundary conditions and histories through conversion',
     'Converting a simulation (mesh, prescribed displacements, nodal results of its steps) to the mesh and history files of the material model finder, converting meshes between the two simulator formats, relabelling constrained degrees of freedom and reading the files back yield exactly the coordinates, element types, connectivities, constrained degrees of freedom, displacements, reaction forces and labels of the simulation, with the steps in time order however they are numbered and nothing from files that are not steps of the specimen. '
     'Reaction forces per boundary set are the sums over the nodes of the set. Meshes with unknown element types, missing, unused or out-of-range nodes, histories with wrong sizes, and labels which are inadmissible for the declared loss are refused.',
     ['histories', 'inputs', 'configurations'], 'all meshes, element types, step numberings, labellings and sequences of conversions',
     'No existing test converts or reads a specimen.',
     ['simulators/links/utilities/links_data_to_adimu.py', 'simulators/links/utilities/links_dat_to_inp.py', 'simulators/links/utilities/links_nodedata_to_csv.py', 'user_scripts/global_model_update/material_finder/gen_specimen_data.py', 'user_scripts/global_model_update/utilities/process_specimen_data.py', 'material_model_finder/data/specimen_data.py'],
     [('gen_adimu_data_from_links', 'simulators/links/utilities/links_data_to_adimu.py'), ('get_specimen_mesh_from_inp_file, get_specimen_history_paths, get_specimen_numerical_data', 'user_scripts/global_model_update/material_finder/gen_specimen_data.py'), ('build_dirichlet_sets_reaction_history, copy_dbc_labels', 'user_scripts/global_model_update/utilities/process_specimen_data.py')],
     ['mesh, displacement, reaction and label arrays read back', 'files written', 'refusals'])

prop('C26', 'Prediction metrics, reports and losses are those of the stored predictions',
     'For every set of stored sample predictions, the errors reported per feature (MSE, RMSE, mean absolute values), their means over exactly the result files of the folder, and the arrays and time series built from them (of all or of chosen samples, of one or several models) are those of the stored predictions and ground truths of the right samples, components and time steps. '
     'Reports appended to one file are read back by number of samples, including undefined values. The losses take their declared value for all targets, including targets at or below the threshold, with a finite gradient that is their derivative. Unknown metrics, missing samples and missing ground truth are refused.',
     ['inputs', 'histories'], 'all predictions, targets (also zero), sample sets, reports and threshold treatments',
     'No existing test evaluates metrics or losses.',
     ['utilities/prediction_metrics.py', 'utilities/output_prediction_metrics.py', 'utilities/loss_functions.py', 'model_architectures/materials/process_predictions.py', 'model_architectures/procedures/model_prediction.py'],
     [('compute_prediction_metrics', 'utilities/prediction_metrics.py'), ('compute_mean_prediction_metrics, read_mean_metrics_results_file', 'utilities/output_prediction_metrics.py'), ('MeanRelativeErrorLoss.forward', 'utilities/loss_functions.py'), ('build_prediction_data_arrays, build_time_series_predictions_data', 'model_architectures/materials/process_predictions.py')],
     ['returned metrics', 'metrics read from the report file', 'loss and gradient', 'returned arrays'])

prop('C27', 'Response data set samples are the material response to their own strain path',
     'For every generated, re-computed, noisy or imported strain-stress data set, each stored stress path and each requested state feature is the response of the given material, starting undeformed, to the strain path stored in the same sample, in the component order stored with it; no sample depends on the samples before it. '
     'Paths on which the material fails are never stored: a new one is tried, and the request is refused when all trials fail. Noise is zero at the start, added in the scaled space if a scaler is given, weighted by the strain norm of the own path if heteroscedastic, and reported next to the noisy path; the noiseless data set stays as it was. '
     'Imported files are taken in the order of their number with their time, strain and stress columns; files without stress are left out, files with other columns are refused. Denoising averages over the declared window and keeps the start.',
     ['inputs', 'histories'], 'all strain paths, component orders, materials with memory, failures, noise, scalers and file sets',
     'No existing test generates a response data set.',
     ['user_scripts/synthetic_data/gen_response_dataset.py', 'user_scripts/synthetic_data/gen_noisy_response_dataset.py', 'utilities/data_denoisers.py', 'simulators/links/utilities/links_out_to_dataset.py'],
     [('MaterialResponseDatasetGenerator.compute_stress_path, generate_response_dataset, gen_response_dataset_from_csv, gen_response_dataset_from_strain_dataset', 'user_scripts/synthetic_data/gen_response_dataset.py'), ('NoisyMaterialResponseDatasetGenerator.generate_noisy_dataset', 'user_scripts/synthetic_data/gen_noisy_response_dataset.py'), ('Denoiser.denoise', 'utilities/data_denoisers.py'), ('build_dataset', 'simulators/links/utilities/links_out_to_dataset.py')],
     ['every feature of every sample of every data set', 'data sets made before', 'refusals'])

prop('C28', 'The gradient that drives discovery is the derivative of the loss',
     'For every specimen, loss type, set of learnable parameters (stored as they are or normalized), number of materials and evaluation mode with learnable materials, back-propagating the force equilibrium loss leaves in every learnable parameter the derivative of that loss by the stored value of the parameter: through every element, integration point and time step, through plastic state updates, boundary sets, force normalization, time weights and scaling, '
     'material by material. The same holds for the weights of network materials. Evaluating the loss again gives the same gradient.',
     ['inputs', 'histories'], 'all meshes, strain histories, materials, learnable parameter sets, losses and modes',
     'No existing test evaluates the finder, its loss or its gradient.',
     ['material_model_finder/model/material_discovery.py', 'model_architectures/rc_base_model/model/recurrent_model.py', 'simulators/fetorch/math/matrixops.py'],
     [('MaterialModelFinder.forward', 'material_model_finder/model/material_discovery.py'), ('RecurrentConstitutiveModel.sync_material_model_parameters', 'model_architectures/rc_base_model/model/recurrent_model.py')],
     ['gradient of every learnable parameter', 'loss value'])

prop('C29', 'Pruning removes the best predicted held-out samples and nothing else',
     'For every data set, split sizes, schedule and stopping rules, every pruning run is a history in which: the development set and the unused set always partition the full data set and a pruned sample never comes back; each pruning step trains on one part of the development set, validates on a second, tests on a third, the three parts being disjoint, covering it and sized as declared, '
     'and then moves exactly the scheduled number of samples with the lowest prediction loss among those tested to the unused set; each iteration trains, validates and tests a new model on the remaining development set and the declared test sets; a step that the minimum sizes, size ratios or the maximum pruned ratio exclude is not performed and the run stops there, and only there or at the maximum number of iterations. '
     'The reported, stored and summarised results are those of the iterations, and the given base data sets are left as they were.',
     ['inputs', 'histories'], 'all data sets, sample losses, schedules, split sizes, stopping rules and test types',
     'No existing test runs the pruning procedure.',
     ['miscellaneous/pruning/pruning_dataset.py', 'time_series_data/time_dataset.py'],
     [('prune_time_series_dataset, perform_pruning_step, set_pruning_step_dir, set_pruning_iter_dir, get_n_prun_sample', 'miscellaneous/pruning/pruning_dataset.py'), ('split_dataset, get_parent_dataset_indices', 'time_series_data/time_dataset.py')],
     ['data sets handed to every training and prediction', 'returned and stored results', 'summary file', 'directories left behind'])

prop('C30', 'Noise and denoising act on the measured displacements and nothing else',
     'For every directory of specimen history files, injecting noise writes a copy in which every displacement after the first time step carries its own independent noise of the declared distribution and size, and denoising writes a copy in which every displacement component of every node is its own history filtered over time, in the order of the step numbers, by the declared method, window and number of cycles, starting undeformed. '
     'Nodes, coordinates and reaction forces stay as they were, one file per step is written under the name of its source, other files are left out, the source (and every other copy) is untouched, and an older copy of the same name is replaced. Histories that do not move are not changed by any filter; odd windows do not shift a history in time. Wrong column layouts, unknown methods or missing parameters are refused.',
     ['inputs', 'histories'], 'all specimen files, step numbers, filters, windows, cycles, distributions and chains of copies',
     'No existing test reads specimen history files or filters a path.',
     ['miscellaneous/noisy_data/inject_disp_noise_csv.py', 'miscellaneous/noisy_data/denoise_disp_noise_csv.py', 'utilities/data_denoisers.py', 'data_generation/strain_paths/noise_generator.py'],
     [('inject_displacements_noise', 'miscellaneous/noisy_data/inject_disp_noise_csv.py'), ('denoise_displacements_noise', 'miscellaneous/noisy_data/denoise_disp_noise_csv.py'), ('Denoiser.denoise', 'utilities/data_denoisers.py'), ('NoiseGenerator.generate_noise_path', 'data_generation/strain_paths/noise_generator.py')],
     ['every value of every file of the copy', 'files of the source', 'refusals'])

prop('C31', 'Every realization keeps and is judged by the predictions of its own model',
     'For every history of uncertainty quantification runs (GRU, recurrent constitutive and hybrid material models), each realization holds the model of its own training and, per testing type, the predictions of that very model on the testing data set; a run with training replaces all former realizations, a run without training only renews the predictions of the given testing type of the realizations that still have a model and leaves everything else as it was. '
     'Tables and figures collected from them pair every test sample with its own time history and ground truth and list one prediction, loss and set of best parameters per realization, in the numerical order of the realizations, each case of a convergence study against its own training data set size; the mean and range drawn are those of the realizations. Missing predictions, samples outside of the data set and malformed selections are refused.',
     ['inputs', 'histories'], 'all sequences of runs, numbers of realizations, testing types, deletions, selections of samples and studies of several cases',
     'No existing test runs the uncertainty quantification or collects predictions.',
     ['user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py', 'user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py', 'user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py', 'model_architectures/materials/process_predictions.py', 'model_architectures/procedures/convergence_plots.py'],
     [('perform_model_uq, gen_model_uq_plots, plot_prediction_loss_uq, plot_time_series_uq', 'user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py'), ('plot_best_parameters_uq', 'user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py'), ('build_time_series_predictions_data, build_prediction_data_arrays', 'model_architectures/materials/process_predictions.py'), ('plot_*_convergence, plot_*_convergence_uq', 'model_architectures/procedures/convergence_plots.py')],
     ['models and predictions in the folders of all realizations after every run', 'collected tables', 'lines, ranges and points of the saved figures'])

prop('C32', 'Simulation input files state the requested study; results come back in step',
     'For every patch, assignment of material phases, description of elastic, von Mises, Drucker-Prager and Lou materials and hardening law, the simulator input file states the requested type of analysis and options, exactly the materials of the phases in use with their own parameters and the yield stress of their own hardening law at equally spaced accumulated plastic strains, and a load factor history that starts at zero, stays within its bounds and repeats under a seed. '
     'Writing a file never touches another one, and a study that is not fully described is refused and leaves every file as it was. A run counts as successful only if the simulator reports it; results are read per deck, in the numerical order of the time steps, from the files of that simulation only. Load factor histories computed from an input file are the sums of its increments, and the supports of a tensile specimen are those of its node positions, reactions being grouped for the nodes that are moved.',
     ['inputs', 'histories'], 'all patches, phase assignments, material descriptions, options, load increments, specimens and sequences of writing, running and reading',
     'No existing test writes a simulator input file or reads simulator results.',
     ['simulators/links/links.py', 'simulators/links/models/links_lou.py', 'simulators/links/utilities/links_plot_tfact.py', 'simulators/links/utilities/links_specimen_dirichlet.py'],
     [('LinksSimulator.generate_input_data_file, run_links_simulation, read_links_simulation_results', 'simulators/links/links.py'), ('_format_material_descriptors of the four material models', 'simulators/links/models/links_von_mises.py'), ('plot_links_tfact_hist, scale_tfact_hist, gen_links_loading_incrementation_file', 'simulators/links/utilities/links_plot_tfact.py'), ('build_specimen_dbc, write_links_dirichlet_bc_file, read_links_nodes_coords_mesh', 'simulators/links/utilities/links_specimen_dirichlet.py')],
     ['every section of the written files', 'status and results of runs', 'stored load factor histories', 'stored supports and reaction groups'])

prop('C33', 'Condition-dependent data sets hold every condition once and at its own values',
     'For every grid of temperatures and compositions and every history of generating, removing conditions, assembling and updating, a generation leaves exactly the requested number of samples of each type for every pair of grid values and nothing of earlier generations: training samples at exactly the values of the pair, validation and in-distribution testing samples between the neighbouring grid values, first the requested share of random and then proportional strain paths, each with the stress and accumulated plastic strain of the von Mises material with the calibrated parameters at the temperature and composition recorded with it. A path whose response fails is replaced and never stored; a share without random or without proportional paths, a response that keeps failing and values outside of the calibrated range are refused; the same seeds repeat the data. '
     'An assembled data set holds every sample of its own type of every condition on disk exactly once and unchanged, or the same requested fraction of each condition, and leaves the data of the conditions as it was. Model updating uses exactly the assembled data sets, starts from no earlier model, keeps or replaces earlier realizations as asked and is refused when one data set is missing.',
     ['inputs', 'histories'], 'all grids, numbers of samples, shares, failing responses, removals, fractions and sequences of these steps',
     'No existing test runs the local model updating pipeline.',
     ['user_scripts/complete_pipelines/local_model_update.py'],
     [('generate_material_data', 'user_scripts/complete_pipelines/local_model_update.py'), ('assemble_material_datasets', 'user_scripts/complete_pipelines/local_model_update.py'), ('perform_material_model_updating', 'user_scripts/complete_pipelines/local_model_update.py'), ('get_model_parameters, set_data_material_model', 'user_scripts/complete_pipelines/local_model_update.py')],
     ['all samples of all conditions after every generation', 'all samples of the assembled data sets', 'data sets and folders handed to the training'])

prop('C34', 'Local path data sets hold every point of every simulated patch, in order',
     'For every history of generating, reloading, moving and removing random material patches, each generated patch lies in its own folder with its own simulation of its own mesh and prescribed displacements; reloading simulates exactly the saved patch again, generating never reuses an earlier one, and a failed simulation or a missing saved patch is refused. '
     'The local path data set collected from a folder holds one path per integration point of every element of every numbered patch found in it, patches in numerical order and elements and points in their own order: the strains of the simulated nodal displacements of that patch at that point at every time step, in the order of the steps, and the stresses that the given material model responds with. Folders without a simulation are refused and other folders are ignored.',
     ['inputs', 'histories'], 'all meshes, displacement fields, numbers of patches and time steps, failures, gaps and orders of patches',
     'No existing test generates a patch simulation or collects local paths.',
     ['user_scripts/synthetic_data/build_local_paths_dataset.py', 'user_scripts/synthetic_data/gen_random_specimen.py', 'user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py'],
     [('build_local_paths_dataset, get_patch_analysis_dirs', 'user_scripts/synthetic_data/build_local_paths_dataset.py'), ('generate_random_patches, set_material_patch_dir, perform_links_simulation', 'user_scripts/synthetic_data/gen_random_specimen.py'), ('gen_specimen_local_dataset', 'user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py')],
     ['input files, folders and simulations of every generation', 'every strain and stress path of the collected data set'])

prop('C35', 'Training and prediction studies store what their data and best model give',
     'For every history of trainings and predictions of a case, for each of the three model families: a training uses exactly the strains and stresses of the paths of its training data set (and of its validation data set for early stopping), starts anew, writes only into the model folder, and records and draws the losses, learning rates and parameter values (within their bounds) of its epochs; without the validation data it needs it is refused before training. '
     'A prediction of a data set of any size is stored in a new prediction set: for every path, the answer of the best state of the last training and the ground truth, the mean metrics over all paths, and figures of those values; sample files disappear if and only if their removal was asked for, nothing else changes, and without a model the prediction is refused. Components of hybrid models are scaled by the mean and standard deviation of the quantities they are given.',
     ['inputs', 'histories'], 'all data set sizes and lengths, model families, orders of training and prediction and removal options',
     'No existing test runs a training or prediction script.',
     ['user_scripts/local_model_update/rnn_material_model/train_model.py', 'user_scripts/local_model_update/rc_material_model/predict.py', 'user_scripts/local_model_update/hybrid_material_model/train_model.py'],
     [('perform_model_standard_training, generate_standard_training_plots', 'user_scripts/local_model_update/rnn_material_model/train_model.py'), ('perform_model_prediction, generate_prediction_plots', 'user_scripts/local_model_update/rc_material_model/predict.py'), ('set_hybridized_gru_model, set_hybridized_model', 'model_architectures/hybrid_base_model/model/hybridized_model.py'), ('compute_directory_prediction_metrics', 'utilities/output_prediction_metrics.py')],
     ['model folder, loss and parameter records, figures', 'prediction sets, metrics file, returned loss'])

# per property: what the check does (technique, assurance note)
CHK = {
 'C01': ('TLA+/TLC behaviours of spec/Checkpoint.tla replayed on the real save/load functions',
         'Design checked exhaustively for short histories; every 1-model pair of operations and random 14-step histories over 2 models and 5 name pairs replayed with full directory comparison after every step.'),
 'C02': ('TLA+/TLC behaviours of spec/Training.tla replayed on the three real training loops (scripted losses)',
         'Design checked exhaustively for two short runs; every loss order of three-epoch runs and random multi-run histories with resume, schedules and batch sizes replayed, comparing directory, parameter versions, histories and returned values; on real data the gradient of every update is that of the loss of its own batch.'),
 'C03': ('TLA+/TLC behaviours of spec/Training.tla (early stopping) and spec/ParamConv.tla replayed on the real training loops and criteria',
         'All validation orders of short runs (sampled in quick), random early/convergence stopping runs of three model families, all short and random parameter histories.'),
 'C04': ('TLA+/TLC histories of spec/Dataset.tla replayed on the in-memory and on-disk data set classes',
         'Every single operation and random 14-step histories replayed; both data sets compared feature by feature, and the files on disk, after every step.'),
 'C05': ('TLA+/TLC: splits, folds and loader passes recorded from the real code judged by spec/Split.tla',
         'Recorded real splits over enumerated sizes, fractions, seeds, fold counts and batch sizes are validated by TLC against the specified partitions.'),
 'C06': ('TLA+/TLC histories of spec/Predict.tla replayed on the three real predict functions',
         'Random histories of saves, predictions (state, batch size, ground truth, normalization) and deletions; every result file compared with an independent evaluation.'),
 'C07': ('TLA+/TLC histories of spec/Scaling.tla (exact rational statistics) replayed on the real scalers and models',
         'Integer data sets, scaler kinds, batchings, save and re-initialization; statistics and transforms compared with the specification.'),
 'C08': ('TLA+/TLC behaviours of spec/Plast.tla (exact integer return mapping) replayed on the real elastic and von Mises models',
         'Design exhaustive for two increments; elastic stiffness of every symmetry class; random 10-increment multiaxial paths over 5 isotropic and 3 kinematic hardening laws, 3D and plane strain, two precisions; every state variable compared after every increment.'),
 'C09': ('TLA+/TLC behaviours of spec/Cone.tla (exact integer cone/apex return mapping) and spec/Plast.tla replayed on the real Drucker-Prager and Lou models',
         'Design exhaustive for two increments; random multiaxial paths with cone and apex returns over 4 hardening laws replayed on Drucker-Prager and (conical, axial, von Mises cases) on Lou-Zhang-Yoon; general Lou parameters judged by the return-mapping relations along the same paths; plane strain and permuted axes compared.'),
 'C10': ('TLA+/TLC behaviours of spec/Plast.tla and spec/Cone.tla replayed on the vectorized material models, singly and under torch.vmap',
         'Groups of specified paths of one material advance at different paces in one batch (elastic, plastic, apex and idle points mixed); every point compared with the specification after every step.'),
 'C11': ('TLA+/TLC behaviours of spec/Plast.tla and spec/Cone.tla drive the real models; tangent compared with the central difference of the real stress update at every specified state',
         'Random specified paths over all hardening laws, elastic, von Mises, mixed and Drucker-Prager (cone and apex), 3D and plane strain, standard and vectorized.'),
 'C12': ('TLA+/TLC histories of spec/State.tla (trial updates, commits, resets) replayed on the real structure material state and material models',
         'Design exhaustive for short histories; random histories over several elements, models and integration points with every stored state compared after every step.'),
 'C13': ('TLA+/TLC: rational element geometry and polynomials of spec/Element.tla evaluated against the real elements, Jacobians, quadratures and internal forces',
         'All element types and quadratures; random affine maps, reference points, polynomial fields and stresses, exact values from the specification.'),
 'C14': ('TLA+/TLC histories of spec/Mesh.tla (connectivity, assembly, configuration updates) replayed on the real structure mesh',
         'Random connectivities with mixed element types and sequences of operations; every configuration and assembled array compared after every step.'),
 'C15': ('TLA+/TLC specimens of spec/Loss.tla (exact integer forces and losses) replayed on the real material model finder in every evaluation mode',
         'Random meshes, regions, strain histories, boundary sets, reactions, weights and force ranges; elastic, perfectly plastic and network models; time-sequential, element-sequential and vectorized modes, both loss kinds, stored local paths and loss histories.'),
 'C16': ('TLA+/TLC histories of spec/Params.tla (training steps, enforcement, freezing, reading, saving) replayed on the real recurrent constitutive models and the material model finder',
         'Design exhaustive for short histories; random histories over five materials, standard and vectorized, normalized or not; stored and physical values compared after every step, response compared with the constant-parameter material and its gradient with differences; models alone, in a finder and as parts of hybrid materials; every state of real trainings with gradients in random directions.'),
 'C17': ('TLA+/TLC: histories of requests from spec/StrainPath.tla, the recorded real strain paths and noise judged by TLC against the specification',
         'Cycle layout proved for all lengths in bounds; random request histories over proportional, polynomial and Gaussian process generators, 2D/3D, infinitesimal/finite, cycles, increment norms, noise, seeds and inadmissible requests.'),
 'C18': ('TLA+/TLC patches of spec/Patch.tla (grid, element numbering, exact rational boundary displacements) replayed on the real patch generator and simulator input writer',
         'All seven element types; random element counts, sizes, corner displacements, edge orders and curves, rigid motions, removed elements, inadmissible shapes; full comparison of mesh, sets, displacements and the written simulator input; seed reproducibility.'),
 'C19': ('TLA+/TLC integer tensors of spec/Tensors.tla (storage lossless and contraction preserving, checked on all pairs of basis tensors) replayed on the real conversions and operators',
         'All pairs of basis tensors and random integer tensors, 2D/3D, symmetric/full, Kelvin and plain notation, permuted component orders, standard, vectorized and batched conversions, float32 and float64.'),
 'C21': ('TLA+/TLC layouts of spec/Hybrid.tla (the specified term over the parts) built from real parts and evaluated against the parts standing alone',
         'Design checked exhaustively for small layouts; random layouts of up to five parts (recurrent, polynomial, elastic, volumetric-deviatoric, constitutive) in up to three channels, any registration order, residual inputs, normalized parts and outputs, paths/batches, reloading, duplicate positions.'),
 'C22': ('TLA+/TLC histories of spec/Recurrent.tla (memories as consumed inputs) replayed on the real recurrent models and folded by a reference cell',
         'Design checked exhaustively for short histories; random histories feeding chunks from any memory to the library and custom units (interchangeably), batched, unbatched, mapped and strided, 1-3 layers; recurrent constitutive models in both modes with state features, all against a reference written in the harness.'),
 'C23': ('TLA+/TLC integer tensor paths of spec/Features.tla (invariants and decomposition checked on the specification) replayed on the real data sets',
         'Pairs of basis components and random integer paths, permuted component orders, in-memory, on-disk and list data sets, any order of additions, refusals in two dimensions, composition through the real layer, both precisions.'),
 'C24': ('TLA+/TLC runs of spec/Training.tla replayed on the real learning procedure of the material model finder with scripted loss values',
         'All loss orders of a three-epoch run; random repeated runs with schedulers and saving frequencies, normalized or physical parameters; parameter-convergence stopping; files compared after every epoch, parameter versions in every stored state, histories and best parameters.'),
 'C25': ('TLA+/TLC histories of spec/Specimen.tla (simulations, conversions, relabelling, loading) replayed on the real conversion and loading procedures',
         'All short histories of two element types and random 16-step histories over five element types, meshes, step numberings, labels, foreign and damaged files; every array read back compared with the specification.'),
 'C26': ('TLA+/TLC histories of spec/Metrics.tla (exact rational metrics and losses) replayed on the real metrics, report files, result arrays and losses',
         'All pairs of operations and random 18-step histories of result files, foreign files, metrics, reports, arrays, time series of one or three models and losses with gradients; every number compared with the specification.'),
 'C27': ('TLA+/TLC histories of spec/Response.tla (abstract material with memory and failures, scripted paths and noise) replayed on the real data set generators and readers',
         'Random 8- and 14-step histories of computing, generating, re-computing, adding noise (scaler, weights, denoising, retries) and importing; every feature of every data set compared after every step, in double and single precision; random real paths re-computed step by step with the abstract and a plastic material.'),
 'C28': ('TLA+/TLC specimens of spec/Loss.tla with exact sensitivities of stress, forces and loss to the material parameters, evaluated on the real finder and back-propagated',
         'Random specimens (2D and 3D, one and two materials, elastic and plastic in shear, both losses, two modes, normalized or plain parameters): every gradient compared with the exact derivative of the specification; networks compared with differences of the specified loss.'),
 'C29': ('TLA+/TLC: histories recorded from the real pruning procedure (scripted training and prediction) judged event by event by spec/Pruning.tla',
         'Design explored exhaustively for small data sets; 256 random parameter sets from the specification (6 x 256 thorough) run on the real procedure, every recorded step, iteration and end validated by TLC, results and files compared with the recorded history.'),
 'C30': ('TLA+/TLC histories of spec/Measure.tla (exact filter matrices) replayed on directories of csv files with the real noise and denoising procedures',
         'Every single filter on short histories and random chains of noisy and denoised copies; all values of all files compared; noise judged against its declared distribution.'),
 'C31': ('TLA+/TLC histories of spec/Realizations.tla replayed on the real uncertainty quantification, collection and convergence procedures (scripted training and prediction)',
         'Every history of three operations and random 12-step histories over up to three cases and twelve realizations; folders compared after every run, tables exactly, figures by the data drawn in them.'),
 'C32': ('TLA+/TLC histories of spec/Deck.tla replayed on the real simulator interface (stand-in simulator that only leaves result files)',
         'Random 8-step histories of writing, running and reading with material tables computed exactly by the specification; random load histories and specimens; designs of load histories and supports explored exhaustively for small sizes.'),
 'C33': ('TLA+/TLC histories of spec/Conditions.tla replayed on the real local model updating pipeline (recorded instead of real training)',
         'Design explored exhaustively for two conditions and three steps; 120 random 6-step histories over grids up to 3 x 3 (8 x as many thorough); every sample compared with an independent return mapping at its recorded condition.'),
 'C34': ('TLA+/TLC histories of spec/Patches.tla replayed on the real patch generation and local path collection (stand-in simulator with random displacement fields)',
         'Design explored exhaustively for three steps and two patches; about 60 random 7-step histories over up to four patches per generation and folder numbers up to 120; every local path compared with an independent interpolation and return mapping.'),
 'C35': ('TLA+/TLC histories of spec/Studies.tla replayed on the real training and prediction scripts of the three model families',
         'Design explored exhaustively for short histories; about 90 random 6-step histories over three data sets of 1 to 7 paths; all other stored states are spoilt so that only the best state can give the specified predictions; figures are read when saved.'),
 'C20': ('TLA+/TLC histories of spec/Files.tla replayed on the real folder and file naming procedures',
         'Design exhaustive for short histories; pairs of operations and random 30-step histories replayed with full directory comparison after every step.'),
}

if __name__ == '__main__':
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            for x in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
                assert os.path.isfile('/repo/' + x), x
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.isfile(os.path.join(R, 'harness', i.lower() + '.py')):
            t, n = CHK[i]
            checks.append(dict(property=i, quick_cmd=f'./check {i} quick',
                               thorough_cmd=f'./check {i} thorough',
                               evidence_file=f'evidence/{i}.json', technique=t,
                               level='model_checking', level_note=n))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='TLA+ specifications in spec/, conformance drivers in harness/; no hooks in /repo.')
    with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
