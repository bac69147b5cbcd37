#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the text stays in one reviewable place).
import json, os
H='include/qlmps/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":[H+f for f in files],"mechanism":[{"name":n,"where":H+w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x} for x in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","DuoVector owns each element exactly once, even when an allocation fails",
  "For every history of alloc, dealloc, element set, read, copy, move, assignment (including self-assignment) and clear on DuoVector, each slot holds either nothing or exactly one live element, copies are deep and equal, and every element is destroyed exactly once. This stays true when a memory allocation or an element constructor fails at any point: the failing call reports the failure and the containers involved stay usable and destructible, without leak, double free or dangling slot.",
  ["histories","fault_sequences"],"every sequence of container operations on up to a few containers, with an allocation/constructor failure injected at any allocation",
  "the unit tests run four fixed call sequences and never make an allocation fail",
  ["one_dim_tn/framework/duovector.h"],
  [("DuoVector::alloc/dealloc/clear","one_dim_tn/framework/duovector.h"),("copy/move constructors and assignments","one_dim_tn/framework/duovector.h")],
  ["raw_data_ slots","memory_flags"],["operator()","operator[]","size/empty"])

p("C02","Tensor and operator files round-trip exactly, or the failure is reported",
  "A tensor, MPS/MPO site tensor or block-operator group written to disk and read back is identical to what was written, overwriting, re-dumping and read-and-remove included. When an open, read, write or close fails, or the stored file is missing or truncated, the dump or load call reports it (exception, false return or process exit) and never continues as if it had succeeded; the in-memory copy is released only after the file holds it, and a file is removed only after it was read completely.",
  ["fault_sequences","histories"],"every sequence of dump/load/read-and-remove calls with disk errors (ENOSPC, EIO, short transfers, EINTR, failed open/close/unlink, truncated files) at any I/O call",
  "tests only exercise a healthy disk; an error at a particular write or close cannot be provoked by a unit test",
  ["one_dim_tn/framework/ten_vec.h","algorithm/dmrg/operator_io.h","utilities.h"],
  [("TenVec::DumpTen/LoadTen","one_dim_tn/framework/ten_vec.h"),("WriteOperatorGroup/ReadOperatorGroup/ReadAndRemoveOperatorGroup","algorithm/dmrg/operator_io.h"),("WriteQLTensorTOFile/ReadQLTensorFromFile","utilities.h")],
  ["files under the mps and temp path"],["return values, exceptions, in-memory tensors, file contents"])

p("C03","A FiniteMPS keeps its state and truthful canonical labels through any history",
  "Through any sequence of Centralize, left/right canonicalisation, per-site dump/load with or without release, whole-object Dump/Load, copies and moves, a FiniteMPS represents the same many-body state (up to the normalisation the called operation is documented to apply). Whenever it reports a canonical centre, every site tensor left of it is a left isometry and every one right of it a right isometry.",
  ["histories","inputs"],"every sequence of MPS operations on chains of length 2..8 with random bond dimensions, site kinds and symmetry",
  "unit tests check single canonicalisation calls, not long histories mixing disk and canonicalisation",
  ["one_dim_tn/mps/finite_mps/finite_mps.h","one_dim_tn/mps/mps.h","one_dim_tn/framework/ten_vec.h"],
  [("Centralize/LeftCanonicalize/RightCanonicalize","one_dim_tn/mps/finite_mps/finite_mps.h"),("MPS::Dump/Load","one_dim_tn/mps/mps.h")],
  ["site tensors","tens_cano_type_","center_"],["GetCenter","GetTenCanoTypes","site tensors"])

p("C04","Two-site VMPS on disk reaches the ground state and leaves a complete valid MPS",
  "For every Hamiltonian MPO and starting MPS, serial TwoSiteFiniteVMPS returns an energy equal to the expectation value of the MPS it leaves in the MPS directory (never below the exact ground-state energy of the symmetry sector, and equal to it once bond dimension and sweeps are sufficient). After it returns, the directory holds all site tensors of an MPS in the starting symmetry sector, normalised up to the truncated weight, with the orthogonality centre at site 1 and within the bond-dimension limit, and no tensor is left loaded in memory. A further run in the same directories, with the temporary directory kept or removed, gives the same guarantee; a call that asks for no sweep leaves the state as it was.",
  ["inputs","configurations","histories"],"every spin-chain Hamiltonian, length, symmetry, bond-dimension window and repeated or restarted invocation in the same directory",
  "tests sample a few fixed models and compare one energy; they never inspect the stored MPS, environment files or a restarted run",
  ["algorithm/vmps/two_site_update_finite_vmps_impl.h","algorithm/vmps/vmps_init.h","algorithm/vmps/lanczos_vmps_solver_impl.h"],
  [("TwoSiteFiniteVMPS sweep/update/load/dump","algorithm/vmps/two_site_update_finite_vmps_impl.h"),("FindLeft/RightBoundary, UpdateBoundaryEnvs, InitEnvs","algorithm/vmps/vmps_init.h"),("LanczosSolver","algorithm/vmps/lanczos_vmps_solver_impl.h")],
  ["mps_path files","temp_path environment files"],["returned energy","files after return"])

p("C05","Single-site and noise-expanded VMPS converge and leave a complete valid MPS",
  "SingleSiteFiniteVMPS and TwoSiteFiniteVMPSWithNoise, for every noise schedule including an empty one, return the energy of the normalised MPS they leave on disk, up to the weight truncated last, never below the exact ground-state energy and equal to it once bond dimension, noise and sweeps suffice. Noise frees a start state from which no update without it can move (a product state whose bonds lack the sectors the Hamiltonian couples). The subspace expansion changes neither the state's symmetry sector nor the completeness of the stored MPS, and environment files lost between two runs are rebuilt or reported.",
  ["inputs","configurations"],"every Hamiltonian, starting MPS and noise schedule (empty, decaying, shorter or longer than the number of sweeps)",
  "tests use one or two noise vectors on fixed models and look only at the energy",
  ["algorithm/vmps/single_site_update_finite_vmps_impl.h","algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"],
  [("SingleSiteFiniteVMPS sweep and subspace expansion","algorithm/vmps/single_site_update_finite_vmps_impl.h"),("TwoSiteFiniteVMPSWithNoise","algorithm/vmps/two_site_update_noise_finite_vmps_impl.h")],
  ["mps_path files","temp_path environment files"],["returned energy","files after return"])

p("C06","Serial DMRG reaches the ground state and leaves a complete valid MPS",
  "For every Hamiltonian (matrix-representation MPO) and starting MPS, serial FiniteDMRG returns the energy of the MPS it leaves in the MPS directory, never below the exact ground-state energy of the symmetry sector and equal to it once bond dimension and sweeps suffice. The stored MPS is complete, normalised up to the truncated weight, in the starting symmetry sector and centred at site 0, and the run can be repeated in the same directory with the same guarantee.",
  ["inputs","configurations","histories"],"every spin-chain Hamiltonian, length, symmetry and bond-dimension window, first and repeated runs in one directory",
  "tests sample a few fixed models and compare one energy; the stored state and repeated runs are not inspected",
  ["algorithm/dmrg/dmrg_impl.h","algorithm/dmrg/dmrg_init.h","algorithm/dmrg/lanczos_dmrg_solver_impl.h","algorithm/dmrg/operator_io.h"],
  [("DMRGExecutor::Execute/sweep","algorithm/dmrg/dmrg_impl.h"),("block operator initialisation and reuse","algorithm/dmrg/dmrg_init.h"),("LanczosSolver for block operators","algorithm/dmrg/lanczos_dmrg_solver_impl.h")],
  ["mps_path files","block operator groups in temp_path"],["returned energy","files after return"])

p("C07","A graceful stop signal ends DMRG cleanly and the run can be resumed",
  "When SIGUSR1 or SIGUSR2 arrives at any moment of a serial FiniteDMRG run, the run finishes the sweep in progress, returns the energy of the complete, normalised, centre-0 MPS it leaves on disk, and does not start a further sweep. Starting again from that directory continues to the same ground state as an undisturbed run.",
  ["crash_points","schedules"],"signal delivery at every possible point of the run, once or several times",
  "no test delivers a signal; the property is about every possible arrival time",
  ["algorithm/dmrg/dmrg_impl.h"],[("SignalHandler, stop_requested_ and the sweep loop","algorithm/dmrg/dmrg_impl.h")],
  ["stop_requested_ flag"],["returned energy, number of sweeps, files after return"])

p("C08","An emergency signal makes DMRG stop soon with a complete loadable MPS",
  "When SIGINT or SIGTERM arrives at any moment of the sweeps of a serial FiniteDMRG run, the run stops within one two-site update of the one in progress and leaves in the MPS directory every site tensor of a normalised MPS in the starting symmetry sector whose energy is no worse than when the signal arrived. A later run started from that MPS converges to the ground state.",
  ["crash_points","schedules"],"signal delivery at every possible point of the run, combined with graceful-stop signals",
  "no test delivers a signal; a bug here shows only for particular arrival points such as mid-sweep positions or the turning sites",
  ["algorithm/dmrg/dmrg_impl.h"],[("emergency_stop_requested_ handling in the sweep","algorithm/dmrg/dmrg_impl.h")],
  ["emergency_stop_requested_ flag"],["files after return, position where it stopped"])

p("C09","A disk error during a serial sweep never yields a silently wrong result",
  "If any open, read, write, close, remove or mkdir issued by serial TwoSiteFiniteVMPS, SingleSiteFiniteVMPS, TwoSiteFiniteVMPSWithNoise, FiniteDMRG or TwoSiteFiniteTDVP fails, transfers fewer bytes, is interrupted, or finds the disk full, the run either reports failure (exception or non-zero exit) or returns a result and stored MPS as correct as without the fault. It never reports success with a wrong energy or an MPS directory that cannot be loaded.",
  ["fault_sequences"],"every I/O operation of a run as the fault position, every fault kind, transient or persistent",
  "needs a failing disk at a chosen operation",
  ["utilities.h","one_dim_tn/framework/ten_vec.h","algorithm/dmrg/operator_io.h","algorithm/vmps/two_site_update_finite_vmps_impl.h","algorithm/dmrg/dmrg_impl.h"],
  [("every dump/load of site tensors, environments and block operators","one_dim_tn/framework/ten_vec.h"),("file helpers","utilities.h")],
  ["mps_path and temp_path files"],["exit status, returned energy, files after return"])

p("C10","Distributed DMRG agrees with serial DMRG for every schedule and always ends",
  "For every number of ranks, every rank speed and every message delivery order, MPI FiniteDMRG terminates on all ranks and the master returns the same energy and leaves the same quality of MPS (complete, normalised, right sector, centred at site 0, energy equal to the returned one) as serial DMRG. No rank deadlocks, no message is left unreceived, and no result depends on which slave answers first.",
  ["schedules","configurations"],"every interleaving of 2..5 ranks, any-source receive order, slow ranks, eager or rendezvous sends",
  "an MPI test runs the one schedule the machine happens to produce; races between slave answers need particular delays",
  ["algo_mpi/dmrg/dmrg_mpi_impl_master.h","algo_mpi/dmrg/dmrg_mpi_impl_slave.h","algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h"],
  [("task distribution and order broadcasting","algo_mpi/dmrg/dmrg_mpi_impl_master.h"),("slave task loops","algo_mpi/dmrg/dmrg_mpi_impl_slave.h")],
  ["in-flight messages","task tables"],["returned energy, MPS files, termination of all ranks"])

p("C11","Distributed two-site VMPS agrees with the serial run for every schedule and ends",
  "For every number of ranks, every rank speed and every message delivery order, MPI TwoSiteFiniteVMPS terminates on all ranks, and the master returns the energy of the complete, normalised MPS it leaves on disk, canonical about one site, which reaches the same ground state as the serial run. No rank deadlocks and no message is left unreceived.",
  ["schedules","configurations"],"every interleaving of 1..5 ranks, any-source receive order, slow ranks, eager or rendezvous sends",
  "an MPI test runs the one schedule the machine happens to produce",
  ["algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_master.h","algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_slave.h","algo_mpi/vmps/lanczos_solver_mpi_master.h","algo_mpi/vmps/lanczos_solver_mpi_slave.h","algo_mpi/env_ten_update_master.h","algo_mpi/env_ten_update_slave.h","algo_mpi/vmps/vmps_mpi_init_master.h"],
  [("master/slave sweep protocol","algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_master.h"),("order broadcasting","algo_mpi/mps_algo_order.h")],
  ["in-flight messages"],["returned energy, MPS files, termination of all ranks"])

p("C12","Distributed noised VMPS with background I/O threads is schedule-independent",
  "MPI TwoSiteFiniteVMPSWithNoise, which loads and dumps tensors on background threads while computing, gives for every interleaving of threads, ranks and messages, and for every noise schedule, a terminating run whose returned energy is that of the complete, normalised MPS left on disk and reaches the same ground state as the serial run, also from a product state that only the noise can change. No background load or dump is ever observed half-done, lost or applied to the wrong site, and no site tensor stays loaded after the call.",
  ["schedules","configurations"],"every interleaving of the main and I/O threads of the master with 1..4 ranks, every message order",
  "thread timing on a test machine always lets the background I/O finish first",
  ["algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h","algo_mpi/env_ten_update_master.h"],
  [("load_related_tens_thread/dump_related_tens_thread","algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h"),("MasterTwoSiteFiniteVMPSRight/LeftMovingExpand","algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h")],
  ["lenvs/renvs/mps slots shared with the I/O threads"],["returned energy, MPS files, termination"])

p("C13","Distributed TDVP reproduces serial time evolution for every schedule",
  "For every number of ranks and every message order, MPI TwoSiteFiniteTDVP terminates on all ranks, and the measured evolution (norm, energy, overlap with the exact evolved state) equals the serial TDVP result within the integrator's accuracy. A single rank behaves like the serial code.",
  ["schedules","configurations"],"every interleaving of 1..4 ranks, any-source receive order, slow ranks",
  "an MPI test runs the one schedule the machine happens to produce",
  ["algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h","algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_slave.h","algo_mpi/tdvp/lanczos_expmv_solver_mpi.h"],
  [("master/slave evolution protocol","algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h"),("distributed Lanczos expmv","algo_mpi/tdvp/lanczos_expmv_solver_mpi.h")],
  ["in-flight messages"],["returned correlators, MPS files, termination"])

p("C14","Distributed eigensolver and environment growth equal the serial kernels",
  "For every effective Hamiltonian, state and number of ranks, the distributed matrix-vector product, Lanczos ground-state solver and environment-growth kernels give, up to round-off, the same tensors and eigenvalues as their serial counterparts and as dense linear algebra, whatever the order in which slaves pick tasks and deliver partial results. Every quantum-number sector task is executed exactly once.",
  ["schedules","inputs"],"every task hand-out and result arrival order for 2..6 ranks, including more ranks than tasks",
  "task-to-slave assignment depends on timing; tests see one assignment",
  ["algo_mpi/vmps/lanczos_solver_mpi_master.h","algo_mpi/vmps/lanczos_solver_mpi_slave.h","algo_mpi/env_ten_update_master.h","algo_mpi/env_ten_update_slave.h"],
  [("master_two_site_eff_ham_mul_state / slave_two_site_eff_ham_mul_state","algo_mpi/vmps/lanczos_solver_mpi_master.h"),("MasterGrowLeft/RightEnvironment and slave side","algo_mpi/env_ten_update_master.h")],
  ["task arrangement","in-flight messages"],["result tensors, eigenvalue"])

p("C15","Serial TDVP evolves the state unitarily and accurately",
  "TwoSiteFiniteTDVP with sufficient bond dimension keeps the norm and the energy of the evolved state and follows exp(-iHt) applied to the initial state up to the integrator's time-step error, for every Hamiltonian, start state and time step, first run or continued from the saved initial MPS. The measured dynamical correlators equal those of the exact evolution at the reported times.",
  ["inputs","histories","configurations"],"every model, operator insertion site, time step and number of steps, including re-runs in a used directory",
  "tests check one model against stored numbers; conservation along every history is not checked",
  ["algorithm/tdvp/two_site_update_finite_tdvp_impl.h","algorithm/tdvp/lanczos_expmv_solver_impl.h"],
  [("TwoSiteFiniteTDVP sweep forward/backward evolution","algorithm/tdvp/two_site_update_finite_tdvp_impl.h"),("LanczosExpmvSolver","algorithm/tdvp/lanczos_expmv_solver_impl.h")],
  ["mps files of the evolving and the initial state"],["returned correlators, stored MPS after each step"])

p("C16","Disk-based measurements equal in-memory ones and leave the stored MPS untouched",
  "For every MPS and operator list, the measurement functions working from an MPS directory return the same expectation values as the in-memory functions and as dense evaluation of the state, and leave every stored tensor as it was and no tensor loaded. A read error or missing site file during the measurement is reported and never yields values.",
  ["inputs","fault_sequences"],"every state, one-, two- and multi-site operator list, and read fault at any file access",
  "tests compare a few values on a healthy disk",
  ["one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h","one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h"],
  [("disk MeasureOneSiteOp/MeasureTwoSiteOp","one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"),("in-memory measurement","one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h")],
  ["mps files"],["measurement results, result files, mps files"])

p("C17","The case-parameter parser returns exactly what the file says or fails loudly",
  "CaseParamsParser returns for every well-formed parameter file exactly the values stored under the requested keys and types, keep defaults only for absent keys, and report a missing file, unreadable, truncated or malformed content, missing required key or wrong type by exception or non-zero exit. A short or interrupted read of the file does not change the result.",
  ["inputs","fault_sequences"],"every parameter file content, truncation point and read fault",
  "tests use one well-formed file on a healthy disk",
  ["case_params_parser.h"],[("CaseParamsParserBasic constructor and Parse*/TryParse*","case_params_parser.h")],
  ["json document"],["returned values, exit status"])

p("C18","The memory monitor reports what the system says, under failures and clock jumps",
  "For every memory state and every sequence of calls, the memory monitor's total, free and used figures (in GB) are those of the operating system's answer to that very call, with used + free = total, and each printed checkpoint carries exactly the given message, the time of the call and the figures to two decimals. When the system query fails an error is thrown and nothing is printed, and clock jumps between calls change nothing but the time stamp.",
  ["histories","fault_sequences"],"every sequence of memory readings, failing queries and clock jumps",
  "tests cannot make the system query or the clock misbehave; the header is only syntax-checked",
  ["memory_monitor.h"],[("MemoryMonitor::GetMemoryInfo/Checkpoint/ListAvailableDevices","memory_monitor.h")],
  None,["returned values, printed lines, exceptions"])

p("C19","Sweeps keep a bounded working set and release everything they load",
  "During serial VMPS, DMRG and TDVP sweeps only the tensors around the current position are held in memory (the count does not grow with the number of sites or sweeps), and when the run returns or is stopped by a signal every tensor it loaded has been dumped and released. Environment and operator files in the temporary directory are consumed and recreated without accumulating. Distributed runs likewise release everything and do not accumulate files.",
  ["histories","configurations"],"every chain length, number of sweeps, stop point",
  "tests never measure live tensors or directory contents over time",
  ["algorithm/vmps/two_site_update_finite_vmps_impl.h","algorithm/dmrg/dmrg_impl.h","algorithm/vmps/lanczos_vmps_solver_impl.h"],
  [("LoadRelatedTens/DumpRelatedTens","algorithm/vmps/two_site_update_finite_vmps_impl.h"),("LanczosFree","algorithm/vmps/lanczos_vmps_solver_impl.h")],
  ["live tensors","files in temp_path"],["live tensor count during and after a run"])

p("C20","A killed run restarted in the same directories is never silently wrong",
  "If the process is killed at any instant of a serial VMPS, DMRG or TDVP run and started again with the same parameters and directories, the second run either completes with a correct energy and MPS or fails loudly. It never returns a wrong energy or leaves a corrupt MPS because of stale, partial or mismatched files of the killed run.",
  ["crash_points"],"every I/O boundary and every byte-torn write of the first run as the kill point",
  "needs a kill at a chosen instant and a restart",
  ["algorithm/vmps/vmps_init.h","algorithm/dmrg/dmrg_init.h","algorithm/vmps/two_site_update_finite_vmps_impl.h"],
  [("NeedGenerateRightEnvs / NeedGenerateBlockOps","algorithm/vmps/vmps_init.h"),("InitEnvs/InitBlockOps","algorithm/dmrg/dmrg_init.h")],
  ["mps_path and temp_path files surviving the kill"],["second run's energy, exit status and files"])

p("C21","A FiniteMPO represents the same operator through any history of operations",
  "Through any sequence of Centralize, left/right canonicalisation, scaling, sums, uncompressed and variational products, squaring, truncation, normalisation, trace, Dump/Load, copies, moves and direct tensor access, a FiniteMPO represents exactly the operator that sequence of operations defines: truncation errs by at most the discarded weight, and ExpFiniteMPO gives exp(-tau H) and its norm. Every tensor it reports as left or right canonical is an isometry, and a disk error in an operation that uses files is reported and leaves the operands intact.",
  ["histories","fault_sequences"],"every sequence of operations on two MPOs of up to a handful of sites, with disk errors at any file access",
  "no unit test calls these functions in sequence; canonical labels and centre matter only for particular orders of operations",
  ["one_dim_tn/mpo/finite_mpo/finite_mpo.h","one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h","one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"],
  [("Centralize/Canonicalize/Truncate/Dump/Load/Scale","one_dim_tn/mpo/finite_mpo/finite_mpo.h"),("MpoProduct","one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h"),("ExpFiniteMPO","one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h")],
  ["site tensors","center_","tens_cano_type_"],["GetCenter","GetTenCanoType","site tensors, Trace, norms"])

p("C30","Generated MPOs represent exactly the Hamiltonian that was described",
  "After any history of AddTerm calls (one-, two- and many-body forms, sorted or not, with or without insertion strings and tails, repeated terms included), copies and earlier generations, Gen (compressed or not) and GenMatReprMPO return an MPO or matrix representation that equals the sum of exactly the terms added so far as an operator on the chain, with matching bonds and physical indexes. Generating changes nothing in the generator, and a failing memory allocation is reported and damages no other generator.",
  ["histories","fault_sequences"],"every order and form of AddTerm, copy and Gen calls on chains with site-dependent dimension, with or without symmetry, and an allocation failure at any allocation",
  "tests cover fixed small Hamiltonians, one form each; terms that coincide, partly coincide or are added between two generations are not combined",
  ["one_dim_tn/mpo/mpogen/mpogen_impl.h","one_dim_tn/mpo/mpogen/fsm.h","one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h","one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h"],
  [("MPOGenerator::AddTerm/Gen/GenMatReprMPO","one_dim_tn/mpo/mpogen/mpogen_impl.h"),("FSM::AddPath/GenMatRepr/GenCompressedMatRepr","one_dim_tn/mpo/mpogen/fsm.h"),("SparOpReprMatRow/ColCompresser","one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h")],
  ["finite-state machine paths","label mappings"],["generated MPO, matrix representation"])

# ---- outside the family
p("C31","The symbolic coefficient/operator algebra obeys its algebraic laws",
  "Sums, products, comparison and delinearisation of coefficient and operator representations preserve the represented operator.",
  ["inputs"],"every symbolic expression and sparse operator matrix",
  "tests cover fixed expressions",
  ["one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"],[("CoefRepr/OpRepr algebra and row/column compression","one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h")])
p("C32","Predefined sites and operators satisfy their operator algebra",
  "The spin, Hubbard and tJ site and operator definitions satisfy the algebra of the degrees of freedom they name.",
  ["configurations"],"every predefined site type and operator",
  "only some operators are compared with literals",
  ["model_relevant/operators/operators_all.h"],[("operator definitions","model_relevant/operators/fermion/hubbard_operators.h")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
