import json
P=[]
def add(id,title,st,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80, title
    P.append(d)
A="src/gsThinShellAssembler.hpp"; AH="src/gsThinShellAssembler.h"
add("C01","Parallel assembly gives the sequential system",
 "In an OpenMP build, for every team size and every interleaving of the worker threads, assembling a shell or membrane problem (linear system, tangent matrix, residual, mass, pressure and foundation contributions) completes and yields the same matrix and right-hand side as a single-threaded assembly of the same problem, up to floating-point rounding. No worker ever sees another worker's intermediate data.",
 ["schedules","inputs","configurations"],"all team sizes (1..8), all interleavings of memory accesses, locks, atomics and critical sections of the workers, all material laws, geometries and loads of the scenario generator",
 "The repository's own build has OpenMP off and its tests run one thread; an interleaving that mixes two workers' data is one of astronomically many.",
 [A,AH,"src/gsThinShellUtils.h","src/gsMaterialMatrixBaseDim.h","src/gsMaterialMatrixIntegrate.hpp"],
 [("element-parallel assembly of shell expressions",A+": assemble_impl, assembleMatrix_impl, assembleVector_impl, assembleMass, assembleFoundation, assemblePressure*"),
  ("per-thread expression scratch","src/gsThinShellUtils.h: mutable members of the expressions"),
  ("per-thread material scratch","src/gsMaterialMatrixBaseDim.h: m_data")],
 [("m_data","per-thread kinematic scratch of a material","src/gsMaterialMatrixBaseDim.h:444")],["matrix()","rhs()","massMatrix()"])
add("C02","A material shared by threads evaluates as if it were alone",
 "In an OpenMP build, when several threads of a team evaluate the same material object (any law, any output: matrices, stresses, strains, stretches, principal quantities, tension field, density, thickness) directly or through its evaluators at the same time, every call returns the value it returns when no other thread is running, for every interleaving and any mix of outputs, points and patches.",
 ["schedules","inputs","configurations"],"all teams of 2..8 threads, all interleavings, all material laws and outputs",
 "Single-threaded tests never overlap two evaluations of one material object.",
 ["src/gsMaterialMatrixBaseDim.h","src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixComposite.hpp","src/gsMaterialMatrixTFT.hpp","src/gsMaterialMatrixEval.hpp","src/gsMaterialMatrixIntegrate.hpp"],
 [("thread-indexed scratch data","src/gsMaterialMatrixBaseDim.h: m_data; src/gsMaterialMatrixComposite.h: m_*container"),
  ("const evaluation entry points","src/gsMaterialMatrix*.hpp: eval3D_*, density_into, thickness_into, ...")],None,["eval3D_*","eval_into"])
add("C03","Parallel error estimation and integrals equal the sequential ones",
 "In an OpenMP build, for every team size and interleaving, goal functionals, goal-oriented error estimates (global and element-wise, including the distribution of point loads over elements), areas, displacement norms, energies and interface errors equal the single-threaded values up to rounding, and each element's error is attributed to that same element.",
 ["schedules","inputs","configurations"],"all team sizes 1..8, all interleavings, all goal functionals and norms of the scenario generator",
 "OpenMP is off in the tested build; attribution of errors to elements depends on who inserts first.",
 ["src/gsThinShellAssemblerDWR.hpp","src/gsThinShellAssemblerDWR.h",A],
 [("element-wise error and point-load distribution","src/gsThinShellAssemblerDWR.hpp: computeError*_impl, _applyLoadsToElWiseError, computeGoal*"),
  ("evaluator integrals",A+": getArea, getDisplacementNorm, getElasticEnergy, interfaceError*")],None,["computeErrorElements","computeError","computeGoal","getArea","interfaceError*"])
add("F01","A failed assembly never reports success",
 "Whenever something an assembly needs fails at any point of it (a load, thickness, density, parameter, pressure, foundation or boundary function throws anything, std::bad_alloc included), the assembly either returns a status other than success, which the object's status query then also reports, or lets an exception out; it returns success only if the system it leaves is the complete one.",
 ["fault_sequences","inputs","histories"],"every assembly operation, every call of a caller's function at which a fault can hit, every configuration of the generator",
 "Tests contain no failing function, and the failing call can be any of thousands per assembly.",
 [A,"src/gsThinShellAssemblerDWR.hpp"],
 [("catch-all status handlers",A+": assemble_impl ... assembleFoundationVector; src/gsThinShellAssemblerDWR.hpp: _assemble*")],
 [("m_status","status of the last operation","src/gsThinShellAssembler.h:703")],["return value of assemble*","status()"])
add("F02","Recovery: after a failure the next operation is as on a fresh object",
 "Once faults stop, every operation on an assembler or error estimator that went through any number of failed operations, failed constructions and failed (then repeated) configuration changes succeeds, reports success and gives exactly the result a freshly constructed object with the same configuration gives; nothing from the interrupted operation leaks into it.",
 ["fault_sequences","histories","inputs"],"all sequences of failing and succeeding operations of the generator, every fault position",
 "The state left behind depends on where inside an assembly the fault struck.",
 [A,"src/gsThinShellAssemblerDWR.hpp","src/gsMaterialMatrixBaseDim.hpp"],
 [("cleanUp and re-initialisation at operation start",A+": every assemble*"),("status reset",A)],None,["matrix()","rhs()","status()","eval results"])
add("F03","Operations never modify the caller's data, even when they fail",
 "Assembling, evaluating, reconstructing solutions, integrating and estimating errors leave every object passed in (geometry, deformed geometry, boundary conditions, functions, solution vectors, point loads, options of the materials) exactly as it was, and leave the registered configuration of the assembler (loads, options, geometry, basis) unchanged, whether the operation succeeds or fails at any point.",
 ["fault_sequences","histories","inputs"],"all operations, all fault positions, all configurations of the generator",
 "Tests do not re-inspect arguments after a failing call.",
 [A,AH,"src/gsThinShellAssemblerDWR.hpp"],
 [("const arguments, internally copied geometry",A+": assemble*, constructSolution, constructDisplacement, updateMultiPatch")],None,["arguments before/after","options()","geometry()"])
add("H01","Results depend on the configuration, not on the history",
 "The matrix, right-hand side, status, reconstructed geometry, boundary force, norm or error estimate that an operation delivers depends only on the object's current configuration and the operation's arguments: after any sequence of other successful operations it is exactly what a freshly constructed object with the same configuration delivers.",
 ["histories","inputs","configurations"],"all operation sequences of the generator over linear/nonlinear/mass/pressure/foundation assembly, evaluation, reconstruction, error estimation",
 "Tests call each operation in one fixed order on one object.",
 [A,AH,"src/gsThinShellAssemblerDWR.hpp"],
 [("re-initialisation at operation start",A+": cleanUp/initSystem/_assembleDirichlet/homogenize in each assemble*"),("cached right-hand side",AH+": rhs(), m_rhs")],
 [("m_rhs","right-hand side with point loads","src/gsThinShellAssembler.h:689"),("m_ddofs","Dirichlet values","src/gsThinShellAssembler.h:674")],["matrix()","rhs()","status()"])
add("H02","Configuration changes act as if set from the start and persist",
 "Pressure, foundation, point loads, boundary conditions, geometry, basis, interface coupling, options and goal function set on an assembler or error estimator, and thickness, parameters and density set on a material, stay in effect through all later operations and unrelated configuration changes until they are replaced, and a reconfigured assembler behaves exactly like one constructed and configured directly with the final configuration.",
 ["histories","configurations"],"all sequences of setters, option changes and assemblies of the generator",
 "The number of setter orders is factorial; tests set everything once before the first assembly.",
 [A,AH],
 [("setters",AH+": setPointLoads, setFoundation, setPressure, updateBCs, setGeometry, setBasis, setSpaceBasis, setOptions, add*"),("_initialize/_getOptions",A)],
 [("m_foundInd/m_pressInd","pressure/foundation registered","src/gsThinShellAssembler.h:693")],["matrix()","rhs()"])
add("H03","Copies and originals are independent",
 "A copied, assigned or moved assembler, a cloned material and a material added by value to a container keep working and give the same results as the original did at the moment of the copy, whatever is later done to the original (operations, reconfiguration, failures, destruction) and vice versa.",
 ["histories","fault_sequences"],"all interleavings of operations on the original and the copy, including destruction",
 "Tests do not copy assemblers.",
 [A,AH,"src/gsMaterialMatrixContainer.hpp","src/gsMaterialMatrixBaseDim.h","src/gsMaterialMatrixTFT.h"],
 [("copy and move assignment",A+": operator="),("clone",  "src/gsMaterialMatrix*.h: GISMO_CLONE_FUNCTION"),("container add/set by reference","src/gsMaterialMatrixContainer.hpp")],None,["matrix()","rhs()","eval results"])
add("H04","Material evaluation has no memory",
 "What a material, a clone of it, or an evaluator created for it returns for given points, patch and geometry does not depend on which other evaluations (other points, patches, outputs, thickness positions, geometries, failed evaluations) were made before on the same material, nor on other materials and evaluators that were created and used in between.",
 ["histories","fault_sequences","inputs"],"all sequences of evaluations, failed evaluations and geometry/parameter changes of the generator, all material laws",
 "Scratch data is reused between calls; tests evaluate each quantity once in a fixed order.",
 ["src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixComposite.hpp","src/gsMaterialMatrixTFT.hpp","src/gsMaterialMatrixEval.hpp","src/gsMaterialMatrixIntegrate.hpp"],
 [("recomputation of kinematics per call","src/gsMaterialMatrixBaseDim.hpp: _computePoints, _computeMetric*, _getMetric*")],
 [("m_data","kinematic scratch","src/gsMaterialMatrixBaseDim.h:444")],["eval3D_*","eval_into"])
add("M01","No operation, failed or not, corrupts or leaks memory",
 "In every sequence of constructions, operations, configuration changes, copies and destructions in which the caller's functions fail at arbitrary points, no operation touches memory that is not its own, frees something twice or aborts the process, and once all objects are destroyed everything the module allocated has been released.",
 ["fault_sequences","histories"],"all operations, all fault positions of the generator",
 "A throwing callback in the middle of an assembly or a construction does not occur in tests.",
 [A,"src/gsThinShellAssemblerDWR.hpp","src/gsMaterialMatrixEval.hpp","src/gsMaterialMatrixIntegrate.hpp","src/gsMaterialMatrixXml.hpp"],
 [("ownership of pieces, materials and sub-assemblers","src/gsMaterialMatrixEval.hpp: _makePieces; src/gsThinShellAssemblerDWR.hpp constructors")],None,["allocator","process exit"])
add("X01","A stored material reads back identical or not at all",
 "A material (St.Venant-Kirchhoff, neo-Hookean, extended neo-Hookean, Mooney-Rivlin or Ogden law, with or without tension field; thickness, density and parameters given by function expressions) written to an XML file and read back, alone or as part of a material container, after any sequence of writing, overwriting, reading and rewriting files and in whatever order the indexed entries appear, has the thickness, density, parameters, stress and material matrix of the original. Reading a file whose writing failed or was cut short, or in which a block, a required element or a required attribute is missing or an index is out of range, either yields the original or fails visibly (exception, null result, not-a-number); it never crashes and never silently yields another material.",
 ["crash_points","fault_sequences","inputs"],"histories of up to 25 steps over three files; every write, read and open may fail, a crash may leave any prefix or lose any sector, any element or attribute may be missing",
 "A crash can leave any prefix of the file; tests read a handful of intact files.",
 ["src/gsMaterialMatrixXml.hpp","src/gsMaterialMatrixContainer.hpp","src/gsMaterialMatrixUtils.h","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixNonlinear.hpp"],
 [("reader and writer","src/gsMaterialMatrixXml.hpp; src/gsMaterialMatrixContainer.hpp: get_into; src/gsMaterialMatrixXml.hpp: getMaterialMatrixFromXml/putMaterialMatrixToXml")],None,["gsFileData read/write, evaluation of the loaded material"])
# --- pure-function properties, not decidable by this technique
pure=[
("N01","The tangent matrix is the derivative of the residual","For every deformation the tangent stiffness matrix equals the derivative of the assembled residual with respect to the degrees of freedom.",[A],[("assembleMatrix/assembleVector",A)]),
("N02","Stiffness and mass matrices are symmetric and mass is positive definite","For every problem with conservative loads the stiffness matrix is symmetric, and the mass matrix is symmetric positive definite and sums to the mass of the shell.",[A],[("assemble_impl, assembleMass",A)]),
("N03","Rigid motions produce no stress","A rigid-body translation or rotation of the reference geometry yields zero strain, stress and internal force for every material law.",["src/gsMaterialMatrixBaseDim.hpp"],[("_computeMetric","src/gsMaterialMatrixBaseDim.hpp")]),
("N04","Equivalent implementations of a material law agree","Analytical, generalised and spectral implementations of the same hyperelastic law give the same stress and tangent, and the compressible law tends to the incompressible one.",["src/gsMaterialMatrixNonlinear.hpp"],[("_Sij/_Cijkl","src/gsMaterialMatrixNonlinear.hpp")]),
("N05","Through-thickness moments are the integrals of the pointwise quantities","The A, B, C and D matrices and the N and M resultants equal the exact through-thickness moments of the pointwise material matrix and stress.",["src/gsMaterialMatrixIntegrate.hpp"],[("integrateZ_into","src/gsMaterialMatrixIntegrate.hpp")]),
("N06","Strong and weak coupling agree in the limit","Weakly coupled patches converge to the strongly coupled solution as the penalty grows, and the interface errors tend to zero.",[A],[("_assembleWeakIfc",A)]),
("N07","Tension-field states partition the strain space","Every strain state is classified as exactly one of taut, slack and wrinkled, and the wrinkled stress is uniaxial and non-negative.",["src/gsMaterialMatrixTFT.hpp"],[("_compute_TF","src/gsMaterialMatrixTFT.hpp")]),
("N08","Element error contributions sum to the global estimate","The element-wise goal-oriented error contributions of a solution sum to the global error estimate.",["src/gsThinShellAssemblerDWR.hpp"],[("computeError*","src/gsThinShellAssemblerDWR.hpp")]),
("N09","Solution vector and geometry are inverse representations","Reconstructing the deformed geometry from a solution vector and extracting the vector again gives the same vector for every set of boundary conditions.",[A],[("constructSolution/constructSolutionVector",A)]),
]
for id,t,s,f,m in pure:
    add(id,t,s,["inputs"],"all inputs","Tests sample a few geometries, materials and loads.",f,m)
with open("/verif/properties.jsonl","w") as fo:
    for p in P: fo.write(json.dumps(p)+"\n")
