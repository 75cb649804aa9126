"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=a), technique, note))


prop("C01", "Building and simplifying an expression preserves its value and shape",
     "Whatever expression a user composes from numbers, symbols, vectors and matrices, the expression object denotes "
     "the value and has the shape of the mathematical formula it was written for, wherever that formula is defined. "
     "Simplifying it, once or repeatedly, changes neither its value nor its shape, nor the value of any other "
     "expression that shares parts with it.",
     ["inputs", "programs"],
     "all well-typed expressions over scalars, vectors, matrices and the offered operators and functions, and all "
     "valuations of their symbols away from poles, jumps and branch cuts",
     "The unit tests compare a few dozen hand-picked expressions with the expected text; the rewriting rules interact, "
     "and a wrong merge only shows for particular combinations of operands, shapes and sharing.",
     ["symbolics/functions/Mul.cpp", "symbolics/functions/Add.cpp", "symbolics/functions/Pow.cpp",
      "symbolics/Matrix.cpp", "symbolics/functions/Element.cpp", "symbolics/functions/Operators.cpp"],
     [("constant folding and operand merging", "symbolics/functions/Add.cpp, Mul.cpp, Pow.cpp: simplify and New"),
      ("function identities", "symbolics/functions/*.cpp: simplify"),
      ("ordering used as a merge key", "symbolics/functions/Operators.cpp, NaryOp.cpp, Matrix.cpp: operator<")],
     "property-based testing: random typed expression trees, differential oracle against an independent numpy "
     "evaluator at several points, metamorphic relation simplified/unsimplified, shrinking",
     "value compared at up to 4 points per expression with relative tolerance 1e-8 of the largest intermediate value; "
     "shapes compared exactly")


prop("C02", "Derivatives and Jacobians are those of the expressed formula",
     "The partial derivative of an expression by a symbol or by one element of a vector or matrix symbol, its total "
     "time derivative (in terms of the rates of the symbols) and its Jacobian by a list of symbols have the value and "
     "the shape of the mathematical derivative, wherever the formula is differentiable. This holds for second "
     "derivatives too and whether the expression was simplified before or not, and differentiating never changes the "
     "value of the expression it was applied to.",
     ["inputs", "programs"],
     "all well-typed expressions, all symbols and all valuations where the formula is smooth",
     "Each derivative rule is exercised by a couple of unit tests on bare symbols; chain and product rules for nested, "
     "shared, matrix-valued and conditional operands are combinations no list of examples covers.",
     ["symbolics/functions/Mul.cpp", "symbolics/functions/Pow.cpp", "symbolics/functions/Jacobian.cpp",
      "symbolics/functions/Der.cpp", "symbolics/functions/Atan2.cpp", "symbolics/Matrix.cpp", "symbolics/Symbol.cpp"],
     [("derivative rules", "symbolics/functions/*.cpp and include/*.h: der()"),
      ("Jacobian expansion", "symbolics/functions/Jacobian.cpp: New"),
      ("Python entry points", "symbolics/wrapper/CDer.cpp, CJacobian.cpp")],
     "property-based testing: random expression trees, differential oracle against extrapolated central differences of "
     "an independent numpy evaluator, shrinking",
     "tolerance 2e-5 relative (5e-4 for second derivatives) plus 20 times the estimated error of the numerical "
     "derivative; points where that estimate is poor are skipped")


prop("C03", "Equality of expressions is truthful and symmetric; atoms() lists the symbols",
     "Two expressions that compare equal have the same value everywhere, the comparison is symmetric and == and != "
     "always contradict each other; a formula written down twice, also after simplification of both, is equal to "
     "itself, and so are sums and products of scalars whose operands are reordered. The atoms of an expression are "
     "exactly symbols it was built from, each listed once, equal to the original symbol, and include every symbol its "
     "value depends on.",
     ["inputs", "programs"],
     "all pairs of well-typed expressions, in particular pairs that differ in one operand, operator, number or index",
     "Equality is used as a merge key by every simplification and by the graph; each node type has its own comparison, "
     "and unit tests compare only a few pairs.",
     ["symbolics/functions/Operators.cpp", "symbolics/NaryOp.cpp", "symbolics/Matrix.cpp", "symbolics/Basic.cpp",
      "symbolics/wrapper/CBasic.cpp"],
     [("comparison operators of the node types", "symbolics/functions/*.cpp: operator==, operator<"),
      ("rich comparison for Python", "symbolics/wrapper/CBasic.cpp"),
      ("collection of atoms", "symbolics/Basic.cpp: getAtoms")],
     "property-based testing: random expressions against slightly mutated, rebuilt and reordered copies, oracle: "
     "independent numpy evaluation at several points, shrinking",
     "values compared at up to 4 points; all zeros count as equal whatever their shape, as the library documents by "
     "its tests")


prop("C04", "Matrices are containers: written elements are read back, nothing else changes",
     "Elements and slices read from a vector, matrix or matrix-valued expression are the elements of its value at these "
     "positions, and assigning an element or slice changes exactly these elements of exactly this object, whatever other "
     "objects or earlier expressions it was combined with, copied from or derived from. Operations that make no sense "
     "(indices outside the shape, operands or assigned parts of other shapes, ragged or nested lists, numbers that are "
     "no numbers) are refused with an exception and change nothing.",
     ["inputs", "histories"],
     "all sequences of constructing, combining, reading, writing and simplifying vectors and matrices",
     "Sharing of nodes between objects only shows after a particular order of deriving, writing and reading; unit tests "
     "set an element of a fresh matrix and read it once.",
     ["symbolics/wrapper/CBasic.cpp", "symbolics/wrapper/CMatrix.cpp", "symbolics/wrapper/convert.cpp",
      "symbolics/Matrix.cpp", "symbolics/functions/Element.cpp", "symbolics/Shape.cpp"],
     [("indexing and slicing", "symbolics/wrapper/CBasic.cpp: getIndex, CBasic_get, CBasic_set"),
      ("element rules", "symbolics/functions/Element.cpp: New, simplify"),
      ("shape validation", "symbolics/Shape.cpp, symbolics/functions/*.cpp: validate, New")],
     "property-based testing: stateful, random histories next to a reference model of plain numpy arrays, shrinking",
     "all pool objects are compared with the model after every write and every refused operation")


prop("C07", "The ordered assignments of a graph reproduce the system of equations",
     "For every wanted quantity (derivatives of the states, sensors, graphics) the assignments a graph delivers, carried "
     "out in the delivered order, compute the value that the entered equations define, using only given values and values "
     "computed before, each computed once; simultaneous equations are delivered as one block that their solution "
     "satisfies. Optimizing the graph, the order in which variables and equations were entered, and asking again change "
     "nothing about the values, nor do other graphs in the same session.",
     ["inputs", "programs"],
     "all systems of equations over scalar, vector and matrix quantities that determine their unknowns, and all values of "
     "states, parameters and inputs",
     "Ordering, matching and the substitutions of the optimisation depend on the structure of the whole system; unit tests "
     "build a handful of small systems and compare a text.",
     ["symbolics/graph/Graph.cpp", "symbolics/graph/PastOptimisation.cpp", "symbolics/graph/PreOptimisation.cpp",
      "symbolics/graph/MatchedSystem.cpp", "symbolics/graph/UnMatchedSystem.cpp", "symbolics/graph/Equation.cpp",
      "symbolics/graph/Node.cpp", "pymbs/symbolics/graph.py"],
     [("ordering by dependencies", "symbolics/graph/Node.cpp: findParentsNodes, node_iterate_depth_first"),
      ("substitution of aliases and constants", "symbolics/graph/PastOptimisation.cpp: process_Node, subs_Node"),
      ("matching and blocks", "symbolics/graph/UnMatchedSystem.cpp: pathFound, strongConnect, buildNodes")],
     "property-based testing: random systems of equations, the delivered assignments are executed and compared with an "
     "independent evaluation of the definitions; metamorphic relation plain/optimized, shrinking",
     "up to 12 intermediate quantities and blocks of up to 5 linear scalar equations; values compared at up to 3 points, "
     "relative tolerance 1e-8 of the largest intermediate value")


prop("C08", "The graph refuses systems that do not determine their unknowns, and only those",
     "A system of equations in which every needed quantity is given or determined exactly once is accepted. If a needed "
     "quantity lacks its equation or has two, is given an equation although it is a state, an input or the time, depends "
     "on itself directly or around a loop, is unknown to the graph or entered twice, has the wrong shape, or a start value "
     "is not a constant, the user gets an error instead of a model with wrong or missing equations.",
     ["inputs", "programs"],
     "all systems of equations with at most one such fault at any place, entered in any order",
     "Each error is tested for one tiny system; whether a fault is seen depends on where it sits and on the order of entry.",
     ["symbolics/graph/EquationSystem.cpp", "symbolics/graph/MatchedSystem.cpp", "symbolics/graph/UnMatchedSystem.cpp",
      "symbolics/graph/Node.cpp", "pymbs/symbolics/graph.py"],
     [("checks of an entered equation", "symbolics/graph/EquationSystem.cpp: addEquation, checkEquation, addSymbol"),
      ("checks when building", "symbolics/graph/MatchedSystem.cpp, UnMatchedSystem.cpp, Node.cpp: findParentsNodes")],
     "property-based testing: random sound systems (must be accepted) and the same systems with one planted fault of 19 "
     "kinds (must be refused), shrinking",
     "a quantity that nothing depends on may stay without equation; residual equations only for the count faults")


prop("C05", "Generated C and Fortran code computes the quantities of the system",
     "For every system of equations that the writer for C or Fortran accepts, the written files are accepted by the "
     "compiler, and the compiled functions return for all states, inputs and times the derivatives (in the order of the "
     "state vector), sensors and graphics that the equations define, with every parameter and constant at its value; they "
     "change neither states nor inputs. What the language cannot express is refused with an error. Writing the graph in "
     "another language before does not change the result.",
     ["inputs", "programs"],
     "all systems of explicit equations without simultaneous blocks; for C without matrix inverses and powers inside "
     "expressions, for Fortran without conditions and sign(0); graphics that do not depend on the time",
     "Unit tests write two pendulum models and look at neither text nor values; every place where an index, a declaration or "
     "an operator is printed depends on the shapes and names in the model.",
     ["symbolics/writer/CWriter.cpp", "symbolics/writer/FortranWriter.cpp", "symbolics/writer/Writer.cpp",
      "symbolics/printer/CPrinter.cpp", "symbolics/printer/FortranPrinter.cpp", "symbolics/graph/EquationSystem.cpp"],
     [("interface, declarations and state vector", "symbolics/writer/CWriter.cpp, FortranWriter.cpp: generateDerState, "
       "generateSensors, generateVisual"),
      ("expressions", "symbolics/printer/CPrinter.cpp, FortranPrinter.cpp"),
      ("elementwise form of the equations", "symbolics/graph/EquationSystem.cpp: makeScalar"),
      ("linear solvers", "functionmodule.c and functionmodule.f90 as written by generateFunctionmodule")],
     "property-based testing: random systems of equations are written, compiled with gcc and gfortran and run; differential "
     "against an independent evaluation of the definitions, shrinking",
     "up to 6 intermediate quantities, up to 5 states of up to 4 elements; three points; relative tolerance 1e-8 of the "
     "largest intermediate value")


prop("C06", "Generated Matlab and Modelica code computes the quantities of the system",
     "For every system of equations that the writer for Matlab or Modelica accepts without an error message, the written files "
     "are programs of the language: every name is declared or assigned before its use and operands have fitting dimensions. The "
     "Matlab functions return for all states, inputs and times the derivatives (in the order of the state vector) and sensors that "
     "the equations define, with the state given as a column or (for the sensors) as a row, and the script starts from the start "
     "values; with symbolic_mode the results are these in terms of the symbols. The Modelica model has as many equations as "
     "unknowns, declares every quantity once with its dimensions, kind, value and start value, and its equations have the "
     "derivatives, sensors and graphics of the system as their solution; visual files show the graphics of the model. The models "
     "of a multibody system compute the same as the generated Python. Writing in another language before changes nothing.",
     ["inputs", "programs"],
     "all systems of explicit equations without simultaneous blocks; without what the writer says the language cannot express (for "
     "Matlab conditions, elements and cross product matrices of expressions); in symbolic mode without sign(0)",
     "Unit tests write one model for Matlab and one for Modelica and look at nothing; neither tool was at hand when code was "
     "changed, and every place where an index, a declaration or an operator is printed depends on the model.",
     ["symbolics/writer/MatlabWriter.cpp", "symbolics/writer/ModelicaWriter.cpp", "symbolics/printer/MatlabPrinter.cpp",
      "symbolics/printer/MatlabSymPrinter.cpp", "symbolics/printer/ModelicaPrinter.cpp", "symbolics/graph/Graph.cpp",
      "pymbs/input/mbs_system.py"],
     [("functions, states and scripts", "symbolics/writer/MatlabWriter.cpp"),
      ("declarations and equations", "symbolics/writer/ModelicaWriter.cpp: generateTarget_Impl"),
      ("expressions", "symbolics/printer/MatlabPrinter.cpp, MatlabSymPrinter.cpp, ModelicaPrinter.cpp"),
      ("elements of partly used variables", "symbolics/graph/Graph.cpp: getAssignments"),
      ("visual files", "pymbs/input/mbs_system.py: GenCode.Modelica")],
     "property-based testing: random systems of equations and multibody systems are written and interpreted by own strict "
     "interpreters for the parts of Matlab and Modelica that occur; differential against an independent evaluation of the "
     "definitions and against generated Python, shrinking",
     "up to 6 intermediate quantities, up to 5 states of up to 4 elements; three points; relative tolerance 1e-8 of the "
     "largest intermediate value; the interpreters stand in for the tools")


prop("C09", "Generated Python code computes the quantities of the system",
     "For every system of equations that the Python writer accepts, the written modules can be imported and their functions "
     "return for all states, inputs and times the derivatives (in the order of the state vector), sensors and graphics that "
     "the equations define; inputs start at their start values and follow setInputs, controllers are called with time, "
     "states and sensors. Systems with simultaneous equations, for which assignments do not suffice, are refused.",
     ["inputs", "programs"],
     "all systems of equations over scalar, vector and matrix quantities; names that are no names of the generated module",
     "Unit tests write two pendulum models and do not run them; the offsets in the state vector, the shapes of inputs, the "
     "imported functions and the order of evaluation depend on the model.",
     ["symbolics/writer/PythonWriter.cpp", "symbolics/writer/Writer.cpp", "symbolics/printer/PythonPrinter.cpp",
      "symbolics/printer/Printer.cpp"],
     [("state vector, inputs, controllers, results", "symbolics/writer/PythonWriter.cpp: generateDerState, generateSensors, "
       "generateVisualSensors, writeEquations"),
      ("expressions", "symbolics/printer/PythonPrinter.cpp")],
     "property-based testing: random systems of equations are written, the modules are run; differential against an "
     "independent evaluation of the definitions, shrinking",
     "up to 6 intermediate quantities, up to 5 states of up to 4 elements; three points; relative tolerance 1e-8 of the "
     "largest intermediate value")


prop("C10", "Equations of motion of trees follow the laws of mechanics",
     "For every tree of rigid bodies - any frames, joints with any sequence of elementary movements, masses, inertias, centres "
     "of gravity, gravity - each of the three formulations (Explicit, Recursive, OrderN), with and without simplification and "
     "optimization, generates a model whose derivatives of the state are the accelerations that Newton's and Euler's laws "
     "give, at every position and velocity; the state vector holds every joint coordinate once, with its start values.",
     ["inputs", "programs"],
     "trees of up to 6 bodies and 8 degrees of freedom (4 in Explicit mode) with regular mass matrix; numbers and parameters",
     "Unit tests build a handful of systems and look only at whether equations are generated; sign and frame errors appear only "
     "for certain joint sequences, rotated frames and velocities.",
     ["pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py",
      "pymbs/processing/generator_order_n.py", "pymbs/processing/generator.py", "pymbs/processing/joint.py",
      "pymbs/processing/frame.py", "pymbs/input/transformation.py", "pymbs/input/mbs_system.py"],
     [("formulations", "pymbs/processing/generator_explicit.py, generator_recursive.py, generator_order_n.py"),
      ("joints and frames", "pymbs/input/mbs_system.py: addJoint, addFrame; pymbs/input/transformation.py; "
       "pymbs/processing/joint.py, frame.py")],
     "property-based testing: random trees are built through the public interface, the generated Python model is run; "
     "differential against an independent evaluation by vector kinematics and virtual power, shrinking",
     "up to 6 bodies, 8 degrees of freedom; three states each; relative tolerance 1e-7 of the largest force times the norm of "
     "the inverse mass matrix")

prop("C12", "Sensors measure the motion of the system",
     "For every tree and every sensor between any two places (world, bodies, frames, with any frame of reference) the "
     "generated model returns the value that the motion has: distance and its rate, position, velocity, acceleration, angular "
     "velocity and acceleration from the first to the second place, orientation, joint coordinates, energy, centre of mass, "
     "and in Recursive mode the force and torque a joint transmits.",
     ["inputs", "programs"],
     "trees as in C10, with loads; constraint forces and torques in Recursive mode only (others do not offer them); at most "
     "one sensor of the energy of the whole system; distances that are not zero",
     "Unit tests generate sensors for a few systems without running them; frames of reference, moving places and terms with "
     "accelerations need arbitrary motion.",
     ["pymbs/processing/sensors/*.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py",
      "pymbs/processing/generator_order_n.py", "pymbs/input/sensors.py", "pymbs/input/mbs_system.py"],
     [("sensor equations", "pymbs/processing/sensors/*.py"),
      ("kinematics of the frames", "pymbs/processing/generator_*.py: calcFrames and forward recursions"),
      ("joint reactions", "pymbs/processing/generator_recursive.py: second backward recursion")],
     "property-based testing: random trees with random sensors, the generated model is run; differential against an "
     "independent evaluation of the motion (and of the joint reactions from Newton's and Euler's laws), shrinking",
     "up to 4 bodies, 6 degrees of freedom, 6 sensors; three states; relative tolerance 1e-7")

prop("C13", "Loads act where and as they are defined",
     "For every tree and every combination of loads - at joints, point to point, component forces and torques between any two "
     "places in any frame of reference, with constant, parametric, input or sensor dependent values - all formulations give the "
     "accelerations that result from the virtual power of these loads; force and reaction act on both ends, several loads add.",
     ["inputs", "programs"],
     "trees as in C10; at most one load per joint coordinate; point-to-point forces between places that do not coincide",
     "Unit tests do not compare motion under loads; mistakes show only for places off the body frame, rotated references, "
     "loads between two moving bodies or several loads at once.",
     ["pymbs/processing/loads/*.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py",
      "pymbs/processing/generator_order_n.py", "pymbs/input/loads.py", "pymbs/input/transformation.py"],
     [("force laws", "pymbs/processing/loads/*.py"), ("distribution to the bodies", "pymbs/processing/generator_*.py"),
      ("user interface", "pymbs/input/mbs_system.py: AddLoad; pymbs/input/transformation.py: loads")],
     "property-based testing: random trees with random loads, the generated model is run; differential against virtual power "
     "of the loads evaluated independently, shrinking",
     "up to 4 bodies, 6 degrees of freedom, 5 loads; three states, two sets of inputs; relative tolerance 1e-7")


prop("C14", "Mechanisms with loops stay closed and follow the laws of mechanics",
     "For every planar mechanism made of the offered loops (four bar, crank slider, three bar and four bar with slider, "
     "transmission), alone, several or nested, on the world or on moving bodies, with loads and sensors: at every position "
     "where the loops can be closed the generated model closes them, in the chosen posture; velocities and accelerations of the "
     "dependent coordinates belong to it, the accelerations are those of d'Alembert's principle, sensors measure this motion, "
     "and each loop removes exactly its dependent coordinates from the state.",
     ["inputs", "programs"],
     "Explicit and Recursive mode (OrderN refuses loops); geometries the loops document (no offsets where they demand none); "
     "positions at least 0.02 off singular ones",
     "Unit tests check that a few mechanisms can be generated; dependent coordinates and their derivatives are only right "
     "everywhere if they are compared at arbitrary geometry and position, including aligned bars, kites and parallelograms.",
     ["pymbs/processing/loops/fourbar.py", "pymbs/processing/loops/crank_slider.py", "pymbs/processing/loops/threebar_trans.py",
      "pymbs/processing/loops/fourbar_trans.py", "pymbs/processing/loops/transmission.py",
      "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator.py",
      "pymbs/input/transformation.py", "pymbs/input/constraints.py"],
     [("loop equations", "pymbs/processing/loops/*.py: calc"),
      ("reduction to the independent coordinates", "pymbs/processing/generator_explicit.py, generator_recursive.py"),
      ("construction", "pymbs/input/mbs_system.py: AddLoop; pymbs/input/transformation.py: loops")],
     "property-based testing: random mechanisms are built through the public interface, the generated model is run; closure is "
     "decided from the geometry, accelerations by an independent projection of the equations of motion, shrinking",
     "up to 3 loops; six states each, three of them at multiples of 45 degrees; relative tolerance 1e-7")


prop("C15", "What counts is the system, not how it is described",
     "Bodies connected by fixed joints (to each other or to the world, in chains, with frames and loads on them) move as one "
     "rigid body with the mass, centre of gravity and inertia they have together; massless frames, nested arbitrarily, only "
     "select places; names of bodies, joints, frames, loads and sensors and the order in which things are added influence "
     "neither accelerations nor sensor values. All formulations.",
     ["inputs", "programs"],
     "trees as in C10; names that are refused (used twice, or not to be told apart inside) are outside the domain, as are sensors "
     "of energy on bodies with fixed joints",
     "Fixed joints are merged before equations are generated; a mistake in one of the terms (parallel axes, rotation, order of "
     "chains) only shows for general positions. Clashes of generated names depend on combinations of names.",
     ["pymbs/input/transformation.py", "pymbs/input/mbs_system.py", "pymbs/processing/generator*.py"],
     [("merging of fixed joints", "pymbs/input/transformation.py: eliminateFixedJoints and helpers"),
      ("order of bodies and joints", "pymbs/input/transformation.py: genJoints, sort; pymbs/processing/generator*.py")],
     "property-based testing: random trees with fixed joints, nested frames, permuted construction and adversarial names are "
     "built and run; differential against an independent model that knows neither, shrinking",
     "up to 5 bodies, 9 frames; three states, relative tolerance 1e-7")


prop("C11", "All formulations and options yield the same model",
     "Explicit, Recursive and OrderN formulation (the latter without loops), with and without simplification and graph "
     "optimisations, give the same derivatives of the state and the same sensor values for every system; a model generated with "
     "kinematicsOnly has the same state and the same positions, orientations, velocities and dependent coordinates as the full one.",
     ["inputs", "programs"],
     "trees and mechanisms as in C10 and C14; position and velocity sensors with kinematicsOnly",
     "The formulations share little code, and optimisations rewrite all equations; a mistake in one of them shows as disagreement "
     "for particular systems, mostly larger ones than tests use.",
     ["pymbs/processing/generator*.py", "pymbs/input/mbs_system.py", "pymbs/input/transformation.py", "symbolics/graph/*.cpp",
      "symbolics/symbolics/Graph*.cpp"],
     [("formulations", "pymbs/processing/generator_explicit.py, generator_recursive.py, generator_order_n.py"),
      ("kinematicsOnly", "pymbs/processing/generator*.py: defineStates, handleLoops"),
      ("optimisation", "symbolics/graph/*Optimisation*.cpp; pymbs/input/mbs_system.py: genEquations")],
     "property-based testing: random systems are generated in several ways and run; differential between the ways, shrinking",
     "trees with up to 9 bodies and 10 degrees of freedom, up to two loops; two or three states, relative tolerance 1e-7")


prop("C16", "Generated models obey the balances and symmetries of mechanics",
     "From its own accelerations and sensors, every generated model satisfies: its energy changes with the power of its loads (and "
     "stays over time without loads, for trees and mechanisms); the centre of mass of a free system accelerates with gravity "
     "whatever acts inside; motion can be reversed; uniform motion of a free system is not felt; scaling masses and lengths "
     "(times accordingly) scales accelerations and all sensor values by their dimensions.",
     ["inputs", "programs", "histories"],
     "trees and mechanisms as in C10, C13, C14; differences are judged where Richardson extrapolation shows them to be fine enough",
     "Such balances need arbitrary states, trajectories and systems; no test checks them, and they fail for one wrong term in "
     "any of equations, loads or sensors.",
     ["pymbs/processing/generator*.py", "pymbs/processing/sensors/*.py", "pymbs/processing/loads/*.py", "pymbs/processing/loops/*.py",
      "symbolics/writer/PythonWriter.cpp"],
     [("energy", "pymbs/processing/sensors/energy_sensor.py"), ("centre of mass", "pymbs/input/mbs_system.py: AddSensor.CenterofMass"),
      ("equations of motion", "pymbs/processing/generator*.py"), ("loads", "pymbs/processing/loads/*.py")],
     "property-based testing: random systems and states, trajectories by Runge-Kutta; metamorphic relations and invariants over "
     "the history, without a reference model, shrinking",
     "up to 4 bodies and two loops; trajectories of 0.4 s; tolerances 1e-5 to 1e-8 plus the estimated error of differences")

prop("C17", "A multibody model computes the same in every language, with wrappers, controllers and graphics",
     "The model of one multibody system exported as C, as Fortran 90 and as Python (der_state, sensors, visual) gives the same "
     "state derivatives, sensors and poses of graphical objects for the same time, state and inputs, whatever was exported before; "
     "the generated Python wrappers around compiled C and Fortran models take and return the same quantities, with the same "
     "defaults of inputs; controllers are called with time, state and sensors and act as inputs; a graphical object is reported "
     "where the coordinate system it is attached to is.",
     ["inputs", "programs"],
     "trees and mechanisms as in C10, C12-C14 with inputs and graphics; languages refuse what they cannot express",
     "Users develop in Python and run in C or Fortran; the agreement concerns every equation of every system, tests compile none.",
     ["symbolics/writer/*.cpp", "symbolics/printer/*.cpp", "pymbs/input/mbs_system.py", "pymbs/processing/generator.py"],
     [("code for C", "symbolics/writer/CWriter.cpp"), ("code for Fortran", "symbolics/writer/FortranWriter.cpp"),
      ("wrappers", "symbolics/writer/CWriter.cpp: generatePymbsWrapper"), ("graphics", "pymbs/processing/generator.py: addGraphicSensors")],
     "property-based testing: random systems, differential between generated Python, compiled C and compiled Fortran, and against "
     "an independent reference model for sensors and graphics, shrinking",
     "up to 4 bodies or one loop, two states; f2py is replaced by a stand-in which calls the compiled function")

prop("C18", "Systems of one session are independent, refused calls change nothing, and output and simulation can be repeated",
     "Whatever happens in one session - several systems described, generated and written in alternation, other systems dropped, the "
     "same model written for other languages in any order, calls that are refused with an exception, lists shared between calls - "
     "every system afterwards has the motion and the sensors of its own description, written Python code included. Calls that cannot "
     "mean anything (names twice, wrong shapes, signs contradicting values, second joint of a body, missing frames) are refused. "
     "simulate() follows the laws of motion of its own system from the given position at rest, every time it is called.",
     ["histories"],
     "trees, fixed joints and mechanisms as in C10-C15; equations are generated once per system; the GUI is not covered",
     "Modelling sessions (notebooks, parameter studies) mix systems, languages and errors in any order; tests run one script per process.",
     ["pymbs/input/mbs_system.py", "pymbs/input/transformation.py", "pymbs/symbolics/graph.py", "symbolics/graph/*.cpp", "symbolics/writer/Writer.cpp"],
     [("state of the transformation", "pymbs/input/transformation.py: globals"), ("output leaves the graph alone", "symbolics/writer/Writer.cpp: generateTarget"),
      ("checks of arguments", "pymbs/input/mbs_system.py: add*"), ("simulation", "pymbs/input/mbs_system.py: simulate, pymbs/ui/integrator.py")],
     "stateful property-based testing: random interleavings of the construction of two or three systems with writers, evaluations, misuse and "
     "deletions; every system is finally compared with an independent reference model, simulations with Runge-Kutta on it, shrinking",
     "up to 3 systems of up to 4 bodies, schedules of up to 60 steps, simulations of up to 4 steps with the tolerance of the integrator (1e-3)")

prop("C19", "Helpers, other forms of arguments and expressions of the user mean what they stand for",
     "A system built with the assemblies of sensors and loads (spring-damper, hydraulic cylinder, tyre, contact, motion platform, "
     "graphics), with arguments in any accepted form (numbers, parameters, parameters of several numbers or given by formulas of "
     "others, lists, vectors, columns, matrices, the six numbers of a tensor, rotations about an axis, defaults, frames as "
     "attributes), with loads and sensors that are expressions of other sensors, inputs, parameters and time, has the motion and "
     "the sensors of the same system written out in basic calls. getParameters, getMotionEquations and getSensorEquations hand out "
     "the parameters, the motion and the sensors of the system. The functions of pymbs.common.functions give the value of the "
     "formula they are named after, for numbers and for expressions, and refuse blocks that do not fit.",
     ["inputs", "programs"],
     "trees of rigid bodies as in C10-C12; expressions of elementary functions; flexible bodies are not covered",
     "Each helper is a few calls whose signs, frames and order of arguments decide; examples use each with one form of its arguments, "
     "and no test evaluates the equations handed to the user.",
     ["pymbs/input/mbs_system.py", "pymbs/common/functions.py", "pymbs/common/abstractbody.py", "pymbs/common/abstractframe.py"],
     [("assemblies", "pymbs/input/mbs_system.py: addSpringDamper, addHydCylSensorsLoads, addTyreSensorsLoads, addContactSensorsLoads, "
       "addMotionSystemSensors, addGraphicSensors"), ("parameters", "pymbs/input/mbs_system.py: addParam"),
      ("expressions", "pymbs/input/mbs_system.py: addExpression"), ("functions", "pymbs/common/functions.py")],
     "property-based testing: random systems with random assemblies, forms of arguments and expression trees, compared with an "
     "independent reference model of the system written out; random calls of the functions against numpy, shrinking",
     "up to 3 bodies and 4 degrees of freedom, up to 3 assemblies, expressions up to depth 3, two or three states each")

prop("C20", "No use of the symbolics module crashes the interpreter or corrupts memory",
     "Whatever sequence of calls is made through pymbs.symbolics - right or wrong arguments, any order, any lifetime of the objects "
     "involved, any system written in any language - every call returns or raises a Python exception, everything it returned can be "
     "printed and asked for its shape afterwards, and no call reads or writes memory that is not its own, or has undefined behaviour.",
     ["inputs", "histories"],
     "calls of the public names of pymbs.symbolics, sizes within the memory of the computer, the limited recursion depth of ordinary formulas",
     "The core is C++ with reference counting by hand; lifetimes and argument checks are exercised by sequences no unit test enumerates, "
     "and a corruption shows only under a sanitizer.",
     ["symbolics/wrapper/*.cpp", "symbolics/*.cpp", "symbolics/functions/*.cpp", "symbolics/graph/*.cpp", "symbolics/writer/*.cpp"],
     [("arguments", "symbolics/wrapper/convert.cpp, symbolics/wrapper/C*.cpp"), ("reference counting", "symbolics/include/intrusive_ptr.h, Basic.h")],
     "property-based fuzzing: random sequences of calls and lifetimes against the extension built with AddressSanitizer and "
     "UndefinedBehaviorSanitizer; each case is decided by survival, crashing cases are shrunk in forked children",
     "sequences of up to 35 calls; leaks are not looked for (the module keeps memory of every object); alignment and vptr checks are off")

prop("C21", "A model written as FMU describes itself correctly and computes the quantities of the system",
     "For every system written as FMU (genCode.FMU, writeCode \"fmu\") the package holds a well-formed description, the sources and, "
     "if asked for, the binary; the sources compile. The description lists every component of the states, its derivative (with the "
     "next value reference), and every sensor, graphics quantity, input and parameter that is used, with its role; the value references "
     "are distinct, as many as the code has numbers, and name in the code what they name in the description; identifier, GUID and number "
     "of states agree. A new instance has the start values of the system and parameters their values, also those given by formulas of "
     "other parameters. Whatever states, inputs and time are set, in any order, in several instances at a time, the derivatives and "
     "outputs read are those of the equations (of a multibody system: of the laws of motion), and nothing else is overwritten.",
     ["inputs", "programs"],
     "systems of equations as in C05; trees of rigid bodies as in C10-C12; names that are not names of the scalars of another variable "
     "(q_0 beside a vector q) or of C; parameters are not changed after instantiation; the template of the FMU SDK and 7-zip are stand-ins",
     "No test writes an FMU; the description and the code are written by separate passes that must agree for every choice of shapes and "
     "kinds of variables.",
     ["symbolics/writer/FMUWriter.cpp", "symbolics/printer/FMUPrinter.cpp", "symbolics/writer/CWriter.cpp"],
     [("description", "symbolics/writer/FMUWriter.cpp: generateXML"), ("model", "symbolics/writer/FMUWriter.cpp: generateModel"),
      ("names", "symbolics/printer/FMUPrinter.cpp"), ("package", "symbolics/writer/FMUWriter.cpp: generateTarget_Impl")],
     "property-based testing: random systems of equations and multibody systems written as FMU, unpacked, compiled, driven through a "
     "simulator's calls and compared with the definitions (multibody: an independent reference model), shrinking",
     "up to 5 states, 6 intermediate quantities; multibody up to 2 bodies and 3 degrees of freedom; three points, two instances")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                     "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": t,
                     "level": "exploration", "level_note": n} for p, t, n in P],
         "not_applicable": [],
         "notes": "No hooks in /repo. Every check builds the extension from /repo's working tree into /verif/build "
                  "(about 20 s) before it searches. VERIF_SEED selects the random seed. A violation names a replay "
                  "file; ./check.sh ID --replay FILE decides it again."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
