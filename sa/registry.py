"""Property registry: id -> rule function, explanation written into the evidence, and the texts that
gen.py turns into properties.jsonl and MANIFEST.json (one source, so they stay in step)."""
import ffi

REG = {}


def reg(pid, fn, title, statement, over, quant, why, files, mech, technique, explanation, note, **kw):
    assert len(title) <= 80, title
    REG[pid] = dict(fn=fn, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                    mech=mech, technique=technique, explanation=explanation, note=note, **kw)


FFI = "cavalier_contours_ffi/src/lib.rs"
FFI_NOTE = ("Every control-flow path of every exported C function is walked over the type-checked MIR of the current tree "
            "(crate-local helpers and closures inlined, loops widened); trusts rustc's MIR, the models of the std pointer, Box, "
            "Option, iterator and catch_unwind functions used there, and that the core library calls behave as their signatures say.")
AI = "path-sensitive abstract interpretation of the compiler's MIR"

reg("F01", ffi.check_null,
    "C API: null handles are rejected before any memory access",
    "When a C caller passes null for an object handle (or for the options struct of an option initialiser), the exported function "
    "returns status 1 - the free functions simply return - without reading or writing through any of its pointer arguments and without "
    "computing anything. An options pointer, an index pointer inside an options struct, and the vertex array given to polyline creation may be null and are never read through then.",
    ["inputs", "programs"], "every exported C function, every combination of null and non-null pointer arguments, every path",
    "FFI tests call each function with valid handles and a few null ones; a missing or misplaced null test is undefined behaviour that a test may survive, and each combination of pointers is its own path.",
    [FFI], [("null test at function entry", FFI), ("options/aabb_index null handling", FFI)],
    AI, "For each handle parameter the function is interpreted with that parameter null: it must return 1 (free functions: nothing) with no dereference, write, ownership transfer or library call; on unconstrained paths every dereference of a handle, option or nested index pointer must follow a null test of that pointer.", FFI_NOTE)

reg("F02", ffi.check_panic,
    "C API: no panic crosses the C boundary; statuses are the documented ones",
    "Every exported C function that returns a status performs all work that could panic inside a panic guard and reports a caught panic as -1; "
    "every other return value is one of the status codes documented for that function, and each documented code can be returned. The free functions contain nothing that can panic.",
    ["inputs", "fault_sequences"], "every exported function, every panic point inside it, every path",
    "Tests never trigger an internal panic through the C API, so work moved outside the guard or a wrong code for a caught panic is invisible to them.",
    [FFI], [("catch_unwind wrapper around every body", FFI)],
    AI, "Every call, dereference and assertion of a status function must lie between entering and leaving catch_unwind on every path; the panicked outcome must return exactly -1; all other outcomes return a documented constant.", FFI_NOTE)

reg("F03", ffi.check_out,
    "C API: out parameters are written exactly when the call succeeds",
    "Whenever an exported C function returns success (0), every one of its out parameters has been fully written; whenever it returns a documented error status "
    "it has written no out parameter or buffer, modified no object it was given, and leaked nothing.",
    ["inputs"], "every exported function with out parameters, every success and error path",
    "A path that returns success without writing leaves the caller with uninitialised memory, and only for the specific branch; tests initialise the variables and take few branches.",
    [FFI], [("out parameter writes next to the return codes", FFI)],
    AI, "On every path returning 0 each out parameter's memory is assigned; on every path returning another status there is no write, mutation, free or leak reaching a parameter.", FFI_NOTE)

reg("F04", ffi.check_own,
    "C API: each object is allocated once, handed out once and freed once",
    "Every object handed to a C caller is a separate fresh allocation owned by that caller; only the free functions release a handle, exactly once, and freeing a polyline list also frees every polyline it still holds. "
    "Popping or taking from a list returns precisely the element it removes (the last one, or the one at the position), while getting leaves ownership with the list.",
    ["histories", "inputs"], "every sequence of create / get / pop / take / free calls, every path of each function",
    "Leaks, double frees and aliased ownership do not fail an assertion: tests only see them under a leak checker and only on the call sequences they run.",
    [FFI], [("Box::into_raw / Box::from_raw pairs", FFI), ("list pop/take/free", FFI)],
    AI + " (ownership events)", "Box::new / into_raw / from_raw / drop / forget are tracked as ownership events on abstract heap objects: each handed-out pointer is fresh, released once, not shared; borrowed handles are never owned or freed; list free loops free each element and run to exhaustion.", FFI_NOTE)

reg("F05", ffi.check_options,
    "C API: caller options reach the operation unchanged; null means defaults",
    "When a C caller supplies an options struct for offset or boolean, every field takes effect as the option of the same name (an index pointer as that index or none, a flag as non-zero), and no field is dropped, swapped or replaced; "
    "with a null options pointer the library's default options are used. The option initialisers store exactly the library's defaults and a null index.",
    ["inputs", "configurations"], "every options struct content, both option-taking operations and both initialisers",
    "Tests use the default option values, for which swapped or ignored fields give identical results.",
    [FFI, "cavalier_contours/src/polyline/pline_types.rs"], [("options conversion", FFI), ("o_init functions", FFI)],
    AI, "The options value passed to the core operation is traced field by field to the C struct; the initialisers' stored values are traced to the corresponding fields of the core Default.", FFI_NOTE)

reg("F06", ffi.check_boolop,
    "C API boolean: codes, operands and result lists are mapped correctly",
    "Operation codes 0, 1, 2 and 3 perform or, and, not and xor of the first polyline with the second, in that operand order, and every other code returns status 2 without computing anything. "
    "Exactly the positive-space results go to the positive list and the negative-space results to the negative list.",
    ["inputs"], "all 2^32 operation codes, all operands, all result lists",
    "Tests run a few codes on symmetric inputs and cannot enumerate every code or separate operand order from result routing.",
    [FFI], [("operation decoding and result list construction", FFI)],
    AI, "The function is interpreted once per code (0,1,2,3, and the complement set as one abstract value); the operator, operands and result routing are read off the resulting terms.", FFI_NOTE)

reg("F07", ffi.check_bounds,
    "C API: positions, counts and buffer lengths are range checked",
    "A position argument is used only after it was found to be below the current element count of that same object, otherwise status 2 is returned and nothing is accessed; "
    "counts are reported by a checked conversion of the object's true element count, and a caller's array is accessed for exactly the documented number of elements.",
    ["inputs"], "every position value including the limits, every count, every buffer length",
    "An off-by-one at the upper bound is caught by Rust as a panic (status -1) or is out-of-bounds memory access; tests probe one in-range and one far out-of-range position.",
    [FFI], [("position checks, slice construction from raw parts", FFI)],
    AI, "Each path's comparison facts must establish position < count of the same object before the element access; buffer slices must be built with exactly the documented length term; counts must be the checked conversion of the element count.", FFI_NOTE)

reg("F08", ffi.check_abi,
    "C API: exported symbols, signatures and struct layouts are the published ABI",
    "The set of exported C symbols, their calling convention, parameter and return types, and the field order, types and C layout of every struct exchanged with C code stay those of the published interface, "
    "so that a separately compiled caller keeps working.",
    ["programs", "configurations"], "every C program compiled against the published interface",
    "Tests are compiled together with the library, so an ABI change recompiles both sides and passes.",
    [FFI], [("no_mangle extern C functions", FFI), ("repr(C) structs", FFI)],
    "type-level comparison of exported items with the published ABI table", "All exported functions and repr(C) structs of the type-checked crate are compared with the published table (36 symbols, 4 structs).",
    "Exact for the listed symbols and structs; the table was transcribed from the base tree (there is no C header in the repository).")

reg("F09", ffi.check_forward,
    "C API: each call performs the documented operation on its own object",
    "Each exported function applies the documented library operation exactly once to the polyline (or index) behind its handle, with its C arguments in their documented order, and stores each component of the result in its own out parameter; "
    "queries never modify the object, and modifying calls have precisely their documented effect (vertex data replaces all vertexes, closedness is non-zero, redundant-vertex removal stores the cleaned polyline back only if something changed).",
    ["inputs", "histories"], "every exported function, all argument values",
    "Tests use symmetric data and few calls, so swapped components, the wrong variant, or an effect on one branch only are not separated.",
    [FFI], [("wrapper bodies", FFI)],
    AI, "The value term stored in each out parameter and the single mutation event of each mutator are compared with the documented operation's term.", FFI_NOTE)
import reg_core
reg_core.register(reg)

from reg_na import NA
