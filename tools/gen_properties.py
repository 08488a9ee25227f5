import json
P=[]
def p(id,title,st,over,txt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,"anchors":a})
R="nytl/recursiveCallback.hpp"; C="nytl/callback.hpp"; N="nytl/connection.hpp"; S="nytl/scope.hpp"; K="nytl/clone.hpp"; B="nytl/bytes.hpp"

p("C01","A re-entrant call invokes exactly the functions registered when it began",
"Every call of a re-entrant callback, made at top level or from inside one of its own functions, invokes each function that was registered at the instant that call began exactly once, in registration order, and invokes nothing else. A function removed while the call is running is still invoked by it; a function added while it is running is not; a function removed before it began is not, even if an enclosing call is still going to invoke that function. Every call therefore ends after as many invocations as there were registered functions, whatever those functions do.",
["schedules","histories"],"for every nesting of calls, additions, removals, clears and assignments performed by the registered functions themselves, over one or several callbacks calling each other",
"The tests fix about ten hand-written nestings; the guarantee quantifies over every re-entrancy schedule (who adds/removes/calls whom, at which depth, in which order).",
[R],[("call ids compared with the negative id stored on removal",R+" call/disconnect/clear"),("the last entry is remembered at the start of a call",R+" call"),("deferred cleanup when the outermost call ends",R+" removeOld")],
["invocations of registered functions","return of the call"],
[("id","positive: registered; negative: removed during that call id",R+" Subscription::id"),("last_","last entry of the list",R)])

p("C02","A throwing function ends only its own call",
"If a registered function of a callback throws, exactly that exception leaves the innermost call that invoked it, that call invokes no further function, and calls enclosing it are affected only if the exception also leaves the function that made the inner call. Afterwards the callback keeps working: the next call again invokes all functions registered at that time, functions removed in the meantime are not invoked again, and functions can be added and removed as before.",
["fault_sequences","schedules"],"for every point of every (nested) call at which a function throws any kind of object, or at which the collection of return values runs out of memory, caught at any level",
"The tests throw once from a single non-nested call; nested calls interrupted at an arbitrary depth after removals and additions are not sampled.",
[R,C],[("iteration count and cleanup are maintained by a scope guard",R+" call")],["exceptions leaving call()","later calls"])

p("C03","Removal succeeds exactly once and touches only its own function",
"Removing a registered function from a callback by its id reports success exactly once and every further removal with that id reports failure and changes nothing, whether done at top level, from inside a running function, or after the function is already gone. Once a function is removed (by id, by its connection, by clearing or by assigning a new function), no call that begins later invokes it, and no other function's registration, order or removability is affected.",
["histories","schedules"],"for every history of additions, removals, repeated removals, clears and assignments at any nesting depth, with plain, tracked and user-defined ids",
"Tests remove each function once and mostly at top level; repeated removal of the same tracked id and removal or clear in nested calls are not exercised.",
[R,C,N],[("list search by id and formal removal while iterating",R+" disconnect"),("binary search over ids",C+" disconnect"),("forwarding to the connectable",N+" ConnectionT::disconnect")],["return value of disconnect","later invocations"])

p("C04","User-defined connection ids are notified of removal exactly once",
"A user-supplied id object stored by a callback is told that its function is finally removed exactly once for each registered function, never while the function is still registered, and is not accessed by the callback afterwards. When removal has to be deferred because calls are running, the id is first only given negative values, and the final notification comes at the latest when the outermost running call has ended or the callback is destroyed.",
["histories","schedules"],"for every history of nested calls, removals, clears, exceptions and destruction of the callback, at every position of the removed function in the list",
"No test uses a user-defined id at all (marked as a TODO in the tests).",
[R,C,"docs/callback.md"],[("removed()/set() protocol",R+" removeOld, clear, disconnect, destructor"),("removed() protocol",C+" clear, disconnect, destructor")],["calls on the id object"])

p("C05","Every copy of a tracked connection shows whether its function is registered",
"At every moment, each copy of a tracked connection that was not itself reset reports being connected exactly if its function is currently registered in a living callback: all copies turn disconnected together as soon as the function is removed in any way, at any nesting depth, or the callback is destroyed, and none of them ever turns connected again. A connection object on which disconnect was called reports not connected from then on, whatever its kind.",
["histories","schedules"],"for every history of registration, copying, removal through any copy, clear, assignment, nested calls and destruction",
"Tests look at two copies after one disconnect and after destruction only.",
[N,R,C],[("shared id value",N+" TrackedConnectionID"),("set/removed on formal and final removal",R)],["connected() of every outstanding copy"])

p("C06","An owning connection disconnects its function exactly once",
"An owning connection removes the function it owns exactly once: when it is destroyed, when it is told to disconnect, or when another connection is move-assigned into it, whichever comes first; moving transfers the duty completely and releasing it gives it up and yields an equivalent non-owning connection. An owning connection that owns nothing, or whose tracked function is already gone, touches nothing; a standard exception from the disconnect operation does not escape its destructor or move assignment, and leaves no duty behind.",
["histories","fault_sequences"],"for every sequence of construction, move, assignment, release, disconnect and destruction over several owners and connectables, with disconnect failing by exception at arbitrary points",
"Tests construct one owner and let it go out of scope; moves, releases and failing disconnects are not tested (release is never instantiated).",
[N],[("move operations, destructor, disconnect, release",N+" UniqueConnectionT")],["disconnect requests seen by the connectable"])

p("C07","A failed registration changes nothing",
"If registering a function fails, because memory runs out at any point, because constructing the id throws, or because the function is empty, the error is reported to the caller and the callback is as before: the failed function is never invoked, all other functions keep being invoked in their order, and every later operation behaves as if the attempt had not been made. This holds for every way of registering (with or without connection argument, by add or +=), at top level and from inside running functions; an assignment that fails may only have cleared the callback.",
["fault_sequences","schedules"],"for every allocation inside every registration failing, every id construction failing, at every nesting depth",
"Tests only pass empty functions; no test makes an allocation or an id constructor fail.",
[R,C],[("id constructed before the list is changed",R+" emplace"),("order of effects in add",R+" add, "+C+" add")],["exception from add","later calls"])

p("C08","Registered functions live while they may run and are released promptly",
"The function object a callback invokes, with everything it captured, stays alive and is modified by nothing but itself until that invocation and every other pending invocation of it have returned, even if it is removed or the callback is cleared meanwhile. Every invocation is made on that same object, so what it stores in one invocation is there in the next. Once a function is removed and no call of its callback is running, all copies of it held by the callback are destroyed, also when a call was ended by an exception; nothing is leaked or destroyed twice.",
["schedules","fault_sequences"],"for every nesting of self-removal, removal, clear, assignment and exceptions, and failing allocations",
"Tests never look at captured state after a self-removal nor at the number of living function objects.",
[R,C],[("no erase while the iteration count is non-zero",R+" disconnect, clear, call"),("cleanup at the end of the outermost call",R+" removeOld")],["lifetime of captured objects"])

p("C09","The simple callback behaves like a list of functions",
"The non-recursive callback behaves like a plain ordered list: a call invokes all functions registered and not yet removed exactly once in registration order, for any history of additions, removals, clears, assignments and calls at top level or from functions of other callbacks, and the publicly readable subscription list shows exactly the registered functions in that order. Removing any one function, wherever it is in the list, leaves all others in place.",
["histories"],"for every history of operations over several callbacks, including callbacks whose functions operate on other callbacks",
"Tests use at most two functions and one removal.",
[C],[("vector ordered by id, equal_range",C+" add, disconnect, call")],["invocations","subscriptions()"])

p("C10","Each function gets the caller's arguments; results come back in order",
"Each function invoked by a call receives the arguments the caller passed: by-value parameters have the caller's value for every function regardless of what functions earlier in the list did with theirs, and reference parameters refer to the caller's object. A call that completes returns the functions' results, one per invoked function, in invocation order; nested calls do not disturb the arguments or results of enclosing ones.",
["schedules","histories"],"for every number of functions, every nesting of calls with different arguments, for several signatures (by value, by reference, rvalue reference, move-only results)",
"Tests pass a single int to a single function; argument types that can be moved from are never used with two functions.",
[R,C],[("argument forwarding in call",R+" call, "+C+" call")],["arguments seen by functions","vector returned by call"])

p("C11","Scope guards run exactly when their kind says",
"A scope guard's function runs exactly once, when the scope is left: always for a scope guard, only if the scope is left normally for a success guard, only if an exception leaves the scope for an exception guard; a guard that was unset before never runs. This also holds for guards created while another exception is already propagating, in catch blocks and inside guard functions, and guards of nested scopes run innermost first.",
["schedules","fault_sequences"],"for every nesting of scopes and guards with an exception injected at any point (also inside functions run during unwinding), for automatic guards and guards held in optionals or on the heap that die with their scope, in any interleaving of threads doing so",
"Tests cover two nesting levels with one exception.",
[S],[("comparison of uncaught exception counts",S+" ScopeGuard")],["executions of the guard function"])

p("C12","Scope guards do not disturb exception propagation",
"Whatever a guard's function throws is swallowed and reported on the standard error stream (with its message if it is a standard exception), never terminates the program, and never replaces, loses or changes an exception that is propagating through the guarded scope; outer scopes and later guards proceed as if the guard's function had returned normally. A guard created from an lvalue callable uses the callable's state at scope exit, one created from an rvalue owns its callable.",
["fault_sequences","schedules"],"for every combination of propagating exceptions and exceptions of standard or other type thrown by guard functions at any nesting depth, with a working or failing error stream, with memory exhausted while the guard reports",
"Tests throw once from a guard and do not check which exception arrives or what is reported.",
[S],[("catch-all in the noexcept destructor",S+" ~ScopeGuard")],["exception caught outside","text on std::cerr"])

p("C13","Distinct objects used by different threads do not influence each other",
"Although no object of the library is thread-safe, distinct objects are independent: if each thread uses only its own callbacks, connections, guards, cloned objects and buffers, then under every interleaving of the threads each thread observes exactly the results, invocations, exceptions and lifetimes it observes when it runs alone.",
["schedules"],"for every interleaving of 2 to 4 threads at every memory access, allocation and call-out of library code, for all kinds of its objects including pure value computations",
"All tests are single-threaded.",
[R,C,S,K,B,N],[("no shared mutable state in the headers","nytl/*.hpp"),("per-thread uncaught exception count",S)],["per-thread event history"])

p("C14","Cloning yields an independent object of the same dynamic type or fails cleanly",
"Cloning an object through a reference to any of its cloneable bases returns an object of the same dynamic type with equal value, reachable through that base, that shares no state with the original: either can be changed or destroyed without affecting the other. If an allocation or a member's copy constructor fails at any point, the error is passed to the caller, the original is unchanged, and nothing is leaked or destroyed twice.",
["fault_sequences","histories"],"for every failing allocation or throwing copy inside a clone, for single, multi-level and multiple inheritance hierarchies, clones of clones, in any history",
"Tests clone five fixed objects, through their first base only, and never let a copy fail.",
[K],[("virtual copy through void*",K+" clone, DeriveCloneable::doClone")],["returned object","live object counts"])

p("C15","Clone-moving transfers the value or fails cleanly",
"Clone-moving an object through a reference to any of its bases returns an object of the same dynamic type that took over the original's value by moving each movable member, without copying what can be moved. If memory for the new object cannot be allocated, the original keeps its value; if a member's move fails, the error is passed on, every member is still destroyed exactly once and nothing is leaked.",
["fault_sequences","histories"],"for every failing allocation or throwing move inside a clone-move over the same hierarchies and histories as for cloning",
"Tests clone-move one vector-holding object without faults.",
[K],[("virtual move through void*",K+" cloneMove, doCloneMove")],["returned object","state of the original","live object counts"])

p("C16","Values written to a byte buffer are read back in order, also in pieces",
"Reading a sequence of objects, spans and vectors from a byte buffer yields exactly the values that were written to it in that order, for fixed and growing write buffers, however the stored bytes are split into separately read pieces; after each operation the remaining window is the old one shortened at its front by exactly the bytes transferred or skipped. Converting an object to bytes refers to exactly its own bytes, and a damaged stored byte changes only the value that contains it.",
["histories","crash_points","fault_sequences"],"for every sequence of writes, reads, skips and copies of differently sized objects, every cut of the stored bytes at a crash point, every flipped stored byte",
"No test includes this header.",
[B,"nytl/span.hpp"],[("memcpy plus window shrink",B+" write, read, skip, copy")],["values read","buffer windows"])

p("C17","A buffer operation that does not fit is refused without any effect",
"With a user-supplied assertion handler that throws, every write, read, skip or copy that needs more bytes than the buffer has left, or whose exact-size requirement is not met, is reported through the handler before anything happens: no byte outside or inside either buffer is changed or read beyond its end, and the buffers' windows stay where they were, so that the operation can be retried on a larger buffer. Operations that fit, including those using the last byte, are never refused.",
["crash_points","fault_sequences","histories"],"for every truncation point of stored data and every capacity of the destination, at every operation of every history",
"No test includes this header.",
[B],[("NYTL_BYTES_ASSERT precondition checks",B)],["handler invocations","canary bytes","windows"])

p("C18","A growing write buffer appends completely or not at all",
"Appending to a dynamically growing buffer either adds exactly the object's bytes at the end, leaving all earlier bytes as they were, or, if memory runs out, throws and leaves the buffer's size and contents unchanged so that the append can be retried.",
["fault_sequences","histories"],"for every allocation failing in any append of any history of appends",
"No test includes this header or makes an allocation fail.",
[B],[("resize before copy",B+" write(DynWriteBuf&, ReadBuf)")],["buffer contents after failure"])

p("C19","Printing to a failing stream loses only the tail and leaves no traces",
"When a vector, rectangle or matrix is printed to a stream whose sink fails or runs full at any point, what reached the sink is a prefix of the text a healthy sink receives and the failure is visible in the stream's state. Whether or not it failed, also when the stream reports failures by exceptions, the stream's precision, fill character, format flags and exception mask are as before and no field width stays set, so that printing again after the stream was repaired gives the complete text.",
["fault_sequences","crash_points"],"for every byte position at which the sink fails (short write, error or exception in the sink) in any sequence of prints of differently shaped objects",
"No test prints to a failing stream.",
["nytl/matOps.hpp","nytl/vecOps.hpp","nytl/rectOps.hpp"],[("save and restore of the precision","nytl/matOps.hpp print"),("element-wise insertion","nytl/vecOps.hpp print")],["bytes at the sink","stream format state"])

p("C20","Functions that own connections can be removed safely",
"A function registered in a re-entrant callback may own an owning connection to another function of the same callback: whenever the former is destroyed because it was removed, by id, by clearing, by assignment, or by the cleanup after a running call, the latter is removed too, and the callback's remaining functions are unaffected and all later calls behave accordingly. More generally, while a removed function is destroyed it may call, register with, remove from or clear its own or another re-entrant callback (though not one that is being assigned to or destroyed), with the usual effect.",
["schedules","histories"],"for every ownership chain among functions of one callback, every operation a removed function's destructor performs and every way and moment of removing the owners",
"No test registers a function with such captured state.",
[R,N],[("removed entries are taken out of the list",R+" disconnect, clear, removeOld")],["later invocations","memory safety"])

p("C21","Invalidating an id from outside silences exactly its function",
"If user code sets a stored id to zero from outside (tracked or user-defined ids whose value is shared) instead of calling disconnect, then calls that begin later do not invoke its function, disconnecting it reports failure, and all other functions keep being invoked in order and can still be removed normally, for both kinds of callback.",
["histories","schedules"],"for every position and moment of invalidation in every history of calls, additions and removals",
"No test invalidates an id from outside.",
[R,C,N],[("validity check of ids before invoking",R+" call, "+C+" call"),("search by id",C+" disconnect")],["later invocations","return value of disconnect"])

p("C22","Failing element operations and allocations leave value types usable",
"If an operation on vectors, matrices or rectangles fails because an operation of the element type throws or memory runs out at any point, or a conversion between Unicode encodings runs out of memory, then exactly that error reaches the caller, operands that are only read are unchanged, nothing is leaked or destroyed twice, and all operands remain usable: performed again without a failure, the operation gives its correct result. Operators that change a vector or matrix component by component leave every component with its old or its new value when they fail.",
["fault_sequences","histories"],"for every element operation and every allocation failing inside every vector, matrix, rectangle and string operation, with any kind of exception, for several dimensions and repeated failures",
"Tests use built-in numbers only, whose operations cannot fail, and never make an allocation fail.",
["nytl/vec.hpp","nytl/vecOps.hpp","nytl/mat.hpp","nytl/matOps.hpp","nytl/rectOps.hpp","nytl/utf.hpp"],[("operations build a new value and return it","nytl/vec.hpp, nytl/mat.hpp, nytl/vecOps.hpp, nytl/matOps.hpp"),("difference collects parts in a vector","nytl/rectOps.hpp difference"),("converters local to each conversion","nytl/utf.hpp")],["exception leaving the operation","operands","live element count"])

p("C23","Functions can be removed when memory is exhausted",
"While no memory can be allocated, everything that removes a function or gives up a connection still works and has exactly its usual effect: disconnecting by id or through a connection, owning connections that disconnect or that are destroyed, move-assigned or released, clearing and destroying a callback, and the deferred removal at the end of a call, whether it returns or throws. None of them throws or terminates the program for lack of memory.",
["fault_sequences","histories","schedules"],"for every removal in every history of registrations, nested calls and removals, with no memory available from its beginning to its end",
"No test makes an allocation fail.",
[R,C,N],[("disconnect and clear are noexcept",R+", "+C),("deferred removal in removeOld()",R+" removeOld"),("UniqueConnectionT's destructor and move assignment",N)],["process termination","return values","later invocations"])

# not applicable
p("C30","UTF conversions and character access agree with the Unicode encoding",
"For every valid string, conversions between UTF-8, UTF-16 and UTF-32 are inverse to each other, the character count equals the number of code points, and the n-th character accessors return the bytes of exactly that code point or throw beyond the end.",
["inputs"],"for every valid string","Tests use two fixed strings; four-byte characters are never used.",["nytl/utf.hpp"],[("lead byte classification","nytl/utf.hpp charCount, nth")],["returned values"])
p("C31","LU decomposition, determinant, inverse and echelon forms are correct",
"For every square matrix the decomposition satisfies PA = LU with unit lower and upper triangular factors, the determinant has the right value and sign, and inverses and solutions satisfy their equations up to rounding; echelon forms are row-equivalent to the input.",
["inputs"],"for every matrix","Tests use a handful of fixed matrices.",["nytl/matOps.hpp","nytl/mat.hpp"],[("elimination with pivoting","nytl/matOps.hpp")],["returned values"])
p("C32","Vector and matrix algebra follows the mathematical laws component-wise",
"Vector and matrix sums, products, dot and cross products, norms, comparisons and component-wise helpers give the mathematically defined result for every dimension and element type.",
["inputs"],"for all values and dimensions","Tests use fixed small vectors.",["nytl/vec.hpp","nytl/vecOps.hpp","nytl/mat.hpp"],[("loops over components","nytl/vecOps.hpp")],["returned values"])
p("C33","Rectangle operations agree with point sets",
"Containment, intersection tests, intersection and difference of rectangles agree with the set of points they describe; a difference's parts are disjoint and cover exactly the remaining points.",
["inputs"],"for all rectangles of all dimensions","Tests use a few fixed rectangles.",["nytl/rectOps.hpp"],[("per-axis comparisons","nytl/rectOps.hpp")],["returned values"])
p("C34","Span views address exactly the requested part of the underlying sequence",
"Every span and sub-span refers to exactly the requested elements of its sequence with the right size, iteration order, conversion and comparison results.",
["inputs"],"for all sequences and offsets","Tests use fixed spans.",["nytl/span.hpp"],[("pointer and extent arithmetic","nytl/span.hpp")],["views"])
p("C35","Flags form a set algebra over their enumeration",
"Combining, intersecting, inverting and comparing flags behaves like the corresponding operations on sets of enumeration values.",
["inputs"],"for all flag values","Tests use a few combinations.",["nytl/flags.hpp"],[("bit operations","nytl/flags.hpp")],["returned values"])
p("C36","Rotations and projections are mutually consistent",
"Quaternions, rotation matrices, Euler angles, look-at and projection matrices that describe the same transformation map points identically up to rounding.",
["inputs"],"for all rotations, sequences and projection parameters","Not tested.",["nytl/quaternion.hpp","nytl/transform.hpp"],[("closed formulas","nytl/quaternion.hpp, nytl/transform.hpp")],["returned values"])
p("C37","Approximate comparison is symmetric and scales with the operands",
"Approximate comparison accepts values within the relative tolerance and rejects others, symmetrically, element-wise for complex numbers, vectors and matrices.",
["inputs"],"for all values","Tests use a few values.",["nytl/approx.hpp","nytl/approxVec.hpp"],[("epsilon scaling","nytl/approx.hpp")],["returned values"])
p("C38","Integer pairing and mapping helpers are injective and invertible",
"The signed to unsigned mapping is a bijection inverted by its counterpart, pairing is injective while it does not overflow, and the interpolation helpers stay within their bounds.",
["inputs"],"for all values","Not tested.",["nytl/math.hpp"],[("arithmetic","nytl/math.hpp")],["returned values"])
p("C39","Compile-time traits and copy prevention",
"Function traits, expression detection and the non-copyable and non-movable bases give the documented compile-time answers for every type.",
["programs"],"for all types","Static assertions cover fixed types.",["nytl/functionTraits.hpp","nytl/tmpUtil.hpp","nytl/nonCopyable.hpp"],[("template specialisation","nytl/functionTraits.hpp")],["compile-time values"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
