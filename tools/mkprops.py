#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, MF, MIS = "mockall/src/lib.rs", "mockall_derive/src/mock_function.rs", "mockall_derive/src/mock_item_struct.rs"
MS, MT, MI, AM, DL = ("mockall_derive/src/mockable_struct.rs", "mockall_derive/src/mock_trait.rs",
                      "mockall_derive/src/mock_item.rs", "mockall_derive/src/automock.rs", "mockall_derive/src/lib.rs")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


prop("C01", "A call-count argument denotes exactly the written set of counts",
     "For every argument form accepted by `times` (a number, or any of the range forms), the permitted numbers of calls are exactly the numbers that the argument contains; the default is any number and `never` is exactly zero. Once the number of accepted calls equals the permitted maximum the next call is refused, before that it is accepted, and the count is satisfied exactly when it is a permitted number. An argument that denotes no number at all is rejected when it is configured.",
     ["inputs", "configurations"], "all usize bounds of every argument form, all numbers of earlier calls, all numbers of further calls",
     "Tests try a dozen small literals; the bounds and counts are 64-bit and off-by-one at one range form or one boundary is enough to break it.",
     [LIB], [("TimesRange conversions", LIB + ": impl From<..> for TimesRange"), ("Times::call / is_satisfied / is_done / minimum / maximum", LIB + ": impl Times")],
     ["the panic (or not) of a mocked call", "the panic (or not) of dropping the mock"], "preset the number of earlier calls (cfg mockall_verif)")
prop("C02", "Every expectation's call count is enforced, at the call and at destruction",
     "For every kind of mocked method (by reference, by mutable reference, by value, static, free function; returning owned values, references or mutable references; generic or not), a call that would exceed the configured maximum panics. Dropping the mock object, or the context of a static method, panics if any expectation was called fewer times than its minimum, whatever its position and whatever the other expectations' state. Otherwise, and whenever the thread is already panicking, dropping is silent.",
     ["inputs", "histories", "configurations"], "all permitted-count ranges, all numbers of earlier calls, all arguments, every method kind, every position in the expectation list",
     "Each method kind has its own generated code; tests try few literal counts per kind and never the count/position cross product.",
     [LIB, MF, MIS], [("Common::call, Common::drop", MF + ": impl ToTokens for Common"), ("Expectations::call", MF + ": Ref/RefMut/StaticExpectations"), ("Context::drop", MF + ": impl ToTokens for Context")],
     ["the panic (or not) of a mocked call", "the panic (or not) of dropping the mock or context"], "preset the number of earlier calls (cfg mockall_verif)")
prop("C03", "A call is answered by the oldest matching expectation that is not used up",
     "For every list of expectations and every call, the answering expectation is the first one, in order of creation, whose argument condition accepts the arguments and which has not reached its maximum number of calls. No other expectation's count or state changes. If none qualifies, the call panics and no expectation is affected; a call is never silently swallowed.",
     ["inputs", "histories", "configurations"], "all argument values, all per-expectation conditions and count ranges, all histories; any number of expectations",
     "Tests use two or three expectations with fixed arguments; the rule quantifies over every combination of matching, exhausted and pending expectations.",
     [MF], [("Expectations::call (find)", MF + ": StaticExpectations/RefExpectations/RefMutExpectations"), ("Common::matches / is_done", MF + ": CommonExpectationMethods"), ("no-match panic", MF + ": MockFunction::call")],
     ["the value returned by the call", "the panic when nothing matches"], "preset the number of earlier calls (cfg mockall_verif)")
prop("C04", "An expectation answers a call only if its configured condition accepts it",
     "An expectation with per-argument predicates accepts a call exactly if every predicate accepts the argument at its own position; one with a closure, exactly if the closure returns true on the arguments in declaration order; one with no condition accepts every call. Setting a condition again replaces the earlier one entirely, whichever kinds the two are. Deciding whether the condition holds has no effect on the expectation.",
     ["inputs", "configurations"], "all argument values and all outcomes of each predicate, for methods of every arity up to 6 and each way of setting a condition",
     "Swapping, dropping or ignoring one predicate out of several shows only for particular truth-value combinations; tests pick a few.",
     [MF], [("Matcher::matches", MF + ": impl ToTokens for Matcher"), ("with / withf / withf_st", MF + ": CommonExpectationMethods, ExpectationGuardCommonMethods")],
     ["which calls are answered and which panic"])
prop("C05", "The configured return action produces the return value, as often as configured",
     "For every method, an answered call returns exactly what the last configured action produces: the closure's result on the call's own arguments, or the configured constant. A single-use action is performed on the first answered call and makes every later call panic rather than return a stale value. Without any action a call does not invent a value but panics (or, with the nightly feature, uses the type's default if it has one).",
     ["inputs", "histories", "configurations"], "all argument and return values, all orders of configuring actions, any number of calls",
     "Each action kind is separate generated code; unit tests check single literal values and never the replace-one-action-by-another matrix.",
     [MF, LIB], [("Rfunc::call_mut", MF + ": StaticRfunc"), ("returning / return_once / return_const (+_st)", MF + ": StaticExpectation, Concrete/GenericExpectationGuard"), ("DefaultReturner", LIB)],
     ["the value returned by the mocked call", "the panic (or not) of the call"])
prop("C06", "Methods returning references hand out the configured, persistent object",
     "A method returning a shared reference yields, on every call, a reference to the configured value. A method returning a mutable reference yields a reference to one persistent variable: what the caller writes through it is what the next call sees, and with a closure as action each call sees exactly that closure's latest result. Values configured for string-like, slice-like and other unsized return types are handed out unchanged.",
     ["inputs", "histories"], "all configured values, all values written through returned references, all call sequences",
     "Tests read back one literal; persistence across calls and between instantiations is a statement about every history.",
     [MF], [("Rfunc::call / call_mut for references", MF + ": RefRfunc, RefMutRfunc"), ("return_const / return_var / returning", MF + ": RefExpectation, RefMutExpectation"), ("ownify/destrify/dedynify", MF)],
     ["the object behind the returned reference"])
prop("C07", "A sequence admits its expectations only in the order they joined it",
     "A call matched to an expectation in a sequence is accepted only if every expectation that joined that sequence earlier has received all its required calls, and otherwise panics. Completing an expectation (and nothing else) lets the next one in; sequences are independent of each other, and of the order of calls to expectations outside them, and one sequence may span several methods and objects. Joining a sequence without an exact call count is refused.",
     ["histories", "inputs", "configurations"], "all interleavings of calls, all exact counts, all numbers of members",
     "Tests run a handful of literal call orders with two or three members.",
     [LIB, MF], [("SeqInner::satisfy / verify, SeqHandle, Sequence::next_handle", LIB), ("Common::call, Common::verify_sequence, in_sequence", MF + ": impl ToTokens for Common"), ("Times::is_exact", LIB)],
     ["the panic (or not) of each mocked call"], "preset the number of earlier calls (cfg mockall_verif)")
prop("C08", "A checkpoint verifies and clears all of an object's own expectations",
     "Calling checkpoint on a mock object panics if any expectation of any of its non-static methods, including trait methods and generic ones, has been called too few times. Otherwise it removes all of them, so that afterwards the object behaves like a new one, including when the same methods are configured again. Static methods' expectations are neither verified nor removed by it.",
     ["configurations", "histories"], "all method kinds and traits of the object, all configured counts and histories before and after",
     "Tests checkpoint one method at a time; the guarantee is about every method kind and every state at once.",
     [MIS, MF], [("checkpoint of the struct and its traits", MIS + ": Methods::checkpoint, MockItemStruct"), ("Expectations::checkpoint", MF + ": CommonExpectationsMethods, GenericExpectations")],
     ["the panic (or not) of checkpoint", "which calls are answered afterwards"])
prop("C09", "A static method's expectations live exactly as long as their context",
     "Expectations set through the context of a static method or free function answer calls until that context is dropped or checkpointed; then they are verified and all removed, so none leaks into what runs next. Dropping the context while the thread panics removes them without a second panic and leaves the method usable by the next test. Checkpoint verifies and removes but lets the same context be configured again.",
     ["histories", "configurations"], "all configurations, histories and failure points (under-called, over-called, panicking thread, poisoned state)",
     "The leak shows only in what runs after a failed or panicking user of the same global state; tests cover a few such pairs.",
     [MF], [("Context::{checkpoint, clean_context_mock, drop}", MF + ": impl ToTokens for Context"), ("global expectation store", MF + ": MockFunction::priv_mod")],
     ["calls after the context's end", "the panic (or not) of drop/checkpoint"])
prop("C10", "Generic methods keep separate expectations per concrete type",
     "For a generic method, the expectations of each concrete instantiation form an independent list: a call with one set of types is answered only by expectations created for exactly these types, and panics if there are none. Expectations of one instantiation never consume, verify, clear or answer for another. All instantiations are verified when the object is dropped or checkpointed.",
     ["inputs", "configurations", "histories"], "all argument values, all distributions of expectations over instantiations, static and non-static methods, generic structs",
     "Tests use two types and one expectation each; the independence is over every history of every instantiation.",
     [MF, LIB], [("GenericExpectations, StaticGenericExpectations", MF), ("Key", LIB)],
     ["the value returned by the call", "the panic (or not) of call and drop"])
prop("C11", "Methods, objects and traits never share expectations",
     "Configuring or calling one method never affects another method of the same object, another object of the same type, or a method of the same name from another trait, another module or a static one. A call is answered only by the expectations configured for that method on that object. Cloning behaviour, drop verification and checkpointing of one object leave all others alone.",
     ["configurations", "histories", "inputs"], "all pairs of distinct methods, objects and traits, all values, all histories",
     "A cross-talk bug needs two specific cooperating declarations; tests declare most methods alone.",
     [MF, MIS, MT], [("name mangling of expectation fields and modules", MF + ": inner_mod_ident / Builder"), ("per-object expectation fields", MIS + ": Methods::field_definitions")],
     ["the value returned by each method"])
prop("C12", "Arguments reach conditions and actions unmodified and in order",
     "For every method and every call, the argument condition and the return action receive exactly the caller's arguments, in declaration order, unmodified, moved or borrowed as declared; the receiver is never one of them. An action that writes through a mutable-reference argument changes the caller's variable and nothing else. This holds for by-value, by-reference, mutable-reference, slice, string, trait-object, pattern-named, self-typed and concretized arguments.",
     ["inputs", "configurations"], "all argument values for every supported argument kind and order, including same-typed neighbours",
     "Two same-typed arguments swapped in one of the generated paths show only when their values differ there.",
     [MF, DL], [("predexprs / call_exprs / argnames", MF + ": Builder::build"), ("declosurefy / concretize / deimplify", DL)],
     ["what conditions and actions observe", "the caller's variables after the call"])
prop("C13", "Single-threaded conditions and actions never run on another thread",
     "A condition, action or constant configured through a single-threaded (`_st`) method is used only on the thread that configured it. A call from any other thread panics (methods that consume the mock itself excepted) instead of running it, returning it or touching it. On the configuring thread it behaves like its thread-safe counterpart.",
     ["schedules", "inputs", "configurations"], "all single-threaded ways of configuring, all argument values, either thread",
     "A missing confinement is undefined behaviour that rarely fails a test; only a few tests call across threads.",
     [MF], [("Fragile wrapping", MF + ": StaticRfunc, Matcher, *_st methods"), ("pub use fragile", LIB)],
     ["the panic (or not) of the call"])
prop("C14", "Concurrent calls are all counted",
     "When several threads call the same expectation at once, every accepted call counts exactly once, whatever the interleaving: no two calls claim the same number, and at most the permitted maximum of calls is ever accepted. What is verified at destruction is the true number of accepted calls.",
     ["schedules", "histories", "inputs"], "all interleavings of any number of other threads' calls between any two atomic steps of one call; all bounds and counts",
     "A lost update needs one particular interleaving; tests are sequential or nearly so.",
     [LIB], [("Times::call (atomic count)", LIB + ": impl Times")],
     ["which calls panic", "the verification at drop"], "preset the number of earlier calls (cfg mockall_verif)")
prop("C15", "Automock gives the same behaviour as a hand-written mock declaration",
     "A mock generated from a trait, impl block, foreign block or module with the attribute macro has the same observable behaviour as the equivalent hand-written declaration: the same methods, the same constructor, contexts and checkpoints, the same enforcement. Associated types given in the attribute are the ones used, and items that are not mocked keep their original behaviour. The original item itself is unchanged.",
     ["configurations", "inputs"], "all argument values and counts for each attribute-macro shape (trait, trait impl, struct impl, module, foreign functions)",
     "Tests have one literal run per shape.",
     [AM, MS, MI, DL], [("MockableStruct from ItemTrait / ItemImpl", MS), ("Automock attributes", AM), ("MockableModule", MI)],
     ["the behaviour of the generated mock"])
prop("C16", "A doubled import names the mock in tests and the original otherwise",
     "For every `use` item or type alias under `#[double]`, the imported name refers to the mock (the name with the Mock prefix, or the mock_ prefix for a module) when compiled for tests, and to the original otherwise; every name of a grouped or renamed import is treated so, and no other item is affected.",
     ["configurations"], "all use trees and type aliases",
     "Tests have one import of each form.",
     ["mockall_double/src/lib.rs"], [("mock_itemuse, mock_usetree, mock_itemtype", "mockall_double/src/lib.rs")],
     ["which item the imported name resolves to"])
json_lines = [json.dumps(p) for p in P]
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(json_lines) + "\n")
