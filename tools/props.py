#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from the one
description below (only properties with a registered check are emitted)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

G = "acaciamc/mccmdgen/"
O = "acaciamc/objects/"
M = "acaciamc/modules/"

EXEC = ("explicit-state model checking: the real compiler's output for every "
        "program of a bounded grammar is executed on a Minecraft command "
        "model from every initial state of a bounded domain and compared "
        "with a reference interpreter")

# id: (title, statement, over, quantifier text, why tests can't,
#      files, [(mechanism, where)], observe, technique, level note)
P = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe,
         technique=EXEC, note=""):
    P[id] = (title, statement, over, qtext, why, files, mech, observe,
             technique, note)


T_FEW = ("The existing tests compile a fixed set of programs and compare the "
         "text or a few results; ")

prop("C01", "Integer arithmetic computes C-like 32-bit results",
     "For every integer expression and every value of its operands, running "
     "the generated commands gives the value the language defines: 32-bit "
     "wrap-around, division and remainder truncating toward zero, usual "
     "precedence and left-to-right grouping. The operands themselves keep "
     "their values.",
     ["programs", "inputs"],
     "all expression trees up to a depth over variables, literals (including "
     "the 32-bit limits) and every operator, times operand values including "
     "the limits",
     T_FEW + "operator/operand-shape combinations with temporaries are not "
     "sampled.",
     [O + "integer.py", G + "generator.py", G + "cmds.py"],
     [("linear evaluation of operand chains", O + "integer.py IntOpGroup"),
      ("constant folding with wrap", O + "integer.py IntLiteral")],
     ["scores after running the generated functions"],
     note="bounded expression depth and boundary operand values; the command "
          "model is trusted")
prop("C02", "Conditions and comparisons decide what they say",
     "For every boolean expression built from comparisons, chained "
     "comparisons, not/and/or and boolean values, the generated commands "
     "yield exactly the truth value of the expression for every operand "
     "value, whether it is stored, returned, converted to a number or used "
     "as a condition.",
     ["programs", "inputs"],
     "all boolean expressions of a bounded grammar times operand values "
     "including the 32-bit limits",
     T_FEW + "range merging, negation and short circuits are combinatorial.",
     [O + "boolean.py", O + "integer.py"],
     [("conjunction merging", O + "boolean.py AndGroup"),
      ("range construction", O + "integer.py compare")],
     ["scores after running the generated functions"],
     note="bounded expression size")
prop("C03", "Assignments change exactly the assigned variable",
     "Plain, augmented and swap assignments store the value the right-hand "
     "side had before the statement into the target, also when the target "
     "occurs on the right-hand side, and leave every other variable "
     "unchanged.",
     ["programs", "inputs"],
     "all pairs of statements over variables, tracked scores and constants "
     "with right-hand sides of a bounded grammar, times initial values",
     T_FEW + "self-referencing assignments are only sampled.",
     [O + "integer.py", O + "boolean.py", G + "generator.py"],
     [("export of an expression into a variable", G + "expr.py export"),
      ("augmented assignment", O + "integer.py iadd/imul/...")],
     ["scores after running the generated functions"],
     note="bounded statement sequences")
prop("C04", "if/elif/else and while run exactly the selected code",
     "For every combination of conditions and bodies, an if statement runs "
     "exactly the first branch whose condition was true when the statement "
     "was reached (and else only if none was), and a while loop re-evaluates "
     "its whole condition before every iteration, no matter what the bodies "
     "do to the condition.",
     ["programs", "inputs"],
     "all if/elif/else and while programs up to a nesting depth whose "
     "conditions may call functions and whose bodies change the variables "
     "the condition reads",
     T_FEW + "bodies that invalidate the condition are not sampled.",
     [G + "generator.py", O + "boolean.py"],
     [("branch files", G + "generator.py visit_If/visit_While")],
     ["scores after running the generated functions"],
     note="bounded nesting and loop lengths")
prop("C05", "Function calls pass values in and out without interference",
     "A run-time function receives the argument values at the time of the "
     "call, including defaults and keywords, its result is the last value "
     "given, and the result of one call survives later calls in the same "
     "expression. Arguments that do not fit the declaration are rejected "
     "with an error.",
     ["programs", "inputs"],
     "all expressions and statement pairs over a library of functions "
     "calling one another, times argument values; all positional/keyword/"
     "missing/surplus argument combinations",
     T_FEW + "interference of temporaries between several calls is not "
     "sampled.",
     [O + "functions.py", G + "generator.py"],
     [("argument passing", O + "functions.py AcaciaFunction.call"),
      ("argument matching", "acaciamc/mccmdgen/utils.py / ctexpr")],
     ["scores after running the generated functions", "compile errors"],
     note="bounded call expressions over a fixed function library")
prop("C06", "Inline functions honour by-value, by-reference and const ports",
     "Every call of an inline function behaves like running its body in "
     "place: value parameters are copies, reference parameters are the "
     "caller's variable, const parameters and results are compile-time "
     "values, and each result kind delivers what it declares. Arguments of "
     "the wrong kind are rejected.",
     ["programs", "inputs"],
     "all calls and call sequences over a library covering each parameter "
     "and result kind, times inputs",
     T_FEW + "each port kind is exercised once.",
     [O + "functions.py", G + "generator.py", G + "datatype.py"],
     [("inline expansion", O + "functions.py InlineFunction"),
      ("argument ports", "acaciamc/ast.py FuncPortType")],
     ["scores after running the generated functions", "compile errors"],
     note="bounded call expressions over a fixed function library")
prop("C07", "Compile-time and run-time evaluation agree",
     "Every computation on literals, constants and const functions gives the "
     "same value as the same computation done at run time on variables, or "
     "is rejected with an error where the compile-time rules forbid it "
     "(overflow, division by zero); it never silently gives another value.",
     ["programs", "inputs"],
     "all constant expressions of a bounded grammar and all small const "
     "functions with loops, branches and assignments, evaluated at compile "
     "time and against the reference",
     T_FEW + "folding and the compile-time executer are separate "
     "implementations of the language.",
     [G + "ctexecuter.py", G + "ctexpr.py", O + "integer.py", O + "boolean.py"],
     [("constant folding", O + "integer.py"),
      ("compile-time executer", G + "ctexecuter.py CTExecuter")],
     ["scores after running the generated functions", "compile errors"],
     note="bounded expression depth and statement count")

if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")):
    exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

NOT_APPLICABLE = []


def main():
    from acamc import registry
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for id in sorted(registry.CHECKS):
            t = P[id]
            assert len(t[0]) <= 80, id
            f.write(json.dumps({
                "id": id, "title": t[0], "statement": t[1],
                "quantifier": {"over": t[2], "text": t[3]},
                "why_tests_cant": t[4],
                "anchors": {
                    "files": t[5],
                    "mechanism": [{"name": a, "where": b} for a, b in t[6]],
                    "observe_at": t[7], "hook_needed": None}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -B check.py --selftest",
        "checks": [{
            "property": id,
            "quick_cmd": "python3 -B check.py %s --tier quick" % id,
            "thorough_cmd": "python3 -B check.py %s --tier thorough" % id,
            "technique": P[id][8], "level": "model_checking",
            "level_note": P[id][9] or "bounded"}
            for id in sorted(registry.CHECKS)],
        "not_applicable": [{"property": a, "reason": b}
                           for a, b in NOT_APPLICABLE],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
