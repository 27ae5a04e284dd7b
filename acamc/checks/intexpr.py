"""C01: run-time integer expressions compute 32-bit two's complement
arithmetic with C-style division and remainder."""
from .. import cases, gen, lang
from ..gen import A, B, I
from ..lang import pe

ME = __name__


def expected(e, inp):
    it = lang.Interp()
    env = lang.Env()
    for k, v in inp.items():
        env.d[k] = lang.Cell(v)
    try:
        return {"r": it.ev(e, env)}
    except lang.Skip:
        return None


def case(e, inputs):
    return {"key": pe(e, True), "defs": "",
            "body": ['a := scb("a", "io")', 'b := scb("b", "io")',
                     'r := ' + pe(e, True), 'scb("r", "io") = r'],
            "inputs": inputs, "expect": [expected(e, i) for i in inputs]}


def batch(chunk, st):
    cs = []
    for e, inputs in chunk:
        _, bad = lang.overflow_literal(e)
        if bad:
            st.count("rejected_constants")
            c = case(e, [])
            c["want"] = "error:INT_OVERFLOW|CONST_ARITHMETIC"
            cs.append(c)
        else:
            cs.append(case(e, inputs))
    cases.run_batch(cs, st)


def items(chk):
    allp = gen.pairs(gen.VALS)
    lits = [I(n) for n in (0, 1, -1, 2, -3, 10, 2 ** 31 - 1, -2 ** 31)]
    # one operator: every operand kind, all pairs of boundary values
    for n in (0, 1):
        for e in gen.int_trees(n, [A, B] + lits, unary=("neg", "pos")):
            yield e, allp
    # two operators, variables and literals
    for e in gen.int_trees(2, [A, B, I(2), I(-3)]):
        yield e, gen.PAIRS20
    # three operators over variables
    for e in gen.int_trees(3, [A, B]):
        yield e, gen.PAIRS8
    if chk.thorough:
        for e in gen.int_trees(3, [A, B, I(3)]):
            yield e, gen.PAIRS8
        for e in gen.int_trees(4, [A, B], unary=()):
            yield e, gen.PAIRS8


def check(chk):
    chk.bounds = {"operators": 4 if chk.thorough else 3,
                  "leaves": "two variables, literals (<=2 operators)",
                  "inputs": "8 to 100 boundary pairs per expression"}
    chk.assumptions = ["runtime division by zero has no specified result"]
    chk.map(ME, "batch", items(chk), 150)
