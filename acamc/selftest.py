"""setup_cmd: the toolchain is there, and the command model itself gives the
documented results on a table of hand-written commands."""
from . import mc

# (commands, initial scores of objective o, expected scores)
TABLE = [
    (["scoreboard players set a o 5"], {}, {"a": 5}),
    (["scoreboard players add a o 2147483647"], {"a": 1},
     {"a": -2147483648}),
    (["scoreboard players operation a o /= b o"], {"a": -7, "b": 2},
     {"a": -3, "b": 2}),
    (["scoreboard players operation a o %= b o"], {"a": -7, "b": 2},
     {"a": -1, "b": 2}),
    (["scoreboard players operation a o %= b o"], {"a": -7, "b": 0},
     {"a": -7, "b": 0}),
    (["scoreboard players operation a o >< b o"], {"a": 1, "b": 2},
     {"a": 2, "b": 1}),
    (["scoreboard players operation a o < b o"], {"a": 1, "b": 2},
     {"a": 1, "b": 2}),
    (["scoreboard players operation a o > b o"], {"a": 1, "b": 2},
     {"a": 2, "b": 2}),
    (["execute if score a o matches 1..3 run scoreboard players set c o 1"],
     {"a": 3}, {"a": 3, "c": 1}),
    (["execute if score a o matches !1..3 run scoreboard players set c o 1"],
     {"a": 3}, {"a": 3}),
    (["execute unless score a o = b o run scoreboard players set c o 1"],
     {"a": 3, "b": 4}, {"a": 3, "b": 4, "c": 1}),
    (["execute if score zz o matches ..3 run scoreboard players set c o 1"],
     {}, {}),
    (["function g", "scoreboard players add a o 1"], {"a": 1}, {"a": 12}),
]
BAD = ["scoreboard players set a", "execute if score a o matches 3..1 run say",
       "foo bar", "scoreboard players set a o 2147483648", "tag @e[ add x",
       "execute run", "function", "tag @s add"]


def main():
    bad = 0
    for cmds, init, want in TABLE:
        p = mc.Program({"f": "\n".join(cmds),
                        "g": "scoreboard players add a o 10"})
        w = mc.World()
        w.add_objective("o")
        w.scores["o"].update(init)
        w.budget = 1000
        p.run(w, "f")
        if p.malformed or w.scores["o"] != want:
            print("model self-test failed:", cmds, w.scores["o"], p.malformed)
            bad = 1
    for line in BAD:
        if not mc.Program({"f": line}).malformed:
            print("model self-test: accepted", line)
            bad = 1
    print("model self-test", "FAILED" if bad else "ok")
    return bad
