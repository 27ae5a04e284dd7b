"""Property id -> module in acamc.checks."""
CHECKS = {
    "C01": "intexpr",
    "C02": "boolexpr",
    "C03": "assign",
    "C04": "control",
    "C05": "funcs",
    "C06": "funcs",
    "C07": "ctime",
    "C08": "config",
    "C09": "determinism",
    "C10": "ctcoll",
    "C11": "structs",
    "C12": "entities",
    "C13": "dispatch",
    "C14": "groups",
    "C15": "filters",
    "C16": "modules",
    "C17": "layout",
    "C18": "commands",
    "C19": "tokens",
    "C20": "syntax",
    "C21": "total",
    "C22": "cli",
    "C23": "sched",
    "C24": "printing",
    "C25": "mathlib",
    "C26": "geometry",
    "C27": "worldmod",
    "C28": "scopes",
    "C29": "typerules",
    "C30": "classrules",
    "C31": "music",
}
