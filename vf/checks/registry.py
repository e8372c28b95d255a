from . import contract, history, meta, process, relations, sense, usage
from .formula import Formula

_R = {
    "C01": lambda: Formula("C01", 700, 12000),
    "C02": lambda: Formula("C02", 500, 9000),
    "C03": lambda: Formula("C03", 1500, 25000),
    "C04": lambda: Formula("C04", 1200, 20000),
    "C05": lambda: Formula("C05", 800, 14000),
    "C06": lambda: Formula("C06", 1500, 30000),
    "C07": meta.NoLookAhead,
    "C08": meta.Filled,
    "C09": meta.WarmUp,
    "C10": contract.Pure,
    "C11": contract.Functions,
    "C12": contract.Bulk,
    "C13": meta.Labels,
    "C14": meta.Units,
    "C15": meta.Ranges,
    "C16": contract.DropNa,
    "C17": relations.Composite,
    "C18": meta.AnyLength,
    "C19": meta.Memory,
    "C20": contract.BulkIntact,
    "C21": meta.Mirror,
    "C22": usage.Own,
    "C23": usage.Threads,
    "C24": usage.Storage,
    "C25": history.Gaps,
    "C26": history.Copies,
    "C27": history.Parameters,
    "C28": process.Processes,
    "C29": process.Interrupts,
    "C30": sense.Level,
    "C31": sense.Direction,
    "C32": sense.Range,
    "C33": sense.Volume,
}


# the quick campaigns are this many times the sizes given in the checks
_MORE = {"C01": 3, "C02": 3, "C03": 3, "C04": 3, "C05": 3, "C06": 3, "C08": 3, "C09": 3, "C11": 2, "C13": 2, "C14": 2,
         "C15": 3, "C16": 4, "C18": 3, "C19": 2, "C21": 2, "C22": 2, "C24": 2, "C25": 3, "C26": 3, "C30": 2, "C32": 2,
         "C33": 2}


def get(pid):
    c = _R[pid]()
    c.MORE = _MORE.get(pid, 1)
    return c


def ids():
    return sorted(_R)
