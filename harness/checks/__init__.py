"""Registry of the checks."""

import importlib
from dataclasses import dataclass, field
from typing import Callable, Optional

MODULES = {
    "field_io": ["C01", "C02", "C03", "C04", "C05"],
    "mesh_io": ["C06", "C07", "C08", "C09"],
    "faults": ["C10"],
    "small_io": ["C11", "C12", "C13"],
    "datasets": ["C14", "C15", "C16"],
    "elements": ["C17", "C18", "C30", "C29"],
    "connect": ["C19", "C20", "C21", "C22"],
    "extrusion": ["C23", "C24"],
    "generate": ["C25", "C26", "C27", "C28"],
    "purity": ["C31"],
    "pipeline": ["C32"],
    "vtk": ["C33"],
    "containers": ["C34"],
    "commute": ["C35"],
    "history": ["C36"],
}


class ImportBroken(Exception):
    pass


@dataclass
class Prop:
    id: str
    check: Callable
    strategy: Optional[Callable]
    rule: str
    examples: dict
    level: str = "exploration"
    assumptions: list = field(default_factory=list)
    fixed: Optional[Callable] = None
    probes: dict = field(default_factory=dict)
    large: dict = field(default_factory=dict)  # number of cases of strategy("large"): few, but of the size real files and meshes have


def load(pid):
    try:
        import pymech  # noqa: F401
        import pymech.core  # noqa: F401
        import pymech.dataset  # noqa: F401
        import pymech.meshtools  # noqa: F401
        import pymech.neksuite.field  # noqa: F401
        import pymech.neksuite.map  # noqa: F401
        import pymech.neksuite.mesh  # noqa: F401
        import pymech.simsonsuite  # noqa: F401
    except BaseException as e:  # noqa: BLE001
        raise ImportBroken(f"{type(e).__name__}: {e}") from e
    for mod, ids in MODULES.items():
        if pid in ids:
            m = importlib.import_module(f"checks.{mod}")
            return m.PROPS[pid]
    raise SystemExit(f"unknown property {pid}")
