"""Which module decides which property, and how much of it per tier."""
import importlib

# id -> (module, runs per group, quick: (groups, seconds), thorough: (...))
CHECKS = {
    'C01': ('router', 10, (400, 50), (20000, 1500)),
    'C02': ('router', 8, (400, 50), (20000, 1500)),
    'C03': ('router', 8, (400, 50), (20000, 1500)),
    'C04': ('lockstep', 8, (800, 60), (40000, 1500)),
    'C05': ('scan', 10, (400, 45), (20000, 1500)),
    'C06': ('scan', 10, (400, 45), (20000, 1500)),
    'C07': ('jitdist', 10, (800, 45), (40000, 1500)),
    'C08': ('jitdist', 4, (800, 45), (40000, 1500)),
    'C09': ('dmesh', 6, (800, 45), (40000, 1500)),
    'C10': ('dmesh', 6, (800, 45), (40000, 1500)),
    'C11': ('dmesh', 6, (800, 50), (40000, 1500)),
    'C12': ('dmesh', 8, (800, 60), (40000, 1500)),
    'C14': ('training', 5, (800, 60), (40000, 1500)),
    'C15': ('training', 4, (800, 60), (40000, 1500)),
    'C16': ('training', 4, (800, 60), (40000, 1500)),
    'C17': ('pipeline', 6, (800, 50), (40000, 1500)),
    'C18': ('pipeline', 8, (800, 50), (40000, 1500)),
    'C19': ('datagen', 6, (800, 50), (40000, 1500)),
    'C20': ('meshfile', 20, (4000, 45), (200000, 1500)),
    'C21': ('datagen', 8, (800, 50), (40000, 1500)),
    'C22': ('workflow', 12, (800, 60), (40000, 1500)),
    'C23': ('training', 4, (800, 60), (40000, 1500)),
    'C24': ('ensemble', 20, (1500, 55), (60000, 1500)),
    'C25': ('flow', 12, (800, 60), (40000, 1500)),
}


def load(prop):
  return importlib.import_module('dst.props.' + CHECKS[prop][0])
