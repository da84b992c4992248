"""which world decides which property, and how long each tier runs (wall seconds)"""

QUICK, THOROUGH = 40, 780

WORLDS = {
    'queue': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C14', 'C24'],
    'batch': ['C10', 'C11'],
    'server': ['C15', 'C16'],
    'discover': ['C21'],
    'index': ['C20'],
    'testbed': ['C17', 'C18', 'C19'],
    'compare': ['C26', 'C27'],
    'local': ['C28'],
    'summary': ['C29'],
    'tools': ['C30'],
    'health': ['C31'],
    'expand': ['C32'],
    'stream': ['C22', 'C25'],
    'hashes': ['C23'],
}
PROPS = {p: w for w, ps in WORLDS.items() for p in ps}
# minimum number of runs a tier makes even when the machine is slow
FLOOR = {'quick': 300, 'thorough': 2000}
HARD = {'quick': 420, 'thorough': 860}
