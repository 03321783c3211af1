from . import props_vara as v
from . import props_func as f
from . import props_rig as r
from . import props_app as a
from . import props_ports as p
from . import props_cli as l

CHECKS = {'C01': v.c01, 'C02': f.c02, 'C03': v.c03, 'C04': v.c04, 'C05': v.c05, 'C06': v.c06, 'C07': v.c07, 'C08': v.c08,
          'C09': v.c09, 'C10': v.c10, 'C11': v.c11, 'C12': r.c12, 'C13': r.c13, 'C14': a.c14, 'C15': a.c15, 'C16': f.c16, 'C17': f.c17, 'C18': f.c18, 'C19': f.c19, 'C20': f.c20, 'C21': f.c21, 'C22': f.c22, 'C23': p.c23, 'C24': l.c24}
