"""Which scenarios decide which property."""
TECH = 'contract-based deductive verification: VC generation over the clang AST of the real code (inferred loop invariants, symbolic sizes), discharged by a polynomial normaliser and z3; contract-checking native runs replay failures'
NOTE = 'Trusted: clang AST, the exporter and VC generator in /verif, z3, contracts of Eigen/libstdc++ operations, contract models of nlopt/OSQP. Machine arithmetic treated as exact. Logging off.'
PROPS = {
    'C01': dict(scen=[('c01', 0)]),
    'C02': dict(scen=[('lslice', 0)]),
    'C03': dict(scen=[('traj', 0), ('traj', 3), ('run', 3)]),
    'C04': dict(scen=[('traj', 1), ('traj', 4)]),
    'C05': dict(scen=[('dyn', 0)]),
    'C06': dict(scen=[('dyn', 1)]),
    'C07': dict(scen=[('cons', 0)]),
    'C08': dict(scen=[('cons', 1)]),
    'C09': dict(scen=[('cons', 2)]),
    'C10': dict(scen=[('traj', 2)]),
    'C11': dict(scen=[('run', 0)]),
    'C12': dict(scen=[('run', 1)]),
    'C13': dict(scen=[('setp', 0)]),
    'C14': dict(scen=[('setp', 1)]),
    'C15': dict(scen=[('run', 2), ('lrun', 1)]),
    'C16': dict(scen=[('lin', 0), ('lin', 3)]),
    'C17': dict(scen=[('lin', 1), ('lin', 4)]),
    'C18': dict(scen=[('lin', 2), ('lin', 5)]),
    'C19': dict(scen=[('lrun', 0)]),
    'C20': dict(scen=[('lslice', 1)]),
    'C21': dict(scen=[('util', 0), ('util', 6), ('util', 7)]),
    'C22': dict(scen=[('util', 1)]),
    'C23': dict(scen=[('util', 2), ('run', 4), ('lrun', 3)]),
    'C24': dict(scen=[('util', 3), ('util', 5)]),
    'C25': dict(scen=[('util', 4)]),
    'C26': dict(scen=[('safe', i) for i in range(18)], safety=True),
    'C27': dict(scen=[('lrun', 2)]),
}
NA = {}
