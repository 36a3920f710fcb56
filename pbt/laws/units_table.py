"""SI value and dimension (m, kg, s, C, K) of every unit and constant."""
TABLE = {
    'A': (1.0, (0, 0, -1, 1, 0)),
    'ARichardson': (1201732.100727453, (-2, 0, -1, 1, -2)),
    'Ah': (3600.0, (0, 0, 0, 1, 0)),
    'C': (1.0, (0, 0, 0, 1, 0)),
    'Da': (1.660538921e-27, (0, 1, 0, 0, 0)),
    'F': (1.0, (-2, -1, 2, 2, 0)),
    'G': (0.0001, (0, 1, -1, -1, 0)),
    'GHz': (1000000000.0, (0, 0, -1, 0, 0)),
    'GJ': (1000000000.0, (2, 1, -2, 0, 0)),
    'GL': (1000000.0, (3, 0, 0, 0, 0)),
    'GNewton': (6.67384e-11, (3, -1, -2, 0, 0)),
    'GPa': (1000000000.0, (-1, 1, -2, 0, 0)),
    'GV': (1000000000.0, (2, 1, -2, -1, 0)),
    'GW': (1000000000.0, (2, 1, -3, 0, 0)),
    'GeV': (1.602176565e-10, (2, 1, -2, 0, 0)),
    'Gohm': (1000000000.0, (2, 1, -1, -2, 0)),
    'Gpc': (3.0856775814913673e+25, (1, 0, 0, 0, 0)),
    'H': (1.0, (2, 1, 0, -2, 0)),
    'Hz': (1.0, (0, 0, -1, 0, 0)),
    'J': (1.0, (2, 1, -2, 0, 0)),
    'K': (1.0, (0, 0, 0, 0, 1)),
    'KJos': (483597870000000.0, (-2, -1, 1, 1, 0)),
    'L': (0.001, (3, 0, 0, 0, 0)),
    'M': (6.0221412899999995e+26, (-3, 0, 0, 0, 0)),
    'MEarth': (5.9736e+24, (0, 1, 0, 0, 0)),
    'MHz': (1000000.0, (0, 0, -1, 0, 0)),
    'MJ': (1000000.0, (2, 1, -2, 0, 0)),
    'ML': (1000.0, (3, 0, 0, 0, 0)),
    'MPa': (1000000.0, (-1, 1, -2, 0, 0)),
    'MV': (1000000.0, (2, 1, -2, -1, 0)),
    'MW': (1000000.0, (2, 1, -3, 0, 0)),
    'Mbar': (100000000000.0, (-1, 1, -2, 0, 0)),
    'MeV': (1.602176565e-13, (2, 1, -2, 0, 0)),
    'Mohm': (1000000.0, (2, 1, -1, -2, 0)),
    'Mpc': (3.085677581491367e+22, (1, 0, 0, 0, 0)),
    'Msolar': (1.98892e+30, (0, 1, 0, 0, 0)),
    'N': (1.0, (1, 1, -2, 0, 0)),
    'NA': (6.02214129e+23, (0, 0, 0, 0, 0)),
    'Oe': (79.57747154594767, (-1, 0, -1, 1, 0)),
    'PHz': (1000000000000000.0, (0, 0, -1, 0, 0)),
    'Pa': (1.0, (-1, 1, -2, 0, 0)),
    'Phi0': (2.067833758e-15, (2, 1, -1, -1, 0)),
    'REarth': (6371000.0, (1, 0, 0, 0, 0)),
    'RKlitz': (25812.8074434, (2, 1, -1, -2, 0)),
    'Rgas': (1.3806488e-23, (2, 1, -2, 0, -1)),
    'Rinf': (10973731.568539, (-1, 0, 0, 0, 0)),
    'Ry': (2.179872171e-18, (2, 1, -2, 0, 0)),
    'S': (1.0, (-2, -1, 1, 2, 0)),
    'T': (1.0, (0, 1, -1, -1, 0)),
    'THz': (1000000000000.0, (0, 0, -1, 0, 0)),
    'TV': (1000000000000.0, (2, 1, -2, -1, 0)),
    'TW': (1000000000000.0, (2, 1, -3, 0, 0)),
    'TeV': (1.602176565e-07, (2, 1, -2, 0, 0)),
    'V': (1.0, (2, 1, -2, -1, 0)),
    'W': (1.0, (2, 1, -3, 0, 0)),
    'Wb': (1.0, (2, 1, -1, -1, 0)),
    'Wh': (3600.0, (2, 1, -2, 0, 0)),
    'Z0': (376.73031346177066, (2, 1, -1, -2, 0)),
    'aBohr': (5.2917721092e-11, (1, 0, 0, 0, 0)),
    'aF': (1e-18, (-2, -1, 2, 2, 0)),
    'aL': (1.0000000000000001e-21, (3, 0, 0, 0, 0)),
    'alphaFS': (0.0072973525698, (0, 0, 0, 0, 0)),
    'amu': (1.660538921e-27, (0, 1, 0, 0, 0)),
    'angstrom': (1e-10, (1, 0, 0, 0, 0)),
    'astro_unit': (149597870700.0, (1, 0, 0, 0, 0)),
    'atm': (101325.0, (-1, 1, -2, 0, 0)),
    'bar': (100000.0, (-1, 1, -2, 0, 0)),
    'btu': (1055.056, (2, 1, -2, 0, 0)),
    'c0': (299792458.0, (1, 0, -1, 0, 0)),
    'cbar': (1000.0, (-1, 1, -2, 0, 0)),
    'cm': (0.01, (1, 0, 0, 0, 0)),
    'day': (86400.0, (0, 0, 1, 0, 0)),
    'dbar': (10000.0, (-1, 1, -2, 0, 0)),
    'degCinterval': (1.0, (0, 0, 0, 0, 1)),
    'degFinterval': (0.5555555555555556, (0, 0, 0, 0, 1)),
    'dyn': (1e-05, (1, 1, -2, 0, 0)),
    'e': (1.602176565e-19, (0, 0, 0, 1, 0)),
    'eV': (1.602176565e-19, (2, 1, -2, 0, 0)),
    'eps0': (8.854187817620389e-12, (-3, -1, 2, 2, 0)),
    'erg': (1e-07, (2, 1, -2, 0, 0)),
    'fA': (1e-15, (0, 0, -1, 1, 0)),
    'fF': (1e-15, (-2, -1, 2, 2, 0)),
    'fJ': (1e-15, (2, 1, -2, 0, 0)),
    'fL': (1e-18, (3, 0, 0, 0, 0)),
    'fM': (602214129000.0, (-3, 0, 0, 0, 0)),
    'fg': (1e-18, (0, 1, 0, 0, 0)),
    'fm': (1e-15, (1, 0, 0, 0, 0)),
    'fmol': (602214129.0, (0, 0, 0, 0, 0)),
    'foot': (0.3048, (1, 0, 0, 0, 0)),
    'fs': (1e-15, (0, 0, 1, 0, 0)),
    'g': (0.001, (0, 1, 0, 0, 0)),
    'g0': (9.80665, (1, 0, -2, 0, 0)),
    'hPa': (100.0, (-1, 1, -2, 0, 0)),
    'hPlanck': (6.62606957e-34, (2, 1, -1, 0, 0)),
    'hbar': (1.0545717253362894e-34, (2, 1, -1, 0, 0)),
    'hour': (3600.0, (0, 0, 1, 0, 0)),
    'inch': (0.025400000000000002, (1, 0, 0, 0, 0)),
    'kB': (1.3806488e-23, (2, 1, -2, 0, -1)),
    'kDa': (1.660538921e-24, (0, 1, 0, 0, 0)),
    'kG': (0.1, (0, 1, -1, -1, 0)),
    'kHz': (1000.0, (0, 0, -1, 0, 0)),
    'kJ': (1000.0, (2, 1, -2, 0, 0)),
    'kL': (1.0, (3, 0, 0, 0, 0)),
    'kPa': (1000.0, (-1, 1, -2, 0, 0)),
    'kV': (1000.0, (2, 1, -2, -1, 0)),
    'kW': (1000.0, (2, 1, -3, 0, 0)),
    'kWh': (3600000.0, (2, 1, -2, 0, 0)),
    'kbar': (100000000.0, (-1, 1, -2, 0, 0)),
    'kcal': (4184.0, (2, 1, -2, 0, 0)),
    'keV': (1.602176565e-16, (2, 1, -2, 0, 0)),
    'kg': (1.0, (0, 1, 0, 0, 0)),
    'km': (1000.0, (1, 0, 0, 0, 0)),
    'kohm': (1000.0, (2, 1, -1, -2, 0)),
    'kpc': (3.085677581491367e+19, (1, 0, 0, 0, 0)),
    'lbf': (4.4482216152605, (1, 1, -2, 0, 0)),
    'lbm': (0.45359237, (0, 1, 0, 0, 0)),
    'lightyear': (9460730472580800.0, (1, 0, 0, 0, 0)),
    'm': (1.0, (1, 0, 0, 0, 0)),
    'mA': (0.001, (0, 0, -1, 1, 0)),
    'mAh': (3.6, (0, 0, 0, 1, 0)),
    'mC': (0.001, (0, 0, 0, 1, 0)),
    'mG': (1.0000000000000001e-07, (0, 1, -1, -1, 0)),
    'mH': (0.001, (2, 1, 0, -2, 0)),
    'mHz': (0.001, (0, 0, -1, 0, 0)),
    'mJ': (0.001, (2, 1, -2, 0, 0)),
    'mL': (1e-06, (3, 0, 0, 0, 0)),
    'mM': (6.02214129e+23, (-3, 0, 0, 0, 0)),
    'mS': (0.001, (-2, -1, 1, 2, 0)),
    'mT': (0.001, (0, 1, -1, -1, 0)),
    'mV': (0.001, (2, 1, -2, -1, 0)),
    'mW': (0.001, (2, 1, -3, 0, 0)),
    'mbar': (100.0, (-1, 1, -2, 0, 0)),
    'me': (9.10938291e-31, (0, 1, 0, 0, 0)),
    'meV': (1.602176565e-22, (2, 1, -2, 0, 0)),
    'mg': (1e-06, (0, 1, 0, 0, 0)),
    'mile': (1609.344, (1, 0, 0, 0, 0)),
    'minute': (60.0, (0, 0, 1, 0, 0)),
    'mm': (0.001, (1, 0, 0, 0, 0)),
    'mmol': (6.02214129e+20, (0, 0, 0, 0, 0)),
    'mn': (1.674927351e-27, (0, 1, 0, 0, 0)),
    'mohm': (0.001, (2, 1, -1, -2, 0)),
    'mol': (6.02214129e+23, (0, 0, 0, 0, 0)),
    'mp': (1.672621777e-27, (0, 1, 0, 0, 0)),
    'ms': (0.001, (0, 0, 1, 0, 0)),
    'mtorr': (0.13332236842105263, (-1, 1, -2, 0, 0)),
    'mu0': (1.2566370614359173e-06, (1, 1, 0, -2, 0)),
    'nA': (1e-09, (0, 0, -1, 1, 0)),
    'nC': (1e-09, (0, 0, 0, 1, 0)),
    'nF': (1e-09, (-2, -1, 2, 2, 0)),
    'nH': (1e-09, (2, 1, 0, -2, 0)),
    'nJ': (1e-09, (2, 1, -2, 0, 0)),
    'nL': (1.0000000000000002e-12, (3, 0, 0, 0, 0)),
    'nM': (6.02214129e+17, (-3, 0, 0, 0, 0)),
    'nS': (1e-09, (-2, -1, 1, 2, 0)),
    'nT': (1e-09, (0, 1, -1, -1, 0)),
    'nV': (1e-09, (2, 1, -2, -1, 0)),
    'nW': (1e-09, (2, 1, -3, 0, 0)),
    'ng': (1.0000000000000002e-12, (0, 1, 0, 0, 0)),
    'nm': (1e-09, (1, 0, 0, 0, 0)),
    'nmol': (602214129000000.0, (0, 0, 0, 0, 0)),
    'ns': (1e-09, (0, 0, 1, 0, 0)),
    'ohm': (1.0, (2, 1, -1, -2, 0)),
    'pA': (1e-12, (0, 0, -1, 1, 0)),
    'pF': (1e-12, (-2, -1, 2, 2, 0)),
    'pJ': (1e-12, (2, 1, -2, 0, 0)),
    'pL': (1e-15, (3, 0, 0, 0, 0)),
    'pM': (602214128999999.9, (-3, 0, 0, 0, 0)),
    'pW': (1e-12, (2, 1, -3, 0, 0)),
    'pc': (3.085677581491367e+16, (1, 0, 0, 0, 0)),
    'pg': (1e-15, (0, 1, 0, 0, 0)),
    'pm': (1e-12, (1, 0, 0, 0, 0)),
    'pmol': (602214129000.0, (0, 0, 0, 0, 0)),
    'ps': (1e-12, (0, 0, 1, 0, 0)),
    'psi': (6894.75729316836, (-1, 1, -2, 0, 0)),
    's': (1.0, (0, 0, 1, 0, 0)),
    'sigmaSB': (5.670373e-08, (0, 1, -3, 0, -4)),
    'smallcal': (4.184, (2, 1, -2, 0, 0)),
    'thou': (2.5400000000000004e-05, (1, 0, 0, 0, 0)),
    'tonne': (1000.0, (0, 1, 0, 0, 0)),
    'torr': (133.32236842105263, (-1, 1, -2, 0, 0)),
    'uA': (1e-06, (0, 0, -1, 1, 0)),
    'uBohr': (9.27400968e-24, (2, 0, -1, 1, 0)),
    'uC': (1e-06, (0, 0, 0, 1, 0)),
    'uF': (1e-06, (-2, -1, 2, 2, 0)),
    'uG': (1e-10, (0, 1, -1, -1, 0)),
    'uH': (1e-06, (2, 1, 0, -2, 0)),
    'uJ': (1e-06, (2, 1, -2, 0, 0)),
    'uL': (1e-09, (3, 0, 0, 0, 0)),
    'uM': (6.022141289999999e+20, (-3, 0, 0, 0, 0)),
    'uNuc': (5.05078353e-27, (2, 0, -1, 1, 0)),
    'uS': (1e-06, (-2, -1, 1, 2, 0)),
    'uT': (1e-06, (0, 1, -1, -1, 0)),
    'uV': (1e-06, (2, 1, -2, -1, 0)),
    'uW': (1e-06, (2, 1, -3, 0, 0)),
    'ug': (1e-09, (0, 1, 0, 0, 0)),
    'um': (1e-06, (1, 0, 0, 0, 0)),
    'umol': (6.02214129e+17, (0, 0, 0, 0, 0)),
    'us': (1e-06, (0, 0, 1, 0, 0)),
    'week': (604800.0, (0, 0, 1, 0, 0)),
    'year': (31558149.7635456, (0, 0, 1, 0, 0)),
}
