"""Reference data (recorded from the audited tables), used by the oracles."""
SHOMATE = [(('H2_g', 298.0, 1000.0),
  [33.066178, -11.363417, 11.432816, -2.772874, -0.158558, -9.980797, 172.707974, 0]),
 (('H2_g', 1000.0, 2500.0),
  [18.563083, 12.257357, -2.859786, 0.268238, 1.97799, -1.147438, 156.288133, 0]),
 (('H2_g', 2500.0, 6000.0),
  [43.41356, -4.293079, 1.272428, -0.096876, -20.533862, -38.515158, 162.081354, 0]),
 (('CH4_g', 298.0, 1300.0),
  [-0.703029, 108.4773, -42.52157, 5.862788, 0.678565, -76.84376, 158.7163, -74.8731]),
 (('CH4_g', 1300.0, 1600.0),
  [85.81217, 11.26467, -2.114146, 0.13819, -26.42221, -153.5327, 224.4143, -74.8731]),
 (('CO_g', 298.0, 1300.0),
  [25.56759, 6.09613, 4.054656, -2.671201, 0.131021, -118.0089, 227.3665, -110.5271]),
 (('CO_g', 1300.0, 1600.0),
  [35.1507, 1.300095, -0.205921, 0.01355, -3.28278, -127.8375, 231.712, -110.5271]),
 (('H2O_g', 100.0, 500.0),
  [36.303952, -24.11232, 63.64111, -38.9524, -0.01385, -10.23966, 237.39431, 0.0]),
 (('H2O_g', 500.0, 1700.0),
  [30.092, 6.832514, 6.793435, -2.53448, 0.082139, -250.881, 223.3967, -241.8264]),
 (('H2O_g', 1700.0, 6000.0),
  [41.96426, 8.622053, -1.49978, 0.098119, -11.15764, -272.1797, 219.7809, -241.8264]),
 (('CO2_g', 298.0, 1200.0),
  [24.99735, 55.18696, -33.69137, 7.948387, -0.136638, -403.6075, 228.2431, -393.5224]),
 (('CO2_g', 1200.0, 6000.0),
  [58.16639, 2.720075, -0.492289, 0.038844, -6.447293, -425.9186, 263.6125, -393.5224]),
 (('O2_g', 100.0, 700.0),
  [31.32234, -20.23531, 57.8664, -36.50624, -0.007374, -8.903471, 246.7945, 0.0]),
 (('O2_g', 700.0, 2000.0),
  [30.03235, 8.772972, -3.988133, 0.788313, -0.741599, -11.32468, 236.1663, 0.0]),
 (('O2_g', 2000.0, 6000.0),
  [20.91111, 10.72071, -2.020498, 0.146449, 9.245722, 5.337651, 237.6185, 0.0]),
 (('NH3_g', 298.0, 1400.0),
  [19.99563, 49.77119, -15.37599, 1.921168, 0.189174, -53.30667, 203.8591, -45.89806]),
 (('N2_g', 100.0, 500.0),
  [28.98641, 1.853978, -9.647459, 16.63537, 0.000117, -8.671914, 226.4168, 0.0]),
 (('N2_g', 500.0, 2000.0),
  [19.50583, 19.88705, -8.598535, 1.369784, 0.527601, -4.935202, 212.39, 0.0]),
 (('N2O_g', 298.0, 1400.0),
  [27.67988, 51.14898, -30.64454, 6.847911, -0.157906, 71.24934, 238.6164, 82.04824]),
 (('NO2_g', 298.0, 1200.0),
  [16.10857, 75.89525, -54.3874, 14.30777, 0.239423, 26.17464, 240.5386, 33.09502]),
 (('NO_g', 298.0, 1200.0),
  [23.83491, 12.58878, -1.139011, -1.497459, 0.214194, 83.35783, 237.1219, 90.29114]),
 (('NO3_g', 298.0, 1200.0),
  [11.22316, 166.3889, -148.4458, 47.40598, -0.176791, 61.00858, 221.7679, 71.128]),
 (('HNO2_g', 298.0, 1200.0),
  [24.89974, 91.37563, -64.84614, 17.92007, -0.134737, -88.13596, 254.2671, -76.73498]),
 (('HNO3_g', 298.0, 1200.0),
  [19.63229, 153.9599, -115.8378, 32.87955, -0.249114, -146.8818, 247.7049, -134.306]),
 (('HCN_g', 298.0, 1200.0),
  [32.69373, 22.59205, -4.369142, -0.407697, -0.282399, 123.4811, 233.2597, 135.1432]),
 (('CH2CH2_g', 298.0, 1200.0),
  [-6.38788, 184.4019, -112.9718, 28.49593, 0.31554, 48.17332, 163.1568, 52.46694]),
 (('CH2O_g', 298.0, 1500.0),
  [5.193767, 93.23249, -44.85457, 7.882279, 0.551175, -119.3591, 202.4663, -115.8972]),
 (('CH3OH_g', 298.0, 1500.0),
  [-0.5448050620926607,
   151.88669435629552,
   -78.31823594271188,
   16.106518370880025,
   0.4938089793474474,
   -5.008,
   200.05003685507603,
   0]),
 (('HCOOH_g', 298.0, 1500.0),
  [3.802752304225226,
   153.66217894746168,
   -84.64046773816926,
   16.297377707561505,
   0.2772064997263338,
   -6.16527,
   212.9698972559699,
   0]),
 (('CH3CH2OH_g', 273.0, 1300.0),
  [6.372731, 273.0132, -163.0101, 38.77719, 0.334329, -7.25, 201, 0])]
ROT = {'Br2_g': (2.0, (0.116,)),
 'CCl4_g': (12.0, (0.0826, 0.0826, 0.0826)),
 'CH4_g': (12.0, (7.6, 7.6, 7.6)),
 'CO2_g': (2.0, (0.66,)),
 'CO_g': (1.0, (2.78,)),
 'CS2_g': (2.0, (0.0643,)),
 'Cl2_g': (2.0, (0.351,)),
 'D2O_g': (2.0, (22.49, 10.56, 6.7)),
 'D2_g': (2.0, (43.8,)),
 'H2O_g': (2.0, (40.4, 21.1, 13.5)),
 'H2S_g': (2.0, (15.1, 13.09, 6.89)),
 'H2_g': (2.0, (87.5,)),
 'HBr_g': (1.0, (12.2,)),
 'HCl_g': (1.0, (15.2,)),
 'HI_g': (1.0, (9.43,)),
 'I2_g': (2.0, (0.0537,)),
 'N2O_g': (1.0, (0.61,)),
 'N2_g': (2.0, (2.89,)),
 'NH3_g': (3.0, (14.3, 14.3, 9.08)),
 'NO_g': (1.0, (2.45,)),
 'O2_g': (2.0, (2.08,)),
 'SO2_g': (2.0, (3.27, 0.55, 0.47))}
VIB = {'C2H2_g': (911.0, 1044.0, 2820.0, 4690.0, 4830.0),
 'CH4_g': (1870.0, 2180.0, 4170.0, 4320.0),
 'CHCl3_g': (374.0, 523.0, 938.0, 1090.0, 1745.0, 4330.0),
 'CO2_g': (954.0, 1890.0, 3360.0),
 'CO_g': (3120.0,),
 'H2O_g': (2290.0, 5160.0, 5360.0),
 'H2_g': (6320.0,),
 'HCl_g': (4330.0,),
 'I2_g': (309.0,),
 'N2O_g': (850.0, 1840.0, 3200.0),
 'N2_g': (3390.0,),
 'NH3_g': (1360.0, 2330.0, 4780.0, 4880.0),
 'NO_g': (2745.0,),
 'O2_g': (2278.0,)}
MASS = {'C': 12.0107,
 'Cl': 35.453,
 'F': 18.9984032,
 'H': 1.00794,
 'N': 14.0067,
 'Ne': 20.1797,
 'O': 15.9994,
 'S': 32.065}
