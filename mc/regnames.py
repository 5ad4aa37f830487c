"""Names and aliases the library has registered since its first published version (name -> class name)."""
Q = {
    'FE': ['FE', 'EE'],
    'RK21': ['RK21', 'ERK21'],
    'RK2': ['RK2', 'ERK2', 'ExplicitMidPoint', 'EMP'],
    'HEUN2': ['HEUN2', 'HEUN', 'HeunEuler'],
    'RK32': ['RK32', 'ERK32', 'RK32-SSP'],
    'RK33': ['RK33', 'ERK33', 'RK33-SSP'],
    'RK53': ['RK53', 'ERK53'],
    'RK4': ['RK4', 'ERK4'],
    'RK4_38': ['RK4_38', 'ERK4_38'],
    'RK65': ['RK65', 'ERK65'],
    'CashKarp': ['CashKarp', 'Cash_Karp'],
    'BE': ['BE', 'IE', 'SDIRK1'],
    'MidPoint': ['MidPoint', 'IMP', 'ImplicitMidPoint'],
    'TRAP': ['TRAP', 'TRAPZ', 'CN', 'CrankNicolson'],
    'SDIRK2': ['SDIRK2'],
    'SDIRK2_2': ['SDIRK2_2', 'SDIRK2-2'],
    'SDIRK3': ['SDIRK3'],
    'DIRK43': ['DIRK43'],
    'GAUSS_LG': ['GAUSS_LG', 'GAUSS-LG'],
    'SDIRK54': ['SDIRK54'],
    'EDIRK43': ['EDIRK43'],
    'EDIRK4': ['EDIRK4'],
    'ESDIRK43': ['ESDIRK43'],
    'ESDIRK53': ['ESDIRK53'],
    'ARK548L2SAERK': ['ARK548L2SAERK'],
    'ARK548L2SAESDIRK': ['ARK548L2SAESDIRK'],
    'ARK548L2SAESDIRK2': ['ARK548L2SAESDIRK2'],
    'ARK548L2SAERK2': ['ARK548L2SAERK2'],
    'ARK324L2SAERK': ['ARK324L2SAERK'],
    'ARK324L2SAESDIRK': ['ARK324L2SAESDIRK'],
    'ARK222EDIRK': ['ARK222EDIRK'],
    'ARK222ERK': ['ARK222ERK'],
    'ARK443ESDIRK': ['ARK443ESDIRK'],
    'ARK443ERK': ['ARK443ERK'],
    'ARK343ESDIRK': ['ARK343ESDIRK'],
    'ARK343ERK': ['ARK343ERK'],
    'ARK4EDIRK': ['ARK4EDIRK'],
    'ARK4ERK': ['ARK4ERK'],
    'Collocation': ['Collocation', 'coll'],
}
RK = {
    'FE': ['FE', 'EE'],
    'RK21': ['RK21', 'ERK21'],
    'RK2': ['RK2', 'ERK2', 'ExplicitMidPoint', 'EMP'],
    'HEUN2': ['HEUN2', 'HEUN', 'HeunEuler'],
    'RK32': ['RK32', 'ERK32', 'RK32-SSP'],
    'RK33': ['RK33', 'ERK33', 'RK33-SSP'],
    'RK53': ['RK53', 'ERK53'],
    'RK4': ['RK4', 'ERK4'],
    'RK4_38': ['RK4_38', 'ERK4_38'],
    'RK65': ['RK65', 'ERK65'],
    'CashKarp': ['CashKarp', 'Cash_Karp'],
    'BE': ['BE', 'IE', 'SDIRK1'],
    'MidPoint': ['MidPoint', 'IMP', 'ImplicitMidPoint'],
    'TRAP': ['TRAP', 'TRAPZ', 'CN', 'CrankNicolson'],
    'SDIRK2': ['SDIRK2'],
    'SDIRK2_2': ['SDIRK2_2', 'SDIRK2-2'],
    'SDIRK3': ['SDIRK3'],
    'DIRK43': ['DIRK43'],
    'GAUSS_LG': ['GAUSS_LG', 'GAUSS-LG'],
    'SDIRK54': ['SDIRK54'],
    'EDIRK43': ['EDIRK43'],
    'EDIRK4': ['EDIRK4'],
    'ESDIRK43': ['ESDIRK43'],
    'ESDIRK53': ['ESDIRK53'],
    'ARK548L2SAERK': ['ARK548L2SAERK'],
    'ARK548L2SAESDIRK': ['ARK548L2SAESDIRK'],
    'ARK548L2SAESDIRK2': ['ARK548L2SAESDIRK2'],
    'ARK548L2SAERK2': ['ARK548L2SAERK2'],
    'ARK324L2SAERK': ['ARK324L2SAERK'],
    'ARK324L2SAESDIRK': ['ARK324L2SAESDIRK'],
    'ARK222EDIRK': ['ARK222EDIRK'],
    'ARK222ERK': ['ARK222ERK'],
    'ARK443ESDIRK': ['ARK443ESDIRK'],
    'ARK443ERK': ['ARK443ERK'],
    'ARK343ESDIRK': ['ARK343ESDIRK'],
    'ARK343ERK': ['ARK343ERK'],
    'ARK4EDIRK': ['ARK4EDIRK'],
    'ARK4ERK': ['ARK4ERK'],
}
QDELTA = {
    'PIC': ['PIC', 'Picard'],
    'Exact': ['Exact', 'EXACT'],
    'LU': ['LU'],
    'LU2': ['LU2'],
    'QPar': ['QPar', 'Qpar', 'Qdiag'],
    'GS': ['GS', 'GaussSeidel'],
    'LDU': ['LDU'],
    'MIN': ['MIN', 'MIN-Speck'],
    'MIN3': ['MIN3', 'Magic_Numbers'],
    'MIN_VDHS': ['MIN_VDHS', 'VDHS'],
    'MIN_SR_NS': ['MIN_SR_NS', 'MIN-SR-NS', 'MIN_GT'],
    'MIN_SR_S': ['MIN_SR_S', 'MIN-SR-S'],
    'MIN_SR_FLEX': ['MIN_SR_FLEX', 'MIN-SR-FLEX'],
    'Jumper': ['Jumper', 'JUMPER', 'FB'],
    'FlexJumper': ['FlexJumper', 'FLEX-JUMPER', 'FB2'],
    'DNODES': ['DNODES', 'DNODES-1'],
    'DNODES2': ['DNODES2', 'DNODES-2'],
    'DNODES3': ['DNODES3', 'DNODES-3'],
    'DNODES4': ['DNODES4', 'DNODES-4'],
    'DNODES5': ['DNODES5', 'DNODES-5'],
    'BE': ['BE', 'IE'],
    'FE': ['FE', 'EE'],
    'TRAP': ['TRAP', 'CN'],
    'BEPAR': ['BEPAR', 'IEpar'],
    'TRAPAR': ['TRAPAR'],
    'SOE': ['SOE', 'LeapFrog', 'LF'],
}
