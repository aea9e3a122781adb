"""Inputs whose results have rare shapes; made by tools/genspecial.py."""
# private keys: leading or trailing zero bytes in x, y, script hash, checksums
KEYS = {'y0': [43, 444, 742], 'c0': [51, 72], 'w_0': [96, 584], 'y_0': [104, 376], 'ah_0': [119, 657], 'h0': [144, 284, 1063], 'x_0': [273, 567], 'x0even': [379, 552, 833], 'ah0': [390, 500], 'c_0': [623, 709], 'h_0': [658, 769], 'x0odd': [751, 783, 1094], 'w0': [1416, 1458], 'y00': [2376, 61552], 'x00': [40393]}
# (message, private key, shape of the signature)
SIGS = [('0001', 2, 's0'), ('0036', 1, 's0'), ('0042', 1, 's_0'), ('0062', 3, 'r0s0'), ('007a', 3, 's_0'), ('00a7', 3, 's0'), ('00b1', 1, 'r_0'), ('00d4', 3, 'r0'), ('0105', 1, 's_0'), ('0183', 1, 'r_0'), ('01b0', 1, 'r0'), ('021f', 1, 'r0'), ('04ed', 2, 'r_0'), ('062c', 3, 's00')]
# messages: leading or trailing zero bytes in a digest
MSGS = {'h1600': ['000000', '00062e'], 'h1600n': ['000007', '000011'], 'h2560n': ['000016', '00002a'], 'sha0n': ['00001d', '00001e'], 'h160_0': ['000043', '0002b2'], 'sha_0': ['00009a', '0001a9'], 'sha0': ['0000f7', '0001c6'], 'h256_0': ['0000fe', '00012d'], 'h2560': ['000114', '00012e'], 'h25600': ['00270c', '003582'], 'sha00': ['0076de', '02e238'], 'h16000': ['00bd96', '00ed7b']}
