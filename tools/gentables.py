#!/usr/bin/env python3
"""Tables of n*log2(n) and log2(n) as fixed-point numbers <<h, m, l>> with 30
fraction bits, computed with 60 digits.  MC_Tables checks algebraic laws."""
import sys, json
from decimal import Decimal, getcontext
getcontext().prec = 60
def limbs(x):
    n = int((x * (1 << 30) + Decimal("0.5")).to_integral_value(rounding="ROUND_FLOOR"))
    return [n >> 30, (n >> 15) & 32767, n & 32767]
def main(out, n):
    ln2 = Decimal(2).ln()
    xl, lg = [[0, 0, 0]], []
    for k in range(1, n + 1):
        l = Decimal(k).ln() / ln2
        lg.append(limbs(l)); xl.append(limbs(k * l))
    json.dump({"xl": xl, "lg": lg}, open(out, "w"))
if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 8192)
