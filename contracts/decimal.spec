package types

func divmod(h, l, div) (qh, ql, rem)
timeout 60
property C14
requires div > 0
ensures quo: (qh*pow2(64) + ql)*div + rem == h*pow2(64) + l
ensures rem: rem < div

func muladd(h, l, mul, add) (resh, resl, overflow)
timeout 60
property C14
ensures val: overflow*pow2(128) + resh*pow2(64) + resl == (h*pow2(64)+l)*mul + add

func NewDecimal128(h, l) (d)
property C14
ensures d.h == h && d.l == l

func (Decimal128).GetBytes(d) (a, b)
property C14
ensures a == d.h && b == d.l
